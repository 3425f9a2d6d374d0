//! No input from the network or caller makes the library panic; errors are of the documented kind.
use crate::engine::*;
use crate::fx::*;
use bip324::{Error, GarbageResult, Handshake, Initialized, Role, VersionResult};

fn pattern(k: usize, n: usize) -> Vec<u8> {
    match k {
        0 => vec![0; n],
        1 => vec![0xff; n],
        _ => det_bytes(600 + k as u64, n),
    }
}
/// Every length, every entry point.
fn decrypts(cx: &Cx, t: Tier) {
    let api = cx.pick("api", &APIS);
    let block = cx.choose("block", t.q(70, 300));
    let pat = cx.choose("pattern", 3);
    let pos = cx.pick("position", &[1u64, 223]);
    let mut c = pair_at(cx, 1, pos, pos).b.into_split().0;
    for n in block * 16..block * 16 + 16 {
        let b = pattern(pat, n);
        for aad in [None, Some(&b[..n.min(5)])] {
            cx.case(&(n, aad.is_some(), pat, pos));
            let r = open(api, &mut c, &b, aad).res;
            match r {
                Ok(_) => cx.fail(format!("junk of {n} bytes accepted ({api:?})")),
                Err(Error::CiphertextTooSmall) => cx.check(n < 17, || format!("{n} bytes reported as too small ({api:?})")),
                Err(Error::Decryption(_)) => cx.check(n >= 17, || format!("packet of {n} bytes, shorter than header and tag, not reported as too small ({api:?})")),
                Err(e) => cx.fail(format!("{n} bytes of junk: undocumented error {e:?} ({api:?})")),
            }
        }
    }
}
/// `decrypt` with every packet length and every buffer length.
fn buffers(cx: &Cx, t: Tier) {
    let n = cx.choose("packet length", t.q(60, 200));
    let mut c = pair_at(cx, 1, 1, 1).b.into_split().0;
    let b = pattern(2, n);
    for m in 0..=n + 3 {
        cx.case(&(n, m));
        let mut out = vec![0u8; m];
        match c.decrypt(&b, &mut out, None) {
            Ok(_) => cx.fail("junk accepted"),
            Err(Error::CiphertextTooSmall) => cx.check(n < 17, || format!("{n} bytes too small?")),
            Err(Error::BufferTooSmall { required_bytes }) => cx.check(n >= 17 && m < n - 16 && required_bytes == n - 16, || format!("packet {n}, buffer {m}: required {required_bytes}")),
            Err(Error::Decryption(_)) => cx.check(n >= 17 && m >= n - 16, || format!("packet {n}, buffer {m}: decryption attempted")),
            Err(e) => cx.fail(format!("undocumented error {e:?}")),
        }
    }
}
fn big(cx: &Cx) {
    let n = cx.pick("length", &[MAX_CONTENTS + 16, MAX_CONTENTS + 17, MAX_CONTENTS + 18, MAX_CONTENTS + 19, MAX_CONTENTS + 100, 16_777_215 + 17, 16_777_300, 70_000]);
    let api = cx.pick("api", &APIS);
    let mut c = pair_at(cx, 1, 1, 1).b.into_split().0;
    cx.op();
    match open(api, &mut c, &vec![9; n], None).res {
        Err(Error::PacketTooBig) => cx.check(api == Api::ToVec && n > MAX_CONTENTS + 17, || format!("{n} bytes reported as too big ({api:?})")),
        Err(Error::Decryption(_)) => cx.check(api != Api::ToVec || n <= MAX_CONTENTS + 17, || format!("{n} bytes beyond the limit ({api:?})")),
        r => cx.fail(format!("{n} bytes: {:?}", r.map(|_| ()))),
    }
}
/// Every value of each length byte (the ciphertext), at key-change positions.
fn lens(cx: &Cx) {
    let pos = cx.pick("position", &[1u64, 222, 223, 224, 447]);
    let hi = cx.choose("high byte", 256) as u8;
    let c = pair_at(cx, 1, pos, pos).b.into_split().0;
    for lo in 0..=255u8 {
        for mid in [0u8, 1, 0x7f, 0x80, 0xff, hi] {
            let l = c.clone().decrypt_packet_len([lo, mid, hi]);
            cx.check((17..17 + (1 << 24)).contains(&l), || format!("length {l} out of range"));
        }
    }
    cx.case(&(pos, hi));
    cx.ops(256 * 6);
}
/// Every peer key in a set of edge encodings, and every single-byte change of one.
fn keys(cx: &Cx) {
    let role = cx.pick("role", &ROLES);
    let magic = cx.pick("magic", &[MAGIC, [0; 4], [0xff; 4]]);
    let k = cx.choose("byte", 65);
    let v = cx.choose("value", 256) as u8;
    let base = cx.choose("base", 4);
    let mut key: [u8; 64] = match base {
        0 => [0; 64],
        1 => [0xff; 64],
        2 => ell(&secret(3)),
        _ => { let mut x = [0; 64]; x[..4].copy_from_slice(&magic); x }
    };
    if k < 64 {
        key[k] = v;
    } else if v > 0 {
        cx.skip()
    }
    let h = start(cx, magic, role, secret(9));
    let mut b = [0u8; 64];
    let Ok(h) = h.send_key(None, &mut b) else { cx.fail("send_key fails") };
    cx.op();
    match h.receive_key(key) {
        Ok(_) => cx.check(key[..4] != magic, || "V1 prefix accepted".into()),
        Err(Error::V1Protocol) => cx.check(key[..4] == magic, || "reported as V1".into()),
        Err(Error::SecretGeneration(_)) => {}
        Err(e) => cx.fail(format!("peer key: undocumented error {e:?}")),
    }
    cx.state(&(base, k, v));
}
fn sent_hs(cx: &Cx, role: Role) -> (Handshake<bip324::SentVersion>, crate::refm::Ref) {
    let s = sent(cx, MAGIC, role, secret(71), &[], &[], &ell(&secret(70)));
    let mut p = Peer::new(role);
    p.sk = secret(70);
    let r = p.refr(&s.key[..64].try_into().unwrap());
    (s.hs, r)
}
fn garbage(cx: &Cx, t: Tier) {
    let role = cx.pick("role", &ROLES);
    let block = cx.choose("block", t.q(70, 140));
    let pat = cx.choose("pattern", 3);
    let (mut h, _) = sent_hs(cx, role);
    for n in block * 64..block * 64 + 64 {
        cx.case(&(n, pat));
        match h.receive_garbage(&pattern(pat, n)) {
            Ok(GarbageResult::NeedMoreData(x)) => {
                cx.check(n < 4111, || format!("{n} bytes without terminator: more data wanted"));
                h = x;
            }
            Ok(_) => cx.fail("terminator found in junk"),
            Err(Error::NoGarbageTerminator) => {
                cx.check(n >= 4111, || format!("{n} bytes without terminator already fail"));
                h = sent_hs(cx, role).0;
            }
            Err(e) => cx.fail(format!("garbage: undocumented error {e:?}")),
        }
    }
}
fn version(cx: &Cx, t: Tier) {
    let role = cx.pick("role", &ROLES);
    let n = cx.choose("length", t.q(120, 400));
    let pat = cx.choose("pattern", 3);
    let glen = cx.pick("garbage", &[0usize, 7]);
    let (h, r) = sent_hs(cx, role);
    let b = [&contents(1, glen)[..], &r.send_term[..]].concat();
    let h = match h.receive_garbage(&b) {
        Ok(GarbageResult::FoundGarbage { handshake, .. }) => handshake,
        _ => cx.fail("terminator not found"),
    };
    cx.op();
    match h.receive_version(&mut pattern(pat, n)) {
        Ok(VersionResult::Complete { .. }) | Ok(VersionResult::Decoy(_)) => cx.fail("junk accepted as version packet"),
        Err(Error::CiphertextTooSmall) => cx.check(n < 17, || format!("{n} bytes reported as too small")),
        Err(Error::Decryption(_)) => cx.check(n >= 17, || format!("version packet of {n} bytes not reported as too small")),
        Err(e) => cx.fail(format!("version packet: undocumented error {e:?}")),
    }
    cx.state(&(n, pat, glen));
}
fn send_garbage(cx: &Cx) {
    let role = cx.pick("role", &ROLES);
    let n = cx.pick("garbage", &[0usize, 1, 4094, 4095, 4096, 4097, 5000, 65_535, 65_536, 1 << 20]);
    let bl = cx.pick("buffer", &[0usize, 63, 64, 64 + 4095, 64 + 4096, 1 << 21]);
    let g = vec![1; n];
    let mut b = vec![0; bl];
    cx.op();
    match start(cx, MAGIC, role, secret(9)).send_key(Some(&g), &mut b) {
        Ok(_) => cx.check(n <= 4095 && bl >= 64 + n, || format!("{n} bytes of garbage accepted for sending (buffer {bl})")),
        Err(Error::TooMuchGarbage) => cx.check(n > 4095, || format!("{n} bytes of garbage refused")),
        Err(Error::BufferTooSmall { required_bytes }) => cx.check(n <= 4095 && bl < 64 + n && required_bytes == 64 + n, || format!("garbage {n} buffer {bl}: required {required_bytes}")),
        Err(e) => cx.fail(format!("send_key: undocumented error {e:?}")),
    }
    // the drivers report it too
    for drv in DRVS {
        let net = Net::new(cx, Some(Peer::new(role)));
        let r = connect(cx, drv, &net, MAGIC, role, Some(g.clone()), None);
        match r {
            Out::Ok(_) => cx.check(n <= 4095, || format!("driver sends {n} bytes of garbage")),
            Out::Lib(Error::TooMuchGarbage) => cx.check(n > 4095 && net.l().out.is_empty(), || format!("{n} bytes of garbage refused by the driver")),
            Out::Lib(e) => cx.fail(format!("driver: {e:?}")),
            Out::Io(k, _) => cx.fail(format!("driver: {k:?}")),
            Out::Wait => cx.fail("driver hangs"),
        }
    }
    cx.state(&(n, bl));
}
/// Junk instead of a peer, at every length, through the drivers.
fn junk(cx: &Cx, t: Tier) {
    let drv = cx.pick("driver", &DRVS);
    let role = cx.pick("role", &ROLES);
    let pat = cx.choose("pattern", 3);
    let n = cx.choose("length", t.q(140, 400)) * t.q(37, 13);
    let net = Net::raw(cx, pattern(pat, n), End::Eof);
    match connect(cx, drv, &net, MAGIC, role, None, None) {
        Out::Ok(_) => cx.fail("handshake with junk completes"),
        Out::Io(k, _) => cx.check(k == std::io::ErrorKind::UnexpectedEof && n < 64 + 4111 + 256, || format!("junk of {n} bytes: {k:?}")),
        Out::Lib(Error::NoGarbageTerminator) => cx.check(n >= 64 + 4111, || format!("{n} bytes: no terminator")),
        Out::Lib(e) => cx.fail(format!("junk of {n} bytes: {e:?}")),
        Out::Wait => cx.fail("hangs"),
    }
    cx.state(&(n, pat));
}
/// Packets below the minimum announced in every way: an authentic stream cut, then junk.
fn session_junk(cx: &Cx) {
    let drv = cx.pick("driver", &DRVS);
    let role = cx.pick("role", &ROLES);
    let val = cx.choose("announced", 300);
    let body = cx.pick("body", &[0usize, 1, 16, 17, 40, 400]);
    let mut p = Peer::new(role);
    p.session = vec![(0, vec![1, 2])];
    let net = Net::new(cx, Some(p));
    net.l().end = End::Eof;
    let Out::Ok(mut c) = connect(cx, drv, &net, MAGIC, role, None, None) else { cx.fail("handshake fails") };
    let x = c.read(cx, &net);
    cx.check(matches!(x, Out::Ok(_)), || "first packet".into());
    {
        let mut g = net.l();
        let l = g.rf.as_mut().map(|r| r.send.only_len(val as u32)).unwrap();
        g.inb.extend_from_slice(&l);
        g.inb.extend(vec![0xcc; body]);
    }
    match c.read(cx, &net) {
        Out::Ok(_) => cx.fail("junk packet accepted"),
        Out::Io(..) => cx.check(body < val + 17, || "io error although all bytes are there".into()),
        Out::Lib(Error::Decryption(_)) => cx.check(body >= val + 17, || "decryption of an incomplete packet".into()),
        Out::Lib(e) => cx.fail(format!("{e:?}")),
        Out::Wait => cx.fail("hangs"),
    }
    cx.state(&(val, body));
}
/// Going on after an error: altered, oversized or junk packets, a lost transport, in any combination with
/// further reads and writes, never panics.
fn after(cx: &Cx, t: Tier) {
    let drv = cx.pick("driver", &DRVS);
    let role = cx.pick("role", &ROLES);
    let kind = cx.choose("trouble", 6);
    let size = cx.pick("contents", &[0usize, 1, 30, 5000]);
    let at = cx.choose("in packet", 3);
    let byte = cx.choose("byte", if size < 100 { 20 + size } else { 24 });
    let max = cx.pick("bytes per read", &[usize::MAX, 1, 7]);
    let mut p = Peer::new(role);
    p.session = (0..3).map(|k| (0, contents(k, size))).collect();
    let tot = 3 * (20 + size);
    let place = at * (20 + size) + byte;
    let net = Net::new(cx, Some(p));
    {
        let mut g = net.l();
        g.rd_max = max;
        g.end = if kind == 4 { End::Err(std::io::ErrorKind::TimedOut) } else { End::Eof };
        g.tamper = Some(Box::new(move |v| {
            let b = v.len() - tot + place;
            match kind {
                0 => v[b] ^= 1,
                1 => v[b] ^= 0x80,
                2 => drop(v.remove(b)),
                3 => v.insert(b, 0xee),
                4 | 5 => v.truncate(b),
                _ => {}
            }
        }));
    }
    let Out::Ok(mut c) = connect(cx, drv, &net, MAGIC, role, None, None) else { cx.fail("handshake fails") };
    let mut res = vec![];
    for k in 0..t.q(7, 12) {
        let x = c.read(cx, &net);
        res.push(matches!(x, Out::Ok(_)));
        if k % 2 == 1 {
            let w = c.write(cx, &net, &payload(false, &[k as u8; 5]));
            cx.check(w == Out::Ok(()), || format!("a write after a failed read fails: {}", short(&w)));
        }
    }
    cx.state(&(kind, place, max, res));
}
pub fn check(t: Tier) -> Check {
    let mut c = Check::new("C06", "model_checking",
        "every input length in range (and boundary lengths to beyond the limits) with three byte patterns through every receiving step of the sans-I/O interface and the drivers, in a build with overflow checks and debug assertions; the outcome must be a value or the documented error of the documented kind, a panic is a violation");
    c.add("decrypt entry points", 0, move |cx| decrypts(cx, t));
    c.add("decrypt buffers", 0, move |cx| buffers(cx, t));
    c.add("limits", 0, big);
    c.add("length prefixes", 0, lens);
    c.add("peer keys", 0, keys);
    c.add("garbage buffers", 0, move |cx| garbage(cx, t));
    c.add("version packets", 0, move |cx| version(cx, t));
    c.add("sending garbage", 0, send_garbage);
    c.add("junk peers", 0, move |cx| junk(cx, t));
    c.add("junk packets", 0, session_junk);
    c.add("going on after an error", 0, move |cx| after(cx, t));
    let _ = Handshake::<Initialized>::send_key_len(None);
    c
}
