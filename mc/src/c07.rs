//! The decoy flag is read and written exactly.
use crate::engine::*;
use crate::fx::*;
use crate::refm;
use bip324::{PacketType, VersionResult};

const LENS: [usize; 5] = [0, 1, 2, 40, 300];

/// Every header byte through every decryption entry point.
fn headers(cx: &Cx, t: Tier) {
    let h = cx.choose("header", 256) as u8;
    let pos = cx.pick("position", &t.q(vec![1u64, 222, 223, 224], vec![1, 2, 221, 222, 223, 224, 225, 446, 447, 448, 1000]));
    let from = cx.pick("sender", &ROLES);
    let (_, inb, rf) = pair_at(cx, 1, pos, pos).towards(from);
    for api in APIS {
        for n in LENS {
            for aad in [None, Some(&b"aad"[..])] {
                let c = contents(n as u64, n);
                let p = rf.clone().packet_hdr(&c, h, aad.unwrap_or(&[]));
                let mut i = inb.clone();
                i.decrypt_packet_len(p[..3].try_into().unwrap());
                cx.case(&(h, pos, n, aad.is_some()));
                match open(api, &mut i, &p[3..], aad).res {
                    Ok((t, b)) => {
                        cx.check(t == ty(h & 0x80 != 0), || format!("header {h:#04x} with {n} bytes reported as {t:?} ({api:?})"));
                        cx.check(b[1..] == c[..], || format!("contents of a packet with header {h:#04x} ({api:?})"));
                    }
                    Err(e) => cx.fail(format!("packet with header {h:#04x} refused: {e:?} ({api:?})")),
                }
            }
        }
    }
}
/// Packets of the handshake, sans-I/O: any first header, any second header, then others.
fn handshake(cx: &Cx, t: Tier) {
    let role = cx.pick("role", &ROLES);
    let h0 = cx.choose("first header", 256) as u8;
    let more = t.q(vec![0x00u8, 0x01, 0x7f, 0x80, 0x81, 0xff], vec![0, 1, 2, 4, 8, 16, 32, 64, 0x7f, 0x80, 0x81, 0xc0, 0xfe, 0xff]);
    let h1 = cx.pick("second header", &more);
    let h2 = cx.pick("third header", &more);
    let n = cx.pick("contents", &t.q(vec![0usize, 1, 300], LENS.to_vec()));
    let mut p = Peer::new(role);
    p.garbage = if cx.flag("garbage") { contents(9, 40) } else { vec![] };
    p.hs = [h0, h1, h2, 0].iter().map(|h| (*h, contents(*h as u64, n))).collect();
    let s = sent(cx, MAGIC, role, secret(7), &[], &[], &p.ell());
    let mut rf = p.refr(&s.key[..64].try_into().unwrap());
    let (rest, _) = p.rest(&mut rf);
    let all = [&p.garbage[..], &rest[..]].concat();
    let want = p.hs.iter().position(|(h, _)| h & 0x80 == 0).unwrap();
    let wused = p.garbage.len() + 16 + (want + 1) * (20 + n);
    match receive(cx, s.hs, &all) {
        Hs::Done { used, decoys, mut cipher } => {
            cx.check(decoys == want, || format!("headers {h0:#x} {h1:#x} {h2:#x}: {decoys} packets skipped, want {want}"));
            cx.check(used == wused, || format!("{used} bytes used, want {wused}"));
            // what follows belongs to the session
            let mut at = used;
            for (h, c) in &p.hs[want + 1..] {
                let l = cipher.inbound().decrypt_packet_len(all[at..at + 3].try_into().unwrap());
                let o = open(Api::Decrypt, cipher.inbound(), &all[at + 3..at + 3 + l], None);
                cx.check(matches!(&o.res, Ok((t, b)) if *t == ty(h & 0x80 != 0) && b[1..] == c[..]), || format!("session packet with header {h:#x} after the handshake"));
                at += 3 + l;
            }
        }
        Hs::Need => cx.fail(format!("headers {h0:#x} {h1:#x} {h2:#x}: more bytes wanted")),
        Hs::Err(e) => cx.fail(format!("headers {h0:#x} {h1:#x} {h2:#x}: {e:?}")),
    }
    cx.state(&(h0, h1, h2, n));
}
/// Packet by packet: `receive_version` says Decoy or Complete after each.
fn steps(cx: &Cx) {
    let role = cx.pick("role", &ROLES);
    let h = cx.choose("header", 256) as u8;
    let nd = cx.choose("decoys before", 4);
    let mut p = Peer::new(role);
    p.hs = (0..nd).map(|k| (0x80 | k as u8 * 31, contents(1, k))).chain([(h, contents(2, 9)), (0, vec![])]).collect();
    let s = sent(cx, MAGIC, role, secret(7), &[], &[], &p.ell());
    let mut rf = p.refr(&s.key[..64].try_into().unwrap());
    let (rest, _) = p.rest(&mut rf);
    let (mut hs, mut at) = match s.hs.receive_garbage(&rest) {
        Ok(bip324::GarbageResult::FoundGarbage { handshake, consumed_bytes }) => (handshake, consumed_bytes),
        _ => cx.fail("terminator not found"),
    };
    for (k, (hd, _)) in p.hs.iter().enumerate() {
        let l = hs.decrypt_packet_len(rest[at..at + 3].try_into().unwrap()).unwrap_or_else(|e| cx.fail(format!("{e:?}")));
        let mut b = rest[at + 3..at + 3 + l].to_vec();
        at += 3 + l;
        match hs.receive_version(&mut b) {
            Ok(VersionResult::Decoy(x)) => {
                cx.check(hd & 0x80 != 0, || format!("packet {k} with header {hd:#04x} treated as decoy"));
                hs = x;
            }
            Ok(VersionResult::Complete { .. }) => {
                cx.check(hd & 0x80 == 0, || format!("packet {k} with header {hd:#04x} completed the handshake"));
                break;
            }
            Err(e) => cx.fail(format!("packet {k} with header {hd:#04x}: {e:?}")),
        }
    }
    cx.state(&(h, nd));
}
/// Both drivers: every header in the handshake and in the session.
fn drivers(cx: &Cx) {
    let drv = cx.pick("driver", &DRVS);
    let role = cx.pick("role", &ROLES);
    let h = cx.choose("header", 256) as u8;
    let n = cx.pick("contents", &[0usize, 1, 100]);
    let split = cx.flag("halves");
    let mut p = Peer::new(role);
    p.hs = vec![(h | 0x80, contents(4, n)), (h, contents(5, n)), (0, contents(6, n))];
    p.session = vec![(h, contents(1, n)), (h ^ 0x80, contents(2, n)), (h, vec![])];
    let net = Net::new(cx, Some(p.clone()));
    net.l().end = End::Eof;
    let mut c = match connect(cx, drv, &net, MAGIC, role, None, None) {
        Out::Ok(c) => c,
        Out::Io(k, _) => cx.fail(format!("handshake: {k:?}")),
        Out::Lib(e) => cx.fail(format!("handshake: {e:?}")),
        Out::Wait => cx.fail("handshake hangs"),
    };
    let done = p.hs.iter().position(|(h, _)| h & 0x80 == 0).unwrap();
    let mut want = p.hs[done + 1..].to_vec();
    want.extend(p.session.clone());
    let mut got_all = vec![];
    let mut check = |k: usize, r: Out<(bool, Vec<u8>)>| {
        let (h, w) = &want[k];
        cx.check(r == Out::Ok((h & 0x80 != 0, w.clone())), || format!("packet {k} with header {h:#04x}: {}", short(&r)));
        got_all.push(1);
        cx.op();
    };
    if split {
        match c {
            Conn::S(p) => {
                let (mut r, _w) = p.into_split();
                for k in 0..want.len() {
                    let x = r.read().map(|p| (p.packet_type() == PacketType::Decoy, p.contents().to_vec()));
                    check(k, norm(&net, x));
                }
            }
            Conn::A(p) => {
                let (mut r, _w) = p.into_split();
                for k in 0..want.len() {
                    let x = block(cx, r.read()).map(|x| x.map(|p| (p.packet_type() == PacketType::Decoy, p.contents().to_vec())));
                    check(k, x.map_or(Out::Wait, |x| norm(&net, x)));
                }
            }
        }
    } else {
        for k in 0..want.len() {
            let x = c.read(cx, &net);
            check(k, x);
        }
        // a received payload can be sent on; the reserved bits are not
        for k in 0..2 {
            let d = k == 1;
            let x = c.write(cx, &net, &payload(d, &contents(8, n)));
            cx.check(x == Out::Ok(()), || format!("write: {}", short(&x)));
        }
        let (_, _, rest, mut rf) = check_sent(cx, &net);
        let (got, tail) = refm::parse_stream(&mut rf.recv, &rest);
        cx.check(tail == Ok(0) && got == vec![(0, contents(8, n)), (128, contents(8, n))], || format!("headers sent: {:?}", got.iter().map(|x| x.0).collect::<Vec<_>>()));
    }
    cx.state(&(h, n, split, is_ini(role)));
}
/// Many packets of one type in a row, in the handshake and in the session, then one of the other.
fn runs(cx: &Cx, t: Tier) {
    let drv = cx.pick("driver", &DRVS);
    let role = cx.pick("role", &ROLES);
    let a = cx.pick("decoys in the handshake", &t.q(vec![0usize, 10, 101, 257, 1025, 5000], vec![0, 1, 10, 33, 65, 101, 129, 257, 1025, 5000, 70_000]));
    let b = cx.pick("decoys in the session", &t.q(vec![0usize, 10, 101, 257, 1025, 5000], vec![0, 1, 10, 33, 65, 101, 129, 257, 1025, 5000, 70_000]));
    let n = cx.pick("contents", &[0usize, 3]);
    let h = cx.pick("header", &[0x80u8, 0xff]);
    let mut p = Peer::new(role);
    p.hs = (0..a).map(|k| (h, contents(k as u64, n))).chain([(h & 0x7f, contents(5, n))]).collect();
    // and as many genuine ones
    p.session = (0..b).map(|k| (h, contents(k as u64, n))).chain((0..b + 1).map(|k| (h & 0x7f, contents(k as u64 + 9, n)))).chain([(h, vec![])]).collect();
    let net = Net::new(cx, Some(p.clone()));
    net.l().end = End::Eof;
    let mut c = match connect(cx, drv, &net, MAGIC, role, None, None) {
        Out::Ok(c) => c,
        Out::Io(k, _) => cx.fail(format!("handshake with {a} decoys before the version packet: {k:?}")),
        Out::Lib(e) => cx.fail(format!("handshake with {a} decoys before the version packet: {e:?}")),
        Out::Wait => cx.fail(format!("handshake with {a} decoys before the version packet hangs")),
    };
    for (k, (h, w)) in p.session.iter().enumerate() {
        let r = c.read(cx, &net);
        cx.op();
        cx.check(r == Out::Ok((h & 0x80 != 0, w.clone())), || format!("after {a} decoys in the handshake, session packet {k} with header {h:#04x}: {}", short(&r)));
    }
    cx.state(&(a, b, n, h));
}
/// A received payload, reserved bits and all, is written to another connection.
fn relay(cx: &Cx) {
    let drv = cx.pick("driver", &DRVS);
    let h = cx.choose("header", 256) as u8;
    let role = cx.pick("role", &ROLES);
    let mut p = Peer::new(role);
    p.session = vec![(h, contents(1, 30))];
    let net = Net::new(cx, Some(p.clone()));
    let Out::Ok(mut c) = connect(cx, drv, &net, MAGIC, role, None, None) else { cx.fail("handshake") };
    let pl = match &mut c {
        Conn::S(p) => p.read().ok(),
        Conn::A(p) => block(cx, p.read()).and_then(|r| r.ok()),
    };
    let Some(pl) = pl else { cx.fail("read") };
    let x = c.write(cx, &net, &pl);
    cx.check(x == Out::Ok(()), || format!("write: {}", short(&x)));
    let x = c.write(cx, &net, &pl.clone());
    cx.check(x == Out::Ok(()), || format!("write: {}", short(&x)));
    let (_, _, rest, mut rf) = check_sent(cx, &net);
    let (got, tail) = refm::parse_stream(&mut rf.recv, &rest);
    let w = (h & 0x80, contents(1, 30));
    cx.check(tail == Ok(0) && got == vec![w.clone(), w], || format!("payload received with header {h:#04x} was sent with header {:?}", got.first().map(|x| x.0)));
    cx.state(&h);
}
/// Everything sent carries 0 or 128.
fn sends(cx: &Cx, t: Tier) {
    let pos = cx.pick("position", &t.q(vec![1u64, 223], vec![1, 222, 223, 224, 447]));
    let from = cx.pick("sender", &ROLES);
    let n = cx.choose("contents", t.q(300, 1100));
    let (mut out, _, mut rf) = pair_at(cx, 1, pos, pos).towards(from);
    for (k, api) in [EApi::Buf, EApi::ToVec, EApi::Buf, EApi::ToVec].into_iter().enumerate() {
        for aad in [None, Some(&b"x"[..])] {
            for d in [k % 2 == 0, k % 2 == 1] {
                // contents that themselves look like headers
                for c in [contents(n as u64, n), vec![0x80; n], vec![0; n]] {
                    cx.case(&(n, k, d, aad.is_some()));
                    let p = seal(api, &mut out, &c, ty(d), aad).unwrap_or_else(|e| cx.fail(format!("encrypt: {e:?}")));
                    rf.open_len(p[..3].try_into().unwrap());
                    match rf.open(aad.unwrap_or(&[]), &p[3..]) {
                        Some((h, c2)) => cx.check(h == if d { 128 } else { 0 } && c2 == c, || format!("{:?} packet sent with header {h:#04x}", ty(d))),
                        None => cx.fail("packet does not authenticate"),
                    }
                }
            }
        }
    }
}
fn hs_sends(cx: &Cx) {
    let role = cx.pick("role", &ROLES);
    let nd = cx.choose("decoys", 6);
    let g = cx.pick("garbage", &[0usize, 1, 4095]);
    let d: Vec<Vec<u8>> = (0..nd).map(|k| contents(k as u64, [0, 1, 5, 300, 2000][k % 5])).collect();
    let p = Peer::new(role);
    let s = sent(cx, MAGIC, role, secret(7), &contents(1, g), &d, &p.ell());
    let mut rf = p.refr(&s.key[..64].try_into().unwrap());
    let mut b = &s.version[16..];
    let mut aad = contents(1, g);
    for k in 0..=nd {
        let l = rf.recv.open_len(b[..3].try_into().unwrap());
        cx.check(b.len() >= 20 + l, || "length".into());
        match rf.recv.open(&aad, &b[3..20 + l]) {
            Some((h, _)) => cx.check(h == if k < nd { 128 } else { 0 }, || format!("handshake packet {k} of {nd} decoys sent with header {h:#04x}")),
            None => cx.fail("handshake packet does not authenticate"),
        }
        aad.clear();
        b = &b[20 + l..];
        cx.state(&(nd, k, g));
    }
    cx.check(b.is_empty(), || "bytes after the version packet".into());
}
/// The shaped connections: every header received, both types sent, received payloads sent on.
fn shaped(cx: &Cx) {
    use crate::sh::*;
    let asy = cx.flag("asynchronous");
    let cfg = cx.pick("configuration", &CFG);
    let role = cx.pick("role", &ROLES);
    let h = cx.choose("header", 256) as u8;
    let mut p = Peer::new(role);
    p.session = vec![(h, contents(1, 30)), (h ^ 0x80, contents(2, 3)), (h, vec![])];
    let net = Net::new(cx, Some(p.clone()));
    words(cx, &net, Words::Fixed(0), Words::Fixed(HI));
    cx.seed_fill(8);
    let own = [payload(false, &msg(3, 9)), payload(true, &msg(4, 9)), payload(true, &msg(5, 2000)), payload(false, &[])];
    let want = p.session.clone();
    let got = move |cx: &Cx, k: usize, r: Result<bip324::io::Payload, bip324::io::ProtocolError>| {
        let (h, w) = &want[k];
        cx.op();
        match r {
            Ok(x) => {
                cx.check((x.packet_type() == PacketType::Decoy) == (h & 0x80 != 0) && x.contents() == &w[..], || format!("shaped connection: packet {k} with header {h:#04x} is reported as {:?}", x.packet_type()));
                x
            }
            Err(e) => cx.fail(format!("shaped connection: packet {k} with header {h:#04x}: {e:?}")),
        }
    };
    let sent = move |cx: &Cx, net: &Net, all: &[bip324::io::Payload]| {
        let v = view(cx, net);
        let all: Vec<(bool, Vec<u8>)> = all.iter().map(|p| (p.packet_type() == PacketType::Decoy, p.contents().to_vec())).collect();
        subsequence(cx, &v, &all, &vec![true; all.len()]);
        cx.check(cfg != (false, false) || v.packets == all, || "shaped connection: the packets sent are not those written, with their types".into());
    };
    fn bad<T>(cx: &Cx, what: &str, r: Result<T, bip324::io::ProtocolError>) -> T {
        r.unwrap_or_else(|e| cx.fail(format!("shaped connection: {what}: {e:?}")))
    }
    let net2 = net.clone();
    if asy {
        let cx2 = cx.clone();
        rt(cx, async move {
            let cx = &cx2;
            let r = bip324_traffic::futures::ShapedProtocol::new(MAGIC, role, config(cfg), net.clone(), net.clone()).await;
            let mut c = bad(cx, "handshake", r);
            let mut all = vec![];
            for k in 0..3 {
                all.push(got(cx, k, c.read().await));
            }
            all.extend(own);
            for x in &all {
                bad(cx, "write", c.write(x).await);
            }
            drop(c);
            anap(300).await;
            sent(cx, &net, &all);
        });
    } else {
        cx.threads(60_000, move |cx| {
            let r = bip324_traffic::io::ShapedProtocol::new(MAGIC, role, config(cfg), net.clone(), net.clone());
            let mut c = bad(cx, "handshake", r);
            let mut all = vec![];
            for k in 0..3 {
                all.push(got(cx, k, c.read()));
            }
            all.extend(own);
            for x in &all {
                bad(cx, "write", c.write(x));
            }
            drop(c);
            sent(cx, &net, &all);
        });
    }
    let n = net2.l().out.len();
    cx.state(&(asy, cfg, h, n));
}
fn types(cx: &Cx) {
    for h in 0..=255u8 {
        cx.case(&h);
        cx.check(PacketType::from_byte(&h) == ty(h & 0x80 != 0), || format!("from_byte({h})"));
        cx.check(PacketType::from_byte(&h).to_byte() == h & 0x80, || format!("to_byte({h})"));
    }
}
pub fn check(t: Tier) -> Check {
    let mut c = Check::new("C07", "model_checking",
        "all 256 header bytes, sent by the independent implementation, through every decryption entry point, the sans-I/O handshake (all first headers x second x third), both drivers' handshakes and sessions, and relayed payloads; all packets sent are opened by the independent implementation");
    c.add("headers through entry points", 0, move |cx| headers(cx, t));
    c.add("handshake header sequences", 0, move |cx| handshake(cx, t));
    c.add("handshake packet by packet", 0, steps);
    c.add("drivers", 0, drivers);
    c.add("many packets of one type in a row", 0, move |cx| runs(cx, t));
    c.add("relayed payloads", 0, relay);
    c.add("shaped connections", 0, shaped);
    c.add("headers sent", 0, move |cx| sends(cx, t));
    c.add("handshake headers sent", 0, hs_sends);
    c.add("header byte conversion", 0, types);
    c
}
