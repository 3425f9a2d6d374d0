//! Receiver accepts only an exact prefix of what the peer sent.
use crate::engine::*;
use crate::fx::*;
use bip324::{InboundCipher, OutboundCipher, Role};

struct Pkt {
    bytes: Vec<u8>, // without the length prefix
    len3: [u8; 3],
    aad: Vec<u8>,
    decoy: bool,
    contents: Vec<u8>,
}
fn make(cx: &Cx, out: &mut OutboundCipher, i: u64) -> Pkt {
    let c = contents(i, [24usize, 0, 65, 9, 128, 47, 200][(i % 7) as usize]);
    let decoy = i % 3 == 1;
    let aad = if i % 2 == 0 { contents(900 + i, (i % 5) as usize) } else { vec![] };
    let v = match seal(EApi::Buf, out, &c, ty(decoy), Some(&aad)) {
        Ok(v) => v,
        Err(e) => cx.fail(format!("encrypt fails: {e:?}")),
    };
    Pkt { len3: v[..3].try_into().unwrap(), bytes: v[3..].to_vec(), aad, decoy, contents: c }
}
/// No fragment of the plaintext may be in the buffer of a rejected packet.
fn leak(buf: &[u8], pt: &[u8]) -> bool {
    let w = 6;
    if pt.len() < w || buf.len() < w {
        return false;
    }
    let set: std::collections::HashSet<&[u8]> = pt.windows(w).collect();
    buf.windows(w).any(|x| set.contains(x))
}
/// Positions in the key-change schedule: packets already carried by the direction under test.
fn positions(t: Tier) -> Vec<u64> {
    t.q(vec![1, 2, 221, 222, 223, 224, 447, 448], vec![1, 2, 3, 100, 220, 221, 222, 223, 224, 225, 446, 447, 448, 671, 672, 895, 896])
}

/// Every sequence of adversary deliveries.
fn sequences(cx: &Cx, t: Tier, depth: usize, mixed: bool) {
    let pos = cx.pick("position", &positions(t));
    let from = cx.pick("sender", &ROLES);
    let api0 = if mixed { None } else { Some(cx.pick("api", &APIS)) };
    let (i, r) = if from == Role::Initiator { (pos, 5) } else { (5, pos) };
    let p = pair_at(cx, 1, i, r);
    let (mut out, mut inb, _) = p.clone().towards(from);
    // another session at the same place, and the receiver's own packets
    let (mut fout, _, _) = pair_at(cx, 2, i, r).towards(from);
    let (mut rout, _, _) = pair_at(cx, 1, pos, pos).towards(other(from));
    let ps: Vec<Pkt> = (0..depth as u64 + 2).map(|k| make(cx, &mut out, k)).collect();
    let foreign = make(cx, &mut fout, 0);
    let refl = make(cx, &mut rout, 0);
    let mut next = 0usize;
    for _ in 0..depth {
        let api = api0.unwrap_or_else(|| cx.pick("api", &APIS));
        let n = &ps[next];
        let k = cx.choose("delivery", 14);
        let (bytes, aad): (Vec<u8>, Vec<u8>) = match k {
            0 => (n.bytes.clone(), n.aad.clone()),
            1 => (ps[next + 1].bytes.clone(), ps[next + 1].aad.clone()),
            2 if next > 0 => (ps[next - 1].bytes.clone(), ps[next - 1].aad.clone()),
            3 if next > 1 => (ps[0].bytes.clone(), ps[0].aad.clone()),
            2 | 3 => cx.skip(),
            4 => { let mut b = n.bytes.clone(); b[0] ^= 0x80; (b, n.aad.clone()) }
            5 => { let mut b = n.bytes.clone(); *b.last_mut().unwrap() ^= 1; (b, n.aad.clone()) }
            6 => { let mut b = n.bytes.clone(); let l = b.len(); b[l - 16] ^= 4; (b, n.aad.clone()) }
            7 => (n.bytes[..n.bytes.len() - 1].to_vec(), n.aad.clone()),
            8 => { let mut b = n.bytes.clone(); b.push(0); (b, n.aad.clone()) }
            9 => { let mut a = n.aad.clone(); a.push(0); (n.bytes.clone(), a) }
            10 => (n.bytes.clone(), if n.aad.is_empty() { vec![0; 16] } else { vec![] }),
            11 => (foreign.bytes.clone(), foreign.aad.clone()),
            12 => (refl.bytes.clone(), refl.aad.clone()),
            _ => { // tag of the next packet on another body
                let mut b = ps[next + 1].bytes.clone();
                let (l, m) = (b.len(), n.bytes.len());
                b[l - 16..].copy_from_slice(&n.bytes[m - 16..]);
                (b, n.aad.clone())
            }
        };
        cx.op();
        let o = open(api, &mut inb, &bytes, Some(&aad));
        let exact = bytes == n.bytes && aad == n.aad;
        match o.res {
            Ok((t, pt)) => {
                cx.check(exact, || format!("delivery {k} at packet {pos}+{next} accepted although it is not the next packet ({api:?})"));
                cx.check(pt.len() == n.contents.len() + 1 && pt[1..] == n.contents[..], || format!("accepted packet {pos}+{next} has altered contents ({api:?})"));
                cx.check(t == ty(n.decoy), || format!("accepted packet {pos}+{next} has altered type ({api:?})"));
                next += 1;
            }
            Err(e) => {
                cx.check(!exact, || format!("genuine next packet {pos}+{next} rejected after errors: {e:?} ({api:?})"));
                for q in [n, &ps[next + 1], &foreign, &refl] {
                    cx.check(!leak(&o.buf, &q.contents), || format!("buffer of a rejected packet holds plaintext ({api:?}, delivery {k})"));
                }
            }
        }
        cx.state(&(pos, is_ini(from), next, k));
    }
    cx.outcome(&format!("accepted{next}"));
}

/// Every single-bit alteration, truncation, and extension of packets of every small length.
fn alter(cx: &Cx, t: Tier) {
    let pos = cx.pick("position", &t.q(vec![1, 222, 223, 224], vec![1, 2, 222, 223, 224, 447, 448]));
    let from = cx.pick("sender", &ROLES);
    let api = cx.pick("api", &APIS);
    let len = cx.choose("length", t.q(72, 160));
    let aadl = cx.pick("aad length", &[0usize, 1, 33]);
    let (i, r) = if from == Role::Initiator { (pos, 5) } else { (5, pos) };
    let (mut out, inb, _) = pair_at(cx, 1, i, r).towards(from);
    let c = contents(len as u64, len);
    let aad = contents(7, aadl);
    let decoy = len % 2 == 1;
    let v = seal(EApi::Buf, &mut out, &c, ty(decoy), Some(&aad)).unwrap_or_else(|e| cx.fail(format!("encrypt: {e:?}")));
    let good = &v[3..];
    let mut live = inb.clone();
    let reject = |live: &mut InboundCipher, b: &[u8], a: &[u8], what: String| {
        cx.case(&(pos, aadl, b, a));
        let o = open(api, live, b, Some(a));
        cx.check(o.res.is_err(), || format!("packet of {len} bytes at {pos} accepted with {what} ({api:?})"));
        cx.check(!leak(&o.buf, &c), || format!("rejected packet ({what}) leaves plaintext in the buffer ({api:?})"));
    };
    let mut b = good.to_vec();
    for (k, m) in all_bits(good.len()) {
        b[k] ^= m;
        reject(&mut live, &b, &aad, format!("bit {m:#x} of byte {k} flipped"));
        b[k] ^= m;
    }
    for n in 0..good.len() {
        reject(&mut live, &good[..n], &aad, format!("truncation to {n}"));
        reject(&mut live, &good[good.len() - n..], &aad, format!("only its last {n} bytes"));
    }
    for n in 1..20 {
        let mut e = good.to_vec();
        e.resize(good.len() + n, 0);
        reject(&mut live, &e, &aad, format!("{n} zero bytes appended"));
        let mut e = vec![0; n];
        e.extend_from_slice(good);
        reject(&mut live, &e, &aad, format!("{n} zero bytes prepended"));
    }
    let mut a = aad.clone();
    for (k, m) in all_bits(aad.len()) {
        a[k] ^= m;
        reject(&mut live, good, &a, format!("bit of associated data byte {k} flipped"));
        a[k] ^= m;
    }
    for n in 0..aad.len() {
        reject(&mut live, good, &aad[..n], format!("associated data cut to {n}"));
    }
    for n in 1..18 {
        let mut a = aad.clone();
        a.resize(aadl + n, 0);
        reject(&mut live, good, &a, format!("{n} zero bytes appended to the associated data"));
    }
    // moving bytes between associated data and packet
    if aadl > 0 {
        let mut e = aad[aadl - 1..].to_vec();
        e.extend_from_slice(good);
        reject(&mut live, &e, &aad[..aadl - 1], "a byte moved from the associated data".into());
    }
    // after all that the true packet is still accepted
    let o = open(api, &mut live, good, Some(&aad));
    match o.res {
        Ok((t, pt)) => cx.check(t == ty(decoy) && pt[1..] == c[..], || "true packet altered".into()),
        Err(e) => cx.fail(format!("true packet rejected after rejected ones: {e:?}")),
    }
}

/// Packets and associated data of every order of magnitude: changes at every place next to a power of two,
/// counted from either end, cut and extended there.
fn large(cx: &Cx, t: Tier) {
    let pos = cx.pick("position", &[1u64, 223]);
    let from = cx.pick("sender", &ROLES);
    let api = cx.pick("api", &APIS);
    let big_aad = cx.flag("large associated data");
    let bits = t.q(vec![8u32, 10, 12, 14, 15, 16, 17, 20], (7..22).collect());
    let n = cx.pick("bytes", &around(bits, t.q(1 << 20, MAX_CONTENTS)));
    let (len, aadl) = if big_aad { (40, n) } else { (n, 20) };
    let (i, r) = if from == Role::Initiator { (pos, 5) } else { (5, pos) };
    let (mut out, inb, _) = pair_at(cx, 1, i, r).towards(from);
    let c = contents(len as u64, len);
    let mut aad = contents(7, aadl);
    let v = seal(EApi::Buf, &mut out, &c, ty(false), Some(&aad)).unwrap_or_else(|e| cx.fail(format!("encrypt: {e:?}")));
    let mut good = v[3..].to_vec();
    let mut live = inb.clone();
    let reject = |live: &mut InboundCipher, b: &[u8], a: &[u8], what: String| {
        cx.case(&(pos, n, big_aad, &what));
        let o = open(api, live, b, Some(a));
        cx.check(o.res.is_err(), || format!("packet of {len} bytes with {aadl} bytes of associated data accepted with {what} ({api:?})"));
    };
    let size = if big_aad { aadl } else { good.len() };
    let mut at: Vec<usize> = around((3..24).collect(), size).into_iter().flat_map(|x| [x, size.saturating_sub(x)]).filter(|x| *x < size).collect();
    at.sort();
    at.dedup();
    for k in at {
        for m in [1u8, 0x80] {
            let b = if big_aad { &mut aad } else { &mut good };
            b[k] ^= m;
            reject(&mut live, &good, &aad, format!("bit {m:#x} of byte {k} flipped"));
            let b = if big_aad { &mut aad } else { &mut good };
            b[k] ^= m;
        }
        if big_aad {
            reject(&mut live, &good, &aad[..k], format!("associated data cut to {k}"));
        } else {
            reject(&mut live, &good[..k], &aad, format!("truncation to {k}"));
        }
    }
    let mut a = aad.clone();
    a.push(0);
    reject(&mut live, &good, &a, "a byte appended to the associated data".into());
    match open(api, &mut live, &good, Some(&aad)).res {
        Ok((t, pt)) => cx.check(t == ty(false) && pt[1..] == c[..], || "true packet altered".into()),
        Err(e) => cx.fail(format!("true packet of {len} bytes rejected after rejected ones: {e:?}")),
    }
}
/// Streams through the blocking and asynchronous readers, going on after errors.
fn stream(cx: &Cx, t: Tier) {
    let drv = cx.pick("driver", &DRVS);
    let role = cx.pick("role", &ROLES);
    let mut p = Peer::new(role);
    let sizes = [3usize, 0, 20, 7];
    for (i, n) in sizes.iter().enumerate() {
        p.session.push((if i == 1 { 128 } else { 0 }, contents(i as u64, *n)));
    }
    let want = p.session.clone();
    let net = Net::new(cx, Some(p.clone()));
    let total: usize = sizes.iter().map(|n| n + 20).sum();
    let kind = cx.choose("edit", 6);
    let at = cx.choose("offset", total);
    let bounds: Vec<usize> = sizes.iter().scan(0, |s, n| { *s += n + 20; Some(*s) }).collect();
    let start_of = |k: usize| if k == 0 { 0 } else { bounds[k - 1] };
    let reps = if kind == 0 { t.q(2, 8) } else { 1 };
    let bit = 1u8 << (cx.choose("bit", reps) * 8 / reps);
    let pk = bounds.iter().position(|b| at < *b).unwrap();
    if kind >= 3 && at != start_of(pk) {
        cx.skip();
    }
    {
        let mut g = net.l();
        g.end = End::Eof;
        g.rd_max = cx.pick("chunk", &[usize::MAX, 1]);
        let (s, e) = (start_of(pk), bounds[pk]);
        g.tamper = Some(Box::new(move |v| {
            let h = v.len() - total;
            match kind {
                0 => v[h + at] ^= bit,
                1 => { v.remove(h + at); }
                2 => v.insert(h + at, 0x33),
                3 => { v.drain(h + s..h + e); }               // drop
                4 => { let c = v[h + s..h + e].to_vec(); for (i, b) in c.into_iter().enumerate() { v.insert(h + e + i, b) } } // duplicate
                _ => { // swap with the next
                    if e < total { let c: Vec<u8> = v.drain(h + s..h + e).collect(); let n = (v.len() - h - s).min(c.len().max(20)); let at2 = h + s + n; for (i, b) in c.into_iter().enumerate() { v.insert(at2 + i, b) } }
                    else { v.truncate(h + s) }
                }
            }
        }));
    }
    let mut c = match connect(cx, drv, &net, MAGIC, role, None, None) {
        Out::Ok(c) => c,
        Out::Io(k, _) => cx.fail(format!("handshake with an independent peer fails: {k:?}")),
        Out::Lib(e) => cx.fail(format!("handshake with an independent peer fails: {e:?}")),
        Out::Wait => cx.fail("handshake with an independent peer hangs"),
    };
    // everything accepted must be the peer's packets in order, none altered; a caller that goes on
    // reading after errors must never be given anything else
    let mut got = 0;
    let mut errs = 0;
    for _ in 0..8 {
        match c.read(cx, &net) {
            Out::Ok((d, b)) => {
                cx.check(got < want.len(), || "more packets than were sent".into());
                let (h, w) = &want[got];
                cx.check(b == *w && d == (h & 0x80 != 0), || format!("reader delivers a packet that is not packet {got} of the peer (edit {kind} at {at})"));
                got += 1;
            }
            _ => errs += 1,
        }
        if errs >= 3 {
            break;
        }
    }
    cx.outcome(&format!("delivered{got}"));
    cx.state(&(kind, at, bit));
}

pub fn check(t: Tier) -> Check {
    let mut c = Check::new("C01", "model_checking",
        "exhaustive enumeration, on the real ciphers, of every sequence of adversary deliveries up to the depth, every single-bit change, truncation, extension and associated-data change of every packet length in range, and every single-byte edit of a packet stream through both drivers; a model (index of the next packet) decides which deliveries may be accepted");
    let d = t.q(4, 5);
    c.add(format!("sequences depth {d}, one entry point"), 0, move |cx| sequences(cx, t, d, false));
    let d = t.q(2, 3);
    c.add(format!("sequences depth {d}, mixed entry points"), 0, move |cx| sequences(cx, t, d, true));
    c.add("every alteration of one packet", 0, move |cx| alter(cx, t));
    c.add("large packets and associated data", 0, move |cx| large(cx, t));
    c.add("edited streams through the drivers", 0, move |cx| stream(cx, t));
    c.assume("cryptographic primitives (ChaCha20, Poly1305) are as hard to forge as assumed; only the listed classes of alterations are tried");
    c
}
