//! Both ends stay in sync over any packet history.
use crate::engine::*;
use crate::fx::*;
use bip324::{CipherSession, Error, InboundCipher, OutboundCipher, PacketType};
use std::collections::VecDeque;

/// One end of a session, combined or split.
enum EndP {
    Whole(CipherSession),
    Halves(InboundCipher, OutboundCipher),
}
impl EndP {
    fn out(&mut self) -> &mut OutboundCipher {
        match self {
            EndP::Whole(s) => s.outbound(),
            EndP::Halves(_, o) => o,
        }
    }
    fn inb(&mut self) -> &mut InboundCipher {
        match self {
            EndP::Whole(s) => s.inbound(),
            EndP::Halves(i, _) => i,
        }
    }
}
struct Flight {
    bytes: Vec<u8>,
    contents: Vec<u8>,
    t: PacketType,
    aad: Option<Vec<u8>>,
}
fn deliver(cx: &Cx, e: &mut EndP, f: &Flight, api: Api, what: &str) {
    cx.op();
    let l = e.inb().decrypt_packet_len(f.bytes[..3].try_into().unwrap());
    cx.check(l == f.bytes.len() - 3, || format!("{what}: length decrypts to {l}, the packet has {}", f.bytes.len() - 3));
    let o = open(api, e.inb(), &f.bytes[3..], f.aad.as_deref());
    match o.res {
        Ok((t, pt)) => {
            cx.check(pt[1..] == f.contents[..], || format!("{what}: contents differ"));
            cx.check(t == f.t, || format!("{what}: type is {t:?}, sent {:?}", f.t));
        }
        Err(e) => cx.fail(format!("{what}: peer cannot decrypt: {e:?}")),
    }
}
/// Every sequence of operations on two connected ends.
fn ops(cx: &Cx, t: Tier, depth: usize) {
    let (i, r) = cx.pick("position", &t.q(vec![(1, 1), (222, 5), (223, 223), (446, 447)], vec![(1, 1), (221, 222), (222, 5), (5, 222), (223, 223), (224, 224), (446, 447), (671, 670)]));
    let p = pair_at(cx, 1, i, r);
    let mut e = [EndP::Whole(p.a), EndP::Whole(p.b)];
    let mut q: [VecDeque<Flight>; 2] = Default::default();
    let mut n = [i, r];
    let send = |cx: &Cx, e: &mut [EndP; 2], q: &mut [VecDeque<Flight>; 2], n: &mut [u64; 2], d: usize, v: usize| {
        let len = [0usize, 1, 40, 130][v % 4];
        let c = contents(n[d] * 2 + d as u64, len);
        let (pt, aad) = [(PacketType::Genuine, None), (PacketType::Decoy, Some(vec![9u8; 3])), (PacketType::Genuine, Some(vec![])), (PacketType::Decoy, None)][v % 4].clone();
        let api = if v % 2 == 0 { EApi::Buf } else { EApi::ToVec };
        cx.op();
        let bytes = match seal(api, e[d].out(), &c, pt, aad.as_deref()) {
            Ok(b) => b,
            Err(x) => cx.fail(format!("packet {} cannot be encrypted: {x:?}", n[d])),
        };
        n[d] += 1;
        q[d].push_back(Flight { bytes, contents: c, t: pt, aad });
    };
    for step in 0..depth {
        // 0..7 sends (direction, variant), 8..13 deliveries, 14.. transformations
        let k = cx.choose("op", 18);
        match k {
            0..=7 => send(cx, &mut e, &mut q, &mut n, k / 4, k % 4),
            8..=13 => {
                let d = (k - 8) / 3;
                let Some(f) = q[d].pop_front() else { cx.skip() };
                deliver(cx, &mut e[1 - d], &f, APIS[(k - 8) % 3], &format!("packet in direction {d}, step {step}"));
            }
            14 | 15 => {
                // replaced by its clone, the original is used up on something else
                let j = k - 14;
                let c = match &mut e[j] {
                    EndP::Whole(s) => EndP::Whole(s.clone()),
                    EndP::Halves(a, b) => EndP::Halves(a.clone(), b.clone()),
                };
                let mut old = std::mem::replace(&mut e[j], c);
                let _ = seal(EApi::Buf, old.out(), &[1, 2, 3], PacketType::Decoy, None);
                let _ = old.inb().decrypt_packet_len([1, 2, 3]);
            }
            _ => {
                let j = k - 16;
                e[j] = match &e[j] {
                    EndP::Whole(s) => {
                        let (a, b) = s.clone().into_split();
                        EndP::Halves(a, b)
                    }
                    EndP::Halves(..) => cx.skip(),
                };
            }
        }
        cx.state(&(i, r, n[0], n[1], q[0].len(), q[1].len(), k));
    }
    for d in 0..2 {
        for x in 0..2 {
            send(cx, &mut e, &mut q, &mut n, d, x);
        }
        while let Some(f) = q[d].pop_front() {
            deliver(cx, &mut e[1 - d], &f, Api::Decrypt, &format!("remaining packet in direction {d}"));
        }
    }
}

/// A long session: every packet of `n` in each direction, entry points and sizes rotating.
pub fn sweep(cx: &Cx, n: u64, seed: u64) {
    let p = pair_at(cx, seed, 1, 1);
    let (mut a, mut b) = (EndP::Whole(p.a), EndP::Whole(p.b));
    let pool = det_bytes(seed, 512);
    let mut buf = vec![0u8; 600];
    let mut pt = vec![0u8; 600];
    for k in 0..n {
        for d in 0..2 {
            if d == 1 && k % 3 == 2 {
                continue; // directions drift apart
            }
            let (s, r) = if d == 0 { (&mut a, &mut b) } else { (&mut b, &mut a) };
            let len = ((k * 7 + d) % 97) as usize + if k % 64 == 0 { 300 } else { 0 };
            let c = &pool[(k % 100) as usize..][..len];
            let t = ty(k % 5 == 3);
            let aad = if k % 11 == 0 { Some(&pool[..(k % 20) as usize]) } else { None };
            let total = len + 20;
            match k % 3 {
                0 => {
                    let v = seal(EApi::ToVec, s.out(), c, t, aad).unwrap_or_default();
                    cx.check(v.len() == total, || format!("packet {} has the wrong size", k + 1));
                    buf[..total].copy_from_slice(&v);
                }
                _ => {
                    if let Err(e) = s.out().encrypt(c, &mut buf[..total], t, aad) {
                        cx.fail(format!("packet {} cannot be encrypted: {e:?}", k + 1));
                    }
                }
            }
            let l = r.inb().decrypt_packet_len(buf[..3].try_into().unwrap());
            cx.check(l == len + 17, || format!("length of packet {} decrypts to {l} instead of {}", k + 1, len + 17));
            let got = match k % 4 {
                0 => r.inb().decrypt_in_place(&mut buf[3..total], aad).map(|(t, m)| (t, m[1..] == *c)),
                1 => r.inb().decrypt_to_vec(&buf[3..total], aad).map(|(t, m)| (t, m[1..] == *c)),
                _ => r.inb().decrypt(&buf[3..total], &mut pt[..len + 1], aad).map(|t| (t, pt[1..len + 1] == *c)),
            };
            match got {
                Ok((gt, same)) => cx.check(gt == t && same, || format!("packet {} decrypts to something else", k + 1)),
                Err(e) => cx.fail(format!("packet {} does not decrypt at the peer: {e:?}", k + 1)),
            }
        }
        if k % 97 == 0 {
            cx.state(&(seed, k));
        } else {
            cx.op();
        }
    }
}

/// Every contents length in the range, each followed by a small packet.
fn lengths(cx: &Cx, t: Tier) {
    let chunk = cx.choose("block of lengths", 66);
    let start = cx.pick("position", &[1u64, 223]);
    let (mut out, mut inb, _) = pair_at(cx, 1, start, 5).towards(bip324::Role::Initiator);
    let pool = det_bytes(3, 5000);
    let step = t.q(1, 1);
    for len in (chunk * 64..(chunk + 1) * 64).step_by(step) {
        let c = &pool[len % 7..][..len];
        let ea = [EApi::Buf, EApi::ToVec][len % 2];
        let api = APIS[len % 3];
        cx.case(&(start, len));
        let v = seal(ea, &mut out, c, ty(len % 5 == 0), None).unwrap_or_else(|e| cx.fail(format!("contents of {len} bytes cannot be encrypted: {e:?}")));
        let f = Flight { bytes: v, contents: c.to_vec(), t: ty(len % 5 == 0), aad: None };
        let mut e = EndP::Halves(inb.clone(), out.clone());
        deliver(cx, &mut e, &f, api, &format!("contents of {len} bytes"));
        let EndP::Halves(i, _) = e else { unreachable!() };
        inb = i;
    }
}
/// Boundary lengths up to and beyond the largest the format allows.
fn big(cx: &Cx) {
    let len = cx.pick("length", &[65_535usize, 65_536, 65_537, 1 << 20, 3_999_999, 4_000_012, 4_000_013, 4_000_014, 4_000_015, 8_388_607, 8_388_608, 16_777_214, 16_777_215, 16_777_216, 16_777_217, 16_777_232, 33_554_432, 20_000_000]);
    let drv = cx.choose("entry", 4);
    let (mut out, mut inb, _) = pair_at(cx, 1, 222, 5).towards(bip324::Role::Initiator);
    let c = vec![0x5au8; len];
    let fits = len <= 0xff_ffff;
    let first = match drv {
        0 => {
            let mut b = vec![0u8; len + 20];
            out.encrypt(&c, &mut b, PacketType::Genuine, None).map(|_| b)
        }
        1 => {
            if fits {
                Ok(out.encrypt_to_vec(&c, PacketType::Genuine, None))
            } else {
                // has no way to report an error: anything but a packet is a refusal
                match cx.catch(|| out.encrypt_to_vec(&c, PacketType::Genuine, None)) {
                    Ok(v) => Ok(v),
                    Err(_) => Err(Error::PacketTooBig),
                }
            }
        }
        d => {
            // through the drivers
            let drv = DRVS[d - 2];
            let net = Net::new(cx, Some(Peer::new(bip324::Role::Initiator)));
            let Out::Ok(mut conn) = connect(cx, drv, &net, MAGIC, bip324::Role::Initiator, None, None) else { cx.fail("handshake fails") };
            let r = conn.write(cx, &net, &payload(false, &c));
            match (&r, fits) {
                (Out::Ok(()), true) | (Out::Lib(_), false) => {}
                _ => cx.fail(format!("writing {len} bytes of contents: {}", short(&r))),
            }
            let r2 = conn.write(cx, &net, &payload(true, b"after"));
            cx.check(r2 == Out::Ok(()), || format!("write after: {}", short(&r2)));
            let (_, _, rest, mut rf) = check_sent(cx, &net);
            let (got, end) = crate::refm::parse_stream(&mut rf.recv, &rest);
            let mut want = vec![];
            if fits {
                want.push((0u8, c.clone()));
            }
            want.push((128, b"after".to_vec()));
            cx.check(end == Ok(0) && got == want, || format!("the peer cannot follow after contents of {len} bytes: {end:?}"));
            cx.outcome(if fits { "carried" } else { "refused" });
            return;
        }
    };
    match first {
        Ok(b) => {
            cx.check(fits, || format!("contents of {len} bytes, too many for the packet format, were encrypted"));
            let l = inb.decrypt_packet_len(b[..3].try_into().unwrap());
            cx.check(l == len + 17, || format!("length decrypts to {l} instead of {}", len + 17));
            let mut pt = vec![0u8; len + 1];
            match inb.decrypt(&b[3..], &mut pt, None) {
                Ok(t) => cx.check(t == PacketType::Genuine && pt[1..] == c[..], || "large contents altered".into()),
                Err(e) => cx.fail(format!("contents of {len} bytes do not decrypt: {e:?}")),
            }
            cx.outcome("carried");
        }
        Err(e) => {
            cx.check(!fits, || format!("contents of {len} bytes refused: {e:?}"));
            cx.outcome("refused");
        }
    }
    // next packet still understood
    let v = seal(EApi::Buf, &mut out, b"next", PacketType::Decoy, None).unwrap_or_else(|e| cx.fail(format!("{e:?}")));
    let l = inb.decrypt_packet_len(v[..3].try_into().unwrap());
    cx.check(l == 21, || format!("packet after large contents: length {l}"));
    let o = open(Api::Decrypt, &mut inb, &v[3..], None);
    cx.check(matches!(&o.res, Ok((PacketType::Decoy, p)) if p[1..] == *b"next"), || "packet after large contents does not decrypt".into());
}

pub fn check(t: Tier) -> Check {
    let mut c = Check::new("C02", "model_checking",
        "two real ends connected by an explored channel: every sequence of sends, deliveries through each entry point, clones and splits up to the depth from positions next to key changes; plus every packet of long sessions and every contents length in range; oracle: each packet decrypts to what was sent");
    let d = t.q(5, 6);
    c.add(format!("operation sequences depth {d}"), 0, move |cx| ops(cx, t, d));
    for s in 0..t.q(2u64, 4) {
        let n = t.q(120_000, 1_000_000);
        c.add_long(format!("session of {n} packets, keys {s}"), 0, 900, move |cx| sweep(cx, n, 20 + s));
    }
    if t == Tier::Thorough {
        c.add_long("session of 15000000 packets (epoch number beyond 16 bits)", 0, 3600, |cx| sweep(cx, 15_000_000, 30));
        c.add_long("2^32 + 500 packet lengths", 0, 7200, |cx| crate::c03::long_lengths(cx, (1 << 32) + 500));
    }
    c.add("every contents length", 0, move |cx| lengths(cx, t));
    c.add("boundary lengths", 0, big);
    c
}
