//! Forward secrecy: keys of the past are gone.
//!
//! The memory of the session objects (and of everything they keep on the heap) is searched for every
//! key an independent implementation of the key schedule says was used before the current one.
use crate::alloc::{live_blocks, tracked, untrack};
use crate::engine::*;
use crate::fx::*;
use crate::refm::{self, Dir};
use bip324::{CipherSession, InboundCipher, OutboundCipher, PacketType, Role};

/// A key, never stored as it is.
type Hidden = [u8; 32];
fn hide(k: &[u8; 32]) -> Hidden {
    k.map(|b| !b)
}
/// The keys one cipher went through; the last is in use.
#[derive(Clone, Default)]
struct Trail(Vec<Hidden>);
impl Trail {
    /// `k` is used for the next packet.
    fn used(&mut self, k: &[u8; 32]) {
        let h = hide(k);
        if self.0.last() != Some(&h) {
            self.0.push(h);
        }
    }
    fn old(&self) -> &[Hidden] {
        &self.0[..self.0.len().saturating_sub(1)]
    }
}
/// Packet key and length key of one direction, as one end has used them.
#[derive(Clone, Default)]
struct Line {
    packet: Trail,
    length: Trail,
}
impl Line {
    /// After `n` packets of a direction.
    fn after(fresh: &Dir, n: u64) -> Line {
        let mut d = fresh.clone();
        let mut l = Line::default();
        for _ in 0..n {
            let (p, q) = d.keys_now();
            l.packet.used(&p);
            l.length.used(&q);
            d.skip(1);
        }
        l
    }
    fn old(&self) -> impl Iterator<Item = (&'static str, &Hidden)> {
        self.packet.old().iter().map(|k| ("packet key", k)).chain(self.length.old().iter().map(|k| ("length key", k)))
    }
}
/// Does memory contain either half of a key?
fn holds(mem: &[u8], k: &Hidden) -> bool {
    let n = mem.len();
    for h in [&k[..16], &k[16..]] {
        if n < 16 {
            continue;
        }
        for i in 0..=n - 16 {
            if mem[i] == !h[0] && mem[i..i + 16].iter().zip(h).all(|(a, b)| *a == !*b) {
                return true;
            }
        }
    }
    false
}
fn mem_of<T>(t: &T) -> Vec<u8> {
    let n = std::mem::size_of_val(t);
    let p = t as *const T as *const u8;
    // padding may be uninitialised: read byte by byte
    (0..n).map(|i| unsafe { std::ptr::read_volatile(p.add(i)) }).collect()
}
fn scan<'a, T>(cx: &Cx, tag: u8, name: &str, obj: &T, bad: impl Iterator<Item = (&'static str, &'a Hidden)>, when: &dyn Fn() -> String) {
    let m = mem_of(obj);
    for (i, (what, k)) in bad.enumerate() {
        if holds(&m, k) {
            cx.fail(format!("{}: the memory of {name} still holds an earlier {what} (number {i})", when()));
        }
        let mut hit = false;
        let ok = live_blocks(tag, |b| hit |= holds(b, k));
        if !ok {
            cx.outcome("more heap blocks than can be tracked");
        }
        if hit {
            cx.fail(format!("{}: memory owned by {name} still holds an earlier {what} (number {i})", when()));
        }
    }
}
const POS: [u64; 5] = [222, 223, 224, 447, 448];
#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Send(EApi),
    /// a call refused for its buffer
    Refused,
    /// the next packet in flight
    Get(Api),
    /// altered, then intact
    Altered(Api),
    /// go on with a copy
    Copy,
}
const OPS: [Op; 8] = [
    Op::Send(EApi::Buf), Op::Send(EApi::ToVec), Op::Refused, Op::Get(Api::Decrypt), Op::Get(Api::InPlace), Op::Get(Api::ToVec),
    Op::Altered(Api::InPlace), Op::Copy,
];
/// Every sequence of operations on the two ends of one direction next to a key change.
fn ops(cx: &Cx, t: Tier) {
    let from = cx.pick("sender", &ROLES);
    let pos = cx.pick("packets before", &POS);
    let lag = cx.choose("packets in flight", 2) as u64;
    untrack();
    let p = pair_at(cx, 27, pos - lag, pos - lag);
    let fresh = if is_ini(from) { p.keys.i2r.clone() } else { p.keys.r2i.clone() };
    let (s, r, mut d) = p.towards(from);
    let (mut s, mut r) = (tracked(1, || Box::new(s)), tracked(2, || Box::new(r)));
    let mut sl = Line::after(&fresh, pos - lag);
    let mut rl = sl.clone();
    let mut rd = d.clone();
    let mut wire: std::collections::VecDeque<(Vec<u8>, usize)> = Default::default();
    let depth = t.q(4, 6);
    let mut hist: Vec<Op> = vec![];
    for k in 0..depth + lag as usize {
        let op = if k < lag as usize { Op::Send(EApi::Buf) } else { cx.pick("operation", &OPS) };
        cx.op();
        hist.push(op);
        match op {
            Op::Send(a) => {
                let pt = contents(k as u64, 5 * k);
                let (pk, lk) = d.keys_now();
                let w = d.packet(&pt, k % 2 == 1, b"");
                let g = tracked(1, || seal(a, &mut s, &pt, ty(k % 2 == 1), None));
                match g {
                    Ok(g) => cx.check(g == w, || format!("{hist:?}: sealed differently from the specification")),
                    Err(e) => cx.fail(format!("{hist:?}: {e:?}")),
                }
                sl.packet.used(&pk);
                sl.length.used(&lk);
                wire.push_back((w, pt.len()));
            }
            Op::Refused => {
                let e = tracked(1, || s.encrypt(&[1, 2, 3], &mut [0u8; 4], PacketType::Genuine, None)).is_err();
                cx.check(e, || "short buffer accepted".into());
            }
            Op::Get(a) | Op::Altered(a) => {
                let Some((w, n)) = wire.pop_front() else { cx.skip() };
                let (pk, lk) = rd.keys_now();
                let l = tracked(2, || r.decrypt_packet_len(w[..3].try_into().unwrap()));
                cx.check(l == n + 17, || format!("{hist:?}: length {l}"));
                rl.length.used(&lk);
                scan(cx, 2, "the receiving cipher", &*r, rl.old(), &|| format!("after {pos}+{hist:?} (length only)"));
                if let Op::Altered(_) = op {
                    let mut x = w.clone();
                    x[3] ^= 1;
                    let e = tracked(2, || open(a, &mut r, &x[3..], None).res.is_err());
                    cx.check(e, || "altered packet accepted".into());
                    scan(cx, 2, "the receiving cipher", &*r, rl.old(), &|| format!("after {pos}+{hist:?} (refused)"));
                }
                let o = tracked(2, || open(a, &mut r, &w[3..], None).res);
                cx.check(o.is_ok(), || format!("{hist:?}: {}", short(&o)));
                rd.skip(1);
                rl.packet.used(&pk);
            }
            Op::Copy => {
                tracked(1, || s = Box::new((*s).clone()));
                tracked(2, || r = Box::new((*r).clone()));
            }
        }
        scan(cx, 1, "the sending cipher", &*s, sl.old(), &|| format!("after {pos}+{hist:?}"));
        scan(cx, 2, "the receiving cipher", &*r, rl.old(), &|| format!("after {pos}+{hist:?}"));
    }
    cx.case(&(pos, lag, format!("{hist:?}")));
    cx.state(&d.fp());
}
/// A whole session object: handshake secrets are gone at its start, keys as they are replaced, and
/// what it is split into is as clean.
fn session(cx: &Cx, t: Tier) {
    let role = cx.pick("role", &ROLES);
    let decoys = cx.choose("handshake decoys", t.q(2, 4));
    let split = cx.pick("split at", &[None, Some(1u64), Some(222), Some(223), Some(300), Some(460)]);
    let aim = t.q(1200, 7000);
    untrack();
    let (sk, psk) = (secret(71), secret(72));
    let mut rp = Peer::new(role);
    rp.sk = psk;
    rp.hs = (0..decoys).map(|k| (128, vec![k as u8; 30])).chain([(0, vec![])]).collect();
    let st = tracked(2, || sent(cx, MAGIC, role, sk, &[7; 20], &[], &rp.ell()));
    let mine: [u8; 64] = st.key[..64].try_into().unwrap();
    let mut rf = rp.refr(&mine);
    let (flight, _) = rp.rest(&mut rf);
    let s = match tracked(2, || receive(cx, st.hs, &flight)) {
        Hs::Done { cipher, .. } => cipher,
        _ => cx.fail("the handshake does not complete"),
    };
    let (i, r) = if is_ini(role) { (mine, rp.ell()) } else { (rp.ell(), mine) };
    let shared = hide(&refm::ecdh(&i, &r, &sk, is_ini(role)));
    let keys = refm::derive(&hide(&shared), &MAGIC);
    let own = hide(&sk);
    let (o, n) = if is_ini(role) { (keys.i2r, keys.r2i) } else { (keys.r2i, keys.i2r) };
    // the peer is the reference; `rd` follows what we send, `rf.send` produces what we receive
    let (mut out, mut inn) = (o.clone(), n.clone());
    out.skip(1);
    inn.skip(decoys as u64 + 1);
    let (mut ol, mut il) = (Line::after(&o, 1), Line::after(&n, decoys as u64 + 1));
    enum S {
        Whole(Box<CipherSession>),
        Parts(Box<InboundCipher>, Box<OutboundCipher>),
    }
    let mut s = S::Whole(tracked(2, || Box::new(s)));
    let look = |s: &S, ol: &Line, il: &Line, k: u64| {
        let hs = || [("local secret", &own), ("shared secret", &shared)].into_iter();
        let w = || format!("{k} packets after the handshake");
        match s {
            S::Whole(s) => scan(cx, 2, "the session", &**s, hs().chain(ol.old()).chain(il.old()), &w),
            S::Parts(i, o) => {
                scan(cx, 2, "the receiving half", &**i, hs().chain(il.old()).chain(ol.old()), &w);
                scan(cx, 2, "the sending half", &**o, hs().chain(ol.old()).chain(il.old()), &w);
            }
        }
    };
    look(&s, &ol, &il, 0);
    for k in 0..aim {
        if split == Some(k) {
            if let S::Whole(w) = s {
                let (i, o) = tracked(2, || {
                    let (i, o) = w.into_split();
                    (Box::new(i), Box::new(o))
                });
                s = S::Parts(i, o);
            }
        }
        cx.ops(2);
        let pt = contents(k, (k % 37) as usize);
        let (pk, lk) = out.keys_now();
        let g = tracked(2, || seal(if k % 2 == 0 { EApi::Buf } else { EApi::ToVec }, match &mut s { S::Whole(s) => s.outbound(), S::Parts(_, o) => o }, &pt, PacketType::Genuine, None));
        let w = out.packet(&pt, false, &[]);
        cx.check(g.as_ref() == Ok(&w), || format!("packet {k} differs from the specification"));
        ol.packet.used(&pk);
        ol.length.used(&lk);
        let (pk, lk) = inn.keys_now();
        let w = inn.packet(&pt, k % 5 == 0, &[]);
        let r = match &mut s { S::Whole(s) => s.inbound(), S::Parts(i, _) => i };
        let l = tracked(2, || r.decrypt_packet_len(w[..3].try_into().unwrap()));
        il.length.used(&lk);
        let o = tracked(2, || open(APIS[(k % 3) as usize], r, &w[3..], None).res);
        cx.check(l == pt.len() + 17 && o.is_ok(), || format!("packet {k} is not received: {}", short(&o)));
        il.packet.used(&pk);
        look(&s, &ol, &il, k + 1);
    }
    cx.case(&(decoys, split));
    cx.state(&out.fp());
}
/// Both drivers: keys that were replaced while they ran are in nothing they own.
fn driver(cx: &Cx, t: Tier) {
    let drv = cx.pick("driver", &DRVS);
    let role = cx.pick("role", &ROLES);
    let halves = cx.flag("split");
    let aim = t.q(1200u64, 7000);
    untrack();
    let mut p = Peer::new(role);
    p.session = (0..aim).map(|k| (if k % 4 == 1 { 128 } else { 0 }, contents(k, (k % 23) as usize))).collect();
    let net = Net::new(cx, Some(p.clone()));
    cx.seed_fill(9);
    let c = match tracked(2, || connect(cx, drv, &net, MAGIC, role, None, None)) {
        Out::Ok(c) => c,
        x => cx.fail(format!("handshake: {}", match x { Out::Io(k, _) => format!("{k:?}"), Out::Lib(e) => format!("{e:?}"), _ => "waits".into() })),
    };
    enum D {
        W(Box<Conn>),
        S(Box<bip324::io::ProtocolReader<Net>>, Box<bip324::io::ProtocolWriter<Net>>),
        A(Box<bip324::futures::ProtocolReader<Net>>, Box<bip324::futures::ProtocolWriter<Net>>),
    }
    let mut c = tracked(2, || match (halves, c) {
        (false, c) => D::W(Box::new(c)),
        (true, Conn::S(c)) => { let (r, w) = c.into_split(); D::S(Box::new(r), Box::new(w)) }
        (true, Conn::A(c)) => { let (r, w) = c.into_split(); D::A(Box::new(r), Box::new(w)) }
    });
    let (mut inn, mut out) = {
        let mine: [u8; 64] = net.l().out[..64].try_into().unwrap();
        let r = p.refr(&mine);
        (r.send, r.recv)
    };
    let mut first = true;
    let (mut il, mut ol) = (Line::default(), Line::default());
    // keys replaced before the object came to rest may linger in its padding: keep to later ones
    let step = |d: &mut Dir, l: &mut Line| {
        let (a, b) = d.keys_now();
        d.skip(1);
        if d.count() > 224 {
            l.packet.used(&a);
            l.length.used(&b);
        }
    };
    step(&mut inn, &mut il);
    step(&mut out, &mut ol);
    for k in 0..aim {
        let pl = payload(k % 3 == 0, &contents(k, (k % 19) as usize));
        let (r, w) = tracked(2, || match &mut c {
            D::W(c) => (c.read(cx, &net).clone(), c.write(cx, &net, &pl)),
            D::S(r, w) => (norm(&net, r.read().map(|p| (p.packet_type() == PacketType::Decoy, p.contents().to_vec()))), norm(&net, w.write(&pl))),
            D::A(r, w) => (
                block(cx, r.read()).map_or(Out::Wait, |x| norm(&net, x.map(|p| (p.packet_type() == PacketType::Decoy, p.contents().to_vec())))),
                block(cx, w.write(&pl)).map_or(Out::Wait, |x| norm(&net, x)),
            ),
        });
        let (h, b) = &p.session[k as usize];
        cx.check(r == Out::Ok((*h == 128, b.clone())), || format!("packet {k}: {}", short(&r)));
        cx.check(w == Out::Ok(()), || format!("writing packet {k}: {}", short(&w)));
        net.l().ops = 0;
        step(&mut inn, &mut il);
        step(&mut out, &mut ol);
        drop((r, w));
        let when = || format!("{} packets into the connection", k + 1);
        let bad = || il.old().chain(ol.old());
        match &c {
            D::W(c) => match &**c {
                Conn::S(c) => scan(cx, 2, "the connection", c, bad(), &when),
                Conn::A(c) => scan(cx, 2, "the connection", c, bad(), &when),
            },
            D::S(r, w) => {
                scan(cx, 2, "the reader", &**r, bad(), &when);
                scan(cx, 2, "the writer", &**w, bad(), &when);
            }
            D::A(r, w) => {
                scan(cx, 2, "the reader", &**r, bad(), &when);
                scan(cx, 2, "the writer", &**w, bad(), &when);
            }
        }
        if first {
            // the search itself works: the key in use is there
            first = false;
            let (pk, _) = inn.keys_now();
            let h = hide(&pk);
            let mut there = match &c {
                D::W(c) => holds(&mem_of(&**c), &h),
                D::S(r, _) => holds(&mem_of(&**r), &h),
                D::A(r, _) => holds(&mem_of(&**r), &h),
            };
            live_blocks(2, |b| there |= holds(b, &h));
            cx.outcome(if there { "key in use found" } else { "key in use not found" });
        }
    }
    cx.check(il.packet.0.len() >= 2 && ol.length.0.len() >= 2, || "no key was replaced".into());
    cx.case(&(halves, aim));
}
/// A session so long that many keys are replaced.
fn long(cx: &Cx, t: Tier) {
    let from = cx.pick("sender", &ROLES);
    let api = cx.pick("interface", &APIS);
    untrack();
    let p = pair_at(cx, 27, 1, 1);
    let fresh = if is_ini(from) { p.keys.i2r.clone() } else { p.keys.r2i.clone() };
    let (s, r, mut d) = p.towards(from);
    let (mut s, mut r) = tracked(2, || (Box::new(s), Box::new(r)));
    let mut l = Line::after(&fresh, 1);
    for k in 0..t.q(10_000u64, 100_000) {
        cx.ops(2);
        let (pk, lk) = d.keys_now();
        d.skip(1);
        let w = match tracked(2, || seal(EApi::Buf, &mut s, &[k as u8], PacketType::Genuine, None)) {
            Ok(w) => w,
            Err(e) => cx.fail(format!("packet {k}: {e:?}")),
        };
        tracked(2, || r.decrypt_packet_len(w[..3].try_into().unwrap()));
        let o = tracked(2, || open(api, &mut r, &w[3..], None).res);
        cx.check(o.is_ok(), || format!("packet {k}: {}", short(&o)));
        l.packet.used(&pk);
        l.length.used(&lk);
        if k % 224 < 3 || k % 224 > 220 || k % 16 == 0 {
            scan(cx, 2, "the sending cipher", &*s, l.old(), &|| format!("after {} packets", k + 2));
            scan(cx, 2, "the receiving cipher", &*r, l.old(), &|| format!("after {} packets", k + 2));
        }
    }
    cx.case(&api);
}
pub fn check(t: Tier) -> Check {
    let mut c = Check::new("C27", "model_checking",
        "every operation sequence (sending, receiving, refused calls, altered packets, copies) next to the first two key changes, whole sessions through five (thorough: 31) key changes split at several points, long sessions, and both drivers: after every step all memory of the session objects, including live heap blocks they allocated, is searched for each key an independent key schedule says is no longer in use, and for the handshake's secrets");
    c.add("operations next to key changes", 0, move |cx| ops(cx, t));
    c.add("whole sessions", 0, move |cx| session(cx, t));
    c.add("drivers", 0, move |cx| driver(cx, t));
    c.add("long sessions", 0, move |cx| long(cx, t));
    c
}
