//! Any change to handshake bytes prevents completion.
use crate::engine::*;
use crate::fx::*;
use crate::refm;
use bip324::{Error, Role};

#[derive(Clone)]
struct Setup {
    role: Role,
    /// pieces of what the honest peer sends: key, garbage, terminator, packets
    parts: Vec<Vec<u8>>,
    /// packets of the session that follow
    tail: Vec<u8>,
}
impl Setup {
    fn all(&self) -> Vec<u8> {
        self.parts.concat()
    }
}
const LOCAL: u64 = 41;
/// The honest flight of a real peer (`role` is the local end), for a fixed local key.
fn setup(cx: &Cx, role: Role, glen: usize, dec: &[usize], peer_sk: u64, local_sk: u64) -> Setup {
    let lk = local_key(cx, role, local_sk);
    let g = contents(peer_sk, glen);
    let d: Vec<Vec<u8>> = dec.iter().map(|n| contents(5, *n)).collect();
    let s = sent(cx, MAGIC, other(role), secret(peer_sk), &g, &d, &lk);
    let mut parts = vec![s.key[..64].to_vec(), g, s.version[..16].to_vec()];
    let mut at = 16;
    for n in dec.iter().chain([&0]) {
        parts.push(s.version[at..at + 20 + n].to_vec());
        at += 20 + n;
    }
    // session packets of the same peer, from the reference
    let pk: [u8; 64] = parts[0].clone().try_into().unwrap();
    let (i, r) = if is_ini(role) { (lk, pk) } else { (pk, lk) };
    let k = refm::keys(&i, &r, &secret(peer_sk), !is_ini(role), &MAGIC);
    let mut dir = refm::Ref::new(&k, !is_ini(role)).send;
    dir.skip(dec.len() as u64 + 1);
    let tail = [dir.packet(&[1; 30], false, &[]), dir.packet(&[], true, &[]), dir.packet(&[], false, &[])].concat();
    Setup { role, parts, tail }
}
fn local_key(cx: &Cx, role: Role, sk: u64) -> [u8; 64] {
    let mut b = vec![0u8; 64];
    start(cx, MAGIC, role, secret(sk)).send_key(None, &mut b).unwrap_or_else(|e| cx.fail(format!("{e:?}")));
    b.try_into().unwrap()
}
/// Give `got` to the real end (after which nothing more comes) and see whether it completes.
fn completes(cx: &Cx, role: Role, got: &[u8]) -> Option<usize> {
    if got.len() < 64 {
        return None;
    }
    let key: [u8; 64] = got[..64].try_into().unwrap();
    let h = match try_sent(cx, MAGIC, role, secret(LOCAL), Some(&[3; 12]), None, &key) {
        Ok(s) => s.hs,
        Err(_) => {
            cx.check(key[..4] == MAGIC, || "a key was refused".into());
            return None;
        }
    };
    match receive(cx, h, &got[64..]) {
        Hs::Done { used, .. } => Some(64 + used),
        Hs::Need => {
            cx.outcome("waiting");
            None
        }
        Hs::Err(Error::NoGarbageTerminator) => {
            cx.outcome("no terminator");
            None
        }
        Hs::Err(_) => {
            cx.outcome("error");
            None
        }
    }
}
/// The verdict on one altered stream, sans-I/O.
fn judge(cx: &Cx, s: &Setup, got: &[u8], what: &dyn Fn() -> String) {
    let orig = s.all();
    if got.starts_with(&orig) {
        cx.outcome("unaltered");
        return;
    }
    if let Some(n) = completes(cx, s.role, got) {
        cx.fail(format!("handshake completes (after {n} bytes) although {}", what()));
    }
}
/// The same through a driver.
fn judge_drv(cx: &Cx, drv: Drv, p: Peer, edit: impl Fn(&mut Vec<u8>) + Send + 'static, end: End, what: &dyn Fn() -> String) {
    let role = p.local;
    let net = Net::new(cx, Some(p.clone()));
    {
        let mut g = net.l();
        g.end = end;
        let n = p.garbage.len() + 64;
        let hs: usize = 16 + p.hs.iter().map(|x| 20 + x.1.len()).sum::<usize>();
        g.tamper = Some(Box::new(move |v: &mut Vec<u8>| {
            let orig = v[..n + hs].to_vec();
            edit(v);
            if v.starts_with(&orig) {
                v.truncate(n + hs - 1);
            }
        }));
    }
    let r = connect(cx, drv, &net, MAGIC, role, Some(vec![3; 12]), None);
    cx.check(!matches!(r, Out::Ok(_)), || format!("{drv:?} driver: handshake completes although {}", what()));
    cx.outcome(match r {
        Out::Wait => "waiting",
        Out::Io(..) => "io",
        Out::Lib(_) => "error",
        _ => "",
    });
}
const SHAPES: [(usize, &[usize]); 5] = [(20, &[]), (0, &[]), (0, &[6]), (7, &[0, 9]), (33, &[3, 0, 1])];
fn honest(cx: &Cx) {
    let role = cx.pick("role", &ROLES);
    let (g, d) = SHAPES[cx.choose("shape", SHAPES.len())];
    let s = setup(cx, role, g, d, 43, LOCAL);
    let o = s.all();
    cx.check(completes(cx, role, &o) == Some(o.len()), || "unaltered handshake does not complete".into());
    let with = [&o[..], &s.tail[..]].concat();
    cx.check(completes(cx, role, &with) == Some(o.len()), || "unaltered handshake followed by session data does not complete".into());
    cx.state(&(g, is_ini(role)));
}
/// Every single bit, insertion, deletion and truncation, and small multi-byte edits.
fn edits(cx: &Cx, t: Tier) {
    let role = cx.pick("role", &ROLES);
    let (g, d) = SHAPES[cx.choose("shape", SHAPES.len())];
    let s = setup(cx, role, g, d, 43, LOCAL);
    let o = s.all();
    let kind = cx.choose("kind", 6);
    let at = cx.choose("position", o.len());
    let tail = cx.flag("session data follows");
    let fin = |mut v: Vec<u8>| {
        if tail {
            v.extend_from_slice(&s.tail);
        }
        v
    };
    match kind {
        0 => {
            for b in 0..8 {
                let mut v = o.clone();
                v[at] ^= 1 << b;
                cx.case(&(kind, at, b));
                judge(cx, &s, &fin(v), &|| format!("bit {b} of byte {at} was flipped"));
            }
        }
        1 => {
            for x in t.q(vec![0u8, 0xff, o[at], o[at.saturating_sub(1)]], (0..=255).step_by(3).chain([o[at], o[at.saturating_sub(1)]]).collect()) {
                let mut v = o.clone();
                v.insert(at, x);
                cx.case(&(kind, at, x));
                judge(cx, &s, &fin(v), &|| format!("a byte {x:#x} was inserted at {at}"));
            }
        }
        2 => {
            for n in [1usize, 2, 3, 16, 20] {
                if at + n <= o.len() {
                    let mut v = o.clone();
                    v.drain(at..at + n);
                    cx.case(&(kind, at, n));
                    judge(cx, &s, &fin(v), &|| format!("{n} bytes were removed at {at}"));
                }
            }
        }
        3 => {
            if tail {
                cx.skip()
            }
            judge(cx, &s, &o[..at], &|| format!("only {at} bytes arrived"));
        }
        4 => {
            for n in [1usize, 3, 16, 17, 20] {
                if at + n <= o.len() {
                    let mut v = o.clone();
                    let p = v[at..at + n].to_vec();
                    v.splice(at..at, p);
                    cx.case(&(kind, at, n));
                    judge(cx, &s, &fin(v), &|| format!("{n} bytes were repeated at {at}"));
                }
            }
        }
        _ => {
            for x in t.q(vec![0u8, 0xff, 0x80], (0..=255).collect()) {
                if x != o[at] {
                    let mut v = o.clone();
                    v[at] = x;
                    cx.case(&(kind, at, x));
                    judge(cx, &s, &fin(v), &|| format!("byte {at} was set to {x:#x}"));
                }
            }
        }
    }
}
/// Every pair of bit flips in a short handshake (thorough: also key x rest).
fn pairs(cx: &Cx, t: Tier) {
    let role = cx.pick("role", &ROLES);
    let s = setup(cx, role, 4, &[], 43, LOCAL);
    let o = s.all();
    let lo = t.q(64, 0);
    let i = lo + cx.choose("first byte", o.len() - lo);
    let bits = t.q(vec![1u8, 0x80], vec![1, 8, 0x80]);
    for j in i..o.len() {
        for a in &bits {
            for b in &bits {
                let mut v = o.clone();
                v[i] ^= a;
                v[j] ^= b;
                cx.case(&(i, j, a, b));
                judge(cx, &s, &v, &|| format!("bytes {i} and {j} were altered by {a:#x} and {b:#x}"));
            }
        }
    }
}
/// Long garbage, every bit.
fn long_garbage(cx: &Cx, t: Tier) {
    let role = cx.pick("role", &ROLES);
    let n = 4095;
    let s = setup(cx, role, n, &[], 43, LOCAL);
    let o = s.all();
    let at = 64 + cx.choose("garbage byte", n + 36);
    if t == Tier::Quick && at % 7 != 0 && at > 140 && at < 4100 {
        cx.skip()
    }
    for b in t.q(vec![0, 7], (0..8).collect()) {
        let mut v = o.clone();
        v[at] ^= 1 << b;
        cx.case(&(at, b));
        judge(cx, &s, &v, &|| format!("bit {b} of byte {at} was flipped (garbage of {n} bytes)"));
    }
}
/// Sequences of whole pieces of this handshake, of other sessions and of the local end's own.
fn pieces(cx: &Cx, t: Tier) {
    let role = cx.pick("role", &ROLES);
    let s = setup(cx, role, 5, &[0], 43, LOCAL);
    // same two keys cannot recur with fresh secrets; other sessions: other peer secret, other local secret
    let o1 = setup(cx, role, 5, &[0], 44, LOCAL);
    let o2 = setup(cx, role, 5, &[0], 43, 45);
    let own = {
        let key: [u8; 64] = s.parts[0].clone().try_into().unwrap();
        let x = sent(cx, MAGIC, role, secret(LOCAL), &[3; 12], &[vec![]], &key);
        vec![x.key[..64].to_vec(), x.key[64..].to_vec(), x.version[..16].to_vec(), x.version[16..36].to_vec(), x.version[36..].to_vec()]
    };
    let mut units: Vec<(String, Vec<u8>)> = vec![];
    for (name, v) in [("", &s.parts), ("foreign peer ", &o1.parts), ("foreign local ", &o2.parts), ("reflected ", &own)] {
        for (k, p) in v.iter().enumerate() {
            let n = ["key", "garbage", "terminator", "decoy", "version"][k];
            units.push((format!("{name}{n}"), p.clone()));
        }
    }
    units.push(("session packets".into(), s.tail.clone()));
    // honest order with one edit is covered by depth 5; every sequence to the depth
    let depth = t.q(4, 5);
    // the first unit is a key
    let first = cx.pick("key", &[0usize, 5, 15]);
    let mut v = units[first].1.clone();
    let mut names = vec![units[first].0.clone()];
    // the set of pieces in play is smaller at greater depth
    let pool: Vec<usize> = if t == Tier::Quick { vec![1, 2, 3, 4, 6, 7, 8, 9, 14, 16, 17, 18, 19, 20] } else { (1..units.len()).filter(|k| ![5, 10, 15].contains(k)).collect() };
    for _ in 0..depth {
        let k = cx.choose("piece", pool.len() + 1);
        if k == pool.len() {
            break;
        }
        v.extend_from_slice(&units[pool[k]].1);
        names.push(units[pool[k]].0.clone());
    }
    cx.case(&names);
    // the other peer's whole flight was made for this very end: that is an honest handshake too
    if v.starts_with(&o1.all()) {
        cx.outcome("unaltered");
        return;
    }
    judge(cx, &s, &v, &|| format!("the pieces that arrived were {names:?}"));
}
/// One piece of the honest order replaced, removed, repeated or swapped, longer flights.
fn reorder(cx: &Cx) {
    let role = cx.pick("role", &ROLES);
    let s = setup(cx, role, 9, &[4, 0, 4], 43, LOCAL);
    let o = setup(cx, role, 9, &[4, 0, 4], 46, LOCAL);
    let n = s.parts.len();
    let mut v = s.parts.clone();
    let a = cx.choose("piece", n);
    let what = match cx.choose("change", 4) {
        0 => {
            v.remove(a);
            format!("piece {a} was removed")
        }
        1 => {
            let b = cx.choose("position", n);
            let p = v[a].clone();
            v.insert(b, p);
            format!("piece {a} was repeated at {b}")
        }
        2 => {
            let b = cx.choose("other", n);
            v.swap(a, b);
            format!("pieces {a} and {b} were exchanged")
        }
        _ => {
            v[a] = o.parts[a].clone();
            format!("piece {a} came from another session")
        }
    };
    let got = v.concat();
    cx.case(&what);
    judge(cx, &s, &got, &|| what.clone());
    judge(cx, &s, &[&got[..], &s.tail[..]].concat(), &|| what.clone());
}
/// Drivers: every bit, truncation, insertion, deletion.
fn drivers(cx: &Cx, t: Tier) {
    let drv = cx.pick("driver", &DRVS);
    let role = cx.pick("role", &ROLES);
    let mut p = Peer::new(role);
    p.garbage = contents(4, cx.pick("garbage", &t.q(vec![6], vec![0, 6, 300])));
    p.hs = vec![(128, vec![5; 3]), (0, vec![])];
    p.session = vec![(0, vec![1; 40]), (0, vec![])];
    let end = cx.pick("end", &[End::Block, End::Eof]);
    let n = 64 + p.garbage.len() + 16 + 23 + 20;
    let at = cx.choose("position", n);
    let kind = cx.choose("kind", 12);
    let what = match kind {
        0..=7 => format!("bit {kind} of byte {at} was flipped"),
        8 => format!("a byte was inserted at {at}"),
        9 => format!("byte {at} was removed"),
        10 => format!("only {at} bytes arrived"),
        _ => format!("byte {at} was repeated"),
    };
    cx.case(&(at, kind));
    let edit = move |v: &mut Vec<u8>| match kind {
        0..=7 => v[at] ^= 1 << kind,
        8 => v.insert(at, 0x55),
        9 => {
            v.remove(at);
        }
        10 => v.truncate(at),
        _ => {
            let x = v[at];
            v.insert(at, x)
        }
    };
    judge_drv(cx, drv, p, edit, end, &|| what.clone());
}
/// The peer's own bytes come back, or those of a recorded session with the same peer.
fn replay(cx: &Cx) {
    let drv = cx.pick("driver", &DRVS);
    let role = cx.pick("role", &ROLES);
    let p = Peer::new(role);
    if cx.flag("recorded session") {
        // what the peer sent to an earlier connection of the same end (other ephemeral key)
        cx.seed_fill(1);
        let net = Net::new(cx, Some(p.clone()));
        let Out::Ok(_) = connect(cx, drv, &net, MAGIC, role, None, None) else { cx.fail("honest handshake") };
        let rec = net.l().inb.clone();
        cx.seed_fill(2);
        let end = cx.pick("end", &[End::Block, End::Eof]);
        let net = Net::raw(cx, rec, end);
        let r = connect(cx, drv, &net, MAGIC, role, None, None);
        cx.check(!matches!(r, Out::Ok(_)), || "a replayed handshake completes".into());
        cx.outcome("replay");
    } else {
        // everything sent is reflected
        struct Echo(Net, usize);
        impl std::io::Read for Echo {
            fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
                let o = self.0.l().out.clone();
                let n = b.len().min(o.len() - self.1);
                b[..n].copy_from_slice(&o[self.1..self.1 + n]);
                self.1 += n;
                Ok(n)
            }
        }
        impl tokio::io::AsyncRead for Echo {
            fn poll_read(mut self: std::pin::Pin<&mut Self>, _: &mut std::task::Context<'_>, b: &mut tokio::io::ReadBuf<'_>) -> std::task::Poll<std::io::Result<()>> {
                let mut v = vec![0; b.remaining()];
                let n = std::io::Read::read(&mut *self, &mut v)?;
                b.put_slice(&v[..n]);
                std::task::Poll::Ready(Ok(()))
            }
        }
        let net = Net::raw(cx, vec![], End::Block);
        let g = cx.pick("garbage", &[None, Some(vec![1; 50])]);
        let d = cx.pick("decoys", &[None, Some(vec![vec![1; 50]])]);
        let e = Echo(net.clone(), 0);
        let ok = match drv {
            Drv::Sync => bip324::io::Protocol::new(MAGIC, role, g, d, e, net.clone()).is_ok(),
            Drv::Async => matches!(block(cx, bip324::futures::Protocol::new(MAGIC, role, g, d, e, net.clone())), Some(Ok(_))),
        };
        cx.check(!ok, || "a reflected handshake completes".into());
        cx.outcome("reflection");
    }
    cx.state(&(is_ini(role), drv));
}
pub fn check(t: Tier) -> Check {
    let mut c = Check::new("C10", "model_checking",
        "honest flights of a real peer, altered in every bit, by every single-byte replacement/insertion/deletion/truncation/repetition in the listed sets, pairs of changes, every sequence of whole pieces (own, foreign sessions, reflected) up to the depth, with and without session data behind them; the real end must never complete");
    c.add("unaltered", 0, honest);
    c.add("single edits", 0, move |cx| edits(cx, t));
    c.add("pairs of changed bytes", 0, move |cx| pairs(cx, t));
    c.add("long garbage", 0, move |cx| long_garbage(cx, t));
    c.add("sequences of pieces", 0, move |cx| pieces(cx, t));
    c.add("pieces reordered", 0, reorder);
    c.add("drivers", 0, move |cx| drivers(cx, t));
    c.add("replay and reflection", 0, replay);
    c.assume("forging a 16-byte tag or terminator by chance is excluded");
    c
}
