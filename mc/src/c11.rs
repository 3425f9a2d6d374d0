//! Garbage terminator search is exact.
use crate::engine::*;
use crate::fx::*;
use crate::refm::Ref;
use bip324::{Error, GarbageResult, Handshake, Role, SentVersion};

/// A real end that has sent its version, and the reference of its peer.
fn end(cx: &Cx, role: Role, sk: u64) -> (Handshake<SentVersion>, Ref, [u8; 16]) {
    let mut p = Peer::new(role);
    p.sk = secret(800);
    let s = sent(cx, MAGIC, role, secret(sk), &[], &[], &p.ell());
    let r = p.refr(&s.key[..64].try_into().unwrap());
    let t = r.send_term;
    (s.hs, r, t)
}
#[derive(Debug, PartialEq, Clone, Copy)]
enum Want {
    Found(usize),
    Need,
    Fail,
}
fn naive(b: &[u8], t: &[u8; 16]) -> Want {
    for i in 0..=4095 {
        if i + 16 > b.len() {
            break;
        }
        if b[i..i + 16] == *t {
            return Want::Found(i + 16);
        }
    }
    if b.len() >= 4111 {
        Want::Fail
    } else {
        Want::Need
    }
}
/// Search, compare with the naive answer; gives the handshake back if it goes on.
fn search(cx: &Cx, h: Handshake<SentVersion>, b: &[u8], t: &[u8; 16], what: &dyn Fn() -> String) -> Option<Handshake<SentVersion>> {
    let want = naive(b, t);
    cx.op();
    let (got, h) = match h.receive_garbage(b) {
        Ok(GarbageResult::FoundGarbage { consumed_bytes, .. }) => (Want::Found(consumed_bytes), None),
        Ok(GarbageResult::NeedMoreData(h)) => (Want::Need, Some(h)),
        Err(Error::NoGarbageTerminator) => (Want::Fail, None),
        Err(e) => cx.fail(format!("{}: undocumented error {e:?}", what())),
    };
    cx.check(got == want, || format!("{}: {got:?}, want {want:?}", what()));
    h
}
/// Garbage that does not contain the terminator.
fn fill(k: usize, n: usize, t: &[u8; 16]) -> Vec<u8> {
    match k {
        0 => contents(77, n),
        1 => vec![t[0]; n],
        2 => t[..15].iter().copied().cycle().take(n).collect(),
        3 => t[1..].iter().copied().cycle().take(n).collect(),
        _ => vec![t[15]; n],
    }
}
/// Terminator at every position, buffers ending around it and around the limit.
fn positions(cx: &Cx, t: Tier) {
    let role = cx.pick("role", &ROLES);
    let at = cx.choose("position", 4120);
    let f = cx.choose("garbage", 5);
    if t == Tier::Quick && f > 0 && at % 16 != f && at > 40 && at < 4070 {
        cx.skip()
    }
    for end_at in [at + 15, at + 16, at + 17, at + 100, 4110, 4111, 4112, 5000] {
        let (h, _, term) = end(cx, role, 81);
        let mut b = fill(f, at, &term);
        b.extend_from_slice(&term);
        b.resize(6000, 0x11);
        b.truncate(end_at);
        cx.case(&(at, f, end_at));
        search(cx, h, &b, &term, &|| format!("terminator at {at}, buffer of {end_at} bytes, filling {f}"));
    }
}
/// Every buffer length without a terminator.
fn none(cx: &Cx) {
    let n = cx.choose("length", 4300);
    let f = cx.choose("filling", 5);
    let (h, _, term) = end(cx, Role::Initiator, 81);
    let b = fill(f, n, &term);
    cx.case(&(n, f));
    search(cx, h, &b, &term, &|| format!("no terminator in {n} bytes"));
}
/// Exhaustive small compositions of fragments: pieces of the terminator, near misses, whole ones.
fn fragments(cx: &Cx, t: Tier) {
    // secrets for which the terminator overlaps itself by one byte exercise shifted matches
    let sks = overlapping(cx);
    let role = Role::Initiator;
    let sk = cx.pick("session", &[81, sks]);
    let (h, _, term) = end(cx, role, sk);
    let base = cx.pick("garbage before", &[0usize, 1, 4040, 4079]);
    let mut b = fill(0, base, &term);
    let n = t.q(3, 4);
    let mut names = vec![];
    for _ in 0..n {
        // prefix of length 0..=16, suffix 1..=15, a terminator with one byte changed
        let k = cx.choose("fragment", t.q(24, 48));
        let v: Vec<u8> = match k {
            0 => vec![],
            1..=16 => term[..k].to_vec(),
            17..=23 => term[(k - 16) * 2..].to_vec(),
            24..=39 => {
                let mut x = term;
                x[k - 24] ^= 1;
                x.to_vec()
            }
            _ => term[k - 39..].to_vec(),
        };
        names.push(k);
        b.extend(v);
    }
    b.extend([0x33; 40]);
    cx.case(&(base, sk, names.clone()));
    search(cx, h, &b, &term, &|| format!("fragments {names:?} after {base} bytes"));
}
/// A local secret whose peer terminator starts and ends with the same byte.
fn overlapping(cx: &Cx) -> u64 {
    static S: std::sync::OnceLock<u64> = std::sync::OnceLock::new();
    *S.get_or_init(|| {
        for k in 100_000..104_000u64 {
            let (_, _, t) = end(cx, Role::Initiator, k);
            if t[0] == t[15] {
                return k;
            }
        }
        81
    })
}
/// One byte of the terminator changed, every value.
fn near(cx: &Cx) {
    let role = cx.pick("role", &ROLES);
    let i = cx.choose("byte", 16);
    let at = cx.pick("position", &[0usize, 1, 240, 4095]);
    let second = cx.flag("true one follows");
    for v in 1..=255u8 {
        let (h, _, term) = end(cx, role, 82);
        let mut m = term;
        m[i] ^= v;
        let mut b = fill(0, at, &term);
        b.extend(m);
        if second {
            b.extend(term);
        }
        b.extend([0; 30]);
        cx.case(&(i, v, at, second));
        search(cx, h, &b, &term, &|| format!("terminator with byte {i} changed by {v:#x} at {at}"));
    }
}
/// Searches on shorter prefixes first, in any order, then the whole: same answer, and the
/// handshake still completes with the right garbage.
fn retries(cx: &Cx, t: Tier) {
    let role = cx.pick("role", &ROLES);
    let at = cx.pick("position", &t.q(vec![0usize, 1, 17, 300, 4095], vec![0, 1, 2, 15, 16, 17, 31, 32, 255, 256, 300, 2048, 4094, 4095]));
    let f = cx.choose("filling", 5);
    let (mut h, mut rf, term) = end(cx, role, 83);
    let g = fill(f, at, &term);
    let flight = [&g[..], &rf.version_flight(&g, &[vec![1; 9]])[..]].concat();
    let cands: Vec<usize> = {
        let mut v = vec![0, 1, 15, 16, 17, at / 2, at.saturating_sub(1), at, at + 1, at + 8, at + 15];
        v.retain(|n| *n < at + 16);
        v.sort();
        v.dedup();
        v
    };
    let mut hist = vec![];
    for _ in 0..t.q(3, 4) {
        let k = cx.choose("prefix", cands.len() + 1);
        if k == cands.len() {
            break;
        }
        hist.push(cands[k]);
        h = match search(cx, h, &flight[..cands[k]], &term, &|| format!("prefix lengths {hist:?} (terminator at {at})")) {
            Some(h) => h,
            None => cx.fail("handshake lost"),
        };
    }
    match receive(cx, h, &flight) {
        Hs::Done { used, decoys, .. } => cx.check(used == flight.len() && decoys == 1, || "bytes used".into()),
        Hs::Need => cx.fail(format!("not found after searches {hist:?} (terminator at {at})")),
        Hs::Err(e) => cx.fail(format!("after searches {hist:?} (terminator at {at}): {e:?}")),
    }
    cx.state(&(at, hist.len(), f));
}
/// Byte by byte.
fn bytewise(cx: &Cx, t: Tier) {
    let role = cx.pick("role", &ROLES);
    let at = cx.pick("position", &[0usize, 5, 500, 1500, 4095, 4096, 4100]);
    let f = cx.choose("filling", 5);
    let step = cx.pick("step", &t.q(vec![1usize, 256], vec![1, 2, 15, 16, 17, 255, 256]));
    let start_at = cx.pick("start", &[0usize, 16]);
    let (mut h, _, term) = end(cx, role, 84);
    let mut b = fill(f, at, &term);
    b.extend_from_slice(&term);
    b.resize(4400, 1);
    let mut n = start_at;
    loop {
        match search(cx, h, &b[..n], &term, &|| format!("growing buffer, {n} bytes, terminator at {at}")) {
            Some(x) => h = x,
            None => break,
        }
        n += step;
        cx.check(n <= b.len(), || "never ends".into());
    }
    cx.state(&(at, f, step));
}
/// Through the drivers: terminator position decides between completion and the error.
fn drivers(cx: &Cx, t: Tier) {
    let drv = cx.pick("driver", &DRVS);
    let role = cx.pick("role", &ROLES);
    let at = cx.choose("position", 4140);
    if t == Tier::Quick && at % 16 > 2 && at < 4080 {
        cx.skip()
    }
    let max = cx.pick("bytes per read", &t.q(vec![usize::MAX, 100], vec![usize::MAX, 100, 17, 4096]));
    let f = if at % 2 == 0 { 0 } else { 1 };
    let mut p = Peer::new(role);
    p.garbage = contents(f, at);
    p.session = vec![(0, vec![2; 30])];
    let net = Net::new(cx, Some(p));
    {
        let mut g = net.l();
        g.rd_max = max;
        // enough bytes behind for the search to be able to fail
        g.tamper = Some(Box::new(|v| v.extend([0u8; 600])));
    }
    cx.case(&(at, max));
    match connect(cx, drv, &net, MAGIC, role, None, None) {
        Out::Ok(mut c) => {
            cx.check(at <= 4095, || format!("terminator after {at} bytes of garbage accepted"));
            let x = c.read(cx, &net);
            cx.check(x == Out::Ok((false, vec![2; 30])), || "session packet behind the handshake".into());
        }
        Out::Lib(Error::NoGarbageTerminator) => cx.check(at > 4095, || format!("terminator at {at} not found")),
        Out::Lib(e) => cx.fail(format!("terminator at {at}: {e:?}")),
        Out::Io(k, _) => cx.fail(format!("terminator at {at}: {k:?}")),
        Out::Wait => cx.fail(format!("terminator at {at}: waits")),
    }
}
pub fn check(t: Tier) -> Check {
    let mut c = Check::new("C11", "model_checking",
        "terminator at every position 0..4119 x buffers ending around it and the limit x fillings made of its fragments; every length without it; all sequences of fragments to the depth, also for a self-overlapping terminator; every one-byte near miss; every sequence of earlier searches on prefixes; growing buffers; drivers; against a naive search");
    c.add("every position", 0, move |cx| positions(cx, t));
    c.add("no terminator, every length", 0, none);
    c.add("fragments", 0, move |cx| fragments(cx, t));
    c.add("near misses", 0, near);
    c.add("repeated searches", 0, move |cx| retries(cx, t));
    c.add("growing buffers", 0, move |cx| bytewise(cx, t));
    c.add("drivers", 0, move |cx| drivers(cx, t));
    c
}
