//! Shaping does what was configured, for every random outcome.
use crate::engine::*;
use crate::fx::*;
use crate::sh::*;
use bip324::Role;
use bip324_traffic::{futures as fu, io};
use std::collections::HashSet;
use std::sync::{Arc, Mutex};
use std::time::Duration;

fn peer(role: Role) -> Peer {
    let mut p = Peer::new(role);
    p.garbage = contents(4, 6);
    p.session = (0..3).map(|k| (0, msg(100 + k, 7 * k))).collect();
    p
}
/// What was sent against what was configured.  `exact`: no write is under way; `ms` of (virtual) time have
/// passed since the connection was opened; `genuine` packets were written.
fn judge(cx: &Cx, net: &Net, (pad, dec): (bool, bool), written: usize, ms: u64) -> View {
    let v = view(cx, net);
    cx.check(v.garbage.len() <= 4095, || format!("{} bytes of garbage", v.garbage.len()));
    cx.check(pad || v.garbage.is_empty(), || format!("{} bytes of garbage although padding is disabled", v.garbage.len()));
    cx.check(v.hs_decoys.len() <= 3, || format!("{} handshake decoys", v.hs_decoys.len()));
    cx.check(dec || v.hs_decoys.is_empty(), || format!("{} handshake decoys although decoys are disabled", v.hs_decoys.len()));
    for n in v.hs_decoys.iter().map(|d| d.len()).chain(v.decoys.iter().copied()) {
        cx.check((1..=1024).contains(&n), || format!("a decoy of {n} bytes"));
    }
    cx.check(v.genuine.len() == written, || format!("{} genuine packets for {written} writes", v.genuine.len()));
    let most = if dec { ms / 100 + 1 } else { 0 };
    let padding = if pad { written } else { 0 };
    let n = v.decoys.len();
    cx.check(n >= padding, || format!("{n} decoys accompany {written} genuine packets"));
    cx.check(n - padding <= most as usize, || {
        format!("{n} decoys sent, {padding} accompany genuine packets; in {ms} ms at most {most} background decoys are allowed")
    });
    v
}
#[derive(Clone)]
struct Par {
    cfg: (bool, bool),
    role: Role,
    hs: Words,
    session: Words,
    /// milliseconds before each write, and before the drop
    naps: Vec<u64>,
    writes: usize,
    slow: u64,
    keep: Keep,
    /// bytes added to the contents of every second write
    big: usize,
    /// how the configuration is put together
    build: usize,
}
/// Where to put what was sent.
type Keep = Option<Arc<Mutex<Vec<View>>>>;
fn blocking(cx: &Cx, p: Par) {
    cx.threads(2_000_000, move |cx| {
        let net = Net::new(cx, Some(peer(p.role)));
        words(cx, &net, p.hs.clone(), p.session.clone());
        cx.seed_fill(8);
        let (w, _tok) = wnet(&net);
        let t0 = sched::now_ns();
        let ms = || (sched::now_ns() - t0) / MS;
        let conn = match io::ShapedProtocol::new(MAGIC, p.role, config_by(p.cfg, p.build), net.clone(), w) {
            Ok(c) => c,
            Err(e) => cx.fail(format!("shaped handshake fails: {e:?}")),
        };
        if p.slow > 0 {
            net.l().wr_nap = Some(Duration::from_millis(p.slow));
        }
        let (mut r, mut w) = conn.into_split();
        match r.read() {
            Ok(x) => cx.check(x.contents() == &msg(100, 0)[..], || "the first read gives other contents".into()),
            Err(e) => cx.fail(format!("the first read fails: {e:?}")),
        }
        for k in 0..p.writes {
            let n = p.naps[k % p.naps.len()];
            if n > 0 {
                nap(n);
            }
            cx.op();
            if let Err(e) = w.write(&payload(false, &msg(k, k * 5 % 33 + k % 2 * p.big))) {
                cx.fail(format!("write {k} fails: {e:?}"));
            }
            if p.writes < 20 || k % 100 == 0 {
                judge(cx, &net, p.cfg, k + 1, ms());
            }
        }
        let n = p.naps[p.writes % p.naps.len()];
        if n > 0 {
            nap(n);
        }
        drop(w);
        let v = judge(cx, &net, p.cfg, p.writes, ms());
        done(cx, v, &p.keep);
    });
}
fn done(cx: &Cx, v: View, keep: &Keep) {
    cx.outcome(&format!("{} handshake decoys", v.hs_decoys.len()));
    cx.state(&(v.garbage.len(), v.hs_decoys.iter().map(|d| d.len()).collect::<Vec<_>>(), &v.decoys));
    if let Some(k) = keep {
        lockm(k).push(v);
    }
}
fn asynchronous(cx: &Cx, p: Par) {
    let cx2 = cx.clone();
    rt_long(cx, 600, async move {
        let cx = &cx2;
        let net = Net::new(cx, Some(peer(p.role)));
        words(cx, &net, p.hs.clone(), p.session.clone());
        cx.seed_fill(8);
        let (w, tok) = wnet(&net);
        let t0 = tokio::time::Instant::now();
        let ms = || t0.elapsed().as_millis() as u64;
        let conn = match fu::ShapedProtocol::new(MAGIC, p.role, config_by(p.cfg, p.build), net.clone(), w).await {
            Ok(c) => c,
            Err(e) => cx.fail(format!("shaped handshake fails: {e:?}")),
        };
        let (mut r, mut w) = conn.into_split();
        match r.read().await {
            Ok(x) => cx.check(x.contents() == &msg(100, 0)[..], || "the first read gives other contents".into()),
            Err(e) => cx.fail(format!("the first read fails: {e:?}")),
        }
        for k in 0..p.writes {
            let n = p.naps[k % p.naps.len()];
            if n > 0 {
                anap(n).await;
            }
            if p.slow > 0 && k % 3 == 1 {
                // not ready for a while, in the middle of what is sent
                let mut g = net.l();
                g.gate = Some(g.out.len() + 10);
                drop(g);
                let (n2, s) = (net.clone(), p.slow);
                tokio::spawn(async move {
                    anap(s).await;
                    n2.lift();
                });
            }
            cx.op();
            if let Err(e) = w.write(&payload(false, &msg(k, k * 5 % 33 + k % 2 * p.big))).await {
                cx.fail(format!("write {k} fails: {e:?}"));
            }
            if p.writes < 20 || k % 100 == 0 {
                judge(cx, &net, p.cfg, k + 1, ms());
            }
        }
        let n = p.naps[p.writes % p.naps.len()];
        if n > 0 {
            anap(n).await;
        }
        drop(w);
        for _ in 0..100 {
            if tok.upgrade().is_none() {
                break;
            }
            anap(10).await;
        }
        let v = judge(cx, &net, p.cfg, p.writes, ms());
        done(cx, v, &p.keep);
    })
}
fn both(cx: &Cx, p: Par) {
    if cx.flag("asynchronous") {
        asynchronous(cx, p)
    } else {
        blocking(cx, p)
    }
}
/// Words that reach every value of a draw from `1 << bits` values, evenly spread, and then (in quarter steps
/// near the top) those that only a slightly larger range would have, past the rejection zone of the usual
/// range reductions.
fn even(bits: u32, k: usize) -> u64 {
    let (n, k) = (1usize << bits, k);
    if k < n {
        (k as u64) << (64 - bits)
    } else {
        let k = k - n;
        ((n - 1 - k / 3) as u64) << (64 - bits) | ((k % 3 + 1) as u64) << (62 - bits)
    }
}
const TOP: usize = 3 * 24;
/// Every garbage length.
fn garbage(cx: &Cx) {
    let dec = cx.flag("decoys");
    let role = cx.pick("role", &ROLES);
    let k = even(12, cx.choose("garbage", 4096 + TOP));
    both(cx, Par { cfg: (true, dec), role, hs: Words::Seq(vec![k, 0]), session: Words::Fixed(0), naps: vec![0], writes: 0, slow: 0, keep: None, big: 0, build: 0 });
}
/// Every number of handshake decoys, every size of one of them, extremes of the others.
fn hs_decoys(cx: &Cx) {
    let pad = cx.flag("padding");
    let n = cx.choose("decoys", 4) as u64;
    let which = cx.choose("which", (n as usize).max(1));
    let k = if n == 0 { 0 } else { even(10, cx.choose("size", 1024 + TOP)) };
    let other = cx.pick("others", &[0u64, 0xffc0_0000_0000_0000]);
    let mut w = vec![];
    if pad {
        w.push(cx.pick("garbage", &[0u64, 0xfff0_0000_0000_0000]));
    }
    w.push(n << 62);
    for i in 0..3 {
        w.push(if i == which { k } else { other });
    }
    both(cx, Par { cfg: (pad, true), role: Role::Initiator, hs: Words::Seq(w), session: Words::Fixed(0), naps: vec![0], writes: 0, slow: 0, keep: None, big: 0, build: 0 });
}
const GRID: [u64; 8] = [0, 1, 0x0040_0000_0000_0000, MID, HI, 0xffc0_0000_0000_0000, 0xfff0_0000_0000_0000, u64::MAX];
/// Every sequence of words of a grid that holds the extremes.
fn grid(cx: &Cx, t: Tier) {
    let cfg = cx.pick("configuration", &CFG);
    let role = cx.pick("role", &ROLES);
    let h: Vec<u64> = (0..t.q(3, 4)).map(|_| cx.pick("handshake word", &GRID)).collect();
    let s = cx.pick("session words", &[vec![HI], vec![0, u64::MAX, HI], vec![HI, 0], vec![0xffc0_0000_0000_0000]]);
    both(cx, Par { cfg, role, hs: Words::Seq(h), session: Words::Seq(s), naps: vec![0, 230], writes: 1, slow: 0, keep: None, big: 0, build: 0 });
}
fn session(cx: &Cx, t: Tier) {
    let cfg = cx.pick("configuration", &CFG);
    let s: Vec<u64> = (0..t.q(4, 5)).map(|_| cx.pick("session word", &GRID)).collect();
    let naps = cx.pick("naps", &[vec![0u64, 100, 330], vec![100, 0, 0]]);
    let slow = cx.pick("slow", &[0u64, 450]);
    both(cx, Par { cfg, role: Role::Initiator, hs: Words::Fixed(0), session: Words::Seq(s), naps, writes: 2, slow, keep: None, big: 0, build: 0 });
}
/// Every decoy size, over key changes, padding and background.
fn sizes(cx: &Cx, t: Tier) {
    let cfg = cx.pick("configuration", &CFG);
    let role = cx.pick("role", &ROLES);
    let off = cx.choose("offset", t.q(3, 8));
    let naps = cx.pick("naps", &[vec![0u64], vec![100], vec![0, 0, 0, 250]]);
    let s: Vec<u64> = {
        let size = |k: usize| even(10, (k + off * 341) % (1024 + TOP));
        let n = 1024 + TOP;
        if cfg.1 { (0..2 * n).map(|k| if k % 2 == 0 { HI } else { size(k / 2) }).collect() } else { (0..n).map(size).collect() }
    };
    both(cx, Par { cfg, role, hs: Words::Fixed(MID), session: Words::Seq(s), naps, writes: 1030 + TOP, slow: 0, keep: None, big: 0, build: 0 });
}
/// Schedules.
fn schedules(cx: &Cx) {
    let cfg = cx.pick("configuration", &CFG[1..]);
    let naps = cx.pick("naps", &[vec![100u64, 0, 130], vec![0, 250, 100]]);
    let slow = cx.pick("slow", &[0u64, 60, 130]);
    blocking(cx, Par { cfg, role: Role::Responder, hs: Words::Fixed(0), session: if cfg.1 { Words::Dev(vec![HI, 0]) } else { Words::Fixed(0) }, naps, writes: 2, slow, keep: None, big: 0, build: 0 });
}
/// The transport is stalled for several check intervals, in a write or in a background decoy: the checks
/// missed meanwhile are not made up for in a burst.
fn busy(cx: &Cx) {
    let asy = cx.flag("asynchronous");
    let role = cx.pick("role", &ROLES);
    let pad = cx.flag("padding");
    let stall = cx.pick("stall", &[450u64, 980, 5_000]);
    let lead = cx.pick("before", &[0u64, 50, 130]);
    let ahead = cx.pick("gate", &[0usize, 1, 25]);
    let write = cx.flag("in a write");
    // number of session decoys that do not accompany a write, over time
    let log: Vec<(u64, i64)>;
    // (a stalled padding decoy counts as accompanying the write that waits for it)
    let count = move |cx: &Cx, net: &Net| {
        let v = view(cx, net);
        v.decoys.len() as i64 - if pad { v.genuine.len() as i64 } else { 0 }
    };
    let start = move |cx: &Cx| {
        let net = Net::new(cx, Some(peer(role)));
        words(cx, &net, Words::Fixed(0), Words::Fixed(HI));
        cx.seed_fill(8);
        net
    };
    let shut = move |net: &Net| {
        let mut g = net.l();
        g.gate = Some(g.out.len() + ahead);
    };
    if asy {
        let cx2 = cx.clone();
        log = rt_long(cx, 60, async move {
            let cx = &cx2;
            let net = start(cx);
            let t0 = tokio::time::Instant::now();
            let (w, _tok) = wnet(&net);
            let conn = match fu::ShapedProtocol::new(MAGIC, role, config((pad, true)), net.clone(), w).await {
                Ok(c) => c,
                Err(e) => cx.fail(format!("shaped handshake fails: {e:?}")),
            };
            let (_r, mut w) = conn.into_split();
            anap(lead).await;
            shut(&net);
            let n2 = net.clone();
            tokio::spawn(async move {
                anap(stall).await;
                n2.lift();
            });
            if write {
                if let Err(e) = w.write(&payload(false, &msg(1, 30))).await {
                    cx.fail(format!("write fails: {e:?}"));
                }
            } else {
                anap(stall).await;
            }
            let mut log = vec![];
            for _ in 0..80 {
                log.push((t0.elapsed().as_millis() as u64, count(cx, &net)));
                anap(10).await;
            }
            log
        });
    } else {
        let out = Arc::new(Mutex::new(vec![]));
        let o2 = out.clone();
        cx.threads(2_000_000, move |cx| {
            let net = start(cx);
            let t0 = sched::now_ns();
            let (w, _tok) = wnet(&net);
            let conn = match io::ShapedProtocol::new(MAGIC, role, config((pad, true)), net.clone(), w) {
                Ok(c) => c,
                Err(e) => cx.fail(format!("shaped handshake fails: {e:?}")),
            };
            let (_r, mut w) = conn.into_split();
            nap(lead);
            shut(&net);
            let n2 = net.clone();
            let h = sched::thread::spawn(move || {
                nap(stall);
                n2.lift();
            });
            if write {
                if let Err(e) = w.write(&payload(false, &msg(1, 30))) {
                    cx.fail(format!("write fails: {e:?}"));
                }
            } else {
                nap(stall);
            }
            let _ = h.join();
            for _ in 0..80 {
                let x = ((sched::now_ns() - t0) / MS, count(cx, &net));
                lockm(&o2).push(x);
                nap(10);
            }
            drop(w);
        });
        log = std::mem::take(&mut *lockm(&out));
    }
    let mut fired = false;
    for (i, (t1, n1)) in log.iter().enumerate() {
        for (t2, n2) in &log[i..] {
            // the one that was stalled, the one due at once, those of the intervals since
            let most = (t2 - t1) / 100 + 3;
            cx.check(n2 - n1 <= most as i64, || {
                format!("after a stall of {stall} ms: {} background decoys within {} ms", n2 - n1, t2 - t1)
            });
            fired |= n2 > n1;
        }
    }
    // the burst may be over before the first look at it
    if let Some((_, n)) = log.first() {
        let before = (lead / 100 + 1) as i64;
        cx.check(*n <= before + 3, || format!("{n} background decoys right after a stall of {stall} ms, which began {lead} ms after the handshake"));
    }
    cx.outcome(if fired { "decoys go on" } else { "no decoys" });
}
/// Idle for a minute.
fn idle(cx: &Cx) {
    let cfg = cx.pick("configuration", &CFG);
    let w = cx.pick("words", &[HI, 0, u64::MAX, MID]);
    both(cx, Par { cfg, role: Role::Initiator, hs: Words::Fixed(0), session: Words::Fixed(w), naps: vec![0, 60_000], writes: 1, slow: 0, keep: None, big: 0, build: 0 });
}
/// The configuration counts, not how it was put together.
fn builds(cx: &Cx) {
    let cfg = cx.pick("configuration", &CFG);
    let role = cx.pick("role", &ROLES);
    let build = cx.choose("build", BUILDS);
    let keep = Arc::new(Mutex::new(vec![]));
    let asy = cx.flag("asynchronous");
    for seed in 0..4u64 {
        let w = |o: u64| Words::Seq((0..97).map(|k| u64::from_le_bytes(det_bytes(0xb01d + (seed * 2 + o) * 1000 + k, 8).try_into().unwrap())).collect());
        let p = Par { cfg, role, hs: w(0), session: w(1), naps: vec![0, 0, 0, 30_000], writes: 3, slow: 0, keep: Some(keep.clone()), big: 0, build };
        if asy {
            asynchronous(cx, p)
        } else {
            blocking(cx, p)
        }
        cx.case(&seed);
    }
    let v = lockm(&keep);
    let n = |f: &dyn Fn(&View) -> usize| v.iter().map(f).sum::<usize>();
    cx.check(!cfg.0 || n(&|v| v.garbage.len()) > 0, || format!("padding is configured ({build}), but no garbage is sent"));
    cx.check(!cfg.1 || n(&|v| v.hs_decoys.len() + v.decoys.len()) > if cfg.0 { 12 } else { 0 }, || format!("decoys are configured ({build}), but none are sent"));
}
/// Random means random: over many outcomes of the generator, garbage, handshake decoys, padding and
/// background decoys occur, in more than one size.
fn variety(cx: &Cx) {
    let cfg = cx.pick("configuration", &CFG);
    let role = cx.pick("role", &ROLES);
    let asy = cx.flag("asynchronous");
    let keep = Arc::new(Mutex::new(vec![]));
    for seed in 0..24u64 {
        let w = |o: u64| Words::Seq((0..97).map(|k| u64::from_le_bytes(det_bytes(0x7a51 + (seed * 2 + o) * 1000 + k, 8).try_into().unwrap())).collect());
        let p = Par { cfg, role, hs: w(0), session: w(1), naps: vec![0, 0, 0, 5_000], writes: 3, slow: 0, keep: Some(keep.clone()), big: 0, build: 0 };
        if asy {
            asynchronous(cx, p)
        } else {
            blocking(cx, p)
        }
        cx.case(&seed);
    }
    let v = lockm(&keep);
    let distinct = |what: &str, on: bool, it: &mut dyn Iterator<Item = usize>| {
        let s: HashSet<usize> = it.collect();
        cx.check(s.len() > 1 || !on, || format!("{what}: over 24 random outcomes only {s:?}"));
    };
    distinct("amount of garbage", cfg.0, &mut v.iter().map(|v| v.garbage.len()));
    distinct("number of handshake decoys", cfg.1, &mut v.iter().map(|v| v.hs_decoys.len()));
    distinct("sizes of handshake decoys", cfg.1, &mut v.iter().flat_map(|v| v.hs_decoys.iter().map(|d| d.len())));
    distinct("sizes of decoys", cfg.0 || cfg.1, &mut v.iter().flat_map(|v| v.decoys.iter().copied()));
    distinct("number of decoys", cfg.1, &mut v.iter().map(|v| v.decoys.len()));
}
/// Large messages are treated like small ones.
fn large(cx: &Cx, t: Tier) {
    let cfg = cx.pick("configuration", &CFG);
    let role = cx.pick("role", &ROLES);
    let mut all: Vec<usize> = (5..=t.q(20, 21)).flat_map(|e| [(1usize << e) - 5, 1 << e]).collect();
    all.extend([1000, 2000, 100_000, 1_000_000, 3_999_900]);
    let big = cx.pick("size", &all);
    let w = cx.pick("words", &[vec![0u64], vec![HI], vec![MID / 256, 3 << 54, HI]]);
    both(cx, Par { cfg, role, hs: Words::Fixed(0), session: Words::Seq(w), naps: vec![0, 110], writes: 4, slow: 0, keep: None, big, build: 0 });
}
pub fn check(t: Tier) -> Check {
    let mut c = Check::new("C21", "model_checking",
        "the real blocking and asynchronous shaped connections with their generator's raw words enumerated: every garbage length, every number and size of handshake decoys, every padding and background decoy size, every short sequence of extreme words, in all four configurations and both roles, with virtual time and explored schedules; a reference peer decodes what is sent and counts garbage, decoys and their sizes against the configuration");
    c.assume("the distribution of the random choices is not judged");
    c.add("every garbage length", 0, garbage);
    c.add("every handshake decoy", 0, hs_decoys);
    c.add("extreme words in the handshake", 0, move |cx| grid(cx, t));
    c.add("extreme words in the session", 0, move |cx| session(cx, t));
    c.add("every decoy size, over key changes", 0, move |cx| sizes(cx, t));
    c.add(format!("schedules, {} deviations", t.q(2, 3)), t.q(2, 3), schedules);
    c.add("large messages", 0, move |cx| large(cx, t));
    c.add("stalls", 0, busy);
    c.add("a minute idle", 0, idle);
    c.add("configuration put together in other ways", 0, builds);
    c.add("random means random", 0, variety);
    c
}
