//! Async traffic shaping never corrupts or reorders messages.
use crate::engine::*;
use crate::fx::*;
use crate::sh::*;
use bip324::{PacketType, Role};
use bip324_traffic::futures::{ShapedProtocol, ShapedProtocolReader};
use std::time::Duration;
use tokio::time::timeout;

fn peer(role: Role, n: usize) -> Peer {
    let mut p = Peer::new(role);
    p.garbage = contents(4, 6);
    p.hs = vec![(128, vec![5; 3]), (0, vec![])];
    p.session = (0..n).map(|k| (if k % 3 == 1 { 128 } else { 0 }, msg(100 + k, 7 * k))).collect();
    p
}
async fn read_one(cx: &Cx, r: &mut ShapedProtocolReader<Net>, k: usize, p: &Peer) {
    if k >= p.session.len() {
        return;
    }
    match r.read().await {
        Ok(x) => {
            let (h, c) = &p.session[k];
            cx.check(x.contents() == &c[..] && (x.packet_type() == PacketType::Decoy) == (*h == 128), || format!("read {k} of a shaped connection gives other contents or type"));
        }
        Err(e) => cx.fail(format!("read {k} of a shaped connection fails: {e:?}")),
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Hash)]
enum Act {
    /// write and wait for the result
    Full,
    /// poll the write so many times (other tasks run in between), then drop it
    Polls(usize),
    /// wait for the result for so many milliseconds
    Wait(u64),
}
#[derive(Clone, Debug, Hash)]
struct Step {
    /// milliseconds before
    nap: u64,
    /// close the gate so many bytes ahead
    gate: Option<usize>,
    act: Act,
    n: usize,
    decoy: bool,
}
struct Par {
    cfg: (bool, bool),
    role: Role,
    steps: Vec<Step>,
    session: Words,
    hs: Words,
    wr_max: usize,
    env: bool,
    select: bool,
}
fn scenario(cx: &Cx, p: Par) {
    let cx2 = cx.clone();
    rt(cx, async move {
        let cx = &cx2;
        let peer = peer(p.role, p.steps.len());
        let net = Net::new(cx, Some(peer.clone()));
        words(cx, &net, p.hs.clone(), p.session.clone());
        cx.seed_fill(8);
        cx.explore_select(p.select);
        let (w, released) = wnet(&net);
        let conn = match ShapedProtocol::new(MAGIC, p.role, config(p.cfg), net.clone(), w).await {
            Ok(c) => c,
            Err(e) => cx.fail(format!("shaped handshake fails: {e:?}")),
        };
        net.l().wr_max = p.wr_max;
        if p.env {
            let mut g = net.l();
            g.wr_env = vec![Alt::One, Alt::ButOne, Alt::Do(Ev::Pending)];
            g.fl_env = vec![Alt::Do(Ev::Pending)];
            g.rd_env = vec![Alt::One, Alt::Do(Ev::Pending)];
        }
        let (mut r, mut wr) = conn.into_split();
        let mut issued: Vec<(bool, Vec<u8>)> = vec![];
        let mut must = vec![];
        let cut = p.steps.len() > 20;
        for (k, s) in p.steps.iter().enumerate() {
            if s.nap > 0 {
                anap(s.nap).await;
            }
            if s.act == Act::Full {
                net.lift();
            } else if let Some(b) = s.gate {
                let mut g = net.l();
                g.gate = Some(g.out.len() + b);
            }
            issued.push((s.decoy, msg(k, s.n)));
            must.push(false);
            let pl = payload(s.decoy, &issued[k].1);
            let res = match s.act {
                Act::Full => Some(wr.write(&pl).await),
                Act::Polls(n) => poll_some(n, wr.write(&pl)).await,
                Act::Wait(ms) => timeout(Duration::from_millis(ms), wr.write(&pl)).await.ok(),
            };
            cx.op();
            match res {
                Some(Ok(())) => {
                    must[k] = true;
                    if !cut || k % 50 == 0 {
                        let v = view(cx, &net);
                        subsequence(cx, &v, &issued, &must);
                        cx.check(s.decoy || v.genuine.last() == Some(&issued[k].1), || format!("write {k} succeeded and is not the last genuine packet"));
                        cx.check(v.flushed >= v.ends.last().copied().unwrap_or(0), || format!("write {k} succeeded and is not flushed"));
                    }
                }
                Some(Err(e)) => cx.fail(format!("write {k} fails over a transport that accepts everything: {e:?}")),
                None => {}
            }
            read_one(cx, &mut r, k, &peer).await;
        }
        net.lift();
        anap(50).await;
        let v = view(cx, &net);
        subsequence(cx, &v, &issued, &must);
        drop(wr);
        anap(1000).await;
        let v = view(cx, &net);
        subsequence(cx, &v, &issued, &must);
        cx.check(v.tail == 0 && v.flushed == v.total, || format!("at the end {} bytes are unfinished, {} not flushed", v.tail, v.total - v.flushed));
        cx.check(released.upgrade().is_none(), || "the transport is still held after the drop".into());
        drop(r);
        let sent = v.genuine.len() + issued.iter().filter(|x| x.0).count();
        let ok = must.iter().filter(|x| **x).count();
        cx.outcome(if ok == issued.len() { "all written" } else if sent == issued.len() { "cancelled but sent" } else { "some cancelled writes not sent" });
        let key: Vec<usize> = v.ends.iter().copied().chain(v.decoys.iter().copied()).collect();
        cx.state(&(key, &must));
    })
}
fn steps(cx: &Cx, n: usize, decoys: usize, acts: &[Act], gates: &[Option<usize>], naps: &[u64]) -> Vec<Step> {
    (0..n)
        .map(|k| {
            let act = cx.pick("write", acts);
            Step {
                nap: cx.pick("nap", naps),
                gate: if act == Act::Full { None } else { cx.pick("gate", gates) },
                act,
                n: [0, 13, 40][k % 3],
                decoy: decoys >> k & 1 == 1,
            }
        })
        .collect()
}
const ACTS: [Act; 6] = [Act::Full, Act::Polls(1), Act::Polls(2), Act::Polls(4), Act::Wait(20), Act::Wait(130)];
/// Every short history of writes, cancellations, naps and gate positions.
fn histories(cx: &Cx, t: Tier) {
    let cfg = cx.pick("configuration", &CFG);
    let always = cx.flag("decoys");
    let decoys = cx.pick("decoys written", &[0usize, 2]);
    let st = steps(cx, t.q(2, 3), decoys, &ACTS, &t.q(vec![None, Some(0), Some(1), Some(5), Some(24), Some(50)], vec![None, Some(0), Some(5), Some(24)]), &t.q(vec![0, 100, 130], vec![0, 100]));
    scenario(cx, Par {
        cfg, role: Role::Initiator, steps: st,
        session: Words::Seq(if always { vec![HI, MID / 256] } else { vec![0] }),
        hs: Words::Fixed(0), wr_max: 30, env: false, select: false,
    });
}
/// Select order, readiness, short writes and random outcomes as deviations.
fn varied(cx: &Cx, n: usize, env: bool, small: bool) {
    let cfg = if small { (true, true) } else { cx.pick("configuration", &CFG[..]) };
    let always = cx.flag("decoys by default");
    let st = steps(cx, n, 0, &[Act::Full, Act::Polls(1), Act::Wait(130)], &[None, Some(7)], if small { &[100] } else { &[0, 100] });
    scenario(cx, Par {
        cfg, role: Role::Responder, steps: st,
        session: Words::Dev(if always { vec![HI, 0] } else { vec![0, HI] }),
        hs: Words::Fixed(0), wr_max: if env { 400 } else { usize::MAX }, env, select: true,
    });
}
/// The gate at every byte of what is sent, one write given up there, more writes afterwards.
fn gates(cx: &Cx, t: Tier) {
    let cfg = cx.pick("configuration", &CFG);
    let at = cx.choose("gate", t.q(150, 400));
    let first = cx.pick("first", &[Act::Polls(1), Act::Polls(3), Act::Wait(50), Act::Wait(250)]);
    let second = cx.pick("second", &[Act::Full, Act::Polls(1), Act::Wait(50)]);
    let decoys = cx.flag("decoys");
    let st = vec![
        Step { nap: 0, gate: Some(at), act: first, n: 9, decoy: false },
        Step { nap: cx.pick("nap", &[0u64, 200]), gate: None, act: second, n: 3, decoy: false },
        Step { nap: 0, gate: None, act: Act::Full, n: 0, decoy: false },
    ];
    // the second step leaves the gate where it is unless it waits for its result
    scenario(cx, Par {
        cfg, role: Role::Initiator, steps: st,
        session: Words::Seq(if decoys { vec![HI, MID / 256] } else { vec![0, MID / 256] }),
        hs: Words::Fixed(MID / 64), wr_max: usize::MAX, env: false, select: false,
    });
}
fn long(cx: &Cx, t: Tier) {
    let cfg = cx.pick("configuration", &CFG);
    let role = cx.pick("role", &ROLES);
    let wr_max = cx.pick("bytes per write", &[usize::MAX, 50]);
    let mix = cx.pick("mix", &[0usize, 1, 2]);
    let w = cx.pick("words", &[vec![HI], vec![0, HI, MID], vec![HI, HI, 0, 0, HI]]);
    let n = t.q(300, 900);
    let st = (0..n)
        .map(|k| Step {
            nap: if k % 7 == 3 { 110 } else { 0 },
            gate: if mix == 2 && k % 11 == 5 { Some(k % 60) } else { None },
            act: if mix >= 1 && k % 5 == 2 { Act::Polls(1 + k % 3) } else if mix == 2 && k % 11 == 5 { Act::Wait(30) } else { Act::Full },
            n: k * 13 % 70,
            decoy: k % 5 == 3,
        })
        .collect();
    scenario(cx, Par { cfg, role, steps: st, session: Words::Seq(w), hs: Words::Fixed(HI), wr_max, env: false, select: false });
}
/// Large payloads, next to powers of two and the largest the peer accepts.
fn large(cx: &Cx, t: Tier) {
    let cfg = cx.pick("configuration", &CFG);
    let top = t.q(20, 22);
    let mut sizes: Vec<usize> = (10..=top).flat_map(|e| [-20i64, -4, -1, 0, 1].map(|d| ((1i64 << e) + d) as usize)).filter(|n| *n <= 4_000_013).collect();
    sizes.extend((11..top).map(|e| (1usize << e) / 4 * 7 + e));
    sizes.extend([70_000, 100_001, 600_000, 4_000_012, 4_000_013]);
    let n = cx.pick("size", &sizes);
    let first = cx.pick("first", &[Act::Full, Act::Polls(1), Act::Wait(130)]);
    let gate = if first == Act::Full { None } else { Some(n / 2) };
    let decoy = cx.flag("second is a decoy");
    let st = vec![
        Step { nap: 0, gate, act: first, n, decoy: false },
        Step { nap: 110, gate: None, act: Act::Full, n, decoy },
        Step { nap: 0, gate: None, act: Act::Full, n: 5, decoy: false },
    ];
    scenario(cx, Par { cfg, role: Role::Responder, steps: st, session: Words::Fixed(HI), hs: Words::Fixed(0), wr_max: usize::MAX, env: false, select: false });
}
/// Many writes given up one after another while the transport is not ready, then more writes that
/// wait for their results when it is ready again.
fn queued(cx: &Cx, t: Tier) {
    let cfg = cx.pick("configuration", &CFG);
    let k = cx.pick("given up", &t.q(vec![1, 2, 3, 5, 8, 9, 16, 17, 33, 65, 100, 129, 257, 300], vec![1, 2, 3, 5, 8, 9, 16, 17, 33, 65, 100, 129, 257, 300, 513, 1025, 2049, 4097]));
    let act = cx.pick("each", &[Act::Polls(1), Act::Polls(2), Act::Wait(3)]);
    let at = cx.pick("gate", &[0usize, 30]);
    let late = cx.pick("ready after", &[0u64, 100, 5000]);
    let w = cx.pick("words", &[vec![0], vec![HI, MID / 256]]);
    let cx2 = cx.clone();
    rt_long(cx, 10_000, async move {
        let cx = &cx2;
        let peer = peer(Role::Initiator, 0);
        let net = Net::new(cx, Some(peer));
        words(cx, &net, Words::Fixed(0), Words::Seq(w));
        cx.seed_fill(9);
        let (wn, _) = wnet(&net);
        let conn = match ShapedProtocol::new(MAGIC, Role::Initiator, config(cfg), net.clone(), wn).await {
            Ok(c) => c,
            Err(e) => cx.fail(format!("shaped handshake fails: {e:?}")),
        };
        let (r, mut wr) = conn.into_split();
        {
            let mut g = net.l();
            g.gate = Some(g.out.len() + at);
        }
        let (mut issued, mut must) = (vec![], vec![]);
        for i in 0..k + 3 {
            issued.push((false, msg(i, i * 7 % 50)));
            let pl = payload(false, &issued[i].1);
            let res = if i < k {
                match act {
                    Act::Polls(n) => poll_some(n, wr.write(&pl)).await,
                    Act::Wait(ms) => timeout(Duration::from_millis(ms), wr.write(&pl)).await.ok(),
                    Act::Full => None,
                }
            } else {
                Some(tokio::join!(wr.write(&pl), async { anap(late).await; net.lift() }).0)
            };
            must.push(matches!(res, Some(Ok(()))));
            if let Some(Err(e)) = res {
                cx.fail(format!("write {i} fails over a transport that accepts everything in the end: {e:?}"));
            }
            cx.op();
            if must[i] {
                let v = view(cx, &net);
                subsequence(cx, &v, &issued, &must);
                cx.check(v.flushed >= v.ends.last().copied().unwrap_or(0), || format!("write {i} succeeded and is not flushed"));
            }
        }
        drop(wr);
        anap(1000).await;
        let v = view(cx, &net);
        subsequence(cx, &v, &issued, &must);
        cx.check(v.tail == 0 && v.flushed == v.total, || format!("at the end {} bytes are unfinished, {} not flushed", v.tail, v.total - v.flushed));
        drop(r);
        cx.outcome(if v.genuine.len() == issued.len() { "cancelled but sent" } else { "some cancelled writes not sent" });
        cx.state(&(k, at, v.genuine.len()));
    })
}
pub fn check(t: Tier) -> Check {
    let mut c = Check::new("C19", "model_checking",
        "the real asynchronous shaped connection on a single-threaded runtime with virtual time: every short history of writes awaited, polled a few times and dropped, or given up after a time, with the transport not ready from every byte position on; every select order, readiness, short write and random outcome up to the deviation bound; long runs over key changes; the bytes sent are decoded by a reference peer after every successful write and at the end");
    c.assume("task interleavings of a single-threaded runtime; the channels of tokio are taken as correct");
    c.add(format!("{} writes, every history", t.q(2, 3)), 0, move |cx| histories(cx, t));
    c.add("not ready at every byte", 0, move |cx| gates(cx, t));
    let (a, b) = (t.q(2, 3), t.q(1, 3));
    c.add(format!("two writes, select order and random outcomes, {a} deviations"), a, |cx| varied(cx, 2, false, false));
    c.add(format!("two writes, varied transport, {a} deviations"), a, move |cx| varied(cx, 2, true, t == Tier::Quick));
    c.add(format!("three writes, select order and random outcomes, {b} deviations"), b, |cx| varied(cx, 3, false, false));
    c.add(format!("three writes, varied transport, {b} deviations"), b, move |cx| varied(cx, 3, true, t == Tier::Quick));
    c.add("many writes given up in a row", 0, move |cx| queued(cx, t));
    c.add("large payloads", 0, move |cx| large(cx, t));
    c.add("long sessions", 0, move |cx| long(cx, t));
    c
}
