//! No silent loss after a failed background decoy.
use crate::engine::*;
use crate::fx::*;
use crate::refm;
use crate::sh::*;
use bip324::Role;
use bip324_traffic::{futures as fu, io};
use std::io::ErrorKind;
use std::time::Duration;

fn peer() -> Peer {
    let mut p = Peer::new(Role::Initiator);
    p.garbage = contents(4, 6);
    p.session = vec![];
    p
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Fault {
    /// one write fails
    Once(ErrorKind),
    /// one write accepts nothing
    Zero,
    Intr,
    /// every write and flush fails from here on
    Dead,
    /// flushes fail so many times from here on
    Flush(usize),
    /// one flush fails like this
    FlushOnce(ErrorKind),
}
const FAULTS: [Fault; 7] = [
    Fault::Once(ErrorKind::TimedOut),
    Fault::Once(ErrorKind::WouldBlock),
    Fault::Zero,
    Fault::Intr,
    Fault::Dead,
    Fault::Flush(1),
    Fault::Flush(2),
];
fn plant(net: &Net, f: Fault, at: usize) {
    let mut g = net.l();
    match f {
        Fault::Once(k) => g.wr_ev.push((at, Ev::Err(k))),
        Fault::Zero => g.wr_ev.push((at, Ev::Zero)),
        Fault::Intr => g.wr_ev.push((at, Ev::Intr)),
        Fault::Dead => g.wr_dead = Some((at, ErrorKind::BrokenPipe)),
        Fault::FlushOnce(k) => g.fl_fail = Some((at, k, 1)),
        Fault::Flush(n) => g.fl_fail = Some((at, ErrorKind::TimedOut, n)),
    }
}
/// The genuine packets an independent peer gets out of what was sent, and where they end.
fn decoded(cx: &Cx, net: &Net) -> Vec<(Vec<u8>, usize)> {
    let total = net.l().out.len();
    let (_, _, rest, mut r) = check_sent(cx, net);
    let (ps, _) = refm::parse_stream(&mut r.recv, &rest);
    let mut at = total - rest.len();
    let mut v = vec![];
    for (h, c) in ps {
        at += 20 + c.len();
        if h & 128 == 0 {
            v.push((c, at));
        }
    }
    v
}
struct Judge {
    failed: bool,
    ok: Vec<Vec<u8>>,
}
impl Judge {
    fn wrote<E: std::fmt::Debug>(&mut self, cx: &Cx, net: &Net, k: usize, m: Vec<u8>, r: &Result<(), E>) {
        cx.op();
        match r {
            Err(_) => self.failed = true,
            Ok(()) if !self.failed => {
                self.ok.push(m);
                let d = decoded(cx, net);
                let mut at = 0;
                let mut end = 0;
                for (i, m) in self.ok.iter().enumerate() {
                    match d[at..].iter().position(|x| x.0 == *m) {
                        Some(j) => {
                            end = d[at + j].1;
                            at += j + 1;
                        }
                        None => cx.fail(format!("write {k} reports success, no write failed before, and the peer cannot decode success {i} (it decodes {} packets)", d.len())),
                    }
                }
                let f = net.l().flushed;
                cx.check(f >= end, || format!("write {k} reports success and is not flushed"));
            }
            Ok(()) => {}
        }
    }
    fn outcome(&self, cx: &Cx, net: &Net) {
        let hits = net.l().hits.len();
        cx.outcome(match (hits, self.failed) {
            (0, _) => "no fault met",
            (_, true) => "fault reported",
            (_, false) => "fault without effect on writes",
        });
        let n = net.l().out.len();
        cx.state(&(n, self.failed, self.ok.len(), hits));
    }
}
#[derive(Clone)]
struct Par {
    cfg: (bool, bool),
    faults: Vec<(Fault, usize)>,
    naps: Vec<u64>,
    writes: usize,
    session: Words,
    /// asynchronous: this write is polled so many times and dropped
    give_up: Option<(usize, usize)>,
    select: bool,
}
fn blocking(cx: &Cx, p: Par) {
    cx.threads(60_000 + 4 * p.naps.iter().sum::<u64>() * p.writes as u64, move |cx| {
        let net = Net::new(cx, Some(peer()));
        words(cx, &net, Words::Fixed(0), p.session.clone());
        cx.seed_fill(8);
        let (w, _tok) = wnet(&net);
        let conn = match io::ShapedProtocol::new(MAGIC, Role::Initiator, config(p.cfg), net.clone(), w) {
            Ok(c) => c,
            Err(e) => cx.fail(format!("shaped handshake fails: {e:?}")),
        };
        let base = net.l().out.len();
        for (f, at) in &p.faults {
            plant(&net, *f, base + at);
        }
        let (_r, mut w) = conn.into_split();
        let mut j = Judge { failed: false, ok: vec![] };
        for k in 0..p.writes {
            let n = p.naps[k % p.naps.len()];
            if n > 0 {
                nap(n);
            }
            let m = msg(k, 4 + k);
            let r = w.write(&payload(false, &m));
            j.wrote(cx, &net, k, m, &r);
        }
        drop(w);
        j.outcome(cx, &net);
    });
}
fn asynchronous(cx: &Cx, p: Par) {
    let cx2 = cx.clone();
    rt_long(cx, 60 + p.naps.iter().sum::<u64>() * p.writes as u64 / 1000, async move {
        let cx = &cx2;
        let net = Net::new(cx, Some(peer()));
        words(cx, &net, Words::Fixed(0), p.session.clone());
        cx.seed_fill(8);
        cx.explore_select(p.select);
        let (w, _tok) = wnet(&net);
        let conn = match fu::ShapedProtocol::new(MAGIC, Role::Initiator, config(p.cfg), net.clone(), w).await {
            Ok(c) => c,
            Err(e) => cx.fail(format!("shaped handshake fails: {e:?}")),
        };
        let base = net.l().out.len();
        for (f, at) in &p.faults {
            plant(&net, *f, base + at);
        }
        let (_r, mut w) = conn.into_split();
        let mut j = Judge { failed: false, ok: vec![] };
        for k in 0..p.writes {
            let n = p.naps[k % p.naps.len()];
            if n > 0 {
                anap(n).await;
            }
            let m = msg(k, 4 + k);
            let pl = payload(false, &m);
            if let Some((_, n)) = p.give_up.filter(|g| g.0 == k) {
                if let Some(r) = poll_some(n, w.write(&pl)).await {
                    j.wrote(cx, &net, k, m, &r);
                }
                continue;
            }
            match tokio::time::timeout(Duration::from_secs(5), w.write(&pl)).await {
                Ok(r) => j.wrote(cx, &net, k, m, &r),
                Err(_) => cx.fail(format!("write {k} neither succeeds nor fails")),
            }
        }
        drop(w);
        anap(300).await;
        j.outcome(cx, &net);
    })
}
/// Small decoys.
fn small() -> Words {
    Words::Seq(vec![HI, 5 << 54])
}
fn positions(cx: &Cx, t: Tier, asy: bool) {
    let cfg = cx.pick("configuration", &CFG);
    let f = cx.pick("fault", &FAULTS);
    let at = cx.choose("position", t.q(200, 400));
    let naps = cx.pick("naps", &[vec![0u64, 150, 0, 250], vec![210, 0, 100], vec![150, 150], vec![0]]);
    let session = cx.pick("words", &[small(), Words::Fixed(HI)]);
    let p = Par { cfg, faults: vec![(f, at)], naps, writes: t.q(4, 6), session, give_up: None, select: false };
    if asy {
        let give_up = cx.pick("given up", &[None, Some((0, 1)), Some((1, 1)), Some((1, 3))]);
        asynchronous(cx, Par { give_up, ..p })
    } else {
        blocking(cx, p)
    }
}
/// Every kind of error while writing or flushing.
fn kinds(cx: &Cx, t: Tier, asy: bool) {
    let cfg = cx.pick("configuration", &CFG);
    let k = cx.pick("kind", &crate::c15::KINDS);
    let f = cx.pick("fault", &[Fault::Once(k), Fault::FlushOnce(k)]);
    let at = cx.choose("position", t.q(24, 160)) * t.q(7, 1);
    let naps = cx.pick("naps", &[vec![0u64, 150, 0, 250], vec![210, 0, 100]]);
    let p = Par { cfg, faults: vec![(f, at)], naps, writes: 4, session: small(), give_up: None, select: false };
    if asy {
        asynchronous(cx, Par { give_up: cx.pick("given up", &[None, Some((1, 1))]), ..p })
    } else {
        blocking(cx, p)
    }
}
/// A fault after a long history.
fn late(cx: &Cx, t: Tier, asy: bool) {
    let cfg = cx.pick("configuration", &CFG);
    let n = cx.pick("writes before", &t.q(vec![60usize, 130, 260, 520], vec![60, 130, 260, 520, 1100, 2300]));
    let f = cx.pick("fault", &[Fault::Once(ErrorKind::TimedOut), Fault::Zero, Fault::Dead, Fault::Flush(1)]);
    let naps = cx.pick("naps", &[vec![0u64, 0, 0, 110], vec![100], vec![600_000, 0, 0, 0, 0, 0, 0]]);
    if naps[0] > 1000 && n > 60 {
        cx.skip()
    }
    // about half way
    let at = n * 24 / 2 + cx.choose("position", 8) * 5;
    let p = Par { cfg, faults: vec![(f, at)], naps, writes: n, session: small(), give_up: None, select: false };
    if asy {
        asynchronous(cx, p)
    } else {
        blocking(cx, p)
    }
}
fn pairs(cx: &Cx, t: Tier, asy: bool) {
    let cfg = cx.pick("configuration", &CFG[2..]);
    let f = cx.pick("fault", &[Fault::Once(ErrorKind::TimedOut), Fault::Flush(1)]);
    let g = cx.pick("second fault", &[Fault::Once(ErrorKind::TimedOut), Fault::Zero, Fault::Flush(1)]);
    let s = t.q(5, 2);
    let at = cx.choose("position", 120 / s) * s;
    let at2 = at + cx.choose("distance", 90 / s) * s;
    let p = Par { cfg, faults: vec![(f, at), (g, at2)], naps: vec![0, 150, 0, 250], writes: 4, session: small(), give_up: None, select: false };
    if asy {
        asynchronous(cx, p)
    } else {
        blocking(cx, p)
    }
}
/// Faults under explored schedules and random outcomes.
fn schedules(cx: &Cx, t: Tier, asy: bool) {
    let cfg = cx.pick("configuration", &CFG[2..]);
    let f = cx.pick("fault", &[Fault::Once(ErrorKind::TimedOut), Fault::Zero, Fault::Dead, Fault::Flush(1)]);
    let at = cx.choose("position", t.q(12, 60)) * t.q(5, 1);
    let naps = cx.pick("naps", &[vec![100u64, 0, 100], vec![0, 100, 130]]);
    let p = Par { cfg, faults: vec![(f, at)], naps, writes: 3, session: Words::Dev(vec![5 << 54, HI]), give_up: None, select: asy };
    if asy {
        asynchronous(cx, p)
    } else {
        blocking(cx, p)
    }
}
pub fn check(t: Tier) -> Check {
    let mut c = Check::new("C23", "model_checking",
        "the real blocking and asynchronous shaped connections with a transport fault of every kind (error once, nothing accepted, interrupted, dead, flush errors) at every byte position of the session stream, single and in pairs, in all configurations, with and without given-up writes, and under explored schedules and random outcomes: after every write that reports success with no failure reported before, a reference peer must decode it from what was handed over and flushed");
    c.add("blocking: every position", 0, move |cx| positions(cx, t, false));
    c.add("asynchronous: every position", 0, move |cx| positions(cx, t, true));
    c.add("blocking: every kind of error", 0, move |cx| kinds(cx, t, false));
    c.add("asynchronous: every kind of error", 0, move |cx| kinds(cx, t, true));
    c.add("blocking: after a long history", 0, move |cx| late(cx, t, false));
    c.add("asynchronous: after a long history", 0, move |cx| late(cx, t, true));
    c.add("blocking: two faults", 0, move |cx| pairs(cx, t, false));
    c.add("asynchronous: two faults", 0, move |cx| pairs(cx, t, true));
    c.add(format!("blocking: schedules, {} deviations", t.q(2, 3)), t.q(2, 3), move |cx| schedules(cx, t, false));
    c.add(format!("asynchronous: schedules, {} deviations", t.q(3, 4)), t.q(3, 4), move |cx| schedules(cx, t, true));
    c
}
