//! Traffic statistics are exact under concurrency.
use crate::engine::*;
use crate::sh::*;
use bip324_traffic::{AtomicTrafficStats, TrafficStats};
use std::sync::{Arc, Mutex};
use std::time::Duration;

#[derive(Clone, Copy, Debug, PartialEq, Hash)]
enum Op {
    Read(usize),
    Write(usize),
    Ratio,
    Elapsed,
}
/// One call: logical times of its start and end, wall clock (ms) at both.
#[derive(Clone, Copy, Debug)]
struct Call {
    op: Op,
    s: u64,
    e: u64,
    ws: u64,
    we: u64,
    ratio: Option<f64>,
    elapsed: Duration,
}
#[derive(Default)]
struct Log {
    tick: u64,
    calls: Vec<Call>,
}
fn wall() -> u64 {
    sched::time::wall_ns() / 1_000_000
}
fn run(st: &AtomicTrafficStats, log: &Mutex<Log>, op: Op, ms: u64) {
    sched::advance(Duration::from_millis(ms));
    let i = {
        let mut g = lockm(log);
        g.tick += 1;
        let s = g.tick;
        let w = wall();
        g.calls.push(Call { op, s, e: u64::MAX, ws: w, we: u64::MAX, ratio: None, elapsed: Duration::ZERO });
        g.calls.len() - 1
    };
    let (mut ratio, mut elapsed) = (None, Duration::ZERO);
    match op {
        Op::Read(n) => st.record_read(n),
        Op::Write(n) => st.record_write(n),
        Op::Ratio => ratio = st.write_read_ratio(),
        Op::Elapsed => elapsed = st.time_since_last_activity(),
    }
    let mut g = lockm(log);
    g.tick += 1;
    let t = g.tick;
    let c = &mut g.calls[i];
    c.e = t;
    c.we = wall();
    c.ratio = ratio;
    c.elapsed = elapsed;
}
fn size(op: Op, read: bool) -> Option<u64> {
    match (op, read) {
        (Op::Read(n), true) | (Op::Write(n), false) => Some(n as u64),
        _ => None,
    }
}
/// All totals that were current at some moment of the call `o`.
fn totals(calls: &[Call], o: &Call, read: bool) -> Vec<u64> {
    let mut base = 0;
    let mut v = vec![];
    for c in calls {
        if let Some(n) = size(c.op, read) {
            if c.e < o.s {
                base += n
            } else if c.s < o.e {
                v.push(n)
            }
        }
    }
    let mut t: Vec<u64> = (0..1u32 << v.len()).map(|m| base + v.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|x| x.1).sum::<u64>()).collect();
    t.sort();
    t.dedup();
    t
}
fn judge(cx: &Cx, calls: &[Call], created: (u64, u64)) {
    for o in calls {
        match o.op {
            Op::Ratio => {
                let (w, r) = (totals(calls, o, false), totals(calls, o, true));
                let ok = match o.ratio {
                    None => r.contains(&0),
                    Some(x) => r.iter().any(|r| *r != 0 && w.iter().any(|w| *w as f64 / *r as f64 == x)),
                };
                cx.check(ok, || format!("ratio {:?}; totals written {w:?}, totals read {r:?} during the call", o.ratio));
                cx.outcome(if o.ratio.is_none() { "no ratio" } else { "ratio" });
            }
            Op::Elapsed => {
                // clock readings that may be the last activity
                let recs: Vec<&Call> = calls.iter().filter(|c| matches!(c.op, Op::Read(_) | Op::Write(_))).collect();
                let mut allowed = vec![];
                if !recs.iter().any(|c| c.e < o.s) {
                    allowed.push(created);
                }
                for c in recs.iter().filter(|c| c.s < o.e) {
                    if !recs.iter().any(|d| c.e < d.s && d.e < o.s) {
                        allowed.push((c.ws, c.we.min(o.we)));
                    }
                }
                let x = o.elapsed.as_millis() as u64;
                let ok = allowed.iter().any(|(a, b)| x >= o.ws.saturating_sub(*b) && x <= o.we.saturating_sub(*a)) && o.elapsed.subsec_nanos() % 1_000_000 == 0;
                cx.check(ok, || format!("time since the last activity {x} ms, observed at {}..{}; activities at {allowed:?}", o.ws, o.we));
            }
            _ => {}
        }
    }
}
const DONE: usize = 0x7777;
fn threads(cx: &Cx, progs: Vec<Vec<Op>>) {
    cx.threads(20_000, move |cx| {
        let st = Arc::new(AtomicTrafficStats::new());
        let w0 = wall();
        let log = Arc::new(Mutex::new(Log::default()));
        // set-up is not explored: only the calls interleave
        cx.freeze(true);
        let left = Arc::new(Mutex::new(progs.len()));
        let hs: Vec<_> = progs
            .iter()
            .cloned()
            .map(|p| {
                let (st, log, left, cx) = (st.clone(), log.clone(), left.clone(), cx.clone());
                sched::thread::spawn(move || {
                    for op in p {
                        run(&st, &log, op, 1);
                    }
                    *lockm(&left) -= 1;
                    if *lockm(&left) == 0 {
                        cx.freeze(true);
                        sched::wake(DONE);
                    }
                })
            })
            .collect();
        cx.freeze(false);
        if *lockm(&left) > 0 {
            sched::block(DONE);
        }
        cx.freeze(true);
        for h in hs {
            if h.join().is_err() {
                cx.fail("a recording thread panics");
            }
        }
        run(&st, &log, Op::Ratio, 5);
        run(&st, &log, Op::Elapsed, 7);
        let g = lockm(&log);
        cx.ops(g.calls.len() as u64);
        let calls = g.calls.clone();
        drop(g);
        judge(cx, &calls, (w0, w0));
        cx.state(&calls.iter().map(|c| (c.s, c.e, c.ratio.map(|x| x.to_bits()), c.elapsed)).collect::<Vec<_>>());
    });
}
const REC: [Op; 2] = [Op::Read(3), Op::Write(5)];
const OBS: [Op; 2] = [Op::Ratio, Op::Elapsed];
fn observed(cx: &Cx, all: bool) {
    let (a, b, o) = if all {
        (cx.pick("first", &[Op::Read(3), Op::Write(5), Op::Read(0)]), cx.pick("second", &[Op::Read(2), Op::Write(7)]), cx.pick("observer", &OBS))
    } else {
        cx.pick("calls", &[(Op::Read(3), Op::Write(7), Op::Ratio), (Op::Read(3), Op::Read(2), Op::Ratio), (Op::Write(5), Op::Read(2), Op::Elapsed)])
    };
    threads(cx, vec![vec![a], vec![b], vec![o]]);
}
fn three(cx: &Cx) {
    let k = cx.choose("reads", 4);
    let p = (0..3).map(|i| vec![if i < k { Op::Read([3, 8, 21][i]) } else { Op::Write([5, 13, 34][i]) }]).collect();
    threads(cx, p);
}
fn more(cx: &Cx, t: Tier) {
    let p: Vec<Vec<Op>> = (0..2).map(|i| (0..2).map(|j| cx.pick("operation", &REC)).map(|o| match o { Op::Read(n) => Op::Read(n + i * 7), x => x }).collect()).collect();
    let mut p = p;
    p.push(vec![cx.pick("observer", &OBS); t.q(1, 2)]);
    threads(cx, p);
}
/// Sequential histories with clock steps.
fn history(cx: &Cx, t: Tier) {
    let n = t.q(4, 5);
    #[derive(Clone, Copy)]
    enum S {
        Do(Op),
        Clock(i64),
    }
    let acts = [
        S::Do(Op::Read(4)), S::Do(Op::Write(9)), S::Do(Op::Read(0)), S::Do(Op::Write(1 << 40)), S::Do(Op::Read((1 << 33) + 3)), S::Clock(1), S::Clock(999), S::Clock(86_400_000), S::Clock(4_300_000_123),
        S::Clock(-1), S::Clock(-5_000), S::Clock(-86_400_000),
    ];
    let seq: Vec<S> = (0..n).map(|_| cx.pick("step", &acts)).collect();
    let default = cx.flag("created by default");
    cx.threads(20_000, move |cx| {
        let st = if default { AtomicTrafficStats::default() } else { AtomicTrafficStats::new() };
        let (mut last, mut r, mut w) = (wall(), 0u64, 0u64);
        let look = |last: u64, r: u64, w: u64| {
            let want = wall().saturating_sub(last);
            let got = st.time_since_last_activity();
            cx.check(got == Duration::from_millis(want), || format!("time since the last activity {got:?}, the clock says {want} ms"));
            let want = if r == 0 { None } else { Some(w as f64 / r as f64) };
            let got = st.write_read_ratio();
            cx.check(got == want, || format!("ratio {got:?}, written {w}, read {r}"));
            cx.ops(2);
        };
        look(last, r, w);
        for s in &seq {
            match *s {
                S::Do(Op::Read(n)) => {
                    st.record_read(n);
                    r += n as u64;
                    last = wall();
                }
                S::Do(Op::Write(n)) => {
                    st.record_write(n);
                    w += n as u64;
                    last = wall();
                }
                S::Do(_) => {}
                S::Clock(ms) => sched::time::step_wall_ns(ms * MS as i64),
            }
            cx.op();
            look(last, r, w);
        }
        cx.outcome(if wall() < last { "clock behind the last activity" } else { "clock not behind" });
        cx.state(&(wall() as i64 - last as i64, r, w));
    });
}
/// Sizes next to every power of two, and many records one after another.
fn sizes(cx: &Cx, t: Tier) {
    let e = cx.choose("power", 53);
    let d = cx.pick("distance", &[-1i64, 0, 1]);
    let other = cx.pick("other", &[1usize, 1000, (1 << 31) + 5, (1 << 45) + 7]);
    let reps = cx.pick("records", &t.q(vec![1usize, 3, 300], vec![1, 3, 300, 70_000]));
    let read = cx.flag("large reads");
    let n = ((1i64 << e) + d) as usize;
    if reps > 300 && (other > 1 || e > 40) {
        return;
    }
    let (a, b) = if read { (n, other) } else { (other, n) };
    cx.threads(20_000, move |cx| {
        let st = AtomicTrafficStats::new();
        for k in 0..reps {
            st.record_read(a);
            st.record_write(b);
            if k < 2 || k + 1 == reps {
                let (r, w) = (a as u64 * (k as u64 + 1), b as u64 * (k as u64 + 1));
                let want = if r == 0 { None } else { Some(w as f64 / r as f64) };
                let got = st.write_read_ratio();
                cx.check(got == want, || format!("ratio {got:?}, written {w}, read {r}"));
            }
        }
        cx.ops(2 * reps as u64);
        cx.outcome(if n > 0xffff_ffff { "beyond 32 bits" } else { "within 32 bits" });
        cx.state(&(n, other, reps, read));
    });
}
pub fn check(t: Tier) -> Check {
    let mut c = Check::new("C22", "model_checking",
        "the real statistics under a controlled scheduler in which every atomic access and clock read is a scheduling point: every interleaving (no preemption bound) of two recorders and an observer; three recorders, and two recorders of two calls each and an observer up to the preemption bound; observed values must be those of totals and activities current during the call, final values exact; every sequential history of records and clock steps, forwards and backwards, to the depth");
    c.assume("sequentially consistent interleavings");
    c.add("two recorders and an observer, every interleaving", 99, move |cx| observed(cx, t == Tier::Thorough));
    c.add("two recorders and an observer, 3 preemptions", 3, |cx| observed(cx, true));
    if t == Tier::Quick {
        c.add("three recorders, 3 preemptions", 3, three);
    } else {
        c.add("three recorders, every interleaving", 99, three);
    }
    let d = t.q(2, 4);
    c.add(format!("two calls each and an observer, {d} preemptions"), d, move |cx| more(cx, t));
    c.add("sizes", 0, move |cx| sizes(cx, t));
    c.add("histories with clock steps", 0, move |cx| history(cx, t));
    c
}
