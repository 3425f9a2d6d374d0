//! Each send puts exactly its bytes on the wire, complete and in order.
use crate::c12::script;
use crate::engine::*;
use crate::fx::*;
use crate::refm;
use bip324::io::Payload;
use bip324::Role;
use std::io::ErrorKind;

const GARB: usize = 7;
fn plan(t: Tier) -> Vec<(bool, usize)> {
    t.q(vec![(false, 0), (true, 9), (false, 300), (false, 1)], vec![(false, 0), (true, 9), (false, 300), (false, 1), (true, 0), (false, 1023)])
}
/// The correct bytes of every call (handshake first), for the deterministic randomness of the run.
struct Plan {
    drv: Drv,
    role: Role,
    pl: Vec<(bool, Vec<u8>)>,
    want: Vec<u8>,
    /// end of each call's bytes
    ends: Vec<usize>,
}
fn open_(cx: &Cx, drv: Drv, role: Role, net: &Net) -> Out<Conn> {
    cx.seed_fill(21);
    connect(cx, drv, net, MAGIC, role, Some(contents(1, GARB)), Some(vec![contents(2, 6), vec![]]))
}
fn base(cx: &Cx, drv: Drv, role: Role, sizes: &[(bool, usize)]) -> Plan {
    let net = Net::new(cx, Some(script(role, 4)));
    let mut c = match open_(cx, drv, role, &net) {
        Out::Ok(c) => c,
        _ => cx.fail("handshake over a good transport fails"),
    };
    let pl: Vec<(bool, Vec<u8>)> = sizes.iter().enumerate().map(|(k, (d, n))| (*d, contents(30 + k as u64, *n))).collect();
    let mut ends = vec![];
    let mark = |ends: &mut Vec<usize>| {
        let g = net.l();
        let (n, f) = (g.out.len(), g.flushed);
        drop(g);
        cx.check(n == f, || format!("{} bytes not flushed at the end of call {}", n - f, ends.len()));
        ends.push(n)
    };
    mark(&mut ends);
    for (d, c2) in &pl {
        let r = c.write(cx, &net, &payload(*d, c2));
        cx.check(r == Out::Ok(()), || format!("write over a good transport: {r:?}"));
        mark(&mut ends);
    }
    let (g, d, rest, mut r) = check_sent(cx, &net);
    cx.check(g == contents(1, GARB) && d == vec![contents(2, 6), vec![]], || "garbage or decoys differ from the configured ones".into());
    let mut want = net.l().out.clone();
    // the session bytes are those of the reference sender, call by call
    let k = want.len() - rest.len();
    cx.check(ends[0] == k, || "the handshake sent something after the version packet".into());
    let mut d2 = r.recv.clone();
    want.truncate(k);
    for (j, (d, c2)) in pl.iter().enumerate() {
        want.extend(d2.packet(c2, *d, &[]));
        cx.check(ends[j + 1] == want.len(), || format!("write {j} sent {} bytes", ends[j + 1] - ends[j]));
    }
    let _ = refm::parse_stream(&mut r.recv, &rest);
    cx.check(net.l().out == want, || "bytes differ from those of the reference sender".into());
    Plan { drv, role, pl, want, ends }
}
/// Run the plan over `net`; every success must have handed over and flushed exactly what it
/// should, the first failure must leave a prefix.  Returns the call that failed, if any.
fn run(cx: &Cx, p: &Plan, net: &Net, what: &dyn Fn() -> String) -> Option<(usize, Out<()>)> {
    let after = |k: usize, r: Out<()>| -> Option<(usize, Out<()>)> {
        let g = net.l();
        let (out, fl) = (g.out.clone(), g.flushed);
        drop(g);
        match r {
            Out::Ok(()) => {
                let w = &p.want[..p.ends[k]];
                if out != w {
                    let d = out.iter().zip(w).position(|(a, b)| a != b).unwrap_or(out.len().min(w.len()));
                    cx.fail(format!("{}: call {k} succeeded, {} bytes handed over instead of {}, first difference at {d}", what(), out.len(), w.len()));
                }
                cx.check(fl == out.len(), || format!("{}: call {k} succeeded with {} bytes not flushed", what(), out.len() - fl));
                None
            }
            r => {
                cx.check(p.want.starts_with(&out), || format!("{}: call {k} failed and what was handed over is not a prefix of the correct stream", what()));
                cx.check(out.len() <= p.ends[k], || format!("{}: failed call {k} handed over bytes of a later one", what()));
                Some((k, r))
            }
        }
    };
    let mut c = None;
    let r = match open_(cx, p.drv, p.role, net) {
        Out::Ok(x) => {
            c = Some(x);
            Out::Ok(())
        }
        Out::Io(k, s) => Out::Io(k, s),
        Out::Lib(e) => Out::Lib(e),
        Out::Wait => Out::Wait,
    };
    if let Some(x) = after(0, r) {
        return Some(x);
    }
    let mut c = c.unwrap();
    for (k, (d, c2)) in p.pl.iter().enumerate() {
        let pl: Payload = payload(*d, c2);
        let r = c.write(cx, net, &pl);
        cx.op();
        if let Some(x) = after(k + 1, r) {
            return Some(x);
        }
    }
    None
}
fn net_for(cx: &Cx, role: Role) -> Net {
    let net = Net::new(cx, Some(script(role, 4)));
    net.l().end = End::Block;
    net
}
/// Benign behaviour of the transport never makes a call fail.
fn benign(cx: &Cx, p: &Plan, net: &Net, what: &dyn Fn() -> String) {
    if let Some((k, r)) = run(cx, p, net, what) {
        cx.fail(format!("{}: call {k} fails with {r:?} although the transport accepts everything in the end", what()));
    }
}
/// The injected failure that was hit must be reported.
fn faulty(cx: &Cx, p: &Plan, net: &Net, what: &dyn Fn() -> String) {
    let r = run(cx, p, net, what);
    let hits = net.l().hits.clone();
    let hard = |e: &Ev| matches!(e, Ev::Err(_) | Ev::Zero);
    match r {
        Some((k, r)) => {
            cx.check(!hits.is_empty(), || format!("{}: call {k} fails with {r:?} and the transport did not", what()));
            cx.check(r != Out::Wait, || format!("{}: call {k} waits for ever", what()));
            cx.outcome("failure reported");
        }
        None => {
            cx.check(!hits.iter().any(hard), || format!("{}: the transport failed ({}) and every call reported success", what(), short(&hits)));
            cx.outcome("no failure");
        }
    }
}
fn setup(cx: &Cx, t: Tier) -> Plan {
    let drv = cx.pick("driver", &DRVS);
    let role = cx.pick("role", &ROLES);
    base(cx, drv, role, &plan(t))
}
/// A cut at every offset with the transient event of the driver there.
fn cuts(cx: &Cx, t: Tier) {
    let p = setup(cx, t);
    let a = cx.choose("cut", p.want.len());
    let k = cx.choose("not ready", 3);
    let ev = if p.drv == Drv::Sync { Ev::Intr } else { Ev::Pending };
    let mut second: Vec<Option<usize>> = vec![None];
    let step = t.q(23, 1);
    second.extend((a + 1..p.want.len()).filter(|b| b - a < 4 || b % step == a % step).map(Some));
    for b in second {
        let net = net_for(cx, p.role);
        {
            let mut g = net.l();
            g.wr_cuts = std::iter::once(a).chain(b).collect();
            g.wr_ev = vec![(a, ev); k];
            if let Some(b) = b {
                g.wr_ev.extend(vec![(b, ev); k]);
            }
            if p.drv == Drv::Async {
                // flush not ready at each step end
                g.fl_ev = p.ends.iter().map(|e| (*e, Ev::Pending)).chain([(64 + GARB, Ev::Pending)]).collect();
            }
        }
        cx.case(&(a, b, k));
        benign(cx, &p, &net, &|| format!("cuts {a} {b:?}, {k} times not ready there"));
    }
}
/// Not ready many times at one place, while writing or flushing.
fn storms(cx: &Cx, t: Tier) {
    let p = setup(cx, t);
    let k = cx.pick("times", &t.q(vec![10usize, 17, 33, 65, 100, 129, 257, 1001, 5000], vec![10, 17, 33, 65, 100, 129, 257, 1001, 5000, 20_000]));
    let step = if k > 300 { t.q(17, 3) } else { t.q(3, 1) };
    let flush = p.drv == Drv::Async && cx.flag("while flushing");
    let all: Vec<usize> = p.ends.iter().copied().chain([64 + GARB]).collect();
    let at = if flush { cx.pick("step", &all) } else { step * cx.choose("cut", p.want.len() / step) };
    let ev = if p.drv == Drv::Sync { Ev::Intr } else { Ev::Pending };
    let net = net_for(cx, p.role);
    {
        let mut g = net.l();
        if flush {
            g.fl_ev = vec![(at, ev); k];
        } else {
            g.wr_cuts = vec![at];
            g.wr_ev = vec![(at, ev); k];
        }
    }
    cx.case(&(at, k));
    benign(cx, &p, &net, &|| format!("{k} times not ready at {at}, flushing {flush}"));
}
fn sizes(cx: &Cx, t: Tier) {
    let p = setup(cx, t);
    let max = 1 + cx.choose("bytes per write", t.q(350, 1100));
    for k in 0..3 {
        let ev = if p.drv == Drv::Sync { Ev::Intr } else { Ev::Pending };
        let net = net_for(cx, p.role);
        {
            let mut g = net.l();
            g.wr_max = max;
            g.wr_ev = match k {
                0 => vec![],
                1 => (0..p.want.len()).step_by(max).map(|x| (x, ev)).collect(),
                _ => (0..p.want.len()).step_by(11).map(|x| (x, ev)).collect(),
            };
        }
        cx.case(&(max, k));
        benign(cx, &p, &net, &|| format!("{max} bytes per write, event set {k}"));
    }
}
/// A failure at every offset: an error of every kind (once, or from there on), a write that
/// accepts nothing, a failing flush.
fn faults(cx: &Cx, t: Tier) {
    let p = setup(cx, t);
    let at = cx.choose("offset", p.want.len() + 1);
    let how = cx.choose("failure", 4);
    let max = cx.pick("bytes per write", &[usize::MAX, 1, 50]);
    let some = [ErrorKind::BrokenPipe, ErrorKind::ConnectionReset, ErrorKind::TimedOut, ErrorKind::WouldBlock, ErrorKind::Other, ErrorKind::WriteZero];
    let all = t == Tier::Thorough || at % 9 == 0 || p.ends.contains(&at) || p.ends.contains(&(at + 1));
    for kind in if all { crate::c15::KINDS.to_vec() } else { some.to_vec() } {
        let net = net_for(cx, p.role);
        {
            let mut g = net.l();
            g.wr_max = max;
            match how {
                0 => g.wr_ev = vec![(at, Ev::Err(kind))],
                1 => g.wr_dead = Some((at, kind)),
                2 => g.wr_ev = vec![(at, Ev::Zero)],
                _ => g.fl_ev = vec![(at, Ev::Err(kind))],
            }
        }
        cx.case(&(at, how, max, format!("{kind:?}")));
        faulty(cx, &p, &net, &|| format!("offset {at}, failure {how} {kind:?}, {max} bytes per write"));
        if how == 2 {
            break;
        }
    }
}
/// Every choice of environment answers at every write and flush up to the deviation bound.
fn env(cx: &Cx, fail: bool) {
    let drv = cx.pick("driver", &DRVS);
    let role = cx.pick("role", &ROLES);
    let p = base(cx, drv, role, &[(false, 0), (true, 40), (false, 3)]);
    let net = net_for(cx, role);
    {
        let mut g = net.l();
        g.wr_env = vec![Alt::One, Alt::Half, Alt::ButOne];
        g.wr_env.push(Alt::Do(if drv == Drv::Sync { Ev::Intr } else { Ev::Pending }));
        if drv == Drv::Async {
            g.fl_env = vec![Alt::Do(Ev::Pending)];
        }
        if fail {
            g.wr_env.extend([Alt::Do(Ev::Err(ErrorKind::TimedOut)), Alt::Do(Ev::Zero), Alt::Do(Ev::Err(ErrorKind::Interrupted))]);
            g.fl_env.extend([Alt::Do(Ev::Err(ErrorKind::TimedOut)), Alt::Do(Ev::Intr)]);
        }
    }
    if fail {
        let r = run(cx, &p, &net, &|| "varied transport".into());
        let hits = net.l().hits.clone();
        let hard = |e: &&Ev| matches!(e, Ev::Err(k) if *k != ErrorKind::Interrupted) || **e == Ev::Zero;
        let soft = |e: &&Ev| matches!(e, Ev::Err(ErrorKind::Interrupted) | Ev::Intr);
        match r {
            Some((k, r)) => {
                cx.check(hits.iter().any(|e| hard(&e) || soft(&e)), || format!("call {k} fails with {r:?} although the transport did not fail"));
                cx.check(r != Out::Wait, || "a call waits for ever".into());
            }
            None => cx.check(!hits.iter().any(|e| hard(&e)), || format!("the transport failed ({}) and every call reported success", short(&hits))),
        }
    } else {
        benign(cx, &p, &net, &|| "varied transport".into());
    }
    let g = net.l();
    let s = (g.wr_ops, g.out.len(), g.hits.len());
    drop(g);
    cx.state(&s);
}
/// Nothing is left unflushed whenever the local end turns to reading, so the peer can go on.
fn before_reads(cx: &Cx, t: Tier) {
    let drv = cx.pick("driver", &DRVS);
    let role = cx.pick("role", &ROLES);
    let g = cx.pick("garbage", &t.q(vec![0usize, 1, 15, 16, 17, 100, 255, 256, 257, 4095], (0..4096).collect::<Vec<_>>()));
    let nd = cx.choose("decoys", 4);
    let max = cx.pick("bytes per write", &[usize::MAX, 1, 100]);
    let garbage = contents(5, g);
    let decoys: Vec<Vec<u8>> = (0..nd).map(|k| contents(6, k * 1500)).collect();
    // the peer never answers beyond the given part of its handshake
    let p = script(role, 4);
    let full = 64 + 4 + 16 + 23 + 20;
    let give = cx.pick("peer sends", &[0usize, 3, 63, 64, 67, 68, 83, 84, 100, full]);
    let net = Net::new(cx, Some(p));
    net.l().wr_max = max;
    net.l().tamper = Some(Box::new(move |v| v.truncate(give)));
    if give < 64 {
        net.l().inb.truncate(give);
    }
    let k0 = net.l().pos;
    cx.seed_fill(2);
    let r = connect(cx, drv, &net, MAGIC, role, (g > 0).then(|| garbage.clone()), Some(decoys.clone()));
    let gd = net.l();
    let (out, fl) = (gd.out.clone(), gd.flushed);
    drop(gd);
    let _ = k0;
    cx.check(fl == out.len(), || format!("waiting for the peer with {} bytes not flushed", out.len() - fl));
    let first = 64 + g;
    let all = first + 16 + decoys.iter().map(|d| 20 + d.len()).sum::<usize>() + 20;
    let want = if give < 64 { first } else { all };
    cx.check(out.len() == want, || format!("{} bytes handed over after receiving {give} bytes, want {want}", out.len()));
    cx.check(out[64..first] == garbage[..], || "garbage differs".into());
    cx.check(matches!(r, Out::Ok(_)) == (give >= full), || format!("after {give} of {full} peer bytes: completed {}", matches!(r, Out::Ok(_))));
    if give >= 64 {
        let (g2, d2, rest, _) = check_sent(cx, &net);
        cx.check(g2 == garbage && d2 == decoys && rest.is_empty(), || "handshake flight differs".into());
    }
    cx.state(&(g, nd, max, give));
}
/// Large payloads over a transport that takes little at a time.
fn large(cx: &Cx, t: Tier) {
    let drv = cx.pick("driver", &DRVS);
    let n = cx.pick("size", &t.q(vec![65_536usize, 1_000_000], vec![65_535, 65_536, 1_000_000, 4_000_013, 16_777_215]));
    let max = cx.pick("bytes per write", &[usize::MAX, 65_536, 16_384, 4_099, 1_021, 61, 5]);
    if n / max > 17_000 {
        cx.skip()
    }
    let p = base(cx, drv, Role::Initiator, &[(false, n), (true, 2), (false, n / 2)]);
    let net = net_for(cx, p.role);
    net.l().wr_max = max;
    net.l().wr_ev = (1..p.want.len()).step_by(max.min(1 << 20)).map(|x| (x, if drv == Drv::Sync { Ev::Intr } else { Ev::Pending })).collect();
    cx.case(&(n, max));
    benign(cx, &p, &net, &|| format!("payload of {n} bytes, {max} per write"));
}
/// Every contents length.
fn every(cx: &Cx, t: Tier) {
    let drv = cx.pick("driver", &DRVS);
    let n = cx.choose("contents", t.q(768, 4096)) * 16;
    let max = cx.pick("bytes per write", &[usize::MAX, 999]);
    let sizes: Vec<(bool, usize)> = (n..n + 16).map(|k| (k % 3 == 0, k)).collect();
    let p = base(cx, drv, Role::Responder, &sizes);
    let net = net_for(cx, p.role);
    net.l().wr_max = max;
    cx.case(&(n, max));
    benign(cx, &p, &net, &|| format!("payloads of {n} and more bytes, {max} per write"));
}
/// More than one key epoch of writes over an erratic transport.
fn long(cx: &Cx, t: Tier) {
    let drv = cx.pick("driver", &DRVS);
    let role = cx.pick("role", &ROLES);
    let max = cx.pick("bytes per write", &[1usize, 7, 33]);
    let sizes: Vec<(bool, usize)> = (0..t.q(500usize, 2000)).map(|k| (k % 3 == 0, k * 31 % 90)).collect();
    let p = base(cx, drv, role, &sizes);
    let net = net_for(cx, role);
    net.l().wr_max = max;
    net.l().wr_ev = (0..p.want.len()).step_by(13).map(|x| (x, if drv == Drv::Sync { Ev::Intr } else { Ev::Pending })).collect();
    cx.case(&max);
    benign(cx, &p, &net, &|| format!("long session, {max} bytes per write"));
}
pub fn check(t: Tier) -> Check {
    let mut c = Check::new("C14", "model_checking",
        "the real drivers on a scripted transport, compared call by call with the byte-exact stream of a reference sender: every cut and pair of cuts with transient events, every bytes-per-write limit, an error / dead transport / zero-length write / failing flush at every offset, every choice of partial, transient and failing writes and flushes up to the deviation bound, every prefix of the peer's handshake (nothing may be left unflushed when the local end waits)");
    c.add("cuts", 0, move |cx| cuts(cx, t));
    c.add("not ready many times at one place", 0, move |cx| storms(cx, t));
    c.add("bytes per write", 0, move |cx| sizes(cx, t));
    c.add("failure at every offset", 0, move |cx| faults(cx, t));
    let d = t.q(3, 5);
    c.add(format!("varied benign transport, {d} deviations"), d, |cx| env(cx, false));
    c.add(format!("varied failing transport, {} deviations", t.q(2, 4)), t.q(2, 4), |cx| env(cx, true));
    c.add("flushed before waiting", 0, move |cx| before_reads(cx, t));
    c.add("large payloads", 0, move |cx| large(cx, t));
    c.add("every contents length", 0, move |cx| every(cx, t));
    c.add("long sessions", 0, move |cx| long(cx, t));
    c
}
