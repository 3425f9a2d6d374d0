//! Dropping a shaped connection stops its background activity.
use crate::engine::*;
use crate::fx::*;
use crate::sh::*;
use bip324::Role;
use bip324_traffic::{futures as fu, io};
use std::io::ErrorKind;
use std::time::Duration;

fn peer(role: Role) -> Peer {
    let mut p = Peer::new(role);
    p.garbage = contents(4, 6);
    p.session = (0..3).map(|k| (0, msg(100 + k, 7 * k))).collect();
    p
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Fault {
    None,
    /// every write fails from so many session bytes on
    Dead(usize),
    /// one write fails after so many session bytes
    Once(usize),
    /// every flush fails once the handshake is over
    Flush,
}
fn fault(net: &Net, f: Fault) {
    let mut g = net.l();
    let at = g.out.len();
    match f {
        Fault::None => {}
        Fault::Dead(n) => g.wr_dead = Some((at + n, ErrorKind::BrokenPipe)),
        Fault::Once(n) => g.wr_ev.push((at + n, Ev::Err(ErrorKind::TimedOut))),
        Fault::Flush => g.fl_fail = Some((at + 1, ErrorKind::BrokenPipe, 50)),
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Way {
    /// the whole connection at once
    Whole,
    /// split, the reader first
    ReaderFirst,
    /// split, the reader is kept and used afterwards
    ReaderKept,
    /// split, another thread drops the writer
    Other,
    /// split, the writer is dropped while another thread reads
    Reading,
    /// the application panics and the connection is dropped on the way up
    Unwinding,
    /// the same in another thread, the writer only
    OtherUnwinding,
}
#[derive(Clone)]
struct Par {
    cfg: (bool, bool),
    way: Way,
    /// milliseconds before each write and before the drop
    naps: Vec<u64>,
    writes: usize,
    slow: u64,
    fault: Fault,
    session: Words,
}
fn sync_drop(cx: &Cx, p: Par) {
    cx.threads(60_000 + 4 * p.naps.iter().sum::<u64>(), move |cx| {
        let peer = peer(Role::Initiator);
        let net = Net::new(cx, Some(peer.clone()));
        words(cx, &net, Words::Fixed(0), p.session.clone());
        cx.seed_fill(8);
        let (w, released) = wnet(&net);
        let mut conn = match io::ShapedProtocol::new(MAGIC, Role::Initiator, config(p.cfg), net.clone(), w) {
            Ok(c) => c,
            Err(e) => cx.fail(format!("shaped handshake fails: {e:?}")),
        };
        fault(&net, p.fault);
        if p.slow > 0 {
            net.l().wr_nap = Some(Duration::from_millis(p.slow));
        }
        for k in 0..p.writes {
            if p.naps[k] > 0 {
                nap(p.naps[k]);
            }
            let r = conn.write(&payload(false, &msg(k, 5)));
            cx.op();
            if p.fault == Fault::None && r.is_err() {
                cx.fail(format!("write {k} fails: {r:?}"));
            }
        }
        if p.naps[p.writes] > 0 {
            nap(p.naps[p.writes]);
        }
        let t0 = sched::now_ns();
        let mut rd = None;
        let mut h = None;
        let own = sched::live_threads();
        match p.way {
            Way::Whole => drop(conn),
            Way::Unwinding => unwind(conn),
            Way::ReaderFirst => {
                let (r, w) = conn.into_split();
                drop(r);
                drop(w);
            }
            Way::ReaderKept => {
                let (r, w) = conn.into_split();
                drop(w);
                rd = Some(r);
            }
            Way::OtherUnwinding => {
                let (r, w) = conn.into_split();
                rd = Some(r);
                let h = sched::thread::spawn(move || unwind(w));
                if h.join().is_err() {
                    cx.fail("dropping the writer panics");
                }
            }
            Way::Other => {
                let (r, w) = conn.into_split();
                rd = Some(r);
                let h = sched::thread::spawn(move || drop(w));
                if h.join().is_err() {
                    cx.fail("dropping the writer panics");
                }
            }
            Way::Reading => {
                let (mut r, w) = conn.into_split();
                h = Some(sched::thread::spawn(move || {
                    let mut n = 0;
                    for _ in 0..3 {
                        nap(40);
                        n += r.read().is_ok() as usize;
                    }
                    drop(r);
                    n
                }));
                drop(w);
            }
        }
        cx.op();
        // here the writing side is gone
        let took = (sched::now_ns() - t0) / MS;
        cx.check(took <= 10_000, || format!("the drop takes {took} ms"));
        let extra = h.as_ref().map_or(0, |h| !h.is_finished() as usize);
        let live = sched::live_threads();
        let _ = own;
        cx.check(live <= 1 + extra, || format!("{} background threads are alive when the drop returns", live - 1 - extra));
        cx.check(released.upgrade().is_none(), || "the transport's writing side is still held when the drop returns".into());
        let sent = net.l().out.len();
        if let Some(mut r) = rd {
            for k in 0..peer.session.len() {
                match r.read() {
                    Ok(x) => cx.check(x.contents() == &peer.session[k].1[..], || format!("read {k} after the drop gives other contents")),
                    Err(e) => cx.fail(format!("read {k} after the writer was dropped fails: {e:?}")),
                }
            }
            nap(1000);
            drop(r);
        }
        if let Some(h) = h {
            match h.join() {
                Ok(n) => cx.check(n == 3, || "a read fails while the writer is dropped".into()),
                Err(_) => cx.fail("the reading thread panics"),
            }
        }
        nap(1000);
        let now = net.l().out.len();
        cx.check(now == sent, || format!("{} bytes are sent after the drop returned", now - sent));
        cx.outcome(if took == 0 { "at once" } else { "within one interval or write" });
        cx.state(&(sent, took));
    });
}
const WAYS: [Way; 7] = [Way::Whole, Way::ReaderFirst, Way::ReaderKept, Way::Other, Way::Reading, Way::Unwinding, Way::OtherUnwinding];
/// Drop something by a panic of the application (without the message of one).
fn unwind<T>(x: T) {
    struct App;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
        let _x = x;
        std::panic::resume_unwind(Box::new(App));
    }));
    if let Err(p) = r {
        if !p.is::<App>() {
            std::panic::resume_unwind(p);
        }
    }
}
/// Dropped after many writes or a long time.
fn late(cx: &Cx, t: Tier) {
    let cfg = cx.pick("configuration", &CFG);
    let way = cx.pick("way", &WAYS);
    let writes = cx.pick("writes", &t.q(vec![0usize, 40, 300], vec![0, 40, 300, 1000]));
    let idle = cx.pick("minutes before", &[0u64, 7, 90]);
    let fault = cx.pick("fault", &[Fault::None, Fault::Dead(3000), Fault::Flush]);
    let mut naps = vec![0; writes + 1];
    naps[writes] = idle * 60_000;
    if writes > 0 {
        naps[writes / 2] = idle * 30_000;
    }
    sync_drop(cx, Par { cfg, way, naps, writes, slow: 0, fault, session: Words::Seq(vec![HI, 5 << 54]) });
}
fn schedules(cx: &Cx, rich: bool) {
    let cfg = cx.pick("configuration", if rich { &CFG[..] } else { &CFG[2..] });
    let way = cx.pick("way", &WAYS[..5]);
    let writes = cx.choose("writes", 2);
    let n = if rich { vec![0, 99, 250] } else { vec![0, 100] };
    let naps = (0..=writes).map(|_| cx.pick("nap", &n)).collect();
    let slow = if rich { cx.pick("slow transport", &[0u64, 130]) } else { 0 };
    let fault = cx.pick("fault", if rich { &[Fault::None, Fault::Dead(0), Fault::Dead(30), Fault::Once(3), Fault::Flush] } else { &[Fault::None, Fault::Dead(0)] });
    let session = if cfg.1 { Words::Dev(vec![HI, 0]) } else { Words::Fixed(MID / 64) };
    sync_drop(cx, Par { cfg, way, naps, writes, slow, fault, session });
}
/// Every millisecond of the check interval, every transport speed.
fn times(cx: &Cx, t: Tier) {
    let cfg = cx.pick("configuration", &CFG[2..]);
    let at = cx.choose("drop at", t.q(211, 421)) as u64;
    let slow = cx.pick("slow transport", &t.q(vec![0u64, 33, 100, 250], vec![0, 1, 33, 50, 99, 100, 101, 250, 700]));
    let way = cx.pick("way", &WAYS);
    let fault = cx.pick("fault", &[Fault::None, Fault::Dead(10), Fault::Flush]);
    sync_drop(cx, Par { cfg, way, naps: vec![at], writes: 0, slow, fault, session: Words::Fixed(HI) });
}
/// The handshake fails: nothing is left behind.
fn sync_failed(cx: &Cx, t: Tier) {
    let cfg = cx.pick("configuration", &CFG);
    let role = cx.pick("role", &ROLES);
    let at = cx.choose("at", 160);
    let wr = cx.flag("writing");
    let _ = t;
    cx.threads(20_000, move |cx| {
        let mut p = peer(role);
        p.session.clear();
        let net = Net::new(cx, Some(p));
        words(cx, &net, Words::Fixed(0), Words::Fixed(HI));
        cx.seed_fill(8);
        if wr {
            net.l().wr_dead = Some((at, ErrorKind::ConnectionReset));
        } else {
            net.l().rd_ev.push((at, Ev::Err(ErrorKind::ConnectionReset)));
        }
        let (w, released) = wnet(&net);
        let r = io::ShapedProtocol::new(MAGIC, role, config(cfg), net.clone(), w);
        let ok = r.is_ok();
        drop(r);
        cx.op();
        cx.check(sched::live_threads() <= 1, || "a background thread is alive after the handshake failed".into());
        cx.check(released.upgrade().is_none(), || "the transport's writing side is still held after the handshake failed".into());
        let sent = net.l().out.len();
        nap(500);
        let now = net.l().out.len();
        cx.check(sent == now, || "bytes are sent after the connection was given up".into());
        cx.outcome(if ok { "completes" } else { "fails" });
    });
}
/// Dropping the reader stops nothing.
fn sync_reader(cx: &Cx) {
    let cfg = cx.pick("configuration", &CFG);
    let first = cx.pick("nap", &[0u64, 50, 100, 330]);
    let writes = cx.pick("writes", &[0usize, 2]);
    cx.threads(60_000, move |cx| {
        let net = Net::new(cx, Some(peer(Role::Initiator)));
        words(cx, &net, Words::Fixed(0), Words::Seq(vec![HI, HI, MID / 256]));
        cx.seed_fill(8);
        let (w, _released) = wnet(&net);
        let conn = match io::ShapedProtocol::new(MAGIC, Role::Initiator, config(cfg), net.clone(), w) {
            Ok(c) => c,
            Err(e) => cx.fail(format!("shaped handshake fails: {e:?}")),
        };
        let (r, mut w) = conn.into_split();
        nap(first);
        let mut k = 0;
        let mut phase = |w: &mut io::ShapedProtocolWriter<WNet>| {
            let n0 = view(cx, &net).decoys.len();
            for _ in 0..writes {
                if let Err(e) = w.write(&payload(false, &msg(k, 5))) {
                    cx.fail(format!("write {k} fails: {e:?}"));
                }
                k += 1;
            }
            // in steps, so that one starved moment is not the whole time
            for _ in 0..30 {
                nap(100);
            }
            view(cx, &net).decoys.len() - n0
        };
        let before = phase(&mut w);
        drop(r);
        let after = phase(&mut w);
        cx.check(before == 0 || after > 0, || format!("{before} decoys in 3 s with the reader, none after the reader was dropped"));
        let v = view(cx, &net);
        cx.check(v.genuine.len() == 2 * writes, || "writes after the reader was dropped are not sent".into());
        drop(w);
        cx.outcome(if after > 0 { "decoys go on" } else { "no decoys" });
        cx.state(&(before, after));
    });
}

// ------------------------------------------------------------------ asynchronous
#[derive(Clone, Copy, PartialEq, Debug)]
enum Give {
    /// awaited
    Await,
    /// polled once and dropped: the request stays queued
    Poll,
    /// waited for this long
    Wait(u64),
}
#[derive(Clone)]
struct APar {
    cfg: (bool, bool),
    way: Way,
    naps: Vec<u64>,
    gives: Vec<Give>,
    /// not ready from so many bytes on, until so many milliseconds after the drop
    gate: Option<(usize, u64)>,
    fault: Fault,
    session: Words,
    select: bool,
    env: bool,
}
fn async_drop(cx: &Cx, p: APar) {
    let cx2 = cx.clone();
    rt_long(cx, 60 + p.naps.iter().sum::<u64>() / 1000, async move {
        let cx = &cx2;
        let peer = peer(Role::Initiator);
        let net = Net::new(cx, Some(peer.clone()));
        words(cx, &net, Words::Fixed(0), p.session.clone());
        cx.seed_fill(8);
        cx.explore_select(p.select);
        let (w, released) = wnet(&net);
        let mut conn = match fu::ShapedProtocol::new(MAGIC, Role::Initiator, config(p.cfg), net.clone(), w).await {
            Ok(c) => c,
            Err(e) => cx.fail(format!("shaped handshake fails: {e:?}")),
        };
        fault(&net, p.fault);
        if let Some((b, _)) = p.gate {
            let mut g = net.l();
            g.gate = Some(g.out.len() + b);
        }
        if p.env {
            let mut g = net.l();
            g.wr_env = vec![Alt::One, Alt::Do(Ev::Pending)];
            g.fl_env = vec![Alt::Do(Ev::Pending)];
        }
        for (k, g) in p.gives.iter().enumerate() {
            if p.naps[k] > 0 {
                anap(p.naps[k]).await;
            }
            let pl = payload(false, &msg(k, 5));
            let r = match g {
                Give::Await if p.gate.is_none() => Some(conn.write(&pl).await),
                Give::Await => tokio::time::timeout(Duration::from_millis(300), conn.write(&pl)).await.ok(),
                Give::Poll => poll_some(1, conn.write(&pl)).await,
                Give::Wait(ms) => tokio::time::timeout(Duration::from_millis(*ms), conn.write(&pl)).await.ok(),
            };
            cx.op();
            if let (Some(Err(e)), Fault::None) = (&r, p.fault) {
                cx.fail(format!("write {k} fails: {e:?}"));
            }
        }
        if p.naps[p.gives.len()] > 0 {
            anap(p.naps[p.gives.len()]).await;
        }
        let mut rd = None;
        match p.way {
            Way::Whole => drop(conn),
            Way::Unwinding => unwind(conn),
            Way::ReaderFirst => {
                let (r, w) = conn.into_split();
                drop(r);
                drop(w);
            }
            Way::OtherUnwinding => {
                let (r, w) = conn.into_split();
                unwind(w);
                rd = Some(r);
            }
            Way::Other => {
                let (r, w) = conn.into_split();
                if std::thread::spawn(move || drop(w)).join().is_err() {
                    cx.fail("dropping the writer on another thread panics");
                }
                rd = Some(r);
            }
            _ => {
                let (r, w) = conn.into_split();
                drop(w);
                rd = Some(r);
            }
        }
        cx.op();
        if let Some((_, ms)) = p.gate {
            if ms > 0 {
                anap(ms).await;
            }
            net.lift();
        }
        let t0 = tokio::time::Instant::now();
        let mut step = 0u64;
        while released.upgrade().is_some() {
            cx.check(t0.elapsed() < Duration::from_secs(10), || "10 s after the writer was dropped the background task still holds the transport".into());
            if step < 60 {
                tokio::task::yield_now().await;
            } else {
                anap(10).await;
            }
            step += 1;
        }
        let took = t0.elapsed().as_millis();
        let sent = net.l().out.len();
        if let Some(mut r) = rd {
            for k in 0..peer.session.len() {
                match r.read().await {
                    Ok(x) => cx.check(x.contents() == &peer.session[k].1[..], || format!("read {k} after the drop gives other contents")),
                    Err(e) => cx.fail(format!("read {k} after the writer was dropped fails: {e:?}")),
                }
            }
            anap(1000).await;
            drop(r);
        }
        anap(1000).await;
        let now = net.l().out.len();
        cx.check(now == sent, || format!("{} bytes are sent after the background task ended", now - sent));
        cx.outcome(if took == 0 { "at once" } else { "later" });
        cx.state(&(sent, took));
    })
}
fn async_histories(cx: &Cx, t: Tier) {
    let cfg = cx.pick("configuration", &CFG);
    let way = cx.pick("way", &[Way::Whole, Way::ReaderFirst, Way::ReaderKept, Way::Unwinding]);
    let n = cx.choose("writes", 3);
    let gives = (0..n).map(|_| cx.pick("write", &[Give::Await, Give::Poll, Give::Wait(130)])).collect();
    let naps = (0..=n).map(|_| cx.pick("nap", &t.q(vec![0u64, 100], vec![0, 50, 100, 250]))).collect();
    let gate = cx.pick("not ready", &[None, Some((0, 0)), Some((0, 300)), Some((10, 0)), Some((33, 150))]);
    let fault = cx.pick("fault", &[Fault::None, Fault::Dead(0), Fault::Dead(30), Fault::Once(3), Fault::Flush]);
    let session = Words::Fixed(cx.pick("words", &[HI, 0]));
    async_drop(cx, APar { cfg, way, naps, gives, gate, fault, session, select: false, env: false });
}
fn async_orders(cx: &Cx, t: Tier) {
    let cfg = cx.pick("configuration", &CFG[t.q(2, 0)..]);
    let way = cx.pick("way", &[Way::Whole, Way::ReaderKept]);
    let n = cx.choose("writes", 2);
    let gives = (0..n).map(|_| cx.pick("write", &[Give::Await, Give::Poll])).collect();
    let naps = (0..=n).map(|_| cx.pick("nap", &[0u64, 100])).collect();
    let fault = cx.pick("fault", &[Fault::None, Fault::Dead(0)]);
    async_drop(cx, APar { cfg, way, naps, gives, gate: None, fault, session: Words::Dev(vec![HI, 0]), select: true, env: true });
}
fn async_times(cx: &Cx, t: Tier) {
    let cfg = cx.pick("configuration", &CFG[2..]);
    let at = cx.choose("drop at", t.q(211, 421)) as u64;
    let gate = cx.pick("not ready", &[None, Some((0, 0)), Some((0, 99)), Some((500, 1000)), Some((40, 5))]);
    let way = cx.pick("way", &[Way::Whole, Way::ReaderFirst, Way::ReaderKept]);
    let fault = cx.pick("fault", &[Fault::None, Fault::Dead(10), Fault::Flush]);
    async_drop(cx, APar { cfg, way, naps: vec![at], gives: vec![], gate, fault, session: Words::Fixed(HI), select: false, env: false });
}
fn async_late(cx: &Cx, t: Tier) {
    let cfg = cx.pick("configuration", &CFG);
    let way = cx.pick("way", &WAYS);
    let writes = cx.pick("writes", &t.q(vec![0usize, 40, 300], vec![0, 40, 300, 1000]));
    let idle = cx.pick("minutes before", &[0u64, 7, 90]);
    let gate = cx.pick("not ready", &[None, Some((0, 0)), Some((500, 300))]);
    let fault = cx.pick("fault", &[Fault::None, Fault::Dead(3000), Fault::Flush]);
    let mut naps = vec![0; writes + 1];
    naps[writes] = idle * 60_000;
    if writes > 0 {
        naps[writes / 2] = idle * 30_000;
    }
    let gives = (0..writes).map(|k| if gate.is_some() || k % 7 == 3 { Give::Poll } else { Give::Await }).collect();
    async_drop(cx, APar { cfg, way, naps, gives, gate, fault, session: Words::Seq(vec![HI, 5 << 54]), select: false, env: false });
}
/// Dropped while the runtime does not run, or after it is gone.
fn outside(cx: &Cx) {
    let cfg = cx.pick("configuration", &CFG);
    let gone = cx.flag("runtime gone");
    let writes = cx.choose("writes", 3);
    let gate = cx.flag("not ready");
    let ms = cx.pick("time before", &[0u64, 100, 130]);
    let way = cx.pick("way", &[Way::Whole, Way::ReaderFirst, Way::ReaderKept, Way::Unwinding, Way::Other]);
    let net = Net::new(cx, Some(peer(Role::Initiator)));
    words(cx, &net, Words::Fixed(0), Words::Fixed(HI));
    cx.seed_fill(8);
    let (w, released) = wnet(&net);
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().expect("runtime");
    let conn = rt.block_on(async {
        let mut conn = match fu::ShapedProtocol::new(MAGIC, Role::Initiator, config(cfg), net.clone(), w).await {
            Ok(c) => c,
            Err(e) => cx.fail(format!("shaped handshake fails: {e:?}")),
        };
        if gate {
            let mut g = net.l();
            g.gate = Some(g.out.len() + 7);
        }
        for k in 0..writes {
            if gate {
                poll_some(1, conn.write(&payload(false, &msg(k, 5)))).await;
            } else if let Err(e) = conn.write(&payload(false, &msg(k, 5))).await {
                cx.fail(format!("write {k} fails: {e:?}"));
            }
        }
        anap(ms).await;
        conn
    });
    let mut rt = Some(rt);
    if gone {
        rt = None;
        cx.check(released.upgrade().is_none(), || "the transport's writing side is still held after the runtime ended".into());
    }
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match way {
        Way::Whole => drop(conn),
        Way::Unwinding => unwind(conn),
        Way::Other => {
            let _ = std::thread::spawn(move || drop(conn)).join();
        }
        Way::ReaderFirst => {
            let (r, w) = conn.into_split();
            drop(r);
            drop(w);
        }
        _ => {
            let (r, w) = conn.into_split();
            drop(w);
            drop(r);
        }
    }));
    cx.check(r.is_ok(), || "dropping the connection outside the runtime panics".into());
    net.lift();
    if let Some(rt) = rt {
        rt.block_on(async { anap(1000).await });
        cx.check(released.upgrade().is_none(), || "a second after the writer was dropped the background task still holds the transport".into());
        let sent = net.l().out.len();
        rt.block_on(async { anap(1000).await });
        let now = net.l().out.len();
        cx.check(now == sent, || format!("{} bytes are sent after the background task ended", now - sent));
    }
    cx.op();
    cx.outcome(if gone { "runtime gone" } else { "outside the runtime" });
    let n = net.l().out.len();
    cx.state(&n);
}
/// The handshake fails or is given up: nothing is left behind.
fn async_failed(cx: &Cx) {
    let cfg = cx.pick("configuration", &CFG);
    let role = cx.pick("role", &ROLES);
    let at = cx.choose("at", 160);
    let how = cx.choose("how", 3);
    let cx2 = cx.clone();
    rt(cx, async move {
        let cx = &cx2;
        let mut p = peer(role);
        p.session.clear();
        let net = Net::new(cx, Some(p));
        words(cx, &net, Words::Fixed(0), Words::Fixed(HI));
        cx.seed_fill(8);
        match how {
            0 => net.l().wr_dead = Some((at, ErrorKind::ConnectionReset)),
            1 => net.l().rd_ev.push((at, Ev::Err(ErrorKind::ConnectionReset))),
            _ => net.l().gate = Some(at),
        }
        let (w, released) = wnet(&net);
        let r = tokio::time::timeout(Duration::from_millis(20), fu::ShapedProtocol::new(MAGIC, role, config(cfg), net.clone(), w)).await;
        let ok = matches!(r, Ok(Ok(_)));
        drop(r);
        net.lift();
        cx.op();
        anap(10_000).await;
        cx.check(released.upgrade().is_none(), || "the transport's writing side is still held after the handshake failed".into());
        let sent = net.l().out.len();
        anap(500).await;
        let now = net.l().out.len();
        cx.check(sent == now, || "bytes are sent after the connection was given up".into());
        cx.outcome(if ok { "completes" } else { "fails" });
    })
}
fn async_reader(cx: &Cx) {
    let cfg = cx.pick("configuration", &CFG);
    let first = cx.pick("nap", &[0u64, 50, 100, 330]);
    let writes = cx.pick("writes", &[0usize, 2]);
    let cx2 = cx.clone();
    rt(cx, async move {
        let cx = &cx2;
        let net = Net::new(cx, Some(peer(Role::Initiator)));
        words(cx, &net, Words::Fixed(0), Words::Seq(vec![HI, HI, MID / 256]));
        cx.seed_fill(8);
        let (w, _released) = wnet(&net);
        let conn = match fu::ShapedProtocol::new(MAGIC, Role::Initiator, config(cfg), net.clone(), w).await {
            Ok(c) => c,
            Err(e) => cx.fail(format!("shaped handshake fails: {e:?}")),
        };
        let (r, mut w) = conn.into_split();
        anap(first).await;
        let mut r = Some(r);
        let mut n = vec![];
        for ph in 0..2 {
            if ph == 1 {
                r = None;
            }
            let n0 = view(cx, &net).decoys.len();
            for k in 0..writes {
                if let Err(e) = w.write(&payload(false, &msg(ph * writes + k, 5))).await {
                    cx.fail(format!("a write fails: {e:?}"));
                }
            }
            anap(3000).await;
            n.push(view(cx, &net).decoys.len() - n0);
        }
        drop(r);
        cx.check(n[0] == 0 || n[1] > 0, || format!("{} decoys in 3 s with the reader, none after the reader was dropped", n[0]));
        let v = view(cx, &net);
        cx.check(v.genuine.len() == 2 * writes, || "writes after the reader was dropped are not sent".into());
        drop(w);
        cx.outcome(if n[1] > 0 { "decoys go on" } else { "no decoys" });
        cx.state(&n);
    })
}
pub fn check(t: Tier) -> Check {
    let mut c = Check::new("C20", "model_checking",
        "the real blocking shaped connection under a controlled scheduler with virtual time and the real asynchronous one on a single-threaded runtime: the writing side dropped at every millisecond of the check interval, in every way (whole, split, reader first, reader kept, from another thread), with slow, unready and failing transports and queued cancelled writes, under every schedule up to the deviation bound; monitored: the drop returns, no thread of the connection is alive, the transport's token is released, no byte is sent afterwards");
    c.assume("the transport's own calls return; 10 s of virtual time count as bounded");
    let d = t.q(2, 3);
    c.add(format!("blocking: drop under every schedule, {d} deviations"), d, |cx| schedules(cx, false));
    c.add(format!("blocking: slow and failing transports, {} deviations", t.q(1, 2)), t.q(1, 2), |cx| schedules(cx, true));
    c.add("blocking: every millisecond", 0, move |cx| times(cx, t));
    c.add("blocking: after a long history", 0, move |cx| late(cx, t));
    c.add("asynchronous: after a long history", 0, move |cx| async_late(cx, t));
    c.add("asynchronous: outside the runtime", 0, outside);
    c.add("blocking: failed handshakes", 0, move |cx| sync_failed(cx, t));
    c.add("blocking: dropping the reader", 1, sync_reader);
    c.add("asynchronous: every history", 0, move |cx| async_histories(cx, t));
    c.add(format!("asynchronous: task orders, {} deviations", t.q(2, 3)), t.q(2, 3), move |cx| async_orders(cx, t));
    c.add("asynchronous: every millisecond", 0, move |cx| async_times(cx, t));
    c.add("asynchronous: failed handshakes", 0, async_failed);
    c.add("asynchronous: dropping the reader", 0, async_reader);
    c
}
