//! Reading and writing are independent of each other.
use crate::engine::*;
use crate::fx::*;
use crate::sh::*;
use bip324::io::{Payload, ProtocolError};
use bip324::{PacketType, Role};
use bip324_traffic::{futures as fu, io};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Arc;

const SIZES: [usize; 3] = [5, 0, 40];
fn peer(role: Role) -> Peer {
    let mut p = Peer::new(role);
    p.garbage = contents(4, 6);
    p.hs = vec![(128, vec![5; 3]), (0, vec![])];
    p.session = SIZES.iter().enumerate().map(|(k, n)| (if k == 1 { 128 } else { 0 }, msg(100 + k, *n))).collect();
    p
}
/// Where in the peer's session the reads stand still.
const HOLD: [usize; 6] = [0, 2, 3, 10, 24, 25];
/// Where in what is sent the writes stand still.
const GATE: [usize; 4] = [0, 2, 20, 25];

fn got(cx: &Cx, k: usize, p: &Peer, r: Result<Payload, ProtocolError>) {
    cx.op();
    match r {
        Ok(x) => {
            let (h, c) = &p.session[k];
            cx.check(x.contents() == &c[..] && (x.packet_type() == PacketType::Decoy) == (*h == 128), || format!("read {k} gives other contents or type"));
        }
        Err(e) => cx.fail(format!("read {k} fails: {e:?}")),
    }
}
fn sent(cx: &Cx, net: &Net, k: usize, r: Result<(), ProtocolError>) {
    cx.op();
    if let Err(e) = r {
        cx.fail(format!("write {k} fails: {e:?}"));
    }
    seen(cx, net, k + 1);
}
fn seen(cx: &Cx, net: &Net, n: usize) -> View {
    let v = view(cx, net);
    cx.check(v.genuine.len() == n && v.genuine.iter().enumerate().all(|(k, g)| *g == msg(k, k * 9)), || format!("after {n} successful writes the peer sees {} genuine packets, or others", v.genuine.len()));
    cx.check(v.flushed >= v.ends.last().copied().unwrap_or(0), || "a write succeeded and its packet is not flushed".into());
    v
}
fn out_msg(k: usize) -> Payload {
    payload(false, &msg(k, k * 9))
}

/// Either flavour of halves, blocking.
enum R {
    Base(bip324::io::ProtocolReader<Net>),
    Shaped(io::ShapedProtocolReader<Net>),
}
enum W {
    Base(bip324::io::ProtocolWriter<WNet>),
    Shaped(io::ShapedProtocolWriter<WNet>),
}
impl R {
    fn read(&mut self) -> Result<Payload, ProtocolError> {
        match self {
            R::Base(r) => r.read(),
            R::Shaped(r) => r.read(),
        }
    }
}
impl W {
    fn write(&mut self, p: &Payload) -> Result<(), ProtocolError> {
        match self {
            W::Base(w) => w.write(p),
            W::Shaped(w) => w.write(p),
        }
    }
}
type Cfg = Option<(bool, bool)>;
const ALL: [Cfg; 5] = [None, Some((false, false)), Some((true, false)), Some((false, true)), Some((true, true))];
fn open(cx: &Cx, cfg: Cfg, role: Role, hold: Option<usize>, w: Words) -> (Net, R, W) {
    let net = Net::new(cx, Some(peer(role)));
    words(cx, &net, Words::Fixed(0), w);
    cx.seed_fill(8);
    net.l().hold = hold;
    let (wn, _) = wnet(&net);
    match cfg {
        None => match bip324::io::Protocol::new(MAGIC, role, Some(contents(1, 3)), None, net.clone(), wn) {
            Ok(c) => {
                let (r, w) = c.into_split();
                (net, R::Base(r), W::Base(w))
            }
            Err(e) => cx.fail(format!("handshake fails: {e:?}")),
        },
        Some(c) => match io::ShapedProtocol::new(MAGIC, role, config(c), net.clone(), wn) {
            Ok(c) => {
                let (r, w) = c.into_split();
                (net, R::Shaped(r), W::Shaped(w))
            }
            Err(e) => cx.fail(format!("shaped handshake fails: {e:?}")),
        },
    }
}
fn session_words(cfg: Cfg) -> Words {
    match cfg {
        Some((_, true)) => Words::Dev(vec![HI, 0]),
        _ => Words::Fixed(MID / 64),
    }
}
/// A reader waits for a silent peer; writes must go through all the same.
fn silent(cx: &Cx, cfgs: &[Cfg], holds: &[usize], naps: &[u64]) {
    let cfg = cx.pick("configuration", cfgs);
    let role = cx.pick("role", &ROLES);
    let hold = cx.pick("hold", holds);
    let nap0 = cx.pick("nap", naps);
    cx.threads(40_000, move |cx| {
        let p = peer(role);
        let (net, mut r, mut w) = open(cx, cfg, role, Some(hold), session_words(cfg));
        let (cx2, p2) = (cx.clone(), p.clone());
        let h = sched::thread::spawn(move || {
            for k in 0..SIZES.len() {
                let x = r.read();
                got(&cx2, k, &p2, x);
            }
        });
        for k in 0..2 {
            if nap0 > 0 {
                nap(nap0);
            }
            let x = w.write(&out_msg(k));
            sent(cx, &net, k, x);
        }
        net.feed(None);
        if h.join().is_err() {
            cx.fail("the reading thread panics");
        }
        drop(w);
        let v = seen(cx, &net, 2);
        cx.state(&(v.decoys, v.total));
        cx.outcome("written while reading");
    });
}
/// A write (or a background decoy) is stuck in the transport; reads must go through.
fn stuck(cx: &Cx, cfgs: &[Cfg], naps: &[u64]) {
    let cfg = cx.pick("configuration", cfgs);
    let role = cx.pick("role", &ROLES);
    let gate = cx.pick("gate", &GATE);
    let nap0 = cx.pick("nap", naps);
    cx.threads(40_000, move |cx| {
        let p = peer(role);
        let (net, mut r, mut w) = open(cx, cfg, role, Some(0), session_words(cfg));
        {
            let mut g = net.l();
            g.gate = Some(g.out.len() + gate);
        }
        let (cx2, n2) = (cx.clone(), net.clone());
        let h = sched::thread::spawn(move || {
            for k in 0..2 {
                let x = w.write(&out_msg(k));
                sent(&cx2, &n2, k, x);
            }
            drop(w);
        });
        if nap0 > 0 {
            nap(nap0);
        }
        net.feed(None);
        for k in 0..SIZES.len() {
            let x = r.read();
            got(cx, k, &p, x);
        }
        drop(r);
        net.lift();
        if h.join().is_err() {
            cx.fail("the writing thread panics");
        }
        let v = seen(cx, &net, 2);
        cx.state(&(v.decoys, v.total));
        cx.outcome("read while writing");
    });
}
/// One half is dropped, the other one goes on.
fn halves(cx: &Cx, cfgs: &[Cfg]) {
    let cfg = cx.pick("configuration", cfgs);
    let role = cx.pick("role", &ROLES);
    let drop_r = cx.flag("drop the reader");
    let before = cx.choose("before", 2);
    let hold = cx.pick("hold", &HOLD);
    cx.threads(40_000, move |cx| {
        let p = peer(role);
        let (net, mut r, mut w) = open(cx, cfg, role, Some(if before > 0 { 25 } else { hold }), session_words(cfg));
        let (mut nr, mut nw) = (0, 0);
        if before > 0 {
            let x = w.write(&out_msg(0));
            sent(cx, &net, 0, x);
            let x = r.read();
            got(cx, 0, &p, x);
            (nr, nw) = (1, 1);
        }
        if drop_r {
            drop(r);
            for k in nw..nw + 3 {
                nap(130);
                let x = w.write(&out_msg(k));
                sent(cx, &net, k, x);
            }
            drop(w);
            let v = seen(cx, &net, nw + 3);
            cx.state(&(v.decoys, v.total));
        } else {
            drop(w);
            nap(130);
            net.feed(None);
            for k in nr..SIZES.len() {
                let x = r.read();
                got(cx, k, &p, x);
            }
            let v = seen(cx, &net, nw);
            cx.check(v.tail == 0, || "an unfinished packet after the drop".into());
        }
        cx.outcome(if drop_r { "reader dropped" } else { "writer dropped" });
    });
}
/// Mixed words: whatever the rule, both outcomes occur many times.
fn mixed(n: u64) -> Words {
    Words::Seq((0..n).map(|k| u64::from_le_bytes(det_bytes(0xabc + k, 8).try_into().unwrap())).collect())
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Rd {
    /// a read waits for a silent peer
    Waits,
    Dropped,
    Idle,
    /// the peer closed its side, the read has failed
    Eof,
}
const RDS: [Rd; 4] = [Rd::Waits, Rd::Dropped, Rd::Idle, Rd::Eof];
/// Background decoys go on for as long as the writing half lives.
fn decoys(cx: &Cx, t: Tier) {
    let pad = cx.flag("padding");
    let role = cx.pick("role", &ROLES);
    let rd = cx.pick("reader", &RDS);
    let rounds = t.q(4, 20);
    cx.threads(400_000, move |cx| {
        let p = peer(role);
        let hold = if rd == Rd::Waits { Some(2) } else { None };
        let (net, mut r, w) = open(cx, Some((pad, true)), role, hold, mixed(101));
        let mut h = None;
        match rd {
            Rd::Waits => {
                let (cx2, p2) = (cx.clone(), p.clone());
                h = Some(sched::thread::spawn(move || {
                    let x = r.read();
                    got(&cx2, 0, &p2, x);
                }));
            }
            Rd::Dropped => drop(r),
            Rd::Idle => h = Some(sched::thread::spawn(move || drop(r))),
            Rd::Eof => {
                net.l().end = End::Eof;
                for k in 0..SIZES.len() {
                    let x = r.read();
                    got(cx, k, &p, x);
                }
                cx.check(r.read().is_err(), || "a read succeeds although the peer closed the connection".into());
                h = Some(sched::thread::spawn(move || drop(r)));
            }
        }
        let mut last = seen(cx, &net, 0).decoys.len();
        for k in 0..rounds {
            // in steps: a scheduler may fire one nap early
            for _ in 0..10 {
                nap(1000);
            }
            let n = seen(cx, &net, 0).decoys.len();
            cx.check(n > last, || format!("no background decoy in ten seconds (round {k}, reader: {rd:?})"));
            last = n;
        }
        net.feed(None);
        drop(w);
        if let Some(h) = h {
            if h.join().is_err() {
                cx.fail("the reading thread panics");
            }
        }
        cx.outcome("decoys go on");
        cx.state(&last);
    });
}

// ------------------------------------------------------------------ asynchronous
enum AR {
    Base(bip324::futures::ProtocolReader<Net>),
    Shaped(fu::ShapedProtocolReader<Net>),
}
enum AW {
    Base(bip324::futures::ProtocolWriter<WNet>),
    Shaped(fu::ShapedProtocolWriter),
}
impl AR {
    async fn read(&mut self) -> Result<Payload, ProtocolError> {
        match self {
            AR::Base(r) => r.read().await,
            AR::Shaped(r) => r.read().await,
        }
    }
}
impl AW {
    async fn write(&mut self, p: &Payload) -> Result<(), ProtocolError> {
        match self {
            AW::Base(w) => w.write(p).await,
            AW::Shaped(w) => w.write(p).await,
        }
    }
}
async fn aopen(cx: &Cx, cfg: Cfg, role: Role, hold: Option<usize>, w: Words) -> (Net, AR, AW) {
    let net = Net::new(cx, Some(peer(role)));
    words(cx, &net, Words::Fixed(0), w);
    cx.seed_fill(8);
    net.l().hold = hold;
    let (wn, _) = wnet(&net);
    match cfg {
        None => match bip324::futures::Protocol::new(MAGIC, role, Some(contents(1, 3)), None, net.clone(), wn).await {
            Ok(c) => {
                let (r, w) = c.into_split();
                (net, AR::Base(r), AW::Base(w))
            }
            Err(e) => cx.fail(format!("handshake fails: {e:?}")),
        },
        Some(c) => match fu::ShapedProtocol::new(MAGIC, role, config(c), net.clone(), wn).await {
            Ok(c) => {
                let (r, w) = c.into_split();
                (net, AR::Shaped(r), AW::Shaped(w))
            }
            Err(e) => cx.fail(format!("shaped handshake fails: {e:?}")),
        },
    }
}
async fn finish<T>(cx: &Cx, what: &str, f: impl std::future::Future<Output = T>) -> T {
    match tokio::time::timeout(std::time::Duration::from_secs(5), f).await {
        Ok(v) => v,
        Err(_) => cx.fail(format!("{what} takes more than 5 s")),
    }
}
fn asilent(cx: &Cx, naps: &[u64], env: bool) {
    let cfg = cx.pick("configuration", &ALL);
    let role = cx.pick("role", &ROLES);
    let hold = cx.pick("hold", &HOLD);
    let nap0 = cx.pick("nap", naps);
    let task = cx.flag("a task of its own");
    let cx2 = cx.clone();
    rt(cx, async move {
        let cx = &cx2;
        let p = peer(role);
        let (net, mut r, mut w) = aopen(cx, cfg, role, Some(hold), session_words(cfg)).await;
        cx.explore_select(true);
        if env {
            let mut g = net.l();
            g.wr_env = vec![Alt::One, Alt::Do(Ev::Pending)];
            g.fl_env = vec![Alt::Do(Ev::Pending)];
            g.rd_env = vec![Alt::One, Alt::Do(Ev::Pending)];
        }
        let done = Arc::new(AtomicUsize::new(0));
        let (cx3, d2) = (cx.clone(), done.clone());
        let reading = async move {
            for k in 0..SIZES.len() {
                let x = r.read().await;
                got(&cx3, k, &p, x);
                d2.fetch_add(1, SeqCst);
            }
        };
        let n2 = net.clone();
        let cx3 = cx.clone();
        let writing = async move {
            for k in 0..2 {
                if nap0 > 0 {
                    anap(nap0).await;
                }
                let x = finish(&cx3, "a write during a pending read", w.write(&out_msg(k))).await;
                sent(&cx3, &n2, k, x);
            }
            n2.feed(None);
            w
        };
        let w = if task {
            let h = tokio::spawn(reading);
            let w = writing.await;
            if finish(cx, "reading what has arrived", h).await.is_err() {
                cx.fail("the reading task panics");
            }
            w
        } else {
            let (_, w) = finish(cx, "reading and writing", async { tokio::join!(reading, writing) }).await;
            w
        };
        drop(w);
        settle().await;
        let v = seen(cx, &net, 2);
        cx.state(&(v.decoys, v.total, done.load(SeqCst)));
        cx.outcome("written while reading");
    })
}
fn astuck(cx: &Cx, naps: &[u64]) {
    let cfg = cx.pick("configuration", &ALL);
    let role = cx.pick("role", &ROLES);
    let gate = cx.pick("gate", &GATE);
    let nap0 = cx.pick("nap", naps);
    let late = cx.flag("packets arrive late");
    let cx2 = cx.clone();
    rt(cx, async move {
        let cx = &cx2;
        let p = peer(role);
        let (net, mut r, mut w) = aopen(cx, cfg, role, Some(0), session_words(cfg)).await;
        cx.explore_select(true);
        {
            let mut g = net.l();
            g.gate = Some(g.out.len() + gate);
        }
        let (cx3, n2) = (cx.clone(), net.clone());
        let h = tokio::spawn(async move {
            for k in 0..2 {
                let x = w.write(&out_msg(k)).await;
                sent(&cx3, &n2, k, x);
            }
            drop(w);
        });
        if nap0 > 0 {
            anap(nap0).await;
        } else {
            settle().await;
        }
        if late {
            let n2 = net.clone();
            tokio::spawn(async move {
                anap(70).await;
                n2.feed(None);
            });
        } else {
            net.feed(None);
        }
        for k in 0..SIZES.len() {
            let x = finish(cx, "a read during a stuck write", r.read()).await;
            got(cx, k, &p, x);
        }
        drop(r);
        net.lift();
        if finish(cx, "the writes afterwards", h).await.is_err() {
            cx.fail("the writing task panics");
        }
        settle().await;
        let v = seen(cx, &net, 2);
        cx.state(&(v.decoys, v.total));
        cx.outcome("read while writing");
    })
}
fn ahalves(cx: &Cx) {
    let cfg = cx.pick("configuration", &ALL);
    let role = cx.pick("role", &ROLES);
    let drop_r = cx.flag("drop the reader");
    let before = cx.flag("used before");
    let hold = cx.pick("hold", &HOLD);
    let cx2 = cx.clone();
    rt(cx, async move {
        let cx = &cx2;
        let p = peer(role);
        let (net, mut r, mut w) = aopen(cx, cfg, role, Some(if before { 25 } else { hold }), session_words(cfg)).await;
        cx.explore_select(true);
        let (mut nr, mut nw) = (0, 0);
        if before {
            let x = w.write(&out_msg(0)).await;
            sent(cx, &net, 0, x);
            let x = finish(cx, "a read of a packet that is there", r.read()).await;
            got(cx, 0, &p, x);
            (nr, nw) = (1, 1);
        }
        if drop_r {
            drop(r);
            for k in nw..nw + 3 {
                anap(130).await;
                let x = finish(cx, "a write after the reader was dropped", w.write(&out_msg(k))).await;
                sent(cx, &net, k, x);
            }
            drop(w);
            settle().await;
            let v = seen(cx, &net, nw + 3);
            cx.state(&(v.decoys, v.total));
        } else {
            drop(w);
            anap(130).await;
            net.feed(None);
            for k in nr..SIZES.len() {
                let x = finish(cx, "a read after the writer was dropped", r.read()).await;
                got(cx, k, &p, x);
            }
            let v = seen(cx, &net, nw);
            cx.check(v.tail == 0, || "an unfinished packet after the drop".into());
        }
        cx.outcome(if drop_r { "reader dropped" } else { "writer dropped" });
    })
}
/// Background decoys over a long time, with messages every now and then.
fn hours(cx: &Cx, minutes: usize) {
    let pad = cx.flag("padding");
    let rd = cx.pick("reader", &[Rd::Dropped, Rd::Waits]);
    cx.threads(400_000_000, move |cx| {
        let (net, r, mut w) = open(cx, Some((pad, true)), Role::Initiator, Some(2), mixed(102));
        let mut r = Some(r);
        let mut h = None;
        if rd == Rd::Waits {
            let mut r = r.take().unwrap();
            h = Some(sched::thread::spawn(move || drop(r.read())));
        }
        drop(r);
        let (mut last, mut n) = (0, 0);
        for k in 0..minutes / 10 {
            for _ in 0..600 {
                nap(1000);
            }
            let d = seen(cx, &net, n).decoys.len();
            cx.check(d > last + 100, || format!("{} background decoys in the ten minutes after {k} x 10 minutes", d - last));
            last = d;
            sent(cx, &net, n, w.write(&out_msg(n)));
            n += 1;
            cx.ops(6000);
        }
        net.feed(None);
        drop(w);
        if let Some(h) = h {
            let _ = h.join();
        }
        cx.outcome("decoys go on");
        cx.state(&last);
    });
}
fn ahours(cx: &Cx, minutes: usize) {
    let pad = cx.flag("padding");
    let cx2 = cx.clone();
    rt_long(cx, 1_000_000, async move {
        let cx = &cx2;
        let (net, r, mut w) = aopen(cx, Some((pad, true)), Role::Initiator, Some(2), mixed(102)).await;
        let (mut last, mut n) = (0, 0);
        for k in 0..minutes / 10 {
            anap(600_000).await;
            let d = seen(cx, &net, n).decoys.len();
            cx.check(d > last + 100, || format!("{} background decoys in the ten minutes after {k} x 10 minutes", d - last));
            last = d;
            let x = w.write(&out_msg(n)).await;
            sent(cx, &net, n, x);
            n += 1;
            cx.ops(6000);
        }
        net.feed(None);
        drop((r, w));
        cx.outcome("decoys go on");
        cx.state(&last);
    })
}
fn adecoys(cx: &Cx, t: Tier) {
    let pad = cx.flag("padding");
    let role = cx.pick("role", &ROLES);
    let rd = cx.pick("reader", &RDS);
    let rounds = t.q(4, 20);
    let cx2 = cx.clone();
    rt_long(cx, 1000, async move {
        let cx = &cx2;
        let p = peer(role);
        let hold = if rd == Rd::Waits { Some(2) } else { None };
        let (net, mut r, w) = aopen(cx, Some((pad, true)), role, hold, mixed(101)).await;
        let mut h = None;
        let mut keep = None;
        match rd {
            Rd::Waits => {
                let (cx2, p2) = (cx.clone(), p.clone());
                h = Some(tokio::spawn(async move {
                    let x = r.read().await;
                    got(&cx2, 0, &p2, x);
                }));
            }
            Rd::Dropped => drop(r),
            Rd::Idle => keep = Some(r),
            Rd::Eof => {
                net.l().end = End::Eof;
                for k in 0..SIZES.len() {
                    let x = r.read().await;
                    got(cx, k, &p, x);
                }
                cx.check(r.read().await.is_err(), || "a read succeeds although the peer closed the connection".into());
                keep = Some(r);
            }
        }
        let mut last = seen(cx, &net, 0).decoys.len();
        for k in 0..rounds {
            anap(10_000).await;
            let n = seen(cx, &net, 0).decoys.len();
            cx.check(n > last, || format!("no background decoy in ten seconds (round {k}, reader: {rd:?})"));
            last = n;
        }
        net.feed(None);
        drop(w);
        if let Some(h) = h {
            if finish(cx, "the read", h).await.is_err() {
                cx.fail("the reading task panics");
            }
        }
        drop(keep);
        cx.outcome("decoys go on");
        cx.state(&last);
    })
}

pub fn check(t: Tier) -> Check {
    let mut c = Check::new("C24", "model_checking",
        "reader and writer halves of the real blocking (controlled scheduler, deadlock and step-bound detection) and asynchronous (controlled runtime, virtual time) connections, plain and shaped: reads standing still at every kind of stream position while writes must finish, writes and background decoys standing still in the transport while reads must finish, either half dropped, background decoys under every reader state; all schedules up to the deviation bound");
    c.assume("sequentially consistent interleavings at synchronisation operations, clock reads and transport calls");
    let naps: &'static [u64] = t.q(&[0, 110][..], &[0, 99, 110, 250][..]);
    c.add(format!("blocking: writes while a read waits, {} deviations", t.q(1, 2)), t.q(1, 2), move |cx| silent(cx, &ALL, &HOLD, naps));
    c.add("blocking: writes while a read waits, 2 deviations", 2, move |cx| silent(cx, &[Some((true, true))], &[0, 10], &[110]));
    c.add(format!("blocking: reads while a write is stuck, {} deviations", t.q(1, 2)), t.q(1, 2), move |cx| stuck(cx, &ALL, naps));
    c.add("blocking: reads while a write is stuck, 2 deviations", 2, move |cx| stuck(cx, &[Some((true, true))], &[110]));
    c.add(format!("blocking: one half dropped, {} deviations", t.q(1, 2)), t.q(1, 2), move |cx| halves(cx, &ALL));
    c.add("blocking: decoys go on", 0, move |cx| decoys(cx, t));
    c.add(format!("async: writes while a read waits, {} deviations", t.q(2, 3)), t.q(2, 3), move |cx| asilent(cx, naps, false));
    c.add(format!("async: writes while a read waits, erratic transport, {} deviations", t.q(1, 2)), t.q(1, 2), move |cx| asilent(cx, naps, true));
    c.add(format!("async: reads while a write is stuck, {} deviations", t.q(2, 3)), t.q(2, 3), move |cx| astuck(cx, naps));
    c.add(format!("async: one half dropped, {} deviations", t.q(2, 3)), t.q(2, 3), ahalves);
    c.add("blocking: decoys go on for hours", 0, move |cx| hours(cx, t.q(300, 3000)));
    c.add("async: decoys go on for hours", 0, move |cx| ahours(cx, t.q(300, 3000)));
    c.add("async: decoys go on", 0, move |cx| adecoys(cx, t));
    c
}
