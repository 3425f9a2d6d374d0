//! Blocking traffic shaping never corrupts or reorders messages.
use crate::engine::*;
use crate::fx::*;
use crate::sh::*;
use bip324::{PacketType, Role};
use bip324_traffic::io::{ShapedProtocol, ShapedProtocolReader};
use std::time::Duration;

fn peer(role: Role, n: usize) -> Peer {
    let mut p = Peer::new(role);
    p.garbage = contents(4, 6);
    p.hs = vec![(128, vec![5; 3]), (0, vec![])];
    p.session = (0..n).map(|k| (if k % 3 == 1 { 128 } else { 0 }, msg(100 + k, 7 * k))).collect();
    p
}
fn read_all(cx: &Cx, r: &mut ShapedProtocolReader<Net>, from: usize, to: usize, p: &Peer) {
    for k in from..to {
        match r.read() {
            Ok(x) => {
                let (h, c) = &p.session[k];
                cx.check(x.contents() == &c[..] && (x.packet_type() == PacketType::Decoy) == (*h == 128), || format!("read {k} of a shaped connection gives other contents or type"));
            }
            Err(e) => cx.fail(format!("read {k} of a shaped connection fails: {e:?}")),
        }
    }
}
/// All earlier payloads and this one have been handed over, in order.
fn written(cx: &Cx, net: &Net, all: &[(bool, Vec<u8>)]) {
    let v = view(cx, net);
    let want: Vec<&Vec<u8>> = all.iter().filter(|x| !x.0).map(|x| &x.1).collect();
    cx.check(v.genuine.iter().eq(want.iter().copied()), || format!("after {} successful writes the peer sees {} genuine packets, or others than those written", want.len(), v.genuine.len()));
    // decoys which the application wrote are there too, in their turn
    let mut it = v.packets.iter();
    for (k, x) in all.iter().enumerate() {
        cx.check(it.any(|p| p == x), || format!("write {k} ({}) succeeded and the peer does not see its packet in its turn", if x.0 { "a decoy" } else { "genuine" }));
    }
    cx.check(v.flushed >= v.ends.last().copied().unwrap_or(0), || "a write succeeded and its packet is not flushed".into());
}
#[derive(Clone)]
struct Par {
    cfg: (bool, bool),
    role: Role,
    sizes: Vec<usize>,
    wr_max: usize,
    slow: u64,
    /// virtual milliseconds before each write, and before the drop
    naps: Vec<u64>,
    session: Words,
    hs: Words,
    /// 0: none, 1: main thread between the writes, 2: another thread
    reader: usize,
    env: bool,
    /// which writes are decoys: `k % .0 == .1`
    decoys: (usize, usize),
}
fn scenario(cx: &Cx, p: Par) {
    cx.threads(60_000, move |cx| {
        let peer = peer(p.role, 4);
        let net = Net::new(cx, Some(peer.clone()));
        words(cx, &net, p.hs.clone(), p.session.clone());
        cx.seed_fill(8);
        let (w, released) = wnet(&net);
        let conn = match ShapedProtocol::new(MAGIC, p.role, config(p.cfg), net.clone(), w) {
            Ok(c) => c,
            Err(e) => cx.fail(format!("shaped handshake fails: {e:?}")),
        };
        {
            let mut g = net.l();
            g.wr_max = p.wr_max;
            if p.slow > 0 {
                g.wr_nap = Some(Duration::from_millis(p.slow));
            }
            if p.env {
                g.wr_env = vec![Alt::One, Alt::ButOne, Alt::Do(Ev::Intr)];
            }
        }
        let (mut r, mut wr) = conn.into_split();
        let mut done = 0;
        let mut h = None;
        let mut rd = None;
        match p.reader {
            1 => rd = Some(r),
            2 => {
                let (cx2, p2) = (cx.clone(), peer.clone());
                h = Some(sched::thread::spawn(move || {
                    read_all(&cx2, &mut r, 0, p2.session.len(), &p2);
                    drop(r);
                }));
            }
            _ => drop(r),
        }
        let mut all = vec![];
        for (k, n) in p.sizes.iter().enumerate() {
            if p.naps[k % p.naps.len()] > 0 {
                nap(p.naps[k % p.naps.len()]);
            }
            let decoy = k % p.decoys.0 == p.decoys.1;
            all.push((decoy, msg(k, *n)));
            let res = wr.write(&payload(decoy, &all[k].1));
            cx.op();
            if let Err(e) = res {
                cx.fail(format!("write {k} fails over a transport that accepts everything: {e:?}"));
            }
            if p.sizes.len() < 20 || k % 40 == 0 {
                written(cx, &net, &all);
            }
            if let Some(r) = &mut rd {
                let to = (k + 1).min(peer.session.len());
                read_all(cx, r, done, to, &peer);
                done = to;
            }
        }
        let last = p.naps[p.sizes.len() % p.naps.len()];
        if last > 0 {
            nap(last);
        }
        drop(wr);
        if let Some(h) = h {
            if h.join().is_err() {
                cx.fail("the reading thread panics");
            }
        }
        written(cx, &net, &all);
        let v = view(cx, &net);
        cx.check(v.tail == 0, || format!("{} bytes of an unfinished packet at the end", v.tail));
        cx.check(v.flushed == v.total, || "bytes not flushed at the end".into());
        cx.check(released.upgrade().is_none(), || "the transport is still held after the drop".into());
        cx.outcome(match v.decoys.len() { 0 => "no decoys", 1..=3 => "1-3 decoys", _ => "more decoys" });
        cx.state(&(v.decoys, v.total, sched::now_ns()));
    });
}
/// Few writes, every schedule of writer, decoy thread, timers and random outcomes up to the bound.
/// `full`: all configurations, roles and naps; otherwise the richest configuration.
fn small(cx: &Cx, reader: usize, slow: bool, env: bool, full: bool) {
    let cfg = if full { cx.pick("configuration", &CFG) } else { (true, true) };
    let role = cx.pick("role", &ROLES[..if reader == 0 && full { 2 } else { 1 }]);
    let always = cx.flag("decoys by default");
    let all = [vec![100, 0, 120], vec![0, 0, 0], vec![0, 130, 0], vec![99, 101, 250]];
    let naps = cx.pick("naps", &all[..if full { 4 } else if env { 1 } else { 2 }]);
    let slow = if slow { cx.pick("slow transport", if full { &[30u64, 60, 100, 110] } else { &[60, 110] }) } else { 0 };
    scenario(cx, Par {
        cfg, role,
        sizes: vec![0, 9],
        wr_max: 40,
        slow,
        naps,
        session: if cfg.1 { Words::Dev(if always { vec![HI, 0] } else { vec![0, HI] }) } else { Words::Fixed(MID / 64) },
        hs: Words::Fixed(0),
        reader, env,
        decoys: (5, 3),
    });
}
/// Random outcomes only: every word at every draw (all free), default schedule with naps.
fn outcomes(cx: &Cx, t: Tier) {
    let cfg = cx.pick("configuration", &CFG);
    let hsw = cx.pick("handshake words", &[0, MID, HI, 0x4000_0000_0000_0000, 0x0100_0000_0000_0000]);
    let n = t.q(7, 10);
    let seq: Vec<u64> = (0..n).map(|_| cx.pick("word", &[0, HI])).collect();
    let always = cx.pick("naps", &[vec![100u64], vec![0, 210], vec![50, 330, 0]]);
    scenario(cx, Par {
        cfg, role: Role::Responder, sizes: vec![3, 50, 0], wr_max: usize::MAX, slow: 0, naps: always,
        session: Words::Seq(seq), hs: Words::Fixed(hsw), reader: 1, env: false, decoys: (3, 1),
    });
}
/// Over key changes.
fn long(cx: &Cx, t: Tier) {
    let cfg = cx.pick("configuration", &CFG);
    let role = cx.pick("role", &ROLES);
    let n = t.q(260, 700);
    let nv = cx.pick("naps", &[vec![0u64], vec![100], vec![0, 0, 0, 350], vec![60, 70]]);
    let slow = cx.pick("slow transport", &[0u64, 35]);
    let w = cx.pick("words", &[vec![HI], vec![0, HI, MID], vec![HI, HI, 0, 0, HI]]);
    scenario(cx, Par {
        cfg, role, sizes: (0..n).map(|k| k * 13 % 70).collect(), wr_max: usize::MAX, slow, naps: nv,
        session: Words::Seq(w), hs: Words::Fixed(HI), reader: 2, env: false, decoys: (5, 3),
    });
}
/// Byte-wise transport: a switch between any two bytes of any packet.
fn bytes(cx: &Cx, t: Tier) {
    let cfg = cx.pick("configuration", &CFG[1..]);
    let max = cx.pick("bytes per write", &t.q(vec![1usize, 7], vec![1, 2, 7, 17, 20]));
    let naps = cx.pick("naps", &[vec![0u64, 0], vec![100, 100], vec![0, 150]]);
    scenario(cx, Par {
        cfg, role: Role::Initiator, sizes: vec![4, 11], wr_max: max, slow: 0, naps,
        session: Words::Fixed(if cfg.0 { MID / 256 } else { HI }), hs: Words::Fixed(0), reader: 0, env: false, decoys: (2, 2),
    });
}
/// Large payloads, next to powers of two and the largest the peer accepts.
fn large(cx: &Cx, t: Tier) {
    let cfg = cx.pick("configuration", &CFG);
    let top = t.q(20, 22);
    let mut sizes: Vec<usize> = (10..=top).flat_map(|e| [-20i64, -4, -1, 0, 1].map(|d| ((1i64 << e) + d) as usize)).filter(|n| *n <= 4_000_013).collect();
    sizes.extend((11..top).map(|e| (1usize << e) / 4 * 7 + e));
    sizes.extend([70_000, 100_001, 600_000, 4_000_012, 4_000_013]);
    let n = cx.pick("size", &sizes);
    let decoys = cx.pick("decoys", &[(9, 9), (3, 1)]);
    scenario(cx, Par {
        cfg, role: Role::Responder, sizes: vec![n, n, 5], wr_max: usize::MAX, slow: 0, naps: vec![0, 110], session: Words::Fixed(HI), hs: Words::Fixed(0), reader: 0, env: false, decoys,
    });
}
pub fn check(t: Tier) -> Check {
    let mut c = Check::new("C18", "model_checking",
        "the real blocking shaped connection under a controlled thread scheduler with virtual time: every interleaving of writer, reader, decoy thread and timers, every random outcome and transport answer, up to the deviation (preemption) bound; long runs over key changes; the bytes sent are decoded by a reference peer after every successful write and at the end");
    c.assume("sequentially consistent interleavings at synchronisation operations, clock reads and transport calls");
    c.add("two writes, 2 deviations", 2, move |cx| small(cx, 0, false, false, true));
    c.add("two writes and reads between them", t.q(1, 2), |cx| small(cx, 1, false, false, true));
    c.add("two writes and a reading thread, all configurations", t.q(1, 2), |cx| small(cx, 2, false, false, true));
    c.add("two writes and a reading thread, 2 deviations", 2, |cx| small(cx, 2, false, false, false));
    c.add("slow transport, 2 deviations", 2, move |cx| small(cx, 0, true, false, t == Tier::Thorough));
    c.add("erratic transport, 2 deviations", 2, move |cx| small(cx, 0, false, true, t == Tier::Thorough));
    if t == Tier::Thorough {
        c.add("two writes, 3 deviations", 3, |cx| small(cx, 0, false, false, false));
        c.add("slow transport, all configurations, 1 deviation", 1, |cx| small(cx, 1, true, true, true));
    }
    c.add(format!("byte-wise transport, {} deviations", t.q(1, 2)), t.q(1, 2), move |cx| bytes(cx, t));
    c.add("every random outcome", 0, move |cx| outcomes(cx, t));
    c.add("large payloads", 0, move |cx| large(cx, t));
    c.add("long sessions", 0, move |cx| long(cx, t));
    c
}
