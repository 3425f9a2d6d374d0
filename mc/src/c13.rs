//! Async reads survive cancellation and any arrival pattern.
use crate::c12::script;
use crate::engine::*;
use crate::fx::*;
use crate::refm;
use bip324::futures::{Protocol, ProtocolReader, ProtocolWriter};
use bip324::io::{Payload, ProtocolError};
use bip324_traffic::futures::{ShapedProtocol, ShapedProtocolReader, ShapedProtocolWriter};
use bip324::{PacketType, Role};
use std::io::ErrorKind;
use tokio::io::AsyncReadExt;

type Step = Out<(bool, Vec<u8>)>;
const KINDS: [ErrorKind; 5] = [ErrorKind::TimedOut, ErrorKind::WouldBlock, ErrorKind::Interrupted, ErrorKind::Other, ErrorKind::InvalidData];

enum Rd {
    Whole(Protocol<Net, Net>),
    Split(ProtocolReader<Net>, ProtocolWriter<Net>),
    /// a shaped connection (its background task does not run here)
    Shaped(ShapedProtocol<Net>, tokio::runtime::Runtime),
    ShapedSplit(ShapedProtocolReader<Net>, ShapedProtocolWriter, tokio::runtime::Runtime),
}
impl Rd {
    async fn read(&mut self) -> Result<Payload, ProtocolError> {
        match self {
            Rd::Whole(p) => p.read().await,
            Rd::Split(r, _) => r.read().await,
            Rd::Shaped(p, _) => p.read().await,
            Rd::ShapedSplit(r, ..) => r.read().await,
        }
    }
    async fn write(&mut self, p: &Payload) -> Result<(), ProtocolError> {
        match self {
            Rd::Whole(w) => w.write(p).await,
            Rd::Split(_, w) => w.write(p).await,
            Rd::Shaped(..) | Rd::ShapedSplit(..) => unreachable!(),
        }
    }
}
/// When a pending read is given up (and called again).
#[derive(Clone, Copy, Debug, PartialEq, Hash)]
enum Drop_ {
    Never,
    Always,
    /// the explorer decides, one deviation each
    Explore,
}
/// A read called, dropped while pending, called again, ... until it gives a result.  Injected
/// transport errors are reported as such at most once each and followed by another call.
fn read(cx: &Cx, net: &Net, rd: &mut Rd, pol: Drop_) -> Step {
    for _ in 0..100_000 {
        let hits = net.l().hits.len();
        let mut drops = 0;
        let r = {
            let mut fut = std::pin::pin!(rd.read());
            loop {
                match poll1(cx, fut.as_mut()) {
                    Polled::Ready(r) => break Some(r),
                    Polled::Woken => {
                        drops += 1;
                        let d = match pol {
                            Drop_::Never => false,
                            Drop_::Always => true,
                            Drop_::Explore => cx.dev("drop the read", 2) == 1,
                        };
                        if d {
                            break None;
                        }
                        cx.check(drops < 100_000, || "a read never finishes".into());
                    }
                    Polled::Stalled => {
                        if net.l().blocked {
                            return Out::Wait;
                        }
                        break None;
                    }
                }
            }
        };
        match r {
            None => continue,
            Some(r) => match norm(net, r.map(|p| (p.packet_type() == PacketType::Decoy, p.contents().to_vec()))) {
                Out::Io(k, s) => {
                    let injected = net.l().hits[hits..].contains(&Ev::Err(k));
                    let intr = k == ErrorKind::Interrupted && net.l().hits[hits..].contains(&Ev::Intr);
                    if injected || intr {
                        continue;
                    }
                    return Out::Io(k, s);
                }
                x => return x,
            },
        }
    }
    cx.fail("reads never finish")
}
fn open_(cx: &Cx, net: &Net, role: Role, split: bool) -> Out<Rd> {
    cx.seed_fill(5);
    match connect(cx, Drv::Async, net, MAGIC, role, Some(vec![3; 5]), Some(vec![vec![4; 6]])) {
        Out::Ok(Conn::A(p)) => Out::Ok(if split {
            let (r, w) = p.into_split();
            Rd::Split(r, w)
        } else {
            Rd::Whole(p)
        }),
        Out::Ok(_) => unreachable!(),
        Out::Io(k, s) => Out::Io(k, s),
        Out::Lib(e) => Out::Lib(e),
        Out::Wait => Out::Wait,
    }
}
fn expect(p: &Peer) -> Vec<Step> {
    p.session.iter().map(|(h, c)| Out::Ok((h & 0x80 != 0, c.clone()))).collect()
}
fn total(p: &Peer) -> usize {
    64 + p.garbage.len() + 16 + p.hs.iter().chain(&p.session).map(|x| 20 + x.1.len()).sum::<usize>()
}
fn hs_len(p: &Peer) -> usize {
    64 + p.garbage.len() + 16 + p.hs.iter().map(|x| 20 + x.1.len()).sum::<usize>()
}
/// Everything the peer sent is delivered, then the read waits for more.
fn verify(cx: &Cx, p: &Peer, net: &Net, pol: Drop_, split: bool, writes: bool, what: &dyn Fn() -> String) {
    let mut rd = match open_(cx, net, p.local, split) {
        Out::Ok(r) => r,
        x => cx.fail(format!("{}: handshake gives {}", what(), match x { Out::Io(k, _) => format!("{k:?}"), Out::Lib(e) => format!("{e:?}"), _ => "nothing (waits)".into() })),
    };
    let mut sent = vec![];
    for (k, w) in expect(p).into_iter().enumerate() {
        if writes {
            let pl = contents(60 + k as u64, 9 + k);
            let r = block(cx, rd.write(&Payload::genuine(pl.clone())));
            cx.check(matches!(r, Some(Ok(()))), || format!("{}: a write between reads fails", what()));
            sent.push((0u8, pl));
        }
        let x = read(cx, net, &mut rd, pol);
        if x != w {
            cx.fail(format!("{}: packet {k} read as {}", what(), short(&x)));
        }
    }
    // injected events that nothing asked for yet are not for this read
    net.l().rd_ev.clear();
    net.l().rd_env.clear();
    let x = read(cx, net, &mut rd, Drop_::Never);
    cx.check(x == Out::Wait, || format!("{}: after the last packet: {}", what(), short(&x)));
    let (g, d, rest, mut r) = check_sent(cx, net);
    cx.check(g == vec![3; 5] && d == vec![vec![4; 6]], || "what was sent depends on arrival".into());
    let (ps, err) = refm::parse_stream(&mut r.recv, &rest);
    cx.check(err == Ok(0) && ps == sent, || format!("{}: packets written between the reads do not decode", what()));
}
/// One cut, and what happens there.
fn single(cx: &Cx, t: Tier) {
    let role = cx.pick("role", &ROLES);
    let p = script(role, cx.pick("garbage", &t.q(vec![0usize, 9, 250], vec![0, 1, 9, 15, 16, 239, 240, 241, 250, 500, 4095])));
    let at = cx.choose("cut", total(&p));
    let mode = cx.choose("event", 12);
    let net = Net::new(cx, Some(p.clone()));
    let session = at >= hs_len(&p);
    let mut pol = Drop_::Always;
    {
        let mut g = net.l();
        g.rd_cuts = vec![at];
        match mode {
            0 => {}
            1 => g.rd_ev = vec![(at, Ev::Pending)],
            2 => {
                g.rd_ev = vec![(at, Ev::Pending); 3];
                pol = Drop_::Never;
            }
            3 => {
                g.rd_ev = vec![(at, Ev::Pending); 2];
                g.rd_max = 1;
            }
            4 | 5 => {
                if !session {
                    cx.skip()
                }
                g.rd_ev = vec![(at, Ev::Stall); mode - 3];
            }
            6 => {
                if !session {
                    cx.skip()
                }
                g.rd_ev = vec![(at, Ev::Stall), (at, Ev::Err(ErrorKind::TimedOut)), (at, Ev::Pending)];
                g.rd_max = 1;
            }
            k => {
                if !session {
                    cx.skip()
                }
                g.rd_ev = vec![(at, Ev::Err(KINDS[k - 7])); 1 + at % 2];
            }
        }
    }
    cx.case(&(at, mode, p.garbage.len()));
    verify(cx, &p, &net, pol, at % 2 == 0, at % 3 == 0, &|| format!("cut at {at}, event {mode}"));
}
/// Not ready, given up or failing many times at one place.
fn storms(cx: &Cx, t: Tier) {
    let role = cx.pick("role", &ROLES);
    let p = script(role, cx.pick("garbage", &[9usize, 250]));
    let k = cx.pick("times", &t.q(vec![10usize, 17, 33, 65, 100, 129, 257, 1001, 5000], vec![10, 17, 33, 65, 100, 129, 257, 1001, 5000, 20_000]));
    let step = if k > 300 { t.q(11, 3) } else { 1 };
    let at = step * cx.choose("cut", total(&p) / step);
    let (ev, pol) = match cx.choose("event", 5) {
        0 => (Ev::Pending, Drop_::Never),
        1 => (Ev::Pending, Drop_::Always),
        2 => (Ev::Stall, Drop_::Always),
        3 => (Ev::Err(ErrorKind::TimedOut), Drop_::Always),
        _ => (Ev::Err(ErrorKind::Interrupted), Drop_::Always),
    };
    if ev != Ev::Pending && at < hs_len(&p) {
        cx.skip()
    }
    let net = Net::new(cx, Some(p.clone()));
    {
        let mut g = net.l();
        g.rd_cuts = vec![at];
        g.rd_ev = vec![(at, ev); k];
    }
    cx.case(&(at, k));
    verify(cx, &p, &net, pol, at % 2 == 0, false, &|| format!("{k} times {ev:?} at {at}"));
}
/// A read is given up in the middle of a packet, then the connection is split and goes on.
fn split_mid(cx: &Cx) {
    let role = cx.pick("role", &ROLES);
    let g = cx.pick("garbage", &[0usize, 9, 250]);
    let p = script(role, g);
    let hs = hs_len(&p);
    let at = hs + cx.choose("cut", total(&p) - hs);
    let max = cx.pick("bytes per read", &[usize::MAX, 1, 7]);
    let ev = cx.pick("event", &[Ev::Pending, Ev::Stall, Ev::Err(ErrorKind::TimedOut)]);
    let net = Net::new(cx, Some(p.clone()));
    {
        let mut n = net.l();
        n.rd_max = max;
        n.rd_cuts = vec![at];
        n.rd_ev = vec![(at, ev)];
    }
    let what = || format!("split after a read given up at {at} ({ev:?})");
    let mut rd = match open_(cx, &net, role, false) {
        Out::Ok(r) => r,
        x => cx.fail(format!("{}: handshake fails: {}", what(), match x { Out::Io(k, _) => format!("{k:?}"), Out::Lib(e) => format!("{e:?}"), _ => "waits".into() })),
    };
    let mut split = false;
    for (k, w) in expect(&p).into_iter().enumerate() {
        let mut got = None;
        while !split && got.is_none() {
            let hits = net.l().hits.len();
            let r = {
                let mut fut = std::pin::pin!(rd.read());
                match poll1(cx, fut.as_mut()) {
                    Polled::Ready(r) => Some(r),
                    _ => None,
                }
            };
            match r {
                Some(Ok(x)) => got = Some(Out::Ok((x.packet_type() == PacketType::Decoy, x.contents().to_vec()))),
                // given up, or the injected error
                r => {
                    cx.check(r.is_none() || net.l().hits.len() > hits, || format!("{}: packet {k} fails", what()));
                    rd = match rd {
                        Rd::Whole(p) => {
                            let (r, w) = p.into_split();
                            Rd::Split(r, w)
                        }
                        x => x,
                    };
                    split = true;
                }
            }
        }
        let x = match got {
            Some(x) => x,
            None => read(cx, &net, &mut rd, Drop_::Always),
        };
        if x != w {
            cx.fail(format!("{}: packet {k} read as {}", what(), short(&x)));
        }
    }
    cx.outcome(if split { "split in the middle" } else { "not reached" });
    cx.case(&(at, max, g));
}
/// The reading side of shaped connections.
fn shaped(cx: &Cx, t: Tier) {
    let role = cx.pick("role", &ROLES);
    let g = cx.pick("garbage", &t.q(vec![9usize, 250], vec![0, 1, 9, 15, 16, 239, 240, 241, 250, 500, 4095]));
    let split = cx.choose("split", 3);
    let p = script(role, g);
    let hs = hs_len(&p);
    let at = hs + cx.choose("cut", total(&p) - hs);
    let max = cx.pick("bytes per read", &[usize::MAX, 1, 7]);
    let ev = cx.pick("event", &[None, Some(Ev::Pending), Some(Ev::Stall), Some(Ev::Err(ErrorKind::TimedOut)), Some(Ev::Err(ErrorKind::ConnectionReset))]);
    let n = cx.pick("times", &[1usize, 3]);
    let net = Net::new(cx, Some(p.clone()));
    {
        let mut n2 = net.l();
        n2.rd_max = max;
        n2.rd_cuts = vec![at];
        n2.rd_ev = ev.map(|e| vec![(at, e); n]).unwrap_or_default();
    }
    let what = || format!("shaped connection, {n} times {ev:?} at {at}");
    cx.seed_fill(5);
    crate::sh::words(cx, &net, crate::sh::Words::Fixed(0), crate::sh::Words::Fixed(0));
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().expect("runtime");
    let c = {
        let _g = rt.enter();
        let (w, _) = crate::sh::wnet(&net);
        match block(cx, ShapedProtocol::new(MAGIC, role, crate::sh::config((false, false)), net.clone(), w)) {
            Some(Ok(c)) => c,
            x => cx.fail(format!("{}: handshake fails: {:?}", what(), x.map(|r| r.err()))),
        }
    };
    let parts = |c: ShapedProtocol<Net>, rt| {
        let (r, w) = c.into_split();
        Rd::ShapedSplit(r, w, rt)
    };
    let mut rd = if split == 1 { parts(c, rt) } else { Rd::Shaped(c, rt) };
    for (k, w) in expect(&p).into_iter().enumerate() {
        let mut x = None;
        if split == 2 && matches!(rd, Rd::Shaped(..)) {
            // one poll, split when it is given up
            let r = {
                let mut fut = std::pin::pin!(rd.read());
                match poll1(cx, fut.as_mut()) {
                    Polled::Ready(r) => Some(r),
                    _ => None,
                }
            };
            match r {
                Some(Ok(y)) => x = Some(Out::Ok((y.packet_type() == PacketType::Decoy, y.contents().to_vec()))),
                _ => {
                    rd = match rd {
                        Rd::Shaped(c, rt) => parts(c, rt),
                        y => y,
                    }
                }
            }
        }
        let x = match x {
            Some(x) => x,
            None => read(cx, &net, &mut rd, Drop_::Always),
        };
        if x != w {
            cx.fail(format!("{}: packet {k} read as {}", what(), short(&x)));
        }
    }
    cx.case(&(at, max, g, split));
}
/// Every kind of transport error at every place of the session.
fn kinds(cx: &Cx, t: Tier) {
    let role = cx.pick("role", &ROLES);
    let p = script(role, 9);
    let at = hs_len(&p) + cx.choose("cut", total(&p) - hs_len(&p));
    let n = cx.pick("times", &t.q(vec![1usize, 2], vec![1, 2, 5]));
    for k in crate::c15::KINDS {
        let net = Net::new(cx, Some(p.clone()));
        {
            let mut g = net.l();
            g.rd_cuts = vec![at];
            g.rd_ev = vec![(at, Ev::Err(k)); n];
        }
        cx.case(&(at, n, format!("{k:?}")));
        verify(cx, &p, &net, Drop_::Always, at % 2 == 0, at % 3 == 0, &|| format!("{n} times {k:?} at {at}"));
    }
}
fn pairs(cx: &Cx, t: Tier) {
    let role = cx.pick("role", &ROLES);
    let p = script(role, t.q(2, 60));
    let n = total(&p);
    let a = cx.choose("first cut", n);
    let hs = hs_len(&p);
    for b in a..n {
        if t == Tier::Quick && (b - a) % 2 == 1 && b - a > 24 {
            continue;
        }
        for mode in 0..t.q(2, 4) {
            let net = Net::new(cx, Some(p.clone()));
            let ev = |x: usize| match (mode, x >= hs) {
                (0, _) | (_, false) => Ev::Pending,
                (1, _) => Ev::Stall,
                (2, _) => Ev::Err(ErrorKind::TimedOut),
                _ => Ev::Err(ErrorKind::Interrupted),
            };
            {
                let mut g = net.l();
                g.rd_cuts = vec![a, b];
                g.rd_ev = vec![(a, ev(a)), (b, ev(b))];
            }
            cx.case(&(a, b, mode));
            verify(cx, &p, &net, Drop_::Always, (a + b) % 2 == 0, false, &|| format!("cuts at {a} and {b}, mode {mode}, reads dropped there"));
        }
    }
}
fn sizes(cx: &Cx, t: Tier) {
    let role = cx.pick("role", &ROLES);
    let max = 1 + cx.choose("bytes per read", t.q(300, 600));
    let g = cx.pick("garbage", &t.q(vec![0usize, 5, 300, 4095], vec![0, 5, 300, 1000, 4080, 4095]));
    let pend = cx.choose("not ready", 3);
    let p = script(role, g);
    let net = Net::new(cx, Some(p.clone()));
    let hs = hs_len(&p);
    {
        let mut n = net.l();
        n.rd_max = max;
        match pend {
            0 => {}
            1 => n.rd_ev = (0..total(&p)).step_by(max).map(|k| (k, Ev::Pending)).collect(),
            _ => n.rd_ev = (0..total(&p)).step_by(7).map(|k| (k, if k >= hs { Ev::Stall } else { Ev::Pending })).collect(),
        }
    }
    cx.case(&(max, g, pend));
    verify(cx, &p, &net, Drop_::Always, max % 2 == 0, false, &|| format!("{max} bytes per read, garbage {g}, not ready {pend}"));
}
/// Over-read of every amount: session data glued to the handshake, reads dropped all over it.
fn glued(cx: &Cx, t: Tier) {
    let g = cx.choose("garbage", 4096);
    let max = cx.pick("bytes per read", &t.q(vec![usize::MAX], vec![usize::MAX, 256, 1000, 97]));
    let big = cx.flag("large packets");
    if t == Tier::Quick && g % 3 != 0 && g > 530 {
        cx.skip()
    }
    let mut p = script(Role::Initiator, g);
    if big {
        p.hs.insert(0, (0x80, contents(3, 700)));
        p.session.push((0, contents(9, 3000)));
    }
    let hs = hs_len(&p);
    let net = Net::new(cx, Some(p.clone()));
    {
        let mut n = net.l();
        n.rd_max = max;
        // whichever position the reader stands at when the leftover is exhausted
        n.rd_ev = (hs..total(&p)).step_by(if g % 2 == 0 { 1 } else { 37 }).map(|k| (k, Ev::Stall)).collect();
        n.rd_cuts = vec![];
    }
    // events also act as cuts, which would hide over-read: let the handshake itself run uncut
    let evs = std::mem::take(&mut net.l().rd_ev);
    let mut rd = match open_(cx, &net, p.local, g % 2 == 1) {
        Out::Ok(r) => r,
        _ => cx.fail(format!("garbage {g}: handshake fails")),
    };
    let at = net.l().pos;
    net.l().rd_ev = evs.into_iter().filter(|e| e.0 >= at).collect();
    for (k, w) in expect(&p).into_iter().enumerate() {
        let x = read(cx, &net, &mut rd, Drop_::Always);
        if x != w {
            cx.fail(format!("garbage {g}: packet {k} read as {}", short(&x)));
        }
    }
    cx.case(&(g, max, big));
}
/// Every answer of the transport and every drop decision, up to the deviation bound.
fn env(cx: &Cx, g: usize, errors: bool) {
    let role = cx.pick("role", &ROLES);
    let split = cx.flag("split");
    let p = script(role, g);
    let net = Net::new(cx, Some(p.clone()));
    let base = vec![Alt::One, Alt::Half, Alt::ButOne, Alt::Do(Ev::Pending)];
    net.l().rd_env = if errors { vec![] } else { base.clone() };
    let mut rd = match open_(cx, &net, p.local, split) {
        Out::Ok(r) => r,
        _ => cx.fail("handshake fails"),
    };
    net.l().rd_env = if errors {
        vec![Alt::One, Alt::Half, Alt::Do(Ev::Stall), Alt::Do(Ev::Err(ErrorKind::TimedOut)), Alt::Do(Ev::Intr)]
    } else {
        base
    };
    for (k, w) in expect(&p).into_iter().enumerate() {
        let x = read(cx, &net, &mut rd, Drop_::Explore);
        if x != w {
            cx.fail(format!("packet {k} read as {}", short(&x)));
        }
    }
    let h = net.l();
    let s = (h.rd_ops, h.hits.len());
    drop(h);
    cx.state(&s);
}
/// Streams that do not end in a complete session: same outcome however they arrive.
fn bad(cx: &Cx, t: Tier) {
    let role = cx.pick("role", &ROLES);
    let g = cx.pick("garbage", &[0usize, 3, 270]);
    let p = script(role, g);
    let n = total(&p);
    let kind = cx.choose("kind", 5);
    let at = match kind {
        0 | 1 => cx.choose("position", if t == Tier::Quick { n.min(260) } else { n }),
        _ => cx.choose("position", 4),
    };
    let mk = || {
        let net = Net::new(cx, Some(p.clone()));
        net.l().end = End::Eof;
        let edit: Box<dyn Fn(&mut Vec<u8>) + Send> = match kind {
            0 => Box::new(move |v| v.truncate(at)),
            1 => Box::new(move |v| v[at] ^= 0x20),
            2 => Box::new(move |v| v[..4].copy_from_slice(&MAGIC)),
            3 => Box::new(move |v| {
                v.truncate(64);
                v.extend(vec![0x42; 4096 + 64 * at])
            }),
            _ => Box::new(move |v| {
                let n = v.len();
                v.truncate(n - 20);
                v.extend(vec![7u8; at * 20 + 1])
            }),
        };
        net.l().tamper = Some(edit);
        net
    };
    let run = |net: &Net| -> (String, Vec<Step>) {
        match open_(cx, net, role, false) {
            Out::Ok(mut r) => {
                let mut v = vec![];
                for _ in 0..9 {
                    let x = read(cx, net, &mut r, Drop_::Always);
                    let stop = !matches!(x, Out::Ok(_));
                    v.push(x);
                    if stop {
                        break;
                    }
                }
                ("complete".into(), v)
            }
            Out::Io(k, s) => (format!("{k:?} {s}"), vec![]),
            Out::Lib(e) => (format!("{e:?}"), vec![]),
            Out::Wait => ("waits".into(), vec![]),
        }
    };
    let base = run(&mk());
    for split in 0..7 {
        let net = mk();
        {
            let mut x = net.l();
            match split {
                0 => x.rd_max = 1,
                1 => x.rd_max = 2,
                2 => x.rd_max = 17,
                3 => x.rd_max = 256,
                4 => x.rd_cuts = vec![64, 64 + g, 64 + g + 16, 64 + g + 19],
                5 => x.rd_ev = (0..n + 5000).map(|k| (k, Ev::Pending)).step_by(3).collect(),
                _ => {
                    x.rd_max = 1;
                    x.rd_ev = (0..n + 100).map(|k| (k, Ev::Pending)).collect()
                }
            }
        }
        cx.case(&(kind, at, split, g));
        let o = run(&net);
        if o != base {
            cx.fail(format!("stream altered by {kind} at {at}: split {split} gives {} and unsplit {}", short(&o), short(&base)));
        }
    }
    cx.outcome(&base.0);
}
/// The reader taken apart after k packets.
fn apart(cx: &Cx, t: Tier) {
    let role = cx.pick("role", &ROLES);
    let g = cx.pick("garbage", &[0usize, 3, 200, 251, 300]);
    let k = cx.choose("packets read before", 5);
    let max = cx.pick("bytes per read", &t.q(vec![usize::MAX, 1, 33], vec![usize::MAX, 1, 2, 33, 256]));
    let ask = cx.pick("bytes asked", &[1usize, 2, 7, 64, 4096]);
    let p = script(role, g);
    let net = Net::new(cx, Some(p.clone()));
    net.l().rd_max = max;
    net.l().end = End::Eof;
    let direct = k == 0 && cx.flag("handshake function");
    cx.seed_fill(9);
    let (mut c, mut rd) = if direct {
        match block(cx, bip324::futures::handshake(MAGIC, role, None, None, net.clone(), &mut net.clone())) {
            Some(Ok((i, _o, r))) => (i, r),
            _ => cx.fail("handshake function fails"),
        }
    } else {
        let Out::Ok(Conn::A(pr)) = connect(cx, Drv::Async, &net, MAGIC, role, None, None) else { cx.fail("handshake") };
        let (mut r, _w) = pr.into_split();
        for j in 0..k.min(p.session.len()) {
            match block(cx, r.read()) {
                Some(Ok(x)) => cx.check(x.contents() == p.session[j].1, || format!("packet {j}")),
                _ => cx.fail(format!("packet {j}")),
            }
        }
        r.into_inner()
    };
    let k = k.min(p.session.len());
    // not ready once before each read
    let n0 = net.l().pos;
    net.l().rd_ev = (n0..total(&p)).map(|x| (x, Ev::Stall)).step_by(3).collect();
    let mut bytes = vec![];
    let mut buf = vec![0u8; ask];
    loop {
        let r = {
            let mut f = std::pin::pin!(rd.read(&mut buf));
            match poll1(cx, f.as_mut()) {
                Polled::Ready(r) => r,
                _ => continue,
            }
        };
        match r {
            Ok(0) => break,
            Ok(n) => bytes.extend_from_slice(&buf[..n]),
            Err(e) => cx.fail(format!("reading the rest: {e:?}")),
        }
        cx.op();
    }
    let want: usize = p.session[k..].iter().map(|x| 20 + x.1.len()).sum();
    cx.check(bytes.len() == want, || format!("{} bytes left for the session, want {want}", bytes.len()));
    let mut at = 0;
    for (h, w) in &p.session[k..] {
        let l = c.decrypt_packet_len(bytes[at..at + 3].try_into().unwrap());
        cx.check(l == 17 + w.len(), || "length of the next packet".into());
        let o = open(Api::Decrypt, &mut c, &bytes[at + 3..at + 3 + l], None);
        cx.check(matches!(&o.res, Ok((t, b)) if *t == ty(h & 0x80 != 0) && b[1..] == w[..]), || "packet after taking the reader apart".into());
        at += 3 + l;
    }
    cx.state(&(g, k, max, ask));
}
/// Packets of every order of magnitude, every read given up whenever it is not ready for whatever reason.
fn large(cx: &Cx, t: Tier) {
    let role = cx.pick("role", &ROLES);
    let n = cx.pick("contents", &around(t.q(vec![8, 10, 12, 14, 15, 16, 17, 18, 20], (6..22).collect()), MAX_CONTENTS));
    let max = cx.pick("bytes per read", &[usize::MAX, 40_000]);
    let pol = cx.pick("reads dropped", &[Drop_::Always, Drop_::Never]);
    let mut p = script(role, 5);
    p.session = vec![(0, vec![1]), (0, contents(1, n)), (128, contents(2, n / 2)), (0, vec![3; 3])];
    let hs = hs_len(&p);
    let net = Net::new(cx, Some(p.clone()));
    {
        let mut g = net.l();
        g.rd_max = max;
        // before, in and after the length of the large packet, in its body, at its end
        let at = hs + 21;
        let end = at + 20 + n;
        g.rd_ev = [at, at + 2, at + 3, at + 4, at + 3 + n / 2, end - 1, end, end + 3].iter().map(|x| (*x, Ev::Stall)).collect();
    }
    cx.case(&(n, max));
    verify(cx, &p, &net, pol, n % 2 == 0, false, &|| format!("a packet with {n} bytes of contents, {max} bytes per read, reads dropped: {pol:?}"));
}
/// Every contents length, one after another.
fn every(cx: &Cx, t: Tier) {
    let n = cx.choose("contents", t.q(1536, 8192)) * 16;
    let max = cx.pick("bytes per read", &[usize::MAX, 777]);
    let mut p = script(Role::Initiator, 5);
    p.session = (n..n + 16).map(|k| (if k % 3 == 0 { 128 } else { 0 }, contents(k as u64, k))).collect();
    let net = Net::new(cx, Some(p.clone()));
    net.l().rd_max = max;
    cx.case(&(n, max));
    verify(cx, &p, &net, if max > 777 { Drop_::Never } else { Drop_::Always }, n % 2 == 0, false, &|| format!("contents of {n} and more bytes, {max} bytes per read"));
}
/// Many packets over key changes, every read dropped at least once.
fn long(cx: &Cx, t: Tier) {
    let max = cx.pick("bytes per read", &t.q(vec![usize::MAX, 1, 61], vec![usize::MAX, 1, 2, 3, 61, 255, 256, 257]));
    let ev = cx.pick("event", &[None, Some(Ev::Pending), Some(Ev::Stall), Some(Ev::Err(ErrorKind::TimedOut))]);
    let role = if ev.is_none() { Role::Initiator } else { Role::Responder };
    let mut p = script(role, 30);
    p.session = (0..t.q(700u64, 3000)).map(|k| (if k % 5 == 0 { 128 } else { 0 }, contents(k, (k * 37 % 600) as usize))).collect();
    let net = Net::new(cx, Some(p.clone()));
    net.l().rd_max = max;
    let mut rd = match open_(cx, &net, role, true) {
        Out::Ok(r) => r,
        _ => cx.fail("handshake"),
    };
    for (k, w) in expect(&p).into_iter().enumerate() {
        {
            let mut g = net.l();
            g.ops = 0;
            if let Some(e) = ev {
                let at = g.pos;
                // in the length, at its end, in the body
                g.rd_ev = [k % 4, 3, 4 + k % 7].iter().map(|d| (at + d, e)).collect();
                g.hits.clear();
            }
        }
        let x = read(cx, &net, &mut rd, Drop_::Always);
        cx.check(x == w, || format!("packet {k}: {}", short(&x)));
        cx.case(&(k, max));
    }
}
pub fn check(t: Tier) -> Check {
    let mut c = Check::new("C13", "model_checking",
        "the real asynchronous driver on a scripted transport, polled by the harness: every single cut with every event there (not ready, dropped once or repeatedly, transient errors of several kinds), every pair of cuts with the read dropped at both, every fixed read size, every amount of over-read, every choice of short/not-ready/failing reads and drops at every read up to the deviation bound; malformed streams compared with the unsplit outcome; readers taken apart at every packet; long sessions over key changes; packets of every order of magnitude");
    c.add("one cut", 0, move |cx| single(cx, t));
    c.add("many events at one place", 0, move |cx| storms(cx, t));
    c.add("every kind of error", 0, move |cx| kinds(cx, t));
    c.add("split after a read given up", 0, split_mid);
    c.add("shaped connections", 0, move |cx| shaped(cx, t));
    c.add("pairs of cuts", 0, move |cx| pairs(cx, t));
    c.add("fixed read sizes", 0, move |cx| sizes(cx, t));
    c.add("over-read of every amount", 0, move |cx| glued(cx, t));
    let d = t.q(3, 4);
    c.add(format!("varied reads and drops, {d} deviations"), d, |cx| env(cx, 9, false));
    c.add(format!("varied reads and transient errors, {d} deviations"), d, |cx| env(cx, 9, true));
    c.add(format!("varied reads and drops, long garbage, {} deviations", t.q(2, 3)), t.q(2, 3), |cx| env(cx, 600, false));
    c.add("malformed streams", 0, move |cx| bad(cx, t));
    c.add("reader taken apart", 0, move |cx| apart(cx, t));
    c.add("large packets", 0, move |cx| large(cx, t));
    c.add("every contents length", 0, move |cx| every(cx, t));
    c.add("long sessions", 0, move |cx| long(cx, t));
    c
}
