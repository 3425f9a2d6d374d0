//! Sync connection result does not depend on how bytes arrive.
use crate::engine::*;
use crate::fx::*;
use bip324::Role;
use std::io::{ErrorKind, Read};

type Step = Out<(bool, Vec<u8>)>;
/// Outcome of a whole connection: handshake result, then reads until one is not a packet.
#[derive(Debug, PartialEq, Clone)]
struct Outcome {
    hs: Out<()>,
    sent: Vec<u8>,
    reads: Vec<Step>,
}
fn run(cx: &Cx, drv: Drv, net: &Net, role: Role, max_reads: usize) -> Outcome {
    cx.seed_fill(5);
    let r = connect(cx, drv, net, MAGIC, role, Some(vec![3; 5]), Some(vec![vec![4; 6]]));
    let sent = net.l().out.clone();
    match r {
        Out::Ok(mut c) => {
            let mut reads = vec![];
            for _ in 0..max_reads {
                let x = c.read(cx, net);
                let stop = !matches!(x, Out::Ok(_));
                reads.push(x);
                if stop {
                    break;
                }
            }
            Outcome { hs: Out::Ok(()), sent, reads }
        }
        Out::Io(k, s) => Outcome { hs: Out::Io(k, s), sent, reads: vec![] },
        Out::Lib(e) => Outcome { hs: Out::Lib(e), sent, reads: vec![] },
        Out::Wait => Outcome { hs: Out::Wait, sent, reads: vec![] },
    }
}
pub fn script(role: Role, g: usize) -> Peer {
    let mut p = Peer::new(role);
    p.garbage = contents(4, g);
    p.hs = vec![(128, vec![5; 3]), (0, vec![])];
    p.session = vec![(0, contents(6, 11)), (128, vec![]), (0, contents(7, 40)), (0, vec![])];
    p
}
fn expect(p: &Peer) -> Vec<Step> {
    p.session.iter().map(|(h, c)| Out::Ok((h & 0x80 != 0, c.clone()))).collect()
}
/// The connection delivers exactly what the peer sent, then reports the end of the stream.
fn verify(cx: &Cx, p: &Peer, net: &Net, what: &dyn Fn() -> String) {
    net.l().end = End::Eof;
    let o = run(cx, Drv::Sync, net, p.local, p.session.len() + 1);
    cx.check(o.hs == Out::Ok(()), || format!("{}: handshake gives {:?}", what(), o.hs));
    let mut w = expect(p);
    let last = o.reads.last().cloned();
    cx.check(matches!(last, Some(Out::Io(ErrorKind::UnexpectedEof, _))), || format!("{}: after the last packet: {}", what(), short(&last)));
    w.push(last.unwrap());
    if o.reads != w {
        let k = o.reads.iter().zip(&w).position(|(a, b)| a != b).unwrap_or(o.reads.len().min(w.len()));
        cx.fail(format!("{}: read {k} gives {}", what(), short(&o.reads.get(k))));
    }
    let (g, d, rest, _) = check_sent(cx, net);
    cx.check(g == vec![3; 5] && d == vec![vec![4; 6]] && rest.is_empty(), || "what was sent depends on arrival".into());
}
fn total(p: &Peer) -> usize {
    64 + p.garbage.len() + 16 + p.hs.iter().chain(&p.session).map(|x| 20 + x.1.len()).sum::<usize>()
}
/// One cut, with up to two interruptions there.
fn single(cx: &Cx, t: Tier) {
    let role = cx.pick("role", &ROLES);
    let p = script(role, cx.pick("garbage", &t.q(vec![0usize, 9, 250], vec![0, 1, 9, 15, 16, 239, 240, 241, 250, 500, 4095])));
    let at = cx.choose("cut", total(&p));
    let k = cx.choose("interruptions", 4);
    let net = Net::new(cx, Some(p.clone()));
    {
        let mut g = net.l();
        g.rd_cuts = vec![at];
        g.rd_ev = vec![(at, Ev::Intr); k];
        if k == 3 {
            g.rd_max = 1;
        }
    }
    cx.case(&(at, k, p.garbage.len()));
    verify(cx, &p, &net, &|| format!("cut at {at}, {k} interruptions"));
}
/// Many interruptions at one place.
fn storms(cx: &Cx, t: Tier) {
    let role = cx.pick("role", &ROLES);
    let p = script(role, cx.pick("garbage", &[9usize, 250]));
    let k = cx.pick("interruptions", &t.q(vec![10usize, 17, 33, 65, 100, 129, 257, 1001, 5000], vec![10, 17, 33, 65, 100, 129, 257, 1001, 5000, 20_000, 70_000]));
    let step = if k > 300 { t.q(11, 3) } else { 1 };
    let at = step * cx.choose("cut", total(&p) / step);
    let net = Net::new(cx, Some(p.clone()));
    {
        let mut g = net.l();
        g.rd_cuts = vec![at];
        g.rd_ev = vec![(at, Ev::Intr); k];
    }
    cx.case(&(at, k));
    verify(cx, &p, &net, &|| format!("{k} interruptions at {at}"));
}
fn pairs(cx: &Cx, t: Tier) {
    let role = cx.pick("role", &ROLES);
    let p = script(role, t.q(2, 260));
    let n = total(&p);
    let a = cx.choose("first cut", n);
    for b in a..n {
        if t == Tier::Quick && (b - a) % 2 == 1 && b - a > 24 {
            continue;
        }
        let intr = (a + b) % 3 == 0;
        let net = Net::new(cx, Some(p.clone()));
        net.l().rd_cuts = vec![a, b];
        if intr {
            net.l().rd_ev = vec![(a, Ev::Intr), (b, Ev::Intr)];
        }
        cx.case(&(a, b));
        verify(cx, &p, &net, &|| format!("cuts at {a} and {b}, interrupted {intr}"));
    }
}
fn sizes(cx: &Cx, t: Tier) {
    let role = cx.pick("role", &ROLES);
    let max = 1 + cx.choose("bytes per read", t.q(300, 600));
    let g = cx.pick("garbage", &t.q(vec![0usize, 5, 300, 4095], vec![0, 5, 300, 1000, 4080, 4095]));
    let intr = cx.choose("interrupted", 3);
    let p = script(role, g);
    let net = Net::new(cx, Some(p.clone()));
    {
        let mut n = net.l();
        n.rd_max = max;
        match intr {
            0 => {}
            1 => n.rd_ev = (0..total(&p)).step_by(max).map(|k| (k, Ev::Intr)).collect(),
            _ => n.rd_ev = (0..total(&p)).step_by(13).map(|k| (k, Ev::Intr)).collect(),
        }
    }
    cx.case(&(max, g, intr));
    verify(cx, &p, &net, &|| format!("{max} bytes per read, garbage {g}, interruptions {intr}"));
}
/// Every garbage length with the whole stream glued together (over-read of every amount).
fn glued(cx: &Cx, t: Tier) {
    let g = cx.choose("garbage", 4096);
    let max = cx.pick("bytes per read", &t.q(vec![usize::MAX], vec![usize::MAX, 256, 1000, 97]));
    let big = cx.flag("large packets");
    if t == Tier::Quick && g % 3 != 0 && g > 530 {
        cx.skip()
    }
    let mut p = script(Role::Initiator, g);
    if big {
        p.hs.insert(0, (0x80, contents(3, 700)));
        p.session.push((0, contents(9, 3000)));
    }
    let net = Net::new(cx, Some(p.clone()));
    net.l().rd_max = max;
    cx.case(&(g, max, big));
    verify(cx, &p, &net, &|| format!("garbage {g}, all bytes available at once"));
}
/// Every environment answer (1 byte, half, all but one, interrupted) at every read, up to the
/// deviation bound.
fn env(cx: &Cx, n: usize) {
    let role = cx.pick("role", &ROLES);
    let p = script(role, n);
    let net = Net::new(cx, Some(p.clone()));
    net.l().rd_env = vec![Alt::One, Alt::Half, Alt::ButOne, Alt::Do(Ev::Intr)];
    verify(cx, &p, &net, &|| "varied reads".into());
    cx.state(&net.l().rd_ops);
}
/// Streams that do not end in a complete session: same outcome however they are split.
fn bad(cx: &Cx, t: Tier) {
    let role = cx.pick("role", &ROLES);
    let g = cx.pick("garbage", &[0usize, 3, 270]);
    let p = script(role, g);
    let n = total(&p);
    let kind = cx.choose("kind", 5);
    let at = match kind {
        0 | 1 => cx.choose("position", if t == Tier::Quick { n.min(260) } else { n }),
        _ => cx.choose("position", 4),
    };
    let mk = || {
        let net = Net::new(cx, Some(p.clone()));
        net.l().end = End::Eof;
        let edit: Box<dyn Fn(&mut Vec<u8>) + Send> = match kind {
            0 => Box::new(move |v| v.truncate(at)),
            1 => Box::new(move |v| v[at] ^= 0x20),
            2 => Box::new(move |v| v[..4].copy_from_slice(&MAGIC)),
            3 => Box::new(move |v| {
                v.truncate(64);
                v.extend(vec![0x42; 4096 + 64 * at])
            }),
            _ => Box::new(move |v| {
                let n = v.len();
                v.truncate(n - 20);
                v.extend(vec![7u8; at * 20 + 1])
            }),
        };
        net.l().tamper = Some(edit);
        net
    };
    let base = run(cx, Drv::Sync, &mk(), role, 9);
    for split in 0..7 {
        let net = mk();
        {
            let mut x = net.l();
            match split {
                0 => x.rd_max = 1,
                1 => x.rd_max = 2,
                2 => x.rd_max = 17,
                3 => x.rd_max = 256,
                4 => x.rd_cuts = vec![64, 64 + g, 64 + g + 16, 64 + g + 19],
                5 => x.rd_ev = (0..n + 5000).map(|k| (k, Ev::Intr)).step_by(3).collect(),
                _ => { x.rd_max = 1; x.rd_ev = (0..n + 100).map(|k| (k, Ev::Intr)).collect() }
            }
        }
        cx.case(&(kind, at, split, g));
        let o = run(cx, Drv::Sync, &net, role, 9);
        if o != base {
            cx.fail(format!("stream altered by {kind} at {at}: split {split} gives {}/{} and unsplit {}/{}", short(&o.hs), short(&o.reads), short(&base.hs), short(&base.reads)));
        }
    }
    cx.outcome(match base.hs { Out::Ok(_) => "complete", Out::Lib(_) => "error", Out::Io(..) => "io", Out::Wait => "wait" });
}
/// The reader taken apart after k packets: cipher and stream continue exactly there.
fn apart(cx: &Cx, t: Tier) {
    let role = cx.pick("role", &ROLES);
    let g = cx.pick("garbage", &[0usize, 3, 200, 251, 300]);
    let k = cx.choose("packets read before", 5);
    let max = cx.pick("bytes per read", &t.q(vec![usize::MAX, 1, 33], vec![usize::MAX, 1, 2, 33, 256]));
    let ask = cx.pick("bytes asked", &[1usize, 2, 7, 64, 4096]);
    let p = script(role, g);
    let net = Net::new(cx, Some(p.clone()));
    net.l().rd_max = max;
    net.l().end = End::Eof;
    let direct = k == 0 && cx.flag("handshake function");
    let (mut c, mut rd) = if direct {
        match bip324::io::handshake(MAGIC, role, None, None, net.clone(), &mut net.clone()) {
            Ok((i, _o, r)) => (i, r),
            Err(e) => cx.fail(format!("handshake: {e:?}")),
        }
    } else {
        let Out::Ok(Conn::S(pr)) = connect(cx, Drv::Sync, &net, MAGIC, role, None, None) else { cx.fail("handshake") };
        let (mut r, _w) = pr.into_split();
        for j in 0..k.min(p.session.len()) {
            match r.read() {
                Ok(x) => cx.check(x.contents() == p.session[j].1, || format!("packet {j}")),
                Err(e) => cx.fail(format!("packet {j}: {e:?}")),
            }
        }
        r.into_inner()
    };
    let k = k.min(p.session.len());
    let mut bytes = vec![];
    let mut buf = vec![0u8; ask];
    loop {
        match rd.read(&mut buf) {
            Ok(0) => break,
            Ok(n) => bytes.extend_from_slice(&buf[..n]),
            Err(e) => cx.fail(format!("reading the rest: {e:?}")),
        }
        cx.op();
    }
    let want: usize = p.session[k..].iter().map(|x| 20 + x.1.len()).sum();
    cx.check(bytes.len() == want, || format!("{} bytes left for the session, want {want}", bytes.len()));
    let mut at = 0;
    for (h, w) in &p.session[k..] {
        let l = c.decrypt_packet_len(bytes[at..at + 3].try_into().unwrap());
        cx.check(l == 17 + w.len(), || "length of the next packet".into());
        let o = open(Api::Decrypt, &mut c, &bytes[at + 3..at + 3 + l], None);
        cx.check(matches!(&o.res, Ok((t, b)) if *t == ty(h & 0x80 != 0) && b[1..] == w[..]), || "packet after taking the reader apart".into());
        at += 3 + l;
    }
    cx.state(&(g, k, max, ask));
}
/// Many packets over key changes, sizes around buffer boundaries.
fn long(cx: &Cx, t: Tier) {
    let max = cx.pick("bytes per read", &t.q(vec![usize::MAX, 1, 61], vec![usize::MAX, 1, 2, 3, 61, 255, 256, 257]));
    let intr = cx.flag("interrupted");
    let mut p = script(Role::Responder, 30);
    p.session = (0..t.q(700u64, 3000)).map(|k| (if k % 5 == 0 { 128 } else { 0 }, contents(k, (k * 37 % 600) as usize))).collect();
    let net = Net::new(cx, Some(p.clone()));
    net.l().rd_max = max;
    net.l().ops = 0;
    if intr {
        net.l().rd_ev = (0..2000).map(|k| (k * 101, Ev::Intr)).collect();
    }
    net.l().end = End::Eof;
    let Out::Ok(mut c) = connect(cx, Drv::Sync, &net, MAGIC, Role::Responder, None, None) else { cx.fail("handshake") };
    for (k, w) in expect(&p).into_iter().enumerate() {
        net.l().ops = 0;
        let x = c.read(cx, &net);
        cx.check(x == w, || format!("packet {k}: {}", short(&x)));
        cx.case(&(k, max));
    }
}
/// Packets with large contents, in the session and in the handshake, arriving in pieces.
fn large(cx: &Cx, t: Tier) {
    let role = cx.pick("role", &ROLES);
    let n = cx.pick("contents", &around(t.q(vec![8, 10, 12, 14, 15, 16, 17, 18, 20], (6..22).collect()), MAX_CONTENTS));
    let max = cx.pick("bytes per read", &[usize::MAX, 40_000, 1021]);
    let intr = cx.choose("interruptions", 3);
    let mut p = script(role, 5);
    p.hs = vec![(128, contents(3, n / 2)), (0, vec![])];
    p.session = vec![(0, vec![1]), (0, contents(1, n)), (128, contents(2, n / 2)), (0, vec![3; 3])];
    let net = Net::new(cx, Some(p.clone()));
    {
        let mut g = net.l();
        g.rd_max = max;
        let at = total(&p) - 23 - 20 - n / 2 - 20 - n;
        let end = at + 20 + n;
        let cuts = vec![at, at + 2, at + 3, at + 4, at + 3 + n / 3, at + 3 + n / 2, end - 16, end - 1, end, end + 3];
        g.rd_ev = cuts.iter().flat_map(|x| vec![(*x, Ev::Intr); intr]).collect();
        if intr > 0 {
            g.rd_cuts = cuts;
        }
    }
    cx.case(&(n, max, intr));
    verify(cx, &p, &net, &|| format!("a packet with {n} bytes of contents, {max} bytes per read, {intr} interruptions"));
}
/// Every contents length, one after another.
fn every(cx: &Cx, t: Tier) {
    let n = cx.choose("contents", t.q(1536, 8192)) * 16;
    let max = cx.pick("bytes per read", &[usize::MAX, 777]);
    let mut p = script(Role::Initiator, 5);
    p.session = (n..n + 16).map(|k| (if k % 3 == 0 { 128 } else { 0 }, contents(k as u64, k))).collect();
    let net = Net::new(cx, Some(p.clone()));
    net.l().rd_max = max;
    cx.case(&(n, max));
    verify(cx, &p, &net, &|| format!("contents of {n} and more bytes, {max} bytes per read"));
}
pub fn check(t: Tier) -> Check {
    let mut c = Check::new("C12", "model_checking",
        "the real blocking driver on a scripted transport: every single cut, every pair of cuts, every fixed read size, every garbage length with glued session data, every choice of short/interrupted reads at every read call up to the deviation bound; also for malformed and truncated streams (compared with the unsplit outcome) and for readers taken apart at every packet");
    c.add("one cut", 0, move |cx| single(cx, t));
    c.add("many interruptions at one place", 0, move |cx| storms(cx, t));
    c.add("pairs of cuts", 0, move |cx| pairs(cx, t));
    c.add("fixed read sizes", 0, move |cx| sizes(cx, t));
    c.add("garbage lengths, glued", 0, move |cx| glued(cx, t));
    let d = t.q(3, 4);
    c.add(format!("varied reads, {d} deviations"), d, |cx| env(cx, 9));
    c.add(format!("varied reads, long garbage, {} deviations", t.q(2, 3)), t.q(2, 3), |cx| env(cx, 600));
    c.add("malformed streams", 0, move |cx| bad(cx, t));
    c.add("reader taken apart", 0, move |cx| apart(cx, t));
    c.add("large packets", 0, move |cx| large(cx, t));
    c.add("every contents length", 0, move |cx| every(cx, t));
    c.add("long sessions", 0, move |cx| long(cx, t));
    c
}
