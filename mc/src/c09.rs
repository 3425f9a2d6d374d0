//! Two honest peers always complete the handshake and agree.
use crate::engine::*;
use crate::fx::*;
use bip324::{CipherSession, GarbageResult, Handshake, Initialized, ReceivedGarbage, ReceivedKey, Role, SentKey, SentVersion, VersionResult};
use std::io::{Read, Write};
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};

/// The two completed sessions agree and understand each other in both directions.
pub fn agree(cx: &Cx, a: &mut CipherSession, b: &mut CipherSession) {
    cx.check(a.id() == b.id(), || "session ids differ".into());
    for k in 0..3u64 {
        for (s, r) in [(0, 1), (1, 0)] {
            let _ = r;
            let (s, r): (&mut CipherSession, &mut CipherSession) = if s == 0 { (&mut *a, &mut *b) } else { (&mut *b, &mut *a) };
            let c = contents(k, (k * 11) as usize);
            let p = seal(EApi::Buf, s.outbound(), &c, ty(k == 1), None).unwrap_or_else(|e| cx.fail(format!("encrypt: {e:?}")));
            let l = r.inbound().decrypt_packet_len(p[..3].try_into().unwrap());
            cx.check(l == p.len() - 3, || format!("packet {k}: length {l}, want {}", p.len() - 3));
            let o = open(Api::Decrypt, r.inbound(), &p[3..], None);
            cx.check(matches!(&o.res, Ok((t, x)) if *t == ty(k == 1) && x[1..] == c[..]), || format!("packet {k} is not understood by the peer"));
        }
    }
}
fn finish(cx: &Cx, h: Hs, used: usize, nd: usize, who: &str) -> CipherSession {
    match h {
        Hs::Done { used: u, cipher, decoys } => {
            cx.check(u == used, || format!("{who}: handshake used {u} bytes instead of {used}"));
            cx.check(decoys == nd, || format!("{who}: {decoys} decoys seen, {nd} sent"));
            cipher
        }
        Hs::Need => cx.fail(format!("{who}: wants bytes beyond the peer's handshake")),
        Hs::Err(e) => cx.fail(format!("{who}: handshake fails: {e:?}")),
    }
}
/// The plain exchange: everything one side sends is given to the other.
fn exchange(cx: &Cx, magic: [u8; 4], g: [Option<Vec<u8>>; 2], d: [Option<Vec<Vec<u8>>>; 2], sks: [u64; 2], trailing: usize) {
    let mut key = vec![];
    for (k, r) in ROLES.iter().enumerate() {
        let mut b = vec![0u8; 64];
        start(cx, magic, *r, secret(sks[k])).send_key(None, &mut b).unwrap_or_else(|e| cx.fail(format!("{e:?}")));
        key.push(<[u8; 64]>::try_from(b).unwrap());
    }
    let mut s = vec![];
    for (k, r) in ROLES.iter().enumerate() {
        match try_sent(cx, magic, *r, secret(sks[k]), g[k].as_deref(), d[k].as_deref(), &key[1 - k]) {
            Ok(x) => s.push(x),
            Err(e) => cx.fail(format!("{r:?}: {e}")),
        }
    }
    let flight: Vec<Vec<u8>> = s.iter().map(|x| [&x.key[64..], &x.version[..]].concat()).collect();
    let mut out = vec![];
    for (k, x) in s.into_iter().enumerate() {
        let mut f = flight[1 - k].clone();
        let n = f.len();
        f.extend(contents(3, trailing));
        out.push(finish(cx, receive(cx, x.hs, &f), n, d[1 - k].as_ref().map_or(0, |v| v.len()), if k == 0 { "initiator" } else { "responder" }));
    }
    let (x, y) = out.split_at_mut(1);
    agree(cx, &mut x[0], &mut y[0]);
}
fn garbage(tag: u64, n: usize) -> Option<Vec<u8>> {
    Some(contents(tag, n))
}
/// Every garbage length on each side.
fn lengths(cx: &Cx, t: Tier) {
    let n = cx.choose("garbage length", 4096);
    let side = cx.choose("side", 2);
    let m = cx.pick("other garbage", &t.q(vec![0usize, 4095], vec![0, 1, 15, 16, 17, 2000, 4094, 4095]));
    let dec = cx.choose("decoys", 3);
    let fill = cx.choose("garbage bytes", t.q(1, 3));
    let mk = |n: usize| match fill { 0 => garbage(1, n), 1 => Some(vec![0; n]), _ => Some(vec![0xff; n]) };
    let mut g = [mk(n), garbage(2, m)];
    if side == 1 { g.swap(0, 1) }
    let d = match dec { 0 => [None, None], 1 => [Some(vec![vec![1; 5]]), None], _ => [None, Some(vec![vec![], vec![2; 100]])] };
    exchange(cx, MAGIC, g, d, [11, 12], if n % 2 == 0 { 0 } else { 50 });
    cx.state(&(n, m, side, dec));
}
fn decoys(cx: &Cx, t: Tier) {
    let sz = t.q(vec![0usize, 1, 3, 1000], vec![0, 1, 2, 3, 16, 255, 1000, 70_000]);
    let mut d: [Option<Vec<Vec<u8>>>; 2] = [None, None];
    for s in 0..2 {
        let n = cx.choose("number of decoys", t.q(4, 5));
        if n > 0 {
            d[s] = Some((0..n - 1).map(|k| contents(k as u64, cx.pick("size", &sz))).collect());
        }
    }
    let g = cx.pick("garbage", &[None, Some(vec![]), garbage(1, 33)]);
    exchange(cx, MAGIC, [g.clone(), None], d, [13, 14], 20);
    cx.state(&1);
}
/// Many decoys (over key changes) and the largest ones.
fn large(cx: &Cx, t: Tier) {
    let side = cx.choose("side", 2);
    let k = cx.choose("shape", t.q(6, 9));
    let v: Vec<Vec<u8>> = match k {
        0 => (0..223).map(|i| contents(i, i as usize % 5)).collect(),
        1 => (0..224).map(|_| vec![]).collect(),
        2 => (0..225).map(|_| vec![9; 3]).collect(),
        3 => (0..900).map(|i| contents(i, i as usize % 60)).collect(),
        4 => vec![vec![7; 3_999_997]],
        5 => vec![vec![7; 1_000_000], vec![], vec![1; 3_999_997]],
        6 => (0..5000).map(|i| contents(i, i as usize % 30)).collect(),
        7 => (0..700).map(|_| vec![3; 5000]).collect(),
        _ => (0..6).map(|_| vec![3; 3_999_997]).collect(),
    };
    let mut d = [Some(v), Some(vec![vec![1; 10]])];
    if side == 1 { d.swap(0, 1) }
    exchange(cx, MAGIC, [garbage(1, 100), None], d, [15, 16], 0);
    cx.state(&(side, k));
}
fn magics(cx: &Cx) {
    let i = cx.choose("magic byte", 4);
    let v = cx.choose("value", 256) as u8;
    let mut m = MAGIC;
    m[i] = v;
    let sk = cx.choose("secrets", 4) as u64;
    exchange(cx, m, [garbage(1, 7), None], [None, Some(vec![vec![1]])], [20 + sk, 30 + sk], 3);
    cx.state(&(i, v, sk));
}
fn secrets(cx: &Cx, t: Tier) {
    let n = t.q(60, 600);
    let (a, b) = (cx.choose("initiator secret", n) as u64, cx.choose("responder secret", n) as u64);
    exchange(cx, MAGIC, [garbage(a, 5), garbage(b, 9)], [None, None], [1000 + a, 3000 + b], 0);
    cx.state(&(a, b));
}

/// One sans-I/O peer advanced a step at a time.
enum St<'a> {
    Ini(Handshake<Initialized>),
    Key(Handshake<SentKey<'a>>),
    Got(Handshake<ReceivedKey<'a>>),
    Ver(Handshake<SentVersion>),
    Gar(Handshake<ReceivedGarbage<'a>>, usize),
    Done(CipherSession, usize),
    Void,
}
/// Every order in which the two peers' steps can interleave, with the bytes of each step arriving
/// in up to three portions.
fn interleave(cx: &Cx, chunks: usize) {
    let g = [contents(1, 3), contents(2, 20)];
    let dec: [Vec<Vec<u8>>; 2] = [vec![vec![1; 4]], vec![]];
    let bufs: [Vec<u8>; 2] = {
        // fixed inputs to borrow from: what each will have sent at the end
        let mut key = vec![];
        for k in 0..2 {
            let mut b = vec![0u8; 64];
            start(cx, MAGIC, ROLES[k], secret(50 + k as u64)).send_key(None, &mut b).unwrap_or_else(|e| cx.fail(format!("{e:?}")));
            key.push(<[u8; 64]>::try_from(b).unwrap());
        }
        let f = |k: usize| {
            let s = sent(cx, MAGIC, ROLES[k], secret(50 + k as u64), &g[k], &dec[k], &key[1 - k]);
            [s.key, s.version].concat()
        };
        [f(0), f(1)]
    };
    let mut st = [St::Void, St::Void];
    for k in 0..2 {
        st[k] = St::Ini(start(cx, MAGIC, ROLES[k], secret(50 + k as u64)));
    }
    let mut outn = [0usize; 2]; // bytes sent so far
    let mut seen = [0usize; 2]; // bytes of the peer visible so far
    let mut tried = [usize::MAX; 2];
    for _ in 0..100 {
        if matches!(st[0], St::Done(..)) && matches!(st[1], St::Done(..)) {
            break;
        }
        // enabled moves: (peer, 0 = step, 1.. = portion of bytes arriving)
        let mut mv = vec![];
        for k in 0..2 {
            let inb = &bufs[1 - k][..seen[k]];
            let can = match &st[k] {
                St::Ini(_) | St::Got(_) => true,
                St::Key(_) => inb.len() >= 64,
                St::Ver(_) => inb.len() >= 64 && tried[k] != inb.len(),
                St::Gar(_, at) => tried[k] != inb.len() && inb.len() >= at + 3,
                _ => false,
            };
            if can {
                mv.push((k, 0));
            }
            let left = outn[1 - k] - seen[k];
            for c in 1..=chunks {
                if left > 0 && (c == 1 || left / c > 0) {
                    mv.push((k, c));
                }
            }
        }
        cx.check(!mv.is_empty(), || "both peers wait although everything sent has arrived".into());
        let (k, m) = mv[cx.choose("move", mv.len())];
        if m > 0 {
            let left = outn[1 - k] - seen[k];
            seen[k] += (left / m).max(1);
            continue;
        }
        cx.op();
        let inb: &[u8] = &bufs[1 - k][..seen[k]];
        let mut out = vec![];
        st[k] = match std::mem::replace(&mut st[k], St::Void) {
            St::Ini(h) => {
                out = vec![0; 64 + g[k].len()];
                St::Key(h.send_key(Some(&g[k]), &mut out).unwrap_or_else(|e| cx.fail(format!("send_key: {e:?}"))))
            }
            St::Key(h) => St::Got(h.receive_key(inb[..64].try_into().unwrap()).unwrap_or_else(|e| cx.fail(format!("receive_key: {e:?}")))),
            St::Got(h) => {
                let v: Vec<&[u8]> = dec[k].iter().map(|x| &x[..]).collect();
                out = vec![0; Handshake::<ReceivedKey>::send_version_len(Some(&v))];
                St::Ver(h.send_version(&mut out, Some(&v)).unwrap_or_else(|e| cx.fail(format!("send_version: {e:?}"))))
            }
            St::Ver(h) => {
                tried[k] = inb.len();
                match h.receive_garbage(&inb[64..]) {
                    Ok(GarbageResult::FoundGarbage { handshake, consumed_bytes }) => {
                        tried[k] = usize::MAX;
                        St::Gar(handshake, 64 + consumed_bytes)
                    }
                    Ok(GarbageResult::NeedMoreData(h)) => St::Ver(h),
                    Err(e) => cx.fail(format!("receive_garbage: {e:?}")),
                }
            }
            St::Gar(h, at) => {
                // the length may be decrypted only once; look whether the whole packet is there
                // from the known stream instead
                let need = if k == 1 && at == 64 + g[0].len() + 16 { 24 } else { 20 };
                if inb.len() < at + need {
                    tried[k] = inb.len();
                    St::Gar(h, at)
                } else {
                    let mut h = h;
                    let l = h.decrypt_packet_len(inb[at..at + 3].try_into().unwrap()).unwrap_or_else(|e| cx.fail(format!("{e:?}")));
                    cx.check(3 + l == need, || format!("packet of {l} bytes announced, {} sent", need - 3));
                    let mut p = inb[at + 3..at + 3 + l].to_vec();
                    match h.receive_version(&mut p) {
                        Ok(VersionResult::Complete { cipher }) => St::Done(cipher, at + 3 + l),
                        Ok(VersionResult::Decoy(h)) => St::Gar(h, at + 3 + l),
                        Err(e) => cx.fail(format!("receive_version: {e:?}")),
                    }
                }
            }
            x => x,
        };
        if !out.is_empty() {
            cx.check(bufs[k][outn[k]..].starts_with(&out), || "bytes sent depend on the order of steps".into());
            outn[k] += out.len();
        }
    }
    let [mut a, mut b] = st;
    match (&mut a, &mut b) {
        (St::Done(x, ux), St::Done(y, uy)) => {
            cx.check(*ux == bufs[1].len() && *uy == bufs[0].len(), || "bytes left over".into());
            agree(cx, x, y);
        }
        _ => cx.fail("handshake does not complete"),
    }
    cx.state(&outn);
}

/// A driver against an honest independent peer that sends exactly its handshake and nothing more.
fn exact(cx: &Cx, t: Tier) {
    let drv = cx.pick("driver", &DRVS);
    let role = cx.pick("role", &ROLES);
    let n = cx.choose("garbage length", 4096);
    if t == Tier::Quick && n % 5 != 0 && n % 256 > 20 && n < 4070 {
        cx.skip()
    }
    let mut p = Peer::new(role);
    p.garbage = contents(5, n);
    let nd = cx.choose("decoys", 3);
    p.hs = (0..nd).map(|k| (128, contents(k as u64, k * 300))).chain([(0, vec![])]).collect();
    let mut after: Vec<u8> = vec![];
    if cx.flag("session data follows") {
        p.session = vec![(0, contents(7, 500)), (128, vec![]), (0, vec![1])];
        after.push(1);
    }
    let net = Net::new(cx, Some(p.clone()));
    let mut c = match connect(cx, drv, &net, MAGIC, role, None, None) {
        Out::Ok(c) => c,
        Out::Wait => cx.fail("the driver waits for bytes beyond the peer's handshake"),
        Out::Io(k, _) => cx.fail(format!("{k:?}")),
        Out::Lib(e) => cx.fail(format!("{e:?}")),
    };
    check_sent(cx, &net);
    for (h, w) in &p.session {
        let x = c.read(cx, &net);
        cx.check(x == Out::Ok((h & 0x80 != 0, w.clone())), || format!("session packet after the handshake: {}", short(&x)));
    }
    let x = c.read(cx, &net);
    cx.check(x == Out::Wait, || format!("nothing more was sent, yet read gives {}", short(&x)));
    cx.state(&(n, nd, after.len()));
}

/// A driver against a peer with many or large decoys, and with such decoys of its own: the limits
/// concern single packets, so a handshake may be as long as the peers like.
fn heavy(cx: &Cx, t: Tier) {
    let drv = cx.pick("driver", &DRVS);
    let role = cx.pick("role", &ROLES);
    let mix = |n: usize, f: &dyn Fn(usize) -> usize| (0..n).map(|k| contents(k as u64, f(k))).collect::<Vec<_>>();
    let k = cx.choose("decoys", t.q(8, 10));
    let v = match k {
        0 => mix(3, &|_| 1_500_000),
        1 => mix(60, &|_| 100_000),
        2 => mix(2, &|_| 3_999_997),
        3 => mix(1, &|_| 4_000_000 - 3),
        4 => mix(300, &|i| i % 4),
        5 => mix(900, &|i| i % 60),
        6 => mix(4500, &|_| 1000),
        7 => mix(9, &|i| 1 << (2 * i + 4)),
        8 => mix(5000, &|i| i % 30),
        _ => mix(8, &|_| 3_999_997),
    };
    let own = cx.flag("they are the driver's own");
    let mut p = Peer::new(role);
    p.garbage = contents(5, 4095);
    let nd = v.len();
    if !own {
        p.hs = v.iter().map(|x| (128, x.clone())).chain([(0, vec![])]).collect();
    }
    p.session = vec![(0, contents(7, 500)), (128, vec![]), (0, vec![1])];
    let net = Net::new(cx, Some(p.clone()));
    let mut c = match connect(cx, drv, &net, MAGIC, role, garbage(6, 4095), own.then_some(v)) {
        Out::Ok(c) => c,
        Out::Wait => cx.fail("the driver waits for bytes beyond the peer's handshake"),
        Out::Io(k, _) => cx.fail(format!("honest peer, {nd} decoys: {k:?}")),
        Out::Lib(e) => cx.fail(format!("honest peer, {nd} decoys: {e:?}")),
    };
    check_sent(cx, &net);
    for (h, w) in &p.session {
        let x = c.read(cx, &net);
        cx.check(x == Out::Ok((h & 0x80 != 0, w.clone())), || format!("session packet after the handshake: {}", short(&x)));
    }
    cx.state(&(k, own));
}

// ---------------------------------------------------------------- two real drivers
/// One direction of a connection between two drivers.
#[derive(Clone)]
struct Pipe(Arc<Mutex<(Vec<u8>, usize)>>, usize);
fn pipe(max: usize) -> Pipe {
    Pipe(Arc::new(Mutex::new((vec![], 0))), max)
}
impl Pipe {
    fn take(&self, n: usize) -> Vec<u8> {
        let mut g = lockm(&self.0);
        let k = n.min(g.0.len() - g.1).min(self.1);
        let v = g.0[g.1..g.1 + k].to_vec();
        g.1 += k;
        v
    }
    fn id(&self) -> usize {
        Arc::as_ptr(&self.0) as usize
    }
}
impl AsyncRead for Pipe {
    fn poll_read(self: Pin<&mut Self>, _: &mut Context<'_>, b: &mut ReadBuf<'_>) -> Poll<std::io::Result<()>> {
        let v = self.take(b.remaining());
        if v.is_empty() {
            return Poll::Pending; // the test polls both sides itself
        }
        b.put_slice(&v);
        Poll::Ready(Ok(()))
    }
}
impl AsyncWrite for Pipe {
    fn poll_write(self: Pin<&mut Self>, _: &mut Context<'_>, b: &[u8]) -> Poll<std::io::Result<usize>> {
        lockm(&self.0).0.extend_from_slice(b);
        Poll::Ready(Ok(b.len()))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}
fn shapes() -> Vec<(usize, usize, usize, usize)> {
    vec![(0, 0, 0, 0), (1, 300, 1, 0), (4095, 4095, 3, 2), (255, 257, 0, 4), (16, 4095, 2, 1)]
}
fn dec(n: usize) -> Option<Vec<Vec<u8>>> {
    (n > 0).then(|| (0..n).map(|k| contents(k as u64, k * 171)).collect())
}
/// Both ends asynchronous, on one thread, polled in every order.
fn two_async(cx: &Cx) {
    use bip324::futures::Protocol;
    let (ga, gb, da, db) = cx.pick("shape", &shapes());
    let max = cx.pick("bytes per read", &[usize::MAX, 1, 7, 300]);
    let (ab, ba) = (pipe(max), pipe(max));
    let mut fa = Box::pin(Protocol::new(MAGIC, Role::Initiator, garbage(1, ga), dec(da), ba.clone(), ab.clone()));
    let mut fb = Box::pin(Protocol::new(MAGIC, Role::Responder, garbage(2, gb), dec(db), ab.clone(), ba.clone()));
    let mut c = Context::from_waker(std::task::Waker::noop());
    let (mut a, mut b) = (None, None);
    use std::future::Future;
    for k in 0..100 {
        let first = if k < 8 { cx.choose("who is polled", 2) } else { k % 2 };
        if first == 0 && a.is_none() {
            if let Poll::Ready(r) = fa.as_mut().poll(&mut c) {
                a = Some(r.unwrap_or_else(|e| cx.fail(format!("initiator: {e:?}"))));
            }
        } else if b.is_none() {
            if let Poll::Ready(r) = fb.as_mut().poll(&mut c) {
                b = Some(r.unwrap_or_else(|e| cx.fail(format!("responder: {e:?}"))));
            }
        }
        cx.op();
        if a.is_some() && b.is_some() {
            break;
        }
    }
    let (Some(mut a), Some(mut b)) = (a, b) else { cx.fail("two honest asynchronous peers do not complete") };
    for k in 0..4 {
        let c = contents(k, 30 * k as usize);
        for d in [true, false] {
            let pl = payload(k == 2, &c);
            let (s, r) = if d { (&mut a, &mut b) } else { (&mut b, &mut a) };
            let w = block(cx, s.write(&pl));
            cx.check(matches!(w, Some(Ok(()))), || "write".into());
            match block(cx, r.read()) {
                Some(Ok(p)) => cx.check(p.contents() == c, || "contents differ".into()),
                x => cx.fail(format!("read: {}", x.is_some())),
            }
        }
    }
    cx.state(&(ga, gb, da, db));
}
/// The blocking end of a pipe, under the thread scheduler.
struct BPipe(Pipe);
impl Read for BPipe {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        loop {
            let v = self.0.take(b.len());
            if !v.is_empty() {
                b[..v.len()].copy_from_slice(&v);
                return Ok(v.len());
            }
            sched::block(self.0.id());
        }
    }
}
impl Write for BPipe {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        sched::point();
        let n = b.len().min(self.0 .1);
        lockm(&self.0 .0).0.extend_from_slice(&b[..n]);
        sched::wake(self.0.id());
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
/// Both ends blocking, each on its own thread, every interleaving within the preemption bound.
fn two_sync(cx: &Cx) {
    let (ga, gb, da, db) = cx.pick("shape", &shapes());
    let max = cx.pick("bytes per transfer", &[usize::MAX, 300]);
    let r = cx.threads(200_000, move |cx| {
        let (ab, ba) = (pipe(max), pipe(max));
        let (ab2, ba2) = (ab.clone(), ba.clone());
        let c2 = cx.clone();
        let run = move |cx: Cx, role: Role, g: usize, d: usize, r: Pipe, w: Pipe| {
            match bip324::io::Protocol::new(MAGIC, role, garbage(g as u64, g), dec(d), BPipe(r), BPipe(w)) {
                Ok(mut p) => {
                    for k in 0..2u64 {
                        let c = contents(k + is_ini(role) as u64 * 10, 25);
                        if let Err(e) = p.write(&payload(false, &c)) {
                            cx.fail(format!("write: {e:?}"))
                        }
                        let want = contents(k + !is_ini(role) as u64 * 10, 25);
                        match p.read() {
                            Ok(p) => cx.check(p.contents() == want, || "contents differ".into()),
                            Err(e) => cx.fail(format!("read: {e:?}")),
                        }
                    }
                }
                Err(e) => cx.fail(format!("{role:?}: {e:?}")),
            }
        };
        let h = sched::thread::spawn(move || run(c2, Role::Responder, gb, db, ab2, ba2));
        run(cx.clone(), Role::Initiator, ga, da, ba, ab);
        cx.check(h.join().is_ok(), || "responder".into());
    });
    cx.ops(r.steps);
    cx.state(&(ga, gb, da, db));
}
pub fn check(t: Tier) -> Check {
    let mut c = Check::new("C09", "model_checking",
        "two instances of the real code: every garbage length on each side, all small decoy lists, magics and secrets in the listed sets; every interleaving of the two peers' steps and byte arrivals; both drivers against a peer that sends exactly its handshake; two drivers of each kind in all polling orders / thread interleavings within the bound");
    c.add("every garbage length", 0, move |cx| lengths(cx, t));
    c.add("decoy lists", 0, move |cx| decoys(cx, t));
    c.add("many and large decoys", 0, move |cx| large(cx, t));
    c.add("every magic byte", 0, magics);
    c.add("secrets", 0, move |cx| secrets(cx, t));
    c.add("step interleavings", 0, move |cx| interleave(cx, 1));
    if t == Tier::Thorough {
        c.add("step interleavings, split arrivals", 0, move |cx| interleave(cx, 2));
    }
    c.add("drivers need nothing beyond the handshake", 0, move |cx| exact(cx, t));
    c.add("drivers and heavy decoys", 0, move |cx| heavy(cx, t));
    c.add("two asynchronous drivers", 0, two_async);
    c.add("two blocking drivers", t.q(2, 3), two_sync);
    c
}
