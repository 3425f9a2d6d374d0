//! A connection taken apart continues exactly where it stood.
//!
//! Every route through the interfaces (handshake function or connection object, whole, halves, bare
//! ciphers with the session reader and the transport) with packets going both ways in between.
use crate::engine::*;
use crate::fx::*;
use crate::refm::Dir;
use bip324::io::{Payload, ProtocolError};
use bip324::{InboundCipher, OutboundCipher, PacketType, Role};
use std::io::{Read, Write};

type SP = bip324::io::Protocol<Net, Net>;
type AP = bip324::futures::Protocol<Net, Net>;
/// The receiving side of a connection.
enum Rx {
    Gone,
    S(bip324::io::ProtocolReader<Net>),
    A(bip324::futures::ProtocolReader<Net>),
    Si(InboundCipher, bip324::io::ProtocolSessionReader<Net>),
    Ai(InboundCipher, bip324::futures::ProtocolSessionReader<Net>),
}
enum Tx {
    Gone,
    S(bip324::io::ProtocolWriter<Net>),
    A(bip324::futures::ProtocolWriter<Net>),
    I(OutboundCipher, Net),
}
enum End_ {
    S(SP),
    A(AP),
    Apart(Rx, Tx),
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Read,
    Write,
    /// the connection into halves
    Split,
    /// the receiving half into cipher and session reader
    TakeRx,
    TakeTx,
    /// copies of the bare ciphers
    Copy,
}
const OPS: [Op; 6] = [Op::Read, Op::Write, Op::Split, Op::TakeRx, Op::TakeTx, Op::Copy];
type Res = Out<(bool, Vec<u8>)>;
fn of(p: Payload) -> (bool, Vec<u8>) {
    (p.packet_type() == PacketType::Decoy, p.contents().to_vec())
}
/// Fill a buffer through the session reader, asking for `ask` bytes at a time.
fn pull(cx: &Cx, net: &Net, rx: &mut Rx, n: usize, ask: usize) -> Out<Vec<u8>> {
    let mut v = vec![];
    while v.len() < n {
        let mut b = vec![0u8; ask.min(n - v.len())];
        let r = match rx {
            Rx::Si(_, r) => r.read(&mut b),
            Rx::Ai(_, r) => match block(cx, tokio::io::AsyncReadExt::read(r, &mut b)) {
                Some(r) => r,
                None => return Out::Wait,
            },
            _ => unreachable!(),
        };
        match r {
            Ok(0) => return Out::Io(std::io::ErrorKind::UnexpectedEof, false),
            Ok(k) => v.extend_from_slice(&b[..k]),
            Err(_) if net.l().blocked => return Out::Wait,
            Err(e) => return Out::Io(e.kind(), false),
        }
    }
    Out::Ok(v)
}
fn read(cx: &Cx, net: &Net, e: &mut End_, ask: usize, api: Api) -> Res {
    let all = |r: Option<Result<Payload, ProtocolError>>| r.map_or(Out::Wait, |r| norm(net, r.map(of)));
    let rx = match e {
        End_::S(p) => return all(Some(p.read())),
        End_::A(p) => return all(block(cx, p.read())),
        End_::Apart(rx, _) => rx,
    };
    match rx {
        Rx::S(r) => return all(Some(r.read())),
        Rx::A(r) => return all(block(cx, r.read())),
        _ => {}
    }
    let l = match pull(cx, net, rx, 3, ask) {
        Out::Ok(b) => b,
        Out::Io(k, s) => return Out::Io(k, s),
        _ => return Out::Wait,
    };
    let (Rx::Si(c, _) | Rx::Ai(c, _)) = rx else { unreachable!() };
    let n = c.decrypt_packet_len(l.try_into().unwrap());
    cx.check(n < 5000, || format!("a bare receiving cipher announces {n} bytes: it does not stand where the connection stood"));
    let b = match pull(cx, net, rx, n, ask) {
        Out::Ok(b) => b,
        Out::Io(k, s) => return Out::Io(k, s),
        _ => return Out::Wait,
    };
    let (Rx::Si(c, _) | Rx::Ai(c, _)) = rx else { unreachable!() };
    match open(api, c, &b, None).res {
        Ok((t, p)) => Out::Ok((t == PacketType::Decoy, p[1..].to_vec())),
        Err(e) => Out::Lib(e),
    }
}
fn write(cx: &Cx, net: &Net, e: &mut End_, p: &Payload, api: EApi) -> Out<()> {
    let one = |r: Option<Result<(), ProtocolError>>| r.map_or(Out::Wait, |r| norm(net, r));
    match e {
        End_::S(c) => one(Some(c.write(p))),
        End_::A(c) => one(block(cx, c.write(p))),
        End_::Apart(_, tx) => match tx {
            Tx::S(w) => one(Some(w.write(p))),
            Tx::A(w) => one(block(cx, w.write(p))),
            Tx::I(c, n) => match seal(api, c, p.contents(), p.packet_type(), None) {
                Ok(b) => {
                    cx.check(n.write_all(&b).is_ok() && n.flush().is_ok(), || "the writer handed back cannot be written to".into());
                    Out::Ok(())
                }
                Err(e) => Out::Lib(e),
            },
            Tx::Gone => unreachable!(),
        },
    }
}
fn begin(cx: &Cx, drv: Drv, net: &Net, role: Role, func: bool) -> End_ {
    cx.seed_fill(28);
    if !func {
        return match connect(cx, drv, net, MAGIC, role, Some(vec![7; 9]), Some(vec![vec![1; 4]])) {
            Out::Ok(Conn::S(p)) => End_::S(p),
            Out::Ok(Conn::A(p)) => End_::A(p),
            _ => cx.fail("the handshake does not complete"),
        };
    }
    let mut w = net.clone();
    let (g, d) = (Some(vec![7; 9]), Some(vec![vec![1; 4]]));
    match drv {
        Drv::Sync => match bip324::io::handshake(MAGIC, role, g, d, net.clone(), &mut w) {
            Ok((i, o, r)) => End_::Apart(Rx::Si(i, r), Tx::I(o, w)),
            Err(e) => cx.fail(format!("the handshake function fails: {e:?}")),
        },
        Drv::Async => match block(cx, bip324::futures::handshake(MAGIC, role, g, d, net.clone(), &mut w)) {
            Some(Ok((i, o, r))) => End_::Apart(Rx::Ai(i, r), Tx::I(o, w)),
            _ => cx.fail("the handshake function fails"),
        },
    }
}
/// Does the step change anything here?
fn apply(e: End_, op: Op) -> Option<End_> {
    Some(match (e, op) {
        (End_::S(p), Op::Split) => {
            let (r, w) = p.into_split();
            End_::Apart(Rx::S(r), Tx::S(w))
        }
        (End_::A(p), Op::Split) => {
            let (r, w) = p.into_split();
            End_::Apart(Rx::A(r), Tx::A(w))
        }
        (End_::Apart(Rx::S(r), t), Op::TakeRx) => {
            let (c, r) = r.into_inner();
            End_::Apart(Rx::Si(c, r), t)
        }
        (End_::Apart(Rx::A(r), t), Op::TakeRx) => {
            let (c, r) = r.into_inner();
            End_::Apart(Rx::Ai(c, r), t)
        }
        (End_::Apart(r, Tx::S(w)), Op::TakeTx) => {
            let (c, w) = w.into_inner();
            End_::Apart(r, Tx::I(c, w))
        }
        (End_::Apart(r, Tx::A(w)), Op::TakeTx) => {
            let (c, w) = w.into_inner();
            End_::Apart(r, Tx::I(c, w))
        }
        (End_::Apart(Rx::Si(c, r), Tx::I(o, w)), Op::Copy) => End_::Apart(Rx::Si(c.clone(), r), Tx::I(o.clone(), w)),
        (End_::Apart(Rx::Ai(c, r), Tx::I(o, w)), Op::Copy) => End_::Apart(Rx::Ai(c.clone(), r), Tx::I(o.clone(), w)),
        _ => return None,
    })
}
struct Run<'a> {
    cx: &'a Cx,
    net: Net,
    peer: Peer,
    /// what the peer has read of our packets
    from_us: Dir,
    at: usize,
    nread: usize,
    nsent: u64,
    hist: Vec<Op>,
}
impl Run<'_> {
    fn read(&mut self, e: &mut End_, ask: usize) {
        let k = self.nread;
        let Some((h, w)) = self.peer.session.get(k) else { self.cx.skip() };
        self.net.l().ops = 0;
        let r = read(self.cx, &self.net, e, ask, APIS[k % 3]);
        self.cx.check(r == Out::Ok((h & 0x80 != 0, w.clone())), || format!("{:?}: packet {k} of the peer is read as {}", self.hist, short(&r)));
        self.nread += 1;
    }
    fn write(&mut self, e: &mut End_) {
        let k = self.nsent;
        self.net.l().ops = 0;
        let c = contents(900 + k, (k * 13 % 70) as usize);
        let p = payload(k % 3 == 2, &c);
        let r = write(self.cx, &self.net, e, &p, if k % 2 == 0 { EApi::Buf } else { EApi::ToVec });
        self.cx.check(r == Out::Ok(()), || format!("{:?}: writing packet {k}: {}", self.hist, short(&r)));
        let g = self.net.l();
        let (sent, flushed) = (g.out[self.at.min(g.out.len())..].to_vec(), g.flushed == g.out.len());
        drop(g);
        let w = self.from_us.packet(&c, k % 3 == 2, &[]);
        self.cx.check(sent == w && flushed, || format!("{:?}: packet {k} put {} bytes on the wire, other than the next packet of the session ({} bytes)", self.hist, sent.len(), w.len()));
        self.at += w.len();
        self.nsent += 1;
    }
}
fn route(cx: &Cx, depth: usize, before: u64, garbage: &[usize], max: &[usize]) {
    let drv = cx.pick("driver", &DRVS);
    let role = cx.pick("role", &ROLES);
    let func = cx.flag("handshake function");
    let g = cx.pick("garbage", garbage);
    let max = cx.pick("bytes per read", max);
    let ask = cx.pick("asked at a time", &[1usize, 64]);
    let mut p = Peer::new(role);
    p.garbage = contents(4, g);
    p.hs = vec![(128, vec![5; 3]), (0, vec![])];
    p.session = (0..before + depth as u64 + 2).map(|k| (if k % 3 == 1 { 128 } else { 0 }, contents(k, (k * 29 % 90) as usize))).collect();
    let net = Net::new(cx, Some(p.clone()));
    net.l().rd_max = max;
    net.l().end = End::Eof;
    let mut e = begin(cx, drv, &net, role, func);
    let (_, _, rest, r) = check_sent(cx, &net);
    cx.check(rest.is_empty(), || "bytes follow the handshake".into());
    let at = net.l().out.len();
    let mut run = Run { cx, net, peer: p, from_us: r.recv.clone(), at, nread: 0, nsent: 0, hist: vec![] };
    for _ in 0..before {
        run.read(&mut e, 4096);
        run.write(&mut e);
    }
    for _ in 0..depth {
        let op = cx.pick("step", &OPS);
        run.hist.push(op);
        match op {
            Op::Read => run.read(&mut e, ask),
            Op::Write => run.write(&mut e),
            op => match apply(e, op) {
                Some(n) => e = n,
                None => cx.skip(),
            },
        }
        cx.op();
    }
    // whatever is left, in the form reached
    run.write(&mut e);
    while run.nread < run.peer.session.len() {
        run.read(&mut e, ask);
    }
    // the rest of the receiving side stays usable when the sending side is gone, and the other way around
    if let End_::Apart(r, t) = e {
        let more = run.net.clone();
        let mut e = if run.nsent % 2 == 0 {
            drop(r);
            End_::Apart(Rx::Gone, t)
        } else {
            End_::Apart(r, t)
        };
        run.write(&mut e);
        if let End_::Apart(r, _) = e {
            if !matches!(r, Rx::Gone) {
                let mut e = End_::Apart(r, Tx::Gone);
                let x = read(cx, &more, &mut e, ask, Api::Decrypt);
                cx.check(matches!(x, Out::Io(..)), || format!("{:?}: reading past the last packet gives {}", run.hist, short(&x)));
            }
        }
    }
    cx.case(&(func, g, max, ask, format!("{:?}", run.hist)));
}
/// Much data read ahead: taken apart after every number of packets and of single bytes.
fn ahead(cx: &Cx, n: usize, garbage: &[usize]) {
    let drv = cx.pick("driver", &DRVS);
    let func = cx.flag("handshake function");
    let g = cx.pick("garbage", garbage);
    let ask = cx.pick("asked at a time", &[7usize, 4096]);
    let big = cx.flag("large packets");
    let first = cx.choose("packets read before", n);
    let mut p = Peer::new(Role::Initiator);
    p.garbage = contents(4, g);
    p.session = (0..n as u64).map(|k| (if k % 4 == 1 { 128 } else { 0 }, contents(k, if big { (k * 997 % 3000) as usize } else { (k * 29 % 330) as usize }))).collect();
    let net = Net::new(cx, Some(p.clone()));
    net.l().end = End::Eof;
    let mut e = begin(cx, drv, &net, Role::Initiator, func);
    let (_, _, _, r) = check_sent(cx, &net);
    let at = net.l().out.len();
    let mut run = Run { cx, net, peer: p, from_us: r.recv.clone(), at, nread: 0, nsent: 0, hist: vec![] };
    if func && first > 0 {
        cx.skip();
    }
    for _ in 0..first {
        run.read(&mut e, ask);
    }
    if !func {
        for op in [Op::Split, Op::TakeRx, Op::TakeTx] {
            e = apply(e, op).expect("each step applies");
            run.hist.push(op);
        }
    }
    run.write(&mut e);
    while run.nread < n {
        run.read(&mut e, ask);
    }
    run.write(&mut e);
    cx.case(&(func, g, ask, big, first));
}
pub fn check(t: Tier) -> Check {
    let mut c = Check::new("C28", "model_checking",
        "every sequence of reading, writing, splitting, taking halves apart and copying ciphers up to the depth bound, from the handshake function or a connection object, both drivers and roles, with the session's first bytes glued to the handshake by 0 to 300 bytes of garbage or trickling in; received packets and the bytes sent are compared with an independent peer");
    c.add("routes", 0, move |cx| route(cx, t.q(5, 7), 0, &[0, 3, 200, 300], &[usize::MAX, 1, 61]));
    c.add("routes next to key changes", 0, move |cx| route(cx, t.q(4, 6), 221, &[5], &[usize::MAX]));
    c.add("much data read ahead", 0, move |cx| ahead(cx, t.q(48, 96), t.q(&[0, 1, 300, 1000, 3000, 4095], &[0, 1, 2, 15, 16, 17, 100, 300, 1000, 2000, 3000, 4000, 4095])));
    c
}
