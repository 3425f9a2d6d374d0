//! V1 peers and lost connections are classified correctly.
use crate::c12::script;
use crate::engine::*;
use crate::fx::*;
use bip324::{Error, Role};
use std::io::ErrorKind;

const MAGICS: [[u8; 4]; 6] = [MAGIC, [0x0b, 0x11, 0x09, 0x07], [0, 0, 0, 0], [0xff; 4], [1, 2, 3, 4], [0xf9, 0xf9, 0xbe, 0xbe]];
pub const KINDS: [ErrorKind; 26] = [
    ErrorKind::NotFound, ErrorKind::PermissionDenied, ErrorKind::ConnectionRefused, ErrorKind::ConnectionReset,
    ErrorKind::ConnectionAborted, ErrorKind::NotConnected, ErrorKind::AddrInUse, ErrorKind::AddrNotAvailable,
    ErrorKind::BrokenPipe, ErrorKind::AlreadyExists, ErrorKind::WouldBlock, ErrorKind::InvalidInput,
    ErrorKind::InvalidData, ErrorKind::TimedOut, ErrorKind::WriteZero, ErrorKind::Unsupported,
    ErrorKind::UnexpectedEof, ErrorKind::OutOfMemory, ErrorKind::Other, ErrorKind::HostUnreachable,
    ErrorKind::NetworkUnreachable, ErrorKind::NetworkDown, ErrorKind::StaleNetworkFileHandle,
    ErrorKind::StorageFull, ErrorKind::ResourceBusy, ErrorKind::Deadlock,
];
fn retry(k: ErrorKind) -> bool {
    matches!(k, ErrorKind::ConnectionReset | ErrorKind::ConnectionAborted | ErrorKind::UnexpectedEof)
}
/// The magics of the networks there are, and the same in the other byte order.
fn known() -> Vec<[u8; 4]> {
    let v = [[0xf9, 0xbe, 0xb4, 0xd9], [0x0b, 0x11, 0x09, 0x07], [0x1c, 0x16, 0x3f, 0x28], [0x0a, 0x03, 0xcf, 0x40], [0xfa, 0xbf, 0xb5, 0xda], [0xe3, 0xe1, 0xf3, 0xe8]];
    v.iter().copied().chain(v.iter().map(|m: &[u8; 4]| [m[3], m[2], m[1], m[0]])).chain([*b"vers", *b"HTTP", *b"GET ", [0; 4], [0xff; 4]]).collect()
}
/// Peers whose first bytes are the magic of one network, on another.
fn networks(cx: &Cx) {
    let drv = cx.pick("driver", &DRVS);
    let role = cx.pick("role", &ROLES);
    let magic = cx.pick("magic", &known());
    for (k, x) in known().into_iter().enumerate() {
        cx.case(&(x, magic));
        judge(cx, drv, role, magic, x, if k % 2 == 0 { usize::MAX } else { 1 }, if k % 3 == 0 { 0 } else { G }, 0, End::Block);
    }
}
const G: usize = 9;
fn hs(cx: &Cx, drv: Drv, net: &Net, magic: [u8; 4], role: Role, g: usize) -> Out<()> {
    match connect(cx, drv, net, magic, role, (g > 0).then(|| contents(3, g)), Some(vec![vec![1; 4]])) {
        Out::Ok(_) => Out::Ok(()),
        Out::Io(k, s) => Out::Io(k, s),
        Out::Lib(e) => Out::Lib(e),
        Out::Wait => Out::Wait,
    }
}
fn full_len(g: usize) -> usize {
    64 + g + 16 + 24 + 20
}
/// The peer's first bytes are `x` in front of an otherwise valid key.
fn key_with(x: [u8; 4], n: u64) -> Vec<u8> {
    let mut k = ell(&secret(40 + n)).to_vec();
    k[..4].copy_from_slice(&x);
    k
}
fn judge(cx: &Cx, drv: Drv, role: Role, magic: [u8; 4], x: [u8; 4], max: usize, g: usize, extra: usize, end: End) {
    let mut b = key_with(x, 1);
    b.extend(contents(8, extra));
    let net = Net::raw(cx, b, end);
    net.l().rd_max = max;
    let r = hs(cx, drv, &net, magic, role, g);
    let v1 = r == Out::Lib(Error::V1Protocol);
    let out = net.l().out.len();
    if x == magic {
        cx.check(v1, || format!("peer starting with the magic {magic:02x?}: {r:?}"));
        cx.check(out == 64 + g, || format!("{out} bytes sent to a V1 peer, want key and garbage ({})", 64 + g));
        cx.check(net.l().out[64..] == contents(3, g)[..], || "garbage sent to a V1 peer differs".into());
        cx.outcome("v1");
    } else {
        cx.check(!v1, || format!("peer starting with {x:02x?} taken for V1, magic {magic:02x?}"));
        cx.check(out == full_len(g), || format!("peer starting with {x:02x?}: {out} bytes sent, result {r:?}"));
        cx.outcome("v2");
    }
    // the same question asked of the sans-I/O step
    let h = start(cx, magic, role, secret(4));
    let mut kb = vec![0u8; 64];
    let h = h.send_key(None, &mut kb);
    let Ok(h) = h else { cx.fail("send_key") };
    let key: [u8; 64] = key_with(x, 1).try_into().unwrap();
    let r = h.receive_key(key);
    let v1 = matches!(r, Err(Error::V1Protocol));
    cx.check(v1 == (x == magic), || format!("receive_key with first bytes {x:02x?}, magic {magic:02x?}: V1 {v1}"));
}
fn values(cx: &Cx, _t: Tier) {
    let drv = cx.pick("driver", &DRVS);
    let role = cx.pick("role", &ROLES);
    let magic = cx.pick("magic", &MAGICS);
    let at = cx.choose("byte", 4);
    for v in 0..=255u8 {
        let mut x = magic;
        x[at] = v;
        cx.case(&(at, v, magic));
        judge(cx, drv, role, magic, x, if v % 2 == 0 { usize::MAX } else { 1 }, if v % 3 == 0 { 0 } else { G }, if v % 5 == 0 { 0 } else { 300 }, End::Block);
    }
}
fn pairs(cx: &Cx, t: Tier) {
    let i = cx.choose("pair", 6);
    let a = cx.choose("first value", 256);
    let (p, q) = [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)][i];
    let (p, q): (usize, usize) = (p, q);
    let magic = if t == Tier::Quick { MAGIC } else { cx.pick("magic", &MAGICS[..3]) };
    for b in 0..=255u8 {
        // quick: every value where at least one of the two is within two bit flips of the magic
        if t == Tier::Quick && ((a as u8) ^ magic[p]).count_ones() > 1 && (b ^ magic[q]).count_ones() > 1 {
            continue;
        }
        let mut x = magic;
        x[p] = a as u8;
        x[q] = b;
        cx.case(&(i, a, b, magic));
        judge(cx, DRVS[(b & 1) as usize], ROLES[(b >> 1 & 1) as usize], magic, x, usize::MAX, 0, 0, End::Block);
    }
}
/// A V1 peer that sends something of any length, then hangs up or goes quiet.
fn short_v1(cx: &Cx, _t: Tier) {
    let drv = cx.pick("driver", &DRVS);
    let role = cx.pick("role", &ROLES);
    let magic = cx.pick("magic", &MAGICS);
    let n = cx.choose("bytes", 200);
    let end = cx.pick("end", &[End::Eof, End::Block, End::Err(ErrorKind::ConnectionReset), End::Err(ErrorKind::ConnectionAborted), End::Err(ErrorKind::TimedOut)]);
    for max in [usize::MAX, 1, 3] {
        for isv1 in [true, false] {
            let mut b = magic.to_vec();
            if !isv1 {
                b[3] ^= 1;
            }
            b.extend(b"version\0\0\0\0\0");
            b.extend(contents(1, 400));
            b.truncate(n);
            let net = Net::raw(cx, b, end);
            net.l().rd_max = max;
            let r = hs(cx, drv, &net, magic, role, G);
            let lost = match end {
                End::Eof => Out::Io(ErrorKind::UnexpectedEof, true),
                End::Block => Out::Wait,
                End::Err(k) => Out::Io(k, retry(k)),
            };
            let v1 = Out::Lib(Error::V1Protocol);
            // with the magic received but not a whole key both answers are right
            let ok = if isv1 && n >= 64 { r == v1 } else if isv1 && n >= 4 { r == v1 || r == lost } else { r == lost };
            cx.check(ok, || format!("{n} bytes (V1: {isv1}) then {end:?}: {r:?}"));
            let out = net.l().out.len();
            let want = if isv1 || n < 64 { 64 + G } else { full_len(G) };
            cx.check(out == want, || format!("{n} bytes (V1: {isv1}) then {end:?}: {out} bytes sent instead of {want}"));
            cx.case(&(n, max, isv1));
        }
    }
}
/// The transport fails at every byte of the peer's handshake, with every kind, or ends there.
fn read_faults(cx: &Cx, t: Tier) {
    let drv = cx.pick("driver", &DRVS);
    let role = cx.pick("role", &ROLES);
    let g = cx.pick("garbage", &t.q(vec![0usize, 5, 300], vec![0, 5, 300, 700, 4095]));
    let mut p = script(role, g);
    p.session.clear();
    let n = 64 + g + 16 + 23 + 20;
    let at = cx.choose("position", n);
    if t == Tier::Quick && g == 300 && at % 7 != 0 && at > 84 && at < 84 + 290 {
        cx.skip()
    }
    let maxes = [usize::MAX, 1, 37];
    let kinds: Vec<End> = KINDS.iter().map(|k| End::Err(*k)).chain([End::Eof]).collect();
    for (j, e) in kinds.iter().enumerate() {
        let max = maxes[j % 3];
        let net = Net::new(cx, Some(p.clone()));
        {
            let mut x = net.l();
            x.rd_max = max;
            match e {
                End::Eof => {
                    x.end = End::Eof;
                    if at < 64 + g {
                        x.inb.truncate(at);
                    }
                    x.tamper = Some(Box::new(move |v| v.truncate(at)));
                }
                End::Err(k) => x.rd_ev = vec![(at, Ev::Err(*k))],
                End::Block => unreachable!(),
            }
        }
        let r = hs(cx, drv, &net, MAGIC, role, G);
        let want = match e {
            End::Eof => Out::Io(ErrorKind::UnexpectedEof, true),
            End::Err(k) => Out::Io(*k, retry(*k)),
            End::Block => unreachable!(),
        };
        cx.check(r == want, || format!("{} at byte {at} of {n} ({max} per read): {r:?} instead of {want:?}", short(e)));
        cx.case(&(at, j, g));
    }
    // interrupted reads
    let net = Net::new(cx, Some(p.clone()));
    net.l().rd_ev = vec![(at, Ev::Intr); 2];
    let r = hs(cx, drv, &net, MAGIC, role, G);
    let ok = match drv {
        Drv::Sync => r == Out::Ok(()),
        Drv::Async => r == Out::Ok(()) || r == Out::Io(ErrorKind::Interrupted, false),
    };
    cx.check(ok, || format!("interrupted read at byte {at}: {r:?}"));
    // interrupted, then lost
    let net = Net::new(cx, Some(p.clone()));
    net.l().rd_ev = vec![(at, Ev::Intr), (at, Ev::Err(ErrorKind::ConnectionReset))];
    let r = hs(cx, drv, &net, MAGIC, role, G);
    let ok = r == Out::Io(ErrorKind::ConnectionReset, true) || (drv == Drv::Async && r == Out::Io(ErrorKind::Interrupted, false));
    cx.check(ok, || format!("interrupted then reset at byte {at}: {r:?}"));
}
/// The transport refuses bytes or a flush at every offset of what is sent.
fn write_faults(cx: &Cx, t: Tier) {
    let drv = cx.pick("driver", &DRVS);
    let role = cx.pick("role", &ROLES);
    let g = cx.pick("garbage", &t.q(vec![0usize, 9], vec![0, 9, 300, 4095]));
    let n = full_len(g);
    let how = cx.choose("failure", 4);
    let at = match how {
        0..=2 => cx.choose("offset", n),
        _ => [64 + g, n][cx.choose("flush", 2)],
    };
    for (j, k) in KINDS.iter().enumerate() {
        let net = Net::new(cx, Some(script(role, 4)));
        {
            let mut x = net.l();
            x.wr_max = [usize::MAX, 1, 37][j % 3];
            match how {
                0 => x.wr_ev = vec![(at, Ev::Err(*k))],
                1 => x.wr_ev = vec![(at, Ev::Zero)],
                2 => x.wr_dead = Some((at, *k)),
                _ => x.fl_ev = vec![(at, Ev::Err(*k))],
            }
        }
        let k = if how == 1 { ErrorKind::WriteZero } else { *k };
        let r = hs(cx, drv, &net, MAGIC, role, g);
        let want = Out::Io(k, retry(k));
        cx.check(r == want, || format!("write failure {how} ({k:?}) at offset {at} of {n}: {r:?}"));
        cx.case(&(at, j, how));
    }
    if how == 0 && drv == Drv::Sync {
        let net = Net::new(cx, Some(script(role, 4)));
        net.l().wr_ev = vec![(at, Ev::Intr); 2];
        let r = hs(cx, drv, &net, MAGIC, role, g);
        cx.check(r == Out::Ok(()), || format!("interrupted write at {at}: {r:?}"));
    }
}
/// The failure at every transport operation, with benign variations before it.
fn env(cx: &Cx, garbage: usize) {
    let drv = cx.pick("driver", &DRVS);
    let role = cx.pick("role", &ROLES);
    let mut p = script(role, garbage);
    p.session.clear();
    let net = Net::new(cx, Some(p));
    let errs = [ErrorKind::ConnectionReset, ErrorKind::TimedOut, ErrorKind::ConnectionAborted, ErrorKind::BrokenPipe, ErrorKind::UnexpectedEof];
    {
        let mut x = net.l();
        let e: Vec<Alt> = errs.iter().map(|k| Alt::Do(Ev::Err(*k))).collect();
        x.rd_env = [Alt::One, Alt::Half, Alt::ButOne].into_iter().chain(e.clone()).collect();
        x.wr_env = [Alt::One, Alt::Half].into_iter().chain(e.clone()).collect();
        x.fl_env = e;
        let soft = if drv == Drv::Sync { Ev::Intr } else { Ev::Pending };
        x.rd_env.push(Alt::Do(soft));
        x.wr_env.push(Alt::Do(soft));
    }
    let r = hs(cx, drv, &net, MAGIC, role, G);
    let first = net.l().hits.iter().find_map(|e| if let Ev::Err(k) = e { Some(*k) } else { None });
    let want = match first {
        Some(k) => Out::Io(k, retry(k)),
        None => Out::Ok(()),
    };
    cx.check(r == want, || format!("{r:?} instead of {want:?}"));
    let a = net.l().rd_ops;
    let b = net.l().wr_ops;
    cx.state(&(a, b, first.map(|k| format!("{k:?}"))));
}
pub fn check(t: Tier) -> Check {
    let mut c = Check::new("C15", "model_checking",
        "the real drivers and the receive_key step: every value of each of the first four bytes for six magics (and every pair of bytes), V1 streams of every length with every ending; every error kind and end of file at every byte read, every offset written and every flush of the handshake, also after every combination of short, interrupted or not-ready operations up to the deviation bound");
    c.add("first bytes", 0, move |cx| values(cx, t));
    c.add("known networks", 0, networks);
    c.add("pairs of first bytes", 0, move |cx| pairs(cx, t));
    c.add("V1 streams of every length", 0, move |cx| short_v1(cx, t));
    c.add("lost while reading", 0, move |cx| read_faults(cx, t));
    c.add("lost while writing", 0, move |cx| write_faults(cx, t));
    let d = t.q(2, 4);
    c.add(format!("varied transport, {d} deviations"), d, |cx| env(cx, 4));
    c.add(format!("varied transport, long garbage, {} deviations", t.q(2, 3)), t.q(2, 3), |cx| env(cx, 600));
    c
}
