//! The core behaves the same with and without the standard library.
use crate::engine::*;
use crate::fx::{contents, secp, secret, MAGIC};

/// One step of a session, run on both builds.
#[derive(Clone, Debug, Hash, PartialEq)]
enum Op {
    /// from the initiator, contents length, decoy, aad length, missing bytes in the output buffer
    Send { ini: bool, n: usize, decoy: bool, aad: Option<usize>, short: usize },
    /// deliver the oldest undelivered packet: alteration (0 none), wrong aad, entry point, missing bytes
    Recv { ini: bool, alter: usize, bad_aad: bool, in_place: bool, short: usize },
}
#[derive(Clone, Debug)]
struct Hs {
    magic: [u8; 4],
    sk: [[u8; 32]; 2],
    garbage: [Option<usize>; 2],
    /// exact bytes of the responder's garbage instead
    mimic: Option<Vec<u8>>,
    decoys: [Option<Vec<usize>>; 2],
    /// offset of a changed byte in what the initiator receives
    change: Option<usize>,
    /// bytes missing in the handshake's output buffers
    short: usize,
    /// bytes by which the garbage search is fed
    step: usize,
}

macro_rules! side {
    ($m:ident, $c:ident) => {
        mod $m {
            use super::*;
            use $c::{CipherSession, FillBytes, GarbageResult, Handshake, Initialized, OutboundCipher, PacketType, ReceivedKey, Role, VersionResult};
            struct Fix([u8; 32]);
            impl FillBytes for Fix {
                fn fill_bytes(&mut self, d: &mut [u8; 32]) {
                    *d = self.0
                }
            }
            macro_rules! tryt {
                ($t:ident, $what:expr, $e:expr) => {
                    match $e {
                        Ok(v) => v,
                        Err(e) => {
                            $t.push(format!("{}: {e:?} / {e}", $what).into_bytes());
                            return None;
                        }
                    }
                };
            }
            /// Everything observable, in order.
            pub fn run(h: &Hs, ops: &[Op]) -> Vec<Vec<u8>> {
                let mut t = vec![];
                if let Some((a, b)) = handshake(h, &mut t) {
                    session(a, b, ops, &mut t);
                }
                t
            }
            fn handshake(h: &Hs, t: &mut Vec<Vec<u8>>) -> Option<(CipherSession, CipherSession)> {
                let role = [Role::Initiator, Role::Responder];
                let mut g: Vec<Option<Vec<u8>>> = h.garbage.iter().map(|n| n.map(|n| contents(5, n))).collect();
                if h.mimic.is_some() {
                    g[1] = h.mimic.clone();
                }
                let d: Vec<Option<Vec<Vec<u8>>>> = h.decoys.iter().map(|d| d.as_ref().map(|d| d.iter().map(|n| contents(6, *n)).collect())).collect();
                let dr: Vec<Option<Vec<&[u8]>>> = d.iter().map(|d| d.as_ref().map(|d| d.iter().map(|x| &x[..]).collect())).collect();
                let mut sk = vec![];
                let mut keys = vec![];
                for i in 0..2 {
                    let s = tryt!(t, "new", Handshake::<Initialized>::new_with_rng(h.magic, role[i], &mut Fix(h.sk[i]), secp()));
                    let need = Handshake::<Initialized>::send_key_len(g[i].as_deref());
                    let mut b = vec![0xee; need.saturating_sub(h.short)];
                    let r = s.send_key(g[i].as_deref(), &mut b);
                    t.push(b.clone());
                    sk.push(tryt!(t, "send_key", r));
                    keys.push(b);
                }
                let mut states = vec![];
                let mut flights = vec![];
                for (i, s) in sk.into_iter().enumerate() {
                    let mut k: [u8; 64] = keys[1 - i][..64].try_into().unwrap();
                    if let (0, Some(c)) = (i, h.change) {
                        if c < 64 {
                            k[c] ^= 1;
                        }
                    }
                    let s = tryt!(t, "receive_key", s.receive_key(k));
                    let need = Handshake::<ReceivedKey>::send_version_len(dr[i].as_deref());
                    let mut b = vec![0xdd; need.saturating_sub(h.short)];
                    let r = s.send_version(&mut b, dr[i].as_deref());
                    t.push(b.clone());
                    states.push(tryt!(t, "send_version", r));
                    let mut f = keys[i][64..].to_vec();
                    f.extend_from_slice(&b);
                    flights.push(f);
                }
                let mut out = vec![];
                for (i, s) in states.into_iter().enumerate() {
                    let mut f = flights[1 - i].clone();
                    if let (0, Some(c)) = (i, h.change) {
                        if c >= 64 && c - 64 < f.len() {
                            f[c - 64] ^= 1;
                        }
                    }
                    out.push(finish(s, &f, h.step, t)?);
                }
                let b = out.pop()?;
                Some((out.pop()?, b))
            }
            fn finish(mut s: Handshake<$c::SentVersion>, f: &[u8], step: usize, t: &mut Vec<Vec<u8>>) -> Option<CipherSession> {
                let mut n = step.min(f.len());
                loop {
                    match tryt!(t, "receive_garbage", s.receive_garbage(&f[..n])) {
                        GarbageResult::NeedMoreData(x) => {
                            t.push(format!("more after {n}").into_bytes());
                            if n == f.len() {
                                return None;
                            }
                            s = x;
                            n = (n + step).min(f.len());
                        }
                        GarbageResult::FoundGarbage { mut handshake, consumed_bytes } => {
                            t.push(format!("found {consumed_bytes}").into_bytes());
                            let mut at = consumed_bytes;
                            loop {
                                if f.len() < at + 3 {
                                    t.push(b"no length".to_vec());
                                    return None;
                                }
                                let l = tryt!(t, "length", handshake.decrypt_packet_len(f[at..at + 3].try_into().unwrap()));
                                at += 3;
                                t.push(format!("length {l}").into_bytes());
                                if f.len() < at + l {
                                    return None;
                                }
                                let mut p = f[at..at + l].to_vec();
                                at += l;
                                let r = handshake.receive_version(&mut p);
                                match tryt!(t, "receive_version", r) {
                                    VersionResult::Complete { cipher } => {
                                        t.push(format!("complete {at} {:?}", cipher.id()).into_bytes());
                                        return Some(cipher);
                                    }
                                    VersionResult::Decoy(x) => handshake = x,
                                }
                            }
                        }
                    }
                }
            }
            fn session(a: CipherSession, b: CipherSession, ops: &[Op], t: &mut Vec<Vec<u8>>) {
                let mut s = [a, b];
                let mut queue: [std::collections::VecDeque<(Vec<u8>, Option<Vec<u8>>)>; 2] = Default::default();
                for op in ops {
                    match op {
                        Op::Send { ini, n, decoy, aad, short } => {
                            let i = !*ini as usize;
                            let c = contents(*n as u64, *n);
                            let aad = aad.map(|n| contents(9, n));
                            let mut buf = vec![0xcc; OutboundCipher::encryption_buffer_len(*n).saturating_sub(*short)];
                            let r = s[i].outbound().encrypt(&c, &mut buf, if *decoy { PacketType::Decoy } else { PacketType::Genuine }, aad.as_deref());
                            t.push(format!("{r:?}").into_bytes());
                            t.push(buf.clone());
                            if r.is_ok() {
                                queue[i].push_back((buf, aad));
                            }
                        }
                        Op::Recv { ini, alter, bad_aad, in_place, short } => {
                            let i = !*ini as usize;
                            let Some((p, aad)) = queue[1 - i].front().cloned() else {
                                t.push(b"nothing".to_vec());
                                continue;
                            };
                            let l = s[i].inbound().decrypt_packet_len(p[..3].try_into().unwrap());
                            t.push(format!("{l}").into_bytes());
                            let mut body = p[3..].to_vec();
                            match alter {
                                0 => {}
                                1 => body[0] ^= 0x80,
                                2 => *body.last_mut().unwrap() ^= 1,
                                3 => body.truncate(body.len() - 1),
                                4 => body.push(0),
                                n => body.truncate((*n - 5).min(body.len())),
                            }
                            let aad = if *bad_aad { Some(vec![1]) } else { aad };
                            let ok;
                            if *in_place {
                                let r = s[i].inbound().decrypt_in_place(&mut body, aad.as_deref()).map(|(t, b)| (t, b.to_vec()));
                                ok = r.is_ok();
                                t.push(format!("{r:?}").into_bytes());
                                t.push(body);
                            } else {
                                let mut out = vec![0xbb; body.len().saturating_sub(16).saturating_sub(*short)];
                                let r = s[i].inbound().decrypt(&body, &mut out, aad.as_deref());
                                ok = r.is_ok();
                                t.push(format!("{r:?}").into_bytes());
                                t.push(out);
                            }
                            // a refused packet stays and is delivered again by the next receive
                            let _ = l;
                            if ok {
                                queue[1 - i].pop_front();
                            } else {
                                // its length was consumed: put the session aside, as a caller would
                                return;
                            }
                        }
                    }
                }
            }
        }
    };
}
side!(with, bip324);
side!(without, bip324_nostd);

fn same(cx: &Cx, h: &Hs, ops: &[Op]) {
    let a = with::run(h, ops);
    let b = without::run(h, ops);
    cx.ops(a.len() as u64);
    if a != b {
        let k = (0..).find(|k| a.get(*k) != b.get(*k)).unwrap_or(0);
        let s = |v: Option<&Vec<u8>>| v.map(|v| short(&String::from_utf8_lossy(v).to_string())).unwrap_or_else(|| "nothing".into());
        cx.fail(format!("step {k} differs: with the standard library {}, without {}", s(a.get(k)), s(b.get(k))));
    }
    cx.state(&a);
    cx.outcome(if a.last().is_some_and(|l| String::from_utf8_lossy(l).contains(" / ")) { "refused" } else { "ran" });
}
fn hs0() -> Hs {
    Hs { magic: MAGIC, sk: [secret(501), secret(502)], garbage: [Some(7), None], mimic: None, decoys: [None, Some(vec![3])], change: None, short: 0, step: usize::MAX }
}
/// Handshakes: keys, garbage lengths, decoys, short buffers, partial feeding.
fn handshakes(cx: &Cx, t: Tier) {
    let mut h = hs0();
    h.magic = cx.pick("magic", &[MAGIC, [0; 4], [0x0b, 0x11, 0x09, 0x07]]);
    let k = cx.choose("keys", t.q(3, 12)) as u64;
    h.sk = [secret(600 + k), secret(700 + k)];
    let gl = [None, Some(0), Some(1), Some(16), Some(300), Some(4095), Some(4096)];
    h.garbage = [cx.pick("garbage", &gl), cx.pick("peer garbage", &gl)];
    let dl = [None, Some(vec![]), Some(vec![0]), Some(vec![5, 0, 300])];
    h.decoys = [cx.pick("decoys", &dl), cx.pick("peer decoys", &dl)];
    h.short = cx.pick("short", &[0usize, 1, 20, 100]);
    h.step = cx.pick("step", &[usize::MAX, 1000, 17]);
    same(cx, &h, &[Op::Send { ini: true, n: 3, decoy: false, aad: None, short: 0 }, Op::Recv { ini: false, alter: 0, bad_aad: false, in_place: false, short: 0 }]);
}
/// Garbage made of pieces of the terminator that follows it.
fn mimicry(cx: &Cx, t: Tier) {
    let mut h = hs0();
    let k = cx.choose("keys", t.q(1, 6)) as u64;
    h.sk = [secret(600 + k), secret(700 + k)];
    let plain = with::run(&h, &[]);
    let term = plain[3][..16].to_vec();
    let front = cx.pick("bytes in front", &t.q(vec![0usize, 15, 4000], vec![0, 1, 2, 7, 15, 16, 17, 100, 4000]));
    let mut g = contents(5, front);
    for _ in 0..2 {
        let from = cx.choose("piece from", 17);
        let to = from + cx.choose("piece length", 17 - from);
        g.extend_from_slice(&term[from.min(16)..to.min(16)]);
    }
    h.mimic = Some(g);
    h.decoys = [None, Some(vec![3])];
    h.step = cx.pick("step", &t.q(vec![usize::MAX, 5], vec![usize::MAX, 1, 5, 16, 100]));
    same(cx, &h, &[]);
}
/// Every changed byte.
fn changed(cx: &Cx) {
    let mut h = hs0();
    h.garbage = [Some(3), Some(20)];
    h.change = Some(cx.choose("byte", 64 + 20 + 16 + 23 + 20));
    same(cx, &h, &[]);
}
/// Invalid and extreme secrets.
fn secrets(cx: &Cx) {
    let mut h = hs0();
    let order = [
        0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xfe, 0xba, 0xae, 0xdc, 0xe6, 0xaf, 0x48, 0xa0, 0x3b, 0xbf, 0xd2, 0x5e, 0x8c, 0xd0,
        0x36, 0x41, 0x41,
    ];
    let mut below = order;
    below[31] -= 1;
    let mut one = [0; 32];
    one[31] = 1;
    let all = [order, below, one, [0xff; 32], secret(3)];
    h.sk = [cx.pick("secret", &all), cx.pick("peer secret", &all)];
    same(cx, &h, &[]);
}
/// Every sequence of session operations up to the depth.
fn ops(cx: &Cx, depth: usize) {
    let mut v = vec![];
    for _ in 0..depth {
        let ini = cx.flag("initiator");
        v.push(match cx.choose("operation", 9) {
            0 => Op::Send { ini, n: 0, decoy: false, aad: None, short: 0 },
            1 => Op::Send { ini, n: 33, decoy: true, aad: Some(5), short: 0 },
            2 => Op::Send { ini, n: 64, decoy: false, aad: Some(0), short: 1 },
            3 => Op::Recv { ini, alter: 0, bad_aad: false, in_place: false, short: 0 },
            4 => Op::Recv { ini, alter: 0, bad_aad: false, in_place: true, short: 0 },
            5 => Op::Recv { ini, alter: 1, bad_aad: false, in_place: true, short: 0 },
            6 => Op::Recv { ini, alter: 0, bad_aad: true, in_place: false, short: 0 },
            7 => Op::Recv { ini, alter: 3, bad_aad: false, in_place: false, short: 0 },
            _ => Op::Recv { ini, alter: 0, bad_aad: false, in_place: false, short: 1 },
        });
    }
    same(cx, &hs0(), &v);
}
/// Every length of a packet handed to decryption.
fn short_packets(cx: &Cx) {
    let keep = cx.choose("length", 60);
    let in_place = cx.flag("in place");
    same(cx, &hs0(), &[
        Op::Send { ini: true, n: 40, decoy: false, aad: None, short: 0 },
        Op::Recv { ini: false, alter: 5 + keep, bad_aad: false, in_place, short: 0 },
    ]);
}
/// Over key changes, all lengths.
fn long(cx: &Cx, n: usize) {
    let aad = cx.pick("aad", &[None, Some(0), Some(40)]);
    let both = cx.flag("both directions");
    let mut v = vec![];
    for k in 0..n {
        let ini = !both || k % 3 != 0;
        v.push(Op::Send { ini, n: k % 130, decoy: k % 7 == 0, aad, short: 0 });
        v.push(Op::Recv { ini: !ini, alter: 0, bad_aad: false, in_place: k % 2 == 0, short: 0 });
    }
    same(cx, &hs0(), &v);
}
/// Contents lengths around the limits of the format.
fn big(cx: &Cx) {
    let n = cx.pick("length", &[(1 << 16) - 1, 1 << 16, (1 << 24) - 2, (1 << 24) - 1, 1 << 24, (1 << 24) + 1]);
    same(cx, &hs0(), &[Op::Send { ini: false, n, decoy: false, aad: None, short: 0 }, Op::Recv { ini: true, alter: 0, bad_aad: false, in_place: true, short: 0 }]);
}
pub fn check(t: Tier) -> Check {
    let mut c = Check::new("C26", "model_checking",
        "the same sources compiled with and without the std feature, run in lock-step: every handshake configuration, changed byte, secret, packet length and every sequence of session operations up to the depth bound; all bytes, lengths, results and errors must be equal");
    c.add("handshakes", 0, move |cx| handshakes(cx, t));
    c.add("garbage that mimics the terminator", 0, move |cx| mimicry(cx, t));
    c.add("every changed byte", 0, changed);
    c.add("extreme secrets", 0, secrets);
    c.add(format!("operation sequences of length {}", t.q(4, 5)), 0, move |cx| ops(cx, t.q(4, 5)));
    c.add("every packet length", 0, short_packets);
    c.add("over key changes", 0, move |cx| long(cx, t.q(700, 3000)));
    c.add("large contents", 0, big);
    c
}
