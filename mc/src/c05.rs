//! A refused call leaves the cipher state untouched.
use crate::engine::*;
use crate::fx::*;
use bip324::{Error, PacketType};
use std::sync::OnceLock;

fn huge() -> &'static Vec<u8> {
    static H: OnceLock<Vec<u8>> = OnceLock::new();
    H.get_or_init(|| vec![0x77; 1 << 24])
}
const KINDS: usize = 21;
/// One refused call of the given kind; `next` is the packet (length prefix stripped) the receiver
/// would accept now, with its associated data.
fn refuse(cx: &Cx, p: &mut Pair, k: usize, next: &[u8], aad: &[u8]) {
    cx.op();
    let (inb, clen) = (p.b.inbound(), next.len());
    let must = |r: Result<(), Error>, want: fn(&Error) -> bool, what: &str| match r {
        Ok(()) => cx.fail(format!("{what}: not refused")),
        Err(e) => cx.check(want(&e), || format!("{what}: refused with {e:?}")),
    };
    let small = |e: &Error| matches!(e, Error::CiphertextTooSmall);
    let dec = |e: &Error| matches!(e, Error::Decryption(_));
    let buf = |e: &Error| matches!(e, Error::BufferTooSmall { .. });
    let big = |e: &Error| matches!(e, Error::PacketTooBig);
    let flip = |at: usize| { let mut v = next.to_vec(); v[at] ^= 0x40; v };
    match k {
        0 => must(p.a.outbound().encrypt(b"abc", &mut [], PacketType::Genuine, None), buf, "encrypt into an empty buffer"),
        1 => must(p.a.outbound().encrypt(b"abcdef", &mut [0; 25], PacketType::Decoy, Some(b"x")), buf, "encrypt into a buffer one byte short"),
        2 => must(p.a.outbound().encrypt(&[7; 100], &mut [0; 100], PacketType::Genuine, None), buf, "encrypt into a buffer as long as the contents"),
        3 => {
            let n = huge().len();
            static B: OnceLock<std::sync::Mutex<Vec<u8>>> = OnceLock::new();
            let b = B.get_or_init(|| std::sync::Mutex::new(vec![0; n + 20]));
            must(p.a.outbound().encrypt(huge(), &mut lockm(b), PacketType::Genuine, None), big, "encrypt contents beyond the format")
        }
        4 => must(inb.decrypt(&[], &mut [0; 10], None).map(|_| ()), small, "decrypt of nothing"),
        5 => must(inb.decrypt(&next[..16], &mut [0; 99], Some(aad)).map(|_| ()), small, "decrypt of 16 bytes"),
        6 => must(inb.decrypt_in_place(&mut next[..16].to_vec(), Some(aad)).map(|_| ()), small, "decrypt_in_place of 16 bytes"),
        7 => must(inb.decrypt_to_vec(&next[..16], Some(aad)).map(|_| ()), small, "decrypt_to_vec of 16 bytes"),
        8 => must(inb.decrypt(next, &mut vec![0; clen - 17], Some(aad)).map(|_| ()), buf, "decrypt into a buffer one byte short"),
        9 => must(inb.decrypt(next, &mut [], Some(aad)).map(|_| ()), buf, "decrypt into an empty buffer"),
        10 => must(inb.decrypt(&flip(clen - 1), &mut vec![0; clen], Some(aad)).map(|_| ()), dec, "decrypt with a wrong tag"),
        11 => must(inb.decrypt_in_place(&mut flip(clen - 16), Some(aad)).map(|_| ()), dec, "decrypt_in_place with a wrong tag"),
        12 => must(inb.decrypt_to_vec(&flip(0), Some(aad)).map(|_| ()), dec, "decrypt_to_vec with an altered header"),
        13 => must(inb.decrypt(next, &mut vec![0; clen], Some(b"wrong aad")).map(|_| ()), dec, "decrypt with wrong associated data"),
        14 => must(inb.decrypt_in_place(&mut next.to_vec(), Some(&[&[1], aad].concat())).map(|_| ()), dec, "decrypt_in_place with wrong associated data"),
        15 => must(inb.decrypt_to_vec(next, Some(&[&[1], aad].concat())).map(|_| ()), dec, "decrypt_to_vec with wrong associated data"),
        16 => must(inb.decrypt_to_vec(&huge()[..MAX_CONTENTS + 18], Some(aad)).map(|_| ()), big, "decrypt_to_vec beyond the limit"),
        17 => must(inb.decrypt(&vec![0x31; 300], &mut vec![0; 300], None).map(|_| ()), dec, "decrypt of junk"),
        18 => must(p.a.inbound().decrypt_to_vec(&[3; 17], None).map(|_| ()), dec, "decrypt of junk at the other end"),
        19 => must(p.b.outbound().encrypt(b"zz", &mut [0; 21], PacketType::Genuine, Some(b"q")), buf, "encrypt at the other end into a short buffer"),
        _ => {
            // the same refusal many times
            for _ in 0..230 {
                must(inb.decrypt(&flip(1), &mut vec![0; clen], Some(aad)).map(|_| ()), dec, "decrypt with altered contents, repeated");
                must(p.a.outbound().encrypt(b"abc", &mut [0; 22], PacketType::Genuine, None), buf, "encrypt into a short buffer, repeated");
            }
        }
    }
}
/// The pair goes on exactly as the reference does.
fn proceed(cx: &Cx, p: &mut Pair, n: u64, api: Api) {
    for k in 0..n {
        let c = contents(k, (k * 9 % 40) as usize);
        for from in ROLES {
            let decoy = k % 2 == 1;
            let (mut ra, mut rb) = (p.ra.clone(), p.rb.clone());
            let (s, r, rf): (_, _, &mut refm_dir) = if is_ini(from) { (&mut p.a, &mut p.b, &mut ra.send) } else { (&mut p.b, &mut p.a, &mut rb.send) };
            let want = rf.packet(&c, decoy, &[]);
            let got = seal(EApi::Buf, s.outbound(), &c, ty(decoy), None).unwrap_or_else(|e| cx.fail(format!("encrypt after refused calls: {e:?}")));
            cx.check(got == want, || format!("packet sent by the {from:?} after refused calls is not the one prescribed"));
            let l = r.inbound().decrypt_packet_len(want[..3].try_into().unwrap());
            cx.check(l == want.len() - 3, || "length after refused calls".into());
            let o = open(api, r.inbound(), &want[3..], None);
            cx.check(matches!(&o.res, Ok((t, b)) if *t == ty(decoy) && b[1..] == c[..]), || format!("packet after refused calls is not decrypted ({api:?})"));
            p.ra = ra;
            p.rb = rb;
        }
    }
}
#[allow(non_camel_case_types)]
type refm_dir = crate::refm::Dir;

fn seqs(cx: &Cx, t: Tier, depth: usize) {
    let pos = cx.pick("position", &t.q(vec![1u64, 222, 223, 447], vec![1, 221, 222, 223, 224, 446, 447, 448]));
    let mut p = pair_at(cx, 1, pos, pos);
    for _ in 0..depth {
        // the packet the receiver would accept next
        let aad = b"assoc".to_vec();
        let mut probe = p.a.clone();
        let nx = seal(EApi::Buf, probe.outbound(), b"the next packet", PacketType::Genuine, Some(&aad)).unwrap_or_else(|e| cx.fail(format!("{e:?}")));
        let k = cx.choose("refused call", KINDS + 1);
        if k == KINDS {
            proceed(cx, &mut p, 1, Api::InPlace);
        } else {
            refuse(cx, &mut p, k, &nx[3..], &aad);
            // retry with the right buffer and packet, on a copy of the receiver and for real sometimes
            let mut c = p.b.clone();
            let mut o = vec![0; nx.len()];
            cx.check(c.inbound().decrypt(&nx[3..], &mut o, Some(&aad)) == Ok(PacketType::Genuine), || format!("retry after refused call {k} fails"));
        }
        cx.state(&(pos, k, p.ra.send.count()));
    }
    proceed(cx, &mut p, 4, Api::Decrypt);
}
/// Refused calls at every packet of a long session.
fn along(cx: &Cx, n: u64, k: usize) {
    let mut p = pair_at(cx, 1, 1, 1);
    for i in 0..n {
        let mut probe = p.a.clone();
        let nx = seal(EApi::Buf, probe.outbound(), b"the next packet", PacketType::Genuine, None).unwrap_or_else(|e| cx.fail(format!("{e:?}")));
        refuse(cx, &mut p, if k == 99 { (i % 16) as usize } else { k }, &nx[3..], &[]);
        proceed(cx, &mut p, 1, APIS[(i % 3) as usize]);
        cx.state(&(i, k));
    }
}
/// Handshake: an incomplete or refused garbage search can be retried; buffers that are too small
/// for a step are reported before anything is used up (checked on a fresh handshake).
fn hs(cx: &Cx) {
    let role = cx.pick("role", &ROLES);
    let glen = cx.pick("garbage", &[0usize, 5, 300]);
    let g = contents(1, glen);
    let peer_sk = secret(70);
    let s = sent(cx, MAGIC, role, secret(71), &g, &[vec![1; 3]], &ell(&peer_sk));
    let mut pr = Peer::new(role);
    pr.sk = peer_sk;
    pr.garbage = contents(2, 20);
    let mut r = pr.refr(&s.key[..64].try_into().unwrap());
    let (rest, _) = pr.rest(&mut r);
    let full = [&pr.garbage[..], &rest[..]].concat();
    let mut h = s.hs;
    // any three prefixes that do not contain the terminator
    for _ in 0..3 {
        let n = cx.choose("prefix", 36);
        match h.receive_garbage(&full[..n]) {
            Ok(bip324::GarbageResult::NeedMoreData(x)) => h = x,
            Ok(_) => cx.fail(format!("terminator found in a prefix of {n} bytes")),
            Err(e) => cx.fail(format!("garbage search refused on {n} bytes: {e:?}")),
        }
        cx.op();
    }
    match receive(cx, h, &full) {
        Hs::Done { used, .. } => cx.check(used == full.len(), || "bytes used".into()),
        _ => cx.fail("handshake does not complete after incomplete attempts"),
    }
    cx.state(&(glen, is_ini(role)));
}
fn too_large(decoy: bool) -> &'static bip324::io::Payload {
    static H: OnceLock<[bip324::io::Payload; 2]> = OnceLock::new();
    &H.get_or_init(|| [payload(false, huge()), payload(true, huge())])[decoy as usize]
}
/// The same through the drivers: payloads beyond the format, refused between others.
fn drivers(cx: &Cx, t: Tier) {
    let drv = cx.pick("driver", &DRVS);
    let role = cx.pick("role", &ROLES);
    let before = cx.pick("packets before", &t.q(vec![0usize, 222, 223], vec![0, 221, 222, 223, 224, 446]));
    let n = t.q(4, 6);
    let mut p = Peer::new(role);
    p.session = (0..n).map(|k| (if k == 1 { 128 } else { 0 }, contents(k as u64, 9 * k))).collect();
    let net = Net::new(cx, Some(p.clone()));
    cx.seed_fill(3);
    let Out::Ok(mut c) = connect(cx, drv, &net, MAGIC, role, None, None) else { cx.fail("handshake") };
    let mut all: Vec<(bool, Vec<u8>)> = vec![];
    let (mut reads, mut refused) = (0, 0);
    for k in 0..before + n {
        match if k < before { 0 } else { cx.choose("operation", 4) } {
            0 => {
                let x = (k % 3 == 1, contents(k as u64, k % 50));
                let r = c.write(cx, &net, &payload(x.0, &x.1));
                cx.check(r == Out::Ok(()), || format!("write after {refused} refused ones: {r:?}"));
                all.push(x);
            }
            1 => {
                let r = c.read(cx, &net);
                let w = &p.session[reads];
                cx.check(r == Out::Ok((w.0 == 128, w.1.clone())), || format!("read after {refused} refused writes: {}", short(&r)));
                reads += 1;
            }
            d => {
                let sent = net.l().out.len();
                let r = c.write(cx, &net, too_large(d == 3));
                cx.check(r == Out::Lib(Error::PacketTooBig), || format!("contents beyond the format: {r:?}"));
                cx.check(net.l().out.len() == sent, || "a refused write sends something".into());
                refused += 1;
            }
        }
        cx.op();
    }
    let (_, _, rest, mut r) = check_sent(cx, &net);
    let (got, tail) = crate::refm::parse_stream(&mut r.recv, &rest);
    let got: Vec<(bool, Vec<u8>)> = got.into_iter().map(|(h, c)| (h == 128, c)).collect();
    cx.check(tail == Ok(0) && got == all, || format!("after {refused} refused writes the peer decodes {} packets of {}, {tail:?}", got.len(), all.len()));
    cx.state(&(all, reads, refused));
}
/// And through the shaped connections.
fn shaped(cx: &Cx, t: Tier) {
    use crate::sh::*;
    let asy = cx.flag("asynchronous");
    let cfg = cx.pick("configuration", &CFG);
    let role = cx.pick("role", &ROLES);
    let ops: Vec<usize> = (0..t.q(4, 6)).map(|_| cx.choose("operation", 4)).collect();
    let net = Net::new(cx, Some(Peer::new(role)));
    words(cx, &net, Words::Fixed(0), Words::Fixed(HI));
    cx.seed_fill(8);
    let ok = |cx: &Cx, k: usize, r: Result<(), bip324::io::ProtocolError>| match r {
        Ok(()) => {}
        Err(e) => cx.fail(format!("shaped connection: write {k} after refused ones: {e:?}")),
    };
    let no = |cx: &Cx, r: Result<(), bip324::io::ProtocolError>| match r {
        Err(bip324::io::ProtocolError::Internal(Error::PacketTooBig)) => {}
        r => cx.fail(format!("shaped connection: contents beyond the format: {r:?}")),
    };
    let judge = |cx: &Cx, net: &Net, all: &[(bool, Vec<u8>)]| {
        let v = view(cx, net);
        cx.check(v.tail == 0, || "an unfinished packet at the end".into());
        subsequence(cx, &v, all, &vec![true; all.len()]);
        cx.ops(all.len() as u64);
        cx.state(&(v.packets.len(), v.total, all));
    };
    if asy {
        let cx2 = cx.clone();
        rt(cx, async move {
            let cx = &cx2;
            let r = bip324_traffic::futures::ShapedProtocol::new(MAGIC, role, config(cfg), net.clone(), net.clone()).await;
            let mut c = r.unwrap_or_else(|e| cx.fail(format!("handshake: {e:?}")));
            let mut all = vec![];
            for (k, o) in ops.into_iter().enumerate() {
                match o {
                    0 => anap(110).await,
                    1 => {
                        all.push((k % 2 == 1, msg(k, 5)));
                        ok(cx, k, c.write(&payload(k % 2 == 1, &msg(k, 5))).await)
                    }
                    d => no(cx, c.write(too_large(d == 3)).await),
                }
            }
            all.push((false, msg(9, 9)));
            ok(cx, 9, c.write(&payload(false, &msg(9, 9))).await);
            drop(c);
            anap(300).await;
            judge(cx, &net, &all);
        });
    } else {
        cx.threads(60_000, move |cx| {
            let r = bip324_traffic::io::ShapedProtocol::new(MAGIC, role, config(cfg), net.clone(), net.clone());
            let mut c = r.unwrap_or_else(|e| cx.fail(format!("handshake: {e:?}")));
            let mut all = vec![];
            for (k, o) in ops.into_iter().enumerate() {
                match o {
                    0 => nap(110),
                    1 => {
                        all.push((k % 2 == 1, msg(k, 5)));
                        ok(cx, k, c.write(&payload(k % 2 == 1, &msg(k, 5))))
                    }
                    d => no(cx, c.write(too_large(d == 3))),
                }
            }
            all.push((false, msg(9, 9)));
            ok(cx, 9, c.write(&payload(false, &msg(9, 9))));
            drop(c);
            judge(cx, &net, &all);
        });
    }
}
pub fn check(t: Tier) -> Check {
    let mut c = Check::new("C05", "model_checking",
        "every sequence of refused calls (21 kinds) up to the depth at positions next to key changes, and refused calls before every packet of a session over several key changes; afterwards every packet in both directions must equal the untouched reference and decrypt at the peer; likewise for all sequences of writes, reads and refused writes through the drivers and shaped connections");
    let d = t.q(3, 4);
    c.add(format!("sequences of refused calls, depth {d}"), 0, move |cx| seqs(cx, t, d));
    for k in [0usize, 3, 4, 8, 10, 11, 12, 13, 16, 99] {
        let n = if k == 3 { 30 } else { t.q(700, 5000) };
        c.add_long(format!("refused call {k} before each of {n} packets"), 0, 900, move |cx| along(cx, n, k));
    }
    c.add("incomplete garbage searches", 0, hs);
    c.add("writes refused by the drivers", 0, move |cx| drivers(cx, t));
    c.add("writes refused by shaped connections", 0, move |cx| shaped(cx, t));
    c
}
