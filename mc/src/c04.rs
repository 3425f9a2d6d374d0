//! Handshake bytes and derived session are exactly BIP-324.
use crate::engine::*;
use crate::fx::*;
use crate::refm::{self, Ref};
use bip324::{Error, Role};

fn secrets(n: usize) -> Vec<[u8; 32]> {
    let mut v = vec![];
    let mut one = [0u8; 32];
    one[31] = 1;
    v.push(one);
    one[31] = 2;
    v.push(one);
    // group order minus one and minus two
    let mut o: [u8; 32] = refm::unhex("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364140").try_into().unwrap();
    v.push(o);
    o[31] -= 1;
    v.push(o);
    let mut hi = [0u8; 32];
    hi[0] = 0x80;
    v.push(hi);
    while v.len() < n {
        v.push(secret(5000 + v.len() as u64));
    }
    v.truncate(n);
    v
}
/// Peer encodings: every 64-byte string is a valid one.
fn encodings(n: usize) -> Vec<[u8; 64]> {
    let p = refm::unhex("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f");
    let mut p1 = p.clone();
    p1[31] += 1;
    let z = vec![0u8; 32];
    let ff = vec![0xffu8; 32];
    let one: Vec<u8> = { let mut o = z.clone(); o[31] = 1; o };
    let mut v: Vec<[u8; 64]> = vec![];
    for a in [&z, &one, &p, &p1, &ff] {
        for b in [&z, &one, &p, &p1, &ff] {
            v.push([&a[..], &b[..]].concat().try_into().unwrap());
        }
    }
    for s in crate::vectors::VECTORS {
        v.push(refm::unhex(s.theirs).try_into().unwrap());
        v.push(refm::unhex(s.ours).try_into().unwrap());
    }
    let mut k = 0;
    while v.len() < n {
        v.push(det_bytes(8000 + k, 64).try_into().unwrap());
        k += 1;
    }
    v.truncate(n);
    v
}
fn magics() -> Vec<[u8; 4]> {
    vec![[0xf9, 0xbe, 0xb4, 0xd9], [0x0b, 0x11, 0x09, 0x07], [0x1c, 0x16, 0x3f, 0x28], [0xfa, 0xbf, 0xb5, 0xda], [0x0a, 0x03, 0xcf, 0x40], [0, 0, 0, 0], [0xff; 4], [1, 2, 3, 4]]
}
fn garbages() -> Vec<Option<Vec<u8>>> {
    let mut v = vec![None, Some(vec![])];
    for n in [1usize, 2, 15, 16, 17, 63, 64, 255, 256, 1000, 4094, 4095] {
        v.push(Some(contents(n as u64, n)));
    }
    v.push(Some(vec![0; 100]));
    v
}
fn decoy_lists() -> Vec<Option<Vec<Vec<u8>>>> {
    let c = |n: usize| contents(60 + n as u64, n);
    vec![None, Some(vec![]), Some(vec![c(0)]), Some(vec![c(1)]), Some(vec![c(5), c(0), c(300)]), Some(vec![c(70_000)]), Some((0..230).map(|k| c(k % 4)).collect())]
}
/// Does the encoding denote the public key of the secret (up to sign)?
fn encodes(k: &[u8], sk: &[u8; 32]) -> bool {
    let e: [u8; 64] = k.try_into().unwrap();
    let p = secp256k1::PublicKey::from_ellswift(secp256k1::ellswift::ElligatorSwift::from_array(e));
    let q = secp256k1::SecretKey::from_slice(sk).unwrap().public_key(secp());
    p.x_only_public_key().0 == q.x_only_public_key().0
}
fn run(cx: &Cx, magic: [u8; 4], role: Role, sk: [u8; 32], peer: [u8; 64], garbage: Option<&[u8]>, decoys: Option<&[Vec<u8>]>, pg: &[u8], pd: &[Vec<u8>]) {
    let s = match try_sent(cx, magic, role, sk, garbage, decoys, &peer) {
        Ok(s) => s,
        Err(e) => {
            // only a peer that looks like V1 may be refused
            cx.check(peer[..4] == magic, || format!("handshake step refused: {e}"));
            cx.outcome("v1");
            return;
        }
    };
    cx.check(peer[..4] != magic, || "V1 peer not recognised".into());
    let g = garbage.unwrap_or(&[]);
    cx.check(s.key.len() == 64 + g.len() && s.key[64..] == *g, || "key and garbage bytes are not key followed by garbage".into());
    cx.check(encodes(&s.key[..64], &sk), || "the key sent does not encode the public key of the secret".into());
    let mine: [u8; 64] = s.key[..64].try_into().unwrap();
    let (i, r) = if is_ini(role) { (mine, peer) } else { (peer, mine) };
    let k = refm::keys(&i, &r, &sk, is_ini(role), &magic);
    let mut local = Ref::new(&k, is_ini(role));
    let mut remote = Ref::new(&k, !is_ini(role));
    let want = local.version_flight(g, decoys.unwrap_or(&[]));
    if s.version != want {
        let at = s.version.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(want.len().min(s.version.len()));
        cx.fail(format!("terminator/decoys/version differ from BIP-324 at byte {at} of {}", want.len()))
    }
    let mut flight = pg.to_vec();
    flight.extend(remote.version_flight(pg, pd));
    match receive(cx, s.hs, &flight) {
        Hs::Done { used, mut cipher, decoys: nd } => {
            cx.check(used == flight.len(), || format!("handshake used {used} of {} bytes", flight.len()));
            cx.check(nd == pd.len(), || "number of decoys".into());
            cx.check(*cipher.id() == k.session_id, || "session id differs from BIP-324".into());
            for n in 0..3u64 {
                let c = contents(n, 7 * n as usize);
                let got = seal(EApi::Buf, cipher.outbound(), &c, ty(n == 1), None);
                let w = local.send.packet(&c, n == 1, &[]);
                cx.check(got.as_ref().ok() == Some(&w), || format!("packet {n} after the handshake differs"));
                let p = remote.send.packet(&c, n == 1, &[]);
                let l = cipher.inbound().decrypt_packet_len(p[..3].try_into().unwrap());
                cx.check(l == p.len() - 3, || format!("length of packet {n} after the handshake"));
                let o = open(Api::Decrypt, cipher.inbound(), &p[3..], None);
                cx.check(matches!(&o.res, Ok((t, b)) if *t == ty(n == 1) && b[1..] == c[..]), || format!("packet {n} of the peer after the handshake is not understood"));
            }
        }
        Hs::Need => cx.fail("the handshake of an independent peer does not complete (more bytes wanted)"),
        Hs::Err(e) => cx.fail(format!("the handshake of an independent peer fails: {e:?}")),
    }
    cx.state(&(k.session_id, garbage.map(|g| g.len()), decoys.map(|d| d.len()), pg.len()));
    cx.outcome("complete");
}
fn shapes(cx: &Cx) {
    let role = cx.pick("role", &ROLES);
    let magic = cx.pick("magic", &[MAGIC, [0, 0, 0, 0]]);
    let g = cx.pick("garbage", &garbages());
    let d = cx.pick("decoys", &decoy_lists());
    let pg = cx.pick("peer garbage", &garbages()).unwrap_or_default();
    let pd = cx.pick("peer decoys", &decoy_lists()).unwrap_or_default();
    run(cx, magic, role, secret(31), ell(&secret(32)), g.as_deref(), d.as_deref(), &pg, &pd);
}
fn keys(cx: &Cx, t: Tier) {
    let role = cx.pick("role", &ROLES);
    let sk = cx.pick("secret", &secrets(t.q(24, 120)));
    let peer = cx.pick("peer encoding", &encodings(t.q(80, 400)));
    let magic = cx.pick("magic", &magics()[..t.q(3, 8)]);
    let g = contents(3, 9);
    run(cx, magic, role, sk, peer, Some(&g), None, &g[..4], &[vec![1, 2, 3]]);
}
fn magic_all(cx: &Cx, t: Tier) {
    // every byte value at every position of the magic
    let role = cx.pick("role", &ROLES);
    let pos = cx.choose("byte", 4);
    let val = cx.choose("value", 256) as u8;
    let base = cx.pick("base", &magics()[..t.q(2, 8)]);
    let mut m = base;
    m[pos] = val;
    run(cx, m, role, secret(33), ell(&secret(34)), None, None, &[], &[]);
}
fn bad_secret(cx: &Cx) {
    let role = cx.pick("role", &ROLES);
    let v = cx.pick("secret", &["fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364142", "ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"]);
    let sk: [u8; 32] = refm::unhex(v).try_into().unwrap();
    let r = bip324::Handshake::<bip324::Initialized>::new_with_rng(MAGIC, role, &mut FixRng(sk), secp());
    cx.op();
    match r {
        Err(Error::SecretGeneration(_)) => cx.outcome("refused"),
        Err(e) => cx.fail(format!("secret outside the group order reported as {e:?}")),
        Ok(_) => cx.fail("secret outside the group order accepted"),
    }
}
/// Two real ends, different networks.
fn networks(cx: &Cx) {
    let mut all = magics();
    for i in 0..32 {
        let mut m = MAGIC;
        m[i / 8] ^= 1 << (i % 8);
        all.push(m);
    }
    let (i, j) = (cx.choose("initiator network", all.len()), cx.choose("responder network", all.len()));
    let (ska, skb) = (secret(41), secret(42));
    let key = |m, r, sk| -> [u8; 64] {
        let mut k = [0u8; 64];
        if start(cx, m, r, sk).send_key(None, &mut k).is_err() { cx.fail("send_key fails") }
        k
    };
    let (ka, kb) = (key(all[i], Role::Initiator, ska), key(all[j], Role::Responder, skb));
    let (Ok(a), Ok(b)) = (
        try_sent(cx, all[i], Role::Initiator, ska, Some(&[5; 30]), Some(&[vec![1; 10]]), &kb),
        try_sent(cx, all[j], Role::Responder, skb, Some(&[6; 10]), None, &ka),
    ) else {
        cx.outcome("v1");
        return;
    };
    let fa = [&a.key[64..], &a.version[..], &[0u8; 5000]].concat();
    let fb = [&b.key[64..], &b.version[..], &[0u8; 5000]].concat();
    for (h, f, who) in [(a.hs, fb, "initiator"), (b.hs, fa, "responder")] {
        let done = matches!(receive(cx, h, &f), Hs::Done { .. });
        cx.check(done == (all[i] == all[j]), || format!("{who}: networks {:02x?} and {:02x?}: complete={done}", all[i], all[j]));
    }
    cx.outcome(if all[i] == all[j] { "same" } else { "different" });
    cx.state(&(i, j));
}
/// The same through the drivers.
fn drivers(cx: &Cx) {
    let drv = cx.pick("driver", &DRVS);
    let role = cx.pick("role", &ROLES);
    let magic = cx.pick("magic", &magics());
    let g = cx.pick("garbage", &[None, Some(vec![]), Some(contents(1, 40)), Some(contents(2, 4095))]);
    let d = cx.pick("decoys", &decoy_lists()[..5]);
    let pd = cx.pick("peer decoys", &decoy_lists()[..5]);
    let mut p = Peer::new(role);
    p.magic = magic;
    p.garbage = cx.pick("peer garbage", &[vec![], contents(3, 33), contents(3, 4095)]);
    p.hs = pd.unwrap_or_default().into_iter().map(|c| (128, c)).chain([(0, vec![])]).collect();
    p.session = vec![(0, contents(4, 50)), (128, vec![])];
    let other_net = cx.flag("peer on another network");
    if other_net {
        p.magic[2] ^= 0x10;
    }
    let net = Net::new(cx, Some(p.clone()));
    cx.seed_fill(cx.choose("local secret", 2) as u64);
    net.l().end = End::Eof;
    let r = connect(cx, drv, &net, magic, role, g.clone(), d.clone());
    if other_net {
        cx.check(!matches!(r, Out::Ok(_)), || "handshake completes with a peer of another network".into());
        cx.outcome("refused");
        return;
    }
    let mut c = match r {
        Out::Ok(c) => c,
        Out::Io(k, _) => cx.fail(format!("handshake with an independent peer: {k:?}")),
        Out::Lib(e) => cx.fail(format!("handshake with an independent peer: {e:?}")),
        Out::Wait => cx.fail("handshake with an independent peer hangs"),
    };
    let (sg, sd, rest, mut rf) = check_sent(cx, &net);
    cx.check(sg == g.unwrap_or_default(), || "garbage sent is not the garbage given".into());
    cx.check(sd == d.unwrap_or_default(), || "decoys sent are not the decoys given".into());
    cx.check(rest.is_empty(), || "bytes sent after the handshake".into());
    for (h, w) in &p.session {
        let x = c.read(cx, &net);
        cx.check(x == Out::Ok((h & 0x80 != 0, w.clone())), || format!("session packet of an independent peer: {}", short(&x)));
    }
    let x = c.write(cx, &net, &payload(false, b"hello"));
    cx.check(x == Out::Ok(()), || format!("write: {}", short(&x)));
    let (_, _, rest, _) = check_sent(cx, &net);
    let (got, _) = refm::parse_stream(&mut rf.recv, &rest);
    cx.check(got == vec![(0, b"hello".to_vec())], || "session packet not understood by an independent peer".into());
    cx.outcome("complete");
    cx.state(&(rf.session_id, sg.len(), sd.len()));
}
pub fn check(t: Tier) -> Check {
    let mut c = Check::new("C04", "model_checking",
        "every combination of role, network, secret, peer encoding, garbage and decoy list in the listed sets, real handshake in lock-step with an independent BIP-324 handshake: all bytes sent, session id, terminator, keys in both directions must be equal; all pairs of networks must not complete unless equal");
    c.add("garbage and decoy shapes", 0, shapes);
    c.add("secrets and peer encodings", 0, move |cx| keys(cx, t));
    c.add("every magic byte", 0, move |cx| magic_all(cx, t));
    c.add("secrets outside the group", 0, bad_secret);
    c.add("pairs of networks", 0, networks);
    c.add("drivers", 0, drivers);
    c.assume("x-only ECDH and ElligatorSwift decoding are libsecp256k1's on both sides; key derivation, hashing and packets are independent");
    c
}
