//! Every packet on the wire is the one BIP-324 prescribes.
use crate::engine::*;
use crate::fx::*;
use bip324::{InboundCipher, OutboundCipher, PacketType, Role};

/// Real sender against the reference, and reference sender against the real receiver.
struct Both {
    out: OutboundCipher,
    inb: InboundCipher,
    /// what `out` should produce / what feeds `inb`
    rs: crate::refm::Dir,
    rf: crate::refm::Dir,
    n: u64,
}
fn step(cx: &Cx, b: &mut Both, c: &[u8], decoy: bool, aad: Option<&[u8]>, ea: EApi, api: Api) {
    cx.op();
    let want = b.rs.packet(c, decoy, aad.unwrap_or(&[]));
    match seal(ea, &mut b.out, c, ty(decoy), aad) {
        Ok(v) => {
            if v != want {
                let k = v.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(v.len().min(want.len()));
                let part = if k < 3 { "length" } else if k + 16 >= want.len() { "tag" } else if k == 3 { "header" } else { "contents" };
                cx.fail(format!("packet {} ({} bytes of contents, {ea:?}): the {part} on the wire is not the one prescribed", b.n, c.len()))
            }
        }
        Err(e) => cx.fail(format!("packet {} ({} bytes) refused: {e:?}", b.n, c.len())),
    }
    let v = b.rf.packet(c, decoy, aad.unwrap_or(&[]));
    let l = b.inb.decrypt_packet_len(v[..3].try_into().unwrap());
    cx.check(l == v.len() - 3, || format!("length of packet {} of an independent sender decrypts to {l} instead of {}", b.n, v.len() - 3));
    match open(api, &mut b.inb, &v[3..], aad).res {
        Ok((t, pt)) => cx.check(t == ty(decoy) && pt[1..] == *c, || format!("packet {} of an independent sender is decoded to something else ({api:?})", b.n)),
        Err(e) => cx.fail(format!("packet {} of an independent sender is rejected: {e:?} ({api:?})", b.n)),
    }
    b.n += 1;
}
fn both(p: Pair, end: Role, n: u64) -> Both {
    let (s, r) = match end {
        Role::Initiator => (p.a, p.ra),
        Role::Responder => (p.b, p.rb),
    };
    let (inb, out) = s.into_split();
    Both { out, inb, rs: r.send, rf: r.recv, n }
}
/// Every packet index of a session.
fn sweep(cx: &Cx, n: u64, seed: u64, end: Role) {
    let p = if seed < 100 { pair_at(cx, seed, 1, 1) } else { new_pair(cx, [seed as u8, 0, 0xff, 1], seed) };
    let mut b = both(p, end, 1);
    let pool = det_bytes(seed, 700);
    for k in 0..n {
        let len = ((k * 5) % 83) as usize + if k % 128 == 0 { 260 } else { 0 };
        let aad = match k % 7 {
            0 => Some(&pool[..(k % 40) as usize]),
            1 => Some(&pool[..0]),
            _ => None,
        };
        step(cx, &mut b, &pool[(k % 250) as usize..][..len], k % 3 == 1, aad, [EApi::Buf, EApi::ToVec][(k % 2) as usize], APIS[(k % 3) as usize]);
        if k % 31 == 0 {
            cx.state(&(seed, is_ini(end), k));
        }
    }
}
/// Every contents length and every associated-data length, next to key changes.
fn lengths(cx: &Cx, t: Tier) {
    let block = cx.choose("block of lengths", t.q(66, 80));
    let end = cx.pick("end", &ROLES);
    let mut b = both(pair_at(cx, 1, 200, 200), end, 200);
    let pool = det_bytes(4, 6000);
    for len in block * 64..(block + 1) * 64 {
        cx.case(&(len, is_ini(end)));
        step(cx, &mut b, &pool[len % 11..][..len], len % 2 == 0, None, [EApi::Buf, EApi::ToVec][len % 2], APIS[len % 3]);
    }
}
fn large(cx: &Cx, t: Tier) {
    let from = cx.pick("sender", &ROLES);
    let n = cx.pick("bytes", &around(t.q(vec![8u32, 10, 12, 13, 14, 15, 16, 17, 18, 20], (7..22).collect()), MAX_CONTENTS));
    let which = cx.choose("of", 3);
    let api = cx.pick("api", &APIS);
    let ea = cx.pick("entry", &[EApi::Buf, EApi::ToVec]);
    let mut b = both(pair_at(cx, 1, 223, 223), from, 223);
    for k in 0..3u64 {
        let (c, a) = if k != 1 { (9, 5) } else { [(n, 5), (9, n), (n, n)][which] };
        step(cx, &mut b, &contents(k, c), false, Some(&contents(k + 9, a)), ea, api);
    }
}
fn aads(cx: &Cx, t: Tier) {
    let block = cx.choose("block of aad lengths", t.q(20, 66));
    let end = cx.pick("end", &ROLES);
    let pos = cx.pick("position", &[1u64, 222, 223]);
    let clen = cx.pick("contents length", &[0usize, 1, 15, 16, 64]);
    let mut b = both(pair_at(cx, 1, pos, pos), end, pos);
    let pool = det_bytes(5, 6000);
    for al in block * 64..(block + 1) * 64 {
        cx.case(&(al, clen, pos, is_ini(end)));
        step(cx, &mut b, &pool[..clen], al % 2 == 0, Some(&pool[al % 5..][..al]), EApi::Buf, APIS[al % 3]);
    }
}
fn big(cx: &Cx) {
    let len = cx.pick("length", &[65_535usize, 65_536, 65_537, 1_048_576, 4_000_013, 4_000_014, 16_777_215]);
    let end = cx.pick("end", &ROLES);
    let mut b = both(pair_at(cx, 1, 222, 222), end, 222);
    let c = vec![0x11u8; len];
    let api = if len > MAX_CONTENTS { Api::Decrypt } else { cx.pick("api", &APIS) };
    step(cx, &mut b, &c, false, None, EApi::Buf, api);
    step(cx, &mut b, b"after", true, None, EApi::ToVec, Api::ToVec);
}
/// Sequences of packet shapes around the key change: everything of depth d.
fn shapes(cx: &Cx, depth: usize) {
    let end = cx.pick("end", &ROLES);
    let pos = cx.pick("position", &[1u64, 222, 223, 446, 447]);
    let seed = cx.pick("keys", &[1u64, 2, 3]);
    let mut b = both(pair_at(cx, seed, pos, pos), end, pos);
    for _ in 0..depth {
        let k = cx.choose("shape", 12);
        let c = contents(k as u64, [0, 1, 12, 63, 64, 65][k % 6]);
        let aad = contents(50 + k as u64, if k < 6 { 0 } else { [1, 16, 17, 4095, 0, 64][k % 6] });
        step(cx, &mut b, &c, k % 2 == 1, if k == 3 { None } else { Some(&aad) }, [EApi::Buf, EApi::ToVec][k / 6], APIS[k % 3]);
        cx.state(&(b.rs.fp(), k));
    }
}
/// Packet lengths far beyond 2^32: only the length cipher is driven, its key chain is the reference's.
pub fn long_lengths(cx: &Cx, n: u64) {
    let p = pair_at(cx, 1, 1, 1);
    let mut inb = p.b.into_split().0;
    let mut r = p.ra.send;
    let sync_every = 224 * 10_000;
    let mut k = 1u64;
    while k < n {
        // the reference skips over a stretch, the real cipher walks it
        let stretch = sync_every.min(n - k);
        for _ in 0..stretch {
            inb.decrypt_packet_len([0; 3]);
        }
        r.skip_len(stretch);
        k += stretch;
        let b = r.only_len(12345);
        let l = inb.decrypt_packet_len(b);
        k += 1;
        cx.check(l == 12345 + 17, || format!("length of packet {k} decrypts to {l} instead of {}", 12345 + 17));
        cx.state(&k);
    }
    for _ in 0..400 {
        let b = r.only_len(777);
        let l = inb.decrypt_packet_len(b);
        cx.check(l == 777 + 17, || format!("length of packet {k} decrypts to {l}"));
        k += 1;
    }
}
/// Packets far into a session: the real sender walks, the reference jumps; compared at every key
/// change and one packet around it for the first and every 97th key, and at the end.
fn stride(cx: &Cx, n: u64, end: Role) {
    let mut b = both(pair_at(cx, 1, 1, 1), end, 1);
    let mut buf = [0u8; 20];
    let mut behind = 0;
    while b.n < n {
        let (e, r) = (b.n / 224, b.n % 224);
        if e % 97 == 0 && (r < 2 || r > 221) {
            b.rs.skip(behind);
            b.rf.skip(0);
            behind = 0;
            let want = b.rs.packet(b"x", false, b"");
            let mut got = [0u8; 21];
            if let Err(x) = b.out.encrypt(b"x", &mut got, PacketType::Genuine, None) {
                cx.fail(format!("packet {} refused: {x:?}", b.n));
            }
            cx.check(got[..] == want[..], || format!("packet {} is not the one prescribed", b.n));
            cx.state(&b.n);
        } else {
            if let Err(x) = b.out.encrypt(&[], &mut buf, PacketType::Genuine, None) {
                cx.fail(format!("packet {} refused: {x:?}", b.n));
            }
            behind += 1;
        }
        b.n += 1;
    }
}
/// The seven vectors published with the BIP, with a real session built from their keys.
fn vectors(cx: &Cx) {
    let i = cx.choose("vector", crate::vectors::VECTORS.len());
    let v = &crate::vectors::VECTORS[i];
    use secp256k1::ellswift::{ElligatorSwift, ElligatorSwiftParty};
    let arr = |s: &str| -> [u8; 64] { crate::refm::unhex(s).try_into().unwrap() };
    let sk: [u8; 32] = crate::refm::unhex(v.sk).try_into().unwrap();
    let (ours, theirs) = (arr(v.ours), arr(v.theirs));
    let (a, b) = if v.initiator { (ours, theirs) } else { (theirs, ours) };
    let km = bip324::SessionKeyMaterial::from_ecdh(
        ElligatorSwift::from_array(a),
        ElligatorSwift::from_array(b),
        secp256k1::SecretKey::from_slice(&sk).unwrap(),
        if v.initiator { ElligatorSwiftParty::A } else { ElligatorSwiftParty::B },
        MAGIC,
    );
    match km {
        Ok(k) => cx.check(v.id.is_empty() || k.session_id.to_vec() == crate::refm::unhex(v.id), || format!("session id of published vector {i} differs")),
        Err(e) => cx.fail(format!("published vector {i}: {e:?}")),
    }
    cx.state(&i);
}
pub fn check(t: Tier) -> Check {
    let mut c = Check::new("C03", "model_checking",
        "lock-step exploration of the real ciphers and an independently written BIP-324 reference (self-tested on the published vectors): every packet index of long sessions, every contents and associated-data length in range, every sequence of packet shapes up to the depth next to key changes; bytes must be identical");
    let d = t.q(4, 5);
    c.add(format!("shape sequences depth {d}"), 0, move |cx| shapes(cx, d));
    c.add("every contents length", 0, move |cx| lengths(cx, t));
    c.add("every order of magnitude", 0, move |cx| large(cx, t));
    c.add("every associated-data length", 0, move |cx| aads(cx, t));
    c.add("large contents", 0, big);
    c.add("published vectors", 0, vectors);
    for end in ROLES {
        for s in [40u64, 41, 141] {
            let n = t.q(60_000, 1_500_000);
            c.add_long(format!("session of {n} packets, {end:?}, keys {s}"), 0, 3600, move |cx| sweep(cx, n, s, end));
        }
    }
    for end in ROLES {
        c.add_long("session of 15000000 minimal packets (epoch number beyond 16 bits), ".to_string() + if is_ini(end) { "initiator" } else { "responder" }, 0, 900, move |cx| stride(cx, 15_000_000, end));
    }
    if t == Tier::Thorough {
        c.add_long("session of 15000000 packets (epoch number beyond 16 bits)", 0, 7200, |cx| sweep(cx, 15_000_000, 42, Role::Initiator));
        c.add_long("2^32 + 500 packet lengths", 0, 7200, |cx| long_lengths(cx, (1 << 32) + 500));
    }
    let _ = PacketType::Genuine;
    c
}
