//! Announced buffer sizes are exact and never overrun.
use crate::engine::*;
use crate::fx::*;
use crate::refm;
use bip324::{Error, Handshake, Initialized, OutboundCipher, InboundCipher, ReceivedKey, Role};

/// A buffer of `n` usable bytes between guards.
struct Guard {
    mem: Vec<u8>,
    n: usize,
    pat: u8,
}
const PAD: usize = 32;
impl Guard {
    fn new(n: usize, pat: u8) -> Self {
        Guard { mem: vec![pat; n + 2 * PAD], n, pat }
    }
    fn buf(&mut self) -> &mut [u8] {
        &mut self.mem[PAD..PAD + self.n]
    }
    /// everything but the first `w` usable bytes is as it was
    fn intact(&self, cx: &Cx, w: usize, what: &dyn Fn() -> String) {
        for (i, b) in self.mem.iter().enumerate() {
            if (i < PAD || i >= PAD + w) && *b != self.pat {
                cx.fail(format!("{}: byte {} past the {w} bytes to write was changed", what(), i as isize - PAD as isize));
            }
        }
    }
    fn head(&self, w: usize) -> &[u8] {
        &self.mem[PAD..PAD + w]
    }
}
/// Sizes to try around what is needed.
fn sizes(need: usize, dense: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=need.min(dense)).collect();
    v.extend(need.saturating_sub(40)..=need + 40);
    v.extend([need + 255, need + 256, need + 4096, need * 2]);
    let mut k = 1;
    while k < need {
        v.extend([k - 1, k, k + 1]);
        k *= 2;
    }
    for x in [64usize, 80, 100, 4095, 4111, 4159] {
        v.push(x);
    }
    v.sort();
    v.dedup();
    v
}
fn small<T>(cx: &Cx, r: &Result<T, Error>, need: usize, n: usize, what: &dyn Fn() -> String) {
    match r {
        Err(Error::BufferTooSmall { required_bytes }) if *required_bytes == need => {}
        Err(e) => cx.fail(format!("{}: a buffer of {n} instead of {need} bytes: {e:?}", what())),
        Ok(_) => cx.fail(format!("{}: a buffer of {n} bytes is accepted, {need} are needed", what())),
    }
}
fn send_key(cx: &Cx, t: Tier) {
    let role = cx.pick("role", &ROLES);
    let g = cx.pick("garbage", &t.q((0..64usize).chain([100, 255, 256, 1000, 4031, 4094, 4095]).collect::<Vec<_>>(), (0..4096).collect()));
    let none = g == 0 && cx.flag("None");
    let gb = contents(1, g);
    let ga = if none { None } else { Some(&gb[..]) };
    let need = Handshake::<Initialized>::send_key_len(ga);
    cx.check(need == 64 + g, || format!("send_key_len is {need} for {g} bytes of garbage"));
    let sk = secret(3);
    for n in sizes(need, t.q(130, 90)) {
        let pat = 0x11 + (n % 7) as u8;
        let mut b = Guard::new(n, pat);
        let h = start(cx, MAGIC, role, sk);
        let r = h.send_key(ga, b.buf());
        cx.case(&(g, n));
        let what = || format!("send_key with {g} bytes of garbage");
        if n < need {
            small(cx, &r, need, n, &what);
            b.intact(cx, n, &what);
        } else {
            let Ok(h) = r else { cx.fail(format!("{}: refuses a buffer of {n} bytes, {need} announced", what())) };
            b.intact(cx, need, &what);
            cx.check(b.head(need)[64..] == gb[..], || "garbage differs".into());
            // the key is usable: an independent peer derives the same session from it
            if n == need {
                let k: [u8; 64] = b.head(64).try_into().unwrap();
                let peer = Peer::new(role);
                let Ok(h) = h.receive_key(peer.ell()) else { cx.fail("receive_key fails") };
                let mut v = vec![0; Handshake::<ReceivedKey>::send_version_len(None)];
                if let Err(e) = h.send_version(&mut v, None) {
                    cx.fail(format!("send_version: {e:?}"));
                }
                let mut rf = peer.refr(&k);
                let mut fl = gb.clone();
                fl.extend(&v);
                let x = refm::read_flight(&mut rf, &fl);
                cx.check(matches!(x, refm::HsRead::Done { garbage, .. } if garbage == g), || format!("{}: an independent peer cannot use it: {}", what(), short(&x)));
            }
        }
    }
}
fn send_version(cx: &Cx, t: Tier) {
    let role = cx.pick("role", &ROLES);
    let lists: Vec<Option<Vec<usize>>> = {
        let mut v = vec![None, Some(vec![]), Some(vec![0]), Some(vec![1]), Some(vec![0, 0]), Some(vec![5, 0, 9]), Some(vec![300]), Some(vec![1, 2, 3, 4, 5]), Some(vec![0; 12]), Some(vec![1024; 3])];
        if t == Tier::Thorough {
            v.extend((2..70).map(|n| Some(vec![n])));
            v.extend((0..30).map(|n| Some(vec![n, 30 - n, n / 2])));
            v.push(Some(vec![70_000, 1]));
            v.push(Some(vec![0; 250]));
        }
        v
    };
    let l = cx.pick("decoys", &lists);
    let d: Option<Vec<Vec<u8>>> = l.as_ref().map(|l| l.iter().enumerate().map(|(i, n)| contents(i as u64, *n)).collect());
    let refs: Option<Vec<&[u8]>> = d.as_ref().map(|d| d.iter().map(|x| &x[..]).collect());
    let need = Handshake::<ReceivedKey>::send_version_len(refs.as_deref());
    let sum: usize = l.iter().flatten().map(|n| 20 + n).sum::<usize>() + 36;
    cx.check(need == sum, || format!("send_version_len is {need} for decoys {l:?}, the packets take {sum}"));
    let peer = Peer::new(role);
    let sk = secret(3);
    let gb = contents(7, 5);
    // the correct bytes
    let mut kb = vec![0; 69];
    let Ok(h0) = start(cx, MAGIC, role, sk).send_key(Some(&gb), &mut kb) else { cx.fail("send_key") };
    drop(h0);
    for n in sizes(need, t.q(150, 400)) {
        let mut k = vec![0; 69];
        let Ok(h) = start(cx, MAGIC, role, sk).send_key(Some(&gb), &mut k) else { cx.fail("send_key") };
        let Ok(h) = h.receive_key(peer.ell()) else { cx.fail("receive_key") };
        let mut b = Guard::new(n, 0x21 + (n % 5) as u8);
        let r = h.send_version(b.buf(), refs.as_deref());
        cx.case(&(&l, n));
        let what = || format!("send_version with decoys {l:?}");
        if n < need {
            small(cx, &r, need, n, &what);
            b.intact(cx, n, &what);
        } else {
            if let Err(e) = r {
                cx.fail(format!("{}: refuses a buffer of {n} bytes, {need} announced: {e:?}", what()));
            }
            b.intact(cx, need, &what);
            let kk: [u8; 64] = k[..64].try_into().unwrap();
            let mut rf = peer.refr(&kk);
            let mut w = rf.recv_term.to_vec();
            let mut aad = &gb[..];
            for x in d.iter().flatten() {
                w.extend(rf.recv.packet(x, true, aad));
                aad = &[];
            }
            w.extend(rf.recv.packet(&[], false, aad));
            cx.check(b.head(need) == &w[..], || format!("{}: bytes differ from the prescribed ones", what()));
        }
    }
}
fn encrypt(cx: &Cx, t: Tier) {
    let from = cx.pick("sender", &ROLES);
    let p = cx.pick("packets before", &[0u64, 1, 222, 223]);
    let n = cx.pick("contents", &t.q((0..34usize).chain([63, 64, 65, 255, 256, 1000, 4096]).collect::<Vec<_>>(), (0..700).chain([1023, 1024, 4095, 4096, 65_535, 65_536]).collect()));
    let al = cx.pick("associated data", &[0usize, 5]);
    let decoy = cx.flag("decoy");
    let need = OutboundCipher::encryption_buffer_len(n);
    cx.check(need == n + 20, || format!("encryption_buffer_len({n}) is {need}"));
    let (s, _, d) = pair_at(cx, 17, p + 1, p + 1).towards(from);
    let c = contents(n as u64, n);
    let aad = contents(9, al);
    let w = d.clone().packet(&c, decoy, &aad);
    for bl in sizes(need, t.q(60, 60)) {
        let mut s = s.clone();
        let mut b = Guard::new(bl, 0x31 + (bl % 3) as u8);
        let r = s.encrypt(&c, b.buf(), ty(decoy), if al == 0 { None } else { Some(&aad) });
        cx.case(&(n, bl, al, decoy, p));
        let what = || format!("encrypt {n} bytes");
        if bl < need {
            small(cx, &r, need, bl, &what);
            b.intact(cx, bl, &what);
            // and again with the announced size
            let mut b = Guard::new(need, 0x77);
            let r = s.encrypt(&c, b.buf(), ty(decoy), if al == 0 { None } else { Some(&aad) });
            cx.check(r.is_ok() && b.head(need) == &w[..], || format!("{}: the retry with {need} bytes after {bl} were refused: {r:?}", what()));
        } else {
            cx.check(r.is_ok(), || format!("{}: refuses a buffer of {bl} bytes: {r:?}", what()));
            b.intact(cx, need, &what);
            cx.check(b.head(need) == &w[..], || format!("{}: bytes differ", what()));
        }
    }
}
fn decrypt(cx: &Cx, t: Tier) {
    let from = cx.pick("sender", &ROLES);
    let p = cx.pick("packets before", &[0u64, 1, 222, 223]);
    let n = cx.pick("contents", &t.q((0..34usize).chain([63, 64, 65, 255, 256, 1000, 4096]).collect::<Vec<_>>(), (0..700).chain([1023, 1024, 4095, 4096, 65_535, 65_536]).collect()));
    let al = cx.pick("associated data", &[0usize, 5]);
    let hdr = cx.pick("header", &[0u8, 128, 0x7f]);
    let need = InboundCipher::decryption_buffer_len(n + 17);
    cx.check(need == n + 1, || format!("decryption_buffer_len({}) is {need}", n + 17));
    let (_, mut r, mut d) = pair_at(cx, 17, p + 1, p + 1).towards(from);
    let c = contents(n as u64, n);
    let aad = contents(9, al);
    let ct = d.packet_hdr(&c, hdr, &aad);
    let l = r.decrypt_packet_len(ct[..3].try_into().unwrap());
    cx.check(l == n + 17, || format!("length {l}"));
    let a = if al == 0 { None } else { Some(&aad[..]) };
    for bl in sizes(need, t.q(60, 60)) {
        let mut r = r.clone();
        let mut b = Guard::new(bl, 0x41 + (bl % 3) as u8);
        let x = r.decrypt(&ct[3..], b.buf(), a);
        cx.case(&(n, bl, al, hdr, p));
        let what = || format!("decrypt {n} bytes of contents");
        let good = |b: &Guard| b.head(need)[1..] == c[..] && (b.head(1)[0] & 0x80 != 0) == (hdr & 0x80 != 0);
        if bl < need {
            small(cx, &x, need, bl, &what);
            b.intact(cx, bl, &what);
            let mut b = Guard::new(need, 0x78);
            let x = r.decrypt(&ct[3..], b.buf(), a);
            cx.check(x.is_ok() && good(&b), || format!("{}: the retry with {need} bytes after {bl} were refused: {x:?}", what()));
        } else {
            cx.check(x.is_ok(), || format!("{}: refuses a buffer of {bl} bytes: {x:?}", what()));
            b.intact(cx, need, &what);
            cx.check(good(&b), || format!("{}: contents differ", what()));
        }
    }
    // in place: nothing but the packet itself is touched, and the result lies within it
    let mut g = Guard::new(ct.len() - 3, 0x55);
    g.buf().copy_from_slice(&ct[3..]);
    let mut r2 = r.clone();
    let (ok, len) = match r2.decrypt_in_place(g.buf(), a) {
        Ok((_, pt)) => (pt[1..] == c[..], pt.len()),
        Err(_) => (false, 0),
    };
    cx.check(ok && len == n + 1, || format!("in place: {len} bytes"));
    g.intact(cx, n + 17, &|| "decrypt in place".into());
}
/// Handshake receiving steps never touch bytes outside the packet they are given.
fn receive(cx: &Cx, _t: Tier) {
    let role = cx.pick("role", &ROLES);
    let n = cx.choose("contents", 40);
    let hdr = cx.pick("header", &[0u8, 128]);
    let mut peer = Peer::new(role);
    peer.garbage = vec![1, 2, 3];
    peer.hs = vec![(hdr, contents(1, n)), (0, vec![])];
    let s = sent(cx, MAGIC, role, secret(3), &[], &[], &peer.ell());
    let k: [u8; 64] = s.key[..64].try_into().unwrap();
    let mut rf = peer.refr(&k);
    let (rest, _) = peer.rest(&mut rf);
    let mut b = peer.garbage.clone();
    b.extend(rest);
    let h = match s.hs.receive_garbage(&b) {
        Ok(bip324::GarbageResult::FoundGarbage { handshake, consumed_bytes }) if consumed_bytes == 19 => handshake,
        _ => cx.fail("terminator not found"),
    };
    let mut h = h;
    let Ok(l) = h.decrypt_packet_len(b[19..22].try_into().unwrap()) else { cx.fail("length") };
    cx.check(l == n + 17, || format!("length {l}"));
    let mut g = Guard::new(l, 0x66);
    g.buf().copy_from_slice(&b[22..22 + l]);
    let ok = h.receive_version(g.buf()).is_ok();
    cx.check(ok, || "packet refused".into());
    g.intact(cx, l, &|| "receive_version".into());
    cx.case(&(n, hdr));
}
pub fn check(t: Tier) -> Check {
    let mut c = Check::new("C17", "model_checking",
        "every writing operation of the real code with every buffer size from 0 to beyond what is needed, between guard bytes: refused with exactly the announced size below it; from it on, exactly the prescribed bytes and nothing else; garbage lengths, decoy lists, contents and associated-data lengths, next to key changes, and the retry after a refusal");
    c.add("key and garbage", 0, move |cx| send_key(cx, t));
    c.add("terminator, decoys, version", 0, move |cx| send_version(cx, t));
    c.add("packet encryption", 0, move |cx| encrypt(cx, t));
    c.add("packet decryption", 0, move |cx| decrypt(cx, t));
    c.add("handshake packets", 0, move |cx| receive(cx, t));
    c
}
