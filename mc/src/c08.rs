//! No keystream is ever used twice.
//!
//! Keystream is observed as ciphertext xor known plaintext of packets produced by the real code;
//! nothing here relies on how the library derives it.
use crate::engine::*;
use crate::fx::*;
use bip324::{OutboundCipher, PacketType};
use std::collections::HashMap;

fn xor(a: &[u8], b: &[u8]) -> Vec<u8> {
    a.iter().zip(b).map(|(x, y)| x ^ y).collect()
}
/// Keystream of one packet: (length part, contents part including the header byte).
fn ks(cx: &Cx, o: &mut OutboundCipher, pt: &[u8], decoy: bool) -> ([u8; 3], Vec<u8>) {
    let mut b = vec![0u8; OutboundCipher::encryption_buffer_len(pt.len())];
    if let Err(e) = o.encrypt(pt, &mut b, ty(decoy), None) {
        cx.fail(format!("encrypt: {e:?}"));
    }
    let l = (pt.len() as u32).to_le_bytes();
    let mut full = vec![if decoy { 128u8 } else { 0 }];
    full.extend_from_slice(pt);
    (xor(&b[..3], &l[..3]).try_into().unwrap(), xor(&b[3..3 + full.len()], &full))
}
/// The streams of one session: the two outbound ciphers.
fn outs(cx: &Cx, magic: [u8; 4], seed: u64) -> [OutboundCipher; 2] {
    let p = new_pair(cx, magic, seed);
    [p.a.into_split().1, p.b.into_split().1]
}
const OTHER: [u8; 4] = [0x0b, 0x11, 0x09, 0x07];
/// Refused operations that precede packet `k`.
fn refuse(cx: &Cx, o: &mut OutboundCipher, mode: usize, k: usize) {
    let on = match mode {
        0 => false,
        1 => true,
        2 => k % 2 == 0,
        3 => k % 224 >= 221 || k % 224 < 3,
        _ => k % 7 == 3,
    };
    if on {
        for s in 0..=(mode % 2) {
            cx.check(o.encrypt(&[1, 2, 3], &mut [0u8; 22][s..], PacketType::Decoy, Some(b"x")).is_err(), || "short buffer accepted".into());
        }
    }
}
/// Length keystream: the three-byte pieces of N sessions side by side; two positions are equal in
/// all sessions only if the code reuses them.  Also at every byte offset, and against the packet
/// keystream of both directions.
fn lengths(cx: &Cx, n: usize, mode: usize) {
    const S: usize = 5;
    // both directions of S sessions
    let mut st: Vec<[OutboundCipher; 2]> = (0..S).map(|k| outs(cx, MAGIC, 40 + k as u64)).collect();
    let mut stream: Vec<[Vec<u8>; 2]> = vec![Default::default(); S];
    for k in 0..n {
        // the two directions advance differently, sizes vary
        for (s, o) in st.iter_mut().enumerate() {
            for d in 0..2 {
                refuse(cx, &mut o[d], mode, k);
                let pt = [0u8; 40];
                let (l, _) = ks(cx, &mut o[d], &pt[..(k * 7 + d) % 41], k % 3 == d);
                stream[s][d].extend_from_slice(&l);
            }
        }
        cx.ops(2 * S as u64);
    }
    let mut seen: HashMap<[u8; 15], (usize, usize)> = HashMap::with_capacity(n * 6);
    for d in 0..2 {
        for at in 0..3 * n - 2 {
            let mut key = [0u8; 15];
            for s in 0..S {
                key[3 * s..3 * s + 3].copy_from_slice(&stream[s][d][at..at + 3]);
            }
            if at % 3 == 0 {
                cx.case(&(key, mode));
            }
            if let Some((d0, at0)) = seen.insert(key, (d, at)) {
                cx.fail(format!("length keystream of direction {d} packet {} offset {} is that of direction {d0} packet {} offset {}", at / 3, at % 3, at0 / 3, at0 % 3));
            }
        }
    }
}
/// Packet keystream: every 16-byte piece, over packets, blocks within packets, directions,
/// sessions and networks.
fn packets(cx: &Cx, n: usize, mode: usize, size: usize) {
    let mut seen: HashMap<[u8; 16], (usize, usize, usize, usize)> = HashMap::new();
    for (s, (magic, seed)) in [(MAGIC, 60u64), (OTHER, 60), (MAGIC, 61), (MAGIC, 60)].into_iter().enumerate() {
        if s == 3 {
            break;
        }
        let mut o = outs(cx, magic, seed);
        for k in 0..n {
            for d in 0..2 {
                refuse(cx, &mut o[d], mode, k);
                let len = size + (k % 3) * 5;
                let (_, b) = ks(cx, &mut o[d], &vec![(k % 251) as u8; len], k % 2 == 0);
                for (i, w) in b.chunks_exact(16).enumerate() {
                    let w: [u8; 16] = w.try_into().unwrap();
                    if i == 0 {
                        cx.case(&(w, mode));
                    }
                    if let Some((s0, d0, k0, i0)) = seen.insert(w, (s, d, k, i)) {
                        cx.fail(format!("packet keystream reused: session {s} direction {d} packet {k} block {i} = session {s0} direction {d0} packet {k0} block {i0}"));
                    }
                }
            }
        }
    }
}
/// Long runs of the length keystream and the packet keystream of different sessions, networks and
/// directions never share 16 bytes at any offset.
fn across(cx: &Cx, sessions: usize, n: usize) {
    let mut seen: HashMap<[u8; 16], (usize, usize, usize, usize)> = HashMap::new();
    let magics = [MAGIC, OTHER, [0, 0, 0, 0], [0xf9, 0xbe, 0xb4, 0xd8]];
    let mut add = |cx: &Cx, w: &[u8], id: (usize, usize, usize), step: usize| {
        for at in (0..w.len().saturating_sub(15)).step_by(step) {
            let key: [u8; 16] = w[at..at + 16].try_into().unwrap();
            if let Some(o) = seen.insert(key, (id.0, id.1, id.2, at)) {
                cx.fail(format!("16 bytes of keystream shared: session {} direction {} kind {} offset {at} and {o:?}", id.0, id.1, id.2));
            }
        }
    };
    for s in 0..sessions {
        let mut o = outs(cx, magics[s % 4], 80 + (s / 4) as u64);
        for d in 0..2 {
            let mut ls = vec![];
            for k in 0..n {
                let (l, b) = ks(cx, &mut o[d], &[0; 70], false);
                ls.extend_from_slice(&l);
                add(cx, &b, (s, d, 1 + k), 1);
            }
            add(cx, &ls, (s, d, 0), 1);
            cx.case(&(s, d));
        }
        cx.ops(2 * n as u64);
    }
}
/// What a refused call left in the caller's buffer must not be ciphertext under keystream that is
/// used again for the packet that is finally sent.
fn leftovers(cx: &Cx) {
    let pos = cx.pick("position", &[1u64, 222, 223, 224]);
    let n = cx.pick("contents", &[16usize, 20, 40, 100]);
    let short_by = 1 + cx.choose("bytes missing", n + 20);
    let mut o = pair_at(cx, 1, pos, pos).a.into_split().1;
    let first = contents(1, n);
    let mut b = vec![0xa5u8; n + 20 - short_by.min(n + 20)];
    cx.check(o.encrypt(&first, &mut b, PacketType::Genuine, None).is_err(), || "short buffer accepted".into());
    let (_, k) = ks(cx, &mut o, &contents(2, n), false);
    // any 8 bytes of what was left decrypting to the first contents under the reused keystream
    for at in 0..b.len() {
        for off in 0..k.len() {
            let m = (b.len() - at).min(k.len() - off).min(8);
            if m < 8 || off == 0 || off - 1 + 8 > n {
                continue;
            }
            if xor(&b[at..at + 8], &k[off..off + 8]) == first[off - 1..off + 7] {
                cx.fail(format!("a refused encryption left bytes encrypted with keystream that was used again (offset {at})"));
            }
        }
    }
    cx.state(&(pos, n, short_by));
}
/// Sessions between the same two keys on different networks, and with one key changed.
fn near(cx: &Cx) {
    let bit = cx.choose("changed magic bit", 33);
    let k = cx.choose("secrets", 2) as u64;
    let mut m = MAGIC;
    if bit < 32 {
        m[bit / 8] ^= 1 << (bit % 8);
    }
    let (x, y) = if bit < 32 { (new_pair(cx, MAGIC, 90 + k), new_pair(cx, m, 90 + k)) } else {
        (new_pair_sk(cx, MAGIC, secret(1 + k), secret(2 + k)), new_pair_sk(cx, MAGIC, secret(1 + k), secret(3 + k)))
    };
    let mut seen: HashMap<Vec<u8>, String> = HashMap::new();
    let mut ids = vec![];
    for (name, p) in [("first", x), ("second", y)] {
        ids.push(*p.a.id());
        for (d, s) in [("initiator", p.a), ("responder", p.b)] {
            let mut o = s.into_split().1;
            let mut lens = vec![];
            for n in 0..12 {
                let (l, b) = ks(cx, &mut o, &[0; 40], false);
                lens.extend_from_slice(&l);
                let who = format!("{name} session, {d}, packet {n}");
                if let Some(w) = seen.insert(b[..16].to_vec(), who.clone()) {
                    cx.fail(format!("keystream shared: {who} and {w}"));
                }
            }
            if let Some(w) = seen.insert(lens, format!("{name} session, {d}, lengths")) {
                cx.fail(format!("length keystream shared with {w}"));
            }
        }
    }
    cx.check(ids[0] != ids[1], || "two sessions have the same id".into());
    cx.state(&(bit, k));
}
pub fn check(t: Tier) -> Check {
    let mut c = Check::new("C08", "model_checking",
        "every pair of positions (packets, 16-byte pieces inside packets, length prefixes at every byte offset) of long runs in both directions of several sessions and networks is compared for equal keystream, observed as ciphertext xor known plaintext, with refused calls in between in five patterns");
    let n = t.q(25_000, 400_000);
    for mode in 0..5 {
        c.add_long(format!("length keystream, {n} packets, refusals {mode}"), 0, 1500, move |cx| lengths(cx, if mode == 0 { n * 4 } else { n }, mode));
        c.add_long(format!("packet keystream, {n} packets, refusals {mode}"), 0, 1500, move |cx| packets(cx, if mode == 0 { n * 4 } else { n }, mode, 20));
    }
    c.add_long("packet keystream, large packets", 0, 1500, move |cx| packets(cx, t.q(460, 2000), 0, t.q(2000, 20_000)));
    c.add_long("packet keystream, one huge packet", 0, 1500, move |cx| packets(cx, 2, 0, t.q(1_000_000, 16_000_000)));
    c.add_long("across sessions and networks", 0, 1500, move |cx| across(cx, t.q(24, 200), t.q(460, 1000)));
    c.add("related sessions", 0, near);
    c.add("bytes left by refused calls", 0, leftovers);
    c
}
