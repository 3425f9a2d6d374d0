#![allow(dead_code)]
use bip324::*;
use std::collections::VecDeque;
use std::io::{Read, Write};
use std::sync::{Arc, Condvar, Mutex};

pub const MAGIC: [u8; 4] = [0xf9, 0xbe, 0xb4, 0xd9];

pub fn check(ok: bool, what: &str) {
    if !ok {
        println!("FAILED: {what}");
        std::process::exit(1);
    }
}

/// Receiving half of the handshake over bytes already there (after the peer's key).
pub fn finish(h: Handshake<SentVersion>, data: &[u8]) -> Result<(CipherSession, usize), Error> {
    let (mut h, mut at) = match h.receive_garbage(data)? {
        GarbageResult::FoundGarbage { handshake, consumed_bytes } => (handshake, consumed_bytes),
        GarbageResult::NeedMoreData(_) => return Err(Error::CiphertextTooSmall),
    };
    loop {
        if data.len() < at + 3 {
            return Err(Error::CiphertextTooSmall);
        }
        let n = h.decrypt_packet_len(data[at..at + 3].try_into().unwrap())?;
        at += 3;
        if data.len() < at + n {
            return Err(Error::CiphertextTooSmall);
        }
        let mut p = data[at..at + n].to_vec();
        at += n;
        match h.receive_version(&mut p)? {
            VersionResult::Complete { cipher } => return Ok((cipher, at)),
            VersionResult::Decoy(n) => h = n,
        }
    }
}

pub type Side<'a> = (Option<&'a [u8]>, Option<&'a [&'a [u8]]>);

/// Full handshake of two peers through the low-level interface.
pub fn pair(i: Side, r: Side) -> Result<(CipherSession, CipherSession), Error> {
    let mut ki = vec![0; Handshake::<Initialized>::send_key_len(i.0)];
    let mut kr = vec![0; Handshake::<Initialized>::send_key_len(r.0)];
    let hi = Handshake::<Initialized>::new(MAGIC, Role::Initiator)?.send_key(i.0, &mut ki)?;
    let hr = Handshake::<Initialized>::new(MAGIC, Role::Responder)?.send_key(r.0, &mut kr)?;
    let hi = hi.receive_key(kr[..64].try_into().unwrap())?;
    let hr = hr.receive_key(ki[..64].try_into().unwrap())?;
    let mut vi = vec![0; Handshake::<ReceivedKey>::send_version_len(i.1)];
    let mut vr = vec![0; Handshake::<ReceivedKey>::send_version_len(r.1)];
    let hi = hi.send_version(&mut vi, i.1)?;
    let hr = hr.send_version(&mut vr, r.1)?;
    let di = [&kr[64..], &vr[..]].concat();
    let dr = [&ki[64..], &vi[..]].concat();
    Ok((finish(hi, &di)?.0, finish(hr, &dr)?.0))
}

pub fn plain() -> (CipherSession, CipherSession) {
    pair((None, None), (None, None)).expect("plain handshake")
}

/// Blocking in-memory pipe.
#[derive(Default)]
pub struct Buf {
    pub data: VecDeque<u8>,
    pub closed: bool,
}
#[derive(Clone, Default)]
pub struct Pipe(pub Arc<(Mutex<Buf>, Condvar)>);
pub struct Rd(pub Pipe);
pub struct Wr(pub Pipe);
pub fn pipe() -> (Rd, Wr) {
    let p = Pipe::default();
    (Rd(p.clone()), Wr(p))
}
impl Read for Rd {
    fn read(&mut self, out: &mut [u8]) -> std::io::Result<usize> {
        let (m, c) = &*self.0 .0;
        let mut b = m.lock().unwrap();
        while b.data.is_empty() && !b.closed {
            b = c.wait(b).unwrap();
        }
        let n = out.len().min(b.data.len());
        for o in &mut out[..n] {
            *o = b.data.pop_front().unwrap();
        }
        Ok(n)
    }
}
impl Write for Wr {
    fn write(&mut self, d: &[u8]) -> std::io::Result<usize> {
        let (m, c) = &*self.0 .0;
        m.lock().unwrap().data.extend(d);
        c.notify_all();
        Ok(d.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
impl Drop for Wr {
    fn drop(&mut self) {
        let (m, c) = &*self.0 .0;
        m.lock().unwrap().closed = true;
        c.notify_all();
    }
}

/// Random source that always gives the same secret.
pub struct Fixed(pub [u8; 32]);
impl FillBytes for Fixed {
    fn fill_bytes(&mut self, d: &mut [u8; 32]) {
        *d = self.0;
    }
}

pub struct Exchange {
    pub initiator: CipherSession,
    pub responder: CipherSession,
    /// The responder just before it receives anything after the key.
    pub waiting: Handshake<SentVersion>,
    /// What the initiator sent after its key.
    pub flight: Vec<u8>,
}

/// Handshake with fixed secrets, so that two exchanges have the same session keys.
pub fn fixed(decoys: Option<&[&[u8]]>) -> Exchange {
    let secp = secp256k1::Secp256k1::new();
    let start = |role, s: u8, key: &mut [u8; 64]| {
        Handshake::<Initialized>::new_with_rng(MAGIC, role, &mut Fixed([s; 32]), &secp).unwrap().send_key(None, key).unwrap()
    };
    let (mut ki, mut kr) = ([0u8; 64], [0u8; 64]);
    let hi = start(Role::Initiator, 3, &mut ki);
    let hr = start(Role::Responder, 5, &mut kr);
    let hw = start(Role::Responder, 5, &mut kr);
    let hi = hi.receive_key(kr).unwrap();
    let hr = hr.receive_key(ki).unwrap();
    let hw = hw.receive_key(ki).unwrap();
    let mut vi = vec![0; Handshake::<ReceivedKey>::send_version_len(decoys)];
    let mut vr = [0u8; 36];
    let hi = hi.send_version(&mut vi, decoys).unwrap();
    let hr = hr.send_version(&mut vr, None).unwrap();
    let waiting = hw.send_version(&mut vr, None).unwrap();
    Exchange { initiator: finish(hi, &vr).unwrap().0, responder: finish(hr, &vi).unwrap().0, waiting, flight: vi }
}

/// Packets of the initiator of `fixed`, made by hand from the session secrets.
pub struct Hand {
    length_key: [u8; 32],
    pub packet_key: [u8; 32],
}
pub fn by_hand() -> Hand {
    let secp = secp256k1::Secp256k1::new();
    let (mut ki, mut kr) = ([0u8; 64], [0u8; 64]);
    Handshake::<Initialized>::new_with_rng(MAGIC, Role::Initiator, &mut Fixed([3; 32]), &secp).unwrap().send_key(None, &mut ki).unwrap();
    Handshake::<Initialized>::new_with_rng(MAGIC, Role::Responder, &mut Fixed([5; 32]), &secp).unwrap().send_key(None, &mut kr).unwrap();
    keys(ki, kr)
}
/// The initiator's keys, its secret being that of `fixed`.
pub fn keys(ki: [u8; 64], kr: [u8; 64]) -> Hand {
    use bitcoin_hashes::{sha256, Hkdf};
    use secp256k1::ellswift::{ElligatorSwift, ElligatorSwiftParty};
    let secret = ElligatorSwift::shared_secret(
        ElligatorSwift::from_array(ki),
        ElligatorSwift::from_array(kr),
        secp256k1::SecretKey::from_slice(&[3; 32]).unwrap(),
        ElligatorSwiftParty::A,
        Some(&b"bip324_ellswift_xonly_ecdh"[..]),
    );
    let salt = [&b"bitcoin_v2_shared_secret"[..], &MAGIC[..]].concat();
    let hk = Hkdf::<sha256::Hash>::new(&salt, secret.as_secret_bytes());
    let mut h = Hand { length_key: [0; 32], packet_key: [0; 32] };
    hk.expand(b"initiator_L", &mut h.length_key).unwrap();
    hk.expand(b"initiator_P", &mut h.packet_key).unwrap();
    h
}
impl Hand {
    /// Packet `n` (below 223) holding the given bytes, header included; possibly none at all.
    pub fn packet(&self, n: u32, plaintext: &[u8], aad: &[u8]) -> Vec<u8> {
        use chacha20_poly1305::{chacha20::ChaCha20, ChaCha20Poly1305, Key, Nonce};
        let mut len = (plaintext.len().wrapping_sub(1) as u32).to_le_bytes()[..3].to_vec();
        let mut c = ChaCha20::new(Key::new(self.length_key), Nonce::new([0; 12]), 0);
        c.seek(n * 3);
        c.apply_keystream(&mut len);
        let mut nonce = [0u8; 12];
        nonce[..4].copy_from_slice(&n.to_le_bytes());
        let mut body = plaintext.to_vec();
        let tag = ChaCha20Poly1305::new(Key::new(self.packet_key), Nonce::new(nonce)).encrypt(&mut body, Some(aad));
        [&len[..], &body[..], &tag[..]].concat()
    }
}
