//! Independent reference implementation of BIP-324 (written from the BIP text and RFC 8439,
//! FIPS 180-4, RFC 2104, RFC 5869).  Only the curve operation (x-only ElligatorSwift ECDH) comes
//! from libsecp256k1, through its raw hasher interface.  Checked against published vectors by
//! `selftest`, which every check runs first.

pub const TERM: usize = 16;
pub const TAG: usize = 16;

// ---------------------------------------------------------------- ChaCha20 (RFC 8439)
fn qr(s: &mut [u32; 16], a: usize, b: usize, c: usize, d: usize) {
    s[a] = s[a].wrapping_add(s[b]);
    s[d] = (s[d] ^ s[a]).rotate_left(16);
    s[c] = s[c].wrapping_add(s[d]);
    s[b] = (s[b] ^ s[c]).rotate_left(12);
    s[a] = s[a].wrapping_add(s[b]);
    s[d] = (s[d] ^ s[a]).rotate_left(8);
    s[c] = s[c].wrapping_add(s[d]);
    s[b] = (s[b] ^ s[c]).rotate_left(7);
}

pub fn chacha20_block(key: &[u8; 32], ctr: u32, nonce: &[u8; 12]) -> [u8; 64] {
    let mut s = [0u32; 16];
    s[0] = 0x61707865;
    s[1] = 0x3320646e;
    s[2] = 0x79622d32;
    s[3] = 0x6b206574;
    for i in 0..8 {
        s[4 + i] = u32::from_le_bytes(key[4 * i..4 * i + 4].try_into().unwrap());
    }
    s[12] = ctr;
    for i in 0..3 {
        s[13 + i] = u32::from_le_bytes(nonce[4 * i..4 * i + 4].try_into().unwrap());
    }
    let init = s;
    for _ in 0..10 {
        qr(&mut s, 0, 4, 8, 12);
        qr(&mut s, 1, 5, 9, 13);
        qr(&mut s, 2, 6, 10, 14);
        qr(&mut s, 3, 7, 11, 15);
        qr(&mut s, 0, 5, 10, 15);
        qr(&mut s, 1, 6, 11, 12);
        qr(&mut s, 2, 7, 8, 13);
        qr(&mut s, 3, 4, 9, 14);
    }
    let mut out = [0u8; 64];
    for i in 0..16 {
        out[4 * i..4 * i + 4].copy_from_slice(&s[i].wrapping_add(init[i]).to_le_bytes());
    }
    out
}

pub fn chacha20_xor(key: &[u8; 32], mut ctr: u32, nonce: &[u8; 12], data: &mut [u8]) {
    for chunk in data.chunks_mut(64) {
        let ks = chacha20_block(key, ctr, nonce);
        ctr = ctr.wrapping_add(1);
        for (d, k) in chunk.iter_mut().zip(ks.iter()) {
            *d ^= k;
        }
    }
}

// ---------------------------------------------------------------- Poly1305 (26-bit limbs)
pub struct Poly {
    r: [u64; 5],
    h: [u64; 5],
    pad: [u8; 16],
}
impl Poly {
    pub fn new(k: &[u8; 32]) -> Self {
        let le = |i: usize| u32::from_le_bytes(k[i..i + 4].try_into().unwrap()) as u64;
        Poly {
            r: [
                le(0) & 0x3ffffff,
                (le(3) >> 2) & 0x3ffff03,
                (le(6) >> 4) & 0x3ffc0ff,
                (le(9) >> 6) & 0x3f03fff,
                (le(12) >> 8) & 0x00fffff,
            ],
            h: [0; 5],
            pad: k[16..32].try_into().unwrap(),
        }
    }
    fn block(&mut self, m: &[u8; 16], hibit: u64) {
        let le = |i: usize| u32::from_le_bytes(m[i..i + 4].try_into().unwrap()) as u64;
        self.h[0] += le(0) & 0x3ffffff;
        self.h[1] += (le(3) >> 2) & 0x3ffffff;
        self.h[2] += (le(6) >> 4) & 0x3ffffff;
        self.h[3] += (le(9) >> 6) & 0x3ffffff;
        self.h[4] += (le(12) >> 8) | (hibit << 24);
        let (h, r) = (self.h, self.r);
        let s = |i: usize| r[i] * 5;
        let m = |a: u64, b: u64| a as u128 * b as u128;
        let mut d = [
            m(h[0], r[0]) + m(h[1], s(4)) + m(h[2], s(3)) + m(h[3], s(2)) + m(h[4], s(1)),
            m(h[0], r[1]) + m(h[1], r[0]) + m(h[2], s(4)) + m(h[3], s(3)) + m(h[4], s(2)),
            m(h[0], r[2]) + m(h[1], r[1]) + m(h[2], r[0]) + m(h[3], s(4)) + m(h[4], s(3)),
            m(h[0], r[3]) + m(h[1], r[2]) + m(h[2], r[1]) + m(h[3], r[0]) + m(h[4], s(4)),
            m(h[0], r[4]) + m(h[1], r[3]) + m(h[2], r[2]) + m(h[3], r[1]) + m(h[4], r[0]),
        ];
        let mut c: u128 = 0;
        for (i, x) in d.iter_mut().enumerate() {
            *x += c;
            c = *x >> 26;
            self.h[i] = (*x & 0x3ffffff) as u64;
        }
        self.h[0] += (c as u64) * 5;
        let c = self.h[0] >> 26;
        self.h[0] &= 0x3ffffff;
        self.h[1] += c;
    }
    /// Absorb data padded with zeros to a multiple of 16 (the AEAD construction).
    pub fn padded(&mut self, data: &[u8]) {
        for c in data.chunks(16) {
            let mut b = [0u8; 16];
            b[..c.len()].copy_from_slice(c);
            self.block(&b, 1);
        }
    }
    /// Plain Poly1305 of a message.
    pub fn message(&mut self, data: &[u8]) {
        for c in data.chunks(16) {
            let mut b = [0u8; 16];
            b[..c.len()].copy_from_slice(c);
            if c.len() == 16 {
                self.block(&b, 1);
            } else {
                b[c.len()] = 1;
                self.block(&b, 0);
            }
        }
    }
    pub fn tag(mut self) -> [u8; 16] {
        for _ in 0..2 {
            let mut c = 0;
            for i in 0..5 {
                self.h[i] += c;
                c = self.h[i] >> 26;
                self.h[i] &= 0x3ffffff;
            }
            self.h[0] += c * 5;
        }
        let c = self.h[0] >> 26;
        self.h[0] &= 0x3ffffff;
        self.h[1] += c;
        // compute h + -p
        let mut g = [0u64; 5];
        let mut c = 5;
        for i in 0..5 {
            g[i] = self.h[i] + c;
            c = g[i] >> 26;
            g[i] &= 0x3ffffff;
        }
        let h = if c > 0 { g } else { self.h };
        let v: u128 = (h[0] as u128)
            | (h[1] as u128) << 26
            | (h[2] as u128) << 52
            | (h[3] as u128) << 78
            | (h[4] as u128) << 104;
        v.wrapping_add(u128::from_le_bytes(self.pad)).to_le_bytes()
    }
}

pub fn aead_encrypt(key: &[u8; 32], nonce: &[u8; 12], aad: &[u8], pt: &[u8]) -> Vec<u8> {
    let mut out = pt.to_vec();
    chacha20_xor(key, 1, nonce, &mut out);
    let tag = aead_tag(key, nonce, aad, &out);
    out.extend_from_slice(&tag);
    out
}
fn aead_tag(key: &[u8; 32], nonce: &[u8; 12], aad: &[u8], ct: &[u8]) -> [u8; 16] {
    let b = chacha20_block(key, 0, nonce);
    let mut p = Poly::new(b[..32].try_into().unwrap());
    p.padded(aad);
    p.padded(ct);
    let mut l = [0u8; 16];
    l[..8].copy_from_slice(&(aad.len() as u64).to_le_bytes());
    l[8..].copy_from_slice(&(ct.len() as u64).to_le_bytes());
    p.padded(&l);
    p.tag()
}
pub fn aead_decrypt(key: &[u8; 32], nonce: &[u8; 12], aad: &[u8], ct: &[u8]) -> Option<Vec<u8>> {
    if ct.len() < TAG {
        return None;
    }
    let (c, t) = ct.split_at(ct.len() - TAG);
    if aead_tag(key, nonce, aad, c) != t {
        return None;
    }
    let mut out = c.to_vec();
    chacha20_xor(key, 1, nonce, &mut out);
    Some(out)
}

// ---------------------------------------------------------------- SHA-256, HMAC, HKDF
const K: [u32; 64] = [
    0x428a2f98, 0x71374491, 0xb5c0fbcf, 0xe9b5dba5, 0x3956c25b, 0x59f111f1, 0x923f82a4, 0xab1c5ed5,
    0xd807aa98, 0x12835b01, 0x243185be, 0x550c7dc3, 0x72be5d74, 0x80deb1fe, 0x9bdc06a7, 0xc19bf174,
    0xe49b69c1, 0xefbe4786, 0x0fc19dc6, 0x240ca1cc, 0x2de92c6f, 0x4a7484aa, 0x5cb0a9dc, 0x76f988da,
    0x983e5152, 0xa831c66d, 0xb00327c8, 0xbf597fc7, 0xc6e00bf3, 0xd5a79147, 0x06ca6351, 0x14292967,
    0x27b70a85, 0x2e1b2138, 0x4d2c6dfc, 0x53380d13, 0x650a7354, 0x766a0abb, 0x81c2c92e, 0x92722c85,
    0xa2bfe8a1, 0xa81a664b, 0xc24b8b70, 0xc76c51a3, 0xd192e819, 0xd6990624, 0xf40e3585, 0x106aa070,
    0x19a4c116, 0x1e376c08, 0x2748774c, 0x34b0bcb5, 0x391c0cb3, 0x4ed8aa4a, 0x5b9cca4f, 0x682e6ff3,
    0x748f82ee, 0x78a5636f, 0x84c87814, 0x8cc70208, 0x90befffa, 0xa4506ceb, 0xbef9a3f7, 0xc67178f2,
];
pub fn sha256(data: &[u8]) -> [u8; 32] {
    let mut h: [u32; 8] = [
        0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab,
        0x5be0cd19,
    ];
    let mut m = data.to_vec();
    m.push(0x80);
    while m.len() % 64 != 56 {
        m.push(0);
    }
    m.extend_from_slice(&((data.len() as u64) * 8).to_be_bytes());
    for blk in m.chunks(64) {
        let mut w = [0u32; 64];
        for i in 0..16 {
            w[i] = u32::from_be_bytes(blk[4 * i..4 * i + 4].try_into().unwrap());
        }
        for i in 16..64 {
            let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
            let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
            w[i] = w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1);
        }
        let mut v = h;
        for i in 0..64 {
            let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
            let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
            let t1 = v[7]
                .wrapping_add(s1)
                .wrapping_add(ch)
                .wrapping_add(K[i])
                .wrapping_add(w[i]);
            let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
            let mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
            let t2 = s0.wrapping_add(mj);
            v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(v[i]);
        }
    }
    let mut out = [0u8; 32];
    for i in 0..8 {
        out[4 * i..4 * i + 4].copy_from_slice(&h[i].to_be_bytes());
    }
    out
}
pub fn hmac(key: &[u8], msg: &[u8]) -> [u8; 32] {
    let mut k = [0u8; 64];
    if key.len() > 64 {
        k[..32].copy_from_slice(&sha256(key));
    } else {
        k[..key.len()].copy_from_slice(key);
    }
    let mut i: Vec<u8> = k.iter().map(|b| b ^ 0x36).collect();
    i.extend_from_slice(msg);
    let mut o: Vec<u8> = k.iter().map(|b| b ^ 0x5c).collect();
    o.extend_from_slice(&sha256(&i));
    sha256(&o)
}
/// HKDF-SHA256 with a 32-byte output.
pub fn hkdf32(salt: &[u8], ikm: &[u8], info: &[u8]) -> [u8; 32] {
    let prk = hmac(salt, ikm);
    let mut m = info.to_vec();
    m.push(1);
    hmac(&prk, &m)
}

// ---------------------------------------------------------------- BIP-324
#[derive(Clone)]
struct FsLen {
    key: [u8; 32],
    pos: usize,   // keystream bytes consumed with this key
    chunks: u64,  // total chunks
}
impl FsLen {
    fn new(key: [u8; 32]) -> Self {
        FsLen { key, pos: 0, chunks: 0 }
    }
    fn stream(&mut self, n: usize, nonce: &[u8; 12]) -> Vec<u8> {
        let mut out = Vec::with_capacity(n);
        let mut blk = [0u8; 64];
        let mut have = usize::MAX;
        for _ in 0..n {
            if self.pos / 64 != have {
                have = self.pos / 64;
                blk = chacha20_block(&self.key, have as u32, nonce);
            }
            out.push(blk[self.pos % 64]);
            self.pos += 1;
        }
        out
    }
    fn crypt(&mut self, x: [u8; 3]) -> [u8; 3] {
        let mut nonce = [0u8; 12];
        nonce[4..].copy_from_slice(&(self.chunks / 224).to_le_bytes());
        let ks = self.stream(3, &nonce);
        let r = [x[0] ^ ks[0], x[1] ^ ks[1], x[2] ^ ks[2]];
        if (self.chunks + 1) % 224 == 0 {
            let nk = self.stream(32, &nonce);
            self.key = nk.try_into().unwrap();
            self.pos = 0;
        }
        self.chunks += 1;
        r
    }
}
#[derive(Clone)]
struct FsAead {
    key: [u8; 32],
    n: u64,
}
impl FsAead {
    fn nonce(&self) -> [u8; 12] {
        let mut o = [0u8; 12];
        o[..4].copy_from_slice(&((self.n % 224) as u32).to_le_bytes());
        o[4..].copy_from_slice(&(self.n / 224).to_le_bytes());
        o
    }
    fn step(&mut self) {
        if (self.n + 1) % 224 == 0 {
            let mut nn = [0xff; 12];
            nn[4..].copy_from_slice(&(self.n / 224).to_le_bytes());
            let e = aead_encrypt(&self.key, &nn, &[], &[0u8; 32]);
            self.key = e[..32].try_into().unwrap();
        }
        self.n += 1;
    }
    fn enc(&mut self, aad: &[u8], pt: &[u8]) -> Vec<u8> {
        let r = aead_encrypt(&self.key, &self.nonce(), aad, pt);
        self.step();
        r
    }
    fn dec(&mut self, aad: &[u8], ct: &[u8]) -> Option<Vec<u8>> {
        let r = aead_decrypt(&self.key, &self.nonce(), aad, ct)?;
        self.step();
        Some(r)
    }
}
/// One direction of a session.
#[derive(Clone)]
pub struct Dir {
    l: FsLen,
    p: FsAead,
}
impl Dir {
    pub fn new(lk: [u8; 32], pk: [u8; 32]) -> Self {
        Dir { l: FsLen::new(lk), p: FsAead { key: pk, n: 0 } }
    }
    pub fn count(&self) -> u64 {
        self.p.n
    }
    /// A packet with an arbitrary header byte.
    pub fn packet_hdr(&mut self, contents: &[u8], hdr: u8, aad: &[u8]) -> Vec<u8> {
        let n = contents.len() as u32;
        assert!(n < 1 << 24);
        let lb = self.l.crypt(n.to_le_bytes()[..3].try_into().unwrap());
        let mut pt = Vec::with_capacity(1 + contents.len());
        pt.push(hdr);
        pt.extend_from_slice(contents);
        let mut out = lb.to_vec();
        out.extend_from_slice(&self.p.enc(aad, &pt));
        out
    }
    pub fn packet(&mut self, contents: &[u8], decoy: bool, aad: &[u8]) -> Vec<u8> {
        self.packet_hdr(contents, if decoy { 128 } else { 0 }, aad)
    }
    /// Only the encrypted length of a packet (for oversize announcements).
    pub fn only_len(&mut self, n: u32) -> [u8; 3] {
        self.l.crypt(n.to_le_bytes()[..3].try_into().unwrap())
    }
    /// Contents length announced by the three bytes.
    pub fn open_len(&mut self, b: [u8; 3]) -> usize {
        let x = self.l.crypt(b);
        u32::from_le_bytes([x[0], x[1], x[2], 0]) as usize
    }
    /// (header, contents)
    pub fn open(&mut self, aad: &[u8], ct: &[u8]) -> Option<(u8, Vec<u8>)> {
        if ct.len() < TAG + 1 {
            return None;
        }
        let mut v = self.p.dec(aad, ct)?;
        let h = v.remove(0);
        Some((h, v))
    }
    /// Advance as if `n` packets with empty AAD had been sent (keys only depend on the count).
    pub fn skip(&mut self, n: u64) {
        for _ in 0..n {
            self.l.crypt([0; 3]);
            self.p.step();
        }
    }
    /// Advance only the length cipher by `n` packets (any values).
    pub fn skip_len(&mut self, mut n: u64) {
        // up to the end of the current key one by one, then whole keys
        while n > 0 && self.l.chunks % 224 != 0 {
            self.l.crypt([0; 3]);
            n -= 1;
        }
        while n >= 224 {
            self.l.pos = 3 * 223;
            self.l.chunks += 223;
            self.l.crypt([0; 3]);
            n -= 224;
        }
        for _ in 0..n {
            self.l.crypt([0; 3]);
        }
    }
    /// Fingerprint of the whole direction state.
    pub fn fp(&self) -> u64 {
        crate::engine::hash(&(self.l.key, self.l.pos, self.l.chunks, self.p.key, self.p.n))
    }
    /// The key for the next packet and the one for the next length.
    pub fn keys_now(&self) -> ([u8; 32], [u8; 32]) {
        (self.p.key, self.l.key)
    }
    pub fn packet_key(&self) -> ([u8; 32], [u8; 12]) {
        (self.p.key, self.p.nonce())
    }
}

#[derive(Clone)]
pub struct Keys {
    pub session_id: [u8; 32],
    pub i2r: Dir,
    pub r2i: Dir,
    pub term_i: [u8; 16],
    pub term_r: [u8; 16],
}

/// The shared secret (BIP-324 tagged hash over both encodings and the x coordinate).
pub fn ecdh(ell_i: &[u8; 64], ell_r: &[u8; 64], sk: &[u8; 32], initiator: bool) -> [u8; 32] {
    use secp256k1::ellswift::{ElligatorSwift, ElligatorSwiftParty, ElligatorSwiftSharedSecret};
    let a = ElligatorSwift::from_array(*ell_i);
    let b = ElligatorSwift::from_array(*ell_r);
    let sk = secp256k1::SecretKey::from_slice(sk).expect("valid secret");
    let party = if initiator { ElligatorSwiftParty::A } else { ElligatorSwiftParty::B };
    let mut x = [0u8; 32];
    ElligatorSwift::shared_secret_with_hasher(a, b, sk, party, |xo, _, _| {
        x = xo;
        ElligatorSwiftSharedSecret::from_secret_bytes([0; 32])
    });
    let th = sha256(b"bip324_ellswift_xonly_ecdh");
    let mut m = Vec::new();
    m.extend_from_slice(&th);
    m.extend_from_slice(&th);
    m.extend_from_slice(ell_i);
    m.extend_from_slice(ell_r);
    m.extend_from_slice(&x);
    sha256(&m)
}

pub fn derive(secret: &[u8; 32], magic: &[u8; 4]) -> Keys {
    let mut salt = b"bitcoin_v2_shared_secret".to_vec();
    salt.extend_from_slice(magic);
    let e = |i: &str| hkdf32(&salt, secret, i.as_bytes());
    let g = e("garbage_terminators");
    Keys {
        session_id: e("session_id"),
        i2r: Dir::new(e("initiator_L"), e("initiator_P")),
        r2i: Dir::new(e("responder_L"), e("responder_P")),
        term_i: g[..16].try_into().unwrap(),
        term_r: g[16..].try_into().unwrap(),
    }
}
pub fn keys(ell_i: &[u8; 64], ell_r: &[u8; 64], sk: &[u8; 32], init: bool, magic: &[u8; 4]) -> Keys {
    derive(&ecdh(ell_i, ell_r, sk, init), magic)
}

/// A session as seen by one end.
#[derive(Clone)]
pub struct Ref {
    pub send: Dir,
    pub recv: Dir,
    pub send_term: [u8; 16],
    pub recv_term: [u8; 16],
    pub session_id: [u8; 32],
}
impl Ref {
    pub fn new(k: &Keys, initiator: bool) -> Self {
        if initiator {
            Ref {
                send: k.i2r.clone(),
                recv: k.r2i.clone(),
                send_term: k.term_i,
                recv_term: k.term_r,
                session_id: k.session_id,
            }
        } else {
            Ref {
                send: k.r2i.clone(),
                recv: k.i2r.clone(),
                send_term: k.term_r,
                recv_term: k.term_i,
                session_id: k.session_id,
            }
        }
    }
    /// Everything after key and garbage: terminator, decoys, version.
    pub fn version_flight(&mut self, garbage: &[u8], decoys: &[Vec<u8>]) -> Vec<u8> {
        let mut out = self.send_term.to_vec();
        let mut aad = garbage;
        for d in decoys {
            out.extend_from_slice(&self.send.packet(d, true, aad));
            aad = &[];
        }
        out.extend_from_slice(&self.send.packet(&[], false, aad));
        out
    }
}

/// Result of reading a peer's bytes after its key.
#[derive(Debug, Clone, PartialEq)]
pub enum HsRead {
    NeedMore,
    Fail(&'static str),
    /// bytes consumed (garbage + terminator + packets up to the version packet), number of decoys
    Done { used: usize, garbage: usize, decoys: Vec<Vec<u8>> },
}
/// Naive oracle: process garbage, terminator, decoys and version from the start of `b`.
pub fn read_flight(r: &mut Ref, b: &[u8]) -> HsRead {
    let mut at = None;
    for i in 0..=4095usize {
        if i + 16 <= b.len() && b[i..i + 16] == r.recv_term {
            at = Some(i);
            break;
        }
    }
    let Some(g) = at else {
        return if b.len() >= 4111 { HsRead::Fail("no terminator") } else { HsRead::NeedMore };
    };
    let mut pos = g + 16;
    let mut aad = b[..g].to_vec();
    let mut decoys = vec![];
    loop {
        if b.len() < pos + 3 {
            return HsRead::NeedMore;
        }
        let n = r.recv.open_len(b[pos..pos + 3].try_into().unwrap());
        if b.len() < pos + 3 + n + 17 {
            return HsRead::NeedMore;
        }
        match r.recv.open(&aad, &b[pos + 3..pos + 3 + n + 17]) {
            None => return HsRead::Fail("bad packet"),
            Some((h, c)) => {
                pos += 3 + n + 17;
                aad.clear();
                if h & 0x80 == 0 {
                    return HsRead::Done { used: pos, garbage: g, decoys };
                }
                decoys.push(c);
            }
        }
    }
}
/// Parse a stream of session packets: list of (header, contents) and whether all bytes were used.
pub fn parse_stream(d: &mut Dir, mut b: &[u8]) -> (Vec<(u8, Vec<u8>)>, Result<usize, String>) {
    let mut out = vec![];
    loop {
        if b.is_empty() {
            return (out, Ok(0));
        }
        let mut t = d.clone();
        if b.len() < 3 {
            return (out, Ok(b.len()));
        }
        let n = t.open_len(b[..3].try_into().unwrap());
        if b.len() < 3 + n + 17 {
            return (out, Ok(b.len()));
        }
        match t.open(&[], &b[3..3 + n + 17]) {
            None => {
                return (
                    out.clone(),
                    Err(format!("packet {} of the stream does not authenticate", out.len())),
                )
            }
            Some(x) => {
                out.push(x);
                *d = t;
                b = &b[3 + n + 17..];
            }
        }
    }
}

pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

/// Published vectors; a failure means the oracle is wrong, never the code under test.
pub fn selftest() -> Result<usize, String> {
    let mut n = 0;
    let mut chk = |name: &str, ok: bool| {
        n += 1;
        if ok {
            Ok(())
        } else {
            Err(format!("reference model fails vector: {name}"))
        }
    };
    chk(
        "sha256 abc",
        sha256(b"abc").to_vec()
            == unhex("ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad"),
    )?;
    // RFC 4231 case 2
    chk(
        "hmac",
        hmac(b"Jefe", b"what do ya want for nothing?").to_vec()
            == unhex("5bdcc146bf60754e6a042426089575c75a003f089d2739839dec58b964ec3843"),
    )?;
    // RFC 5869 case 1 (first 32 bytes)
    chk(
        "hkdf",
        hkdf32(
            &unhex("000102030405060708090a0b0c"),
            &unhex("0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b"),
            &unhex("f0f1f2f3f4f5f6f7f8f9"),
        )
        .to_vec()
            == unhex("3cb25f25faacd57a90434f64d0362f2a2d2d0a90cf1a5a4c5db02d56ecc4c5bf"),
    )?;
    // RFC 8439 2.5.2
    let mut p = Poly::new(
        &unhex("85d6be7857556d337f4452fe42d506a80103808afb0db2fd4abff6af4149f51b")
            .try_into()
            .unwrap(),
    );
    p.message(b"Cryptographic Forum Research Group");
    chk("poly1305", p.tag().to_vec() == unhex("a8061dc1305136c6c22b8baf0c0127a9"))?;
    // RFC 8439 2.8.2
    let key: [u8; 32] = unhex("808182838485868788898a8b8c8d8e8f909192939495969798999a9b9c9d9e9f")
        .try_into()
        .unwrap();
    let nonce: [u8; 12] = unhex("070000004041424344454647").try_into().unwrap();
    let e = aead_encrypt(&key, &nonce, &unhex("50515253c0c1c2c3c4c5c6c7"), b"Ladies and Gentlemen of the class of '99: If I could offer you only one tip for the future, sunscreen would be it.");
    chk("aead tag", e[e.len() - 16..] == unhex("1ae10b594f09e26a7e902ecbd0600691")[..])?;
    chk("aead ct", e[..8] == unhex("d31a8d34648e60db")[..])?;
    // BIP-324 packet encoding vectors
    let magic = [0xf9, 0xbe, 0xb4, 0xd9];
    for (i, v) in crate::vectors::VECTORS.iter().enumerate() {
        let (ours, theirs): ([u8; 64], [u8; 64]) =
            (unhex(v.ours).try_into().unwrap(), unhex(v.theirs).try_into().unwrap());
        let (a, b) = if v.initiator { (ours, theirs) } else { (theirs, ours) };
        let sk: [u8; 32] = unhex(v.sk).try_into().unwrap();
        let k = keys(&a, &b, &sk, v.initiator, &magic);
        chk("bip324 session id", v.id.is_empty() || k.session_id.to_vec() == unhex(v.id))?;
        let mut r = Ref::new(&k, v.initiator);
        r.send.skip(v.idx);
        let out = r.send.packet(&unhex(v.contents).repeat(v.repeat), v.decoy, &unhex(v.aad));
        chk(&format!("bip324 packet vector {}", i + 1), out.ends_with(&unhex(v.ends)))?;
    }
    Ok(n)
}
