//! Fixtures: sessions, reference peers, explorer-driven transports.
use crate::engine::{det_bytes, hash, lockm, short, Cx};
use crate::refm::{self, HsRead, Keys, Ref};
use bip324::{
    CipherSession, Error, FillBytes, GarbageResult, Handshake, InboundCipher, Initialized, OutboundCipher, PacketType,
    ReceivedKey, Role, SentVersion, VersionResult,
};
use std::cell::Cell;
use std::collections::{BTreeMap, HashMap};
use std::io::{ErrorKind, Read, Write};
use std::pin::Pin;
use std::sync::{Arc, Mutex, OnceLock};
use std::task::{Context, Poll, Wake, Waker};
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};

pub const MAGIC: [u8; 4] = [0xf9, 0xbe, 0xb4, 0xd9];
/// Largest contents delivered by the allocating interfaces.
pub const MAX_CONTENTS: usize = 4_000_013;

/// An RNG that hands out one fixed secret.
pub struct FixRng(pub [u8; 32]);
impl FillBytes for FixRng {
    fn fill_bytes(&mut self, d: &mut [u8; 32]) {
        *d = self.0;
    }
}
pub fn secret(n: u64) -> [u8; 32] {
    let mut b: [u8; 32] = det_bytes(0x5ec0 ^ n.wrapping_mul(0x1_0001), 32).try_into().unwrap();
    b[0] &= 0x7f; // below the group order
    b[31] |= 1;
    b
}
type Secp = secp256k1::Secp256k1<secp256k1::All>;
pub fn secp() -> &'static Secp {
    static S: OnceLock<Secp> = OnceLock::new();
    S.get_or_init(secp256k1::Secp256k1::new)
}
/// The peer's own encoding of its public key.
pub fn ell(sk: &[u8; 32]) -> [u8; 64] {
    static M: OnceLock<Mutex<HashMap<[u8; 32], [u8; 64]>>> = OnceLock::new();
    let m = M.get_or_init(Default::default);
    if let Some(e) = lockm(m).get(sk) {
        return *e;
    }
    let k = secp256k1::SecretKey::from_slice(sk).expect("valid");
    let e = secp256k1::ellswift::ElligatorSwift::from_seckey(secp(), k, Some([7; 32])).to_array();
    lockm(m).insert(*sk, e);
    e
}
pub fn other(r: Role) -> Role {
    match r {
        Role::Initiator => Role::Responder,
        Role::Responder => Role::Initiator,
    }
}
pub const ROLES: [Role; 2] = [Role::Initiator, Role::Responder];
pub fn is_ini(r: Role) -> bool {
    r == Role::Initiator
}

pub fn start(cx: &Cx, magic: [u8; 4], role: Role, sk: [u8; 32]) -> Handshake<Initialized> {
    match Handshake::<Initialized>::new_with_rng(magic, role, &mut FixRng(sk), secp()) {
        Ok(h) => h,
        Err(e) => cx.fail(format!("a handshake cannot be started with a valid secret: {e:?}")),
    }
}

/// Local state after sending key, garbage, terminator, decoys and version.
pub struct Sent {
    pub hs: Handshake<SentVersion>,
    pub key: Vec<u8>,
    pub version: Vec<u8>,
}
/// Run the sending half of a handshake against a peer key.
pub fn sent(cx: &Cx, magic: [u8; 4], role: Role, sk: [u8; 32], garbage: &[u8], decoys: &[Vec<u8>], peer: &[u8; 64]) -> Sent {
    match try_sent(cx, magic, role, sk, Some(garbage), Some(decoys), peer) {
        Ok(s) => s,
        Err(e) => cx.fail(format!("honest handshake steps fail: {e}")),
    }
}
pub fn try_sent(
    cx: &Cx, magic: [u8; 4], role: Role, sk: [u8; 32], garbage: Option<&[u8]>, decoys: Option<&[Vec<u8>]>, peer: &[u8; 64],
) -> Result<Sent, String> {
    let h = start(cx, magic, role, sk);
    let dv: Option<Vec<&[u8]>> = decoys.map(|d| d.iter().map(|d| &d[..]).collect());
    let mut key = vec![0u8; Handshake::<Initialized>::send_key_len(garbage)];
    let h = h.send_key(garbage, &mut key).map_err(|e| format!("send_key {e:?}"))?;
    let h = h.receive_key(*peer).map_err(|e| format!("receive_key {e:?}"))?;
    let mut version = vec![0u8; Handshake::<ReceivedKey>::send_version_len(dv.as_deref())];
    let hs = h.send_version(&mut version, dv.as_deref()).map_err(|e| format!("send_version {e:?}"))?;
    cx.ops(3);
    Ok(Sent { hs, key, version })
}

pub enum Hs {
    Done { used: usize, cipher: CipherSession, decoys: usize },
    Need,
    Err(Error),
}
/// Feed the bytes that follow the peer's key, all at once, to the receiving half.
pub fn receive(cx: &Cx, hs: Handshake<SentVersion>, b: &[u8]) -> Hs {
    cx.op();
    let (mut h, mut pos) = match hs.receive_garbage(b) {
        Ok(GarbageResult::FoundGarbage { handshake, consumed_bytes }) => (handshake, consumed_bytes),
        Ok(GarbageResult::NeedMoreData(_)) => return Hs::Need,
        Err(e) => return Hs::Err(e),
    };
    cx.check(pos <= b.len(), || format!("consumed_bytes {pos} exceeds the {} bytes given", b.len()));
    let mut n = 0;
    loop {
        if b.len() < pos + 3 {
            return Hs::Need;
        }
        let l = match h.decrypt_packet_len(b[pos..pos + 3].try_into().unwrap()) {
            Ok(l) => l,
            Err(e) => return Hs::Err(e),
        };
        pos += 3;
        if b.len() < pos + l {
            return Hs::Need;
        }
        let mut p = b[pos..pos + l].to_vec();
        pos += l;
        cx.op();
        match h.receive_version(&mut p) {
            Ok(VersionResult::Complete { cipher }) => return Hs::Done { used: pos, cipher, decoys: n },
            Ok(VersionResult::Decoy(x)) => {
                h = x;
                n += 1;
            }
            Err(e) => return Hs::Err(e),
        }
    }
}

/// Two real sessions that completed a handshake with each other, and the reference view of both.
/// Every direction has carried one packet (the version packet).
#[derive(Clone)]
pub struct Pair {
    pub a: CipherSession,
    pub b: CipherSession,
    pub ra: Ref,
    pub rb: Ref,
    pub keys: Keys,
}
impl Pair {
    pub fn end(&mut self, r: Role) -> (&mut CipherSession, &mut Ref) {
        match r {
            Role::Initiator => (&mut self.a, &mut self.ra),
            Role::Responder => (&mut self.b, &mut self.rb),
        }
    }
    /// (sender, receiver, reference of the sender, reference of the receiver)
    pub fn towards(self, from: Role) -> (OutboundCipher, InboundCipher, refm::Dir) {
        match from {
            Role::Initiator => (self.a.into_split().1, self.b.into_split().0, self.ra.send),
            Role::Responder => (self.b.into_split().1, self.a.into_split().0, self.rb.send),
        }
    }
}
pub fn new_pair(cx: &Cx, magic: [u8; 4], seed: u64) -> Pair {
    new_pair_sk(cx, magic, secret(seed * 2 + 1), secret(seed * 2 + 2))
}
pub fn new_pair_sk(cx: &Cx, magic: [u8; 4], ska: [u8; 32], skb: [u8; 32]) -> Pair {
    // the peer's key bytes come from its own send_key
    let key_of = |r, sk| {
        let mut k = vec![0u8; Handshake::<Initialized>::send_key_len(None)];
        if let Err(e) = start(cx, magic, r, sk).send_key(None, &mut k) {
            cx.fail(format!("send_key fails: {e:?}"));
        }
        let k: [u8; 64] = k.try_into().unwrap_or_else(|_| cx.fail("key is not 64 bytes"));
        k
    };
    let (ka, kb) = (key_of(Role::Initiator, ska), key_of(Role::Responder, skb));
    let sa = sent(cx, magic, Role::Initiator, ska, &[], &[], &kb);
    let sb = sent(cx, magic, Role::Responder, skb, &[], &[], &ka);
    let get = |h: Hs| match h {
        Hs::Done { cipher, .. } => cipher,
        Hs::Need => cx.fail("honest handshake does not complete"),
        Hs::Err(e) => cx.fail(format!("honest handshake fails: {e:?}")),
    };
    let (va, vb) = (sa.version, sb.version);
    let a = get(receive(cx, sa.hs, &vb));
    let b = get(receive(cx, sb.hs, &va));
    let keys = refm::keys(&ka, &kb, &ska, true, &magic);
    let (mut ra, mut rb) = (Ref::new(&keys, true), Ref::new(&keys, false));
    for r in [&mut ra, &mut rb] {
        r.send.skip(1);
        r.recv.skip(1);
    }
    Pair { a, b, ra, rb, keys }
}
type PairKey = (u64, u64, u64);
/// A pair whose directions have carried `i2r` and `r2i` packets (at least one each).
pub fn pair_at(cx: &Cx, seed: u64, i2r: u64, r2i: u64) -> Pair {
    static M: OnceLock<Mutex<BTreeMap<PairKey, Pair>>> = OnceLock::new();
    let m = M.get_or_init(Default::default);
    let base = {
        let g = lockm(m);
        if let Some(p) = g.get(&(seed, i2r, r2i)) {
            return p.clone();
        }
        // nearest earlier pair of the same seed
        g.iter()
            .filter(|(k, _)| k.0 == seed && k.1 <= i2r && k.2 <= r2i)
            .max_by_key(|(k, _)| k.1 + k.2)
            .map(|(k, p)| (*k, p.clone()))
    };
    let ((_, mut x, mut y), mut p) = base.unwrap_or_else(|| ((seed, 1, 1), new_pair(cx, MAGIC, seed)));
    let fwd = |s: &mut CipherSession, r: &mut CipherSession, n: &mut u64| {
        let mut buf = [0u8; 20];
        if let Err(e) = s.outbound().encrypt(&[], &mut buf, PacketType::Genuine, None) {
            cx.fail(format!("encrypting packet {n} fails: {e:?}"));
        }
        let l = r.inbound().decrypt_packet_len(buf[..3].try_into().unwrap());
        if l != 17 {
            cx.fail(format!("length of packet {n} decrypts to {l} instead of 17"));
        }
        let mut o = [0u8; 1];
        if let Err(e) = r.inbound().decrypt(&buf[3..], &mut o, None) {
            cx.fail(format!("packet {n} does not decrypt at the peer: {e:?}"));
        }
        *n += 1;
    };
    let (x0, y0) = (x, y);
    while x < i2r {
        fwd(&mut p.a, &mut p.b, &mut x);
    }
    while y < r2i {
        fwd(&mut p.b, &mut p.a, &mut y);
    }
    p.ra.send.skip(x - x0);
    p.rb.recv.skip(x - x0);
    p.rb.send.skip(y - y0);
    p.ra.recv.skip(y - y0);
    lockm(m).insert((seed, i2r, r2i), p.clone());
    p
}

// ------------------------------------------------------------------ entry points
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Api {
    Decrypt,
    InPlace,
    ToVec,
}
pub const APIS: [Api; 3] = [Api::Decrypt, Api::InPlace, Api::ToVec];
pub struct Opened {
    pub res: Result<(PacketType, Vec<u8>), Error>,
    /// what the caller's buffer holds afterwards
    pub buf: Vec<u8>,
}
/// Decrypt with one of the entry points; the plaintext includes the header byte.
pub fn open(api: Api, c: &mut InboundCipher, ct: &[u8], aad: Option<&[u8]>) -> Opened {
    match api {
        Api::Decrypt => {
            let mut buf = vec![0x5a; ct.len().saturating_sub(16)];
            let r = c.decrypt(ct, &mut buf, aad);
            Opened { res: r.map(|t| (t, buf.clone())), buf }
        }
        Api::InPlace => {
            let mut buf = ct.to_vec();
            let r = c.decrypt_in_place(&mut buf, aad).map(|(t, b)| (t, b.to_vec()));
            Opened { res: r, buf }
        }
        Api::ToVec => {
            let r = c.decrypt_to_vec(ct, aad);
            Opened { res: r, buf: vec![] }
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum EApi {
    Buf,
    ToVec,
}
pub fn seal(api: EApi, c: &mut OutboundCipher, pt: &[u8], t: PacketType, aad: Option<&[u8]>) -> Result<Vec<u8>, Error> {
    match api {
        EApi::Buf => {
            let mut b = vec![0xa5; OutboundCipher::encryption_buffer_len(pt.len())];
            c.encrypt(pt, &mut b, t, aad)?;
            Ok(b)
        }
        EApi::ToVec => Ok(c.encrypt_to_vec(pt, t, aad)),
    }
}
pub fn ty(decoy: bool) -> PacketType {
    if decoy {
        PacketType::Decoy
    } else {
        PacketType::Genuine
    }
}
/// Sizes next to powers of two and some between them.
pub fn around(bits: Vec<u32>, most: usize) -> Vec<usize> {
    let mut v: Vec<usize> = bits
        .into_iter()
        .flat_map(|b| {
            let n = 1usize << b;
            [n - 1, n, n + 1, n + n / 3, n + n / 2 + 3, n / 4 * 7 + n / 9]
        })
        .filter(|n| *n <= most)
        .collect();
    v.push(most);
    v.dedup();
    v
}
/// Deterministic contents.
pub fn contents(tag: u64, n: usize) -> Vec<u8> {
    det_bytes(0xc0_0000 ^ tag, n)
}

// ------------------------------------------------------------------ transports
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ev {
    /// `ErrorKind::Interrupted` (blocking) once
    Intr,
    /// an error once
    Err(ErrorKind),
    /// not ready once (asynchronous), woken at once
    Pending,
    /// not ready and never woken (asynchronous): the caller is to drop the future
    Stall,
    /// a write that accepts nothing
    Zero,
    /// not ready (asynchronous) until the gate is lifted
    Gate,
}
/// What the environment may do instead of transferring as much as possible.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Alt {
    One,
    Half,
    ButOne,
    Do(Ev),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum End {
    Eof,
    Err(ErrorKind),
    Block,
}
/// A scripted peer speaking through the reference implementation.
#[derive(Clone)]
pub struct Peer {
    /// role of the local (real) end
    pub local: Role,
    pub magic: [u8; 4],
    pub sk: [u8; 32],
    pub garbage: Vec<u8>,
    /// (header, contents) of the packets after the terminator, including the completing one
    pub hs: Vec<(u8, Vec<u8>)>,
    /// session packets (header, contents)
    pub session: Vec<(u8, Vec<u8>)>,
    /// 64-byte encoding to send instead of the one derived from `sk`
    pub key: Option<[u8; 64]>,
}
impl Peer {
    pub fn new(local: Role) -> Self {
        Peer { local, magic: MAGIC, sk: secret(900), garbage: vec![], hs: vec![(0, vec![])], session: vec![], key: None }
    }
    pub fn ell(&self) -> [u8; 64] {
        self.key.unwrap_or_else(|| ell(&self.sk))
    }
    pub fn refr(&self, local_key: &[u8; 64]) -> Ref {
        let mine = self.ell();
        let peer_ini = !is_ini(self.local);
        let (i, r) = if peer_ini { (mine, *local_key) } else { (*local_key, mine) };
        let k = refm::keys(&i, &r, &self.sk, peer_ini, &self.magic);
        Ref::new(&k, peer_ini)
    }
    /// All bytes after key and garbage, and the length of the part that belongs to the handshake.
    pub fn rest(&self, r: &mut Ref) -> (Vec<u8>, usize) {
        let mut out = r.send_term.to_vec();
        let mut aad = &self.garbage[..];
        for (h, c) in &self.hs {
            out.extend(r.send.packet_hdr(c, *h, aad));
            aad = &[];
        }
        let n = out.len();
        for (h, c) in &self.session {
            out.extend(r.send.packet_hdr(c, *h, &[]));
        }
        (out, n)
    }
}
pub struct NetI {
    /// bytes handed over by the local end, and how many of them were flushed
    pub out: Vec<u8>,
    pub flushed: usize,
    pub shut: bool,
    /// bytes from the peer
    pub inb: Vec<u8>,
    pub pos: usize,
    pub hs_end: Option<usize>,
    pub end: End,
    pub peer: Option<Peer>,
    pub rf: Option<Ref>,
    /// edit of the peer's byte stream, applied once all of it is known
    #[allow(clippy::type_complexity)]
    pub tamper: Option<Box<dyn Fn(&mut Vec<u8>) + Send>>,
    /// the part before the local key is needed is not edited unless this is set
    pub rd_cuts: Vec<usize>,
    pub rd_max: usize,
    pub rd_ev: Vec<(usize, Ev)>,
    pub wr_cuts: Vec<usize>,
    pub wr_max: usize,
    pub wr_ev: Vec<(usize, Ev)>,
    pub fl_ev: Vec<(usize, Ev)>,
    /// from this position on so many flushes fail
    pub fl_fail: Option<(usize, ErrorKind, usize)>,
    /// from this position on every write fails
    pub wr_dead: Option<(usize, ErrorKind)>,
    /// a read found nothing and the peer will send nothing more
    pub blocked: bool,
    /// read position at which the local end stands when it wrote its last byte
    pub ops: u64,
    pub rd_ops: u64,
    pub wr_ops: u64,
    pub vectored: bool,
    pub log: Vec<(usize, usize)>,
    /// alternatives the explorer may choose at every read / write / flush, one deviation each
    pub rd_env: Vec<Alt>,
    pub wr_env: Vec<Alt>,
    pub fl_env: Vec<Alt>,
    /// every write takes this long (virtual time, controlled threads only)
    pub wr_nap: Option<std::time::Duration>,
    /// asynchronous writes (flushes) are not ready from this position on, until the gate is lifted
    pub gate: Option<usize>,
    pub gate_wakers: Vec<Waker>,
    /// announce a packet of this length after the scripted stream
    pub announce: Option<u32>,
    /// only so many bytes after the peer's handshake are there to be read yet
    pub hold: Option<usize>,
    pub rd_wakers: Vec<Waker>,
    /// injected read/write failures so far
    pub hits: Vec<Ev>,
}
#[derive(Clone)]
pub struct Net(pub Arc<Mutex<NetI>>, Cx, Arc<(sched::sync::Mutex<u64>, sched::sync::Condvar)>);
impl Net {
    pub fn new(cx: &Cx, peer: Option<Peer>) -> Net {
        let inb = match &peer {
            Some(p) => {
                let mut v = p.ell().to_vec();
                v.extend_from_slice(&p.garbage);
                v
            }
            None => vec![],
        };
        Net(
            Arc::new(Mutex::new(NetI {
                out: vec![], flushed: 0, shut: false, inb, pos: 0, hs_end: None, end: End::Block, peer, rf: None,
                tamper: None, rd_cuts: vec![], rd_max: usize::MAX, rd_ev: vec![], wr_cuts: vec![],
                wr_max: usize::MAX, wr_ev: vec![], fl_ev: vec![], wr_dead: None, blocked: false, ops: 0, rd_ops: 0,
                wr_ops: 0, vectored: false, log: vec![], rd_env: vec![], wr_env: vec![], fl_env: vec![], hits: vec![], announce: None, wr_nap: None, fl_fail: None, gate: None, gate_wakers: vec![],
                hold: None, rd_wakers: vec![],
            })),
            cx.clone(),
            Default::default(),
        )
    }
    pub fn l(&self) -> std::sync::MutexGuard<'_, NetI> {
        lockm(&self.0)
    }
    /// Raw bytes instead of a scripted peer.
    pub fn raw(cx: &Cx, b: Vec<u8>, end: End) -> Net {
        let n = Net::new(cx, None);
        {
            let mut g = n.l();
            g.inb = b;
            g.end = end;
        }
        n
    }
    /// Let gated writes continue.
    pub fn lift(&self) {
        self.change(|g| {
            g.gate = None;
            std::mem::take(&mut g.gate_wakers)
        })
    }
    /// Hand over all (or so many) bytes of the peer's session.
    pub fn feed(&self, n: Option<usize>) {
        self.change(|g| {
            g.hold = n;
            std::mem::take(&mut g.rd_wakers)
        })
    }
    fn change(&self, f: impl FnOnce(&mut NetI) -> Vec<Waker>) {
        let mut h = sched::controlled().then(|| self.2 .0.lock().unwrap_or_else(|p| p.into_inner()));
        let w = f(&mut self.l());
        if let Some(h) = &mut h {
            **h += 1;
            self.2 .1.notify_all();
        }
        drop(h);
        for w in w {
            w.wake()
        }
    }
    /// Block the calling (controlled) thread while the condition holds.
    fn wait_while(&self, f: impl Fn(&NetI) -> bool) {
        if !sched::controlled() {
            return;
        }
        let mut h = self.2 .0.lock().unwrap_or_else(|p| p.into_inner());
        loop {
            let wait = f(&self.l());
            if !wait {
                return;
            }
            h = self.2 .1.wait(h).unwrap_or_else(|p| p.into_inner());
        }
    }
    fn held(g: &NetI) -> bool {
        matches!((g.hold, g.hs_end), (Some(n), Some(e)) if g.pos >= e + n && g.pos < g.inb.len())
    }
    fn gated(g: &NetI) -> bool {
        matches!(g.gate, Some(p) if g.out.len() >= p)
    }
    fn fuel(&self) {
        sched::point();
        let mut g = self.l();
        g.ops += 1;
        let bad = g.ops > 200_000;
        drop(g);
        self.1.op();
        if bad {
            self.1.fail("the library performs transport operations without end (livelock)")
        }
    }
    /// Compute the rest of the peer's stream once the local key is known.
    fn fill(g: &mut NetI) {
        if g.rf.is_none() && g.peer.is_some() && g.out.len() >= 64 {
            let p = g.peer.clone().unwrap();
            let k: [u8; 64] = g.out[..64].try_into().unwrap();
            let mut r = p.refr(&k);
            let (rest, n) = p.rest(&mut r);
            g.hs_end = Some(64 + p.garbage.len() + n);
            g.inb.extend(rest);
            if let Some(n) = g.announce {
                let b = r.send.only_len(n);
                g.inb.extend(b);
            }
            g.rf = Some(r);
            if let Some(t) = g.tamper.take() {
                let mut v = std::mem::take(&mut g.inb);
                t(&mut v);
                g.inb = v;
            }
        }
    }
    fn alt(&self, label: &'static str, v: Vec<Alt>) -> Option<Alt> {
        match v.is_empty() {
            true => None,
            false => match self.1.dev(label, v.len() + 1) {
                0 => None,
                k => Some(v[k - 1]),
            },
        }
    }
    fn do_read(&self, n: usize) -> Result<Vec<u8>, Ev> {
        self.fuel();
        let env = self.l().rd_env.clone();
        let alt = if n > 0 { self.alt("read", env) } else { None };
        let mut g = self.l();
        g.rd_ops += 1;
        Self::fill(&mut g);
        let pos = g.pos;
        if let Some(Alt::Do(e)) = alt {
            g.hits.push(e);
            return Err(e);
        }
        if let Some(i) = g.rd_ev.iter().position(|e| e.0 == pos) {
            let e = g.rd_ev.remove(i).1;
            g.hits.push(e);
            return Err(e);
        }
        if n == 0 {
            return Ok(vec![]);
        }
        if Self::held(&g) {
            return Err(Ev::Gate);
        }
        let mut avail = g.inb.len() - pos;
        if let (Some(n), Some(e)) = (g.hold, g.hs_end) {
            avail = avail.min(e + n - pos);
        }
        if avail == 0 {
            return match g.end {
                End::Eof => Ok(vec![]),
                End::Err(k) => Err(Ev::Err(k)),
                End::Block => {
                    g.blocked = true;
                    Err(Ev::Stall)
                }
            };
        }
        let mut k = n.min(avail).min(g.rd_max);
        for c in &g.rd_cuts {
            if *c > pos && *c < pos + k {
                k = *c - pos;
            }
        }
        for (c, _) in &g.rd_ev {
            if *c > pos && *c < pos + k {
                k = *c - pos;
            }
        }
        match alt {
            Some(Alt::One) => k = 1,
            Some(Alt::Half) => k = k.div_ceil(2),
            Some(Alt::ButOne) => k = (k - 1).max(1),
            _ => {}
        }
        let v = g.inb[pos..pos + k].to_vec();
        g.pos += k;
        Ok(v)
    }
    fn do_write(&self, b: &[u8]) -> Result<usize, Ev> {
        self.fuel();
        let nap = self.l().wr_nap;
        if let (Some(d), true) = (nap, sched::controlled()) {
            sched::thread::sleep(d);
        }
        let env = self.l().wr_env.clone();
        let alt = if b.is_empty() { None } else { self.alt("write", env) };
        let mut g = self.l();
        g.wr_ops += 1;
        let pos = g.out.len();
        if let Some(Alt::Do(e)) = alt {
            g.hits.push(e);
            if e == Ev::Zero {
                return Ok(0);
            }
            return Err(e);
        }
        if b.is_empty() {
            return Ok(0);
        }
        if let Some(i) = g.wr_ev.iter().position(|e| e.0 == pos) {
            let e = g.wr_ev.remove(i).1;
            g.hits.push(e);
            if e == Ev::Zero {
                return Ok(0);
            }
            return Err(e);
        }
        if let Some((d, k)) = g.wr_dead {
            if pos >= d {
                g.hits.push(Ev::Err(k));
                return Err(Ev::Err(k));
            }
        }
        let mut k = b.len().min(g.wr_max);
        if let Some(p) = g.gate {
            if pos >= p {
                return Err(Ev::Gate);
            }
            k = k.min(p - pos);
        }
        for c in g.wr_cuts.iter().copied().chain(g.wr_ev.iter().map(|e| e.0)).chain(g.wr_dead.iter().map(|e| e.0)) {
            if c > pos && c < pos + k {
                k = c - pos;
            }
        }
        match alt {
            Some(Alt::One) => k = 1,
            Some(Alt::Half) => k = k.div_ceil(2),
            Some(Alt::ButOne) => k = (k - 1).max(1),
            _ => {}
        }
        g.out.extend_from_slice(&b[..k]);
        Ok(k)
    }
    fn do_flush(&self) -> Result<(), Ev> {
        self.fuel();
        let env = self.l().fl_env.clone();
        let alt = self.alt("flush", env);
        let mut g = self.l();
        let pos = g.out.len();
        if let Some(Alt::Do(e)) = alt {
            g.hits.push(e);
            return Err(e);
        }
        if let Some((p, k, n)) = g.fl_fail {
            if pos >= p && n > 0 {
                g.fl_fail = Some((p, k, n - 1));
                g.hits.push(Ev::Err(k));
                return Err(Ev::Err(k));
            }
        }
        if let Some(i) = g.fl_ev.iter().position(|e| e.0 == pos) {
            let e = g.fl_ev.remove(i).1;
            g.hits.push(e);
            return Err(e);
        }
        if let Some((d, k)) = g.wr_dead {
            if pos >= d {
                g.hits.push(Ev::Err(k));
                return Err(Ev::Err(k));
            }
        }
        g.flushed = pos;
        Ok(())
    }
}
fn err_of(e: Ev) -> std::io::Error {
    match e {
        Ev::Intr => ErrorKind::Interrupted.into(),
        Ev::Err(k) => std::io::Error::new(k, "injected"),
        Ev::Pending | Ev::Stall | Ev::Zero | Ev::Gate => ErrorKind::WouldBlock.into(),
    }
}
impl Read for Net {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let _q = crate::alloc::Quiet::new();
        let mut v = self.do_read(buf.len());
        while v == Err(Ev::Gate) && sched::controlled() {
            self.wait_while(Self::held);
            v = self.do_read(buf.len());
        }
        let v = v.map_err(err_of)?;
        buf[..v.len()].copy_from_slice(&v);
        Ok(v.len())
    }
}
impl Write for Net {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let _q = crate::alloc::Quiet::new();
        let mut r = self.do_write(b);
        while r == Err(Ev::Gate) && sched::controlled() {
            self.wait_while(Self::gated);
            r = self.do_write(b);
        }
        r.map_err(err_of)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        let _q = crate::alloc::Quiet::new();
        self.do_flush().map_err(err_of)
    }
}
fn poll_of<T>(r: Result<T, Ev>, cx: &mut Context<'_>) -> Poll<std::io::Result<T>> {
    match r {
        Ok(v) => Poll::Ready(Ok(v)),
        Err(Ev::Pending) => {
            cx.waker().wake_by_ref();
            Poll::Pending
        }
        Err(Ev::Stall) => {
            STALLED.with(|s| s.set(true));
            Poll::Pending
        }
        Err(e) => Poll::Ready(Err(err_of(e))),
    }
}
thread_local! { static STALLED: Cell<bool> = const { Cell::new(false) }; }
impl AsyncRead for Net {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<std::io::Result<()>> {
        let _q = crate::alloc::Quiet::new();
        let r = self.do_read(buf.remaining());
        if r == Err(Ev::Gate) {
            self.l().rd_wakers.push(cx.waker().clone());
            STALLED.with(|s| s.set(true));
            return Poll::Pending;
        }
        match poll_of(r, cx) {
            Poll::Ready(Ok(v)) => {
                buf.put_slice(&v);
                Poll::Ready(Ok(()))
            }
            Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
            Poll::Pending => Poll::Pending,
        }
    }
}
impl AsyncWrite for Net {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<std::io::Result<usize>> {
        let _q = crate::alloc::Quiet::new();
        let r = self.do_write(b);
        if r == Err(Ev::Gate) {
            self.l().gate_wakers.push(cx.waker().clone());
            STALLED.with(|s| s.set(true));
            return Poll::Pending;
        }
        poll_of(r, cx)
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        let _q = crate::alloc::Quiet::new();
        poll_of(self.do_flush(), cx)
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        self.l().shut = true;
        Poll::Ready(Ok(()))
    }
}

struct Flag(std::sync::atomic::AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, std::sync::atomic::Ordering::SeqCst)
    }
}
pub enum Polled<T> {
    Ready(T),
    /// not ready, but woken already
    Woken,
    /// not ready, the transport has nothing and will not wake
    Stalled,
}
/// One poll.  A future that is pending without having been woken, while the transport has
/// something for it, is a lost wake-up.
pub fn poll1<F: std::future::Future>(cx: &Cx, fut: Pin<&mut F>) -> Polled<F::Output> {
    let f = Arc::new(Flag(Default::default()));
    let w = Waker::from(f.clone());
    let mut c = Context::from_waker(&w);
    STALLED.with(|s| s.set(false));
    match fut.poll(&mut c) {
        Poll::Ready(v) => Polled::Ready(v),
        Poll::Pending => {
            if f.0.load(std::sync::atomic::Ordering::SeqCst) {
                return Polled::Woken;
            }
            if STALLED.with(|s| s.get()) {
                return Polled::Stalled;
            }
            cx.fail("an asynchronous call is pending although it will never be woken")
        }
    }
}
/// Poll a future to completion.  `None`: it waits for bytes that will never come.
pub fn block<T>(cx: &Cx, fut: impl std::future::Future<Output = T>) -> Option<T> {
    let mut fut = std::pin::pin!(fut);
    for _ in 0..200_000 {
        match poll1(cx, fut.as_mut()) {
            Polled::Ready(v) => return Some(v),
            Polled::Woken => {}
            Polled::Stalled => return None,
        }
    }
    cx.fail("an asynchronous call never finishes")
}
/// Like `block`, but only the given number of polls; the future is dropped afterwards.
pub fn polls<T>(fut: impl std::future::Future<Output = T>, n: usize) -> Option<T> {
    let f = Arc::new(Flag(Default::default()));
    let w = Waker::from(f);
    let mut c = Context::from_waker(&w);
    let mut fut = std::pin::pin!(fut);
    for _ in 0..n {
        if let Poll::Ready(v) = fut.as_mut().poll(&mut c) {
            return Some(v);
        }
    }
    None
}

// ------------------------------------------------------------------ drivers, both flavours
use bip324::io::{Payload, ProtocolError, ProtocolFailureSuggestion};
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Drv {
    Sync,
    Async,
}
pub const DRVS: [Drv; 2] = [Drv::Sync, Drv::Async];

pub enum Conn {
    S(bip324::io::Protocol<Net, Net>),
    A(bip324::futures::Protocol<Net, Net>),
}
/// What a driver call reports, without anything implementation specific.
#[derive(Debug, Clone, PartialEq)]
pub enum Out<T> {
    Ok(T),
    Io(ErrorKind, bool),
    Lib(Error),
    /// waits for bytes that never come
    Wait,
}
pub fn norm<T>(net: &Net, r: Result<T, ProtocolError>) -> Out<T> {
    match r {
        Ok(v) => Out::Ok(v),
        Err(ProtocolError::Io(e, s)) => {
            if e.kind() == ErrorKind::WouldBlock && net.l().blocked {
                Out::Wait
            } else {
                Out::Io(e.kind(), matches!(s, ProtocolFailureSuggestion::RetryV1))
            }
        }
        Err(ProtocolError::Internal(e)) => Out::Lib(e),
    }
}
pub fn connect(cx: &Cx, drv: Drv, net: &Net, magic: [u8; 4], role: Role, garbage: Option<Vec<u8>>, decoys: Option<Vec<Vec<u8>>>) -> Out<Conn> {
    match drv {
        Drv::Sync => norm(net, bip324::io::Protocol::new(magic, role, garbage, decoys, net.clone(), net.clone()).map(Conn::S)),
        Drv::Async => match block(cx, bip324::futures::Protocol::new(magic, role, garbage, decoys, net.clone(), net.clone())) {
            None => Out::Wait,
            Some(r) => norm(net, r.map(Conn::A)),
        },
    }
}
impl Conn {
    pub fn read(&mut self, cx: &Cx, net: &Net) -> Out<(bool, Vec<u8>)> {
        let f = |p: Payload| (p.packet_type() == PacketType::Decoy, p.contents().to_vec());
        match self {
            Conn::S(p) => norm(net, p.read().map(f)),
            Conn::A(p) => match block(cx, p.read()) {
                None => Out::Wait,
                Some(r) => norm(net, r.map(f)),
            },
        }
    }
    pub fn write(&mut self, cx: &Cx, net: &Net, p: &Payload) -> Out<()> {
        match self {
            Conn::S(c) => norm(net, c.write(p)),
            Conn::A(c) => match block(cx, c.write(p)) {
                None => Out::Wait,
                Some(r) => norm(net, r),
            },
        }
    }
}
pub fn payload(decoy: bool, c: &[u8]) -> Payload {
    if decoy {
        Payload::decoy(c.to_vec())
    } else {
        Payload::genuine(c.to_vec())
    }
}
/// Check what the local end sent during the handshake against the reference peer; returns the
/// decoys it carried, the garbage, the bytes after the handshake and the reference for reading on.
pub fn check_sent(cx: &Cx, net: &Net) -> (Vec<u8>, Vec<Vec<u8>>, Vec<u8>, Ref) {
    let g = net.l();
    let Some(mut r) = g.rf.clone() else {
        drop(g);
        cx.fail("handshake finished without sending a key")
    };
    let out = g.out.clone();
    drop(g);
    match refm::read_flight(&mut r, &out[64..]) {
        HsRead::Done { used, garbage, decoys } => {
            (out[64..64 + garbage].to_vec(), decoys, out[64 + used..].to_vec(), r)
        }
        x => cx.fail(format!("an independent peer cannot complete with the bytes sent: {}", short(&x))),
    }
}
pub fn all_bits(n: usize) -> impl Iterator<Item = (usize, u8)> {
    (0..n * 8).map(|i| (i / 8, 1u8 << (i % 8)))
}
pub fn sig(b: &[u8]) -> u64 {
    hash(&b)
}
