//! Every connection has secrets of its own.
use crate::engine::*;
use crate::fx::*;
use crate::sh::*;
use bip324::{FillBytes, Handshake, Initialized, Role};
use bip324_traffic::{futures as fu, io, TrafficConfig};
use std::collections::{HashMap, HashSet};
use std::sync::Arc;

/// A generator made from a seed, as the real one: the seed is taken from the explorer's stream once, a clone
/// repeats what the original gives.
#[derive(Clone)]
struct SeededRng([u8; 32], u64);
impl vphook::HookRng for SeededRng {
    fn next_u32(&mut self) -> u32 {
        (self.next_u64() >> 32) as u32
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0; 8];
        self.fill(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill(&mut self, d: &mut [u8]) {
        self.1 += 1;
        let mut x = 0xcbf2_9ce4_8422_2325u64 ^ self.1;
        for b in self.0 {
            x = (x ^ b as u64).wrapping_mul(0x0000_0100_0000_01b3).rotate_left(5);
        }
        d.copy_from_slice(&det_bytes(x, d.len()));
    }
    fn box_clone(&self) -> Box<dyn vphook::HookRng> {
        Box::new(self.clone())
    }
}
fn own(cx: &Cx) {
    let c = cx.clone();
    cx.set_rng(Some(Arc::new(move || {
        let mut seed = [0; 32];
        c.take_fill(&mut seed);
        Box::new(SeededRng(seed, 0))
    })));
}
/// Generators are seeded one by one; those of different connections give different garbage.
fn seeded(cx: &Cx, n: usize) {
    own(cx);
    cx.seed_fill(cx.choose("seed", 6) as u64 + 900);
    let mut seen: HashMap<Vec<u8>, usize> = HashMap::new();
    let (mut keys, mut lens) = (HashSet::new(), HashSet::new());
    for i in 0..n {
        let how = cx.pick("opened by", &[How::ShapedBlocking, How::ShapedAsync]);
        let role = ROLES[i % 2];
        let o = opening(cx, how, role, config((true, i % 3 == 2)));
        cx.check(o.len() >= 64, || format!("{} bytes sent", o.len()));
        cx.check(keys.insert(o[..64].to_vec()), || format!("connection {i} repeats a key"));
        lens.insert(o.len());
        if o.len() >= 64 + 16 {
            if let Some(j) = seen.insert(o[64..80].to_vec(), i) {
                cx.fail(format!("connections {j} and {i} send the same garbage"));
            }
        }
    }
    cx.check(lens.len() > 1 || n < 3, || "connections all send the same amount of garbage".into());
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum How {
    Handshake,
    Blocking,
    BlockingFn,
    Async,
    AsyncFn,
    ShapedBlocking,
    ShapedAsync,
}
const HOWS: [How; 7] = [How::Handshake, How::Blocking, How::BlockingFn, How::Async, How::AsyncFn, How::ShapedBlocking, How::ShapedAsync];
/// What the connection sends first: its key and the garbage behind it.
fn opening(cx: &Cx, how: How, role: Role, cfg: TrafficConfig) -> Vec<u8> {
    cx.op();
    let net = Net::raw(cx, vec![], End::Block);
    let g = Some(vec![]);
    match how {
        How::Handshake => {
            let mut k = vec![0; 64];
            match Handshake::<Initialized>::new(MAGIC, role) {
                Ok(h) => {
                    if let Err(e) = h.send_key(None, &mut k) {
                        cx.fail(format!("send_key fails: {e:?}"));
                    }
                }
                Err(e) => cx.fail(format!("a handshake cannot be started: {e:?}")),
            }
            return k;
        }
        How::Blocking => drop(bip324::io::Protocol::new(MAGIC, role, g, None, net.clone(), net.clone())),
        How::BlockingFn => drop(bip324::io::handshake(MAGIC, role, g, None, net.clone(), &mut net.clone())),
        How::Async => drop(block(cx, bip324::futures::Protocol::new(MAGIC, role, g, None, net.clone(), net.clone()))),
        How::AsyncFn => drop(block(cx, bip324::futures::handshake(MAGIC, role, g, None, net.clone(), &mut net.clone()))),
        How::ShapedBlocking => drop(io::ShapedProtocol::new(MAGIC, role, cfg, net.clone(), net.clone())),
        How::ShapedAsync => drop(block(cx, fu::ShapedProtocol::new(MAGIC, role, cfg, net.clone(), net.clone()))),
    }
    let g = net.l();
    g.out.clone()
}
fn key(cx: &Cx, how: How, role: Role) -> [u8; 64] {
    let o = opening(cx, how, role, TrafficConfig::new());
    match o.get(..64).and_then(|k| k.try_into().ok()) {
        Some(k) => k,
        None => cx.fail(format!("{how:?}: only {} bytes of key sent", o.len())),
    }
}
/// Flipping any bit of the generator's output that the secret is made of changes the key.
fn bits(cx: &Cx) {
    let how = cx.pick("opened by", &HOWS);
    let role = cx.pick("role", &ROLES);
    let seed = cx.choose("seed", 3) as u64 + 40;
    own(cx);
    cx.seed_fill(seed);
    let base = key(cx, how, role);
    let n = cx.filled();
    cx.check(n >= 256, || format!("{how:?}: the key is made of {n} random bits"));
    let mut seen = HashSet::from([base]);
    let mut matter = 0;
    for bit in 0..n.min(4096) {
        cx.seed_fill(seed);
        cx.flip_fill(bit);
        let k = key(cx, how, role);
        if k != base {
            cx.check(seen.insert(k), || format!("{how:?}: two different changes of the random bits give the same key"));
            matter += 1;
        }
        cx.case(&bit);
        if matter >= 256 {
            break;
        }
    }
    cx.check(matter >= 256, || format!("{how:?}: only {matter} of {n} random bits influence the key"));
    cx.outcome("256 bits matter");
}
/// A caller's generator: every one of its bits matters, every handshake asks for new ones.
fn supplied(cx: &Cx) {
    struct R([u8; 32], u32);
    impl FillBytes for R {
        fn fill_bytes(&mut self, d: &mut [u8; 32]) {
            *d = self.0;
            d[31] ^= self.1 as u8;
            self.1 += 1;
        }
    }
    let role = cx.pick("role", &ROLES);
    let s0 = secret(cx.choose("seed", 3) as u64 + 77);
    let k = |r: &mut R| {
        cx.op();
        let mut k = vec![0; 64];
        match Handshake::<Initialized>::new_with_rng(MAGIC, role, r, secp()) {
            Ok(h) => drop(h.send_key(None, &mut k)),
            Err(e) => cx.fail(format!("a handshake cannot be started with a valid secret: {e:?}")),
        }
        k
    };
    let mut seen = HashMap::from([(k(&mut R(s0, 0)), 999)]);
    for bit in 0..255u32 {
        // the top bit could leave the valid range
        let mut s = s0;
        s[31 - bit as usize / 8] ^= 1 << (bit % 8);
        if let Some(o) = seen.insert(k(&mut R(s, 0)), bit) {
            cx.fail(format!("secrets with bits {o} and {bit} changed give the same key"));
        }
        cx.case(&bit);
    }
    let mut r = R(s0, 1);
    let mut many = HashSet::new();
    for i in 0..200 {
        cx.check(many.insert(k(&mut r)), || format!("handshake {i} with the same generator repeats a key"));
    }
}
/// Any sequence of ways to open connections in one process: all keys differ.
fn sequences(cx: &Cx, n: usize) {
    own(cx);
    cx.seed_fill(1234);
    let mut seen = HashMap::new();
    for i in 0..n {
        let how = cx.pick("opened by", &HOWS);
        let role = if i % 2 == 0 { cx.pick("role", &ROLES) } else { ROLES[0] };
        let k = key(cx, how, role);
        if let Some((j, h)) = seen.insert(k, (i, how)) {
            cx.fail(format!("connection {i} ({how:?}) sends the same key as connection {j} ({h:?})"));
        }
    }
    cx.state(&seen.len());
}
/// Many connections in one process.
fn many(cx: &Cx, n: usize) {
    let a = cx.pick("opened by", &HOWS);
    let b = cx.pick("and by", &HOWS);
    let role = cx.pick("role", &ROLES);
    own(cx);
    cx.seed_fill(4321);
    let mut keys = HashMap::new();
    let mut garbage = HashMap::new();
    for i in 0..n {
        let how = if i % 2 == 0 { a } else { b };
        let o = opening(cx, how, role, config((true, false)));
        cx.check(o.len() >= 64, || format!("{how:?}: only {} bytes of key sent", o.len()));
        if let Some(j) = keys.insert(o[..64].to_vec(), i) {
            cx.fail(format!("connection {i} ({how:?}) sends the same key as connection {j}"));
        }
        if o.len() >= 80 {
            if let Some(j) = garbage.insert(o[64..80].to_vec(), i) {
                cx.fail(format!("connection {i} ({how:?}) sends the same garbage as connection {j}"));
            }
        }
        cx.case(&i);
    }
    cx.state(&keys.len());
}
/// Connections opened by concurrent threads.
fn concurrent(cx: &Cx) {
    let hows = [cx.pick("first", &HOWS[..3]), cx.pick("second", &HOWS[..3])];
    let role = cx.pick("role", &ROLES);
    let n = 2;
    cx.threads(20_000, move |cx| {
        own(cx);
        cx.seed_fill(99);
        let hs: Vec<_> = hows
            .into_iter()
            .map(|how| {
                let cx = cx.clone();
                sched::thread::spawn(move || (0..n).map(|_| key(&cx, how, role)).collect::<Vec<_>>())
            })
            .collect();
        let mut seen = HashSet::new();
        for h in hs {
            match h.join() {
                Ok(v) => {
                    for k in v {
                        cx.check(seen.insert(k), || "two concurrent connections send the same key".into());
                    }
                }
                Err(_) => cx.fail("a connecting thread panics"),
            }
        }
        cx.outcome("distinct");
    });
}
/// The shape of a connection and its garbage depend on the generator, too.
fn shapes(cx: &Cx) {
    let how = cx.pick("opened by", &[How::ShapedBlocking, How::ShapedAsync]);
    let role = cx.pick("role", &ROLES);
    own(cx);
    let mut lens = HashSet::new();
    let mut bodies: HashMap<Vec<u8>, u64> = HashMap::new();
    let n = 48;
    for seed in 0..n {
        cx.seed_fill(7000 + seed);
        let o = opening(cx, how, role, config((true, false)));
        cx.check((64..=64 + 4095).contains(&o.len()), || format!("{} bytes of garbage", o.len() as i64 - 64));
        lens.insert(o.len());
        // equal garbage, or garbage that is a prefix of earlier garbage
        if o.len() >= 64 + 16 {
            if let Some(s) = bodies.insert(o[64..80].to_vec(), seed) {
                cx.fail(format!("connections with generators {s} and {seed} send the same garbage"));
            }
        }
        cx.case(&seed);
    }
    cx.check(lens.len() > 1, || "the amount of garbage is the same for every random outcome".into());
    cx.check(bodies.len() > 1, || "garbage is (almost) always empty".into());
}
pub fn check(t: Tier) -> Check {
    let mut c = Check::new("C25", "model_checking",
        "the process's randomness is a byte stream owned by the explorer: every single bit of it is flipped for every way of opening a connection, every sequence of ways up to the length bound and every interleaving of two connecting threads up to the preemption bound is run, and the keys and garbage sent are compared");
    c.assume("the operating system's generator itself is trusted");
    c.add("every bit of the generator", 0, bits);
    c.add("every bit of a supplied generator", 0, supplied);
    c.add(format!("sequences of {} connections", t.q(4, 6)), 0, move |cx| sequences(cx, t.q(4, 6)));
    c.add(format!("concurrent connections, {} deviations", t.q(2, 3)), t.q(2, 3), concurrent);
    c.add("many connections", 0, move |cx| many(cx, t.q(700, 5000)));
    c.add("shapes", 0, shapes);
    c.add("generators of their own", 0, move |cx| seeded(cx, t.q(5, 7)));
    c
}
