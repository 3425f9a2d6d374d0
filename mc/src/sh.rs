//! Fixtures for the traffic shaping crate.
use crate::engine::*;
use crate::fx::*;
use crate::refm;
use bip324_traffic::{DecoyStrategy, PaddingStrategy, TrafficConfig};
use std::io::Write;
use std::pin::Pin;
use std::sync::{Arc, Weak};
use std::task::{Context, Poll};
use std::time::Duration;
use tokio::io::AsyncWrite;

pub const MS: u64 = 1_000_000;
pub const CFG: [(bool, bool); 4] = [(false, false), (true, false), (false, true), (true, true)];
pub fn config((pad, dec): (bool, bool)) -> TrafficConfig {
    TrafficConfig::new()
        .with_padding_strategy(if pad { PaddingStrategy::Random } else { PaddingStrategy::Disabled })
        .with_decoy_strategy(if dec { DecoyStrategy::Random } else { DecoyStrategy::Disabled })
}
/// The same configuration, put together in other ways.
pub const BUILDS: usize = 6;
pub fn config_by((pad, dec): (bool, bool), how: usize) -> TrafficConfig {
    let p = if pad { PaddingStrategy::Random } else { PaddingStrategy::Disabled };
    let d = if dec { DecoyStrategy::Random } else { DecoyStrategy::Disabled };
    match how {
        0 => config((pad, dec)),
        // the other order
        1 => TrafficConfig::new().with_decoy_strategy(d).with_padding_strategy(p),
        2 => TrafficConfig::default().with_decoy_strategy(d).with_padding_strategy(p),
        // only what is not the default
        3 => {
            let mut c = TrafficConfig::new();
            if dec {
                c = c.with_decoy_strategy(d);
            }
            if pad {
                c = c.with_padding_strategy(p);
            }
            c
        }
        // set twice; the last one counts
        4 => TrafficConfig::new()
            .with_padding_strategy(PaddingStrategy::Random)
            .with_decoy_strategy(DecoyStrategy::Random)
            .with_padding_strategy(PaddingStrategy::Disabled)
            .with_decoy_strategy(d)
            .with_padding_strategy(p),
        _ => TrafficConfig::new()
            .with_decoy_strategy(DecoyStrategy::Disabled)
            .with_padding_strategy(if pad { PaddingStrategy::Disabled } else { PaddingStrategy::Random })
            .with_padding_strategy(p)
            .with_decoy_strategy(if dec { DecoyStrategy::Disabled } else { DecoyStrategy::Random })
            .clone()
            .with_decoy_strategy(d)
            .clone(),
    }
}
/// The writing side of a transport; `Weak` tells whether it was released.
pub struct WNet {
    net: Net,
    _tok: Arc<()>,
}
pub fn wnet(net: &Net) -> (WNet, Weak<()>) {
    let t = Arc::new(());
    let w = Arc::downgrade(&t);
    (WNet { net: net.clone(), _tok: t }, w)
}
impl Write for WNet {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        Write::write(&mut self.net, b)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Write::flush(&mut self.net)
    }
}
impl AsyncWrite for WNet {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<std::io::Result<usize>> {
        Pin::new(&mut self.net).poll_write(cx, b)
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        Pin::new(&mut self.net).poll_flush(cx)
    }
    fn poll_shutdown(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        Pin::new(&mut self.net).poll_shutdown(cx)
    }
}

/// Raw words of the shaper's generator.
#[derive(Clone)]
pub enum Words {
    Fixed(u64),
    /// the explorer picks at every draw: the first is the default, the others one deviation each
    Dev(Vec<u64>),
    /// a given sequence, then repeated from the start
    Seq(Vec<u64>),
}
#[derive(Clone)]
pub struct XRng {
    cx: Cx,
    net: Option<Net>,
    hs: Words,
    session: Words,
    k: usize,
    fills: u64,
}
impl XRng {
    fn word(&mut self) -> u64 {
        let hs = match &self.net {
            Some(n) => n.l().out.len() < 64,
            None => false,
        };
        let k = self.k;
        self.k += 1;
        if k % 64 == 63 {
            // no constant may keep a rejection loop going for ever
            return u64::from_le_bytes(det_bytes(k as u64, 8).try_into().unwrap());
        }
        let w = if hs { &self.hs } else { &self.session };
        match w {
            Words::Fixed(w) => *w,
            Words::Dev(v) => v[self.cx.dev("random", v.len())],
            Words::Seq(v) => v[k % v.len()],
        }
    }
}
impl vphook::HookRng for XRng {
    fn next_u32(&mut self) -> u32 {
        (self.word() >> 32) as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.word()
    }
    fn fill(&mut self, d: &mut [u8]) {
        self.fills += 1;
        let b = det_bytes(0xf111 + self.fills, d.len());
        d.copy_from_slice(&b);
    }
    fn box_clone(&self) -> Box<dyn vphook::HookRng> {
        Box::new(self.clone())
    }
}
/// Install the words; `hs` until the key has been sent, `session` afterwards.
pub fn words(cx: &Cx, net: &Net, hs: Words, session: Words) {
    let r = XRng { cx: cx.clone(), net: Some(net.clone()), hs, session, k: 0, fills: 0 };
    cx.set_rng(Some(Arc::new(move || Box::new(r.clone()))));
}
/// A high word: a draw from 0..100 gives 87, from other ranges 7/8 of the maximum; not rejected by
/// the usual range reductions.
pub const HI: u64 = 0xdfd0_0000_0000_0000;
pub const MID: u64 = 0x8000_0000_0000_0000;

/// What the local end has sent so far, as the reference peer decodes it.
#[derive(Debug)]
pub struct View {
    pub garbage: Vec<u8>,
    pub hs_decoys: Vec<Vec<u8>>,
    pub genuine: Vec<Vec<u8>>,
    /// offsets at which the genuine packets end
    pub ends: Vec<usize>,
    /// lengths of the session decoys
    pub decoys: Vec<usize>,
    /// all packets of the session: whether flagged decoy, contents
    pub packets: Vec<(bool, Vec<u8>)>,
    /// bytes of an unfinished packet
    pub tail: usize,
    pub flushed: usize,
    pub total: usize,
}
pub fn view(cx: &Cx, net: &Net) -> View {
    let (garbage, hs_decoys, rest, mut r) = check_sent(cx, net);
    let (flushed, total) = {
        let g = net.l();
        (g.flushed, g.out.len())
    };
    let (ps, t) = refm::parse_stream(&mut r.recv, &rest);
    let tail = match t {
        Ok(t) => t,
        Err(e) => cx.fail(format!("after {} packets the peer cannot decode what was sent: {e}", ps.len())),
    };
    let mut at = total - rest.len();
    let (mut genuine, mut ends, mut decoys) = (vec![], vec![], vec![]);
    let mut packets = Vec::with_capacity(ps.len());
    for (h, c) in ps {
        at += 20 + c.len();
        match h {
            0 => {
                genuine.push(c.clone());
                ends.push(at);
            }
            0x80 => decoys.push(c.len()),
            h => cx.fail(format!("a packet was sent with header {h:#x}")),
        }
        packets.push((h == 0x80, c));
    }
    View { garbage, hs_decoys, genuine, ends, decoys, packets, tail, flushed, total }
}
/// Distinct contents.
pub fn msg(k: usize, n: usize) -> Vec<u8> {
    let mut v = contents(7000 + k as u64, n);
    if let Some(b) = v.first_mut() {
        *b = k as u8;
    }
    v
}
pub fn nap(ms: u64) {
    sched::thread::sleep(Duration::from_millis(ms))
}

// ------------------------------------------------------------------ asynchronous flavour
/// Run a future on a single-threaded runtime with virtual time.  It must finish within a minute
/// of virtual time.
pub fn rt<T>(cx: &Cx, fut: impl std::future::Future<Output = T>) -> T {
    rt_long(cx, 60, fut)
}
pub fn rt_long<T>(cx: &Cx, seconds: u64, fut: impl std::future::Future<Output = T>) -> T {
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().expect("runtime");
    let r = rt.block_on(async { tokio::time::timeout(Duration::from_secs(seconds), fut).await });
    match r {
        Ok(v) => v,
        Err(_) => cx.fail(format!("the shaped connection does not finish within {seconds} s")),
    }
}
pub async fn anap(ms: u64) {
    tokio::time::sleep(Duration::from_millis(ms)).await
}
/// Let every task that can run do so, without time passing.
pub async fn settle() {
    for _ in 0..40 {
        tokio::task::yield_now().await;
    }
}
/// Poll a future up to `n` times, yielding to the other tasks in between; then drop it.
pub async fn poll_some<T>(n: usize, fut: impl std::future::Future<Output = T>) -> Option<T> {
    let mut fut = std::pin::pin!(fut);
    for k in 0..n {
        if k > 0 {
            tokio::task::yield_now().await;
        }
        let r = std::future::poll_fn(|c| match fut.as_mut().poll(c) {
            Poll::Ready(v) => Poll::Ready(Some(v)),
            Poll::Pending => Poll::Ready(None),
        })
        .await;
        if r.is_some() {
            return r;
        }
    }
    None
}
/// The issued payloads (whether decoy, contents) that were sent: every genuine packet is one of
/// them, in order, at most once; all that `must` be there are.  Decoys which the application wrote
/// are told from the others by their contents.
pub fn subsequence(cx: &Cx, v: &View, issued: &[(bool, Vec<u8>)], must: &[bool]) {
    let mut at = 0;
    for (j, p) in v.packets.iter().enumerate() {
        match issued[at..].iter().position(|x| x == p) {
            Some(d) => {
                if let Some(m) = (at..at + d).find(|i| must[*i]) {
                    cx.fail(format!("write {m} succeeded and its packet is missing before packet {j}"));
                }
                at += d + 1;
            }
            None if p.0 => {}
            None => cx.fail(format!("genuine packet {j} ({} bytes) is not one of the payloads written after the previous one", p.1.len())),
        }
    }
    if let Some(m) = (at..issued.len()).find(|i| must[*i]) {
        cx.fail(format!("write {m} succeeded and the peer does not see its packet"));
    }
}
