//! Process-local seams through which the explorer owns randomness that the code under test and
//! its dependencies would otherwise take from the operating system.
//! With no hooks installed on a thread every seam falls through to the original behaviour.
use std::cell::RefCell;
use std::sync::Arc;

/// A random generator decided by the explorer, standing in for `rand::rngs::StdRng`.
pub trait HookRng: Send + Sync {
    fn next_u32(&mut self) -> u32;
    fn next_u64(&mut self) -> u64;
    fn fill(&mut self, dest: &mut [u8]);
    fn box_clone(&self) -> Box<dyn HookRng>;
}

pub trait Hooks: Send + Sync {
    /// Start branch of a `tokio::select!` with `n` branches (and any other fastrand use).
    fn select(&self, n: u32) -> u32;
    /// A generator for `StdRng::from_entropy` / `from_rng`.
    fn std_rng(&self) -> Option<Box<dyn HookRng>>;
    /// Bytes for `thread_rng` and for `getrandom`.
    fn fill(&self, dest: &mut [u8]);
}

thread_local! {
    static CUR: RefCell<Option<Arc<dyn Hooks>>> = const { RefCell::new(None) };
}

pub fn current() -> Option<Arc<dyn Hooks>> {
    CUR.try_with(|c| c.borrow().clone()).ok().flatten()
}
pub fn install(h: Option<Arc<dyn Hooks>>) -> Option<Arc<dyn Hooks>> {
    CUR.with(|c| std::mem::replace(&mut *c.borrow_mut(), h))
}
pub fn active() -> bool {
    CUR.try_with(|c| c.borrow().is_some()).unwrap_or(false)
}
pub fn select(n: u32) -> Option<u32> {
    current().map(|h| h.select(n))
}
pub fn std_rng() -> Option<Box<dyn HookRng>> {
    current().and_then(|h| h.std_rng())
}
/// true if the bytes were supplied
pub fn fill(dest: &mut [u8]) -> bool {
    match current() {
        Some(h) => {
            h.fill(dest);
            true
        }
        None => false,
    }
}
