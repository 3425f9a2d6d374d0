//! Virtual clocks inside a controlled execution, real ones outside.
use std::cell::Cell;
use std::ops::{Add, AddAssign, Sub, SubAssign};
use std::time as real;
use std::time::Duration;

const BASE: Duration = Duration::from_secs(1_700_000_000);

thread_local! {
    /// Fixed wall clock for the calling thread (single-threaded virtual clock), ms since epoch.
    static FIXED: Cell<Option<u64>> = const { Cell::new(None) };
}
/// Offset (ns, may be negative) of the wall clock of the controlled execution.
static WALL_OFFSET: std::sync::Mutex<Vec<(usize, i64)>> = std::sync::Mutex::new(Vec::new());

pub fn set_fixed_wall_ms(ms: Option<u64>) {
    FIXED.with(|f| f.set(ms));
}
/// Step the wall clock of the current controlled execution (may go backwards).
pub fn step_wall_ns(d: i64) {
    if let Some((s, _)) = crate::cur() {
        let k = std::sync::Arc::as_ptr(&s) as usize;
        let mut v = WALL_OFFSET.lock().unwrap();
        match v.iter_mut().find(|x| x.0 == k) {
            Some(x) => x.1 += d,
            None => v.push((k, d)),
        }
    }
}
/// Forget the offset of this execution (call at its start).
pub fn reset_wall() {
    if let Some((s, _)) = crate::cur() {
        let k = std::sync::Arc::as_ptr(&s) as usize;
        WALL_OFFSET.lock().unwrap().retain(|x| x.0 != k);
    }
}
/// The wall clock the code under test sees, ns since epoch.
pub fn wall_ns() -> u64 {
    match crate::cur() {
        Some((s, _)) => {
            let k = std::sync::Arc::as_ptr(&s) as usize;
            let off = WALL_OFFSET.lock().unwrap().iter().find(|x| x.0 == k).map_or(0, |x| x.1);
            (BASE.as_nanos() as i64 + s.now() as i64 + off) as u64
        }
        None => real::SystemTime::now().duration_since(real::UNIX_EPOCH).unwrap().as_nanos() as u64,
    }
}

#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct SystemTime(pub real::SystemTime);
pub const UNIX_EPOCH: SystemTime = SystemTime(real::UNIX_EPOCH);
impl SystemTime {
    pub const UNIX_EPOCH: SystemTime = UNIX_EPOCH;
    pub fn now() -> Self {
        if let Some(ms) = FIXED.with(|f| f.get()) {
            return SystemTime(real::UNIX_EPOCH + Duration::from_millis(ms));
        }
        if crate::controlled() {
            crate::point();
            return SystemTime(real::UNIX_EPOCH + Duration::from_nanos(wall_ns()));
        }
        SystemTime(real::SystemTime::now())
    }
    pub fn duration_since(&self, e: SystemTime) -> Result<Duration, real::SystemTimeError> {
        self.0.duration_since(e.0)
    }
    pub fn elapsed(&self) -> Result<Duration, real::SystemTimeError> {
        SystemTime::now().0.duration_since(self.0)
    }
    pub fn checked_add(&self, d: Duration) -> Option<Self> {
        self.0.checked_add(d).map(SystemTime)
    }
    pub fn checked_sub(&self, d: Duration) -> Option<Self> {
        self.0.checked_sub(d).map(SystemTime)
    }
}
impl From<SystemTime> for real::SystemTime {
    fn from(s: SystemTime) -> Self {
        s.0
    }
}
#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct Instant(real::Instant);
fn anchor() -> real::Instant {
    static A: std::sync::OnceLock<real::Instant> = std::sync::OnceLock::new();
    *A.get_or_init(real::Instant::now)
}
impl Instant {
    pub fn now() -> Self {
        if crate::controlled() {
            crate::point();
            return Instant(anchor() + Duration::from_nanos(crate::now_ns()));
        }
        if let Some(ms) = FIXED.with(|f| f.get()) {
            return Instant(anchor() + Duration::from_millis(ms));
        }
        Instant(real::Instant::now())
    }
    pub fn duration_since(&self, e: Instant) -> Duration {
        self.0.saturating_duration_since(e.0)
    }
    pub fn saturating_duration_since(&self, e: Instant) -> Duration {
        self.0.saturating_duration_since(e.0)
    }
    pub fn checked_duration_since(&self, e: Instant) -> Option<Duration> {
        self.0.checked_duration_since(e.0)
    }
    pub fn elapsed(&self) -> Duration {
        Instant::now().duration_since(*self)
    }
    pub fn checked_add(&self, d: Duration) -> Option<Self> {
        self.0.checked_add(d).map(Instant)
    }
    pub fn checked_sub(&self, d: Duration) -> Option<Self> {
        self.0.checked_sub(d).map(Instant)
    }
}
macro_rules! ops {
    ($T:ident) => {
        impl Add<Duration> for $T {
            type Output = $T;
            fn add(self, d: Duration) -> $T {
                $T(self.0 + d)
            }
        }
        impl Sub<Duration> for $T {
            type Output = $T;
            fn sub(self, d: Duration) -> $T {
                $T(self.0 - d)
            }
        }
        impl AddAssign<Duration> for $T {
            fn add_assign(&mut self, d: Duration) {
                self.0 += d
            }
        }
        impl SubAssign<Duration> for $T {
            fn sub_assign(&mut self, d: Duration) {
                self.0 -= d
            }
        }
    };
}
ops!(SystemTime);
ops!(Instant);
impl Sub<Instant> for Instant {
    type Output = Duration;
    fn sub(self, o: Instant) -> Duration {
        self.duration_since(o)
    }
}
