use crate::cur;
use std::ops::{Deref, DerefMut};
use std::sync as real;
use std::sync::{LockResult, PoisonError, TryLockError, TryLockResult};
use std::time::Duration;

/// Placeholder so glob re-exports stay explicit.
pub enum MappedNever {}

#[derive(Default)]
pub struct Mutex<T: ?Sized> {
    inner: real::Mutex<T>,
}
pub struct MutexGuard<'a, T: ?Sized> {
    lock: &'a Mutex<T>,
    g: Option<real::MutexGuard<'a, T>>,
}
impl<T> Mutex<T> {
    pub const fn new(t: T) -> Self {
        Self { inner: real::Mutex::new(t) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        self.inner.into_inner()
    }
}
impl<T: ?Sized> Mutex<T> {
    fn id(&self) -> usize {
        self as *const _ as *const u8 as usize
    }
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        let Some((s, me)) = cur() else {
            return match self.inner.lock() {
                Ok(g) => Ok(MutexGuard { lock: self, g: Some(g) }),
                Err(p) => Err(PoisonError::new(MutexGuard { lock: self, g: Some(p.into_inner()) })),
            };
        };
        s.point(me, false);
        loop {
            match self.inner.try_lock() {
                Ok(g) => return Ok(MutexGuard { lock: self, g: Some(g) }),
                Err(TryLockError::Poisoned(p)) => {
                    return Err(PoisonError::new(MutexGuard {
                        lock: self,
                        g: Some(p.into_inner()),
                    }))
                }
                Err(TryLockError::WouldBlock) => {
                    s.block(me, self.id(), None);
                }
            }
        }
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        crate::point();
        match self.inner.try_lock() {
            Ok(g) => Ok(MutexGuard { lock: self, g: Some(g) }),
            Err(TryLockError::Poisoned(p)) => Err(TryLockError::Poisoned(PoisonError::new(
                MutexGuard { lock: self, g: Some(p.into_inner()) },
            ))),
            Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
        }
    }
    pub fn is_poisoned(&self) -> bool {
        self.inner.is_poisoned()
    }
    pub fn clear_poison(&self) {
        self.inner.clear_poison()
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        self.inner.get_mut()
    }
}
impl<T> From<T> for Mutex<T> {
    fn from(t: T) -> Self {
        Self::new(t)
    }
}
impl<T: ?Sized + std::fmt::Debug> std::fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.inner.fmt(f)
    }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        let had = self.g.take().is_some();
        if had {
            if let Some((s, _)) = cur() {
                s.wake(self.lock.id());
            }
        }
    }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.g.as_ref().unwrap()
    }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.g.as_mut().unwrap()
    }
}
impl<T: ?Sized + std::fmt::Debug> std::fmt::Debug for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        (**self).fmt(f)
    }
}

#[derive(Debug, PartialEq, Eq, Copy, Clone)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult {
    pub fn timed_out(&self) -> bool {
        self.0
    }
}

#[derive(Default, Debug)]
pub struct Condvar {
    inner: real::Condvar,
    // a Condvar must have an address of its own
    _pad: u8,
}
impl Condvar {
    pub const fn new() -> Self {
        Self { inner: real::Condvar::new(), _pad: 0 }
    }
    fn id(&self) -> usize {
        self as *const _ as usize
    }
    fn wait_d<'a, T>(
        &self,
        mut g: MutexGuard<'a, T>,
        d: Option<Duration>,
    ) -> (LockResult<MutexGuard<'a, T>>, bool) {
        let lock = g.lock;
        match cur() {
            None => {
                let ig = g.g.take().unwrap();
                match d {
                    None => match self.inner.wait(ig) {
                        Ok(x) => (Ok(MutexGuard { lock, g: Some(x) }), false),
                        Err(p) => (
                            Err(PoisonError::new(MutexGuard { lock, g: Some(p.into_inner()) })),
                            false,
                        ),
                    },
                    Some(d) => match self.inner.wait_timeout(ig, d) {
                        Ok((x, t)) => (Ok(MutexGuard { lock, g: Some(x) }), t.timed_out()),
                        Err(p) => {
                            let (x, t) = p.into_inner();
                            (
                                Err(PoisonError::new(MutexGuard { lock, g: Some(x) })),
                                t.timed_out(),
                            )
                        }
                    },
                }
            }
            Some((s, me)) => {
                let dl = d.map(|d| s.now().saturating_add(d.as_nanos() as u64));
                drop(g);
                let to = s.block(me, self.id(), dl);
                (lock.lock(), to)
            }
        }
    }
    pub fn wait<'a, T>(&self, g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
        self.wait_d(g, None).0
    }
    pub fn wait_while<'a, T, F>(
        &self,
        mut g: MutexGuard<'a, T>,
        mut f: F,
    ) -> LockResult<MutexGuard<'a, T>>
    where
        F: FnMut(&mut T) -> bool,
    {
        while f(&mut *g) {
            g = self.wait(g)?;
        }
        Ok(g)
    }
    pub fn wait_timeout<'a, T>(
        &self,
        g: MutexGuard<'a, T>,
        d: Duration,
    ) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        let (r, t) = self.wait_d(g, Some(d));
        match r {
            Ok(g) => Ok((g, WaitTimeoutResult(t))),
            Err(p) => Err(PoisonError::new((p.into_inner(), WaitTimeoutResult(t)))),
        }
    }
    pub fn wait_timeout_while<'a, T, F>(
        &self,
        mut g: MutexGuard<'a, T>,
        d: Duration,
        mut f: F,
    ) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)>
    where
        F: FnMut(&mut T) -> bool,
    {
        let start = crate::time::Instant::now();
        loop {
            if !f(&mut *g) {
                return Ok((g, WaitTimeoutResult(false)));
            }
            let left = match d.checked_sub(start.elapsed()) {
                Some(l) if !l.is_zero() => l,
                _ => return Ok((g, WaitTimeoutResult(true))),
            };
            g = self.wait_timeout(g, left)?.0;
        }
    }
    pub fn notify_one(&self) {
        match cur() {
            None => self.inner.notify_one(),
            Some((s, me)) => {
                s.point(me, false);
                s.wake_one(self.id())
            }
        }
    }
    pub fn notify_all(&self) {
        match cur() {
            None => self.inner.notify_all(),
            Some((s, me)) => {
                s.point(me, false);
                s.wake(self.id())
            }
        }
    }
}

#[derive(Default, Debug)]
pub struct RwLock<T: ?Sized> {
    inner: real::RwLock<T>,
}
macro_rules! rw {
    ($G:ident, $f:ident, $t:ident) => {
        pub struct $G<'a, T: ?Sized> {
            lock: &'a RwLock<T>,
            g: Option<real::$G<'a, T>>,
        }
        impl<T: ?Sized> Drop for $G<'_, T> {
            fn drop(&mut self) {
                if self.g.take().is_some() {
                    if let Some((s, _)) = cur() {
                        s.wake(self.lock.id());
                    }
                }
            }
        }
        impl<T: ?Sized> Deref for $G<'_, T> {
            type Target = T;
            fn deref(&self) -> &T {
                self.g.as_ref().unwrap()
            }
        }
        impl<T: ?Sized> RwLock<T> {
            pub fn $f(&self) -> LockResult<$G<'_, T>> {
                let c = cur();
                if c.is_none() {
                    return match self.inner.$f() {
                        Ok(g) => Ok($G { lock: self, g: Some(g) }),
                        Err(p) => Err(PoisonError::new($G { lock: self, g: Some(p.into_inner()) })),
                    };
                }
                let (s, me) = c.unwrap();
                s.point(me, false);
                loop {
                    match self.inner.$t() {
                        Ok(g) => return Ok($G { lock: self, g: Some(g) }),
                        Err(TryLockError::Poisoned(p)) => {
                            return Err(PoisonError::new($G { lock: self, g: Some(p.into_inner()) }))
                        }
                        Err(TryLockError::WouldBlock) => {
                            s.block(me, self.id(), None);
                        }
                    }
                }
            }
            pub fn $t(&self) -> TryLockResult<$G<'_, T>> {
                crate::point();
                match self.inner.$t() {
                    Ok(g) => Ok($G { lock: self, g: Some(g) }),
                    Err(TryLockError::Poisoned(p)) => Err(TryLockError::Poisoned(
                        PoisonError::new($G { lock: self, g: Some(p.into_inner()) }),
                    )),
                    Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
                }
            }
        }
    };
}
rw!(RwLockReadGuard, read, try_read);
rw!(RwLockWriteGuard, write, try_write);
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.g.as_mut().unwrap()
    }
}
impl<T> RwLock<T> {
    pub const fn new(t: T) -> Self {
        Self { inner: real::RwLock::new(t) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        self.inner.into_inner()
    }
}
impl<T: ?Sized> RwLock<T> {
    fn id(&self) -> usize {
        self as *const _ as *const u8 as usize
    }
    pub fn is_poisoned(&self) -> bool {
        self.inner.is_poisoned()
    }
}
