//! Atomics whose every access is a scheduling point (interleaving semantics).
pub use std::sync::atomic::{compiler_fence, fence, Ordering};
use std::sync::atomic as real;

macro_rules! common {
    ($N:ident, $R:ident, $T:ty) => {
        #[derive(Default)]
        #[repr(transparent)]
        pub struct $N(real::$R);
        impl std::fmt::Debug for $N {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                self.0.fmt(f)
            }
        }
        impl From<$T> for $N {
            fn from(v: $T) -> Self {
                Self::new(v)
            }
        }
        impl $N {
            pub const fn new(v: $T) -> Self {
                Self(real::$R::new(v))
            }
            pub fn into_inner(self) -> $T {
                self.0.into_inner()
            }
            pub fn get_mut(&mut self) -> &mut $T {
                self.0.get_mut()
            }
            #[track_caller]
            pub fn load(&self, o: Ordering) -> $T {
                crate::point();
                self.0.load(o)
            }
            pub fn store(&self, v: $T, o: Ordering) {
                crate::point();
                self.0.store(v, o)
            }
            pub fn swap(&self, v: $T, o: Ordering) -> $T {
                crate::point();
                self.0.swap(v, o)
            }
            pub fn compare_exchange(
                &self,
                a: $T,
                b: $T,
                s: Ordering,
                f: Ordering,
            ) -> Result<$T, $T> {
                crate::point();
                self.0.compare_exchange(a, b, s, f)
            }
            pub fn compare_exchange_weak(
                &self,
                a: $T,
                b: $T,
                s: Ordering,
                f: Ordering,
            ) -> Result<$T, $T> {
                crate::point();
                self.0.compare_exchange(a, b, s, f)
            }
            pub fn fetch_update<F>(&self, s: Ordering, fo: Ordering, mut f: F) -> Result<$T, $T>
            where
                F: FnMut($T) -> Option<$T>,
            {
                let mut prev = self.load(fo);
                while let Some(next) = f(prev) {
                    match self.compare_exchange_weak(prev, next, s, fo) {
                        x @ Ok(_) => return x,
                        Err(p) => prev = p,
                    }
                }
                Err(prev)
            }
            pub fn fetch_and(&self, v: $T, o: Ordering) -> $T {
                crate::point();
                self.0.fetch_and(v, o)
            }
            pub fn fetch_or(&self, v: $T, o: Ordering) -> $T {
                crate::point();
                self.0.fetch_or(v, o)
            }
            pub fn fetch_xor(&self, v: $T, o: Ordering) -> $T {
                crate::point();
                self.0.fetch_xor(v, o)
            }
        }
    };
}
macro_rules! int {
    ($N:ident, $R:ident, $T:ty) => {
        common!($N, $R, $T);
        impl $N {
            pub fn fetch_add(&self, v: $T, o: Ordering) -> $T {
                crate::point();
                self.0.fetch_add(v, o)
            }
            pub fn fetch_sub(&self, v: $T, o: Ordering) -> $T {
                crate::point();
                self.0.fetch_sub(v, o)
            }
            pub fn fetch_max(&self, v: $T, o: Ordering) -> $T {
                crate::point();
                self.0.fetch_max(v, o)
            }
            pub fn fetch_min(&self, v: $T, o: Ordering) -> $T {
                crate::point();
                self.0.fetch_min(v, o)
            }
        }
    };
}
common!(AtomicBool, AtomicBool, bool);
int!(AtomicU8, AtomicU8, u8);
int!(AtomicU16, AtomicU16, u16);
int!(AtomicU32, AtomicU32, u32);
int!(AtomicU64, AtomicU64, u64);
int!(AtomicUsize, AtomicUsize, usize);
int!(AtomicI8, AtomicI8, i8);
int!(AtomicI16, AtomicI16, i16);
int!(AtomicI32, AtomicI32, i32);
int!(AtomicI64, AtomicI64, i64);
int!(AtomicIsize, AtomicIsize, isize);
pub use std::sync::atomic::AtomicPtr;
