//! `std` as seen by the traffic crate in the checked build: everything is the real `std`, except
//! synchronisation, threads and clocks, which go through the explorer's scheduler.
#![no_std]
extern crate std as rs;
pub use rs::*;

pub mod sync {
    pub use rs::sync::*;
    pub use sched::sync::{
        Condvar, MappedNever, Mutex, MutexGuard, RwLock, RwLockReadGuard, RwLockWriteGuard,
        WaitTimeoutResult,
    };
    pub mod atomic {
        pub use sched::atomic::*;
    }
    pub mod mpsc {
        pub use sched::mpsc::*;
    }
}
pub mod thread {
    pub use rs::thread::*;
    pub use sched::thread::{
        current, park, park_timeout, sleep, spawn, yield_now, Builder, JoinHandle, Thread,
    };
}
pub mod time {
    pub use rs::time::*;
    pub use sched::time::{Instant, SystemTime, UNIX_EPOCH};
}
pub mod hint {
    pub use rs::hint::*;
    pub use sched::thread::spin_loop;
}
