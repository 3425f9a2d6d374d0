//! `core` as seen by the traffic crate in the checked build (atomics go through the scheduler).
#![no_std]
extern crate core as rc;
pub use rc::*;

pub mod sync {
    pub use rc::sync::*;
    pub mod atomic {
        pub use sched::atomic::*;
    }
}
pub mod hint {
    pub use rc::hint::*;
    pub use sched::thread::spin_loop;
}
