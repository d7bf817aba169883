//! Stand-in for `std` given to the code under test: everything is the real `std`, except that atomics, locks,
//! threads, time and the system allocator go through the model checker's runtime when it is exploring.
#![allow(unused_imports)]
extern crate std as rstd;
pub use rstd::*;

#[cfg(all(not(feature = "plain"), not(feature = "cells")))] mod atomics;
#[cfg(feature = "cells")] mod cells;
#[cfg(not(feature = "plain"))] mod locks;
#[cfg(not(feature = "plain"))] #[doc(hidden)] pub mod channels;
mod sysalloc;

#[cfg(not(feature = "plain"))]
pub mod sync {
    pub use rstd::sync::*;
    pub use crate::locks::{Mutex, MutexGuard, RwLock, RwLockReadGuard, RwLockWriteGuard, Condvar, Barrier, BarrierWaitResult};
    pub use crate::channels as mpsc;
    pub mod atomic {
        pub use rstd::sync::atomic::*;
        #[cfg(feature = "cells")]
        pub use crate::cells::{fence, AtomicU8, AtomicU16, AtomicU32, AtomicU64, AtomicUsize, AtomicI8, AtomicI16, AtomicI32, AtomicI64, AtomicIsize};
        #[cfg(not(feature = "cells"))]
        pub use crate::atomics::{fence, compiler_fence, AtomicU8, AtomicU16, AtomicU32, AtomicU64, AtomicUsize, AtomicI8, AtomicI16, AtomicI32, AtomicI64, AtomicIsize, AtomicBool, AtomicPtr};
    }
}
#[cfg(not(feature = "plain"))]
pub mod hint {
    pub use rstd::hint::*;
    #[inline] pub fn spin_loop() { if mc_rt::active() { mc_rt::spin_hint() } else { rstd::hint::spin_loop() } }
}
#[cfg(not(feature = "plain"))]
pub mod thread {
    pub use rstd::thread::*;
    pub use crate::locks::threads::{yield_now, sleep, JoinHandle, spawn, Builder, Scope, ScopedJoinHandle, scope};
    // blocking operations that are not under control: using them makes the build fall back to the real std
    #[allow(non_upper_case_globals)] pub const park: () = ();
    #[allow(non_upper_case_globals)] pub const park_timeout: () = ();
}
pub mod alloc {
    pub use rstd::alloc::*;
    pub use crate::sysalloc::System;
}
/// what the harness uses to steer the shim
pub mod mc {
    pub use crate::sysalloc::{Call, set_handler, clear_handler, Handler};
    pub const SHIMMED: bool = cfg!(not(feature = "plain"));
}
