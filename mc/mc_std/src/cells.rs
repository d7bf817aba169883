//! Atomics as plain memory, for long single-threaded histories (feature `cells`): same results, no synchronisation cost.
use rstd::cell::UnsafeCell;
use rstd::sync::atomic::Ordering;
use rstd::fmt;

#[inline] pub fn fence(_: Ordering) {}
macro_rules! base {
    ($name:ident, $t:ty) => {
        #[repr(transparent)]
        pub struct $name(UnsafeCell<$t>);
        unsafe impl Sync for $name {}
        unsafe impl Send for $name {}
        impl $name {
            #[inline] pub const fn new(v: $t) -> Self { Self(UnsafeCell::new(v)) }
            #[inline] pub fn get_mut(&mut self) -> &mut $t { self.0.get_mut() }
            #[inline] pub fn into_inner(self) -> $t { self.0.into_inner() }
            #[inline] pub fn as_ptr(&self) -> *mut $t { self.0.get() }
            #[inline] pub fn load(&self, _: Ordering) -> $t { unsafe { *self.0.get() } }
            #[inline] pub fn store(&self, v: $t, _: Ordering) { unsafe { *self.0.get() = v } }
            #[inline] fn rmw(&self, f: impl Fn($t) -> $t) -> $t { unsafe { let o = *self.0.get(); *self.0.get() = f(o); o } }
            #[inline] pub fn swap(&self, v: $t, _: Ordering) -> $t { self.rmw(|_| v) }
            #[inline] pub fn compare_exchange(&self, c: $t, n: $t, _: Ordering, _: Ordering) -> Result<$t, $t> { unsafe { let o = *self.0.get(); if o == c { *self.0.get() = n; Ok(o) } else { Err(o) } } }
            #[inline] pub fn compare_exchange_weak(&self, c: $t, n: $t, s: Ordering, f: Ordering) -> Result<$t, $t> { self.compare_exchange(c, n, s, f) }
            #[inline] pub fn compare_and_swap(&self, c: $t, n: $t, o: Ordering) -> $t { match self.compare_exchange(c, n, o, o) { Ok(v) | Err(v) => v } }
            pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, _: Ordering, _: Ordering, mut f: F) -> Result<$t, $t> { unsafe { let o = *self.0.get(); match f(o) { Some(n) => { *self.0.get() = n; Ok(o) } None => Err(o) } } }
            pub fn try_update(&self, so: Ordering, fo: Ordering, f: impl FnMut($t) -> Option<$t>) -> Result<$t, $t> { self.fetch_update(so, fo, f) }
            pub fn update(&self, so: Ordering, fo: Ordering, mut f: impl FnMut($t) -> $t) -> $t { match self.fetch_update(so, fo, |x| Some(f(x))) { Ok(x) | Err(x) => x } }
        }
        impl Default for $name { fn default() -> Self { Self::new(Default::default()) } }
        impl From<$t> for $name { fn from(v: $t) -> Self { Self::new(v) } }
        impl fmt::Debug for $name { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(&self.load(Ordering::Relaxed), f) } }
    };
}
macro_rules! int {
    ($($name:ident, $t:ty);*) => { $(
        base!($name, $t);
        impl $name {
            #[inline] pub fn fetch_add(&self, v: $t, _: Ordering) -> $t { self.rmw(|x| x.wrapping_add(v)) }
            #[inline] pub fn fetch_sub(&self, v: $t, _: Ordering) -> $t { self.rmw(|x| x.wrapping_sub(v)) }
            #[inline] pub fn fetch_and(&self, v: $t, _: Ordering) -> $t { self.rmw(|x| x & v) }
            #[inline] pub fn fetch_nand(&self, v: $t, _: Ordering) -> $t { self.rmw(|x| !(x & v)) }
            #[inline] pub fn fetch_or(&self, v: $t, _: Ordering) -> $t { self.rmw(|x| x | v) }
            #[inline] pub fn fetch_xor(&self, v: $t, _: Ordering) -> $t { self.rmw(|x| x ^ v) }
            #[inline] pub fn fetch_max(&self, v: $t, _: Ordering) -> $t { self.rmw(|x| x.max(v)) }
            #[inline] pub fn fetch_min(&self, v: $t, _: Ordering) -> $t { self.rmw(|x| x.min(v)) }
        } )* };
}
int!(AtomicU8, u8; AtomicU16, u16; AtomicU32, u32; AtomicU64, u64; AtomicUsize, usize; AtomicI8, i8; AtomicI16, i16; AtomicI32, i32; AtomicI64, i64; AtomicIsize, isize);
