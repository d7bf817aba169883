use rstd::sync::atomic as ra;
use rstd::sync::atomic::Ordering;
use rstd::fmt;

pub fn fence(o: Ordering) { if !mc_rt::a_fence(o) { ra::fence(o) } }
pub fn compiler_fence(o: Ordering) { ra::compiler_fence(o) }
#[allow(deprecated)] pub fn spin_loop_hint() { crate::hint::spin_loop() }

macro_rules! base {
    ($name:ident, $t:ty, $to:expr, $from:expr) => {
        #[repr(transparent)]
        pub struct $name(ra::$name);
        impl $name {
            #[inline] pub const fn new(v: $t) -> Self { Self(ra::$name::new(v)) }
            #[inline] pub unsafe fn from_ptr<'a>(p: *mut $t) -> &'a Self { &*(p as *mut Self) }
            #[inline] pub fn get_mut(&mut self) -> &mut $t { self.0.get_mut() }
            #[inline] pub fn into_inner(self) -> $t { self.0.into_inner() }
            #[inline] pub fn as_ptr(&self) -> *mut $t { self.0.as_ptr() }
            #[inline] fn addr(&self) -> usize { self as *const _ as usize }
            #[inline] fn raw(&self) -> u64 { ($to)(self.0.load(Ordering::Relaxed)) }
            #[inline] fn set(&self, v: u64) { self.0.store(($from)(v), Ordering::Relaxed) }
            const SZ: usize = rstd::mem::size_of::<$t>();
            #[inline] pub fn load(&self, o: Ordering) -> $t {
                match mc_rt::a_load(self.addr(), Self::SZ, o, || self.raw()) { Some(v) => ($from)(v), None => self.0.load(o) }
            }
            #[inline] pub fn store(&self, v: $t, o: Ordering) {
                if !mc_rt::a_store(self.addr(), Self::SZ, ($to)(v), o, || self.raw(), |x| self.set(x)) { self.0.store(v, o) }
            }
            #[inline] fn rmw(&self, o: Ordering, f: impl Fn($t) -> $t) -> Option<$t> {
                mc_rt::a_rmw(self.addr(), Self::SZ, o, |x| ($to)(f(($from)(x))), || self.raw(), |x| self.set(x)).map($from)
            }
            #[inline] pub fn swap(&self, v: $t, o: Ordering) -> $t { match self.rmw(o, |_| v) { Some(x) => x, None => self.0.swap(v, o) } }
            #[inline] fn cas(&self, c: $t, n: $t, s: Ordering, f: Ordering, weak: bool) -> Option<Result<$t, $t>> {
                mc_rt::a_cas(self.addr(), Self::SZ, ($to)(c), ($to)(n), s, f, weak, || self.raw(), |x| self.set(x)).map(|r| match r { Ok(v) => Ok(($from)(v)), Err(v) => Err(($from)(v)) })
            }
            #[inline] pub fn compare_exchange(&self, c: $t, n: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                match self.cas(c, n, s, f, false) { Some(r) => r, None => self.0.compare_exchange(c, n, s, f) }
            }
            #[inline] pub fn compare_exchange_weak(&self, c: $t, n: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                match self.cas(c, n, s, f, true) { Some(r) => r, None => self.0.compare_exchange_weak(c, n, s, f) }
            }
            #[allow(deprecated)]
            #[inline] pub fn compare_and_swap(&self, c: $t, n: $t, o: Ordering) -> $t {
                let f = match o { Ordering::Release | Ordering::Relaxed => Ordering::Relaxed, Ordering::AcqRel | Ordering::Acquire => Ordering::Acquire, _ => Ordering::SeqCst };
                match self.compare_exchange(c, n, o, f) { Ok(v) | Err(v) => v }
            }
            pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, so: Ordering, fo: Ordering, mut f: F) -> Result<$t, $t> {
                let mut prev = self.load(fo);
                while let Some(next) = f(prev) {
                    match self.compare_exchange_weak(prev, next, so, fo) { Ok(x) => return Ok(x), Err(p) => prev = p }
                }
                Err(prev)
            }
            pub fn try_update(&self, so: Ordering, fo: Ordering, f: impl FnMut($t) -> Option<$t>) -> Result<$t, $t> { self.fetch_update(so, fo, f) }
            pub fn update(&self, so: Ordering, fo: Ordering, mut f: impl FnMut($t) -> $t) -> $t { match self.fetch_update(so, fo, |x| Some(f(x))) { Ok(x) | Err(x) => x } }
        }
        impl Default for $name { fn default() -> Self { Self::new(Default::default()) } }
        impl From<$t> for $name { fn from(v: $t) -> Self { Self::new(v) } }
        impl fmt::Debug for $name { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(&self.load(Ordering::Relaxed), f) } }
    };
}
macro_rules! int {
    ($name:ident, $t:ty) => {
        base!($name, $t, |v: $t| v as u64, |v: u64| v as $t);
        impl $name {
            #[inline] pub fn fetch_add(&self, v: $t, o: Ordering) -> $t { match self.rmw(o, |x| x.wrapping_add(v)) { Some(x) => x, None => self.0.fetch_add(v, o) } }
            #[inline] pub fn fetch_sub(&self, v: $t, o: Ordering) -> $t { match self.rmw(o, |x| x.wrapping_sub(v)) { Some(x) => x, None => self.0.fetch_sub(v, o) } }
            #[inline] pub fn fetch_and(&self, v: $t, o: Ordering) -> $t { match self.rmw(o, |x| x & v) { Some(x) => x, None => self.0.fetch_and(v, o) } }
            #[inline] pub fn fetch_nand(&self, v: $t, o: Ordering) -> $t { match self.rmw(o, |x| !(x & v)) { Some(x) => x, None => self.0.fetch_nand(v, o) } }
            #[inline] pub fn fetch_or(&self, v: $t, o: Ordering) -> $t { match self.rmw(o, |x| x | v) { Some(x) => x, None => self.0.fetch_or(v, o) } }
            #[inline] pub fn fetch_xor(&self, v: $t, o: Ordering) -> $t { match self.rmw(o, |x| x ^ v) { Some(x) => x, None => self.0.fetch_xor(v, o) } }
            #[inline] pub fn fetch_max(&self, v: $t, o: Ordering) -> $t { match self.rmw(o, |x| x.max(v)) { Some(x) => x, None => self.0.fetch_max(v, o) } }
            #[inline] pub fn fetch_min(&self, v: $t, o: Ordering) -> $t { match self.rmw(o, |x| x.min(v)) { Some(x) => x, None => self.0.fetch_min(v, o) } }
        }
    };
}
int!(AtomicU8, u8); int!(AtomicU16, u16); int!(AtomicU32, u32); int!(AtomicU64, u64); int!(AtomicUsize, usize);
int!(AtomicI8, i8); int!(AtomicI16, i16); int!(AtomicI32, i32); int!(AtomicI64, i64); int!(AtomicIsize, isize);
base!(AtomicBool, bool, |v: bool| v as u64, |v: u64| v & 1 != 0);
impl AtomicBool {
    #[inline] pub fn fetch_and(&self, v: bool, o: Ordering) -> bool { match self.rmw(o, |x| x & v) { Some(x) => x, None => self.0.fetch_and(v, o) } }
    #[inline] pub fn fetch_nand(&self, v: bool, o: Ordering) -> bool { match self.rmw(o, |x| !(x & v)) { Some(x) => x, None => self.0.fetch_nand(v, o) } }
    #[inline] pub fn fetch_or(&self, v: bool, o: Ordering) -> bool { match self.rmw(o, |x| x | v) { Some(x) => x, None => self.0.fetch_or(v, o) } }
    #[inline] pub fn fetch_xor(&self, v: bool, o: Ordering) -> bool { match self.rmw(o, |x| x ^ v) { Some(x) => x, None => self.0.fetch_xor(v, o) } }
    #[inline] pub fn fetch_not(&self, o: Ordering) -> bool { self.fetch_xor(true, o) }
}

#[repr(transparent)]
pub struct AtomicPtr<T>(ra::AtomicPtr<T>);
impl<T> AtomicPtr<T> {
    #[inline] pub const fn new(v: *mut T) -> Self { Self(ra::AtomicPtr::new(v)) }
    #[inline] pub fn get_mut(&mut self) -> &mut *mut T { self.0.get_mut() }
    #[inline] pub fn into_inner(self) -> *mut T { self.0.into_inner() }
    #[inline] pub fn as_ptr(&self) -> *mut *mut T { self.0.as_ptr() }
    #[inline] fn addr(&self) -> usize { self as *const _ as usize }
    #[inline] fn raw(&self) -> u64 { self.0.load(Ordering::Relaxed) as u64 }
    #[inline] fn set(&self, v: u64) { self.0.store(v as *mut T, Ordering::Relaxed) }
    #[inline] pub fn load(&self, o: Ordering) -> *mut T { match mc_rt::a_load(self.addr(), 8, o, || self.raw()) { Some(v) => v as *mut T, None => self.0.load(o) } }
    #[inline] pub fn store(&self, v: *mut T, o: Ordering) { if !mc_rt::a_store(self.addr(), 8, v as u64, o, || self.raw(), |x| self.set(x)) { self.0.store(v, o) } }
    #[inline] pub fn swap(&self, v: *mut T, o: Ordering) -> *mut T { match mc_rt::a_rmw(self.addr(), 8, o, |_| v as u64, || self.raw(), |x| self.set(x)) { Some(x) => x as *mut T, None => self.0.swap(v, o) } }
    #[inline] fn cas(&self, c: *mut T, n: *mut T, s: Ordering, f: Ordering, w: bool) -> Option<Result<*mut T, *mut T>> {
        mc_rt::a_cas(self.addr(), 8, c as u64, n as u64, s, f, w, || self.raw(), |x| self.set(x)).map(|r| match r { Ok(v) => Ok(v as *mut T), Err(v) => Err(v as *mut T) })
    }
    #[inline] pub fn compare_exchange(&self, c: *mut T, n: *mut T, s: Ordering, f: Ordering) -> Result<*mut T, *mut T> { match self.cas(c, n, s, f, false) { Some(r) => r, None => self.0.compare_exchange(c, n, s, f) } }
    #[inline] pub fn compare_exchange_weak(&self, c: *mut T, n: *mut T, s: Ordering, f: Ordering) -> Result<*mut T, *mut T> { match self.cas(c, n, s, f, true) { Some(r) => r, None => self.0.compare_exchange_weak(c, n, s, f) } }
    pub fn fetch_update<F: FnMut(*mut T) -> Option<*mut T>>(&self, so: Ordering, fo: Ordering, mut f: F) -> Result<*mut T, *mut T> {
        let mut prev = self.load(fo);
        while let Some(next) = f(prev) { match self.compare_exchange_weak(prev, next, so, fo) { Ok(x) => return Ok(x), Err(p) => prev = p } }
        Err(prev)
    }
}
impl<T> Default for AtomicPtr<T> { fn default() -> Self { Self::new(rstd::ptr::null_mut()) } }
impl<T> fmt::Debug for AtomicPtr<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(&self.load(Ordering::Relaxed), f) } }
