//! std's locks; under the model, waiting is blocking on the model's scheduler.
use rstd::sync as rs;
use rstd::sync::{LockResult, PoisonError, TryLockError, TryLockResult};
use rstd::ops::{Deref, DerefMut};
use rstd::fmt;

#[derive(Default)]
pub struct Mutex<T: ?Sized>(rs::Mutex<T>);
pub struct MutexGuard<'a, T: ?Sized> { g: Option<rs::MutexGuard<'a, T>>, m: &'a Mutex<T> }
impl<T> Mutex<T> {
    pub const fn new(t: T) -> Self { Mutex(rs::Mutex::new(t)) }
    pub fn into_inner(self) -> LockResult<T> { self.0.into_inner() }
}
impl<T: ?Sized> Mutex<T> {
    fn addr(&self) -> usize { self as *const _ as *const u8 as usize }
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        if !mc_rt::in_model() {
            return match self.0.lock() { Ok(g) => Ok(MutexGuard { g: Some(g), m: self }), Err(p) => Err(PoisonError::new(MutexGuard { g: Some(p.into_inner()), m: self })) };
        }
        let mut got = None;
        mc_rt::lock_acquire(self.addr(), || match self.0.try_lock() {
            Ok(g) => { got = Some(Ok(MutexGuard { g: Some(g), m: self })); true }
            Err(TryLockError::Poisoned(p)) => { got = Some(Err(PoisonError::new(MutexGuard { g: Some(p.into_inner()), m: self }))); true }
            Err(TryLockError::WouldBlock) => false,
        });
        got.unwrap()
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        mc_rt::point();
        match self.0.try_lock() {
            Ok(g) => { mc_rt::lock_acquire(self.addr(), || true); Ok(MutexGuard { g: Some(g), m: self }) }
            Err(TryLockError::Poisoned(p)) => Err(TryLockError::Poisoned(PoisonError::new(MutexGuard { g: Some(p.into_inner()), m: self }))),
            Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
        }
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> { self.0.get_mut() }
    pub fn is_poisoned(&self) -> bool { self.0.is_poisoned() }
    pub fn clear_poison(&self) { self.0.clear_poison() }
}
impl<T> From<T> for Mutex<T> { fn from(t: T) -> Self { Mutex::new(t) } }
impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.0.fmt(f) } }
impl<T: ?Sized> Deref for MutexGuard<'_, T> { type Target = T; fn deref(&self) -> &T { self.g.as_ref().unwrap() } }
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> { fn deref_mut(&mut self) -> &mut T { self.g.as_mut().unwrap() } }
impl<T: ?Sized> Drop for MutexGuard<'_, T> { fn drop(&mut self) { if self.g.take().is_some() { mc_rt::lock_released(self.m.addr()); } } }
impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { (**self).fmt(f) } }
impl<T: ?Sized + fmt::Display> fmt::Display for MutexGuard<'_, T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { (**self).fmt(f) } }

#[derive(Default)]
pub struct RwLock<T: ?Sized>(rs::RwLock<T>);
pub struct RwLockReadGuard<'a, T: ?Sized> { g: Option<rs::RwLockReadGuard<'a, T>>, m: &'a RwLock<T> }
pub struct RwLockWriteGuard<'a, T: ?Sized> { g: Option<rs::RwLockWriteGuard<'a, T>>, m: &'a RwLock<T> }
impl<T> RwLock<T> {
    pub const fn new(t: T) -> Self { RwLock(rs::RwLock::new(t)) }
    pub fn into_inner(self) -> LockResult<T> { self.0.into_inner() }
}
impl<T: ?Sized> RwLock<T> {
    fn addr(&self) -> usize { self as *const _ as *const u8 as usize }
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        if !mc_rt::in_model() {
            return match self.0.read() { Ok(g) => Ok(RwLockReadGuard { g: Some(g), m: self }), Err(p) => Err(PoisonError::new(RwLockReadGuard { g: Some(p.into_inner()), m: self })) };
        }
        let mut got = None;
        mc_rt::lock_acquire(self.addr(), || match self.0.try_read() {
            Ok(g) => { got = Some(Ok(RwLockReadGuard { g: Some(g), m: self })); true }
            Err(TryLockError::Poisoned(p)) => { got = Some(Err(PoisonError::new(RwLockReadGuard { g: Some(p.into_inner()), m: self }))); true }
            Err(TryLockError::WouldBlock) => false,
        });
        got.unwrap()
    }
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        if !mc_rt::in_model() {
            return match self.0.write() { Ok(g) => Ok(RwLockWriteGuard { g: Some(g), m: self }), Err(p) => Err(PoisonError::new(RwLockWriteGuard { g: Some(p.into_inner()), m: self })) };
        }
        let mut got = None;
        mc_rt::lock_acquire(self.addr(), || match self.0.try_write() {
            Ok(g) => { got = Some(Ok(RwLockWriteGuard { g: Some(g), m: self })); true }
            Err(TryLockError::Poisoned(p)) => { got = Some(Err(PoisonError::new(RwLockWriteGuard { g: Some(p.into_inner()), m: self }))); true }
            Err(TryLockError::WouldBlock) => false,
        });
        got.unwrap()
    }
    pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
        mc_rt::point();
        match self.0.try_read() {
            Ok(g) => { mc_rt::lock_acquire(self.addr(), || true); Ok(RwLockReadGuard { g: Some(g), m: self }) }
            Err(TryLockError::Poisoned(p)) => Err(TryLockError::Poisoned(PoisonError::new(RwLockReadGuard { g: Some(p.into_inner()), m: self }))),
            Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
        }
    }
    pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
        mc_rt::point();
        match self.0.try_write() {
            Ok(g) => { mc_rt::lock_acquire(self.addr(), || true); Ok(RwLockWriteGuard { g: Some(g), m: self }) }
            Err(TryLockError::Poisoned(p)) => Err(TryLockError::Poisoned(PoisonError::new(RwLockWriteGuard { g: Some(p.into_inner()), m: self }))),
            Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
        }
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> { self.0.get_mut() }
    pub fn is_poisoned(&self) -> bool { self.0.is_poisoned() }
    pub fn clear_poison(&self) { self.0.clear_poison() }
}
impl<T> From<T> for RwLock<T> { fn from(t: T) -> Self { RwLock::new(t) } }
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLock<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.0.fmt(f) } }
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> { type Target = T; fn deref(&self) -> &T { self.g.as_ref().unwrap() } }
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> { type Target = T; fn deref(&self) -> &T { self.g.as_ref().unwrap() } }
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> { fn deref_mut(&mut self) -> &mut T { self.g.as_mut().unwrap() } }
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> { fn drop(&mut self) { if self.g.take().is_some() { mc_rt::lock_released(self.m.addr()); } } }
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> { fn drop(&mut self) { if self.g.take().is_some() { mc_rt::lock_released(self.m.addr()); } } }

#[derive(Default)]
pub struct Condvar(rs::Condvar, rstd::sync::atomic::AtomicUsize);
impl Condvar {
    pub const fn new() -> Self { Condvar(rs::Condvar::new(), rstd::sync::atomic::AtomicUsize::new(0)) }
    fn addr(&self) -> usize { self as *const _ as usize }
    pub fn wait<'a, T>(&self, mut guard: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
        if mc_rt::in_model() {
            let m = guard.m;
            let seen = self.1.load(rstd::sync::atomic::Ordering::Relaxed);
            drop(guard);
            while self.1.load(rstd::sync::atomic::Ordering::Relaxed) == seen { mc_rt::block_on(self.addr()); }
            m.lock()
        } else {
            let m = guard.m;
            match self.0.wait(guard.g.take().unwrap()) { Ok(g) => Ok(MutexGuard { g: Some(g), m }), Err(p) => Err(PoisonError::new(MutexGuard { g: Some(p.into_inner()), m })) }
        }
    }
    pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(&self, mut guard: MutexGuard<'a, T>, mut cond: F) -> LockResult<MutexGuard<'a, T>> {
        while cond(&mut *guard) { guard = self.wait(guard)?; }
        Ok(guard)
    }
    pub fn notify_one(&self) { self.notify_all() }
    pub fn notify_all(&self) {
        self.1.fetch_add(1, rstd::sync::atomic::Ordering::Relaxed);
        if mc_rt::in_model() { mc_rt::lock_released(self.addr()) } else { self.0.notify_all() }
    }
}
impl fmt::Debug for Condvar { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("Condvar") } }

pub struct Barrier { m: Mutex<(usize, u64)>, c: Condvar, n: usize }
pub struct BarrierWaitResult(bool);
impl BarrierWaitResult { pub fn is_leader(&self) -> bool { self.0 } }
impl fmt::Debug for BarrierWaitResult { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.debug_struct("BarrierWaitResult").field("is_leader", &self.0).finish() } }
impl fmt::Debug for Barrier { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("Barrier { .. }") } }
impl Barrier {
    pub const fn new(n: usize) -> Self { Barrier { m: Mutex::new((0, 0)), c: Condvar::new(), n } }
    pub fn wait(&self) -> BarrierWaitResult {
        let mut g = self.m.lock().unwrap();
        let generation = g.1;
        g.0 += 1;
        if g.0 < self.n {
            let _g = self.c.wait_while(g, |s| s.1 == generation).unwrap();
            BarrierWaitResult(false)
        } else {
            g.0 = 0; g.1 = g.1.wrapping_add(1);
            self.c.notify_all();
            BarrierWaitResult(true)
        }
    }
}

pub mod threads {
    use rstd::time::Duration;
    use rstd::thread as rt;
    use rstd::io;
    use rstd::marker::PhantomData;
    use rstd::cell::RefCell;

    pub fn yield_now() { if !mc_rt::yield_now() { rt::yield_now() } }
    pub fn sleep(d: Duration) { if mc_rt::is_virtual() { mc_rt::advance(d.as_nanos() as u64); mc_rt::yield_now(); } else { rt::sleep(d) } }

    enum H<T> { Model(mc_rt::JoinHandle<T>), Real(rt::JoinHandle<T>) }
    pub struct JoinHandle<T>(H<T>);
    unsafe impl<T> Send for JoinHandle<T> {}
    impl<T> JoinHandle<T> {
        pub fn join(self) -> rt::Result<T> { match self.0 { H::Model(h) => h.join(), H::Real(h) => h.join() } }
        pub fn is_finished(&self) -> bool { match &self.0 { H::Model(h) => h.is_finished(), H::Real(h) => h.is_finished() } }
    }
    pub fn spawn<F: FnOnce() -> T + Send + 'static, T: Send + 'static>(f: F) -> JoinHandle<T> {
        if mc_rt::in_model() { JoinHandle(H::Model(mc_rt::spawn(f))) } else { JoinHandle(H::Real(rt::spawn(f))) }
    }
    #[derive(Debug, Default)]
    pub struct Builder { name: Option<String>, stack: Option<usize> }
    impl Builder {
        pub fn new() -> Self { Builder { name: None, stack: None } }
        pub fn name(mut self, n: String) -> Self { self.name = Some(n); self }
        pub fn stack_size(mut self, s: usize) -> Self { self.stack = Some(s); self }
        pub fn spawn<F: FnOnce() -> T + Send + 'static, T: Send + 'static>(self, f: F) -> io::Result<JoinHandle<T>> { Ok(spawn(f)) }
        pub fn spawn_scoped<'s, 'e, F: FnOnce() -> T + Send + 's, T: Send + 's>(self, scope: &'s Scope<'s, 'e>, f: F) -> io::Result<ScopedJoinHandle<'s, T>> { Ok(scope.spawn(f)) }
    }

    /// std::thread::scope: under the model its threads are model threads
    pub struct Scope<'scope, 'env: 'scope> { real: Option<&'scope rt::Scope<'scope, 'env>>, tids: RefCell<Vec<(usize, rstd::rc::Rc<rstd::cell::Cell<u8>>)>>, p: PhantomData<&'scope mut &'scope ()>, q: PhantomData<&'env mut &'env ()> }
    unsafe impl Sync for Scope<'_, '_> {}
    enum SH<'s, T> { Model(mc_rt::JoinHandle<T>, rstd::rc::Rc<rstd::cell::Cell<u8>>), Real(rt::ScopedJoinHandle<'s, T>) }
    pub struct ScopedJoinHandle<'s, T>(SH<'s, T>);
    unsafe impl<T> Send for ScopedJoinHandle<'_, T> {}
    impl<'s, T> ScopedJoinHandle<'s, T> {
        pub fn join(self) -> rt::Result<T> { match self.0 { SH::Model(h, seen) => { seen.set(seen.get() | 2); h.join() }, SH::Real(h) => h.join() } }
        pub fn is_finished(&self) -> bool { match &self.0 { SH::Model(h, _) => h.is_finished(), SH::Real(h) => h.is_finished() } }
    }
    impl<'scope, 'env> Scope<'scope, 'env> {
        pub fn spawn<F: FnOnce() -> T + Send + 'scope, T: Send + 'scope>(&'scope self, f: F) -> ScopedJoinHandle<'scope, T> {
            match self.real {
                Some(r) => ScopedJoinHandle(SH::Real(r.spawn(f))),
                None => {
                    let flag = rstd::rc::Rc::new(rstd::cell::Cell::new(0u8));
                    let f2 = flag.clone();
                    let h = mc_rt::spawn(move || match rstd::panic::catch_unwind(rstd::panic::AssertUnwindSafe(f)) { Ok(v) => v, Err(p) => { f2.set(f2.get() | 1); rstd::panic::resume_unwind(p) } });
                    self.tids.borrow_mut().push((h.tid(), flag.clone()));
                    ScopedJoinHandle(SH::Model(h, flag))
                }
            }
        }
    }
    pub fn scope<'env, F, T>(f: F) -> T where F: for<'scope> FnOnce(&'scope Scope<'scope, 'env>) -> T {
        if !mc_rt::in_model() {
            return rt::scope(|s| {
                let sc = Scope { real: Some(s), tids: RefCell::new(vec![]), p: PhantomData, q: PhantomData };
                // the scope object lives as long as std's own
                f(unsafe { rstd::mem::transmute::<&Scope<'_, 'env>, &Scope<'_, 'env>>(&sc) })
            });
        }
        let sc = Scope { real: None, tids: RefCell::new(vec![]), p: PhantomData, q: PhantomData };
        let r = rstd::panic::catch_unwind(rstd::panic::AssertUnwindSafe(|| f(unsafe { &*(&sc as *const Scope<'_, 'env>) })));
        let mut i = 0;
        let mut panicked = false;
        loop {
            let t = { let v = sc.tids.borrow(); if i >= v.len() { break; } v[i].clone() };
            mc_rt::wait_for(t.0);
            if t.1.get() == 1 { panicked = true; } // panicked and nobody joined it
            i += 1;
        }
        match r {
            Err(p) => rstd::panic::resume_unwind(p),
            Ok(_) if panicked => panic!("a scoped thread panicked"),
            Ok(v) => v,
        }
    }
}
