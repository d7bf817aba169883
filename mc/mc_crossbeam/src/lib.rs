//! Stand-in for `crossbeam`: the real crate, with scoped threads run by the model checker while it explores.
pub use crossbeam::*;

#[cfg(not(feature = "plain"))]
pub use thread::scope;
/// blocking operations that are not under the explorer's control: using them makes the build fall back to the real crate
#[cfg(not(feature = "plain"))] pub mod channel {}
#[cfg(not(feature = "plain"))] pub mod sync {}

#[cfg(not(feature = "plain"))]
pub mod thread {
    use std::cell::RefCell;
    use std::marker::PhantomData;
    use std::panic::{catch_unwind, AssertUnwindSafe};
    use std::rc::Rc;
    use std::cell::Cell;
    use std::any::Any;
    use std::io;
    use crossbeam::thread as ct;
    pub use std::thread::Result;

    type Tids = Rc<RefCell<Vec<(usize, Rc<Cell<u8>>, Rc<RefCell<Option<Box<dyn Any + Send>>>>)>>>;

    enum S<'a, 'env> { Real(&'a ct::Scope<'env>), Model(Tids) }
    pub struct Scope<'env> { inner: S<'env, 'env>, _p: PhantomData<&'env mut &'env ()> }
    unsafe impl Sync for Scope<'_> {}
    unsafe impl Send for Scope<'_> {}

    enum H<'scope, T> { Real(ct::ScopedJoinHandle<'scope, T>), Model(mc_rt::JoinHandle<T>, Rc<Cell<u8>>) }
    pub struct ScopedJoinHandle<'scope, T>(H<'scope, T>);
    unsafe impl<T> Send for ScopedJoinHandle<'_, T> {}
    unsafe impl<T> Sync for ScopedJoinHandle<'_, T> {}
    impl<T> ScopedJoinHandle<'_, T> {
        pub fn join(self) -> Result<T> { match self.0 { H::Real(h) => h.join(), H::Model(h, s) => { s.set(s.get() | 2); h.join() } } }
    }

    impl<'env> Scope<'env> {
        pub fn spawn<'scope, F, T>(&'scope self, f: F) -> ScopedJoinHandle<'scope, T>
        where F: FnOnce(&Scope<'env>) -> T, F: Send + 'env, T: Send + 'env {
            match &self.inner {
                S::Real(s) => {
                    let s: &'scope ct::Scope<'env> = s;
                    ScopedJoinHandle(H::Real(s.spawn(move |inner| {
                        let sc = Scope { inner: S::Real(unsafe { std::mem::transmute::<&ct::Scope<'env>, &'env ct::Scope<'env>>(inner) }), _p: PhantomData };
                        f(&sc)
                    })))
                }
                S::Model(tids) => {
                    let flag = Rc::new(Cell::new(0u8));
                    let (f2, t2) = (flag.clone(), tids.clone());
                    let h = mc_rt::spawn(move || {
                        let sc = Scope { inner: S::Model(t2), _p: PhantomData };
                        match catch_unwind(AssertUnwindSafe(|| f(&sc))) { Ok(v) => v, Err(p) => { f2.set(f2.get() | 1); std::panic::resume_unwind(p) } }
                    });
                    tids.borrow_mut().push((h.tid(), flag.clone(), Rc::new(RefCell::new(None))));
                    ScopedJoinHandle(H::Model(h, flag))
                }
            }
        }
        pub fn builder<'scope>(&'scope self) -> ScopedThreadBuilder<'scope, 'env> { ScopedThreadBuilder { scope: self } }
    }
    pub struct ScopedThreadBuilder<'scope, 'env> { scope: &'scope Scope<'env> }
    impl<'scope, 'env> ScopedThreadBuilder<'scope, 'env> {
        pub fn name(self, _: String) -> Self { self }
        pub fn stack_size(self, _: usize) -> Self { self }
        pub fn spawn<F, T>(self, f: F) -> io::Result<ScopedJoinHandle<'scope, T>>
        where F: FnOnce(&Scope<'env>) -> T, F: Send + 'env, T: Send + 'env { Ok(self.scope.spawn(f)) }
    }

    pub fn scope<'env, F, R>(f: F) -> Result<R> where F: FnOnce(&Scope<'env>) -> R {
        if !mc_rt::in_model() {
            return ct::scope(|s| {
                let sc = Scope { inner: S::Real(unsafe { std::mem::transmute::<&ct::Scope<'env>, &'env ct::Scope<'env>>(s) }), _p: PhantomData };
                f(&sc)
            });
        }
        let tids: Tids = Rc::new(RefCell::new(vec![]));
        let sc = Scope { inner: S::Model(tids.clone()), _p: PhantomData };
        let r = catch_unwind(AssertUnwindSafe(|| f(&sc)));
        let mut i = 0;
        let mut panics: Vec<Box<dyn Any + Send>> = vec![];
        loop {
            let t = { let v = tids.borrow(); if i >= v.len() { break; } v[i].clone() };
            mc_rt::wait_for(t.0);
            if t.1.get() == 1 { panics.push(Box::new("a scoped thread panicked")); }
            i += 1;
        }
        match r {
            Err(p) => std::panic::resume_unwind(p),
            Ok(v) => if panics.is_empty() { Ok(v) } else { Err(Box::new(panics)) },
        }
    }
}
