//! The system allocator as seen by the code under test; the harness may intercept every request.
use rstd::alloc::{GlobalAlloc, Layout};
use rstd::cell::Cell;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Call { Alloc(Layout), Zeroed(Layout), Dealloc(*mut u8, Layout), Realloc(*mut u8, Layout, usize) }
/// Returns Some(pointer) if it served the request (null = refused), None to pass it on.
pub type Handler = fn(Call) -> Option<*mut u8>;
rstd::thread_local! { static HANDLER: Cell<Option<Handler>> = const { Cell::new(None) }; }
pub fn set_handler(h: Handler) { HANDLER.with(|c| c.set(Some(h))) }
pub fn clear_handler() { HANDLER.with(|c| c.set(None)) }

#[derive(Debug, Default, Copy, Clone)]
pub struct System;
#[inline] fn h(c: Call) -> Option<*mut u8> { match HANDLER.try_with(|c| c.get()) { Ok(Some(f)) => f(c), _ => None } }
unsafe impl GlobalAlloc for System {
    #[inline] unsafe fn alloc(&self, l: Layout) -> *mut u8 { match h(Call::Alloc(l)) { Some(p) => p, None => rstd::alloc::System.alloc(l) } }
    #[inline] unsafe fn dealloc(&self, p: *mut u8, l: Layout) { match h(Call::Dealloc(p, l)) { Some(_) => {}, None => rstd::alloc::System.dealloc(p, l) } }
    #[inline] unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { match h(Call::Zeroed(l)) { Some(p) => p, None => rstd::alloc::System.alloc_zeroed(l) } }
    #[inline] unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { match h(Call::Realloc(p, l, n)) { Some(p) => p, None => rstd::alloc::System.realloc(p, l, n) } }
}
