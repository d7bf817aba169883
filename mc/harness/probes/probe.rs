//! Compiled against each feature combination of /repo's crate; what it observes goes to the file named by its first argument.
use big_o_test::low_level_analysis::{analyse_complexity, analyse_set_resizing_iterator_complexity};
use big_o_test::{test_algorithm, test_crud_algorithms, BigOAlgorithmComplexity as C, ALLOC};
use std::fmt::Write as _;
use std::hint::black_box;
use std::io::Write as _;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

// a clock that only moves when told to
static NOW: AtomicU64 = AtomicU64::new(0);
#[repr(C)] pub struct Timespec { sec: i64, nsec: i64 }
#[no_mangle] pub unsafe extern "C" fn clock_gettime(_c: i32, ts: *mut Timespec) -> i32 { let n = NOW.load(Relaxed); (*ts).sec = 1_000_000 + (n / 1_000_000_000) as i64; (*ts).nsec = (n % 1_000_000_000) as i64; 0 }
unsafe fn pass(t: *const Timespec) { NOW.fetch_add(((*t).sec as u64).saturating_mul(1_000_000_000).saturating_add((*t).nsec as u64), Relaxed); }
#[no_mangle] pub unsafe extern "C" fn nanosleep(req: *const Timespec, _rem: *mut Timespec) -> i32 { pass(req); 0 }
#[no_mangle] pub unsafe extern "C" fn clock_nanosleep(_c: i32, _f: i32, req: *const Timespec, _rem: *mut Timespec) -> i32 { pass(req); 0 }
fn elapse(ns: u64) { NOW.fetch_add(ns, Relaxed); }

// programs bring their own allocator when the crate is told to leave it alone
#[cfg(own_allocator)]
mod own {
    use std::alloc::*;
    pub static COUNT: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    struct Counting;
    unsafe impl GlobalAlloc for Counting {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 { COUNT.fetch_add(1, std::sync::atomic::Ordering::Relaxed); System.alloc(l) }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
    }
    #[global_allocator] static A: Counting = Counting;
}

fn passes(f: impl FnOnce()) -> &'static str { if std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_ok() { "passed" } else { "failed" } }
fn hold(n: usize) -> u32 { let v = black_box(vec![1u8; n]); v.len() as u32 }

#[cfg(probe_async)]
fn drive(f: impl std::future::Future<Output = ()>) {
    let mut f = Box::pin(f);
    let mut cx = std::task::Context::from_waker(std::task::Waker::noop());
    for _ in 0..1000 { if f.as_mut().poll(&mut cx).is_ready() { return } }
    panic!("never ends");
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut out = String::new();
    // the tolerance, and every class under it
    let mut classes = String::new();
    for (n1, n2) in [(2u32, 4u32), (10, 20), (1000, 2000), (1000, 10_000), (70_000, 1_000_000)] { for u1 in [1.0f64, 1000.0] { for i in 0..4000 { let u2 = u1 * (i as f64 / 100.0 + 0.0003).powi(2);
        for c in [analyse_complexity(u1, u2, n1 as f64, n2 as f64), analyse_set_resizing_iterator_complexity(u1, u2, n1 as f64)] { classes.push((b'a' + c as u8) as char); }
    } } }
    let _ = writeln!(out, "classes={classes}");
    // the last step of 0.1% from which a use of 1000 still counts as unchanged
    let edge = (0..1000).take_while(|i| analyse_complexity(1000.0, 1000.0 + *i as f64 + 0.5, 1000.0, 1_000_000.0) == C::O1).count();
    let _ = writeln!(out, "tolerance={edge}");
    // the allocator
    let sp = ALLOC.save_point();
    let kept = black_box(vec![7u8; 1_000_000]);
    let d = ALLOC.delta_statistics(&sp).unwrap();
    let _ = writeln!(out, "measured={}", d.allocated_bytes + d.zeroed_allocated_bytes);
    let _ = writeln!(out, "in_use={}", d.current_used_memory.wrapping_sub(sp.metrics.current_used_memory));
    drop(kept);
    #[cfg(own_allocator)] let _ = writeln!(out, "own={}", own::COUNT.load(Relaxed));
    // reports, with nothing to complain about
    let regular = |max_t, max_s, time: u64, mem: usize| test_algorithm("probe-regular", 0, || (), 1000, || { elapse(1_000_000); hold(1000) }, 2000, || { elapse(1_000_000 * time); hold(1000 * mem) }, max_t, max_s);
    let w = C::WorseThanExponential;
    let _ = writeln!(out, "fine={}", passes(|| regular(C::O1, C::O1, 1, 1)));
    std::io::stdout().flush().unwrap();
    let _ = writeln!(out, "slow={}", passes(|| regular(C::O1, w, 4, 1)));
    let _ = writeln!(out, "slow_allowed={}", passes(|| regular(C::BetweenON2AndON3, C::O1, 4, 1)));
    let _ = writeln!(out, "fat={}", passes(|| regular(w, C::O1, 1, 64)));
    let crud = |limit, second: u64| test_crud_algorithms("probe-crud", 1, |n| n,
        |n| { elapse(if n < 10 { 1000 } else { 1000 * second }); n }, limit, w, |n| { elapse(1000); n }, C::O1, w, |n| { elapse(1000); n }, C::O1, w, |n| { elapse(1000); n }, C::O1, w,
        20, 10, 10, 10, 10, 1, 1, 1, 1);
    let _ = writeln!(out, "crud_fine={}", passes(|| crud(C::O1, 1)));
    let _ = writeln!(out, "crud_slow={}", passes(|| crud(C::O1, 9)));
    #[cfg(probe_async)]
    {
        let test = |limit, time: u64| drive(big_o_test::RegularAsyncAnalyzerBuilder::new("probe-async")
            .first_pass(1000, |_: Option<u32>| async { elapse(1_000_000); hold(10) })
            .second_pass(2000, move |_: Option<u32>| async move { elapse(1_000_000 * time); hold(10) })
            .with_time_measurements(limit).test_algorithm());
        let _ = writeln!(out, "async_fine={}", passes(|| test(C::O1, 1)));
        let _ = writeln!(out, "async_slow={}", passes(|| test(C::O1, 4)));
    }
    std::io::stdout().flush().unwrap();
    std::fs::write(std::env::args().nth(1).expect("where to write"), out).unwrap();
}
