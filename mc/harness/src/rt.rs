//! What the runner checks share: a virtual clock for the code under test, memory charged to the measuring allocator,
//! and the log of what the user-supplied functions saw.
use big_o_test::ALLOC;
use mc_std::mc::{clear_handler, set_handler, Call};
use std::alloc::{GlobalAlloc, Layout};
use std::sync::{Mutex, OnceLock};

// ---- virtual time: the process' own libc entry points -----------------------------------------------

#[repr(C)] pub struct Timespec { sec: i64, nsec: i64 }
extern "C" { fn syscall(n: i64, ...) -> i64; }
/// the virtual clock starts here, so that no subtraction of the code under test may reach before "boot"
const EPOCH_S: i64 = 1_000_000;
const SYS_NANOSLEEP: i64 = 35; const SYS_CLOCK_GETTIME: i64 = 228; const SYS_CLOCK_NANOSLEEP: i64 = 230;

#[no_mangle] pub unsafe extern "C" fn clock_gettime(clock: i32, ts: *mut Timespec) -> i32 {
    if mc_rt::is_virtual() {
        let n = mc_rt::now();
        (*ts).sec = EPOCH_S + (n / 1_000_000_000) as i64; (*ts).nsec = (n % 1_000_000_000) as i64;
        return 0;
    }
    syscall(SYS_CLOCK_GETTIME, clock as i64, ts) as i32
}
unsafe fn ns(t: *const Timespec) -> u64 { ((*t).sec as u64).saturating_mul(1_000_000_000).saturating_add((*t).nsec as u64) }
#[no_mangle] pub unsafe extern "C" fn nanosleep(req: *const Timespec, rem: *mut Timespec) -> i32 {
    if mc_rt::is_virtual() { mc_rt::advance(ns(req)); return 0; }
    syscall(SYS_NANOSLEEP, req, rem) as i32
}
#[no_mangle] pub unsafe extern "C" fn clock_nanosleep(clock: i32, flags: i32, req: *const Timespec, rem: *mut Timespec) -> i32 {
    if mc_rt::is_virtual() {
        let n = ns(req);
        if flags & 1 == 0 { mc_rt::advance(n); } else {
            let t = n.saturating_sub(EPOCH_S as u64 * 1_000_000_000);
            if t > mc_rt::now() { mc_rt::advance(t - mc_rt::now()); }
        }
        return 0;
    }
    if syscall(SYS_CLOCK_NANOSLEEP, clock as i64, flags as i64, req, rem) == 0 { 0 } else { std::io::Error::last_os_error().raw_os_error().unwrap_or(4) }
}

// ---- the world of one execution ---------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ev {
    /// a user-supplied function was entered / left on a thread, having spent so many ns
    Start { f: u8, arg: i64, tid: u64 }, End { f: u8, arg: i64, tid: u64, ns: u64 },
    /// it panicked
    Panic { f: u8, arg: i64, tid: u64 },
    /// memory in use as charged by them changed to this
    Mem(usize),
}
pub struct World { pub log: Vec<Ev>, live: Vec<(usize, usize)>, pub used: usize, pub counter: [u64; 32] }
static W: Mutex<World> = Mutex::new(World { log: vec![], live: vec![], used: 0, counter: [0; 32] });
pub fn world<R>(f: impl FnOnce(&mut World) -> R) -> R { let mut g = W.lock().unwrap_or_else(|p| p.into_inner()); f(&mut g) }

pub fn tid() -> u64 {
    if mc_rt::in_model() { return mc_rt::current() as u64; }
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new(); std::thread::current().id().hash(&mut h); h.finish()
}

/// a pristine measuring allocator, virtual clock at zero, nothing logged
pub fn begin() {
    static PRISTINE: OnceLock<Vec<u8>> = OnceLock::new();
    let (a, len) = (&ALLOC as *const _ as *mut u8, std::mem::size_of_val(&ALLOC));
    unsafe {
        let p = PRISTINE.get_or_init(|| std::slice::from_raw_parts(a, len).to_vec());
        std::ptr::copy_nonoverlapping(p.as_ptr(), a, len);
    }
    world(|w| {
        for (p, k) in w.live.drain(..) { if k < FICTIONAL { unsafe { std::alloc::System.dealloc(p as *mut u8, layout(k)); } } }
        w.log.clear(); w.used = 0; w.counter = [0; 32];
    });
    mc_rt::reset_clock(0);
    mc_rt::set_virtual(true);
}
pub fn end() { mc_rt::set_virtual(false); }

fn layout(k: usize) -> Layout { Layout::from_size_align(k, 1).unwrap() }
/// blocks from here on are made up: nobody touches them
const FICTIONAL: usize = 1 << 26;
fn fictional(c: Call) -> Option<*mut u8> { Some(match c { Call::Alloc(_) => (1usize << 40) as *mut u8, _ => std::ptr::null_mut() }) }
fn maybe_fictional<R>(k: usize, f: impl FnOnce() -> R) -> R { if k >= FICTIONAL { set_handler(fictional); let r = f(); clear_handler(); r } else { f() } }
/// allocates `k` bytes through the measuring allocator and keeps them
pub fn grab(k: usize) {
    if k == 0 { return }
    world(|w| { let p = maybe_fictional(k, || unsafe { ALLOC.alloc(layout(k)) }); assert!(!p.is_null()); w.live.push((p as usize, k)); w.used += k; let u = w.used; w.log.push(Ev::Mem(u)); });
}
/// frees one kept block of `k` bytes (any, if none has that size)
pub fn give_back(k: usize) {
    world(|w| {
        let i = match w.live.iter().rposition(|b| b.1 == k) { Some(i) => i, None => return };
        let (p, k) = w.live.remove(i);
        maybe_fictional(k, || unsafe { ALLOC.dealloc(p as *mut u8, layout(k)); });
        w.used -= k; let u = w.used; w.log.push(Ev::Mem(u));
    });
}
pub fn give_back_all() { while let Some(k) = world(|w| w.live.last().map(|b| b.1)) { give_back(k) } }
/// allocates and frees
pub fn borrow(k: usize) { grab(k); give_back(k); }
/// counts calls by key within this execution: the number of earlier ones
pub fn count(key: usize) -> u64 { world(|w| { w.counter[key] += 1; w.counter[key] - 1 }) }

pub struct Injected;
/// the body of every user-supplied function: logged, interleaved, doing `work`
pub fn call(f: u8, arg: i64, work: impl FnOnce()) {
    let t = tid();
    world(|w| w.log.push(Ev::Start { f, arg, tid: t }));
    mc_rt::point();
    let n = mc_rt::now();
    work();
    let ns = mc_rt::now() - n;
    mc_rt::point();
    world(|w| w.log.push(Ev::End { f, arg, tid: t, ns }));
}
/// the same, panicking instead
pub fn call_panicking(f: u8, arg: i64) -> ! { call_panicking_with(f, arg, 0) }
pub const KINDS: usize = 5;
/// a payload whose own destruction is loud
pub struct Payload(#[allow(dead_code)] u64);
/// `kind`: what the panic carries -- a formatted message, a literal, a number, a type of the user's, nothing at all
pub fn call_panicking_with(f: u8, arg: i64, kind: usize) -> ! {
    let t = tid();
    world(|w| w.log.push(Ev::Start { f, arg, tid: t }));
    mc_rt::point();
    world(|w| w.log.push(Ev::Panic { f, arg, tid: t }));
    throw(kind)
}
pub fn throw(kind: usize) -> ! {
    match kind {
        0 => std::panic::panic_any("injected".to_string()),
        1 => std::panic::panic_any("injected literal"),
        2 => std::panic::panic_any(42u32),
        3 => std::panic::panic_any(Payload(7)),
        _ => std::panic::resume_unwind(Box::new(())),
    }
}

/// runs the code under test in a fresh world; Err is the panic it ended with
pub fn run<R>(f: impl FnOnce() -> R) -> (Result<R, String>, Vec<Ev>) {
    begin();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|p| mc_rt::panic_message(&p));
    let log = world(|w| std::mem::take(&mut w.log));
    end();
    (r, log)
}

pub fn hash(x: impl std::hash::Hash) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new(); x.hash(&mut h); h.finish() | 1
}
impl World { pub fn has(&self, k: usize) -> bool { self.live.iter().any(|b| b.1 == k) } }

// ---- what a run prints -----------------------------------------------------------------------------------

/// `run`, along with what was written to standard output meanwhile
pub fn run_printing<R>(f: impl FnOnce() -> R) -> (Result<R, String>, Vec<Ev>, String) {
    use std::io::{Read, Seek, SeekFrom, Write};
    use std::os::fd::FromRawFd;
    extern "C" { fn memfd_create(name: *const u8, flags: u32) -> i32; fn dup(fd: i32) -> i32; fn dup2(a: i32, b: i32) -> i32; }
    // the file collecting it, the original standard output
    static FDS: OnceLock<(i32, i32)> = OnceLock::new();
    let (mem, out) = *FDS.get_or_init(|| unsafe { (memfd_create(c"printed".as_ptr() as *const u8, 1), dup(1)) });
    assert!(mem >= 0 && out >= 0, "cannot collect the standard output");
    let mut file = std::mem::ManuallyDrop::new(unsafe { std::fs::File::from_raw_fd(mem) });
    let _ = std::io::stdout().flush();
    file.set_len(0).and_then(|_| file.seek(SeekFrom::Start(0))).expect("collecting the standard output");
    unsafe { dup2(mem, 1); }
    let (r, log) = run(f);
    let _ = std::io::stdout().flush();
    unsafe { dup2(out, 1); }
    let mut bytes = vec![];
    file.seek(SeekFrom::Start(0)).and_then(|_| file.read_to_end(&mut bytes)).expect("collecting the standard output");
    (r, log, String::from_utf8_lossy(&bytes).into_owned())
}
