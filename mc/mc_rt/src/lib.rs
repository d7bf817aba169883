//! Stateless model checker for real Rust code: a controlled scheduler over fibers, a C11-style
//! memory model for atomics (view based), a virtual clock and a depth-first enumeration of every choice.
//!
//! * Every visible operation (atomic access, lock, spawn, join, explicit point) is a scheduling point.
//! * Choices are enumerated depth first; each execution is re-run from scratch following a recorded
//!   prefix. A mismatch while replaying a prefix is a hard engine error.
//! * Two budgets bound the search: preemptions (switching away from a thread that could go on) and
//!   deviations (a stale read allowed by the memory model or a spurious compare-exchange failure).
//! * With `prune`, states already explored with at least the same budgets left are not branched again.

use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::atomic::Ordering;

use corosensei::stack::DefaultStack;
use corosensei::{Coroutine, CoroutineResult, Yielder};

pub mod hash;
use hash::{mix, FastMap};

// ------------------------------------------------------------------------------------------------
// bounds, statistics, violations
// ------------------------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug)]
pub struct Bounds {
    /// switches away from a runnable thread allowed per execution
    pub preemptions: u32,
    /// stale reads + spurious compare-exchange failures allowed per execution
    pub deviations: u32,
    /// explore reads of older values as permitted by the orderings used
    pub weak: bool,
    /// atomics are scheduling points (otherwise only spawn/join/lock/explicit points are)
    pub atomic_points: bool,
    /// do not branch again in states already explored with the same or larger budgets (sequentially consistent mode only)
    pub prune: bool,
    /// steps in one execution after which it is declared a livelock
    pub max_steps: u64,
    /// executions after which exploration is cut (reported as not exhaustive)
    pub max_execs: u64,
    /// atomics are followed by a scheduling point, too, so the plain code after one may be delayed
    pub post_points: bool,
    /// record threads' positions and memory in the set of distinct states
    pub count_states: bool,
    /// 0: every schedule within the bounds; otherwise one schedule only: 1 = lowest ready thread, 2 = highest ready thread
    pub one_schedule: u8,
}
impl Bounds {
    pub const fn sc(preemptions: u32) -> Self {
        Bounds { preemptions, deviations: 0, weak: false, atomic_points: true, prune: false, max_steps: 20_000, max_execs: u64::MAX, post_points: false, count_states: true, one_schedule: 0 }
    }
    pub const fn weak(preemptions: u32, deviations: u32) -> Self {
        Bounds { preemptions, deviations, weak: true, atomic_points: true, prune: false, max_steps: 20_000, max_execs: u64::MAX, post_points: false, count_states: true, one_schedule: 0 }
    }
    /// sequential consistency, all interleavings, with state pruning
    pub const fn full() -> Self {
        Bounds { preemptions: u32::MAX, deviations: 0, weak: false, atomic_points: true, prune: true, max_steps: 20_000, max_execs: u64::MAX, post_points: false, count_states: true, one_schedule: 0 }
    }
    /// the same, with the plain code between atomics interleaved as well
    pub const fn post(mut self) -> Self { self.post_points = true; self }
    /// no scheduling points at atomics
    pub const fn coarse(preemptions: u32) -> Self {
        Bounds { preemptions, deviations: 0, weak: false, atomic_points: false, prune: false, max_steps: 200_000, max_execs: u64::MAX, post_points: false, count_states: true, one_schedule: 0 }
    }
    /// environment choices only (with a single schedule for each)
    pub const fn seq() -> Self { let mut b = Self::coarse(0); b.one_schedule = 1; b }
    /// the same, preferring the threads started last
    pub const fn seq_reversed() -> Self { let mut b = Self::coarse(0); b.one_schedule = 2; b }
}

#[derive(Default, Debug, Clone)]
pub struct Stats {
    pub executions: u64,
    pub transitions: u64,
    pub choice_points: u64,
    pub states: u64,
    pub pruned: u64,
    pub preempted_execs: u64,
    pub deviated_execs: u64,
    pub max_threads: u64,
    pub capped: bool,
    pub outcomes: BTreeMap<String, u64>,
}

#[derive(Debug, Clone)]
pub struct Violation {
    pub msg: String,
    pub choices: Vec<u32>,
    pub trace: Vec<String>,
}

// ------------------------------------------------------------------------------------------------
// knowledge (happens-before) and memory locations
// ------------------------------------------------------------------------------------------------

#[derive(Clone, Default, Debug)]
struct Know {
    vc: Vec<u32>,   // per thread
    view: Vec<u32>, // per location: oldest readable message index
}
fn join_vec(a: &mut Vec<u32>, b: &[u32]) {
    if a.len() < b.len() { a.resize(b.len(), 0); }
    for (x, y) in a.iter_mut().zip(b) { if *y > *x { *x = *y; } }
}
impl Know {
    fn join(&mut self, o: &Know) { join_vec(&mut self.vc, &o.vc); join_vec(&mut self.view, &o.view); }
    fn view_of(&self, l: usize) -> u32 { self.view.get(l).copied().unwrap_or(0) }
    fn set_view(&mut self, l: usize, t: u32) { if self.view.len() <= l { self.view.resize(l + 1, 0); } if self.view[l] < t { self.view[l] = t; } }
    fn vc_of(&self, t: usize) -> u32 { self.vc.get(t).copied().unwrap_or(0) }
    fn set_vc(&mut self, t: usize, e: u32) { if self.vc.len() <= t { self.vc.resize(t + 1, 0); } self.vc[t] = e; }
}

struct Msg { val: u64, know: Option<Rc<Know>> }
struct Loc { msgs: Vec<Msg>, addr: usize }

#[derive(Clone, Copy, PartialEq, Debug)]
enum TState { Ready, Spinning, Blocked(usize), Joining(usize), Done }

struct Thr {
    state: TState,
    know: Know,
    acq_pending: Know,
    rel_fence: Option<Rc<Know>>,
    clock: u64,
    reads: Vec<(usize, u32, u32)>,
    history: u64,
    fiber: usize,
    steps: u64,
}

struct Watch { base: usize, snap: Vec<u8>, skip: Vec<bool>, writer: Vec<(u16, u32)>, racy: Vec<bool> }

struct Exec {
    threads: Vec<Thr>,
    cur: usize,
    next: usize,
    bounds: Bounds,
    steps: u64,
    preempt_left: u32,
    dev_left: u32,
    locs: Vec<Loc>,
    loc_of: FastMap<usize, usize>,
    locks: FastMap<usize, Rc<Know>>,
    sc: Know,
    mem_hash: u64,
    watch: Vec<Watch>,
    failure: Option<String>,
    aborted: bool,
    no_branch: bool,
    trace: Option<Vec<String>>,
    noted: u64,
    log: *mut Log,
    no_preempt: u32,
}

// ------------------------------------------------------------------------------------------------
// choice log (depth-first enumeration)
// ------------------------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug)]
struct Choice { idx: u32, n: u32, kind: u8 }

struct Log {
    stack: Vec<Choice>,
    pos: usize,
    forced: Option<Vec<u32>>,
    states: FastMap<u64, (u32, u32)>,
    transitions: u64,
    choice_points: u64,
    pruned: u64,
    engine_error: Option<String>,
}
impl Log {
    fn new() -> Self { Log { stack: vec![], pos: 0, forced: None, states: FastMap::default(), transitions: 0, choice_points: 0, pruned: 0, engine_error: None } }
    fn choose(&mut self, n: u32, kind: u8) -> u32 {
        debug_assert!(n >= 1);
        if n == 1 { return 0; }
        if let Some(f) = &self.forced {
            let i = self.pos; self.pos += 1;
            let c = f.get(i).copied().unwrap_or(0);
            if c >= n { self.engine_error = Some(format!("replay divergence at choice {i}: recorded {c} of {n}")); return 0; }
            self.stack.push(Choice { idx: c, n, kind });
            return c;
        }
        if self.pos < self.stack.len() {
            let c = self.stack[self.pos];
            if c.n != n || c.kind != kind {
                self.engine_error = Some(format!("nondeterminism while replaying a prefix: choice {} was {:?}, now n={} kind={}", self.pos, c, n, kind));
                self.pos += 1;
                return 0;
            }
            self.pos += 1;
            return c.idx;
        }
        self.choice_points += 1;
        self.stack.push(Choice { idx: 0, n, kind });
        self.pos += 1;
        0
    }
    /// moves to the next unexplored execution
    fn advance(&mut self) -> bool {
        self.stack.truncate(self.pos.max(0));
        while let Some(c) = self.stack.last_mut() {
            if c.idx + 1 < c.n { c.idx += 1; self.pos = 0; return true; }
            self.stack.pop();
        }
        false
    }
}

// ------------------------------------------------------------------------------------------------
// fibers
// ------------------------------------------------------------------------------------------------

type Job = Box<dyn FnOnce()>;
struct Fiber {
    co: Coroutine<(), (), (), DefaultStack>,
    yielder: Rc<Cell<*const Yielder<(), ()>>>,
    job: Rc<RefCell<Option<Job>>>,
    idle: Rc<Cell<bool>>,
}
impl Fiber {
    fn new() -> Fiber {
        let yielder = Rc::new(Cell::new(std::ptr::null()));
        let job: Rc<RefCell<Option<Job>>> = Rc::new(RefCell::new(None));
        let idle = Rc::new(Cell::new(true));
        let (y, j, i) = (yielder.clone(), job.clone(), idle.clone());
        let co = Coroutine::with_stack(DefaultStack::new(512 * 1024).expect("stack"), move |yl: &Yielder<(), ()>, _: ()| {
            y.set(yl as *const _);
            loop {
                let job = j.borrow_mut().take();
                if let Some(job) = job { i.set(false); job(); i.set(true); }
                yl.suspend(());
            }
        });
        Fiber { co, yielder, job, idle }
    }
}

thread_local! {
    static EX: Cell<*mut Exec> = const { Cell::new(std::ptr::null_mut()) };
    static FIBERS: RefCell<Vec<*mut Fiber>> = const { RefCell::new(Vec::new()) };
    static BASE_CLOCK: Cell<u64> = const { Cell::new(0) };
    static VIRTUAL: Cell<bool> = const { Cell::new(false) };
}

#[inline]
fn ex() -> Option<&'static mut Exec> {
    let p = EX.with(|e| e.get());
    if p.is_null() { None } else { Some(unsafe { &mut *p }) }
}

/// true when the calling code runs under the model (and is not unwinding)
#[inline]
pub fn active() -> bool {
    !EX.with(|e| e.get()).is_null() && !std::thread::panicking()
}

pub fn in_model() -> bool { !EX.with(|e| e.get()).is_null() }

pub fn current() -> usize { ex().map(|e| e.cur).unwrap_or(0) }

// No `&mut Exec` may be live across a suspension (other fibers change the state meanwhile), hence these
// free functions: callers fetch the state again afterwards.

#[inline(never)]
fn suspend() {
    let e = ex().unwrap();
    let f = e.threads[e.cur].fiber;
    let y = FIBERS.with(|fs| { let p = fs.borrow()[f]; unsafe { (*p).yielder.get() } });
    unsafe { (*y).suspend(()) };
}

/// scheduling point of the running thread
fn do_point() {
    let e = ex().unwrap();
    if e.decide() {
        e.tr(|| "-- preempted".to_string());
        suspend();
    }
}

/// scheduling point after an atomic operation
fn post_point() {
    let e = ex().unwrap();
    if !e.bounds.post_points { return }
    let c = e.cur; let t = &mut e.threads[c]; t.history = mix(t.history ^ 0x9057);
    do_point();
    let e = ex().unwrap();
    let c = e.cur; let t = &mut e.threads[c]; t.history = mix(t.history ^ 0x9058);
}

/// deschedules without cost if somebody else can run
fn do_yield() {
    let e = ex().unwrap();
    let cur = e.cur;
    if e.threads.iter().enumerate().any(|(i, t)| i != cur && matches!(t.state, TState::Ready | TState::Spinning)) { e.threads[cur].state = TState::Spinning; }
    if e.decide() { suspend(); }
}

/// blocks the running thread in `state`
fn do_block(state: TState) {
    let e = ex().unwrap();
    let cur = e.cur;
    e.threads[cur].state = state;
    if e.decide() { suspend(); }
}

impl Exec {
    fn tr(&mut self, f: impl FnOnce() -> String) {
        if self.trace.is_some() {
            let s = format!("T{}: {}", self.cur, f());
            self.trace.as_mut().unwrap().push(s);
        }
    }

    /// stops this execution for good (never returns to the calling fiber)
    fn abort(&mut self) -> ! {
        self.aborted = true;
        loop { suspend(); }
    }

    fn fail(&mut self, msg: String) -> ! {
        if self.failure.is_none() { self.failure = Some(msg); }
        self.abort()
    }

    fn attribute(&mut self) {
        let cur = self.cur;
        let Exec { threads, watch, .. } = self;
        let know = &threads[cur].know;
        let e = know.vc_of(cur);
        for w in watch.iter_mut() {
            let mem = unsafe { std::slice::from_raw_parts(w.base as *const u8, w.snap.len()) };
            if mem == &w.snap[..] { continue; }
            for i in 0..mem.len() {
                if mem[i] != w.snap[i] {
                    w.snap[i] = mem[i];
                    if !w.skip[i] {
                        // written over something whose writing does not happen before this: which of the two lasts is not determined
                        let (t, ep) = w.writer[i];
                        w.racy[i] = t as usize != cur && ep > 0 && know.vc_of(t as usize) < ep;
                        w.writer[i] = (cur as u16, e);
                    }
                }
            }
        }
    }

    fn state_hash(&self) -> u64 {
        let mut h = self.mem_hash ^ mix(self.noted ^ 0x9e37);
        for (i, t) in self.threads.iter().enumerate() {
            let s = match t.state { TState::Ready => 1, TState::Spinning => 2, TState::Blocked(_) => 3, TState::Joining(j) => 16 + j as u64, TState::Done => 4 };
            h ^= mix(t.history ^ mix((i as u64) << 8 | s) ^ mix(t.steps as u64 ^ 0x5e9));
        }
        for w in &self.watch {
            for (i, c) in w.snap.chunks(8).enumerate() {
                let mut b = [0u8; 8]; b[..c.len()].copy_from_slice(c);
                h ^= mix(u64::from_le_bytes(b) ^ mix(i as u64 ^ 0xabc));
            }
        }
        mix(h ^ mix(self.cur as u64 ^ 0x77))
    }

    fn wake_spinners(&mut self) {
        let cur = self.cur;
        for (i, t) in self.threads.iter_mut().enumerate() {
            if i != cur && t.state == TState::Spinning { t.state = TState::Ready; t.reads.clear(); }
        }
    }

    fn log(&mut self) -> &'static mut Log { unsafe { &mut *self.log } }

    /// scheduling decision; the current thread's state says whether it could go on
    fn schedule(&mut self) {
        self.steps += 1;
        self.log().transitions += 1;
        let cur = self.cur;
        self.threads[cur].steps += 1;
        if self.steps > self.bounds.max_steps {
            self.fail(format!("no progress: {} steps without finishing (livelock)", self.bounds.max_steps));
        }
        let cur_ready = self.threads[cur].state == TState::Ready;
        if self.bounds.count_states || self.bounds.prune {
            let h = self.state_hash();
            let (pl, dl) = (self.preempt_left, self.dev_left);
            let prune = self.bounds.prune;
            let log = self.log();
            let replaying = log.forced.is_some() || log.pos < log.stack.len();
            match log.states.get_mut(&h) {
                Some(b) => {
                    if prune && !replaying && !self.no_branch {
                        if b.0 >= pl && b.1 >= dl { self.no_branch = true; log.pruned += 1; } else { *b = (pl.max(b.0), dl.max(b.1)); }
                    }
                }
                None => { log.states.insert(h, (pl, dl)); }
            }
        }
        // candidates
        let mut opts: [u16; 16] = [0; 16];
        let mut n = 0usize;
        if cur_ready { opts[0] = cur as u16; n = 1; }
        let may_switch = !cur_ready || (self.preempt_left > 0 && self.no_preempt == 0);
        if may_switch && !(self.no_branch && cur_ready) {
            for (i, t) in self.threads.iter().enumerate() {
                if i != cur && t.state == TState::Ready && n < 16 { opts[n] = i as u16; n += 1; }
            }
        }
        if n == 0 {
            // only spinners (or nobody) left
            for (i, t) in self.threads.iter_mut().enumerate() {
                if t.state == TState::Spinning { t.state = TState::Ready; t.reads.clear(); if n < 16 { opts[n] = i as u16; n += 1; } }
            }
            // let the one that ran least go first, the others are free choices
        }
        if n == 0 {
            if self.threads.iter().all(|t| t.state == TState::Done) { self.next = usize::MAX; if !cur_ready { return; } }
            let who: Vec<String> = self.threads.iter().enumerate().filter(|(_, t)| t.state != TState::Done).map(|(i, t)| format!("T{i}:{:?}", t.state)).collect();
            self.fail(format!("deadlock: no thread can run ({})", who.join(", ")));
        }
        let n_eff = if self.no_branch || self.bounds.one_schedule != 0 { 1 } else { n };
        let c = self.log().choose(n_eff as u32, 1) as usize;
        let next = if self.bounds.one_schedule == 2 { opts[n - 1] as usize } else { opts[c] as usize };
        if cur_ready && next != cur && self.preempt_left != u32::MAX { self.preempt_left -= 1; }
        self.next = next;
    }

    /// takes a scheduling decision; true if another thread goes next
    fn decide(&mut self) -> bool {
        if !self.watch.is_empty() { self.attribute(); }
        self.schedule();
        self.next != self.cur
    }

    fn tick(&mut self) {
        let cur = self.cur;
        let e = self.threads[cur].know.vc_of(cur);
        self.threads[cur].know.set_vc(cur, e + 1);
    }

    // ---- memory -------------------------------------------------------------------------------

    fn loc(&mut self, addr: usize, size: usize, raw: u64) -> usize {
        if let Some(&l) = self.loc_of.get(&addr) {
            if self.locs[l].msgs.last().unwrap().val == raw { return l; }
            // the memory was re-initialised outside of our sight: a new object lives there
        }
        let l = self.locs.len();
        self.locs.push(Loc { msgs: vec![Msg { val: raw, know: None }], addr });
        self.loc_of.insert(addr, l);
        for w in self.watch.iter_mut() {
            for a in addr..addr + size { if a >= w.base && a < w.base + w.snap.len() { w.skip[a - w.base] = true; } }
        }
        self.mem_hash ^= mix(raw ^ mix(l as u64 + 1));
        l
    }

    fn note_read(&mut self, l: usize, idx: u32, val: u64) {
        let cur = self.cur;
        let t = &mut self.threads[cur];
        t.history = mix(t.history ^ mix(val ^ mix(l as u64 ^ 0x51)));
        let _ = idx;
    }

    /// remembers a read that made no progress; deschedules a thread repeating itself
    #[must_use]
    fn spin_check(&mut self, l: usize, idx: u32) -> bool {
        let cur = self.cur;
        let t = &mut self.threads[cur];
        for r in t.reads.iter_mut() {
            if r.0 == l {
                if r.1 == idx {
                    r.2 += 1;
                    if r.2 >= 3 { t.reads.clear(); return true; }
                    return false;
                }
                t.reads.clear();
                t.reads.push((l, idx, 1));
                return false;
            }
        }
        t.reads.push((l, idx, 1));
        false
    }

    fn acquire_from(&mut self, l: usize, idx: usize, ord: Ordering) {
        let cur = self.cur;
        let k = self.locs[l].msgs[idx].know.clone();
        let t = &mut self.threads[cur];
        t.know.set_view(l, idx as u32);
        if let Some(k) = k {
            if matches!(ord, Ordering::Acquire | Ordering::AcqRel | Ordering::SeqCst) { t.know.join(&k); }
            else { t.acq_pending.join(&k); }
        }
        if ord == Ordering::SeqCst { let sc = self.sc.clone(); self.threads[cur].know.join(&sc); let k = self.threads[cur].know.clone(); self.sc.join(&k); }
    }

    fn publish(&mut self, l: usize, val: u64, ord: Ordering, rmw_of: Option<usize>) {
        let cur = self.cur;
        let idx = self.locs[l].msgs.len();
        let old = self.locs[l].msgs[idx - 1].val;
        self.mem_hash ^= mix(old ^ mix(l as u64 + 1)) ^ mix(val ^ mix(l as u64 + 1));
        self.threads[cur].know.set_view(l, idx as u32);
        if ord == Ordering::SeqCst { let sc = self.sc.clone(); self.threads[cur].know.join(&sc); }
        let mut know: Option<Know> = None;
        if matches!(ord, Ordering::Release | Ordering::AcqRel | Ordering::SeqCst) { know = Some(self.threads[cur].know.clone()); }
        else if let Some(r) = &self.threads[cur].rel_fence { know = Some((**r).clone()); }
        if let Some(p) = rmw_of {
            // a read-modify-write continues the release sequence it reads from
            if let Some(pk) = &self.locs[l].msgs[p].know { match &mut know { Some(k) => k.join(pk), None => know = Some((**pk).clone()) } }
        }
        if ord == Ordering::SeqCst { let k = self.threads[cur].know.clone(); self.sc.join(&k); }
        self.locs[l].msgs.push(Msg { val, know: know.map(Rc::new) });
        let t = &mut self.threads[cur];
        t.reads.clear();
        t.history = mix(t.history ^ mix(val ^ mix(l as u64 ^ 0x99)));
        self.tick();
        self.wake_spinners();
        // keep watched copies of atomics in step
        let addr = self.locs[l].addr;
        for w in self.watch.iter_mut() {
            if addr >= w.base && addr < w.base + w.snap.len() { w.skip[addr - w.base] = true; }
        }
    }

    fn readable(&self, l: usize) -> (usize, usize) {
        let last = self.locs[l].msgs.len() - 1;
        let first = self.threads[self.cur].know.view_of(l) as usize;
        (first.min(last), last)
    }
}

// ------------------------------------------------------------------------------------------------
// operations called by the shim types
// ------------------------------------------------------------------------------------------------

pub enum Upd { Keep, Set(u64) }

#[inline]
fn model() -> Option<&'static mut Exec> {
    if std::thread::panicking() { return None; }
    ex()
}

/// handles an atomic load; None = do the raw operation
#[inline]
pub fn a_load(addr: usize, size: usize, ord: Ordering, raw: impl Fn() -> u64) -> Option<u64> {
    let e = model()?;
    if !e.bounds.atomic_points { return None; }
    do_point();
    let e = ex()?;
    let l = e.loc(addr, size, raw());
    let (first, last) = e.readable(l);
    let mut idx = last;
    if e.bounds.weak && e.dev_left > 0 && first < last && !e.no_branch {
        let c = e.log().choose((last - first + 1) as u32, 2);
        if c > 0 { e.dev_left -= 1; idx = last - c as usize; }
    }
    let val = e.locs[l].msgs[idx].val;
    e.acquire_from(l, idx, ord);
    e.note_read(l, idx as u32, val);
    e.tr(|| format!("load  a{l} {ord:?} -> {val}{}", if idx < last { format!(" (stale, latest {})", "newer") } else { String::new() }));
    if e.spin_check(l, idx as u32) { do_yield(); } else { post_point(); }
    Some(val)
}

#[inline]
pub fn a_store(addr: usize, size: usize, val: u64, ord: Ordering, raw: impl Fn() -> u64, set: impl Fn(u64)) -> bool {
    let Some(e) = model() else { return false };
    if !e.bounds.atomic_points { return false; }
    do_point();
    let e = ex().unwrap();
    let l = e.loc(addr, size, raw());
    e.publish(l, val, ord, None);
    set(val);
    e.sync_watch(addr, size);
    e.tr(|| format!("store a{l} {ord:?} <- {val}"));
    post_point();
    true
}

/// read-modify-write that always succeeds; returns the old value
#[inline]
pub fn a_rmw(addr: usize, size: usize, ord: Ordering, f: impl Fn(u64) -> u64, raw: impl Fn() -> u64, set: impl Fn(u64)) -> Option<u64> {
    let e = model()?;
    if !e.bounds.atomic_points { return None; }
    do_point();
    let e = ex()?;
    let l = e.loc(addr, size, raw());
    let last = e.locs[l].msgs.len() - 1;
    let old = e.locs[l].msgs[last].val;
    let new = f(old);
    e.acquire_from(l, last, ord);
    e.note_read(l, last as u32, old);
    e.publish(l, new, ord, Some(last));
    set(new);
    e.sync_watch(addr, size);
    e.tr(|| format!("rmw   a{l} {ord:?} {old} -> {new}"));
    post_point();
    Some(old)
}

#[inline]
pub fn a_cas(addr: usize, size: usize, expected: u64, new: u64, so: Ordering, fo: Ordering, weak: bool, raw: impl Fn() -> u64, set: impl Fn(u64)) -> Option<Result<u64, u64>> {
    let e = model()?;
    if !e.bounds.atomic_points { return None; }
    do_point();
    let e = ex()?;
    let l = e.loc(addr, size, raw());
    let (first, last) = e.readable(l);
    // alternatives: 0 = read the latest; then spurious failure; then each older value that differs from `expected`
    let mut alts: Vec<(usize, bool)> = vec![(last, false)];
    if e.bounds.weak && e.dev_left > 0 && !e.no_branch {
        if weak && e.locs[l].msgs[last].val == expected { alts.push((last, true)); }
        for i in (first..last).rev() { if e.locs[l].msgs[i].val != expected { alts.push((i, true)); } }
    }
    let c = e.log().choose(alts.len() as u32, 3) as usize;
    if c > 0 { e.dev_left -= 1; }
    let (idx, forced_fail) = alts[c];
    let val = e.locs[l].msgs[idx].val;
    if val == expected && !forced_fail {
        e.acquire_from(l, idx, so);
        e.note_read(l, idx as u32, val);
        e.publish(l, new, so, Some(idx));
        set(new);
        e.sync_watch(addr, size);
        e.tr(|| format!("cas   a{l} {so:?} {val} -> {new} ok"));
        post_point();
        Some(Ok(val))
    } else {
        e.acquire_from(l, idx, fo);
        e.note_read(l, idx as u32, val ^ 0x5555_0000);
        e.tr(|| format!("cas   a{l} {fo:?} expected {expected}, found {val}: failed{}", if forced_fail { " (spurious/stale)" } else { "" }));
        if !forced_fail && e.spin_check(l, idx as u32) { do_yield(); } else { post_point(); }
        Some(Err(val))
    }
}

pub fn a_fence(ord: Ordering) -> bool {
    let Some(e) = model() else { return false };
    if !e.bounds.atomic_points { return false; }
    do_point();
    let e = ex().unwrap();
    let cur = e.cur;
    if matches!(ord, Ordering::Acquire | Ordering::AcqRel | Ordering::SeqCst) { let p = e.threads[cur].acq_pending.clone(); e.threads[cur].know.join(&p); }
    if ord == Ordering::SeqCst { let sc = e.sc.clone(); e.threads[cur].know.join(&sc); let k = e.threads[cur].know.clone(); e.sc.join(&k); }
    if matches!(ord, Ordering::Release | Ordering::AcqRel | Ordering::SeqCst) { e.threads[cur].rel_fence = Some(Rc::new(e.threads[cur].know.clone())); }
    e.tick();
    true
}

impl Exec {
    fn sync_watch(&mut self, addr: usize, size: usize) {
        for w in self.watch.iter_mut() {
            for a in addr..addr + size {
                if a >= w.base && a < w.base + w.snap.len() {
                    let i = a - w.base;
                    w.snap[i] = unsafe { *(a as *const u8) };
                    w.skip[i] = true;
                }
            }
        }
    }
}

static UNCONTROLLED: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// The code under test was built against the real std: its atomics and locks are invisible here, so only whole operations
/// of the harness' threads are interleaved and nothing is said about happens-before.
pub fn set_uncontrolled() { UNCONTROLLED.store(true, Ordering::Relaxed) }
#[inline] pub fn uncontrolled() -> bool { UNCONTROLLED.load(Ordering::Relaxed) }

/// an explicit visible step of the running thread
pub fn point() { if uncontrolled() { return } if model().is_some() { do_point(); let e = ex().unwrap(); let c = e.cur; let t = &mut e.threads[c]; t.history = mix(t.history ^ 0x1234_5678); } }
/// gives way to other threads at no preemption cost
pub fn yield_now() -> bool { if model().is_some() { do_yield(); true } else { false } }
pub fn spin_hint() { if model().is_some() { do_yield(); } }
/// start of a new operation of the harness: repeated reads from here on are not "spinning"
pub fn op() { if let Some(e) = model() { let c = e.cur; e.threads[c].reads.clear(); } }
/// a fact about this execution the oracle depends on (kept apart when merging states)
pub fn note(x: u64) { if let Some(e) = model() { e.noted = mix(e.noted ^ mix(x ^ 0xfeed)); } }
/// a state of the system reached by one operation of a sequential history (coverage accounting only)
pub fn state(h: u64) { if let Some(e) = ex() { let (p, d) = (e.preempt_left, e.dev_left); let l = e.log(); l.transitions += 1; l.states.entry(mix(h ^ 0x5107)).or_insert((p, d)); } }
/// a fact local to the running thread that determines its future
pub fn note_local(x: u64) { if let Some(e) = model() { let c = e.cur; e.threads[c].history = mix(e.threads[c].history ^ mix(x ^ 0xbeef)); } }
pub fn trace(f: impl FnOnce() -> String) { if let Some(e) = model() { e.tr(f) } }
/// runs `f` without preempting the running thread
pub fn atomically<R>(f: impl FnOnce() -> R) -> R {
    match ex() { Some(e) => { e.no_preempt += 1; let r = f(); ex().unwrap().no_preempt -= 1; r }, None => f() }
}

/// an environment choice among `n`
pub fn choose(n: usize) -> usize {
    match ex() {
        Some(e) if n > 1 && !e.no_branch => {
            let c = e.log().choose(n as u32, 4);
            let t = e.cur; e.threads[t].history = mix(e.threads[t].history ^ mix(c as u64 ^ 0xc0));
            c as usize
        }
        _ => 0,
    }
}

/// ends the execution as a violation
pub fn fail(msg: impl Into<String>) -> ! {
    match ex() { Some(e) => e.fail(msg.into()), None => panic!("{}", msg.into()) }
}

/// watch plain memory for unsynchronised publication
pub fn watch(ptr: *const u8, len: usize) {
    if let Some(e) = ex() {
        let snap = unsafe { std::slice::from_raw_parts(ptr, len) }.to_vec();
        e.watch.push(Watch { base: ptr as usize, snap, skip: vec![false; len], writer: vec![(0, 0); len], racy: vec![false; len] });
    }
}

/// is the last write to each of these watched bytes visible to (happens before) the running thread (and was it ordered after the one before)?
pub fn visible(ptr: *const u8, len: usize) -> bool {
    if uncontrolled() { return true }
    let Some(e) = ex() else { return true };
    e.attribute();
    let cur = e.cur;
    for w in &e.watch {
        for a in ptr as usize..ptr as usize + len {
            if a >= w.base && a < w.base + w.snap.len() && !w.skip[a - w.base] {
                let (t, ep) = w.writer[a - w.base];
                if w.racy[a - w.base] { return false; }
                if t as usize != cur && ep > 0 && e.threads[cur].know.vc_of(t as usize) < ep { return false; }
            }
        }
    }
    true
}

/// a point in happens-before: (thread, epoch)
pub fn stamp() -> (usize, u32) { match ex() { Some(e) => { let c = e.cur; (c, e.threads[c].know.vc_of(c)) }, None => (0, 0) } }
/// does the event stamped `s` happen before now on the running thread?
pub fn hb(s: (usize, u32)) -> bool { if uncontrolled() { return true } match ex() { Some(e) => s.0 == e.cur || e.threads[e.cur].know.vc_of(s.0) >= s.1, None => true } }

// ------------------------------------------------------------------------------------------------
// locks (used by the shim of std::sync and by harnesses)
// ------------------------------------------------------------------------------------------------

/// blocks the running thread until `try_acquire` succeeds, then takes over the knowledge of the last release
pub fn lock_acquire(addr: usize, mut try_acquire: impl FnMut() -> bool) {
    if ex().is_none() { return }
    if !std::thread::panicking() { do_point(); }
    while !try_acquire() {
        trace(|| "blocked on a lock".to_string());
        do_block(TState::Blocked(addr));
    }
    let e = ex().unwrap();
    let cur = e.cur;
    if let Some(k) = e.locks.get(&addr).cloned() { e.threads[cur].know.join(&k); }
    let t = &mut e.threads[cur];
    t.reads.clear();
    t.history = mix(t.history ^ mix(addr as u64 & 0xfff));
}
pub fn lock_released(addr: usize) {
    let Some(e) = ex() else { return };
    if !e.watch.is_empty() { e.attribute(); }
    let cur = e.cur;
    let mut k = e.threads[cur].know.clone();
    if let Some(o) = e.locks.get(&addr) { k.join(o); }
    e.locks.insert(addr, Rc::new(k));
    e.tick();
    for t in e.threads.iter_mut() { if t.state == TState::Blocked(addr) { t.state = TState::Ready; } }
    e.wake_spinners();
}
/// parks the running thread on `addr` until someone calls [lock_released] on it
pub fn block_on(addr: usize) {
    if ex().is_some() { do_block(TState::Blocked(addr)); }
}

// ------------------------------------------------------------------------------------------------
// threads
// ------------------------------------------------------------------------------------------------

pub struct JoinHandle<T> { tid: usize, slot: Rc<RefCell<Option<std::thread::Result<T>>>> }

fn new_thread(e: &mut Exec, job: Job) -> usize {
    let tid = e.threads.len();
    assert!(tid < 4000, "too many model threads");
    let fiber = FIBERS.with(|fs| {
        let mut fs = fs.borrow_mut();
        let used: Vec<usize> = e.threads.iter().filter(|t| t.state != TState::Done).map(|t| t.fiber).collect();
        let i = (0..fs.len()).find(|i| unsafe { (*fs[*i]).idle.get() } && !used.contains(i));
        let i = match i { Some(i) => i, None => { fs.push(Box::into_raw(Box::new(Fiber::new()))); fs.len() - 1 } };
        unsafe { *(*fs[i]).job.borrow_mut() = Some(job); }
        i
    });
    let mut know = if tid == 0 { Know::default() } else { e.threads[e.cur].know.clone() };
    know.set_vc(tid, 1);
    let clock = if tid == 0 { BASE_CLOCK.with(|c| c.get()) } else { e.threads[e.cur].clock };
    e.threads.push(Thr { state: TState::Ready, know, acq_pending: Know::default(), rel_fence: None, clock, reads: vec![], history: mix(tid as u64 ^ 0x7777), fiber, steps: 0 });
    if tid != 0 { e.tick(); }
    tid
}

fn finish_thread(e: &mut Exec) {
    if !e.watch.is_empty() { e.attribute(); }
    let cur = e.cur;
    e.threads[cur].state = TState::Done;
    for t in e.threads.iter_mut() { if t.state == TState::Joining(cur) { t.state = TState::Ready; } }
    e.wake_spinners();
    e.tr(|| "ends".to_string());
    e.schedule();
}

/// Starts a model thread. `f` may borrow: the caller guarantees to join it before its borrows end.
pub fn spawn<'a, T: 'a>(f: impl FnOnce() -> T + 'a) -> JoinHandle<T> {
    ex().expect("mc_rt::spawn outside of the model");
    if !std::thread::panicking() { do_point(); }
    let e = ex().unwrap();
    let slot: Rc<RefCell<Option<std::thread::Result<T>>>> = Rc::new(RefCell::new(None));
    let s2 = slot.clone();
    let job: Box<dyn FnOnce() + 'a> = Box::new(move || {
        let r = catch_unwind(AssertUnwindSafe(f));
        *s2.borrow_mut() = Some(r);
        drop(s2);
        finish_thread(ex().unwrap());
    });
    let job: Job = unsafe { std::mem::transmute(job) };
    let tid = new_thread(e, job);
    e.tr(|| format!("spawns T{tid}"));
    JoinHandle { tid, slot }
}

impl<T> JoinHandle<T> {
    pub fn tid(&self) -> usize { self.tid }
    pub fn is_finished(&self) -> bool { ex().map(|e| e.threads[self.tid].state == TState::Done).unwrap_or(true) }
    pub fn join(self) -> std::thread::Result<T> {
        wait_for(self.tid);
        self.slot.borrow_mut().take().expect("joined thread left no result")
    }
}

/// waits for a model thread to end
pub fn wait_for(tid: usize) {
    if ex().is_none() { return }
    if !std::thread::panicking() { do_point(); }
    while ex().unwrap().threads[tid].state != TState::Done { do_block(TState::Joining(tid)); }
    let e = ex().unwrap();
    let k = e.threads[tid].know.clone();
    let cur = e.cur;
    e.threads[cur].know.join(&k);
    let c = e.threads[tid].clock;
    if c > e.threads[cur].clock { e.threads[cur].clock = c; }
    let h = e.threads[tid].history;
    e.threads[cur].history = mix(e.threads[cur].history ^ h);
    e.tr(|| format!("joins T{tid}"));
}

/// threads that did not end yet
pub fn live_threads() -> usize { ex().map(|e| e.threads.iter().filter(|t| t.state != TState::Done).count()).unwrap_or(0) }
pub fn thread_count() -> usize { ex().map(|e| e.threads.len()).unwrap_or(0) }

// ------------------------------------------------------------------------------------------------
// virtual clock
// ------------------------------------------------------------------------------------------------

/// the clock as last seen anywhere: what threads out of the explorer's control start from (none + 1 while there is no virtual time)
static SHARED_CLOCK: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
pub fn set_virtual(on: bool) {
    VIRTUAL.with(|v| v.set(on));
    SHARED_CLOCK.store(if on { now() + 1 } else { 0 }, Ordering::Relaxed);
}
pub fn is_virtual() -> bool {
    if VIRTUAL.try_with(|v| v.get()).unwrap_or(false) { return true }
    if uncontrolled() && ex().is_none() {
        let c = SHARED_CLOCK.load(Ordering::Relaxed);
        if c != 0 {
            VIRTUAL.with(|v| v.set(true));
            BASE_CLOCK.with(|b| b.set(c - 1));
            return true;
        }
    }
    false
}
pub fn reset_clock(ns: u64) { BASE_CLOCK.with(|c| c.set(ns)); }
pub fn now() -> u64 {
    match ex() { Some(e) => e.threads[e.cur].clock, None => BASE_CLOCK.with(|c| c.get()) }
}
pub fn advance(ns: u64) {
    match ex() { Some(e) => { let c = e.cur; e.threads[c].clock += ns; }, None => BASE_CLOCK.with(|c| c.set(c.get() + ns)) }
    if uncontrolled() { is_virtual(); SHARED_CLOCK.fetch_max(now() + 1, Ordering::Relaxed); }
}

// ------------------------------------------------------------------------------------------------
// exploration
// ------------------------------------------------------------------------------------------------

fn payload_msg(p: &Box<dyn Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<String>() { s.clone() } else if let Some(s) = p.downcast_ref::<&str>() { s.to_string() } else { "<non-string panic payload>".into() }
}
pub fn panic_message(p: &Box<dyn Any + Send>) -> String { payload_msg(p) }

struct RunResult { result: Result<String, String>, trace: Vec<String>, preempted: bool, deviated: bool, threads: usize }

fn run_one(b: &Bounds, log: &mut Log, tracing: bool, body: &dyn Fn() -> Result<String, String>) -> RunResult {
    let mut exec = Box::new(Exec {
        threads: vec![], cur: 0, next: 0, bounds: *b, steps: 0, preempt_left: b.preemptions, dev_left: b.deviations,
        locs: vec![], loc_of: FastMap::default(), locks: FastMap::default(), sc: Know::default(), mem_hash: 0, watch: vec![],
        failure: None, aborted: false, no_branch: false, trace: if tracing { Some(vec![]) } else { None }, noted: 0, log, no_preempt: 0,
    });
    log.pos = 0;
    let ptr: *mut Exec = &mut *exec;
    let out: Rc<RefCell<Option<Result<String, String>>>> = Rc::new(RefCell::new(None));
    let o2 = out.clone();
    let job: Box<dyn FnOnce() + '_> = Box::new(move || {
        let r = catch_unwind(AssertUnwindSafe(body));
        *o2.borrow_mut() = Some(match r { Ok(r) => r, Err(p) => Err(format!("panicked: {}", payload_msg(&p))) });
        drop(o2);
        finish_thread(ex().unwrap());
    });
    let job: Job = unsafe { std::mem::transmute(job) };
    new_thread(unsafe { &mut *ptr }, job);
    EX.with(|e| e.set(ptr));
    let mut next = 0usize;
    loop {
        let e = unsafe { &mut *ptr };
        e.cur = next;
        let f = e.threads[next].fiber;
        let fp = FIBERS.with(|fs| fs.borrow()[f]);
        match unsafe { (*fp).co.resume(()) } { CoroutineResult::Yield(()) => {}, CoroutineResult::Return(()) => unreachable!() }
        let e = unsafe { &mut *ptr };
        if e.aborted { break; }
        if e.threads.iter().all(|t| t.state == TState::Done) { break; }
        next = e.next;
        if next == usize::MAX { break; }
    }
    EX.with(|e| e.set(std::ptr::null_mut()));
    let aborted = exec.aborted;
    if aborted {
        // leak the stuck fibers
        FIBERS.with(|fs| {
            let mut fs = fs.borrow_mut();
            let all = std::mem::take(&mut *fs);
            for f in all { if unsafe { (*f).idle.get() } { fs.push(f); } }
        });
    }
    let result = match exec.failure.take() {
        Some(f) => Err(f),
        None => out.borrow_mut().take().unwrap_or_else(|| Err("execution ended without a verdict".into())),
    };
    let preempted = exec.preempt_left != b.preemptions;
    let deviated = exec.dev_left != b.deviations;
    let threads = exec.threads.len();
    let trace = exec.trace.take().unwrap_or_default();
    if aborted { std::mem::forget(exec); }
    RunResult { result, trace, preempted, deviated, threads }
}

#[derive(Debug)]
pub struct EngineError(pub String);

// how much processor time (in ns) one exploration may take before it is given up as incomplete; 0: any
static BUDGET: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
pub fn set_budget(seconds: u64) { BUDGET.store(seconds * 1_000_000_000, std::sync::atomic::Ordering::Relaxed); }
/// processor time of this process, past any stand-in for the clock
fn cpu_time() -> u64 {
    extern "C" { fn syscall(n: i64, ...) -> i64; }
    let mut t = [0i64; 2];
    unsafe { syscall(228, 2i64, t.as_mut_ptr()); }
    t[0] as u64 * 1_000_000_000 + t[1] as u64
}
fn over_budget(started: u64) -> bool {
    let b = BUDGET.load(std::sync::atomic::Ordering::Relaxed);
    b != 0 && cpu_time() - started > b
}

/// Explores every execution of `body` within `b`. Stops at the first violation (confirmed by replaying it twice).
pub fn explore(b: Bounds, body: &dyn Fn() -> Result<String, String>) -> Result<(Stats, Option<Violation>), EngineError> {
    let mut log = Log::new();
    let mut st = Stats::default();
    let started = cpu_time();
    loop {
        let r = run_one(&b, &mut log, false, body);
        if let Some(e) = log.engine_error.take() { return Err(EngineError(e)); }
        st.executions += 1;
        if r.preempted { st.preempted_execs += 1; }
        if r.deviated { st.deviated_execs += 1; }
        st.max_threads = st.max_threads.max(r.threads as u64);
        match r.result {
            Ok(o) => { if st.outcomes.len() < 100_000 || st.outcomes.contains_key(&o) { *st.outcomes.entry(o).or_insert(0) += 1; } }
            Err(msg) => {
                let choices: Vec<u32> = log.stack[..log.pos.min(log.stack.len())].iter().map(|c| c.idx).collect();
                st.transitions = log.transitions; st.choice_points = log.choice_points; st.states = log.states.len() as u64; st.pruned = log.pruned;
                let mut nb = b; nb.prune = false;
                // the choices after pruning started were not branching points: replay them with the same pruning decisions
                let (m1, t1) = replay(b, &choices, &log.states, body)?;
                let (m2, _) = replay(b, &choices, &log.states, body)?;
                let _ = nb;
                // (messages may tell addresses or the like, which differ between runs)
                if m1.is_none() || m2.is_none() {
                    return Err(EngineError(format!("violation does not replay: first {msg:?}, then {m1:?} and {m2:?}")));
                }
                return Ok((st, Some(Violation { msg, choices, trace: t1 })));
            }
        }
        if st.executions >= b.max_execs { st.capped = true; break; }
        if st.executions % 256 == 0 && over_budget(started) { st.capped = true; break; }
        if !log.advance() { break; }
    }
    st.transitions = log.transitions;
    st.choice_points = log.choice_points;
    st.states = log.states.len() as u64;
    st.pruned = log.pruned;
    Ok((st, None))
}

fn replay(b: Bounds, choices: &[u32], _states: &FastMap<u64, (u32, u32)>, body: &dyn Fn() -> Result<String, String>) -> Result<(Option<String>, Vec<String>), EngineError> {
    run_forced(b, choices, true, body)
}

/// Re-runs one recorded execution; returns the violation message (if it still violates) and its trace
pub fn run_forced(b: Bounds, choices: &[u32], tracing: bool, body: &dyn Fn() -> Result<String, String>) -> Result<(Option<String>, Vec<String>), EngineError> {
    let mut log = Log::new();
    log.forced = Some(choices.to_vec());
    let r = run_one(&b, &mut log, tracing, body);
    if let Some(e) = log.engine_error.take() { return Err(EngineError(e)); }
    Ok((r.result.err(), r.trace))
}

/// silences the default panic message (panics inside of explored code are outcomes)
pub fn quiet_panics() { std::panic::set_hook(Box::new(|_| {})); }

pub type Map<K, V> = HashMap<K, V>;
