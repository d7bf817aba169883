//! C12-C15 and the CRUD part of C20: the CRUD runner under a controlled scheduler and a virtual clock.
use crate::frame::*;
use crate::rt::{self, Ev};
use crate::classify::{rank, SCALE};
use big_o_test::low_level_analysis::{space_analysis::*, time_analysis::*, types::*};
use big_o_test::runners::crud::analyse_crud_algorithms;
use big_o_test::test_crud_algorithms;
use big_o_test::BigOAlgorithmComplexity as C;
use mc_rt::Bounds;
use std::collections::BTreeMap;
use std::time::Duration;

const RESET: u8 = 0;
const NAMES: [&str; 5] = ["reset", "create", "read", "update", "delete"];
const WORST: C = C::WorseThanExponential;

#[derive(Clone, Copy, Debug)]
pub struct Cfg { pct: u32, n: [u32; 4], t: [u32; 4] }
impl Cfg { fn on(&self, i: usize) -> bool { self.n[i] > 0 && self.t[i] > 0 } }

/// a stretch of the run: `op` over the elements lo..hi
#[derive(Clone, Debug)]
struct Seg { op: u8, lo: u32, hi: u32, threads: u32, what: &'static str, pass: u8 }

fn segments(c: &Cfg) -> Vec<Seg> {
    let mut v = vec![];
    let share = |i: usize| if c.on(i) { (c.n[i] as u64 * c.pct as u64 / 100) as u32 } else { 0 };
    if c.pct > 0 {
        for i in 0..4 { if share(i) > 0 { v.push(Seg { op: i as u8 + 1, lo: 0, hi: share(i), threads: c.t[i], what: "warm-up", pass: 0 }); } }
        v.push(Seg { op: RESET, lo: share(0), hi: 0, threads: 1, what: "reset after warm-up", pass: 0 });
    }
    for p in 1..=2u8 { for i in 0..3 { if c.on(i) { v.push(Seg { op: i as u8 + 1, lo: c.n[i] * (p as u32 - 1), hi: c.n[i] * p as u32, threads: c.t[i], what: if p == 1 { "first pass" } else { "second pass" }, pass: p }); } } }
    if c.on(3) { for p in [2u8, 1] { v.push(Seg { op: 4, lo: c.n[3] * (p as u32 - 1), hi: c.n[3] * p as u32, threads: c.t[3], what: if p == 1 { "first pass" } else { "second pass" }, pass: p }); } }
    v
}

/// splits the log into the prescribed stretches (index ranges), or tells how it deviates
fn split(log: &[Ev], segs: &[Seg]) -> Result<Vec<std::ops::Range<usize>>, String> {
    let mut out = vec![];
    let mut i = 0;
    for s in segs {
        let from = i;
        let mut open = 0i64;
        let mut calls = 0u64;
        while i < log.len() {
            match log[i] {
                Ev::Start { f, arg, .. } => {
                    let mine = f == s.op && if s.op == RESET { calls == 0 } else { arg >= s.lo as i64 && arg < s.hi as i64 };
                    if !mine { break }
                    open += 1; calls += 1;
                }
                Ev::End { .. } | Ev::Panic { .. } => open -= 1,
                Ev::Mem(_) => {}
            }
            i += 1;
        }
        let name = format!("{} ({})", NAMES[s.op as usize], s.what);
        let next = || log.get(i).map(|e| match e { Ev::Start { f, arg, .. } => format!("{}({arg})", NAMES[*f as usize]), e => format!("{e:?}") }).unwrap_or("the end".into());
        if calls == 0 { return Err(format!("{name} over {}..{} was expected, but {} came", s.lo, s.hi, next())); }
        if open != 0 { return Err(format!("{} started before {name} had finished", next())); }
        if s.op == RESET { if let Some(Ev::Start { arg, .. }) = log[from..i].iter().find(|e| matches!(e, Ev::Start { .. })) { if *arg != s.lo as i64 { return Err(format!("reset was told {arg} elements were created in the warm-up, instead of {}", s.lo)); } } }
        out.push(from..i);
    }
    if i < log.len() { return Err(format!("{:?} was called after everything should be done", log[i])); }
    Ok(out)
}

type Cost<'a> = &'a (dyn Fn(u8, u32) + Sync);
type Analyses<'a> = (Option<BigOAlgorithmAnalysis<SetResizingIteratorAlgorithmMeasurements<'a>>>, Option<BigOAlgorithmAnalysis<ConstantSetIteratorAlgorithmMeasurements<'a>>>,
    Option<BigOAlgorithmAnalysis<ConstantSetIteratorAlgorithmMeasurements<'a>>>, Option<BigOAlgorithmAnalysis<SetResizingIteratorAlgorithmMeasurements<'a>>>, String);

fn user(op: u8, e: u32, cost: Cost) -> u32 { rt::call(op, e as i64, || cost(op, e)); e ^ 0x55 }
fn analyse<'a>(c: &Cfg, cost: Cost) -> Analyses<'a> {
    analyse_crud_algorithms("crud", |e| user(0, e, cost), |e| user(1, e, cost), |e| user(2, e, cost), |e| user(3, e, cost), |e| user(4, e, cost),
        c.pct, c.n[0], c.n[1], c.n[2], c.n[3], c.t[0], c.t[1], c.t[2], c.t[3])
}

// ---- C12 ---------------------------------------------------------------------------------------------

/// a test with these settings, allowing anything
fn allowing(c: &Cfg, cost: Cost) { tests(c, 1, [[WORST; 2]; 4], cost) }
fn phases_in_test(c: Cfg) -> Result<String, String> {
    let (r, log) = rt::run(|| allowing(&c, &|_, _| mc_rt::advance(1000)));
    r.map_err(|p| format!("testing {c:?}: panicked: {p}"))?;
    split(&log, &segments(&c)).map_err(|m| format!("testing {c:?}: {m}"))?;
    Ok(format!("{} calls", log.iter().filter(|e| matches!(e, Ev::Start { .. })).count()))
}

fn phases(c: Cfg) -> Result<String, String> {
    let (r, log) = rt::run(|| { let a = analyse(&c, &|_, _| mc_rt::advance(1000)); [a.0.is_some(), a.1.is_some(), a.2.is_some(), a.3.is_some()] });
    let has = r.map_err(|p| format!("{c:?}: panicked: {p}"))?;
    split(&log, &segments(&c)).map_err(|m| format!("{c:?}: {m}"))?;
    for i in 0..4 { if has[i] != c.on(i) { return Err(format!("{c:?}: {} has {} analysis", NAMES[i + 1], if has[i] { "an" } else { "no" })); } }
    Ok(format!("{} calls on {} threads", log.iter().filter(|e| matches!(e, Ev::Start { .. })).count(), log.iter().filter_map(|e| if let Ev::Start { tid, .. } = e { Some(*tid) } else { None }).collect::<std::collections::BTreeSet<_>>().len()))
}

fn pick<T: Copy>(v: &[T]) -> T { v[mc_rt::choose(v.len())] }

pub fn c12(tier: Tier) -> Property {
    let mut p = Property::new("C12", "model_checking", "every combination of warm-up share, iterations and threads of the four operations over the listed domains; and every interleaving of the worker threads on smaller ones");
    let pcts: &[u32] = tier.pick(&[0, 40, 99, 100], &[0, 1, 33, 40, 50, 99, 100]);
    for &pct in pcts {
        for nc in 0..tier.pick(4u32, 5) { for nd in 0..tier.pick(3u32, 5) {
            let ns: Vec<u32> = tier.pick(vec![0, 1, 3], vec![0, 1, 2, 3, 5]);
            let ts: Vec<u32> = tier.pick(vec![0, 1, 2], vec![0, 1, 2, 3]);
            for rev in [false, true] {
                if rev && nc == 0 { continue }
                let (ns, ts) = (ns.clone(), ts.clone());
                p.explore(format!("warm-up {pct}%, create x{nc}, delete x{nd}, any reads, updates & threads, {} threads first", if rev { "last" } else { "first" }), if rev { Bounds::seq_reversed() } else { Bounds::seq() }, move || {
                    let c = Cfg { pct, n: [nc, pick(&ns), pick(&ns), nd], t: [pick(&ts), pick(&ts), pick(&ts), pick(&ts)] };
                    phases(c)
                });
            }
        } }
    }
    // larger counts
    for n in tier.pick(vec![4u32, 5, 10, 100], vec![4, 5, 7, 10, 17, 100, 1000]) { for t in tier.pick(vec![1u32, 3, 4, 8], vec![1, 2, 3, 4, 5, 8, 16]) { for pct in [0, 1, 25, 100] {
        p.explore(format!("x{n} on {t} threads, warm-up {pct}%, any operations"), Bounds::seq(), move || {
            let on = |x: u32| if mc_rt::choose(2) == 1 { x } else { 0 };
            phases(Cfg { pct, n: [on(n), on(n + 1), on(n + 2), on(n)], t: [t, t, t, t] })
        });
    } } }
    for &pct in pcts { for nc in tier.pick(vec![0u32, 1, 4], vec![0, 1, 2, 4, 7]) {
        p.explore(format!("tests, warm-up {pct}%, create x{nc}, any other operations & threads"), Bounds::seq(), move || {
            let (ns, ts) = (tier.pick(&[0u32, 1, 4][..], &[0, 1, 2, 5]), tier.pick(&[0u32, 1, 3][..], &[0, 1, 2, 3]));
            phases_in_test(Cfg { pct, n: [nc, pick(ns), pick(ns), pick(ns)], t: [pick(ts), pick(ts), pick(ts), pick(ts)] })
        });
    } }
    // all schedules
    for op in 0..4usize { for (n, t) in tier.pick(vec![(2u32, 2u32), (3, 2), (3, 3)], vec![(2, 2), (3, 2), (4, 2), (3, 3)]) {
        let mut c = Cfg { pct: 0, n: [0; 4], t: [0; 4] };
        c.n[op] = n; c.t[op] = t;
        p.explore(format!("all schedules: {} x{n} on {t} threads", NAMES[op + 1]), Bounds::coarse(if t > 2 { 2 } else { tier.pick(3, 6) }), move || phases(c));
    } }
    for (a, b) in [(0usize, 1usize), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)] {
        let mut c = Cfg { pct: 0, n: [0; 4], t: [0; 4] };
        c.n[a] = 2; c.t[a] = 2; c.n[b] = 2; c.t[b] = 2;
        p.explore(format!("all schedules: {} & {} x2 on 2 threads", NAMES[a + 1], NAMES[b + 1]), Bounds::coarse(tier.pick(1, 3)), move || phases(c));
    }
    for op in 0..4usize {
        let mut c = Cfg { pct: 100, n: [0; 4], t: [0; 4] };
        c.n[op] = 2; c.t[op] = 2;
        p.explore(format!("all schedules: {} x2 on 2 threads after a full warm-up", NAMES[op + 1]), Bounds::coarse(tier.pick(1, 3)), move || phases(c));
    }
    for two in [0b0001u32, 0b0010, 0b0100, 0b1000, 0b1001, 0b0110] {
        let t = [0, 1, 2, 3].map(|i| 1 + (two >> i & 1));
        p.explore(format!("all schedules: everything x2 on {t:?} threads after a full warm-up"), Bounds::coarse(if two.count_ones() == 1 { tier.pick(2, 4) } else { tier.pick(1, 1) }), move || phases(Cfg { pct: 100, n: [2; 4], t }));
    }
    if tier == Tier::Thorough { p.explore("all schedules: everything x2 on 2 threads after a full warm-up", Bounds { max_execs: 5_000_000, ..Bounds::coarse(0) }, move || phases(Cfg { pct: 100, n: [2; 4], t: [2; 4] })); }
    p.assume("user functions are deterministic and touch the scheduler only at their start and end; worker threads are the ones spawned through std or crossbeam");
    p
}

// ---- C13 ---------------------------------------------------------------------------------------------

fn visits(c: Cfg) -> Result<String, String> { visits_by(c, false) }
fn visits_by(c: Cfg, test: bool) -> Result<String, String> {
    let (r, log) = rt::run(|| if test { allowing(&c, &|_, _| ()) } else { analyse(&c, &|_, _| ()); });
    r.map_err(|p| format!("{c:?}: panicked: {p}"))?;
    visits_of(&c, &log).map_err(|m| format!("{c:?}: {m}"))
}

/// the calls of each stretch told apart by operation, warm-up/pass and element only (order among operations is C12's)
fn visits_of(c: &Cfg, log: &[Ev]) -> Result<String, String> {
    let segs = segments(c);
    // without its order, a warm-up call looks like a first pass one: use the reset as the border
    let border = if c.pct > 0 { log.iter().position(|e| matches!(e, Ev::Start { f: RESET, .. })).ok_or("no reset after the warm-up")? } else { 0 };
    let mut used = 0usize;
    let mut shape = vec![];
    let mut dir = [0i32; 5];
    for s in &segs {
        if s.op == RESET { continue }
        let part = if s.pass == 0 { &log[..border] } else { &log[border..] };
        let mut by: BTreeMap<u64, Vec<i64>> = BTreeMap::new();
        for e in part { if let Ev::Start { f, arg, tid } = e { if *f == s.op && *arg >= s.lo as i64 && *arg < s.hi as i64 { by.entry(*tid).or_default().push(*arg); used += 1; } } }
        let name = format!("{} ({}, {}..{} on {} threads)", NAMES[s.op as usize], s.what, s.lo, s.hi, s.threads);
        let mut all: Vec<i64> = by.values().flatten().copied().collect();
        all.sort();
        let want: Vec<i64> = (s.lo as i64..s.hi as i64).collect();
        if all != want {
            let missing: Vec<_> = want.iter().filter(|x| !all.contains(x)).collect();
            let twice: Vec<_> = all.windows(2).filter(|w| w[0] == w[1]).map(|w| w[0]).collect();
            return Err(format!("{name}: elements never visited: {missing:?}, visited again: {twice:?}"));
        }
        if by.len() > s.threads as usize { return Err(format!("{name}: ran on {} threads", by.len())); }
        for (t, v) in &by {
            for w in v.windows(2) {
                let d = (w[1] - w[0]) as i32;
                if d.abs() != 1 { return Err(format!("{name}: thread {t} jumped from {} to {}: {v:?}", w[0], w[1])); }
                if dir[s.op as usize] == 0 { dir[s.op as usize] = d; }
                if dir[s.op as usize] != d { return Err(format!("{name}: thread {t} walks in the other direction: {v:?}")); }
            }
        }
        let len = s.hi - s.lo;
        if len % s.threads == 0 && len > 0 && (by.len() != s.threads as usize || by.values().any(|v| v.len() != (len / s.threads) as usize)) {
            return Err(format!("{name}: unequal shares {:?}", by.values().map(|v| v.len()).collect::<Vec<_>>()));
        }
        let mut sh: Vec<usize> = by.values().map(|v| v.len()).collect();
        sh.sort();
        shape.push(sh);
    }
    let total = log.iter().filter(|e| matches!(e, Ev::Start { f, .. } if *f != RESET)).count();
    if total != used { return Err(format!("{} calls outside of the prescribed elements", total - used)); }
    if dir[1] != 0 && dir[4] != 0 && dir[1] == dir[4] { return Err("creation and deletion walk in the same direction".into()); }
    Ok(format!("{shape:?}"))
}

/// so many elements that shares computed in 32 bits would not fit
fn huge(op: usize, pct: u32, n: u32, t: u32, e: &mut Enum) {
    use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
    let share = (n as u64 * pct as u64 / 100) as u32;
    // counts, and sums of elements & of their squares, of warm-up, first and second pass
    let c: Vec<AtomicU64> = (0..9).map(|_| AtomicU64::new(0)).collect();
    let warm = std::sync::atomic::AtomicBool::new(pct > 0);
    let reset_arg = AtomicU64::new(u64::MAX);
    let f = |x: u32| { let p = if warm.load(Relaxed) { 0 } else if x < n { 1 } else { 2 }; let x = x as u64;
        c[p * 3].fetch_add(1, Relaxed); c[p * 3 + 1].fetch_add(x, Relaxed); c[p * 3 + 2].fetch_add((x * x) >> 8 ^ x, Relaxed); x as u32 };
    let none = |x: u32| x;
    let reset = |x: u32| { warm.store(false, Relaxed); reset_arg.store(x as u64, Relaxed); x };
    let nn = |i: usize| if i == op { n } else { 0 };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match op {
        0 => { analyse_crud_algorithms("huge", reset, f, none, none, none, pct, nn(0), nn(1), nn(2), nn(3), t, t, t, t); }
        1 => { analyse_crud_algorithms("huge", reset, none, f, none, none, pct, nn(0), nn(1), nn(2), nn(3), t, t, t, t); }
        2 => { analyse_crud_algorithms("huge", reset, none, none, f, none, pct, nn(0), nn(1), nn(2), nn(3), t, t, t, t); }
        _ => { analyse_crud_algorithms("huge", reset, none, none, none, f, pct, nn(0), nn(1), nn(2), nn(3), t, t, t, t); }
    }));
    let name = format!("{} x{n} on {t} threads with {pct}% warm-up", NAMES[op + 1]);
    if let Err(p) = r { return e.fail(format!("{name}: panicked: {}", mc_rt::panic_message(&p))); }
    for (p, (lo, hi)) in [(0u64, share as u64), (0, n as u64), (n as u64, 2 * n as u64)].into_iter().enumerate() {
        let mut want = [0u64; 3];
        for x in lo..hi { want[0] += 1; want[1] += x; want[2] = want[2].wrapping_add((x * x) >> 8 ^ x); }
        let got: Vec<u64> = (0..3).map(|k| c[p * 3 + k].load(Relaxed)).collect();
        e.case(rt::hash((op, pct, n, t, p)));
        e.evaluations += got[0];
        if got != want { return e.fail(format!("{name}: {} visited {} elements adding up to {}, instead of {} adding up to {}", ["the warm-up", "the first pass", "the second pass"][p], got[0], got[1], want[0], want[1])); }
    }
    let want = if op == 0 { share as u64 } else { 0 };
    if pct > 0 && reset_arg.load(Relaxed) != want { e.fail(format!("{name}: reset was told {} elements were created, instead of {want}", reset_arg.load(Relaxed))); }
    e.sample(|| name);
}

/// far more elements: each thread notes where its run started, where it is and its direction
fn enormous(op: usize, n: u32, t: u32, e: &mut Enum) {
    use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed};
    #[repr(align(128))]
    struct Run { first: AtomicU64, last: AtomicU64, calls: AtomicU64, broken: AtomicU64 }
    const NONE: u64 = u64::MAX;
    static ROUND: AtomicUsize = AtomicUsize::new(0);
    let round = ROUND.fetch_add(1, Relaxed) + 1;
    thread_local! { static MINE: std::cell::Cell<(usize, usize)> = const { std::cell::Cell::new((0, 0)) }; }
    let runs: Vec<Run> = (0..=2 * t).map(|_| Run { first: AtomicU64::new(NONE), last: AtomicU64::new(NONE), calls: AtomicU64::new(0), broken: AtomicU64::new(NONE) }).collect();
    let used = AtomicUsize::new(0);
    let f = |x: u32| {
        let x64 = x as u64;
        let (r, mut k) = MINE.get();
        if r != round { k = used.fetch_add(1, Relaxed).min(2 * t as usize); MINE.set((round, k)); runs[k].first.store(x64, Relaxed); }
        let me = &runs[k];
        let last = me.last.load(Relaxed);
        if last != NONE {
            let down = me.first.load(Relaxed) >= last && x64 < last;
            if x64.wrapping_add(down as u64).wrapping_sub(!down as u64) != last || !(down || me.first.load(Relaxed) <= last) { me.broken.store(x64, Relaxed) }
        }
        me.last.store(x64, Relaxed);
        me.calls.store(me.calls.load(Relaxed) + 1, Relaxed);
        x
    };
    let none = |x: u32| x;
    let nn = |i: usize| if i == op { n } else { 0 };
    let name = format!("{} x{n} on {t} threads", NAMES[op + 1]);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match op {
        0 => { analyse_crud_algorithms("enormous", none, f, none, none, none, 0, nn(0), nn(1), nn(2), nn(3), t, t, t, t); }
        1 => { analyse_crud_algorithms("enormous", none, none, f, none, none, 0, nn(0), nn(1), nn(2), nn(3), t, t, t, t); }
        2 => { analyse_crud_algorithms("enormous", none, none, none, f, none, 0, nn(0), nn(1), nn(2), nn(3), t, t, t, t); }
        _ => { analyse_crud_algorithms("enormous", none, none, none, none, f, 0, nn(0), nn(1), nn(2), nn(3), t, t, t, t); }
    }));
    if let Err(p) = r { return e.fail(format!("{name}: panicked: {}", mc_rt::panic_message(&p))); }
    let mut done: Vec<(u64, u64)> = Vec::new();
    for r in &runs {
        let (f, l, c) = (r.first.load(Relaxed), r.last.load(Relaxed), r.calls.load(Relaxed));
        if c == 0 { continue }
        e.evaluations += c;
        let (lo, hi) = (f.min(l), f.max(l));
        e.case(rt::hash((op, lo, hi)));
        if r.broken.load(Relaxed) != NONE || hi - lo + 1 != c { return e.fail(format!("{name}: a thread starting at {f} and ending at {l} was called {c} times{}", if r.broken.load(Relaxed) == NONE { String::new() } else { format!(" and jumped to {}", r.broken.load(Relaxed)) })); }
        done.push((lo, hi));
    }
    done.sort();
    let mut next = 0;
    for (lo, hi) in &done { if *lo != next { return e.fail(format!("{name}: {} elements at {} were {}", lo.abs_diff(next), next.min(*lo), if *lo > next { "never visited" } else { "visited twice" })); } next = hi + 1; }
    if next != 2 * n as u64 { return e.fail(format!("{name}: {next} elements were visited, instead of {}", 2 * n as u64)); }
    if n % t == 0 && done.len() != 2 * t as usize { return e.fail(format!("{name}: {} threads took part in both passes", done.len())); }
    e.sample(|| name);
}
pub fn c13(tier: Tier) -> Property {
    let mut p = Property::new("C13", "model_checking", "every number of iterations and threads up to the stated ones, for each operation and warm-up share, plus every interleaving of the workers on smaller ones");
    let (nn, tt) = tier.pick((40u32, 12u32), (80, 20));
    for op in 0..4usize {
        for (lo, hi) in [(0, nn / 4), (nn / 4 + 1, nn / 2), (nn / 2 + 1, nn * 3 / 4), (nn * 3 / 4 + 1, nn)] {
            for rev in [false, true] {
                p.explore(format!("{} x{lo}..={hi} on 0..={tt} threads, {} threads first", NAMES[op + 1], if rev { "last" } else { "first" }), if rev { Bounds::seq_reversed() } else { Bounds::seq() }, move || {
                    let n = lo + mc_rt::choose((hi - lo + 1) as usize) as u32;
                    let t = mc_rt::choose(tt as usize + 1) as u32;
                    let pct = pick(tier.pick(&[0u32, 30, 50, 99, 100][..], &[0, 1, 10, 30, 33, 50, 66, 75, 90, 99, 100]));
                    let mut c = Cfg { pct, n: [0; 4], t: [1; 4] };
                    c.n[op] = n; c.t[op] = t;
                    visits(c)
                });
            }
        }
        // large counts, uneven shares
        for n in [100u32, 101, 1000, 1009] {
            p.explore(format!("{} x{n} on many threads", NAMES[op + 1]), Bounds::seq(), move || {
                let t = pick(&[1u32, 2, 3, 7, 10, 16, 64, 100]);
                let mut c = Cfg { pct: pick(&[0, 37]), n: [0; 4], t: [1; 4] };
                c.n[op] = n; c.t[op] = t;
                visits(c)
            });
        }
        for n in [7u32, 33, 100, 1000] {
            p.explore(format!("{} x{n}, every warm-up share", NAMES[op + 1]), Bounds::seq(), move || {
                let mut c = Cfg { pct: mc_rt::choose(101) as u32, n: [0; 4], t: [1; 4] };
                c.n[op] = n; c.t[op] = pick(&[1u32, 3]);
                visits(c)
            });
        }
        for (n, t, b) in tier.pick(vec![(1u32, 2u32, 9), (2, 2, 4), (3, 2, 2), (3, 3, 1)], vec![(1, 2, 99), (1, 3, 3), (2, 2, 99), (3, 2, 5), (5, 2, 3), (3, 3, 2), (4, 3, 2)]) {
            let mut c = Cfg { pct: 0, n: [0; 4], t: [1; 4] };
            c.n[op] = n; c.t[op] = t;
            p.explore(format!("all schedules: {} x{n} on {t} threads", NAMES[op + 1]), Bounds { max_execs: tier.pick(60_000, 5_000_000), ..Bounds::coarse(b) }, move || visits(c));
        }
    }
    // all together, different counts and threads for each
    for nc in tier.pick(1..4u32, 1..6) {
        p.explore(format!("all operations, create x{nc}"), Bounds::seq(), move || {
            let c = Cfg { pct: pick(&[0, 50, 100]), n: [nc, pick(&[1, 2, 5]), pick(&[1, 3]), pick(&[1, 2, 4])], t: [pick(&[1, 2, 3]), pick(&[1, 2]), pick(&[1, 3]), pick(&[1, 2, 3])] };
            visits(c)
        });
    }
    // tests hand numbers and threads on to where they belong
    for pct in [0u32, 50, 100] { for tc in 1..=tier.pick(4u32, 6) {
        p.explore(format!("tests, warm-up {pct}%, creating on {tc} threads"), Bounds::seq(), move || {
            let d = tier.pick(&[1u32, 2, 3, 4][..], &[1, 2, 3, 4, 6]);
            visits_by(Cfg { pct, n: [pick(&[12u32, 24]), pick(&[12u32, 7]), pick(&[12u32, 24]), pick(&[12u32, 36])], t: [tc, pick(d), pick(d), pick(d)] }, true)
        });
    } }
    // the warm-up share of these doesn't fit in 32 bits before dividing
    p.enumerate("42,949,673 creations on 1 thread with 100% warm-up", move |e| huge(0, 100, 42_949_673, 1, e));
    p.enumerate("90,000,000 deletions on 3 threads with 50% warm-up", move |e| huge(3, 50, 90_000_000, 3, e));
    for op in 0..4 { for n in tier.pick(vec![65_535u32, 65_536, 65_537, 1 << 24], vec![32_767, 32_768, 32_769, 65_535, 65_536, 65_537, 1 << 24, (1 << 24) + 1]) { for t in tier.pick(vec![1u32, 3], vec![1, 2, 3, 5, 8]) {
        p.enumerate(format!("{} x{n} on {t} threads", NAMES[op + 1]), move |e| huge(op, 33, n, t, e));
    } } }
    // elements numbered beyond what fits in 31 bits
    for (op, n, t) in [(0usize, 1_073_741_824u32, 8u32), (3, 2_147_483_647, 7)] { p.enumerate(format!("{} x{n} on {t} threads", NAMES[op + 1]), move |e| enormous(op, n, t, e)); }
    if tier == Tier::Thorough { for op in 0..4 { for t in [1u32, 2, 8] { for n in [1_073_741_823u32, 1_073_741_824, 1_073_741_825, 1_500_000_000, 2_147_483_646, 2_147_483_647] {
        if (op, n, t) != (0, 1_073_741_824, 8) { p.enumerate(format!("{} x{n} on {t} threads", NAMES[op + 1]), move |e| enormous(op, n, t, e)); }
    } } } }
    if tier == Tier::Thorough { for op in 0..4 { for t in [1u32, 2, 7] { for (n, pct) in [(42_949_672u32, 100u32), (42_949_673, 100), (43_383_509, 99), (100_000_000, 43)] {
        p.enumerate(format!("{} x{n} on {t} threads with {pct}% warm-up", NAMES[op + 1]), move |e| huge(op, pct, n, t, e));
    } } } }
    p.assume("elements are numbered in 32 bits: two passes over more than 2^32 elements are not explored");
    p
}

// ---- C14 ---------------------------------------------------------------------------------------------

struct Window { before: usize, after: usize, min: usize, max: usize, times: BTreeMap<u64, u64> }

fn window(log: &[Ev], r: &std::ops::Range<usize>) -> Window {
    let before = log[..r.start].iter().rev().find_map(|e| if let Ev::Mem(u) = e { Some(*u) } else { None }).unwrap_or(0);
    let mut w = Window { before, after: before, min: before, max: before, times: BTreeMap::new() };
    for e in &log[r.clone()] {
        match e {
            Ev::Mem(u) => { w.after = *u; w.min = w.min.min(*u); w.max = w.max.max(*u); }
            Ev::End { tid, ns, .. } => *w.times.entry(*tid).or_default() += ns,
            _ => {}
        }
    }
    w
}

fn same_time(got: Duration, w: &Window, threads: u32) -> bool {
    let total: u64 = w.times.values().sum();
    // averaging is done in floating point; threads without any element may or may not count
    [threads as u64, w.times.len() as u64].iter().any(|t| *t > 0 && (got.as_nanos() as f64 - total as f64 / *t as f64).abs() <= 2.0 + total as f64 * 1e-9)
}

fn check_pass(name: &str, t: Duration, s: &BigOSpacePassMeasurements, w: &Window, threads: u32) -> Result<(), String> {
    if mc_std::mc::SHIMMED && !same_time(t, w, threads) { return Err(format!("{name}: reported time {t:?}, but its threads spent {:?} ns", w.times)); }
    let got = (s.used_memory_before, s.used_memory_after, s.min_used_memory, s.max_used_memory);
    let want = (w.before, w.after, w.min, w.max);
    if got != want { return Err(format!("{name}: reported memory (before, after, min, max) = {got:?}, but it was {want:?}")); }
    Ok(())
}

fn measured(c: &Cfg, cost: Cost) -> Result<String, String> {
    let (r, log) = rt::run(|| analyse(c, cost));
    let a = r.map_err(|p| format!("{c:?}: panicked: {p}"))?;
    let segs = segments(c);
    let ranges = split(&log, &segs).map_err(|m| format!("{c:?}: {m}"))?;
    let w = |op: u8, pass: u8| segs.iter().position(|s| s.op == op && s.pass == pass).map(|i| window(&log, &ranges[i]));
    let mut out = String::new();
    let mut fail = None;
    macro_rules! passes { ($op: expr, $m: expr) => {{
        let n = NAMES[$op as usize];
        for (pass, t, s) in [(1u8, $m.time_measurements.pass_1_measurements, &$m.space_measurements.pass_1_measurements), (2, $m.time_measurements.pass_2_measurements, &$m.space_measurements.pass_2_measurements)] {
            if let Err(e) = check_pass(&format!("{n}, pass {pass}"), t, s, &w($op, pass).unwrap(), c.t[$op as usize - 1]) { fail.get_or_insert(e); }
            out.push_str(&format!("{n}{pass}: {t:?} {}..{} ", s.min_used_memory as i64 - s.used_memory_before as i64, s.max_used_memory as i64 - s.used_memory_before as i64));
        }
        if !$m.measurement_name.eq_ignore_ascii_case(n) { fail.get_or_insert(format!("the analysis of {n} is named {}", $m.measurement_name)); }
    }} }
    macro_rules! resizing { ($op: expr, $a: expr) => { if let Some(a) = $a { let m = &a.algorithm_measurements; passes!($op, m);
        if m.passes_info.delta_set_size != c.n[$op as usize - 1] { fail.get_or_insert(format!("{}: {} elements per pass reported", NAMES[$op as usize], m.passes_info.delta_set_size)); }
        if a.time_complexity != analyse_time_complexity_for_set_resizing_iterator_algorithm(&m.passes_info, &m.time_measurements) || a.space_complexity != analyse_space_complexity_for_set_resizing_iterator_algorithm(&m.passes_info, &m.space_measurements) {
            fail.get_or_insert(format!("{}: the classes reported are not those of the measurements", NAMES[$op as usize])); }
    } else if c.on($op as usize - 1) { fail.get_or_insert(format!("no analysis for {}", NAMES[$op as usize])); } } }
    macro_rules! constant { ($op: expr, $a: expr) => { if let Some(a) = $a { let m = &a.algorithm_measurements; passes!($op, m);
        for (pass, t, s) in [(1u8, m.pass1_measurements.time_measurements, &m.pass1_measurements.space_measurements), (2, m.pass2_measurements.time_measurements, &m.pass2_measurements.space_measurements)] {
            if let Err(e) = check_pass(&format!("{}, pass {pass} measurements", NAMES[$op as usize]), t, s, &w($op, pass).unwrap(), c.t[$op as usize - 1]) { fail.get_or_insert(e); }
        }
        let i = &m.passes_info;
        if c.on(0) && (i.pass_1_set_size != c.n[0] || i.pass_2_set_size != 2 * c.n[0]) || i.repetitions != c.n[$op as usize - 1] {
            fail.get_or_insert(format!("{}: reported sets of {} & {}, repetitions {}", NAMES[$op as usize], i.pass_1_set_size, i.pass_2_set_size, i.repetitions)); }
        if a.time_complexity != analyse_time_complexity_for_constant_set_iterator_algorithm(i, &m.time_measurements) || a.space_complexity != analyse_space_complexity_for_constant_set_iterator_algorithm(i, &m.space_measurements) {
            fail.get_or_insert(format!("{}: the classes reported are not those of the measurements", NAMES[$op as usize])); }
    } else if c.on($op as usize - 1) { fail.get_or_insert(format!("no analysis for {}", NAMES[$op as usize])); } } }
    resizing!(1, &a.0); constant!(2, &a.1); constant!(3, &a.2); resizing!(4, &a.3);
    match fail { Some(f) => Err(format!("{c:?}: {f}")), None => Ok(out) }
}

/// what one call of a function does: its memory behaviour, with amounts telling operations & elements apart
#[derive(Clone, Copy, Debug, PartialEq)] enum Use { Nothing, Keep, Borrow, KeepAndBorrow, Release }
const USES: [Use; 5] = [Use::Nothing, Use::Keep, Use::Borrow, Use::KeepAndBorrow, Use::Release];
fn spend(op: u8, e: u32, u: Use) { spend_by(op, e, u, 1) }
fn spend_by(op: u8, e: u32, u: Use, unit: usize) {
    let k = (64 << op | e as usize) * unit;
    match u {
        Use::Nothing => {}
        Use::Keep => rt::grab(k),
        Use::Borrow => { rt::grab(k); mc_rt::point(); rt::give_back(k) }
        Use::KeepAndBorrow => { rt::grab(k); mc_rt::point(); rt::borrow(4 * k) }
        Use::Release => { let last = (0..16).map(|e| ((64 << 1) | e) * unit).find(|k| rt::world(|w| w.has(*k))); if let Some(k) = last { rt::give_back(k) } }
    }
}
fn time_of(op: u8, e: u32, skew: u32) -> u64 { 1_000_000 * (1 + op as u64 * 7) + 10_000 * (e as u64 + 1) * (1 + skew as u64 * 97) }

pub fn c14(tier: Tier) -> Property {
    let mut p = Property::new("C14", "model_checking", "every combination of what each operation does with memory (nothing, keep, borrow, both, release), warm-up shares and threads, under a virtual clock with distinct costs for each operation, element and thread; and every interleaving of the workers on smaller ones");
    for pct in [0u32, 50, 100] { for uc in USES { for reset_frees in [true, false] {
        if pct == 0 && !reset_frees { continue }
        p.explore(format!("warm-up {pct}%, creating does {uc:?}, reset frees: {reset_frees}"), Bounds::seq(), move || {
            let us = [Use::Nothing, uc, pick(&USES[..4]), pick(&USES[..4]), pick(&USES)];
            let t = pick(tier.pick(&[1u32, 2, 3][..], &[1, 2, 3, 5]));
            let (n, skew) = (pick(tier.pick(&[1u32, 2, 5][..], &[1, 2, 4, 5, 9])), pick(&[0u32, 1]));
            let c = Cfg { pct, n: [n, n + 1, n, n], t: [t, 1, t + 1, t] };
            measured(&c, &|op, e| { mc_rt::advance(time_of(op, e, skew)); if op == RESET { if reset_frees { rt::give_back_all() } } else { spend(op, e, us[op as usize]) } })
        });
    } } }
    // figures beyond 32 bits, times up to hours
    for (unit, base) in [(1u64, 1usize << 20), (1, 1 << 31), (1_000_000_000_000, 1 << 33), (7, 3 << 30), (1, 1usize << 33), (1_000_000_000, 1 << 32), (3_600_000_000_000, 1 << 42), (5_000_000_000, 5 << 30), (1_000, 1 << 44)] {
        p.explore(format!("times in multiples of {unit} ns, memory in multiples of {base}"), Bounds::seq(), move || {
            let us = [Use::Nothing, pick(&USES[..4]), pick(&USES[..4]), pick(&USES[..4]), pick(&USES)];
            let (t, skew) = (pick(&[1u32, 2, 3]), pick(&[0u32, 1]));
            let c = Cfg { pct: pick(&[0u32, 100]), n: [3, 2, 3, 3], t: [t, 1, t, t] };
            measured(&c, &|op, e| { mc_rt::advance(unit * (1 + op as u64) * (1 + e as u64 * (1 + skew as u64))); if op == RESET { rt::give_back_all() } else { spend_by(op, e, us[op as usize], base) } })
        });
    }
    // some operations only
    for mask in 1..15u32 {
        p.explore(format!("operations {mask:04b} only"), Bounds::seq(), move || {
            let on = |i: u32, n: u32| if mask >> i & 1 == 1 { n } else { 0 };
            let u = pick(&USES);
            let c = Cfg { pct: pick(&[0, 100]), n: [on(0, 3), on(1, 4), on(2, 2), on(3, 3)], t: [pick(&[1, 3]), 2, 1, pick(&[1, 3])] };
            measured(&c, &|op, e| { mc_rt::advance(time_of(op, e, 1)); if op == RESET { rt::give_back_all() } else { spend(op, e, u) } })
        });
    }
    // every schedule
    for op in 1..5u8 { for u in [Use::Keep, Use::Borrow, Use::KeepAndBorrow] { for (n, t, b) in tier.pick(vec![(2u32, 2u32, 4), (3, 2, 2), (4, 2, 1), (3, 3, 0)], vec![(2, 2, 6), (3, 2, 3), (4, 2, 3), (3, 3, 1)]) {
        p.explore(format!("all schedules: {} x{n} on {t} threads doing {u:?}", NAMES[op as usize]), Bounds { max_execs: tier.pick(400_000, 5_000_000), ..Bounds::coarse(b) }, move || {
            let mut c = Cfg { pct: 0, n: [0; 4], t: [1; 4] };
            c.n[op as usize - 1] = n; c.t[op as usize - 1] = t;
            measured(&c, &|op, e| { mc_rt::advance(time_of(op, e, 1)); spend(op, e, u) })
        });
    } } }
    // memory freed below what was in use when the pass began
    for t in 1..=2u32 {
        p.explore(format!("deleting on {t} threads frees what creating kept"), Bounds::coarse(tier.pick(1, 2)), move || {
            let c = Cfg { pct: 0, n: [2, 0, 0, 2], t: [1, 1, 1, t] };
            measured(&c, &|op, e| { mc_rt::advance(time_of(op, e, 0)); if op == 1 { rt::grab(1000 + e as usize) } else if op == 4 { rt::give_back(1000 + e as usize) } })
        });
    }
    p.assume("each thread has its own virtual clock, advanced only by the user functions: waiting for the processor or for locks takes no time");
    p
}

// ---- C15 ---------------------------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Debug)]
enum Out { Fine, Slow, Fat, Both }
impl Out { fn slow(self) -> bool { matches!(self, Out::Slow | Out::Both) } fn fat(self) -> bool { matches!(self, Out::Fat | Out::Both) } }

fn tests(c: &Cfg, retries: u32, lim: [[C; 2]; 4], cost: Cost) {
    test_crud_algorithms("crud", retries, |e| user(0, e, cost),
        |e| user(1, e, cost), lim[0][0], lim[0][1], |e| user(2, e, cost), lim[1][0], lim[1][1],
        |e| user(3, e, cost), lim[2][0], lim[2][1], |e| user(4, e, cost), lim[3][0], lim[3][1],
        c.pct, c.n[0], c.n[1], c.n[2], c.n[3], c.t[0], c.t[1], c.t[2], c.t[3])
}

/// in which attempt are we: one reset after the warm-up of each attempt (when there is one) and one between attempts
fn attempt_of(resets: u64, pct: u32) -> u64 { if pct > 0 { resets / 2 } else { resets } }

/// the failure says which attempt ended it or how many were made, and in the latter case how often each operation had failed before
fn tells_attempts(msg: &str, fatal: bool, used: usize, failed: &[Option<usize>]) -> Result<(), String> {
    let words: Vec<&str> = msg.split(|c: char| !c.is_alphanumeric()).filter(|w| !w.is_empty()).collect();
    let near = (0..words.len()).filter(|i| words[*i].to_lowercase().starts_with("attempt")).any(|i| [i.wrapping_sub(1), i + 1].iter().any(|j| words.get(*j) == Some(&used.to_string().as_str())));
    if !near { return Err(format!("the failure doesn't tell attempt {used}")) }
    if fatal { return Ok(()) }
    let mut told = [0usize; 4];
    for l in msg.lines().filter_map(|l| l.trim_start().strip_prefix("- ")) {
        let i = (0..4).find(|i| l.to_lowercase().starts_with(NAMES[i + 1])).ok_or(format!("no operation in '{l}'"))?;
        let k = l.split_once('(').and_then(|x| x.1.split(' ').next()?.parse::<usize>().ok()).ok_or(format!("no number of times in '{l}'"))?;
        told[i] += k;
    }
    let mut want = [0usize; 4];
    for i in failed[..used - 1].iter().flatten() { want[*i] += 1; }
    if told != want { return Err(format!("earlier attempts failed {want:?} times on create, read, update, delete, but {told:?} is told")) }
    Ok(())
}

/// scripts[a][op]: how the operation turns out in attempt `a`
fn history(c: Cfg, retries: u32, scripts: &[[Out; 4]]) -> Result<String, String> {
    let o1 = [C::O1, C::O1];
    let lim = [o1; 4];
    let cost = |op: u8, e: u32| {
        if op == RESET { rt::count(0); rt::give_back_all(); return }
        let a = attempt_of(rt::world(|w| w.counter[0]), c.pct) as usize;
        let warming = c.pct > 0 && rt::world(|w| w.counter[0]) % 2 == 0;
        let out = scripts.get(a).map_or(Out::Fine, |s| s[op as usize - 1]);
        let steep = (e as usize + 1) * (e as usize + 1);
        mc_rt::advance(if out.slow() && !warming { 1000 * steep as u64 } else { 1000 });
        if out.fat() { rt::grab(64 * steep) } else if op == 1 || op == 4 { rt::grab(64) }
    };
    let (r, log) = rt::run(|| tests(&c, retries, lim, &cost));
    let what = || format!("{c:?}, up to {retries} attempts, going {:?}", scripts.iter().map(|s| (0..4).filter(|i| c.on(*i)).map(|i| s[i]).collect::<Vec<_>>()).collect::<Vec<_>>());
    // what should happen
    let attempts = retries.max(1) as usize;
    let order = [0usize, 1, 2, 3];
    let (mut passes, mut used, mut culprit, mut deepest) = (false, 0usize, None, vec![]);
    for a in 0..attempts {
        used = a + 1;
        let bad = order.iter().copied().filter(|i| c.on(*i)).find(|i| scripts.get(a).map_or(Out::Fine, |s| s[*i]) != Out::Fine);
        deepest.push(bad);
        match bad {
            None => { passes = true; break }
            Some(i) if scripts[a][i] == Out::Fat => { culprit = Some(i); break }
            Some(i) => culprit = Some(i),
        }
    }
    match (&r, passes) {
        (Err(p), true) => return Err(format!("{}: should pass, but failed with: {p}", what())),
        (Ok(()), false) => return Err(format!("{}: should fail, but passed", what())),
        (Err(p), false) => {
            let n = NAMES[culprit.unwrap() + 1];
            if !p.to_lowercase().contains(&format!("'{n}'")) && !p.to_lowercase().contains(n) { return Err(format!("{}: the failure doesn't name {n}: {p}", what())); }
            tells_attempts(p, scripts[used - 1][culprit.unwrap()] == Out::Fat, used, &deepest).map_err(|m| format!("{}: {m}: {p}", what()))?;
        }
        _ => {}
    }
    // attempts made, and what each of them exercised
    let resets = log.iter().filter(|e| matches!(e, Ev::Start { f: RESET, .. })).count();
    let per = if c.pct > 0 { 2 } else { 1 };
    let want = used * per - 1;
    if resets != want { return Err(format!("{}: {used} attempts should take {want} resets, but there were {resets}", what())); }
    let mut parts: Vec<Vec<Ev>> = vec![vec![]];
    let mut seen = 0;
    for e in &log { if let Ev::Start { f: RESET, arg, .. } = e {
        seen += 1;
        if seen % per == 0 {
            // told as a percentage or as a number of elements
            let made = parts.last().unwrap().iter().filter(|e| matches!(e, Ev::Start { f: 1, .. })).count() as i64;
            if *arg != 100 && *arg != made { return Err(format!("{}: the reset before retrying was told {arg}, with {made} elements created", what())); }
            parts.push(vec![]);
        } } else { parts.last_mut().unwrap().push(*e); } }
    if parts.len() != used { return Err(format!("{}: {} attempts were made instead of {used}", what(), parts.len())); }
    for (a, part) in parts.iter().enumerate() {
        for i in order {
            let calls = part.iter().filter(|e| matches!(e, Ev::Start { f, .. } if *f as usize == i + 1)).count();
            if !c.on(i) { if calls > 0 { return Err(format!("{}: {} was called", what(), NAMES[i + 1])); } continue }
            let reached = deepest[a].map_or(true, |b| i <= b);
            // operations after the failing one are either reached in the second pass or not
            let two = part.iter().filter_map(|e| if let Ev::Start { f, arg, .. } = e { (*f as usize == i + 1).then_some(*arg) } else { None }).max();
            if reached && calls < 2 { return Err(format!("{}: attempt {} made {calls} calls to {}", what(), a + 1, NAMES[i + 1])); }
            if a == 0 && reached && two != Some(2 * c.n[i] as i64 - 1) { return Err(format!("{}: the first attempt didn't take {} to its second pass", what(), NAMES[i + 1])); }
            if reached && c.pct == 0 {
                let mut args: Vec<i64> = part.iter().filter_map(|e| if let Ev::Start { f, arg, .. } = e { (*f as usize == i + 1).then_some(*arg) } else { None }).collect();
                args.sort();
                if calls % 2 != 0 || args.iter().enumerate().any(|(k, a)| *a != k as i64) { return Err(format!("{}: attempt {} called {} for {args:?}", what(), a + 1, NAMES[i + 1])); }
            }
            let (lo, hi) = ((c.n[i] / 20).max(1) as usize, 4 * c.n[i] as usize + 4);
            if reached && (calls < 2 * lo || calls > hi * 2) { return Err(format!("{}: attempt {} made {calls} calls to {}, asked for {} per pass", what(), a + 1, NAMES[i + 1], c.n[i])); }
        }
    }
    Ok(format!("{} after {used} attempts", if passes { "passed" } else { "failed" }))
}

/// one operation alone against every pair of limits, with costs giving every class
fn limits(op: usize, dimension: usize, e: &mut Enum) {
    // (first pass, second pass) costs of a single element giving each class, for sets of 10 & 20 elements
    let constant = op == 1 || op == 2;
    let n = 10u32;
    for want in SCALE {
        // find costs by asking the classification itself (decided by C09 & C10)
        let mut found = None;
        for k in [1u64, 2, 50, 95, 100, 105, 115, 120, 128, 130, 133, 140, 145, 150, 160, 180, 195, 200, 220, 240, 255, 260, 270, 300, 320, 350, 400, 500, 600, 800, 1000, 1200, 1600, 2000, 5000, 10000, 11000, 50_000, 200_000] {
            let (u1, u2) = (100u64, k);
            let got = if dimension == 0 {
                let t = BigOTimeMeasurements { pass_1_measurements: Duration::from_secs(u1), pass_2_measurements: Duration::from_secs(u2) };
                if constant { analyse_time_complexity_for_constant_set_iterator_algorithm(&ConstantSetIteratorAlgorithmPassesInfo { pass_1_set_size: n, pass_2_set_size: 2 * n, repetitions: n }, &t) }
                else { analyse_time_complexity_for_set_resizing_iterator_algorithm(&SetResizingIteratorAlgorithmPassesInfo { delta_set_size: n }, &t) }
            } else {
                let s = |u: u64| BigOSpacePassMeasurements { used_memory_before: 0, used_memory_after: 0, min_used_memory: 0, max_used_memory: u as usize };
                let s = BigOSpaceMeasurements { pass_1_measurements: s(u1), pass_2_measurements: s(u2) };
                if constant { analyse_space_complexity_for_constant_set_iterator_algorithm(&ConstantSetIteratorAlgorithmPassesInfo { pass_1_set_size: n, pass_2_set_size: 2 * n, repetitions: n }, &s) }
                else { analyse_space_complexity_for_set_resizing_iterator_algorithm(&SetResizingIteratorAlgorithmPassesInfo { delta_set_size: n }, &s) }
            };
            if got == want { found = Some((u1, u2)); break }
        }
        let Some((u1, u2)) = found else { continue };
        for max in SCALE { for retries in [0u32, 1] {
            let mut c = Cfg { pct: 0, n: [0; 4], t: [1; 4] };
            c.n[op] = n;
            // create must exist for reads and updates to have set sizes: it costs nothing and has no limits
            if constant { c.n[0] = n; }
            let mut lim = [[WORST; 2]; 4];
            lim[op][dimension] = max;
            let cost = |o: u8, el: u32| {
                if o as usize != op + 1 || el % n != 0 { return }
                let u = if el < n { u1 } else { u2 };
                if dimension == 0 { mc_rt::advance(u * 1_000_000_000) } else { rt::borrow(u as usize) }
            };
            let r = in_model(|| rt::run_printing(|| tests(&c, retries, lim, &cost)));
            let (r, _, printed) = match r { Ok(x) => x, Err(m) => { return e.fail(m) } };
            e.case(rt::hash((op, dimension, rank(want), rank(max), retries)));
            let ok = rank(want) <= rank(max);
            let name = format!("{} with {} class {want:?} under a limit of {max:?}, {retries} attempts", NAMES[op + 1], ["time", "space"][dimension]);
            if let (Err(p), false) = (&r, ok) { if let Err(m) = crate::regular::names_excess(p, ["time", "space"][dimension], max, want).and_then(|_| crate::regular::names_excess(&printed, ["time", "space"][dimension], max, want).map_err(|m| format!("printed: {m}"))) { return e.fail(format!("{name}: {m}")) } }
            match r { Err(p) if ok => return e.fail(format!("{name} was rejected: {p}")), Ok(()) if !ok => return e.fail(format!("{name} was accepted")), _ => {} }
            e.sample(|| name);
        } }
    }
}

/// one deterministic execution under the model, as a plain function call
pub fn in_model<R>(f: impl Fn() -> R) -> Result<R, String> {
    let out = std::cell::RefCell::new(None);
    let r = mc_rt::run_forced(Bounds { count_states: false, ..Bounds::seq() }, &[], false, &|| { *out.borrow_mut() = Some(f()); Ok(String::new()) });
    match r { Err(e) => Err(format!("engine: {}", e.0)), Ok((Some(m), _)) => Err(m), Ok((None, _)) => out.into_inner().ok_or("no outcome".into()) }
}

pub fn c15(tier: Tier) -> Property {
    let mut p = Property::new("C15", "model_checking", "every history of attempt outcomes of the requested operations up to the stated number of attempts, and every pair of limit and observed class for each operation alone");
    const OUTS: [Out; 4] = [Out::Fine, Out::Slow, Out::Fat, Out::Both];
    // one operation, long histories
    for op in 0..4usize { for retries in 0..=tier.pick(7u32, 9) { for pct in [0u32, 100] {
        p.explore(format!("{} alone, {retries} attempts, warm-up {pct}%", NAMES[op + 1]), Bounds::seq(), move || {
            let mut c = Cfg { pct, n: [0; 4], t: [1; 4] };
            c.n[op] = pick(&[10u32, 1, 3, 25]);
            if op == 1 || op == 2 { c.n[0] = c.n[op]; }
            let mut s = vec![];
            for a in 0..retries.max(1) { let mut x = [Out::Fine; 4]; x[op] = pick(&OUTS); s.push(x); if !x[op].slow() { break } let _ = a; }
            history(c, retries, &s)
        });
    } } }
    // up to so many attempts all too slow but the last, if any
    for retries in tier.pick(vec![10u32, 16, 17, 33, 64], vec![10, 15, 16, 17, 30, 31, 32, 33, 64, 100, 150, 260]) { for op in 0..4usize {
        p.explore(format!("{} alone, {retries} attempts all too slow but perhaps one", NAMES[op + 1]), Bounds::seq(), move || {
            let mut c = Cfg { pct: 0, n: [0; 4], t: [2; 4] };
            c.n[op] = pick(&[10u32, 1, 2, 5, 9, 100]);
            if op == 1 || op == 2 { c.n[0] = c.n[op]; }
            let (slow, kind) = (mc_rt::choose(retries as usize + 1), pick(&[Out::Slow, Out::Both]));
            let s: Vec<_> = (0..retries as usize).map(|a| { let mut x = [Out::Fine; 4]; if a < slow { x[op] = kind } x }).collect();
            history(c, retries, &s)
        });
    } }
    // the number of attempts allowed is no matter of how many are needed
    for op in 0..4usize { p.explore(format!("{} alone, as many attempts as can be asked for", NAMES[op + 1]), Bounds::seq(), move || {
        let mut c = Cfg { pct: 0, n: [0; 4], t: [1; 4] };
        c.n[op] = 10;
        if op == 1 || op == 2 { c.n[0] = c.n[op]; }
        let (slow, last) = (mc_rt::choose(4), pick(&[Out::Fine, Out::Fat]));
        let s: Vec<_> = (0..5).map(|a| { let mut x = [Out::Fine; 4]; x[op] = if a < slow { Out::Slow } else { last }; x }).collect();
        history(c, pick(&[1_000_000u32, 1 << 31, u32::MAX]), &s)
    }); }
    // so many attempts that the room for save points is used up several times
    for retries in [300u32, 550] { for op in 0..4usize {
        p.explore(format!("{} alone, {retries} attempts nearly all too slow", NAMES[op + 1]), Bounds::seq(), move || {
            let mut c = Cfg { pct: pick(&[0u32, 100]), n: [0; 4], t: [1; 4] };
            c.n[op] = 10;
            if op == 1 || op == 2 { c.n[0] = c.n[op]; }
            let r = retries as usize;
            let (slow, last) = (pick(&[r, r - 1, r - 2, r / 2]), pick(&[Out::Fine, Out::Fat]));
            let s: Vec<_> = (0..r).map(|a| { let mut x = [Out::Fine; 4]; x[op] = if a < slow { Out::Slow } else { last }; x }).collect();
            history(c, retries, &s)
        });
    } }
    // all operations
    for retries in 0..=2u32 { for first in OUTS { for pct in [0u32, 50] {
        p.explore(format!("all operations, {retries} attempts, warm-up {pct}%, creating {first:?} at first"), Bounds::seq(), move || {
            let c = Cfg { pct, n: [10; 4], t: [1, 2, 1, 2] };
            let s: Vec<[Out; 4]> = (0..retries.max(1)).map(|a| [if a == 0 { first } else { pick(&OUTS) }, pick(&OUTS), pick(&OUTS), pick(&OUTS)]).collect();
            history(c, retries, &s)
        });
    } } }
    // ... and longer histories, where the operations after one exceeding a limit all do the same
    for retries in 3..=tier.pick(4u32, 5) { for pct in [0u32, 50] { for first in 0..8usize {
        p.explore(format!("all operations, {retries} attempts, warm-up {pct}%, beginning {first}"), Bounds::seq(), move || {
            let c = Cfg { pct, n: [10; 4], t: [1, 2, 1, 2] };
            let mut s = vec![];
            for a in 0..retries {
                // which operation exceeds a limit first, if any
                let bad = if a == 0 { first / 2 } else { mc_rt::choose(5) };
                let mut x = [Out::Fine; 4];
                if bad < 4 {
                    x[bad] = pick(&[Out::Slow, Out::Both, Out::Fat]);
                    let rest = if a == 0 { [Out::Fine, Out::Both][first % 2] } else { pick(&[Out::Fine, Out::Both]) };
                    for o in &mut x[bad + 1..] { *o = rest }
                }
                s.push(x);
                if bad == 4 || !x[bad].slow() { break }
            }
            history(c, retries, &s)
        });
    } } }
    for op in 0..4 { for d in 0..2 { p.enumerate(format!("every class of {} {} against every limit", NAMES[op + 1], ["time", "space"][d]), move |e| limits(op, d, e)); } }
    p.assume("an operation exceeding both its time and its space limits counts as exceeding its time limit; within an attempt, operations are judged in the order create, read, update, delete");
    p
}

// ---- C20 ---------------------------------------------------------------------------------------------

/// the k-th call to `op` panics
fn panicking(c: Cfg, op: u8, k: u64, retries: Option<u32>, slow: u64, kind: usize) -> Result<String, String> {
    let f = |o: u8, e: u32| {
        if o == op && rt::count(op as usize) == k { rt::call_panicking_with(o, e as i64, kind) }
        rt::call(o, e as i64, || {
            let a = if o == RESET { rt::count(30); 0 } else { attempt_of(rt::world(|w| w.counter[30]), c.pct) };
            mc_rt::advance(if retries.is_some() && a < slow { 1000 * (e as u64 + 1) * (e as u64 + 1) } else { 1000 })
        });
        e
    };
    let (r, log) = rt::run(|| match retries {
        None => { analyse_crud_algorithms("crud", |e| f(0, e), |e| f(1, e), |e| f(2, e), |e| f(3, e), |e| f(4, e), c.pct, c.n[0], c.n[1], c.n[2], c.n[3], c.t[0], c.t[1], c.t[2], c.t[3]); }
        Some(n) => test_crud_algorithms("crud", n, |e| f(0, e), |e| f(1, e), C::O1, WORST, |e| f(2, e), C::O1, WORST, |e| f(3, e), C::O1, WORST, |e| f(4, e), C::O1, WORST, c.pct, c.n[0], c.n[1], c.n[2], c.n[3], c.t[0], c.t[1], c.t[2], c.t[3]),
    });
    let what = || format!("{c:?}, panicking (kind {kind}) in call {} of {}", k + 1, NAMES[op as usize]);
    let Some(Ev::Panic { arg, .. }) = log.iter().find(|e| matches!(e, Ev::Panic { .. })) else {
        // there is no such call
        if log.iter().filter(|e| matches!(e, Ev::Start { f, .. } if *f == op)).count() as u64 > k { return Err(format!("{}: it was lost", what())); }
        return match (&r, retries) { (Err(p), None) => Err(format!("{}: panicked without reason: {p}", what())), _ => Ok("no such call".into()) };
    };
    // the other workers may finish their shares of that very pass
    let n = if op == RESET { 1 } else { c.n[op as usize - 1] as i64 };
    let (pass, arg) = (*arg / n, *arg);
    regular::after_panic(&r, &log, |e| retries.is_some() && matches!(e, Ev::Start { f, .. } if *f == op && op != RESET) || matches!(e, Ev::Start { f, arg: a, .. } if *f == op && op != RESET && *a / n == pass && *a != arg)).map_err(|m| format!("{}: {m}", what()))?;
    Ok(format!("stopped after {} calls", log.iter().filter(|e| matches!(e, Ev::Start { .. })).count()))
}
use crate::regular;

pub fn panics(p: &mut Property, tier: Tier) {
    for op in 0..5u8 { for pct in [0u32, 50, 100] { for t in 1..=tier.pick(4u32, 6) {
        p.explore(format!("CRUD analysis, warm-up {pct}%, {t} threads: a panic in any call of {}", NAMES[op as usize]), Bounds::seq(), move || {
            let n = pick(tier.pick(&[1u32, 2, 3, 5][..], &[1, 2, 3, 4, 6, 9]));
            let c = Cfg { pct, n: [n; 4], t: [t; 4] };
            panicking(c, op, mc_rt::choose(3 * n as usize + 1) as u64, None, 0, mc_rt::choose(rt::KINDS))
        });
    } } }
    for op in 0..5u8 { for retries in 0..=tier.pick(3u32, 5) { for pct in [0u32, 100] {
        p.explore(format!("CRUD test, {retries} attempts, warm-up {pct}%: a panic in any call of {}", NAMES[op as usize]), Bounds::seq(), move || {
            let c = Cfg { pct, n: [3; 4], t: [pick(&[1, 2]), 1, 1, 2] };
            let slow = mc_rt::choose(retries.max(1) as usize + 1) as u64;
            panicking(c, op, mc_rt::choose(9 * retries.max(1) as usize) as u64, Some(retries), slow, mc_rt::choose(rt::KINDS))
        });
    } } }
    for op in 1..5u8 { for (n, t, b) in tier.pick(vec![(2u32, 2u32, 3), (3, 2, 2), (3, 3, 0), (4, 2, 1)], vec![(2, 2, 5), (3, 2, 4), (4, 2, 3), (3, 3, 1), (4, 3, 1)]) { for pct in [0u32, 100] {
        p.explore(format!("all schedules: {} x{n} on {t} threads, warm-up {pct}%, a panic in any call", NAMES[op as usize]), Bounds { max_execs: tier.pick(300_000, 3_000_000), ..Bounds::coarse(b) }, move || {
            let mut c = Cfg { pct, n: [0; 4], t: [1; 4] };
            c.n[op as usize - 1] = n; c.t[op as usize - 1] = t;
            panicking(c, op, mc_rt::choose(n as usize * if pct > 0 { 3 } else { 2 }) as u64, None, 0, pick(&[0, 3]))
        });
    } } }
    // several at once
    for op in 1..5u8 { p.explore(format!("{}: all workers of a pass panic", NAMES[op as usize]), Bounds::coarse(1), move || {
        let mut c = Cfg { pct: 0, n: [0; 4], t: [1; 4] };
        c.n[op as usize - 1] = 3; c.t[op as usize - 1] = 3;
        let pass = mc_rt::choose(2) as i64;
        let f = |o: u8, e: u32| { if e as i64 / 3 == pass { rt::call_panicking_with(o, e as i64, e as usize % rt::KINDS) } rt::call(o, e as i64, || ()); e };
        let (r, log) = rt::run(|| { analyse_crud_algorithms("crud", |e| f(0, e), |e| f(1, e), |e| f(2, e), |e| f(3, e), |e| f(4, e), 0, c.n[0], c.n[1], c.n[2], c.n[3], c.t[0], c.t[1], c.t[2], c.t[3]); });
        regular::after_panic(&r, &log, |e| matches!(e, Ev::Start { f, arg, .. } if *f == op && arg / 3 == pass)).map_err(|m| format!("{c:?}: {m}"))
    }); }
}
pub fn c20(tier: Tier) -> Property {
    let mut p = Property::new("C20", "fault_enumeration", "a panic injected at each call (and each poll) of each user-supplied function of the three runners, over small configurations, with every interleaving of the workers on the smaller ones");
    regular::panics(&mut p, tier);
    crate::async_::panics(&mut p, tier);
    panics(&mut p, tier);
    p.assume("user functions panic by unwinding");
    p
}
