//! C16, C17 and the regular part of C20: the regular runner under a virtual clock.
use crate::classify::{rank, SCALE};
use crate::frame::*;
use crate::rt::{self, Ev};
use big_o_test::low_level_analysis::{space_analysis::*, time_analysis::*, types::*};
use big_o_test::test_algorithm;
use big_o_test::BigOAlgorithmComplexity as C;
use mc_rt::Bounds;
use std::time::Duration;

pub const RESET: u8 = 0; pub const P1: u8 = 1; pub const P2: u8 = 2;
pub const WORST: C = C::WorseThanExponential;

/// sizes and first pass use for which every class has room, and a second pass use giving each
pub const N1: u32 = 2; pub const N2: u32 = 14; pub const U1: u64 = 10;
pub const U2: [u64; 17] = [5, 10, 20, 38, 50, 70, 150, 266, 350, 490, 2000, 3430, 10_000, 24_010, 1_000_000, 10_000_000, 100_000_000];

pub fn pick<T: Copy>(v: &[T]) -> T { v[mc_rt::choose(v.len())] }

/// what one call does: elapses `s` nanoseconds and uses memory
#[derive(Clone, Copy, Debug, PartialEq, Default)]
pub struct Cost { pub ns: u64, pub keep: usize, pub borrow: usize, pub free: bool }
impl Cost {
    pub fn pay(&self) {
        if self.free { rt::give_back_all(); }
        rt::grab(self.keep);
        mc_rt::advance(self.ns);
        rt::borrow(self.borrow);
    }
}
pub fn secs(s: u64) -> Cost { Cost { ns: s * 1_000_000_000, ..Default::default() } }

/// time and memory of a call according to the log: (elapsed, before, after, min, max)
#[derive(Clone, Copy, Debug)]
pub struct Seen { pub f: u8, pub from: usize, pub to: usize, pub ns: u64, pub before: usize, pub after: usize, pub min: usize, pub max: usize }
pub fn calls(log: &[Ev]) -> Result<Vec<Seen>, String> {
    let mut out: Vec<Seen> = vec![];
    let mut used = 0usize;
    let mut open: Option<Seen> = None;
    for (i, e) in log.iter().enumerate() {
        match e {
            Ev::Start { f, .. } => { if let Some(o) = open { return Err(format!("function {f} was called before function {} ended", o.f)); } open = Some(Seen { f: *f, from: i, to: i, ns: 0, before: used, after: used, min: used, max: used }); }
            Ev::Mem(u) => { used = *u; if let Some(o) = &mut open { o.after = used; o.min = o.min.min(used); o.max = o.max.max(used); } }
            Ev::End { f, ns, .. } => { let mut o = open.take().ok_or("ended without having started")?; if o.f != *f { return Err("calls got mixed up".into()); } o.ns = *ns; o.to = i; out.push(o); }
            Ev::Panic { .. } => { open = None; }
        }
    }
    if let Some(o) = open { return Err(format!("function {} did not run to its end", o.f)); }
    Ok(out)
}
pub fn classes(n1: u32, n2: u32, a: &Seen, b: &Seen) -> (C, C) {
    let m = |s: &Seen| BigOSpacePassMeasurements { used_memory_before: s.before, used_memory_after: s.after, max_used_memory: s.max, min_used_memory: s.min };
    let info = AlgorithmPassesInfo { pass1_n: n1, pass2_n: n2 };
    (analyse_time_complexity(&info, &BigOTimeMeasurements { pass_1_measurements: Duration::from_nanos(a.ns), pass_2_measurements: Duration::from_nanos(b.ns) }),
     analyse_space_complexity(&info, &BigOSpaceMeasurements { pass_1_measurements: m(a), pass_2_measurements: m(b) }))
}

type Script<'a> = &'a dyn Fn(usize, u8) -> Cost;

/// runs a test whose attempt `a` costs `script(a, function)`; decides from the log alone how it should have gone
fn decide(n1: u32, n2: u32, retries: u32, max_t: C, max_s: C, script: Script) -> Result<String, String> {
    let step = |f: u8| rt::call(f, 0, || { let a = rt::count(f as usize) as usize; script(a, f).pay() });
    let (r, log) = rt::run(|| test_algorithm("test", retries, || step(RESET), n1, || { step(P1); 1 }, n2, || { step(P2); 2 }, max_t, max_s));
    verdict(n1, n2, retries, Some(max_t), Some(max_s), &r, &calls(&log)?, &[RESET, P1, P2], P1, P2)
}

/// the rule both runners follow: attempts made of the calls in `order`, judged on the passes
pub fn verdict(n1: u32, n2: u32, retries: u32, max_t: Option<C>, max_s: Option<C>, r: &Result<(), String>, cs: &[Seen], order: &[u8], p1: u8, p2: u8) -> Result<String, String> {
    let within = |c: C, m: Option<C>| m.map_or(true, |m| rank(c) <= rank(m));
    let mut seen = vec![];
    let mut i = 0;
    loop {
        let a: Vec<u8> = cs[i..].iter().take(order.len()).map(|c| c.f).collect();
        if a != order { return Err(format!("attempt {} called {a:?} instead of {order:?} (after {seen:?})", seen.len() + 1)); }
        let at = |f: u8| cs[i..i + order.len()].iter().find(|c| c.f == f).unwrap();
        let (t, s) = classes(n1, n2, at(p1), at(p2));
        i += order.len();
        seen.push((t, s));
        let n = seen.len() as u32;
        let should = if !within(s, max_s) { Some(false) } else if within(t, max_t) { Some(true) } else if n > retries { Some(false) } else { None };
        let left = cs.len() - i;
        match should {
            None => if left == 0 { return Err(format!("stopped after {n} attempts of (time, space) {seen:?} with {retries} retries allowed")); }
            Some(ok) => {
                if left > 0 { return Err(format!("went on after {seen:?} had decided it ({retries} retries allowed, limits {max_t:?} & {max_s:?})")); }
                match r {
                    Ok(()) if !ok => return Err(format!("passed, but (time, space) were {seen:?} under limits {max_t:?} & {max_s:?}, {retries} retries allowed")),
                    Err(p) if ok => return Err(format!("failed, but (time, space) were {seen:?} under limits {max_t:?} & {max_s:?}, {retries} retries allowed: {p}")),
                    Err(p) => { let (d, m, c) = if within(s, max_s) { ("time", max_t, t) } else { ("space", max_s, s) }; names_excess(p, d, m.unwrap(), c)?; return Ok(format!("failed after {n}: {:?}", seen.last().unwrap())) }
                    _ => return Ok(format!("{} after {n}: {:?}", if ok { "passed" } else { "failed" }, seen.last().unwrap())),
                }
            }
        }
    }
}

/// the failure says which limit was exceeded by which class
pub fn names_excess(msg: &str, dimension: &str, max: C, observed: C) -> Result<(), String> {
    let words: Vec<&str> = msg.split(|c: char| !c.is_alphanumeric()).collect();
    let has = |c: C| words.contains(&format!("{c:?}").as_str()) || msg.contains(c.as_pretty_str());
    if words.iter().any(|w| w.eq_ignore_ascii_case(dimension)) && has(max) && has(observed) { Ok(()) }
    else { Err(format!("the failure doesn't say that the {dimension} limit of {max:?} was exceeded by {observed:?}: {msg}")) }
}

#[derive(Clone, Copy, PartialEq, Debug)] pub enum Out { Fine, Slow, Fat, Both }
/// sizes of both passes: equal, decreasing, next to each other and far apart
pub const SIZES: [(u32, u32); 6] = [(100, 100), (200, 100), (100, 101), (2, 3), (7, 1000), (1_000_000, 4_000_000_000)];
/// uses of the second pass, the first one's being 1000
pub const FACTORS: [u64; 7] = [0, 500, 1000, 1500, 2000, 10_000, 4_000_000];
pub const OUTS: [Out; 4] = [Out::Fine, Out::Slow, Out::Fat, Out::Both];
/// costs of both passes, constant unless meant to be in excess
pub fn outcome(o: Out, f: u8) -> Cost {
    let (slow, fat) = (matches!(o, Out::Slow | Out::Both), matches!(o, Out::Fat | Out::Both));
    match f {
        P1 => Cost { ns: 1_000_000, borrow: 100, ..Default::default() },
        P2 => Cost { ns: if slow { 50_000_000 } else { 1_000_000 }, borrow: if fat { 5000 } else { 100 }, ..Default::default() },
        _ => Cost { ns: 7_000_000, free: true, ..Default::default() },
    }
}

pub fn c16(tier: Tier) -> Property {
    let mut p = Property::new("C16", "model_checking", "every combination of (time limit, time class, space limit, space class), and every history of attempt outcomes up to the stated number of retries");
    for mt in SCALE { for retries in [0u32, 1] {
        p.explore(format!("limit {mt:?} for time, {retries} retries: every class of time, limit and class of space"), Bounds::seq(), move || {
            let (t, ms, s) = (mc_rt::choose(17), pick(&SCALE), mc_rt::choose(17));
            decide(N1, N2, retries, mt, ms, &|_, f| match f { P1 => Cost { ns: U1 * 1_000_000_000, borrow: U1 as usize, ..Default::default() }, P2 => Cost { ns: U2[t] * 1_000_000_000, borrow: U2[s] as usize, ..Default::default() }, _ => Cost::default() })
        });
    } }
    for retries in 0..=tier.pick(7u32, 10) {
        p.explore(format!("every history with {retries} retries"), Bounds::seq(), move || {
            let mut h = vec![];
            for _ in 0..=retries { let o = pick(&OUTS); h.push(o); if o != Out::Slow { break } }
            decide(100, 200, retries, C::O1, C::O1, &|a, f| outcome(h.get(a).copied().unwrap_or(Out::Fine), f))
        });
    }
    // sizes in any relation to each other
    for (n1, n2) in SIZES {
        p.explore(format!("sizes {n1} & {n2}: every limit, with uses around the sizes"), Bounds::seq(), move || {
            let (mt, ms) = (pick(&SCALE), pick(&SCALE));
            let (t, s) = (pick(&FACTORS), pick(&FACTORS));
            let retries = mc_rt::choose(2) as u32;
            decide(n1, n2, retries, mt, ms, &|_, f| match f { P1 => Cost { ns: 1_000_000, borrow: 1000, ..Default::default() }, P2 => Cost { ns: 1000 * t, borrow: s as usize, ..Default::default() }, _ => Cost::default() })
        });
    }
    // attempts that get decided later than needed would show with outcomes following each other differently
    for retries in 0..=tier.pick(4u32, 5) { for (mt, ms) in [(C::O1, C::O1), (C::ON, C::O1), (C::O1, C::ON), (C::BetterThanO1, WORST), (WORST, C::BetterThanO1)] {
        p.explore(format!("every sequence of outcomes, {retries} retries, limits {mt:?} & {ms:?}"), Bounds::seq(), move || {
            let h: Vec<Out> = (0..=retries).map(|_| pick(&OUTS)).collect();
            decide(100, 200, retries, mt, ms, &|a, f| outcome(h.get(a).copied().unwrap_or(Out::Fine), f))
        });
    } }
    for retries in tier.pick(vec![10u32, 15, 16, 33, 65, 300], vec![10, 15, 16, 33, 65, 130, 260, 1030]) { p.explore(format!("{retries} retries, all too slow but perhaps one"), Bounds::seq(), move || {
        let n = mc_rt::choose(retries as usize + 2);
        let last = pick(&[Out::Fine, Out::Fat]);
        decide(100, 200, retries, C::O1, C::O1, &|a, f| outcome(if a < n { Out::Slow } else { last }, f))
    }); }
    // the number of retries allowed is no matter of how many are needed
    p.explore("as many retries as can be asked for", Bounds::seq(), move || {
        let (n, last) = (mc_rt::choose(6), pick(&[Out::Fine, Out::Fat]));
        decide(100, 200, pick(&[1_000_000u32, 1 << 31, u32::MAX]), C::O1, C::O1, &|a, f| outcome(if a < n { Out::Slow } else { last }, f))
    });
    // so many attempts that the room for save points is used up several times
    for retries in [600u32, 1100, 2200] { p.explore(format!("{retries} retries, nearly all too slow"), Bounds::seq(), move || {
        let n = pick(&[retries as usize + 1, retries as usize, retries as usize - 1, retries as usize / 2]);
        let last = pick(&[Out::Fine, Out::Fat]);
        decide(100, 200, retries, C::O1, C::O1, &|a, f| outcome(if a < n { Out::Slow } else { last }, f))
    }); }
    p.assume("delays between retries elapse on the virtual clock");
    p
}

pub fn c17(tier: Tier) -> Property {
    let mut p = Property::new("C17", "model_checking", "every assignment of time and memory behaviour from a small alphabet to reset, first and second pass, over one and two attempts, with limits at and just below the class of what the passes alone used");
    const TIMES: [u64; 4] = [0, 1_000, 2_050, 60_000_000];
    // (kept, borrowed, freeing all first)
    const MEMS: [(usize, usize, bool); 7] = [(0, 0, false), (100, 0, false), (0, 100, false), (205, 0, false), (50, 155, false), (0, 0, true), (100, 300, true)];
    fn any(times: &[u64], mems: &[(usize, usize, bool)]) -> Cost { let (m, ns) = (pick(mems), pick(times)); Cost { ns, keep: m.0, borrow: m.1, free: m.2 } }
    // limits around the observed classes: exactly there, and one better
    fn around(n1: u32, n2: u32, c: [Cost; 3]) -> Result<String, String> {
        // what the passes use, played without the runner
        let (_, log) = rt::run(|| for (i, c) in c.iter().enumerate() { rt::call(i as u8, 0, || c.pay()) });
        let cs = calls(&log)?;
        let (t, s) = classes(n1, n2, &cs[1], &cs[2]);
        let mut out = String::new();
        for (dt, ds) in [(0, 0), (1, 0), (0, 1)] {
            if rank(t) < dt || rank(s) < ds { continue }
            out = decide(n1, n2, 0, SCALE[rank(t) - dt], SCALE[rank(s) - ds], &|_, f| c[f as usize]).map_err(|m| format!("reset, pass 1, pass 2 = {c:?}: {m}"))?;
        }
        Ok(out)
    }
    for m0 in MEMS { for (n1, n2) in tier.pick(vec![(1000u32, 2000u32), (7, 100), (100, 7), (100, 100), (1000, 1500), (100, 101), (2, 3), (3, 5), (101, 100), (100, 100_000), (70_000, 140_000), (1_000_000_000, 4_000_000_000), (4_000_000_000, 4_294_967_295)], vec![(1000u32, 2000u32), (7, 100), (100, 7), (100, 100), (1000, 1500), (1000, 1200), (100, 101), (101, 100), (2, 3), (3, 5), (1000, 3000), (1, 2), (100, 100_000), (1_000_000_000, 4_000_000_000)]) {
        p.explore(format!("reset keeping {}, borrowing {}, freeing all: {}; sizes {n1} & {n2}", m0.0, m0.1, m0.2), Bounds::seq(), move || {
            let r = Cost { ns: pick(&[0, 60_000_000]), keep: m0.0, borrow: m0.1, free: m0.2 };
            around(n1, n2, [r, any(&TIMES[..], &MEMS), any(&TIMES[..], &MEMS)])
        });
    } }
    // two attempts: the first one too slow, leaving things behind
    for m0 in MEMS { for keep in [0usize, 1000] {
        p.explore(format!("two attempts, reset keeping {}, borrowing {}, freeing all: {}, the first attempt leaving {keep}", m0.0, m0.1, m0.2), Bounds::seq(), move || {
            let r = Cost { ns: 1, keep: m0.0, borrow: m0.1, free: m0.2 };
            let (a, b) = (any(&tier.pick(vec![1_000, 2_050], TIMES.to_vec()), &MEMS), any(&TIMES, &MEMS));
            let first = pick(&[Cost { ns: 1000, borrow: 100, ..Default::default() }, Cost { ns: 5, keep: 3000, ..Default::default() }]);
            decide(1000, 2000, 1, C::O1, C::ON, &|n, f| if f == RESET { r } else if n == 0 { if f == P1 { first } else { Cost { ns: first.ns * 100, keep, borrow: 0, free: false } } } else if f == P1 { a } else { b })
        });
    } }
    p.assume("the classes of known times and peaks are as decided by C09 and C11");
    p
}

// ---- C20 ----------------------------------------------------------------------------------------------

pub fn panics(p: &mut Property, tier: Tier) {
    for retries in 0..=tier.pick(5u32, 12) {
        p.explore(format!("regular, {retries} retries: a panic in any function of any attempt"), Bounds::seq(), move || {
            let (at, f, kind) = (mc_rt::choose(retries as usize + 1), mc_rt::choose(3) as u8, mc_rt::choose(rt::KINDS));
            let h: Vec<Out> = (0..at).map(|_| Out::Slow).collect();
            let step = |g: u8| { let a = rt::count(g as usize) as usize; if a == at && g == f { rt::call_panicking_with(g, 0, kind) } rt::call(g, 0, || outcome(h.get(a).copied().unwrap_or(pick(&[Out::Fine])), g).pay()) };
            let (r, log) = rt::run(|| test_algorithm("test", retries, || step(RESET), 100, || { step(P1); 1 }, 200, || { step(P2); 2 }, C::O1, C::O1));
            after_panic(&r, &log, |_| false).map_err(|m| format!("panicking (kind {kind}) in function {f} of attempt {}: {m}", at + 1))
        });
    }
}

/// the run must have ended in a panic, with nothing but what `may_go_on` admits called after the injected one
pub fn after_panic<R>(r: &Result<R, String>, log: &[Ev], may_go_on: impl Fn(&Ev) -> bool) -> Result<String, String> {
    let Some(i) = log.iter().position(|e| matches!(e, Ev::Panic { .. })) else { return Err("the panicking call was never made".into()) };
    if let Some(e) = log[i..].iter().find(|e| matches!(e, Ev::Start { .. }) && !may_go_on(e)) { return Err(format!("after the panic, the run went on with {e:?}")); }
    if r.is_ok() { return Err("the run ended in success".into()); }
    let open = log.iter().filter(|e| matches!(e, Ev::Start { .. })).count() - log.iter().filter(|e| matches!(e, Ev::End { .. } | Ev::Panic { .. })).count();
    if open != 0 { return Err(format!("{open} calls were still running when the run ended")); }
    if mc_rt::in_model() && mc_rt::live_threads() > 1 { return Err(format!("{} worker threads were left running", mc_rt::live_threads() - 1)); }
    Ok(format!("stopped after {} calls", log.iter().filter(|e| matches!(e, Ev::Start { .. })).count()))
}
