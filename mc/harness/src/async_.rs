//! C18, C19 and the async part of C20: the async runner on a real runtime with a virtual clock.
use crate::classify::SCALE;
use crate::frame::*;
use crate::regular::{self, after_panic, calls, outcome, pick, verdict, Cost, Out, FACTORS, SIZES, N1, N2, OUTS, P1, P2, U1, U2};
use crate::rt::{self, Ev};
use big_o_test::BigOAlgorithmComplexity as C;
use big_o_test::RegularAsyncAnalyzerBuilder;
use mc_rt::Bounds;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};

// stages, as logged (resets are told apart by their place)
const RESET: u8 = 0; const WARM: u8 = 3; const A1: u8 = 4; const A2: u8 = 5;
const STAGE: [&str; 6] = ["reset", "pass one", "pass two", "warm-up", "pass one's assertion", "pass two's assertion"];

/// elapsed each time everything is suspended
const TICK: u64 = 100_000_000;

/// algorithm data: tells which call produced it; neither Clone nor Copy
#[derive(Debug)] pub struct Data(i64);

/// a user-supplied future: pays some of its cost, is pending so many times, pays the rest
struct Stage { f: u8, input: i64, id: i64, cost: Cost, pending: usize, polls: usize, started: u64, boom: Option<(usize, usize)>, eager: bool }
impl Stage {
    fn start(&mut self) { rt::world(|w| w.log.push(Ev::Start { f: self.f, arg: self.input, tid: 0 })); self.started = mc_rt::now(); }
    fn step(&mut self, cx: &mut Context) -> Poll<()> {
        if self.polls == 0 && !self.eager { self.start(); Cost { ns: 0, ..self.cost }.pay_first(); }
        let at = self.polls;
        self.polls += 1;
        if let Some((_, kind)) = self.boom.filter(|b| b.0 == at) { rt::world(|w| w.log.push(Ev::Panic { f: self.f, arg: self.input, tid: 0 })); rt::throw(kind) }
        if at < self.pending { cx.waker().wake_by_ref(); return Poll::Pending; }
        mc_rt::advance(if self.eager { self.cost.ns / 10 } else { self.cost.ns });
        Cost { ns: 0, ..self.cost }.pay_last();
        let ns = mc_rt::now() - self.started;
        rt::world(|w| w.log.push(Ev::End { f: self.f, arg: self.id, tid: 0, ns }));
        Poll::Ready(())
    }
}
impl Cost {
    fn pay_first(&self) { if self.free { rt::give_back_all(); } rt::grab(self.keep); rt::grab(self.borrow); }
    fn pay_last(&self) { rt::give_back(self.borrow) }
}
struct Giving(Stage);
impl Future for Giving { type Output = Data; fn poll(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Data> { match self.0.step(cx) { Poll::Ready(()) => Poll::Ready(Data(self.0.id)), Poll::Pending => Poll::Pending } } }
struct Checking(Stage);
impl Future for Checking { type Output = (); fn poll(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<()> { self.0.step(cx) } }

/// drives a future on a tokio runtime; whenever it suspends, time goes by
fn drive(f: impl Future<Output = ()>) {
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap();
    let mut f = Box::pin(f);
    rt.block_on(std::future::poll_fn(move |cx| match f.as_mut().poll(cx) {
        Poll::Ready(()) => Poll::Ready(()),
        Poll::Pending => { mc_rt::advance(TICK); cx.waker().wake_by_ref(); Poll::Pending }
    }))
}

#[derive(Clone, Copy, Debug)]
struct Opts { name: &'static str, reset: bool, warm: bool, a1: bool, a2: bool, retries: Option<u32>, max_t: Option<C>, max_s: Option<C>, n: (u32, u32), eager: bool }
impl Opts {
    fn all(retries: u32) -> Opts { Opts { name: "async test", reset: true, warm: true, a1: true, a2: true, retries: Some(retries), max_t: Some(C::O1), max_s: Some(C::O1), n: (100, 200), eager: false } }
    fn order(&self) -> Vec<u8> {
        let mut v = vec![];
        if self.reset { v.push(RESET) }
        if self.warm { v.push(WARM); if self.reset { v.push(RESET) } }
        v.push(P1);
        if self.a1 { v.push(A1) }
        if self.reset { v.push(RESET) }
        v.push(P2);
        if self.a2 { v.push(A2) }
        v
    }
}

/// what a stage costs, by (number of earlier calls of it, stage), how many times it is pending, and where it panics
type Script = std::sync::Arc<dyn Fn(usize, u8) -> (Cost, usize, Boom) + Send + Sync>;
#[derive(Clone, Copy, PartialEq, Debug)] enum Boom { No, Calling(usize), Polling(usize, usize) }

fn stage(s: &Script, f: u8, input: i64, eager: bool) -> Stage {
    let n = rt::count(f as usize) as usize;
    let (cost, pending, boom) = s(n, f);
    if let Boom::Calling(kind) = boom { rt::call_panicking_with(f, input, kind) }
    let mut st = Stage { f, input, id: rt::count(31) as i64 + 1, cost, pending, polls: 0, started: 0, boom: if let Boom::Polling(k, kind) = boom { Some((k.min(pending), kind)) } else { None }, eager };
    // most of the work may be done by the function itself, before it returns its future
    if eager { st.start(); Cost { ns: 0, ..cost }.pay_first(); mc_rt::advance(cost.ns - cost.ns / 10); }
    st
}
fn id(d: &Option<Data>) -> i64 { d.as_ref().map_or(0, |d| d.0) }

/// the options given in that order (those that are set); later calls of an option replace earlier ones
fn play_in(o: &Opts, script: Script, order: &[usize]) {
    let dummy = std::sync::Arc::new(|_: usize, _: u8| (Cost::default(), 0usize, Boom::No)) as Script;
    let (s1, s2, e) = (script.clone(), script.clone(), o.eager);
    let mut b = Some(RegularAsyncAnalyzerBuilder::new(o.name));
    let (mut f1, mut f2) = (Some(move |d: Option<Data>| Giving(stage(&s1, P1, id(&d), e))), Some(move |d: Option<Data>| Giving(stage(&s2, P2, id(&d), e))));
    let mut left = [0usize; 9];
    for i in order { left[*i] += 1; }
    for &i in order {
        left[i] -= 1;
        let last = left[i] == 0;
        let s = if last { script.clone() } else { dummy.clone() };
        // options given twice: something else first
        let lim = |m: C| if last { m } else { C::BetterThanO1 };
        let x = b.take().unwrap();
        b = Some(match i {
            0 => x.first_pass(o.n.0, f1.take().unwrap()),
            1 => x.second_pass(o.n.1, f2.take().unwrap()),
            2 if o.reset => x.with_reset_fn(move |d: Option<Data>| Giving(stage(&s, if last { RESET } else { 9 }, id(&d), e))),
            3 if o.warm => x.warmup_pass(move |d: Option<Data>| Giving(stage(&s, if last { WARM } else { 9 }, id(&d), e))),
            4 if o.a1 => x.first_pass_assertion(move |d: &Data| Checking(stage(&s, if last { A1 } else { 9 }, d.0, e))),
            5 if o.a2 => x.second_pass_assertion(move |d: &Data| Checking(stage(&s, if last { A2 } else { 9 }, d.0, e))),
            6 => match o.retries { Some(r) => x.with_max_reattempts(if last { r } else { 77 }), None => x },
            7 => match o.max_t { Some(m) => x.with_time_measurements(lim(m)), None => x },
            8 => match o.max_s { Some(m) => x.with_space_measurements(lim(m)), None => x },
            _ => x,
        });
    }
    drive(b.unwrap().test_algorithm())
}

fn test(o: &Opts, script: Script) -> (Result<(), String>, Vec<Ev>) { rt::run(|| play(o, script)) }
fn play(o: &Opts, script: Script) {
    {
        let (s1, s2, e) = (script.clone(), script.clone(), o.eager);
        let mut b = RegularAsyncAnalyzerBuilder::new(o.name)
            .first_pass(o.n.0, move |d: Option<Data>| Giving(stage(&s1, P1, id(&d), e)))
            .second_pass(o.n.1, move |d: Option<Data>| Giving(stage(&s2, P2, id(&d), e)));
        if o.reset { let s = script.clone(); b = b.with_reset_fn(move |d: Option<Data>| Giving(stage(&s, RESET, id(&d), e))); }
        if o.warm { let s = script.clone(); b = b.warmup_pass(move |d: Option<Data>| Giving(stage(&s, WARM, id(&d), e))); }
        if o.a1 { let s = script.clone(); b = b.first_pass_assertion(move |d: &Data| Checking(stage(&s, A1, d.0, e))); }
        if o.a2 { let s = script.clone(); b = b.second_pass_assertion(move |d: &Data| Checking(stage(&s, A2, d.0, e))); }
        if let Some(r) = o.retries { b = b.with_max_reattempts(r); }
        if let Some(m) = o.max_t { b = b.with_time_measurements(m); }
        if let Some(m) = o.max_s { b = b.with_space_measurements(m); }
        drive(b.test_algorithm())
    }
}

fn check_verdict(o: &Opts, r: &Result<(), String>, log: &[Ev]) -> Result<String, String> {
    verdict(o.n.0, o.n.1, o.retries.unwrap_or(0), o.max_t, o.max_s, r, &calls(log)?, &o.order(), P1, P2)
}

/// stages in order with the right data handed over; attempts end where the verdict says
fn sequence(o: &Opts, r: &Result<(), String>, log: &[Ev]) -> Result<String, String> {
    let out = check_verdict(o, r, log)?;
    let mut ended = 0i64; // what the previous attempt ended with
    let ev: Vec<(u8, i64, i64)> = { let s: Vec<_> = log.iter().filter_map(|e| if let Ev::Start { f, arg, .. } = e { Some((*f, *arg)) } else { None }).collect();
        let e: Vec<_> = log.iter().filter_map(|e| if let Ev::End { arg, .. } = e { Some(*arg) } else { None }).collect(); s.iter().zip(e).map(|((f, i), o)| (*f, *i, o)).collect() };
    for (a, att) in ev.chunks(o.order().len()).enumerate() {
        let mut cur = 0i64;
        let (mut p1, mut p2, mut resets) = (0, 0, 0);
        let mut warm = 0;
        for &(f, input, id) in att {
            let between = f == RESET && p1 != 0;
            let allowed: Vec<i64> = match f {
                RESET if between => vec![p1],
                RESET if resets == 0 => vec![if a == 0 { 0 } else { ended }],
                RESET => vec![0, warm],
                WARM => if a > 0 && !o.reset { vec![0, ended] } else { vec![cur] },
                P1 | P2 => vec![cur],
                A1 => vec![p1],
                _ => vec![p2],
            };
            if !allowed.contains(&input) { return Err(format!("{o:?}: in attempt {}, {}{} received the data of call {input} (0 = none) instead of {allowed:?}", a + 1, STAGE[f as usize], if between { " between passes" } else { "" })); }
            match f { RESET => { resets += 1; cur = id } WARM => { warm = id; cur = id } P1 => { p1 = id; cur = id } P2 => { p2 = id } _ => {} }
        }
        ended = p2;
    }
    Ok(out)
}

/// two slow attempts and a fine one, where two reattempts are allowed
fn ordered(order: &[usize]) -> Result<String, String> {
    let o = Opts { max_s: Some(C::ON), ..Opts::all(2) };
    let script: Script = std::sync::Arc::new(|n, f| { let c = outcome(if n < 2 { Out::Slow } else { Out::Fine }, f); (if f == P1 || f == P2 { Cost { ns: c.ns * 100_000, ..c } } else { Cost::default() }, 0, Boom::No) });
    let (r, log) = rt::run(|| play_in(&o, script, order));
    sequence(&o, &r, &log)
}

pub fn c18(tier: Tier) -> Property {
    let mut p = Property::new("C18", "model_checking", "every combination of optional stages, number of attempts and times each stage is pending, on the real future executor with a virtual clock");
    for mask in 0..16u32 { for attempts in 1..=tier.pick(4usize, 6) {
        p.explore(format!("{}{}{}{}passes, {attempts} attempts", if mask & 1 != 0 { "reset, " } else { "" }, if mask & 2 != 0 { "warm-up, " } else { "" }, if mask & 4 != 0 { "first assertion, " } else { "" }, if mask & 8 != 0 { "second assertion, " } else { "" }), Bounds::seq(), move || {
            let o = Opts { name: "async test", reset: mask & 1 != 0, warm: mask & 2 != 0, a1: mask & 4 != 0, a2: mask & 8 != 0, ..Opts::all(pick(&[attempts as u32 - 1, attempts as u32])) };
            // pending times of the six stages
            let k = tier.pick(&[0usize, 1, 3][..], &[0, 1, 2, 3, 5]);
            let pend = [if o.reset { pick(k) } else { 0 }, 0, 0, if o.warm { pick(k) } else { 0 }, if o.a1 { pick(k) } else { 0 }, if o.a2 { pick(k) } else { 0 }];
            let passes = pick(&[0usize, 2]);
            let last = pick(&[Out::Fine, Out::Fat]);
            let (r, log) = test(&o, std::sync::Arc::new(move |n, f| {
                let c = outcome(if n + 1 < attempts { Out::Slow } else { last }, f);
                let c = Cost { ns: c.ns * 100_000, ..c };
                (if f == P1 || f == P2 { c } else { Cost { free: f == RESET, ..Default::default() } }, if f == P1 || f == P2 { passes } else { pend[f as usize] }, Boom::No)
            }));
            sequence(&o, &r, &log)
        });
    } }
    // the order in which the options are given to the builder makes no difference
    for first in 0..9usize {
        p.explore(format!("every order of giving the nine options, starting with the {}", ["first pass", "second pass", "reset", "warm-up", "first assertion", "second assertion", "reattempts", "time limit", "space limit"][first]), Bounds::seq(), move || {
            let mut order = vec![first];
            let mut rest: Vec<usize> = (0..9).filter(|i| *i != first).collect();
            while !rest.is_empty() { order.push(rest.remove(mc_rt::choose(rest.len()))); }
            ordered(&order).map_err(|m| format!("options given in the order {order:?}: {m}"))
        });
        // one of them given once more at the end, other than the passes
        p.explore(format!("options given twice, starting with number {first}"), Bounds::seq(), move || {
            let mut order: Vec<usize> = (0..9).map(|i| (i + first) % 9).collect();
            if mc_rt::choose(2) == 1 { order.reverse() }
            let at = mc_rt::choose(10);
            order.insert(at, 2 + mc_rt::choose(7));
            ordered(&order).map_err(|m| format!("options given in the order {order:?}: {m}"))
        });
    }
    p.assume("futures wake themselves; what the warm-up and the reset following it receive is only checked where the documentation settles it");
    p
}

pub fn c19(tier: Tier) -> Property {
    let mut p = Property::new("C19", "model_checking", "every combination of (time limit or none, time class, space limit or none, space class), and every history of attempt outcomes up to the stated number of reattempts, with suspensions inside the passes and costly other stages");
    let lims = || SCALE.iter().map(|c| Some(*c)).chain([None]);
    for mt in lims() {
        p.explore(format!("limit {mt:?} for time: every class of time, limit and class of space"), Bounds::seq(), move || {
            let ms = pick(&lims().collect::<Vec<_>>());
            let (t, s) = (mc_rt::choose(17), mc_rt::choose(17));
            let o = Opts { name: "async test", reset: false, warm: false, a1: false, a2: false, retries: None, max_t: mt, max_s: ms, n: (N1, N2), eager: mc_rt::choose(2) == 1 };
            let (r, log) = test(&o, std::sync::Arc::new(move |_, f| (match f { P1 => Cost { ns: U1 * 1_000_000_000, borrow: U1 as usize, ..Default::default() }, _ => Cost { ns: U2[t] * 1_000_000_000, borrow: U2[s] as usize, ..Default::default() } }, 0, Boom::No)));
            check_verdict(&o, &r, &log)
        });
    }
    for (n1, n2) in SIZES {
        p.explore(format!("sizes {n1} & {n2}: every limit or none, with uses around the sizes"), Bounds::seq(), move || {
            let all = lims().collect::<Vec<_>>();
            let (mt, ms) = (pick(&all), pick(&all));
            let (t, s) = (pick(&FACTORS), pick(&FACTORS));
            let o = Opts { name: "async test", reset: mc_rt::choose(2) == 1, warm: false, a1: false, a2: false, retries: None, max_t: mt, max_s: ms, n: (n1, n2), eager: false };
            let (r, log) = test(&o, std::sync::Arc::new(move |_, f| (match f { P1 => Cost { ns: 1_000_000, borrow: 1000, ..Default::default() }, P2 => Cost { ns: 1000 * t, borrow: s as usize, ..Default::default() }, _ => Cost::default() }, 0, Boom::No)));
            check_verdict(&o, &r, &log)
        });
    }
    let history = |o: Opts, h: Vec<Out>, pend: usize, noise: Cost| {
        let (r, log) = test(&o, std::sync::Arc::new(move |n, f| {
            if f == P1 || f == P2 { let c = outcome(h.get(n).copied().unwrap_or(Out::Fine), f); (Cost { ns: c.ns * 1000, ..c }, pend, Boom::No) }
            else { (Cost { free: f == RESET, ..noise }, pend, Boom::No) }
        }));
        check_verdict(&o, &r, &log)
    };
    const NOISE: [Cost; 3] = [Cost { ns: 0, keep: 0, borrow: 0, free: false }, Cost { ns: 77_000_000_000, keep: 0, borrow: 100_000, free: false }, Cost { ns: 3, keep: 3000, borrow: 0, free: false }];
    for retries in [None, Some(0u32), Some(1), Some(2), Some(3), Some(tier.pick(7, 9))] { for mask in [0u32, 1, 2, 3, 15] { for noise in 0..3usize {
        if noise > 0 && mask == 0 { continue }
        p.explore(format!("every history with {retries:?} reattempts, stages {mask:04b}, noise {noise}"), Bounds::seq(), move || {
            let n = retries.unwrap_or(0) as usize;
            let (mt, ms) = pick(&[(Some(C::O1), Some(C::O1)), (None, Some(C::O1)), (Some(C::O1), None), (None, None)]);
            let mut h = vec![];
            for _ in 0..=n { let o = pick(&OUTS); h.push(o); if o != Out::Slow { break } }
            // pending in the passes makes both take the same longer: not part of the excess to be shown
            let o = Opts { name: "async test", reset: mask & 1 != 0, warm: mask & 2 != 0, a1: mask & 4 != 0, a2: mask & 8 != 0, retries, max_t: mt, max_s: ms, n: (100, 200), eager: mc_rt::choose(2) == 1 };
            history(o, h, pick(&[0, 1]), NOISE[noise])
        });
    } } }
    // time spent suspended is the pass' own: the second pass is only slower by being pending
    for (k1, k2) in [(0usize, 0usize), (1, 1), (1, 20), (10, 20), (20, 1), (3, 30), (7, 7)] {
        p.explore(format!("pending {k1} times in the first pass, {k2} in the second"), Bounds::seq(), move || {
            let m = pick(&SCALE);
            let reset = mc_rt::choose(2) == 1;
            let o = Opts { name: "async test", reset, warm: mc_rt::choose(2) == 1, a1: false, a2: false, retries: Some(mc_rt::choose(2) as u32), max_t: Some(m), max_s: pick(&[None, Some(C::O1)]), n: (100, 200), eager: mc_rt::choose(2) == 1 };
            let (r, log) = test(&o, std::sync::Arc::new(move |_, f| (Cost { ns: 1_000_000, borrow: 100, ..Default::default() }, match f { P1 => k1, P2 => k2, _ => 50 }, Boom::No)));
            check_verdict(&o, &r, &log)
        });
    }
    // memory: kept, borrowed across a suspension, freed
    const MEMS: [(usize, usize, bool); 6] = [(0, 0, false), (100, 0, false), (0, 100, false), (205, 0, false), (0, 0, true), (100, 300, true)];
    for m0 in MEMS { for pend in [0usize, 1] {
        p.explore(format!("memory: reset keeping {}, borrowing {}, freeing all: {}; pending {pend} times", m0.0, m0.1, m0.2), Bounds::seq(), move || {
            let any = || { let m = pick(&MEMS); Cost { ns: 1_000_000_000, keep: m.0, borrow: m.1, free: m.2 } };
            let (a, b, w) = (any(), any(), any());
            let o = Opts { name: "async test", reset: true, warm: mc_rt::choose(2) == 1, a1: true, a2: true, retries: None, max_t: None, max_s: Some(pick(&[C::BetterThanO1, C::O1, C::BetweenO1AndOLogN, C::BetweenOLogNAndON, C::ON, C::ONLogN, C::ON4])), n: (100, 200), eager: mc_rt::choose(2) == 1 };
            let (r, log) = test(&o, std::sync::Arc::new(move |_, f| (match f { P1 => a, P2 => b, RESET => Cost { ns: 1, keep: m0.0, borrow: m0.1, free: m0.2 }, _ => w }, pend, Boom::No)));
            check_verdict(&o, &r, &log)
        });
    } }
    for retries in [10u32, 40] { p.explore(format!("{retries} reattempts, all too slow but perhaps one"), Bounds::seq(), move || {
        let n = mc_rt::choose(retries as usize + 2);
        history(Opts { warm: false, ..Opts::all(retries) }, (0..n).map(|_| Out::Slow).chain([Out::Fine]).collect(), 0, NOISE[0])
    }); }
    // the number of reattempts allowed is no matter of how many are needed
    p.explore("as many reattempts as can be asked for", Bounds::seq(), move || {
        let (n, last) = (mc_rt::choose(6), pick(&[Out::Fine, Out::Fat]));
        history(Opts { warm: false, ..Opts::all(pick(&[1_000_000u32, 1 << 31, u32::MAX])) }, (0..n).map(|_| Out::Slow).chain([last]).collect(), 0, NOISE[0])
    });
    // so many attempts that the room for save points is used up several times
    for retries in [300u32, 600, 1100] { p.explore(format!("{retries} reattempts, nearly all too slow"), Bounds::seq(), move || {
        let (r, k) = (retries as usize, pick(&[0usize, 1, 2, 3]));
        let n = pick(&[r + 1, r, r - 1, r / 2]);
        history(Opts { warm: k & 1 == 1, reset: k & 2 == 2, ..Opts::all(retries) }, (0..n).map(|_| Out::Slow).chain([pick(&[Out::Fine, Out::Fat])]).collect(), 0, NOISE[0])
    }); }
    p.assume("time elapses inside user futures and, by a fixed tick, whenever everything is suspended; delays between reattempts are awaited on the same clock");
    p
}

/// what async tests print
pub fn reports(p: &mut Property, tier: Tier) {
    // resets, told apart by their place
    fn label(o: &Opts, i: usize) -> Option<&'static str> {
        let order = o.order();
        Some(match order[i] { RESET if i == 0 => "Resetting: ", RESET if order[i - 1] == WARM => "Resetting again: ", RESET => "Reset: ", WARM => "Warming up: ", P1 => "Pass 1: ", P2 => "Pass 2: ", _ => return None })
    }
    let report = |o: Opts, script: Script| {
        let (_, log, text) = rt::run_printing(|| play(&o, script));
        crate::reports::printed_attempts(&text, o.name, [o.n.0, o.n.1], &o.order(), &|i| label(&o, i), [P1, P2], [o.max_t, o.max_s], &calls(&log)?).map_err(|m| format!("{o:?}: {m}"))
    };
    const MEMS: [(usize, usize, bool); 5] = [(0, 0, false), (100, 0, false), (0, 3000, false), (50, 155, false), (0, 0, true)];
    for mask in 0..16u32 { for pend in tier.pick(vec![0usize, 1, 2, 7], vec![0, 1, 2, 3, 7, 20]) {
        p.explore(format!("what async tests print, stages {mask:04b}, each pending {pend} times"), Bounds::seq(), move || {
            let (a, b, w) = (pick(&MEMS), pick(&MEMS), pick(&MEMS[..4]));
            let c = |m: (usize, usize, bool), ns: u64| Cost { ns, keep: m.0, borrow: m.1, free: m.2 };
            let o = Opts { name: pick(&crate::reports::TEST_NAMES), reset: mask & 1 != 0, warm: mask & 2 != 0, a1: mask & 4 != 0, a2: mask & 8 != 0, retries: None, max_t: Some(C::ON), max_s: Some(C::ON), n: pick(&[(1000, 2000), (2000, 1000), (300, 300)]), eager: mc_rt::choose(2) == 1 };
            let ns = pick(&[1_000_000u64, 70]);
            report(o, std::sync::Arc::new(move |n, f| (match f { P1 => c(a, 1_000_000), P2 => c(b, ns * 3), RESET => c((n, 0, n % 2 == 1), 33_000 + n as u64), _ => c(w, 50_000_000) }, pend, Boom::No)))
        });
    } }
    p.explore("what async tests print of every pair of classes", Bounds::seq(), move || {
        let (t, s) = (U2[mc_rt::choose(17)], U2[mc_rt::choose(17)]);
        let (max_t, max_s) = pick(&[(None, None), (Some(C::ON), None), (None, Some(C::ONLogN))]);
        let o = Opts { name: "async test", reset: false, warm: false, a1: false, a2: false, retries: None, max_t, max_s, n: (N1, N2), eager: false };
        report(o, std::sync::Arc::new(move |_, f| (match f { P1 => Cost { ns: U1 * 1_000_000_000, borrow: U1 as usize, ..Default::default() }, _ => Cost { ns: t * 1_000_000_000, borrow: s as usize, ..Default::default() } }, 0, Boom::No)))
    });
    for mask in [0u32, 3, 15] { for retries in 0..=tier.pick(3u32, 5) { p.explore(format!("what async tests print, stages {mask:04b}, every history with {retries} reattempts"), Bounds::seq(), move || {
        let h: Vec<Out> = (0..=retries).map(|_| pick(&OUTS)).collect();
        let o = Opts { name: "async test", reset: mask & 1 != 0, warm: mask & 2 != 0, a1: mask & 4 != 0, a2: mask & 8 != 0, ..Opts::all(retries) };
        report(o, std::sync::Arc::new(move |n, f| (if f == P1 || f == P2 { let c = outcome(h.get(n).copied().unwrap_or(Out::Fine), f); Cost { ns: c.ns * (n as u64 + 1), ..c } } else { Cost { ns: 5, free: f == RESET, ..Default::default() } }, 0, Boom::No)))
    }); } }
}

pub fn panics(p: &mut Property, tier: Tier) {
    for mask in 0..16u32 { for retries in [None, Some(1u32), Some(tier.pick(4, 7))] {
        p.explore(format!("async, stages {mask:04b}, {retries:?} reattempts: a panic in any stage of any attempt"), Bounds::seq(), move || {
            let o = Opts { name: "async test", reset: mask & 1 != 0, warm: mask & 2 != 0, a1: mask & 4 != 0, a2: mask & 8 != 0, retries, ..Opts::all(0) };
            let at = mc_rt::choose(retries.unwrap_or(0) as usize + 1);
            let order = o.order();
            let k = mc_rt::choose(order.len());
            let f = order[k];
            let nth = at * order.iter().filter(|x| **x == f).count() + order[..k].iter().filter(|x| **x == f).count();
            let kind = mc_rt::choose(rt::KINDS);
            let boom = pick(&[Boom::Calling(kind), Boom::Polling(0, kind), Boom::Polling(1, kind)]);
            let pend = pick(&[0usize, 1]);
            let (r, log) = test(&o, std::sync::Arc::new(move |n, g| {
                let c = outcome(if n < at { Out::Slow } else { Out::Fine }, g);
                (if g == P1 || g == P2 { Cost { ns: c.ns * 100_000, ..c } } else { Cost::default() }, pend, if g == f && n == nth { boom } else { Boom::No })
            }));
            after_panic(&r, &log, |_| false).map_err(|m| format!("{o:?}, panicking in {} (stage {} of attempt {}, {boom:?}): {m}", STAGE[f as usize], k + 1, at + 1))
        });
    } }
    let _ = regular::WORST;
}
