//! C21: what reports say, read back from their text. C22: custom measurements.
use crate::classify::SCALE;
use crate::frame::*;
use crate::rt;
use big_o_test::low_level_analysis::types::*;
use big_o_test::BigOAlgorithmComplexity as C;
use mc_rt::Bounds;
use std::time::Duration;

type Pass = BigOSpacePassMeasurements;

// ---- reading reports ---------------------------------------------------------------------------------

/// a number with a unit: (value in the base unit, worth of half the last displayed digit)
fn quantity(s: &str, units: &[(&str, f64)]) -> Result<(f64, f64, f64), String> {
    let (digits, unit) = s.split_at(s.find(|c: char| !(c.is_ascii_digit() || c == '.' || c == 'e')).unwrap_or(s.len()));
    let worth = units.iter().find(|u| u.0 == unit).ok_or(format!("unknown unit in '{s}'"))?.1;
    let v: f64 = digits.parse().map_err(|_| format!("not a number: '{s}'"))?;
    let decimals = digits.split_once('.').map_or(0, |d| d.1.split('e').next().unwrap().len()) as i32;
    let exp: i32 = digits.split_once('e').map_or(0, |d| d.1.parse().unwrap_or(0));
    Ok((v * worth, 0.5 * 10f64.powi(exp - decimals) * worth, v))
}
const TIMES: [(&str, f64); 4] = [("ns", 1.0), ("µs", 1e3), ("ms", 1e6), ("s", 1e9)];
const MEMS: [(&str, f64); 4] = [("b", 1.0), ("KiB", 1024.0), ("MiB", 1048576.0), ("GiB", 1073741824.0)];

/// the text stands for `ns`, to the precision shown
fn time_is(s: &str, ns: f64) -> Result<(), String> {
    let (v, half, _) = quantity(s, &TIMES)?;
    if (v - ns).abs() > half + 1.0 + ns * 1e-12 { return Err(format!("'{s}' is shown for {ns} ns")); }
    Ok(())
}
/// the text stands for so many bytes, to the precision shown, in the unit that suits it
fn mem_is(s: &str, bytes: f64) -> Result<(), String> {
    let (v, half, shown) = quantity(s, &MEMS)?;
    // whole bytes are also shown for figures a thousandth away from them
    let slack = if half == 0.5 { 0.001 + 1e-6 } else { half } + bytes * 2e-7;
    if (v - bytes).abs() > slack { return Err(format!("'{s}' is shown for {bytes} bytes")); }
    let top = s.ends_with("GiB");
    if !top && shown > 1024.0 + 1e-9 || v / shown > 1.5 && shown < 1.0 - 1e-9 { return Err(format!("'{s}' is not in the unit that suits {bytes} bytes")); }
    Ok(())
}
fn signed_mem_is(s: &str, p: &Pass, n: u32) -> Result<(), String> {
    let (sign, rest) = match s.chars().next() { Some('+') => (1, &s[1..]), Some('-') => (-1, &s[1..]), _ => (0, s) };
    let want = p.used_memory_after.cmp(&p.used_memory_before) as i32;
    if sign != want { return Err(format!("'{s}' is shown for memory in use going from {} to {} bytes", p.used_memory_before, p.used_memory_after)); }
    let used = (p.max_used_memory - p.used_memory_before).max(p.used_memory_before - p.min_used_memory);
    mem_is(rest, used as f64 / n as f64)
}
fn unavailable(p: &Pass) -> bool { p.max_used_memory == usize::MAX }

struct Expect<'a> { kind: u8, name: &'a str, n: [u32; 2], reps: u32, t: [Duration; 2], s: [Pass; 2] }

/// reads the table of a measurement back
fn table(text: &str, e: &Expect) -> Result<(), String> {
    let mut lines = text.lines();
    let title = lines.next().ok_or("no title")?;
    if !title.contains(&format!("'{}'", e.name)) { return Err(format!("the title '{title}' lacks the name '{}'", e.name)); }
    let head: Vec<&str> = lines.next().ok_or("no header")?.split_whitespace().collect();
    for p in 0..2 {
        let line = lines.next().ok_or("a pass is missing")?;
        let cells: Vec<&str> = line.split_whitespace().collect();
        if cells.first() != Some(&["1)", "2)"][p]) { return Err(format!("'{line}' is where pass {} should be", p + 1)); }
        if cells.len() != head.len() { return Err(format!("'{line}' doesn't have the columns {head:?}")); }
        let cell = |h: &str| head.iter().position(|x| *x == h).map(|i| cells[i]).ok_or(format!("no column {h}"));
        let at = |h: &str, r: Result<(), String>| r.map_err(|m| format!("pass {}, column {h}: {m} (in '{line}')", p + 1));
        let t = e.t[p].as_nanos() as f64;
        let size = [e.n[p] as u64, e.n[p] as u64, e.n[0] as u64 * (p as u64 + 1)][e.kind as usize];
        let per = [e.n[p], e.reps, e.n[0]][e.kind as usize];
        at("Δt", time_is(cell("Δt")?, t))?;
        at("t⁻", time_is(cell("t⁻")?, t / per as f64))?;
        if !unavailable(&e.s[p]) { at("Δs", signed_mem_is(cell("Δs")?, &e.s[p], 1))?; }
        let h = if e.kind == 0 { "n" } else { "Σn" };
        if cell(h)? != size.to_string() { return Err(format!("pass {}, column {h}: '{}' instead of {size}", p + 1, cell(h)?)); }
        if e.kind == 0 && !unavailable(&e.s[p]) { at("s⁻", signed_mem_is(cell("s⁻")?, &e.s[p], e.n[p]))?; }
        if e.kind == 1 && cell("⊆r")? != e.reps.to_string() { return Err(format!("pass {}, column ⊆r: '{}' instead of {}", p + 1, cell("⊆r")?, e.reps)); }
    }
    if let Some(l) = lines.next() { if !l.starts_with("-->") { return Err(format!("unexpected '{l}'")); } }
    Ok(())
}

/// 'allocated: 12.00b; auxiliary used space: 10.00b'
fn summary(text: &str, s: &[Pass; 2]) -> Result<(), String> {
    if s.iter().any(unavailable) { return Ok(()); }
    let at = |m: String| format!("{m} (in '{text}')");
    let (used, aux) = text.split_once(';').ok_or(at("no summary".into()))?;
    let (word, amount) = used.split_once(':').ok_or(at("no summary".into()))?;
    let delta: i128 = s.iter().map(|p| p.used_memory_after as i128 - p.used_memory_before as i128).sum();
    let ok = match word.trim() { "allocated" => delta >= 0, "freed" => delta <= 0, _ => false };
    if !ok { return Err(at(format!("'{word}' is said of a change of {delta} bytes"))); }
    mem_is(amount.trim(), delta.unsigned_abs() as f64).map_err(at)?;
    let given_back: u128 = s.iter().map(|p| (p.max_used_memory - p.used_memory_after.max(p.used_memory_before)) as u128).sum();
    let aux = aux.trim().strip_prefix("auxiliary used space:").ok_or(at("no auxiliary space".into()))?;
    mem_is(aux.trim(), given_back as f64).map_err(|m| at(format!("auxiliary space: {m}")))
}

/// the words of the classes: exact ones say so, in-between ones name both neighbours
const NOTATIONS: [&str; 8] = ["O(1)", "O(log(n))", "O(n)", "O(n.log(n))", "O(n²)", "O(n³)", "O(n⁴)", "O(kⁿ)"];
fn class_is(said: &str, c: C) -> Result<(), String> {
    let i = SCALE.iter().position(|x| *x == c).unwrap();
    let ok = if i == 0 { said.starts_with("Better than O(1)") }
        else if i == 16 { said.starts_with("Worse than") && (said.contains("O(kⁿ)") || said.contains("Exponential")) }
        else if i % 2 == 1 { said == NOTATIONS[i / 2] }
        else { said == format!("Worse than {}, but better than {}", NOTATIONS[i / 2 - 1], NOTATIONS[i / 2]) };
    if ok { Ok(()) } else { Err(format!("'{said}' is said of {c:?}")) }
}
fn verdicts(text: &str, t: C, s: C, sp: &[Pass; 2]) -> Result<(), String> {
    let line = |k: &str| text.lines().find_map(|l| if l.starts_with("-->") { l.split_once(k).map(|x| x.1.trim()) } else { None }).ok_or(format!("no '{k}' line in '{text}'"));
    class_is(line("Time Analysis:")?, t)?;
    let l = line("Space Analysis:")?;
    // the summary is in the last parentheses
    let i = l.rfind(" (allocated").or(l.rfind(" (freed")).ok_or(format!("no summary in '{l}'"))?;
    class_is(&l[..i], s)?;
    summary(l[i + 2..].strip_suffix(')').ok_or("unbalanced summary")?, sp)
}

// ---- C21 -------------------------------------------------------------------------------------------

fn sp(before: usize, up: usize, down: usize, after: usize) -> Pass { Pass { used_memory_before: before, used_memory_after: after, max_used_memory: before + up, min_used_memory: before - down } }
const NONE: Pass = Pass { used_memory_before: 0, used_memory_after: usize::MAX, max_used_memory: usize::MAX, min_used_memory: 0 };

/// memory behaviours: departures around the unit boundaries from several levels in use, leaving something, nothing, or less than found
fn passes(tier: Tier) -> Vec<Pass> {
    let mut v = vec![NONE];
    let befores: &[usize] = tier.pick(&[0, 1000, 5000, (1 << 24) + 1, 77_777_777, 5 << 30], &[0, 1, 1000, 5000, (1 << 24) + 1, 77_777_777, 5 << 30, 1 << 40]);
    let moves: &[usize] = tier.pick(&[0, 1, 1023, 1024, 1025, 1536, 1 << 20, (1 << 20) + 1, 1 << 30, 3 << 29, 20 << 30], &[0, 1, 2, 512, 1023, 1024, 1025, 1536, 10_000, (1 << 20) - 1, 1 << 20, (1 << 20) + 1, 123_456_789, 1 << 30, (1 << 30) + 1, 3 << 29, 20 << 30]);
    for &b in befores { for &up in moves { for &down in moves {
        if down > b || (up > 0 && down > 0 && tier == Tier::Quick && up != down && up > 1 && down > 1) { continue }
        let mut afters = vec![b, b + up, b - down, b + up / 2, b - down / 2];
        afters.sort(); afters.dedup();
        for a in afters { v.push(sp(b, up, down, a)); }
    } } }
    v
}
const DURATIONS: [u64; 12] = [0, 1, 999, 1_000, 1_001, 999_999, 1_000_000, 1_234_567, 999_999_999, 1_000_000_000, 61_234_567_891, 86_400_000_000_000];

fn analysis(kind: u8, e: &Expect, t: C, s: C) -> (String, String) {
    let tm = || BigOTimeMeasurements { pass_1_measurements: e.t[0], pass_2_measurements: e.t[1] };
    let sm = || BigOSpaceMeasurements { pass_1_measurements: e.s[0], pass_2_measurements: e.s[1] };
    let pm = |p: usize| BigOPassMeasurements { time_measurements: e.t[p], space_measurements: e.s[p], custom_measurements: vec![] };
    fn both<T: BigOAlgorithmMeasurements>(m: T, t: C, s: C) -> (String, String) { let a = m.to_string(); (a, BigOAlgorithmAnalysis { time_complexity: t, space_complexity: s, algorithm_measurements: m }.to_string()) }
    match kind {
        0 => both(AlgorithmMeasurements { measurement_name: e.name, passes_info: AlgorithmPassesInfo { pass1_n: e.n[0], pass2_n: e.n[1] }, time_measurements: tm(), space_measurements: sm(), pass1_measurements: pm(0), pass2_measurements: pm(1) }, t, s),
        1 => both(ConstantSetIteratorAlgorithmMeasurements { measurement_name: e.name, passes_info: ConstantSetIteratorAlgorithmPassesInfo { pass_1_set_size: e.n[0], pass_2_set_size: e.n[1], repetitions: e.reps }, time_measurements: tm(), space_measurements: sm(), pass1_measurements: pm(0), pass2_measurements: pm(1) }, t, s),
        _ => both(SetResizingIteratorAlgorithmMeasurements { measurement_name: e.name, passes_info: SetResizingIteratorAlgorithmPassesInfo { delta_set_size: e.n[0] }, time_measurements: tm(), space_measurements: sm() }, t, s),
    }
}
fn shows(e: &Expect, t: C, s: C) -> Result<(), String> {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| analysis(e.kind, e, t, s))).map_err(|p| format!("printing panicked: {}", mc_rt::panic_message(&p)));
    let res = r.and_then(|(m, a)| { table(&m, e)?; table(&a, e)?; verdicts(&a, t, s, &e.s) });
    res.map_err(|m| format!("{} with sizes {:?}, {} repetitions, times {:?}, memory {:?}: {m}", ["a regular algorithm", "a constant set algorithm", "a set resizing algorithm"][e.kind as usize], e.n, e.reps, e.t, e.s))
}

/// reports of whole CRUD analyses, with distinct costs
fn crud_report(n: [u32; 4], threads: u32, pct: u32) -> Result<String, String> {
    use big_o_test::runners::crud::analyse_crud_algorithms;
    let cost = |op: u32, e: u32| rt::call(op as u8, e as i64, || {
        let second = op > 0 && e >= n[op as usize - 1];
        mc_rt::advance((op as u64 * 7 + 3) * 1_000 + if second { 100 } else { 0 });
        match op { 1 => rt::grab(if second { 48 } else { 32 }), 4 => rt::give_back(if second { 48 } else { 32 }), 0 => rt::give_back_all(), _ => rt::borrow(op as usize * 1000 + second as usize * 10) }
    });
    let (r, _, printed) = rt::run_printing(|| {
        let a = analyse_crud_algorithms("Some Container", |e| { cost(0, e); e }, |e| { cost(1, e); e }, |e| { cost(2, e); e }, |e| { cost(3, e); e }, |e| { cost(4, e); e }, pct, n[0], n[1], n[2], n[3], threads, threads, threads, threads);
        let mut order = vec![];
        let mut parts = vec![];
        macro_rules! keep { ($i: expr, $name: expr, $kind: expr, $a: expr) => { if let Some(x) = $a {
            let m = &x.algorithm_measurements;
            let (t, s) = (&m.time_measurements, &m.space_measurements);
            parts.push((x.to_string(), x.time_complexity, x.space_complexity, $kind, $name, [t.pass_1_measurements, t.pass_2_measurements], [s.pass_1_measurements, s.pass_2_measurements], n[$i]));
            order.push(($i, [t.pass_1_measurements, t.pass_2_measurements], [s.pass_1_measurements, s.pass_2_measurements]));
        } } }
        keep!(0, "Create", 2u8, &a.0); keep!(1, "Read", 1u8, &a.1); keep!(2, "Update", 1u8, &a.2); keep!(3, "Delete", 2u8, &a.3);
        (a.4.clone(), parts, order)
    });
    let (report, parts, order) = r?;
    let at = |m: String| format!("{n:?} on {threads} threads, warm-up {pct}%: {m} in report:\n{report}");
    if !report.contains("Some Container") { return Err(at("no name".into())); }
    if printed.trim_end() != report.trim_end() { return Err(at(format!("what was printed differs from the report returned:\n{printed}"))); }
    for (text, t, s, kind, name, tm, sm, count) in &parts {
        if !report.contains(text.trim_end()) { return Err(at(format!("no analysis of {name}"))); }
        let e = Expect { kind: *kind, name, n: if *kind == 1 { [n[0], n[0] * 2] } else { [*count; 2] }, reps: *count, t: *tm, s: *sm };
        // sets of read & update have no size of their own when nothing is created
        if *kind == 1 && n[0] == 0 { continue }
        table(text, &e).and_then(|_| verdicts(text, *t, *s, sm)).map_err(at)?;
    }
    // the progress of the passes, in the order they ran: 'create: 10µs/+32b'
    let mut rest = &report[..];
    let mut steps: Vec<(String, usize, usize)> = vec![];
    for p in 0..2 { for (i, name) in [(0, "create: "), (1, "read: "), (2, "update: ")] { steps.push((name.to_string(), i, p)); } }
    steps.push(("2nd: ".into(), 3, 1)); steps.push(("1st: ".into(), 3, 0));
    for (prefix, i, p) in steps {
        let Some((_, t, s)) = order.iter().find(|o| o.0 == i) else { continue };
        let j = rest.find(&prefix).ok_or(at(format!("no '{prefix}' of pass {}", p + 1)))?;
        rest = &rest[j + prefix.len()..];
        let figures = &rest[..rest.find(|c: char| c == ',' || c == ')' || c == ';').unwrap_or(rest.len())];
        let (a, b) = figures.trim().split_once('/').ok_or(at(format!("no figures in '{figures}'")))?;
        time_is(a.trim(), t[p].as_nanos() as f64).map_err(at)?;
        signed_mem_is(b.trim(), &s[p], 1).map_err(at)?;
    }
    Ok(format!("{} analyses, {} characters", parts.len(), report.len()))
}

/// the figures following a label: '12µs/+32.00b'
fn progress(text: &str, label: &str, c: &Seen) -> Result<usize, String> {
    let j = text.find(label).ok_or(format!("no '{label}'"))? + label.len();
    let rest = &text[j..];
    let figures = &rest[..rest.find([';', ',', '\n']).unwrap_or(rest.len())];
    let (a, b) = figures.trim().split_once('/').ok_or(format!("no figures in '{figures}'"))?;
    time_is(a.trim(), c.ns as f64).and_then(|_| signed_mem_is(b.trim(), &space(c), 1)).map_err(|m| format!("after '{label}', {m}"))?;
    Ok(j)
}
fn space(c: &Seen) -> Pass { Pass { used_memory_before: c.before, used_memory_after: c.after, max_used_memory: c.max, min_used_memory: c.min } }

/// what a regular or async test printed, against what its attempts (runs of `order` in the calls) really did
pub fn printed_attempts(text: &str, name: &str, n: [u32; 2], order: &[u8], labels: &dyn Fn(usize) -> Option<&'static str>, p: [u8; 2], limits: [Option<C>; 2], cs: &[Seen]) -> Result<String, String> {
    let parts: Vec<&str> = text.split("Running '").skip(1).collect();
    let at = |a: usize, m: String| format!("attempt {}: {m} in what was printed:\n{text}", a + 1);
    if parts.len() != cs.len() / order.len() { return Err(format!("{} attempts were made, {} printed:\n{text}", cs.len() / order.len(), parts.len())); }
    for (a, (part, calls)) in parts.iter().zip(cs.chunks(order.len())).enumerate() {
        let e = |m: String| at(a, m);
        let mut rest = *part;
        if !rest.starts_with(&format!("{name}'")) { return Err(e(format!("no '{name}'"))); }
        for (i, c) in calls.iter().enumerate() { if let Some(l) = labels(i) { rest = &rest[progress(rest, l, c).map_err(e)?..]; } }
        let pass = p.map(|f| *calls.iter().find(|c| c.f == f).unwrap());
        let (t, s) = regular::classes(n[0], n[1], &pass[0], &pass[1]);
        let title = rest.match_indices('\n').map(|x| x.0 + 1).find(|i| rest[*i..].lines().next().is_some_and(|l| l.contains(&format!("'{name}'")) && !l.contains("**"))).ok_or(e("no analysis".into()))?;
        let sp = pass.map(|c| space(&c));
        let x = Expect { kind: 0, name, n, reps: 1, t: pass.map(|c| Duration::from_nanos(c.ns)), s: sp };
        // the analysis ends where the next paragraph begins
        let analysis = &rest[title..];
        let end = analysis.find("\n\n").unwrap_or(analysis.len());
        table(&analysis[..end], &x).and_then(|_| verdicts(&analysis[..end], t, s, &sp)).map_err(e)?;
        let after = &analysis[end..];
        let exceeds = |c: C, m: Option<C>| m.is_some_and(|m| rank(c) > rank(m));
        if exceeds(s, limits[1]) { regular::names_excess(after, "space", limits[1].unwrap(), s).map_err(e)?; }
        else if exceeds(t, limits[0]) { regular::names_excess(after, "time", limits[0].unwrap(), t).map_err(e)?; }
        else if after.contains("mismatch") { return Err(e("a mismatch is told of".into())); }
    }
    Ok(format!("{} attempts", parts.len()))
}
use crate::classify::rank;
use crate::regular::{self, Cost, Out, Seen, OUTS, P1, P2, RESET};

pub const TEST_NAMES: [&str; 3] = ["some test", "", "naïve ✓ (with) [brackets]: {} 1) 2)"];
/// a regular test with the given costs, its report read back
fn regular_report(name: &'static str, n: [u32; 2], retries: u32, limits: [C; 2], script: &dyn Fn(usize, u8) -> Cost) -> Result<String, String> {
    let step = |f: u8| rt::call(f, 0, || { let a = rt::count(f as usize) as usize; script(a, f).pay() });
    let (_, log, text) = rt::run_printing(|| big_o_test::test_algorithm(name, retries, || step(RESET), n[0], || { step(P1); 1 }, n[1], || { step(P2); 2 }, limits[0], limits[1]));
    printed_attempts(&text, name, n, &[RESET, P1, P2], &|i| Some(["Resetting: ", "Pass 1: ", "Pass 2: "][i]), [P1, P2], limits.map(Some), &regular::calls(&log)?)
}

/// a pass too busy with save points for its memory figures to be available
fn unavailable_run(runner: u8, which: u32) -> Result<String, String> {
    const W: C = C::WorseThanExponential;
    let f = |pass: u32| { rt::borrow(100 * pass as usize); mc_rt::advance(1000); if which & pass != 0 { for _ in 0..1030 { big_o_test::ALLOC.save_point(); } } pass };
    let (r, _) = rt::run(|| match runner {
        0 => big_o_test::test_algorithm("busy", 0, || (), 10, || f(1), 20, || f(2), W, W),
        1 => big_o_test::test_crud_algorithms("busy", 1, |e| e, |e| f(1 + e), W, W, |e| f(1 + e), W, W, |e| f(1 + e), W, W, |e| f(1 + e), W, W, 0, 1, 1, 1, 1, 1, 1, 1, 1),
        _ => { big_o_test::runners::crud::analyse_crud_algorithms("busy", |e| e, |e| f(1 + e), |e| f(1 + e), |e| f(1 + e), |e| f(1 + e), 0, 1, 1, 1, 1, 1, 1, 1, 1); }
    });
    r.map(|_| "reported".into()).map_err(|p| format!("with the memory figures of pass(es) {which:02b} unavailable, the {} panicked: {p}", ["regular test", "CRUD test", "CRUD analysis"][runner as usize]))
}

pub fn c21(tier: Tier) -> Property {
    let mut p = Property::new("C21", "exploration", "every pair of memory behaviours from the alphabet, every combination of times and sizes, and every class, through the three kinds of measurements & analyses, the text being read back; plus whole CRUD reports for every small configuration");
    let all: std::rc::Rc<Vec<Pass>> = passes(tier).into();
    let parts = tier.pick(16, 32);
    for kind in 0..3u8 { for part in 0..parts {
        let all = all.clone();
        p.enumerate(format!("memory figures, kind {kind}, part {part} of {parts}"), move |e| {
            for (i, a) in all.iter().enumerate().filter(|(i, _)| i % parts == part) { for (j, b) in all.iter().enumerate() {
                let n = [[1u32, 2], [3, 7], [1000, 2000], [1 << 20, u32::MAX]][(i + j) % 4];
                let x = Expect { kind, name: "mem", n, reps: 3, t: [Duration::from_micros(5), Duration::from_millis(7)], s: [*a, *b] };
                if let Err(m) = shows(&x, C::O1, C::ON) { return e.fail(m); }
                e.case(rt::hash((kind, i, j)));
            } }
            e.sample(|| format!("{:?} with {} others", all[part], all.len()));
        });
    } }
    let pass_count = tier.pick(5usize, 40);
    for kind in 0..3u8 { let all = all.clone(); p.enumerate(format!("every size, kind {kind}"), move |e| {
        let ns = [1u32, 2, 3, 7, 10, 999, 1000, 1024, 65_536, 1_000_000, 16_777_217, 1 << 31, u32::MAX];
        for n1 in ns { for n2 in ns { for reps in [1u32, 2, 1000, u32::MAX] { for (t1, t2) in [(0u64, 1u64), (1_234_567, 86_400_000_000_000), (999_999_999, 3)] { for k in 0..pass_count {
            let x = Expect { kind, name: "n: size; 'quoted'", n: [n1, n2], reps, t: [Duration::from_nanos(t1), Duration::from_nanos(t2)], s: [all[(k * 37 + 11) % all.len()], all[(k * 91 + 3) % all.len()]] };
            if let Err(m) = shows(&x, C::O1, C::O1) { return e.fail(m); }
            e.case(rt::hash((kind, n1, n2, reps, t1, k)));
        } } } } }
        e.sample(|| format!("sizes {ns:?} squared"));
    }); }
    for kind in 0..3u8 { p.enumerate(format!("every pair of times, kind {kind}"), move |e| {
        for t1 in DURATIONS { for t2 in DURATIONS { for n in [1u32, 3, 1000, 1 << 20] {
            let x = Expect { kind, name: "t", n: [n, n], reps: n, t: [Duration::from_nanos(t1), Duration::from_nanos(t2)], s: [sp(100, 50, 10, 120), sp(120, 2000, 0, 90)] };
            if let Err(m) = shows(&x, C::ON, C::OLogN) { return e.fail(m); }
            e.case(rt::hash((kind, t1, t2, n)));
        } } }
        e.sample(|| format!("{DURATIONS:?} squared"));
    }); }
    // up to the longest there are
    for kind in 0..3u8 { p.enumerate(format!("times up to the longest possible, kind {kind}"), move |e| {
        let ts = [Duration::ZERO, Duration::from_secs(1 << 40), Duration::new(u64::MAX >> 1, 5), Duration::from_secs(u64::MAX), Duration::MAX];
        for t1 in ts { for t2 in ts { for n in [1u32, 2, 1000, u32::MAX] {
            let x = Expect { kind, name: "t", n: [n, n], reps: n, t: [t1, t2], s: [sp(100, 50, 10, 120), sp(120, 2000, 0, 90)] };
            if let Err(m) = shows(&x, C::ON, C::OLogN) { return e.fail(m); }
            e.case(rt::hash((kind, t1, t2, n)));
        } } }
        e.sample(|| format!("{ts:?} squared"));
    }); }
    for kind in 0..3u8 { p.enumerate(format!("every pair of classes, kind {kind}"), move |e| {
        for t in SCALE { for s in SCALE { for names in ["", "a name", "naïve ✓ (with) [brackets]: 1) 2)"] {
            let x = Expect { kind, name: names, n: [10, 20], reps: 5, t: [Duration::from_millis(1), Duration::from_millis(2)], s: [sp(100, 50, 10, 120), sp(120, 2000, 0, 90)] };
            if let Err(m) = shows(&x, t, s) { return e.fail(m); }
            e.case(rt::hash((kind, t as u8, s as u8, names)));
        } } }
        e.sample(|| "17 x 17 classes".to_string());
    }); }
    p.enumerate("descriptions of the classes", move |e| {
        for c in SCALE { for said in [c.as_pretty_str(), c.as_time_pretty_str(), c.as_space_pretty_str()] { e.case(rt::hash((c as u8, said))); if let Err(m) = class_is(said, c) { return e.fail(m); } } }
        e.sample(|| "17 classes, 3 descriptions each".into());
    });
    for threads in [1u32, 2] { for pct in [0u32, 100] {
        p.explore(format!("CRUD reports on {threads} threads, warm-up {pct}%"), Bounds::seq(), move || {
            let d: &[u32] = tier.pick(&[0, 1, 2, 3], &[0, 1, 2, 3, 10]);
            let pick = || d[mc_rt::choose(d.len())];
            crud_report([pick(), pick(), pick(), pick()], threads, pct)
        });
    } }
    // what tests print as they run
    const MEMS: [(usize, usize, bool); 7] = [(0, 0, false), (100, 0, false), (0, 3000, false), (2_000_000, 0, false), (50, 155, false), (0, 0, true), (700, 300, true)];
    let cost = |times: &'static [u64]| { let m = regular::pick(&MEMS); Cost { ns: regular::pick(times), keep: m.0, borrow: m.1, free: m.2 } };
    for (n1, n2) in [(1000u32, 2000u32), (7, 100), (2, 3), (2000, 1000), (300, 300)] { for m in MEMS {
        p.explore(format!("what regular tests print, sizes {n1} & {n2}, reset keeping {}, borrowing {}, freeing all: {}", m.0, m.1, m.2), Bounds::seq(), move || {
            let c = [Cost { ns: 33_000, keep: m.0, borrow: m.1, free: m.2 }, cost(&[0, 1_000, 60_000_000]), cost(&[999, 2_050, 3_000_000_000])];
            regular_report("some test", [n1, n2], 0, [C::ON, C::ON], &|_, f| c[f as usize])
        });
    } }
    p.explore("what regular tests print of every pair of classes", Bounds::seq(), move || {
        let (t, s) = (regular::U2[mc_rt::choose(17)], regular::U2[mc_rt::choose(17)]);
        let limits = regular::pick(&[[C::WorseThanExponential; 2], [C::ON, C::WorseThanExponential], [C::WorseThanExponential, C::ONLogN]]);
        regular_report(regular::pick(&TEST_NAMES), [regular::N1, regular::N2], 1, limits, &|_, f| match f { P1 => Cost { ns: regular::U1 * 1_000_000_000, borrow: regular::U1 as usize, ..Default::default() }, P2 => Cost { ns: t * 1_000_000_000, borrow: s as usize, ..Default::default() }, _ => Cost::default() })
    });
    for retries in 0..=tier.pick(4u32, 6) { p.explore(format!("what regular tests print, every history with {retries} retries"), Bounds::seq(), move || {
        let h: Vec<Out> = (0..=retries).map(|_| regular::pick(&OUTS)).collect();
        regular_report("some test", [100, 200], retries, [C::O1, C::O1], &|a, f| { let c = regular::outcome(h.get(a).copied().unwrap_or(Out::Fine), f); Cost { ns: c.ns * (a as u64 + 1), ..c } })
    }); }
    crate::async_::reports(&mut p, tier);
    p.enumerate("printed allocator statistics", move |e| {
        use big_o_test::metrics_allocator::MetricsAllocatorStatistics;
        let names = ["allocations", "deallocations", "zeroed_allocations", "reallocations", "allocated", "deallocated", "zeroed", "originals", "news", "current_used_memory", "min_used_memory", "max_used_memory"];
        let base = [0usize, 1, 7, 10, 999, 1 << 20, 1 << 31, (1 << 32) + 5, 1 << 40, usize::MAX - 1, usize::MAX, 12345];
        for shift in 0..12 { for step in [1usize, 5, 7, 11] {
            let v = |i: usize| base[(i * step + shift) % 12];
            let st = MetricsAllocatorStatistics::<usize> { allocations_count: v(0), deallocations_count: v(1), zeroed_allocations_count: v(2), reallocations_count: v(3), allocated_bytes: v(4), deallocated_bytes: v(5), zeroed_allocated_bytes: v(6),
                reallocated_originals_bytes: v(7), reallocated_news_bytes: v(8), current_used_memory: v(9), min_used_memory: v(10), max_used_memory: v(11) };
            for text in [st.to_string(), format!("{st:?}")] {
                let words: Vec<&str> = text.split(|c: char| !c.is_alphanumeric() && c != '_').filter(|w| !w.is_empty()).collect();
                for (i, n) in names.iter().enumerate() {
                    let shown: Vec<&str> = words.windows(2).filter(|w| w[0] == *n && w[1].parse::<u128>().is_ok()).map(|w| w[1]).collect();
                    if shown != [v(i).to_string()] { return e.fail(format!("{n} of {} is shown as {shown:?} in '{text}'", v(i))); }
                }
            }
            e.case(rt::hash((shift, step)));
        } }
        e.sample(|| "12 figures, 48 arrangements of distinct values".into());
    });
    p.explore("unavailable memory figures", Bounds::seq(), move || { let (r, w) = (mc_rt::choose(3) as u8, mc_rt::choose(4) as u32); unavailable_run(r, w) });
    p.assume("memory figures satisfy low mark <= in use before & after <= peak, as C06 and C07 establish, or are the 'unavailable' ones of the runners; at least one element per pass");
    p
}

// ---- C22 -------------------------------------------------------------------------------------------

use big_o_test::mc_hooks::measurements::{measurer::*, presentable_measurements::*};
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

/// pending that many times first
struct Later(u32);
impl Future for Later { type Output = (); fn poll(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<()> { if self.0 == 0 { return Poll::Ready(()) } self.0 -= 1; cx.waker().wake_by_ref(); Poll::Pending } }
/// polls to completion; None if it takes more than that many polls
fn drive<T>(f: impl Future<Output = T>, polls: u32) -> Option<T> {
    let mut f = std::pin::pin!(f);
    let mut cx = Context::from_waker(Waker::noop());
    for _ in 0..polls { if let Poll::Ready(v) = f.as_mut().poll(&mut cx) { return Some(v) } }
    None
}

#[derive(Debug, PartialEq, Clone, Copy)]
enum M { Before(usize, i32), Read(usize, u64), After(usize, i32, u64), Done(usize) }

/// `waits`: times each reading is pending, before & after; two rounds on the same measurers
fn measuring(waits: &[(u32, u32)], data: [[Option<i32>; 2]; 2], naming: usize) -> Result<String, String> {
    let log: Arc<Mutex<Vec<M>>> = Default::default();
    let serial = Arc::new(Mutex::new(0u64));
    let seen = |d: Option<&i32>| d.copied().unwrap_or(-1);
    let mut ms: Vec<Box<dyn CustomMeasurerExecutor<i32> + Send>> = vec![];
    let naming = |i: usize| -> (String, String) { match (naming, i % 2) { (0, _) => (format!("name {i}"), format!("description {i}")), (1, _) => ("same".into(), "same".into()), (2, 0) => (String::new(), format!("described {{}} {i}")), (2, _) => (format!("naïve\n{i} "), String::new()), _ => (String::new(), String::new()) } };
    for (i, &(b, a)) in waits.iter().enumerate() {
        let (l1, l2, s1) = (log.clone(), log.clone(), serial.clone());
        ms.push(Box::new(CustomMeasurer::new(naming(i).0, SCALE[i], naming(i).1,
            move |d: Option<&i32>| { l1.lock().unwrap().push(M::Before(i, seen(d))); let (l, s) = (l1.clone(), s1.clone()); async move { Later(b).await; let mut n = s.lock().unwrap(); *n += 1; l.lock().unwrap().push(M::Read(i, *n)); *n } },
            move |d: Option<&i32>, v: u64| { l2.lock().unwrap().push(M::After(i, seen(d), v)); let l = l2.clone(); async move { Later(a).await; l.lock().unwrap().push(M::Done(i)); bytes_measurement((v * 10) as f64) } })));
    }
    let polls = waits.iter().map(|w| w.0 + w.1).sum::<u32>() + 10;
    let k = waits.len();
    let at = |m: String| format!("{k} measurers pending {waits:?} times before & after: {m}");
    for (round, [d, d2]) in data.iter().enumerate() {
        log.lock().unwrap().clear();
        let base = *serial.lock().unwrap();
        drive(measure_all_before_event(d.as_ref(), &mut ms), polls).ok_or(at("the readings before never end".into()))?;
        let mut want = vec![];
        for (j, i) in (0..k).rev().enumerate() { want.push(M::Before(i, d.unwrap_or(-1))); want.push(M::Read(i, base + j as u64 + 1)); }
        if *log.lock().unwrap() != want { return Err(at(format!("round {round}, before the event: {:?} instead of {want:?}", log.lock().unwrap()))); }
        log.lock().unwrap().clear();
        let rs = drive(measure_all_after_event(d2.as_ref(), &mut ms), polls).ok_or(at("the readings after never end".into()))?;
        want.clear();
        for i in 0..k { want.push(M::After(i, d2.unwrap_or(-1), base + (k - i) as u64)); want.push(M::Done(i)); }
        if *log.lock().unwrap() != want { return Err(at(format!("round {round}, after the event: {:?} instead of {want:?}", log.lock().unwrap()))); }
        if rs.len() != k { return Err(at(format!("{} results", rs.len()))); }
        for (i, r) in rs.iter().enumerate() {
            let value = format!("{}b", (base + (k - i) as u64) * 10);
            if r.name != naming(i).0 || r.expected_complexity != SCALE[i] || r.description != naming(i).1 || r.measured_data.to_string() != value {
                return Err(at(format!("round {round}: result {i} is '{}', {:?}, '{}', {} instead of the {i}th measurer's with {value}", r.name, r.expected_complexity, r.description, r.measured_data)));
            }
        }
    }
    // a reading is never used twice
    if k > 0 {
        log.lock().unwrap().clear();
        let again = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| drive(measure_all_after_event(None, &mut ms), polls).is_some()));
        if again.is_ok() || log.lock().unwrap().iter().any(|m| matches!(m, M::After(..))) { return Err(at("a reading taken before was used for two readings after".into())); }
    }
    Ok(format!("{k} measurers"))
}

/// one scale: from this value on, divided by that, with this suffix and digits (None: 3 digits in scientific notation)
type Scale = (f64, f64, &'static str, Option<usize>);
const BYTES: &[Scale] = &[(1099511627776.0, 1099511627776.0, "TiB", Some(2)), (1073741824.0, 1073741824.0, "GiB", Some(2)), (1048576.0, 1048576.0, "MiB", Some(2)), (1024.0, 1024.0, "KiB", Some(2)), (0.0, 1.0, "b", Some(0))];
const RATES: &[Scale] = &[(1099511627776.0, 1099511627776.0, "TiB/s", Some(2)), (1073741824.0, 1073741824.0, "GiB/s", Some(2)), (1048576.0, 1048576.0, "MiB/s", Some(2)), (1024.0, 1024.0, "KiB/s", Some(2)), (1.0, 1.0, "b/s", Some(2)), (1.0 / 60.0, 1.0 / 60.0, "b/min", Some(2)), (1.0 / 3600.0, 1.0 / 3600.0, "b/hr", Some(2)), (0.0, 1.0, "b/s", Some(0))];
/// the unit comes before these suffixes
const CUSTOM: &[Scale] = &[(100_000.0, 1.0, "", None), (1.0, 1.0, "", Some(2)), (0.0, 1.0, "", Some(0))];
const CUSTOM_RATES: &[Scale] = &[(100_000.0, 1.0, "/s", None), (1.0, 1.0, "/s", Some(2)), (1.0 / 60.0, 1.0 / 60.0, "/min", Some(2)), (1.0 / 3600.0, 1.0 / 3600.0, "/hr", Some(2)), (0.0, 1.0, "/s", Some(0))];

fn presented(text: &str, v: f64, unit: &str, scales: &[Scale]) -> Result<(), String> {
    let s = scales.iter().find(|s| v >= s.0).unwrap();
    let suffix = format!("{unit}{}", s.2);
    let fail = || format!("{v:?} is presented as '{text}', not as {:?}{suffix} with {} digits", v / s.1, s.3.map_or("3 scientific".to_string(), |d| d.to_string()));
    let number = text.strip_suffix(suffix.as_str()).ok_or_else(fail)?;
    let mantissa = number.split('e').next().unwrap();
    let digits = mantissa.split_once('.').map_or(0, |d| d.1.len());
    if digits != s.3.unwrap_or(3) || number.contains('e') != s.3.is_none() { return Err(fail()); }
    let x: f64 = number.parse().map_err(|_| fail())?;
    let exp: i32 = number.split_once('e').map_or(0, |e| e.1.parse().unwrap_or(0));
    let half = 0.5 * 10f64.powi(exp - digits as i32);
    if s.3.is_none() && !(1.0..10.0).contains(&mantissa.parse::<f64>().unwrap_or(0.0)) { return Err(fail()); }
    if (x - v / s.1).abs() > half * (1.0 + 1e-9) + v / s.1 * 1e-12 { return Err(fail()); }
    Ok(())
}

fn values(scales: &[Scale], fine: u32) -> Vec<f64> {
    let mut v = vec![0.0, 1e-9, 1e-6, 0.49, 0.5, 0.51, 0.99, 0.999, 0.9999999];
    for s in scales {
        for k in [s.0, s.1] { if k > 0.0 {
            v.extend([k, k * (1.0 + 1e-9), k * (1.0 - 1e-9), f64::from_bits(k.to_bits() - 1), f64::from_bits(k.to_bits() + 1)]);
            for i in 1..=fine { v.push(k * i as f64 * 1.37); v.push(k / (i as f64 * 1.21)); v.push(k * (1.0 + i as f64 * 0.005)); }
        } }
    }
    for e in -4..16 { for m in [1.0, 1.0005, 1.005, 2.5, 4.995, 9.995, 9.9995, 9.99999] { v.push(m * 10f64.powi(e)); } }
    v
}
fn leak(s: String) -> &'static str { Box::leak(s.into_boxed_str()) }
fn present(kind: usize, v: f64, unit: &'static str) -> PresentableMeasurement { if kind == 0 { custom_unit_measurement(v, unit) } else { mc_custom_unit_per_second_measurement(v, unit) } }

pub fn c22(tier: Tier) -> Property {
    let mut p = Property::new("C22", "model_checking", "every number of measurers up to the stated one with every number of pending polls of each reading; every value from a dense grid around all scale boundaries; every sequence of custom units up to the stated length");
    for k in 0..=tier.pick(4usize, 5) { p.explore(format!("{k} measurers"), Bounds::seq(), move || {
        let w: Vec<(u32, u32)> = (0..k).map(|_| (mc_rt::choose(3) as u32, mc_rt::choose(3) as u32)).collect();
        let d = [[[None, Some(7)], [None, None]], [[Some(1), Some(2)], [Some(2), Some(1)]], [[Some(3), None], [Some(4), Some(4)]]][mc_rt::choose(3)];
        measuring(&w, d, mc_rt::choose(4))
    }); }
    for k in [5usize, 8, 16] { p.explore(format!("{k} measurers, one of them slow"), Bounds::seq(), move || {
        let slow = mc_rt::choose(k);
        measuring(&(0..k).map(|i| if i == slow { (5, 7) } else { (0, 0) }).collect::<Vec<_>>(), [[Some(1), None], [None, Some(1)]], 0)
    }); }
    let fine = tier.pick(2000, 20_000);
    p.enumerate("bytes", move |e| { for v in values(BYTES, fine) { e.case(v.to_bits() | 1 << 63); if let Err(m) = presented(&bytes_measurement(v).to_string(), v, "", BYTES) { return e.fail(m); } } e.sample(|| "around every power of 1024".into()); });
    p.enumerate("bytes per second", move |e| { for v in values(RATES, fine) { e.case(v.to_bits() | 1 << 63); if let Err(m) = presented(&bytes_per_second_measurement(v).to_string(), v, "", RATES) { return e.fail(m); } } e.sample(|| "around every power of 1024 and per minute & hour".into()); });
    for (kind, scales) in [(0, CUSTOM), (1, CUSTOM_RATES)] { for unit in ["req", "", "tx⁻¹", "e", "s/s"] {
        p.enumerate(format!("custom unit '{unit}'{}", ["", " per second"][kind]), move |e| {
            for v in values(scales, fine) { e.case(rt::hash((kind, unit, v.to_bits()))); if let Err(m) = presented(&present(kind, v, unit).to_string(), v, unit, scales) { return e.fail(m); } }
            e.sample(|| format!("'{unit}'"));
        });
    } }
    p.enumerate("durations", move |e| {
        for s in [0u64, 1, 59, 60, 3600, 86_400, 1 << 31, 1 << 53, 1 << 63, u64::MAX] { for n in [0u32, 1, 999, 1_000, 1_500, 999_999, 1_000_000, 123_456_789, 999_999_999] {
            let d = Duration::new(s, n);
            let text = duration_measurement(d).to_string();
            e.case(rt::hash(d));
            if let Err(m) = time_is(&text, d.as_nanos() as f64) { return e.fail(m); }
            // a duration is kept in floating point seconds: exact up to 2^53 ns
            if s < 9_000_000 && text != format!("{d:?}") { return e.fail(format!("{d:?} is presented as {text}")); }
        } }
        e.sample(|| "seconds x nanoseconds".into());
    });
    // units taken in any order leave each other's presentations alone
    let len = tier.pick(7u32, 8);
    p.enumerate(format!("every sequence of up to {len} measurements of 2 units & rates"), move |e| {
        for l in 1..=len { for code in 0..4usize.pow(l) {
            let units = [leak(format!("u{l}.{code}a")), leak(format!("u{l}.{code}b"))];
            let mut held = vec![];
            for i in 0..l { let c = code / 4usize.pow(i) % 4; let v = [250.0, 0.02, 3e7, 0.0, 1.0, 0.5, 77.0, 4e12][i as usize % 8];
                held.push((present(c / 2, v, units[c % 2]), c, v));
                for (m, c, v) in &held { if let Err(m) = presented(&m.to_string(), *v, units[c % 2], [CUSTOM, CUSTOM_RATES][c / 2]) { return e.fail(format!("after {} measurements ({code} in base 4): {m}", i + 1)); } }
            }
            e.case(rt::hash((l, code)));
        } }
        e.sample(|| "units a, b and a/s, b/s in any order".into());
    });
    p.assume("values are finite and not negative; measurements are presented by one thread at a time");
    p
}
