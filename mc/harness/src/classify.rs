//! C09-C11: classification of resource use.
use crate::frame::*;
use big_o_test::low_level_analysis::types::*;
use big_o_test::low_level_analysis::{analyse_complexity, analyse_set_resizing_iterator_complexity, space_analysis::*, time_analysis::*};
use big_o_test::BigOAlgorithmComplexity as C;
use std::time::Duration;

/// the tolerance documented for the features this harness builds with
const TOL: f64 = 0.10;
/// relative distance to a boundary below which rounding may decide
const EDGE: f64 = 1e-9;

pub const SCALE: [C; 17] = [C::BetterThanO1, C::O1, C::BetweenO1AndOLogN, C::OLogN, C::BetweenOLogNAndON, C::ON, C::BetweenONAndONLogN, C::ONLogN, C::BetweenONLogNAndON2, C::ON2, C::BetweenON2AndON3, C::ON3, C::BetweenON3AndON4, C::ON4, C::BetweenON4AndOkN, C::OkN, C::WorseThanExponential];
pub fn rank(c: C) -> usize { SCALE.iter().position(|x| *x == c).unwrap() }

/// ln of the growth of each exact class; the last one depends on the unit of the resource
fn references(u1: f64, n1: f64, n2: f64) -> [f64; 8] {
    let q = n2.ln() - n1.ln();
    let l = n2.ln().ln() - n1.ln().ln();
    [0.0, l, q, q + l, 2.0 * q, 3.0 * q, 4.0 * q, u1.ln() * (n2 / n1 - 1.0)]
}

/// the class of going from `u1` to `u2` when the size goes from `n1` to `n2`; None if too close to a boundary for rounding not to matter
pub fn expected(u1: f64, u2: f64, n1: f64, n2: f64) -> Option<C> { expected_within(TOL, u1, u2, n1, n2) }
pub fn expected_within(tol: f64, u1: f64, u2: f64, n1: f64, n2: f64) -> Option<C> {
    if u1 == 0.0 && u2 == 0.0 { return Some(C::O1); }
    if u1 == 0.0 { return Some(C::WorseThanExponential); }
    if u2 == 0.0 { return Some(C::BetterThanO1); }
    let growth = u2.ln() - u1.ln();
    for (i, r) in references(u1, n1, n2).iter().enumerate() {
        let (lo, hi) = (r + (1.0 - tol).ln(), r + (1.0 + tol).ln());
        // the exponential reference goes through large logarithms
        let edge = EDGE * (1.0 + r.abs());
        if (growth - lo).abs() < edge || (growth - hi).abs() < edge { return None; }
        if growth < lo { return Some(SCALE[2 * i]); }
        if growth < hi { return Some(SCALE[2 * i + 1]); }
    }
    Some(C::WorseThanExponential)
}

/// the classes that may be reported for going from `u1` to `u2` in two equal passes of `n` additions or removals
pub fn expected_resizing(u1: f64, u2: f64, n: f64) -> Option<Vec<C>> { expected_resizing_within(TOL, u1, u2, n) }
pub fn expected_resizing_within(tol: f64, u1: f64, u2: f64, n: f64) -> Option<Vec<C>> {
    if u1 == 0.0 && u2 == 0.0 { return Some(vec![C::O1]); }
    if u1 == 0.0 { return Some(vec![C::BetweenONAndONLogN]); }
    if u2 == 0.0 { return Some(vec![C::BetterThanO1]); }
    let r = u2 / u1;
    let l = (3.0 * n).ln() / n.ln();
    for b in [1.0 - tol, 1.0 / (1.0 + tol), 1.0 + tol, l * (1.0 - tol), l, l * (1.0 + tol), 3.0 * (1.0 - tol), 3.0 * (1.0 + tol)] { if (r / b - 1.0).abs() < EDGE { return None; } }
    Some(if r < 1.0 - tol { vec![C::BetterThanO1] }
    // "less within tolerance" may be taken relative to either pass
    else if r < 1.0 / (1.0 + tol) { vec![C::BetterThanO1, C::O1] }
    else if r < 1.0 + tol { vec![C::O1] }
    else if r < l * (1.0 - tol) { vec![C::BetweenO1AndOLogN] }
    // the lower half of the logarithmic band may count as the gap below it
    else if r < l { vec![C::BetweenO1AndOLogN, C::OLogN] }
    else if r < l * (1.0 + tol) { vec![C::OLogN] }
    else if r < 3.0 * (1.0 - tol) { vec![C::BetweenOLogNAndON] }
    else if r < 3.0 * (1.0 + tol) { vec![C::ON] }
    else { vec![C::BetweenONAndONLogN] })
}

fn show(u1: f64, u2: f64, n1: f64, n2: f64) -> String { format!("resource use {u1:?} then {u2:?}, sizes {n1} then {n2}") }

/// growths that visit every band, every gap and both sides of every boundary
fn growths(u1: f64, n1: f64, n2: f64, fine: usize) -> Vec<f64> {
    let refs = references(u1, n1, n2);
    let mut b: Vec<f64> = refs.iter().flat_map(|r| [r + (1.0 - TOL).ln(), r + (1.0 + TOL).ln()]).collect();
    b.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let mut g = vec![b[0] - 5.0, b[0] - 0.5, b[15] + 0.5, b[15] + 5.0];
    g.extend(refs);
    for w in b.windows(2) { for k in 1..fine { g.push(w[0] + (w[1] - w[0]) * k as f64 / fine as f64); } }
    for x in &b { for e in [1e-7, 1e-5, 1e-3, 1e-2] { g.push(x - e); g.push(x + e); } }
    for i in -40..=40 { g.push(i as f64 * 0.05); }
    g.sort_by(|a, b| a.partial_cmp(b).unwrap());
    g
}

fn sizes(tier: Tier) -> Vec<(f64, f64)> {
    let v: &[u32] = &[2, 3, 4, 7, 10, 16, 100, 255, 1000, 1024, 4096, 65535, 65536, 1_000_000, 16_777_217, u32::MAX];
    let mut p = vec![];
    for (i, a) in v.iter().enumerate() { for b in &v[i..] { if tier == Tier::Thorough || (i % 3 != 1) || *b < 5000 { p.push((*a as f64, *b as f64)); } } }
    p.push((1000.0, 500.0)); p.push((16.0, 2.0)); p.push((1_000_000.0, 999_999.0));
    p
}

fn grid(e: &mut Enum, n1: f64, n2: f64, fine: usize) {
    let units: [f64; 9] = [1e-9, 3.7e-6, 1e-3, 1.0, 2.5, 1024.0, 1e6, 3.3e9, 1e12];
    for u1 in units {
        let mut last: Option<(f64, C)> = None;
        for g in growths(u1, n1, n2, fine) {
            let u2 = (u1.ln() + g).exp();
            if !u2.is_finite() || u2 > 1e300 || u2 < 1e-300 { continue; }
            let got = analyse_complexity(u1, u2, n1, n2);
            if let Some((v, c)) = last { if rank(got) < rank(c) && u2 >= v { return e.fail(format!("using more ({u2:?} instead of {v:?} after {u1:?}, sizes {n1} and {n2}) improved the class from {c:?} to {got:?}")); } }
            last = Some((u2, got));
            let Some(want) = expected(u1, u2, n1, n2) else { continue };
            if got != want { return e.fail(format!("{} is reported as {got:?}, expected {want:?}", show(u1, u2, n1, n2))); }
            e.case(mc_rt::hash::mix(u1.to_bits() ^ u2.to_bits().rotate_left(7) ^ n1.to_bits().rotate_left(21) ^ n2.to_bits().rotate_left(33)));
            // any class below the exponential ones is the same in any other unit
            if rank(want) <= rank(C::ON4) {
                for k in [1e-9, 1.0 / 1024.0, 60.0, 1e9] {
                    if expected(u1 * k, u2 * k, n1, n2) != Some(want) { continue; }
                    let other = analyse_complexity(u1 * k, u2 * k, n1, n2);
                    if other != got { return e.fail(format!("{} is {got:?}, but in another unit (times {k}) it is {other:?}", show(u1, u2, n1, n2))); }
                }
            }
        }
        for (a, b, want) in [(0.0, u1, C::WorseThanExponential), (u1, 0.0, C::BetterThanO1)] {
            let got = analyse_complexity(a, b, n1, n2);
            if got != want { return e.fail(format!("{} is reported as {got:?}, expected {want:?}", show(a, b, n1, n2))); }
            e.case(mc_rt::hash::mix(a.to_bits() ^ b.to_bits().rotate_left(9) ^ n1.to_bits() ^ n2.to_bits().rotate_left(3)));
        }
    }
    let got = analyse_complexity(0.0, 0.0, n1, n2);
    if got != C::O1 { return e.fail(format!("no resource use at all on both passes (sizes {n1} and {n2}) is reported as {got:?} instead of constant")); }
    e.case(1);
    e.sample(|| format!("sizes {n1} -> {n2}: growths {:.4?} (ln) per exact class; 9 units; every band, gap, and both sides of every boundary", references(1.0, n1, n2)));
}

pub fn c09(tier: Tier) -> Property {
    let mut p = Property::new("C09", "exploration", "every pair of whole resource uses up to the limit for every pair of sizes up to the limit, and for a grid of real sizes and units every band, gap and both sides of every boundary of the scale, against an independent oracle in the logarithmic domain; points within 1e-9 of a boundary are skipped");
    let fine = tier.pick(6, 24);
    for (n1, n2) in sizes(tier) { p.enumerate(format!("sizes {n1} {n2}"), move |e| grid(e, n1, n2, fine)); }
    let (m, top) = (tier.pick(160u32, 400), tier.pick(14u32, 24));
    for n1 in 2..=top {
        p.enumerate(format!("every small case from size {n1}"), move |e| {
            for n2 in n1..=top + 6 { for u1 in 0..=m {
                let mut last = 0;
                for u2 in (0..=m).chain((m..40 * m).step_by(37)) {
                    let got = analyse_complexity(u1 as f64, u2 as f64, n1 as f64, n2 as f64);
                    if rank(got) < last { return e.fail(format!("one more unit improved the class: {}", show(u1 as f64, u2 as f64, n1 as f64, n2 as f64))); }
                    last = rank(got);
                    if let Some(want) = expected(u1 as f64, u2 as f64, n1 as f64, n2 as f64) {
                        if got != want { return e.fail(format!("{} is reported as {got:?}, expected {want:?}", show(u1 as f64, u2 as f64, n1 as f64, n2 as f64))); }
                        e.evaluations += 1;
                    }
                }
                e.case(((n1 as u64) << 40) | ((n2 as u64) << 20) | u1 as u64 | 1 << 63);
            } }
            e.sample(|| format!("sizes {n1}..: uses 0..={m} x 0..{}", 40 * m));
        });
    }
    p
}

pub fn c10(tier: Tier) -> Property {
    let mut p = Property::new("C10", "exploration", "every pair of whole resource uses up to the limit for every number of elements up to the limit, and a fine grid of growths and units for larger ones, against an independent oracle; points within 1e-9 of a boundary are skipped");
    let judge = |e: &mut Enum, u1: f64, u2: f64, n: f64, last: &mut (f64, usize)| -> bool {
        let got = analyse_set_resizing_iterator_complexity(u1, u2, n);
        if u2 >= last.0 && rank(got) < last.1 { e.fail(format!("using more ({u2:?} instead of {:?} after {u1:?}, {n} elements) improved the class to {got:?}", last.0)); return false; }
        *last = (u2, rank(got));
        if let Some(want) = expected_resizing(u1, u2, n) {
            if !want.contains(&got) { e.fail(format!("resource use {u1:?} then {u2:?} for {n} elements per pass is reported as {got:?}, expected {want:?}")); return false; }
            e.evaluations += 1;
        }
        true
    };
    let m = tier.pick(300u32, 1000);
    for n in [2u32, 3, 4, 5, 7, 8, 10, 16, 33, 100, 1000, 1024, 40960, 65536, 1_000_000, u32::MAX] {
        p.enumerate(format!("{n} elements"), move |e| {
            let n = n as f64;
            for u1 in 0..=m {
                let mut last = (-1.0, 0);
                for u2 in 0..=4 * m { if !judge(e, u1 as f64, u2 as f64, n, &mut last) { return } }
                e.case(mc_rt::hash::mix(u1 as u64 + 1) ^ n.to_bits());
            }
            for unit in [1e-9, 2.5e-5, 1e-3, 1.0, 4096.0, 1e9] {
                let mut last = (-1.0, 0);
                for k in 0..tier.pick(20_000, 200_000) { if !judge(e, unit, unit * k as f64 / 2500.0, n, &mut last) { return } }
                e.case(mc_rt::hash::mix(unit.to_bits()) ^ n.to_bits());
            }
            e.sample(|| format!("{n} elements: logarithmic growth is {:.4}", (3.0 * n).ln() / n.ln()));
        });
    }
    p
}

// ---- C11 -------------------------------------------------------------------------------------------

const US: [u64; 18] = [0, 1, 2, 255, 1000, 1099, 2000, 3000, 4150, 65_536, 1 << 24, (1 << 24) + 1, (1 << 31) - 1, 1 << 31, 1 << 32, 5 << 30, (1 << 33) + 4096, 1 << 40];
fn spaces(before: usize, used: u64, after: usize, min: usize) -> BigOSpacePassMeasurements { BigOSpacePassMeasurements { used_memory_before: before, used_memory_after: after, max_used_memory: before + used as usize, min_used_memory: min } }

pub fn c11(tier: Tier) -> Property {
    let mut p = Property::new("C11", "exploration", "every combination of the listed times, memory figures and sizes through the six analysis functions and through the classification of the prescribed quantities");
    let ns: &'static [u32] = tier.pick(&[2, 3, 10, 127, 128, 1000, 4096, 65_535, 70_000, 1_000_000, (1 << 24) + 1, (1 << 31) - 1, 1 << 31, 3 << 30, u32::MAX], &[2, 3, 4, 5, 10, 16, 33, 100, 127, 128, 255, 256, 1000, 4096, 32_767, 32_768, 65_535, 65_536, 70_000, 1_000_000, 1 << 24, (1 << 24) + 1, 1 << 30, (1 << 31) - 1, 1 << 31, (1 << 31) + 1, 3 << 30, u32::MAX - 1, u32::MAX]);
    for &na in ns {
        p.enumerate(format!("first size {na}"), move |e| {
            for &nb in ns { for u1 in US { for u2 in US {
                let (lo, hi) = (na.min(nb), na.max(nb));
                // time, in several units of time
                for unit in [1u64, 1000, 1_000_000] {
                    let (d1, d2) = (Duration::from_nanos(u1 * unit), Duration::from_nanos(u2 * unit));
                    let t = || BigOTimeMeasurements { pass_1_measurements: d1, pass_2_measurements: d2 };
                    let (s1, s2) = (d1.as_nanos() as f64 * 1e-9, d2.as_nanos() as f64 * 1e-9);
                    let what = |f: &str, got: C, want: &dyn std::fmt::Debug| format!("{f} of passes taking {d1:?} and {d2:?} with sizes {na} and {nb}: {got:?}, expected {want:?}");
                    let got = analyse_time_complexity(&AlgorithmPassesInfo { pass1_n: na, pass2_n: nb }, &t());
                    if let Some(w) = expected(s1, s2, na as f64, nb as f64) { if got != w { return e.fail(what("time analysis of a regular algorithm", got, &w)); } }
                    for reps in [1u32, 1000] {
                        let got = analyse_time_complexity_for_constant_set_iterator_algorithm(&ConstantSetIteratorAlgorithmPassesInfo { pass_1_set_size: na, pass_2_set_size: nb, repetitions: reps }, &t());
                        if let Some(w) = expected(s1, s2, lo as f64, hi as f64) { if got != w { return e.fail(what("time analysis of a constant set algorithm", got, &w)); } }
                    }
                    let got = analyse_time_complexity_for_set_resizing_iterator_algorithm(&SetResizingIteratorAlgorithmPassesInfo { delta_set_size: na }, &t());
                    if let Some(w) = expected_resizing(s1, s2, na as f64) { if !w.contains(&got) { return e.fail(what("time analysis of a set resizing algorithm", got, &w)); } }
                    e.case(mc_rt::hash::mix(u1 ^ u2.rotate_left(20) ^ unit.rotate_left(40)) ^ (na as u64) << 32 ^ nb as u64);
                }
                // space, whatever was in use before and whatever remains after
                for (b1, b2) in [(0usize, 0usize), (5000, 77), (1, 1 << 40)] {
                    let mut seen: [Option<C>; 3] = [None; 3];
                    for left in 0..4usize {
                        let rest = |b: usize, u: u64| match left { 0 => (b, b), 1 => (b + u as usize, b), 2 => (b / 2, b / 2), _ => (b + u as usize / 2, 0) };
                        let ((a1, m1), (a2, m2)) = (rest(b1, u1), rest(b2, u2));
                        let s = || BigOSpaceMeasurements { pass_1_measurements: spaces(b1, u1, a1, m1), pass_2_measurements: spaces(b2, u2, a2, m2) };
                        let what = |f: &str, got: C, want: &dyn std::fmt::Debug| format!("{f} of passes peaking {u1} and {u2} bytes above the {b1} and {b2} in use when they began (after: {a1} and {a2}, low: {m1} and {m2}) with sizes {na} and {nb}: {got:?}, expected {want:?}");
                        let (f1, f2) = (u1 as f64, u2 as f64);
                        let g = [
                            analyse_space_complexity(&AlgorithmPassesInfo { pass1_n: na, pass2_n: nb }, &s()),
                            analyse_space_complexity_for_constant_set_iterator_algorithm(&ConstantSetIteratorAlgorithmPassesInfo { pass_1_set_size: na, pass_2_set_size: nb, repetitions: 1 + left as u32 * 999 }, &s()),
                            analyse_space_complexity_for_set_resizing_iterator_algorithm(&SetResizingIteratorAlgorithmPassesInfo { delta_set_size: na }, &s()),
                        ];
                        let w = [expected(f1, f2, na as f64, nb as f64).map(|c| vec![c]), expected(f1, f2, lo as f64, hi as f64).map(|c| vec![c]), expected_resizing(f1, f2, na as f64)];
                        for i in 0..3 {
                            let f = ["space analysis of a regular algorithm", "space analysis of a constant set algorithm", "space analysis of a set resizing algorithm"][i];
                            if let Some(w) = &w[i] { if !w.contains(&g[i]) { return e.fail(what(f, g[i], w)); } }
                            if let Some(o) = seen[i] { if o != g[i] { return e.fail(what(f, g[i], &o)); } }
                            seen[i] = Some(g[i]);
                        }
                        e.case(mc_rt::hash::mix(u1 ^ u2.rotate_left(20) ^ (b1 as u64).rotate_left(44) ^ left as u64) ^ (na as u64) << 32 ^ nb as u64);
                    }
                }
            } } }
            e.sample(|| format!("sizes {na} x {ns:?}, uses {US:?} squared"));
        });
    }
    p
}
