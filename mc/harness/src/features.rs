//! C23: every combination of the crate's features, compiled from /repo's sources and observed from outside.
use crate::classify::{expected_resizing_within, expected_within, SCALE};
use crate::frame::*;
use crate::rt;
use std::collections::{BTreeMap, BTreeSet};
use std::path::PathBuf;
use std::process::Command;
use std::sync::OnceLock;

const FEATURES: [&str; 7] = ["report_stdout", "report_stderr", "no_report", "tolerance_10_percent", "tolerance_25_percent", "no_allocator_metrics", "async"];

struct Setup { externs: BTreeMap<String, String>, search: String, features: BTreeMap<String, Vec<String>>, optional: BTreeMap<String, bool>, edition: String }

fn run(c: &mut Command) -> (bool, String, String) {
    let o = c.output().unwrap_or_else(|e| panic!("{c:?}: {e}"));
    (o.status.success(), String::from_utf8_lossy(&o.stdout).into_owned(), String::from_utf8_lossy(&o.stderr).into_owned())
}

/// the dependencies (built by cargo from featdeps) and /repo's own table of features
fn setup() -> &'static Setup {
    static S: OnceLock<Setup> = OnceLock::new();
    S.get_or_init(|| {
        let dir = format!("{}/mc", root());
        let (ok, out, err) = run(Command::new("cargo").args(["build", "--offline", "-q", "-p", "featdeps", "--message-format=json"]).current_dir(&dir));
        assert!(ok, "cannot build the dependencies: {err}");
        let mut externs = BTreeMap::new();
        let mut search = String::new();
        for l in out.lines() {
            let Ok(v) = serde_json::from_str::<serde_json::Value>(l) else { continue };
            if v["reason"] != "compiler-artifact" { continue }
            let name = v["target"]["name"].as_str().unwrap_or("").replace('-', "_");
            for f in v["filenames"].as_array().into_iter().flatten().filter_map(|f| f.as_str()).filter(|f| f.ends_with(".rlib")) {
                search = PathBuf::from(f).parent().unwrap().to_string_lossy().into_owned();
                externs.insert(name.clone(), f.to_string());
            }
        }
        search = if search.ends_with("/deps") { search } else { format!("{search}/deps") };
        let (ok, out, err) = run(Command::new("cargo").args(["metadata", "--offline", "--no-deps", "--format-version", "1", "--manifest-path", "/repo/Cargo.toml"]));
        assert!(ok, "cannot read /repo/Cargo.toml: {err}");
        let v: serde_json::Value = serde_json::from_str(&out).expect("metadata");
        let p = v["packages"].as_array().unwrap().iter().find(|p| p["name"] == "big-o-test").expect("the package");
        let features = p["features"].as_object().unwrap().iter().map(|(k, v)| (k.clone(), v.as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect())).collect();
        let optional = p["dependencies"].as_array().unwrap().iter().filter(|d| d["kind"].is_null()).map(|d| (d["rename"].as_str().unwrap_or(d["name"].as_str().unwrap()).to_string(), d["optional"] == true)).collect();
        Setup { externs, search, features, optional, edition: p["edition"].as_str().unwrap_or("2021").to_string() }
    })
}

/// what choosing these features turns on, by cargo's rules: (features, optional dependencies)
fn closure(s: &Setup, chosen: &[String]) -> Result<(BTreeSet<String>, BTreeSet<String>), String> {
    let (mut on, mut deps) = (BTreeSet::new(), BTreeSet::new());
    let mut todo: Vec<String> = chosen.to_vec();
    while let Some(f) = todo.pop() {
        if let Some(d) = f.strip_prefix("dep:") { deps.insert(d.to_string()); continue }
        if let Some((d, _)) = f.split_once('/') { if !d.ends_with('?') { deps.insert(d.to_string()); } continue }
        match s.features.get(&f) { Some(v) => { if on.insert(f) { todo.extend(v.clone()); } } None => return Err(format!("there is no feature '{f}'")) }
    }
    Ok((on, deps))
}

fn first_errors(e: &str) -> String { e.lines().filter(|l| l.starts_with("error")).take(3).collect::<Vec<_>>().join(" | ") }

/// one combination: None if the machinery itself failed
fn combination(chosen: &[String], release: bool) -> Result<String, String> {
    let s = setup();
    let (on, deps) = closure(s, chosen)?;
    let dir = std::env::temp_dir().join(format!("mc-features-{}", std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch directory");
    struct Gone(PathBuf); impl Drop for Gone { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }
    let _gone = Gone(dir.clone());
    let lib = dir.join("libbig_o_test.rlib");
    let rustc = || { let mut c = Command::new("rustc"); c.args(["--edition", &s.edition, "--cap-lints", "allow", "-C", "debuginfo=0", "-L", &format!("dependency={}", s.search)]).current_dir(&dir);
        if release { c.args(["-C", "opt-level=3"]); } else { c.args(["-C", "opt-level=0", "-C", "debug-assertions=on"]); } c };
    let mut c = rustc();
    c.args(["--crate-name", "big_o_test", "--crate-type", "rlib", "/repo/src/lib.rs", "-o"]).arg(&lib).env("CARGO_MANIFEST_DIR", "/repo").env("CARGO_PKG_NAME", "big-o-test");
    for f in &on { c.arg("--cfg").arg(format!("feature=\"{f}\"")); }
    for (d, optional) in &s.optional {
        if *optional && !deps.contains(d) && !on.contains(d) { continue }
        let n = d.replace('-', "_");
        if let Some(f) = s.externs.get(&n) { c.arg("--extern").arg(format!("{n}={f}")); }
    }
    let (ok, _, err) = run(&mut c);
    if !ok { return Err(format!("does not compile: {}", first_errors(&err))); }
    let has = |f: &str| on.contains(f);
    let extern_lib = format!("big_o_test={}", lib.display());
    // the async interface
    std::fs::write(dir.join("a.rs"), "pub use big_o_test::RegularAsyncAnalyzerBuilder;").unwrap();
    let (async_there, _, _) = run(rustc().args(["--crate-name", "a", "--crate-type", "lib", "--emit", "metadata", "a.rs", "--extern", &extern_lib]));
    if async_there != has("async") { return Err(format!("the async interface {} there", if async_there { "is" } else { "isn't" })); }
    // a program using it
    let probe = format!("{}/mc/harness/probes/probe.rs", root());
    let exe = dir.join("probe");
    let mut c = rustc();
    c.args(["--crate-name", "probe", &probe, "--extern", &extern_lib, "-o"]).arg(&exe);
    if has("async") { c.args(["--cfg", "probe_async"]); }
    if has("no_allocator_metrics") { c.args(["--cfg", "own_allocator"]); }
    let (ok, _, err) = run(&mut c);
    if !ok { return Err(format!("a program using it does not compile: {}", first_errors(&err))); }
    let seen = dir.join("seen");
    let (ok, stdout, stderr) = run(Command::new(&exe).arg(&seen));
    if !ok { return Err(format!("a program using it fails: {}", stderr.lines().last().unwrap_or(""))); }
    let seen = std::fs::read_to_string(&seen).map_err(|e| format!("a program using it leaves no results: {e}"))?;
    let get = |k: &str| seen.lines().find_map(|l| l.strip_prefix(&format!("{k}="))).unwrap_or("").to_string();
    // reports
    let (to_out, to_err) = if has("no_report") { (false, false) } else if has("report_stderr") { (false, true) } else { (has("report_stdout"), false) };
    for (stream, text, wanted) in [("standard output", &stdout, to_out), ("standard error", &stderr, to_err)] {
        if !wanted { if !text.is_empty() { return Err(format!("{stream} should be left alone, but got '{}'...", text.lines().next().unwrap_or(""))); } continue }
        for k in ["probe-regular", "probe-crud", "Time Analysis", "Space Analysis", "First Pass"] { if !text.contains(k) { return Err(format!("'{k}' of the reports is missing in {stream}")); } }
        if has("async") && !text.contains("probe-async") { return Err(format!("reports of async tests are missing in {stream}")); }
    }
    // tolerance
    let percent = if has("tolerance_25_percent") { 250 } else { 100 };
    if get("tolerance") != percent.to_string() { return Err(format!("measurements of up to {} permil more still count as the same, instead of {percent}", get("tolerance"))); }
    // allocator
    let metrics = !has("no_allocator_metrics");
    let (measured, in_use): (u64, u64) = (get("measured").parse().unwrap_or(0), get("in_use").parse().unwrap_or(0));
    if metrics && !(1_000_000..1_100_000).contains(&measured) || metrics && !(1_000_000..1_100_000).contains(&in_use) || !metrics && (measured, in_use) != (0, 0) {
        return Err(format!("a program allocating 1,000,000 bytes was measured allocating {measured}, {in_use} of them in use"));
    }
    if !metrics && get("own").parse().unwrap_or(0u64) == 0 { return Err("the program's own allocator was not used".into()); }
    // verdicts
    for (k, want) in [("fine", "passed"), ("slow", "failed"), ("slow_allowed", "passed"), ("fat", if metrics { "failed" } else { "passed" }), ("crud_fine", "passed"), ("crud_slow", "failed"),
        ("async_fine", if has("async") { "passed" } else { "" }), ("async_slow", if has("async") { "failed" } else { "" })] {
        if get(k) != want { return Err(format!("the test '{k}' {}, instead of having {want}", get(k))); }
    }
    judge_classes(&get("classes"), percent as f64 / 1000.0)?;
    Ok(format!("report {}, tolerance {percent}, metrics {metrics}, async {}", if to_out { "stdout" } else if to_err { "stderr" } else { "none" }, has("async")))
}

/// every class the probe saw, against the oracle under that tolerance
fn judge_classes(text: &str, tol: f64) -> Result<(), String> {
    let mut seen = text.bytes();
    for (n1, n2) in [(2u32, 4u32), (10, 20), (1000, 2000), (1000, 10_000), (70_000, 1_000_000)] { for u1 in [1.0f64, 1000.0] { for i in 0..4000 {
        let u2 = u1 * (i as f64 / 100.0 + 0.0003).powi(2);
        let mut next = || seen.next().map(|b| SCALE[(b - b'a') as usize]).ok_or("classes are missing");
        let (a, b) = (next()?, next()?);
        if let Some(w) = expected_within(tol, u1, u2, n1 as f64, n2 as f64) { if a != w { return Err(format!("use {u1} then {u2} with sizes {n1} and {n2} is {a:?} instead of {w:?}")); } }
        if let Some(w) = expected_resizing_within(tol, u1, u2, n1 as f64) { if !w.contains(&b) { return Err(format!("use {u1} then {u2} on passes adding {n1} elements is {b:?} instead of {w:?}")); } }
    } } }
    Ok(())
}

pub fn c23(tier: Tier) -> Property {
    let mut p = Property::new("C23", "exploration", "every combination of the seven features, and the default ones, is compiled from /repo's sources and a program using it is run under a virtual clock, its reports, allocations, classes and verdicts being observed");
    let mut add = |name: String, chosen: Vec<String>, release: bool| p.enumerate(name.clone(), move |e| {
        match combination(&chosen, release) { Ok(o) => { e.case(rt::hash((&chosen, release))); e.evaluations += 80_000 - 1; e.sample(|| o); } Err(m) => e.fail(format!("features [{}]: {m}", chosen.join(", "))) }
    });
    for release in tier.pick(vec![false], vec![false, true]) {
        let r = if release { " in release" } else { "" };
        add(format!("default features{r}"), vec!["default".into()], release);
        for mask in 0..128u32 {
            let chosen: Vec<String> = FEATURES.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|x| x.1.to_string()).collect();
            add(format!("[{}]{r}", chosen.join(" ")), chosen.clone(), release);
            // on top of the default ones
            if tier == Tier::Thorough { let mut c = chosen; c.insert(0, "default".into()); add(format!("[{}]{r}", c.join(" ")), c, release); }
        }
    }
    p.assume("features are resolved from /repo/Cargo.toml by cargo's rules and handed to rustc directly; the classes of each combination are compared with an oracle");
    p
}
