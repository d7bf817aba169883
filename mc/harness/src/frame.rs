//! Cases, workers, evidence, verdicts.
use mc_rt::{Bounds, Stats};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::os::fd::FromRawFd;
use std::process::{Command, Stdio};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier { Quick, Thorough }
impl Tier {
    pub fn name(self) -> &'static str { match self { Tier::Quick => "quick", Tier::Thorough => "thorough" } }
    pub fn pick<T>(self, q: T, t: T) -> T { match self { Tier::Quick => q, Tier::Thorough => t } }
}

/// progress and findings of a plain enumeration
pub struct Enum { pub evaluations: u64, pub distinct: HashSet<u64>, pub nontrivial: u64, pub samples: Vec<String>, pub violation: Option<String>, pub transitions: u64 }
impl Enum {
    fn new() -> Self { Enum { evaluations: 0, distinct: HashSet::new(), nontrivial: 0, samples: vec![], violation: None, transitions: 0 } }
    /// one case decided; `key` identifies the distinct situation it exercises (0 = trivial)
    #[inline]
    pub fn case(&mut self, key: u64) { self.evaluations += 1; if key != 0 { self.nontrivial += 1; if self.distinct.len() < 4_000_000 { self.distinct.insert(key); } } }
    pub fn sample(&mut self, f: impl FnOnce() -> String) { if self.samples.len() < 3 { self.samples.push(f()) } }
    pub fn fail(&mut self, msg: String) { if self.violation.is_none() { self.violation = Some(msg) } }
    pub fn failed(&self) -> bool { self.violation.is_some() }
}

pub enum Kind {
    Explore(Bounds, Box<dyn Fn() -> Result<String, String>>),
    Enumerate(Box<dyn Fn(&mut Enum)>),
}
/// `fast`: runs in the binary whose atomics are plain memory
pub struct Case { pub name: String, pub kind: Kind, pub timeout_s: u64, pub fast: bool }
pub struct Property { pub id: &'static str, pub level: &'static str, pub rule: &'static str, pub cases: Vec<Case>, pub assumptions: Vec<String> }
impl Property {
    pub fn new(id: &'static str, level: &'static str, rule: &'static str) -> Self { Property { id, level, rule, cases: vec![], assumptions: vec![] } }
    pub fn explore(&mut self, name: impl Into<String>, b: Bounds, f: impl Fn() -> Result<String, String> + 'static) {
        self.cases.push(Case { name: name.into(), kind: Kind::Explore(b, Box::new(f)), timeout_s: 150, fast: false });
    }
    pub fn enumerate(&mut self, name: impl Into<String>, f: impl Fn(&mut Enum) + 'static) {
        self.cases.push(Case { name: name.into(), kind: Kind::Enumerate(Box::new(f)), timeout_s: 150, fast: false });
    }
    /// a single-threaded history too long for controlled atomics
    pub fn enumerate_fast(&mut self, name: impl Into<String>, f: impl Fn(&mut Enum) + 'static) {
        self.cases.push(Case { name: name.into(), kind: Kind::Enumerate(Box::new(f)), timeout_s: 600, fast: true });
    }
    pub fn assume(&mut self, s: impl Into<String>) { self.assumptions.push(s.into()) }
}

pub fn root() -> String { std::env::var("MC_ROOT").unwrap_or_else(|_| "/verif".into()) }

// ---- running one case ------------------------------------------------------------------------------

fn stats_json(st: &Stats) -> Value {
    let outcomes: Vec<Value> = st.outcomes.iter().take(8).map(|(k, v)| json!({"outcome": k, "executions": v})).collect();
    json!({"executions": st.executions, "transitions": st.transitions, "choice_points": st.choice_points, "states": st.states, "pruned": st.pruned,
        "preempted": st.preempted_execs, "deviated": st.deviated_execs, "threads": st.max_threads, "capped": st.capped,
        "distinct_outcomes": st.outcomes.len(), "outcomes": outcomes})
}

fn run_case(c: &Case) -> Value {
    let t = Instant::now();
    let mut v = match &c.kind {
        Kind::Explore(b, f) => match { let r = mc_rt::explore(*b, &**f); mc_rt::set_virtual(false); r } {
            Err(e) => json!({"engine_error": e.0}),
            Ok((st, viol)) => {
                let mut v = json!({"kind": "explore", "stats": stats_json(&st), "bounds": format!("{b:?}")});
                if let Some(x) = viol { v["violation"] = json!({"msg": x.msg, "choices": x.choices, "trace": x.trace}); }
                v
            }
        },
        Kind::Enumerate(f) => {
            let mut e = Enum::new();
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut e)));
            mc_rt::set_virtual(false);
            if let Err(p) = r { e.fail(format!("panicked: {}", mc_rt::panic_message(&p))); }
            let mut v = json!({"kind": "enumerate", "evaluations": e.evaluations, "nontrivial": e.nontrivial, "distinct": e.distinct.len(), "samples": e.samples});
            if let Some(m) = e.violation { v["violation"] = json!({"msg": m, "choices": [], "trace": []}); }
            v
        }
    };
    v["name"] = json!(c.name);
    v["secs"] = json!(t.elapsed().as_secs_f64());
    v
}

fn budget() -> u64 { std::env::var("MC_BUDGET").ok().and_then(|x| x.parse().ok()).unwrap_or(110) }

fn claim_stdout() -> std::fs::File {
    // the protocol keeps the original stdout; anything the code under test prints goes to /dev/null
    unsafe {
        let keep = libc_dup(1);
        let null = std::fs::OpenOptions::new().write(true).open("/dev/null").unwrap();
        use std::os::fd::AsRawFd;
        libc_dup2(null.as_raw_fd(), 1);
        std::fs::File::from_raw_fd(keep)
    }
}
extern "C" {
    #[link_name = "dup"] fn libc_dup(fd: i32) -> i32;
    #[link_name = "dup2"] fn libc_dup2(a: i32, b: i32) -> i32;
}

fn worker(p: Property, tier: Tier) {
    // far beyond what any case needs: only code whose behaviours became much more numerous gets there, and the evidence then says so
    mc_rt::set_budget(tier.pick(budget(), 5000));
    let mut out = claim_stdout();
    if std::env::var("MC_LOUD").is_err() { mc_rt::quiet_panics(); }
    let stdin = std::io::stdin();
    for line in stdin.lock().lines() {
        let Ok(line) = line else { break };
        let Ok(i) = line.trim().parse::<usize>() else { break };
        let v = run_case(&p.cases[i]);
        let _ = writeln!(out, "{v}");
        let _ = out.flush();
    }
}

enum Ended { Value(Value), Crashed(String), TimedOut, Stopped }

/// a worker process serving cases one at a time
struct Worker { child: std::process::Child, rx: std::sync::mpsc::Receiver<String>, stdin: std::process::ChildStdin }
impl Worker {
    fn start(id: &str, tier: Tier, fast: bool) -> Worker {
        let exe = std::env::current_exe().unwrap();
        let twin = exe.with_file_name("mcf");
        let mut child = Command::new(if fast && twin.exists() { twin } else { exe }).args(["worker", id, tier.name()])
            .stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(if std::env::var("MC_LOUD").is_ok() { Stdio::inherit() } else { Stdio::null() }).spawn().expect("worker");
        let stdin = child.stdin.take().unwrap();
        let stdout = child.stdout.take().unwrap();
        let (tx, rx) = std::sync::mpsc::channel();
        std::thread::spawn(move || { for l in BufReader::new(stdout).lines() { let Ok(l) = l else { break }; if tx.send(l).is_err() { break } } });
        Worker { child, rx, stdin }
    }
    fn run(&mut self, i: usize, timeout: Duration, stop: &std::sync::atomic::AtomicBool) -> Ended {
        let _ = writeln!(self.stdin, "{i}");
        let _ = self.stdin.flush();
        // the limit is on the time the worker really ran, so that a busy machine makes no difference; a worker that does not run at
        // all for a long while is stuck
        let cpu0 = self.cpu();
        let (mut last, mut idle_since) = (cpu0, Instant::now());
        loop { match self.rx.recv_timeout(Duration::from_secs(1)) {
            Ok(l) => return match serde_json::from_str(&l) { Ok(v) => Ended::Value(v), Err(e) => Ended::Crashed(format!("garbled worker output: {e}")) },
            Err(std::sync::mpsc::RecvTimeoutError::Timeout) => {
                if stop.load(std::sync::atomic::Ordering::Relaxed) { return Ended::Stopped }
                let now = self.cpu();
                if now > last { last = now; idle_since = Instant::now(); }
                if now.saturating_sub(cpu0) > timeout.as_secs() * 100 || idle_since.elapsed() > Duration::from_secs(60) { let _ = self.child.kill(); let _ = self.child.wait(); return Ended::TimedOut }
            }
            Err(std::sync::mpsc::RecvTimeoutError::Disconnected) => {
                let st = self.child.wait();
                return Ended::Crashed(match st { Ok(s) => format!("{s}"), Err(e) => format!("{e}") })
            }
        } }
    }
    /// processor time the worker used so far, in 1/100 s
    fn cpu(&self) -> u64 {
        let s = std::fs::read_to_string(format!("/proc/{}/stat", self.child.id())).unwrap_or_default();
        let f: Vec<&str> = s.rsplit(')').next().unwrap_or("").split_whitespace().collect();
        f.get(11).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) + f.get(12).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0)
    }
}

// ---- verdicts --------------------------------------------------------------------------------------

struct Finding { property: String, case: String, contains: String, text: String }
fn known_findings() -> Vec<Finding> {
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(format!("{}/known-findings.txt", root())) {
        for l in s.lines() {
            // finding: property=<id> case=<case name> match=<text in the message> -- description
            if let Some(r) = l.strip_prefix("finding: ") {
                let get = |k: &str, end: &str| r.split_once(k).map(|x| x.1).and_then(|x| x.split_once(end).map(|y| y.0).or(Some(x))).unwrap_or("").to_string();
                v.push(Finding { property: get("property=", " "), case: get("case=", " match="), contains: get("match=", " -- "), text: r.to_string() });
            }
        }
    }
    v
}

fn check(id: &str, tier: Tier, lookup: fn(&str, Tier) -> Option<Property>, only: Option<String>) -> i32 {
    let start = Instant::now();
    let Some(p) = lookup(id, tier) else { eprintln!("unknown property {id}"); return 2 };
    let names: Vec<String> = p.cases.iter().map(|c| c.name.clone()).collect();
    let timeouts: Vec<u64> = p.cases.iter().map(|c| c.timeout_s * if tier == Tier::Thorough { 40 } else { 1 }).collect();
    let fast: Vec<bool> = p.cases.iter().map(|c| c.fast).collect();
    let mut idx: Vec<usize> = (0..names.len()).filter(|&i| only.as_ref().map_or(true, |o| names[i].contains(o.as_str()))).collect();
    // the longest first
    idx.sort_by_key(|&i| !fast[i]);
    let jobs = std::env::var("MC_JOBS").ok().and_then(|x| x.parse().ok()).unwrap_or(8usize).min(idx.len().max(1));
    let queue = Arc::new(Mutex::new(idx.into_iter().collect::<std::collections::VecDeque<_>>()));
    let results: Arc<Mutex<Vec<Value>>> = Arc::new(Mutex::new(vec![]));
    let errors: Arc<Mutex<Vec<String>>> = Arc::new(Mutex::new(vec![]));
    let stop = Arc::new(std::sync::atomic::AtomicBool::new(false));
    std::thread::scope(|s| {
        for _ in 0..jobs {
            let (queue, results, errors, stop) = (queue.clone(), results.clone(), errors.clone(), stop.clone());
            let (names, timeouts, fast) = (&names, &timeouts, &fast);
            s.spawn(move || {
                let mut w = Worker::start(id, tier, false);
                let mut kind = false;
                loop {
                    if stop.load(std::sync::atomic::Ordering::Relaxed) { break }
                    let Some(i) = queue.lock().unwrap().pop_front() else { break };
                    if tier == Tier::Quick && start.elapsed().as_secs() > 6 * budget() {
                        // no time left for this one
                        results.lock().unwrap().push(json!({"name": names[i], "kind": "explore", "stats": {"executions": 0, "capped": true}}));
                        continue;
                    }
                    if fast[i] != kind { let _ = w.child.kill(); let _ = w.child.wait(); kind = fast[i]; w = Worker::start(id, tier, kind); }
                    let mut r = w.run(i, Duration::from_secs(timeouts[i]), &stop);
                    if !matches!(r, Ended::Value(_) | Ended::Stopped) {
                        // confirm in a fresh process
                        w = Worker::start(id, tier, kind);
                        r = w.run(i, Duration::from_secs(timeouts[i]), &stop);
                        if !matches!(r, Ended::Value(_) | Ended::Stopped) { w = Worker::start(id, tier, kind); }
                    }
                    let v = match r {
                        Ended::Value(v) => v,
                        Ended::Stopped => break,
                        Ended::Crashed(m) => json!({"name": names[i], "kind": "explore", "violation": {"msg": format!("the code under test brought the process down: {m}"), "choices": [], "trace": []}}),
                        Ended::TimedOut => json!({"name": names[i], "kind": "explore", "violation": {"msg": format!("does not finish (gave up after {} s, twice)", timeouts[i]), "choices": [], "trace": []}}),
                    };
                    if let Some(e) = v.get("engine_error") { errors.lock().unwrap().push(format!("{}: {}", names[i], e)); }
                    if v.get("violation").is_some() && tier == Tier::Quick && only_first() { stop.store(true, std::sync::atomic::Ordering::Relaxed); }
                    results.lock().unwrap().push(v);
                }
                let _ = w.child.kill();
                let _ = w.child.wait();
            });
        }
    });
    let mut results = std::mem::take(&mut *results.lock().unwrap());
    results.sort_by_key(|v| names.iter().position(|n| n == v["name"].as_str().unwrap_or("")).unwrap_or(usize::MAX));
    let errors = errors.lock().unwrap().clone();

    // verdict
    let known = known_findings();
    let mut new = vec![];
    for v in &results {
        let Some(x) = v.get("violation") else { continue };
        let (name, msg) = (v["name"].as_str().unwrap(), x["msg"].as_str().unwrap());
        match known.iter().find(|k| k.property == id && k.case == name && msg.contains(&k.contains)) {
            Some(k) => println!("KNOWN-FINDING: {}", k.text),
            None => new.push((name.to_string(), msg.to_string(), x.clone())),
        }
    }
    let dir = format!("{}/evidence/replays", root());
    let _ = std::fs::create_dir_all(&dir);
    let mut first = true;
    for (name, msg, x) in &new {
        let file = format!("{dir}/{id}-{}.json", name.chars().map(|c| if c.is_ascii_alphanumeric() { c } else { '_' }).take(80).collect::<String>());
        let rec = json!({"property": id, "tier": tier.name(), "case": name, "message": msg, "choices": x["choices"], "trace": x["trace"]});
        let _ = std::fs::write(&file, serde_json::to_string_pretty(&rec).unwrap());
        if first || new.len() <= 5 {
            println!("  case {name}: {}", shortened(msg));
            println!("VIOLATION property={id} replay={file}");
            first = false;
        }
    }
    if only.is_none() { write_evidence(&p, tier, &results, start.elapsed(), new.len()); }
    for e in &errors { eprintln!("ENGINE ERROR {e}"); }
    let tot = |k: &str| results.iter().filter_map(|v| v["stats"][k].as_u64()).sum::<u64>();
    let ev: u64 = results.iter().filter_map(|v| v["evaluations"].as_u64()).sum();
    println!("{id} {}: {} cases, {} executions, {} states, {} transitions, {} evaluations, {} violations, {:.1} s{}", tier.name(), results.len(), tot("executions"), tot("states"), tot("transitions"), ev, new.len(), start.elapsed().as_secs_f64(),
        if results.iter().any(|v| v["stats"]["capped"] == json!(true)) { " (capped)" } else { "" });
    if std::env::var("MC_TIMES").is_ok() { for v in &results { println!("   {:8.2}s {:>10} ex {:>6} outcomes {}", v["secs"].as_f64().unwrap_or(0.0), v["stats"]["executions"].as_u64().or(v["evaluations"].as_u64()).unwrap_or(0), v["stats"]["distinct_outcomes"].as_u64().or(v["distinct"].as_u64()).unwrap_or(0), v["name"].as_str().unwrap_or("")); } }
    if !new.is_empty() { 1 } else if !errors.is_empty() { 2 } else { 0 }
}

fn shortened(m: &str) -> String {
    let c: Vec<char> = m.chars().collect();
    if c.len() < 1500 { return m.to_string() }
    format!("{} [...] {}", c[..500].iter().collect::<String>(), c[c.len() - 900..].iter().collect::<String>())
}
fn only_first() -> bool { std::env::var("MC_ALL").is_err() }

fn write_evidence(p: &Property, tier: Tier, results: &[Value], wall: Duration, violations: usize) {
    let tot = |k: &str| results.iter().filter_map(|v| v["stats"][k].as_u64()).sum::<u64>();
    let ev: u64 = results.iter().filter_map(|v| v["evaluations"].as_u64()).sum();
    let di: u64 = results.iter().filter_map(|v| v["distinct"].as_u64()).sum();
    let mut samples: Vec<Value> = vec![];
    let step = (results.len() / 12).max(1);
    for v in results.iter().step_by(step).take(16) {
        if v["kind"] == json!("enumerate") { samples.push(json!({"case": v["name"], "evaluations": v["evaluations"], "examples": v["samples"]})); }
        else { samples.push(json!({"case": v["name"], "bounds": v["bounds"], "executions": v["stats"]["executions"], "distinct_outcomes": v["stats"]["distinct_outcomes"], "outcomes": v["stats"]["outcomes"]})); }
    }
    let capped: Vec<&str> = results.iter().filter(|v| v["stats"]["capped"] == json!(true)).filter_map(|v| v["name"].as_str()).collect();
    let outcomes = tot("distinct_outcomes");
    let coverage = if p.level == "model_checking" {
        json!({"states": tot("states"), "transitions": tot("transitions"), "traces_validated_against_impl": tot("executions") + ev,
            "samples": samples, "cases": results.len(), "choice_points": tot("choice_points"), "executions_with_preemptions": tot("preempted"), "executions_with_stale_reads_or_spurious_failures": tot("deviated"),
            "distinct_outcomes": outcomes, "branches_pruned_by_state_matching": tot("pruned"), "exhaustive": capped.is_empty(), "capped_cases": capped, "rule": p.rule})
    } else {
        json!({"evaluations": tot("executions") + ev, "distinct_nontrivial": outcomes + di, "rule": p.rule, "samples": samples, "cases": results.len(), "exhaustive": capped.is_empty(), "capped_cases": capped})
    };
    let mut assumptions = p.assumptions.clone();
    if !mc_std::mc::SHIMMED { assumptions.push("DEGRADED RUN: the code under test did not build against the stand-in std; atomics, threads and the system allocator were not under the explorer's control in this run".into()); }
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let e = json!({"property": p.id, "tier": tier.name(), "seed": seed, "level": p.level, "coverage": coverage, "assumptions": assumptions, "wall_s": wall.as_secs_f64(), "violations": violations});
    let _ = std::fs::create_dir_all(format!("{}/evidence", root()));
    std::fs::write(format!("{}/evidence/{}.json", root(), p.id), serde_json::to_string_pretty(&e).unwrap()).expect("evidence");
}

fn replay(file: &str, lookup: fn(&str, Tier) -> Option<Property>) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(file).expect("replay file")).expect("json");
    let tier = if v["tier"] == json!("thorough") { Tier::Thorough } else { Tier::Quick };
    let id = v["property"].as_str().unwrap();
    let p = lookup(id, tier).expect("property");
    let c = p.cases.iter().find(|c| c.name == v["case"].as_str().unwrap()).expect("case");
    mc_rt::quiet_panics();
    let msg = match &c.kind {
        Kind::Explore(b, f) => {
            let ch: Vec<u32> = v["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect();
            match mc_rt::run_forced(*b, &ch, true, &**f) {
                Ok((m, t)) => { for l in t { println!("  {l}") } m }
                Err(e) => { eprintln!("{}", e.0); return 2 }
            }
        }
        Kind::Enumerate(_) => run_case(c)["violation"]["msg"].as_str().map(|s| s.to_string()),
    };
    match msg { Some(m) => { println!("case {}: {m}", c.name); println!("VIOLATION property={id} replay={file}"); 1 } None => { println!("holds on this replay"); 0 } }
}

pub fn main(lookup: fn(&str, Tier) -> Option<Property>) {
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).cloned().unwrap_or_default();
    let mut tier = if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") { Tier::Thorough } else { Tier::Quick };
    if let Some(i) = a.iter().position(|x| x == "--tier") { if arg(i + 1) == "thorough" { tier = Tier::Thorough } else { tier = Tier::Quick } }
    let only = a.iter().position(|x| x == "--case").map(|i| arg(i + 1));
    if !mc_std::mc::SHIMMED { mc_rt::set_uncontrolled(); }
    let code = match arg(1).as_str() {
        "check" => check(&arg(2), tier, lookup, only),
        "worker" => { let t = if arg(3) == "thorough" { Tier::Thorough } else { Tier::Quick }; worker(lookup(&arg(2), t).unwrap(), t); 0 }
        "replay" => replay(&arg(2), lookup),
        "list" => { for c in lookup(&arg(2), tier).unwrap().cases { println!("{}", c.name) } 0 }
        _ => { eprintln!("usage: mc check|replay|list"); 2 }
    };
    std::process::exit(code);
}
#[allow(dead_code)] pub type Counts = BTreeMap<String, u64>;
