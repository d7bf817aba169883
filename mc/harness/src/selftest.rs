//! `mc selftest`: the explorer against independent references, on every small program of the stated shapes.
//! * sequential consistency (with and without state matching): against a plain enumeration of interleavings
//! * relaxed memory: against an axiomatic enumeration of the release/acquire fragment of RC11 (reads-from x modification order),
//!   restricted to executions in which modification order agrees with the order of execution
use mc_rt::Bounds;
use mc_std::sync::atomic::{AtomicU64, Ordering};
use std::collections::BTreeSet;

#[derive(Clone, Copy, Debug, PartialEq)]
enum K { Load, Store, Add, Swap0 }
#[derive(Clone, Copy, Debug)]
struct Op { k: K, loc: usize, strong: bool }
type Prog = Vec<Vec<Op>>;
type Outs = BTreeSet<Vec<u64>>;

// Swap0: compare_exchange(0, val)

/// what the n-th operation of a program stores or adds
fn val(n: usize) -> u64 { 1 << (4 * n) }
fn number(p: &Prog) -> Vec<Vec<usize>> { let mut n = 0; p.iter().map(|t| t.iter().map(|_| { n += 1; n - 1 }).collect()).collect() }

fn explored(p: &Prog, b: Bounds, sc: bool) -> (Outs, u64) {
    let ids = number(p);
    let outs = std::cell::RefCell::new(Outs::new());
    let r = mc_rt::explore(b, &|| {
        let mem = [Box::new(AtomicU64::new(0)), Box::new(AtomicU64::new(0))];
        let seen = std::cell::RefCell::new(vec![0u64; ids.iter().map(|t| t.len()).sum()]);
        let hs: Vec<_> = p.iter().enumerate().map(|(t, ops)| { let (mem, seen, ids) = (&mem, &seen, &ids[t]); mc_rt::spawn(move || for (i, o) in ops.iter().enumerate() {
            let m = &mem[o.loc];
            let (l, s, a) = if sc { (Ordering::SeqCst, Ordering::SeqCst, Ordering::SeqCst) } else if o.strong { (Ordering::Acquire, Ordering::Release, Ordering::AcqRel) } else { (Ordering::Relaxed, Ordering::Relaxed, Ordering::Relaxed) };
            match o.k { K::Load => { let v = m.load(l); seen.borrow_mut()[ids[i]] = v; } K::Store => m.store(val(ids[i]), s), K::Add => { let v = m.fetch_add(val(ids[i]), a); seen.borrow_mut()[ids[i]] = v; } K::Swap0 => { let v = match m.compare_exchange(0, val(ids[i]), a, l) { Ok(v) | Err(v) => v }; seen.borrow_mut()[ids[i]] = v; } }
        }) }).collect();
        for h in hs { h.join().map_err(|_| "panicked".to_string())?; }
        let mut o = seen.into_inner();
        o.push(mem[0].load(Ordering::Relaxed)); o.push(mem[1].load(Ordering::Relaxed));
        outs.borrow_mut().insert(o);
        Ok(String::new())
    });
    let (st, v) = r.expect("engine");
    assert!(v.is_none() && !st.capped, "{v:?}");
    (outs.into_inner(), st.executions)
}

fn interleaved(p: &Prog) -> Outs {
    let ids = number(p);
    fn go(p: &Prog, ids: &[Vec<usize>], pc: &mut Vec<usize>, mem: &mut [u64; 2], seen: &mut Vec<u64>, out: &mut Outs) {
        let mut any = false;
        for t in 0..p.len() { if pc[t] < p[t].len() {
            any = true;
            let (o, id) = (p[t][pc[t]], ids[t][pc[t]]);
            let (m0, s0) = (*mem, seen[id]);
            match o.k { K::Load => seen[id] = mem[o.loc], K::Store => mem[o.loc] = val(id), K::Add => { seen[id] = mem[o.loc]; mem[o.loc] += val(id); } K::Swap0 => { seen[id] = mem[o.loc]; if seen[id] == 0 { mem[o.loc] = val(id); } } }
            pc[t] += 1; go(p, ids, pc, mem, seen, out); pc[t] -= 1;
            *mem = m0; seen[id] = s0;
        } }
        if !any { let mut o = seen.clone(); o.extend(*mem); out.insert(o); }
    }
    let mut out = Outs::new();
    go(p, &ids, &mut vec![0; p.len()], &mut [0; 2], &mut vec![0; ids.iter().map(|t| t.len()).sum()], &mut out);
    out
}

/// RC11 without fences & SC: coherence, atomicity and -- as the explorer executes operations in program order & places every store last --
/// acyclic (program order U reads-from U modification order): neither load buffering nor stores overtaken by later ones
fn axiomatic(p: &Prog) -> Outs {
    #[derive(Clone, Copy)] struct E { k: K, loc: usize, strong: bool, t: usize, id: usize }
    // events 0 & 1 initialise
    let mut ev: Vec<E> = (0..2).map(|l| E { k: K::Store, loc: l, strong: false, t: 99, id: 99 }).collect();
    let ids = number(p);
    for (t, ops) in p.iter().enumerate() { for (i, o) in ops.iter().enumerate() { ev.push(E { k: o.k, loc: o.loc, strong: o.strong, t, id: ids[t][i] }); } }
    let n = ev.len();
    let may_write: Vec<Vec<usize>> = (0..2).map(|l| (0..n).filter(|e| ev[*e].loc == l && ev[*e].k != K::Load).collect()).collect();
    let reads: Vec<usize> = (2..n).filter(|e| ev[*e].k != K::Store).collect();
    fn perms(v: &[usize]) -> Vec<Vec<usize>> { if v.is_empty() { return vec![vec![]] } let mut r = vec![]; for i in 0..v.len() { let mut rest = v.to_vec(); let x = rest.remove(i); for mut q in perms(&rest) { q.insert(0, x); r.push(q); } } r }
    let mut out = Outs::new();
    let closure = |r: &mut Vec<Vec<bool>>| for k in 0..n { for i in 0..n { if r[i][k] { for j in 0..n { if r[k][j] { r[i][j] = true } } } } };
    let sb = |a: usize, b: usize| a < 2 && b >= 2 || a >= 2 && b > a && ev[a].t == ev[b].t;
    let choices: Vec<Vec<usize>> = reads.iter().map(|r| may_write[ev[*r].loc].iter().copied().filter(|w| w != r).collect()).collect();
    let given = ev.clone();
    let mut idx = vec![0usize; reads.len()];
    'rf: loop {
        let rf: std::collections::HashMap<usize, usize> = reads.iter().enumerate().map(|(i, r)| (*r, choices[i][idx[i]])).collect();
        // a compare_exchange(0) writes iff it reads the initial value (nothing stores 0 again), and is a mere load otherwise
        let ev: Vec<E> = given.iter().enumerate().map(|(i, e)| E { k: if e.k == K::Swap0 { if rf[&i] < 2 { K::Swap0 } else { K::Load } } else { e.k }, ..*e }).collect();
        let mos: Vec<Vec<Vec<usize>>> = (0..2).map(|l| { let w: Vec<usize> = may_write[l].iter().copied().filter(|e| ev[*e].k != K::Load).collect(); perms(&w[1..]).into_iter().map(|mut q| { q.insert(0, l); q }).collect() }).collect();
        let updates = |e: usize| matches!(ev[e].k, K::Add | K::Swap0);
        // no thin air
        let mut po = vec![vec![false; n]; n];
        for a in 0..n { for b in 0..n { po[a][b] = sb(a, b) || rf.get(&b) == Some(&a); } }
        closure(&mut po);
        if (0..n).all(|e| !po[e][e]) && rf.values().all(|w| ev[*w].k != K::Load) {
            // values
            let mut order: Vec<usize> = (0..n).collect();
            order.sort_by_key(|e| (0..n).filter(|x| po[*x][*e]).count());
            let (mut stored, mut seen) = (vec![0u64; n], vec![0u64; n - 2]);
            for e in order { if e < 2 { continue } let v = rf.get(&e).map_or(0, |w| stored[*w]); if ev[e].k != K::Store { seen[ev[e].id] = v; } stored[e] = match ev[e].k { K::Store => val(ev[e].id), K::Add | K::Swap0 => v + val(ev[e].id), K::Load => 0 }; }
            // happens-before: a release write, and the chain of RMWs reading from it, synchronises with acquiring reads
            let mut hb = vec![vec![false; n]; n];
            for a in 0..n { for b in 0..n { hb[a][b] = sb(a, b); } }
            for r in &reads { if ev[*r].strong {
                let mut w = rf[r];
                loop { if w >= 2 && ev[w].strong { hb[w][*r] = true; } if w >= 2 && updates(w) { w = rf[&w]; } else { break } }
            } }
            closure(&mut hb);
            for m0 in &mos[0] { for m1 in &mos[1] {
                let mut place = vec![0usize; n];
                for m in [m0, m1] { for (i, w) in m.iter().enumerate() { place[*w] = i; } }
                let mo = |a: usize, b: usize| ev[a].k != K::Load && ev[b].k != K::Load && ev[a].loc == ev[b].loc && place[a] < place[b];
                let mut eco = vec![vec![false; n]; n];
                for a in 0..n { for b in 0..n { eco[a][b] = mo(a, b) || rf.get(&b) == Some(&a) || (a != b && rf.get(&a).map_or(false, |w| mo(*w, b))); } }
                // the explorer's own restriction: modification order is the order of execution
                let mut run = vec![vec![false; n]; n];
                for a in 0..n { for b in 0..n { run[a][b] = sb(a, b) || rf.get(&b) == Some(&a) || mo(a, b); } }
                closure(&mut run);
                if (0..n).any(|e| run[e][e]) { continue }
                if reads.iter().any(|r| updates(*r) && place[*r] != place[rf[r]] + 1) { continue }
                closure(&mut eco);
                if (0..n).any(|a| hb[a][a] || (0..n).any(|b| hb[a][b] && eco[b][a])) { continue }
                let mut o = seen.clone();
                o.push(stored[*m0.last().unwrap()]); o.push(stored[*m1.last().unwrap()]);
                out.insert(o);
            } }
        }
        for i in 0..idx.len() { idx[i] += 1; if idx[i] < choices[i].len() { continue 'rf } idx[i] = 0; }
        break;
    }
    out
}

/// every program of that shape over these operations, in parallel
fn programs(shape: &[usize], alphabet: &[Op], judge: impl Fn(&Prog) -> Result<u64, String> + Sync) -> (u64, u64) {
    let total = (alphabet.len() as u64).pow(shape.iter().sum::<usize>() as u32);
    let next = std::sync::atomic::AtomicU64::new(0);
    let execs = std::sync::atomic::AtomicU64::new(0);
    std::thread::scope(|s| for _ in 0..8 { s.spawn(|| loop {
        let from = next.fetch_add(64, std::sync::atomic::Ordering::Relaxed);
        if from >= total { return }
        for c in from..(from + 64).min(total) {
            let mut c = c;
            let p: Prog = shape.iter().map(|n| (0..*n).map(|_| { let o = alphabet[(c % alphabet.len() as u64) as usize]; c /= alphabet.len() as u64; o }).collect()).collect();
            match judge(&p) { Ok(n) => { execs.fetch_add(n, std::sync::atomic::Ordering::Relaxed); } Err(m) => { eprintln!("SELFTEST FAILED {m}\n  {p:?}"); std::process::exit(1) } }
        }
    }); });
    (total, execs.into_inner())
}

pub fn run() -> i32 {
    let ops = |strong: &[bool], locs: &[usize]| -> Vec<Op> { let mut v = vec![]; for k in [K::Load, K::Store, K::Add, K::Swap0] { for l in locs { for s in strong { v.push(Op { k, loc: *l, strong: *s }); } } } v };
    let same = |what: &str, a: &Outs, b: &Outs| if a == b { Ok(()) } else { Err(format!("{what}: only explored {:x?}, only expected {:x?}", a.difference(b).collect::<Vec<_>>(), b.difference(a).collect::<Vec<_>>())) };
    let all = u32::MAX;
    for shape in [vec![2usize, 2], vec![3, 2], vec![2, 1, 1], vec![2, 2, 1], vec![1, 1, 1, 1]] {
        let (n, e) = programs(&shape, &ops(&[false], &[0, 1]), |p| {
            let want = interleaved(p);
            let mut execs = 0;
            for (name, b) in [("state matching", Bounds::full()), ("state matching, points after operations", Bounds::full().post()), ("no state matching", Bounds::sc(all))] {
                if !b.prune && (p.len() > 3 || shape == [2, 2, 1]) { continue }
                if b.post_points && p.iter().map(|t| t.len()).sum::<usize>() > 5 { continue }
                let (got, n) = explored(p, b, true);
                execs += n;
                same(name, &got, &want)?;
            }
            Ok(execs)
        });
        println!("sequential consistency, threads of {shape:?} operations: {n} programs, {e} executions: outcomes as enumerated");
    }
    for shape in [vec![1usize, 1], vec![2, 1], vec![2, 2]] {
        let (n, e) = programs(&shape, &ops(&[false], &[0, 1]), |p| { let (got, n) = explored(p, Bounds::weak(all, all), true); same("SeqCst under the relaxed model", &got, &interleaved(p))?; Ok(n) });
        println!("SeqCst operations under the relaxed model, threads of {shape:?} operations: {n} programs, {e} executions: outcomes as enumerated");
    }
    for (shape, alpha) in [(vec![2usize, 2], ops(&[false, true], &[0, 1])), (vec![3, 2], ops(&[true], &[0, 1])), (vec![2, 1, 1], ops(&[true], &[0, 1])), (vec![2, 1, 1], ops(&[false], &[0, 1])), (vec![2, 2, 1], vec![Op { k: K::Load, loc: 0, strong: true }, Op { k: K::Store, loc: 0, strong: true }, Op { k: K::Store, loc: 1, strong: false }, Op { k: K::Swap0, loc: 0, strong: true }])] {
        let (n, e) = programs(&shape, &alpha, |p| { let (got, n) = explored(p, Bounds::weak(all, all), false); same("relaxed model", &got, &axiomatic(p))?; Ok(n) });
        println!("release/acquire & relaxed operations, threads of {shape:?} operations: {n} programs, {e} executions: outcomes as the axioms admit");
    }
    0
}
