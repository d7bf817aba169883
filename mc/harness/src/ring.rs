//! C01-C04: the ring buffer.
use crate::frame::*;
use big_o_test::metrics_allocator::ring_buffer::{RingBuffer, RingBufferConsumer};
use mc_rt::Bounds;
use std::cell::RefCell;
use std::rc::Rc;

// ---- C01 -------------------------------------------------------------------------------------------

/// an element that shows when it is torn or was never written
#[repr(C)]
#[derive(Clone, Copy)]
struct El { a: u64, b: u64, c: u64 }
const K: u64 = 0x9E37_79B9_7F4A_7C15;
fn el(id: u64) -> El { let a = (id + 1).wrapping_mul(K) | 1; El { a, b: !a, c: a.rotate_left(17) ^ (id + 1) } }
fn id_of(e: &El) -> Option<u64> { if e.b != !e.a { return None; } let id = (e.c ^ e.a.rotate_left(17)).wrapping_sub(1); if el(id).a == e.a { Some(id) } else { None } }

#[derive(Clone, Copy, PartialEq, Debug)]
enum Op { E, D(u8), P(u8), N, M }
fn op_name(o: &Op) -> String { match o { Op::E => "E".into(), Op::D(c) => format!("D{c}"), Op::P(c) => format!("P{c}"), Op::N => "N".into(), Op::M => "M".into() } }

#[derive(Clone, Debug)]
struct Scn { cap: usize, pre: usize, out: usize, consumers: usize, threads: Vec<Vec<Op>>, overflow: bool }
impl Scn {
    fn name(&self) -> String {
        format!("cap{}{} wrap{} out{} {}", self.cap, if self.overflow { "!" } else { "" }, self.pre, self.out, self.threads.iter().map(|t| t.iter().map(op_name).collect::<Vec<_>>().join(".")).collect::<Vec<_>>().join(" | "))
    }
}

#[derive(Clone, Debug)]
enum Res { Enq(u64), Deq(u8, Option<u64>), Peek(u8, Vec<u64>), New(usize, Option<(Vec<u64>, Option<u64>)>), NewOverflow, Overflow(u8) }
#[derive(Clone)]
struct Ev { tid: usize, start: u64, end: u64, stamp0: (usize, u32), stamp: (usize, u32), known: Vec<u64>, known_deq: Vec<usize>, res: Res }

struct World { events: Vec<Ev>, clock: u64, started_enq: Vec<(u64, u64)>, next_id: u64, certain: Vec<(u8, u64)> }

static S1: RingBuffer<El, 1> = RingBuffer::new();
static S2: RingBuffer<El, 2> = RingBuffer::new();
static S3: RingBuffer<El, 3> = RingBuffer::new();
static S4: RingBuffer<El, 4> = RingBuffer::new();
static S5: RingBuffer<El, 5> = RingBuffer::new();
static S8: RingBuffer<El, 8> = RingBuffer::new();
/// a new ring whose unused memory has the same content (zeros) in every execution
fn fresh<const N: usize>() -> Box<RingBuffer<El, N>> {
    let src = match N { 1 => &raw const S1 as *const u8, 2 => &raw const S2 as *const u8, 3 => &raw const S3 as *const u8, 4 => &raw const S4 as *const u8, 5 => &raw const S5 as *const u8, _ => &raw const S8 as *const u8 };
    let mut b = Box::new(std::mem::MaybeUninit::<RingBuffer<El, N>>::uninit());
    unsafe {
        std::ptr::copy_nonoverlapping(src, b.as_mut_ptr() as *mut u8, std::mem::size_of::<RingBuffer<El, N>>());
        Box::from_raw(Box::into_raw(b) as *mut RingBuffer<El, N>)
    }
}

fn ring_world<const N: usize>(s: &Scn, weak: bool) -> Result<String, String> {
    let ring = fresh::<N>();
    mc_rt::watch(&*ring as *const _ as *const u8, std::mem::size_of::<RingBuffer<El, N>>());
    let obs = Box::new(ring.consumer());
    let cons: Vec<Box<RingBufferConsumer<El, N>>> = (0..s.consumers).map(|_| Box::new(ring.consumer())).collect();
    let w = RefCell::new(World { events: vec![], clock: 0, started_enq: vec![], next_id: 0, certain: vec![] });
    // the past: `pre` elements came and went
    for _ in 0..s.pre {
        let id = { let mut w = w.borrow_mut(); w.next_id += 1; w.next_id - 1 };
        ring.enqueue(el(id));
        for c in cons.iter().chain(std::iter::once(&obs)) {
            match c.dequeue() { Ok(Some(e)) if id_of(e) == Some(id) => {}, _ => return Err(format!("set-up: element {id} not delivered")) }
        }
    }
    let first = w.borrow().next_id;
    // elements waiting when the threads start
    for _ in 0..s.out { let id = { let mut w = w.borrow_mut(); w.next_id += 1; w.next_id - 1 }; ring.enqueue(el(id)); }
    let base_out: Vec<u64> = (first..first + s.out as u64).collect();
    let newcons: RefCell<Vec<(usize, Box<RingBufferConsumer<El, N>>)>> = RefCell::new(vec![]);

    let run = |tid: usize, ops: &[Op]| {
        for op in ops {
            mc_rt::op();
            let (start, known, known_deq) = {
                let mut w = w.borrow_mut();
                w.clock += 1;
                let known: Vec<u64> = w.events.iter().filter_map(|e| match e.res { Res::Enq(id) if !weak || mc_rt::hb(e.stamp) => Some(id), _ => None }).collect();
                let known_deq: Vec<usize> = w.events.iter().enumerate().filter(|(_, e)| matches!(e.res, Res::Deq(_, Some(_))) && (!weak || mc_rt::hb(e.stamp))).map(|(i, _)| i).collect();
                (w.clock, known, known_deq)
            };
            let stamp0 = mc_rt::stamp();
            let take = |e: &El| -> u64 {
                let id = id_of(e);
                mc_rt::trace(|| format!("gets element {id:?}"));
                match id { None => mc_rt::fail("an element came out torn or before it was written"), Some(id) => { if !mc_rt::visible(e as *const El as *const u8, std::mem::size_of::<El>()) { mc_rt::fail(format!("element {id} was handed to a thread for which its contents are not guaranteed to be visible (data race)")) } id } }
            };
            let res = match *op {
                Op::E => {
                    let id = { let mut w = w.borrow_mut(); let id = w.next_id; w.next_id += 1; let c = w.clock; w.started_enq.push((id, c)); id };
                    mc_rt::note_local(id);
                    mc_rt::trace(|| format!("enqueue({id})"));
                    ring.enqueue(el(id));
                    Res::Enq(id)
                }
                Op::D(c) => {
                    mc_rt::trace(|| format!("dequeue(c{c})"));
                    match cons[c as usize].dequeue() {
                        Ok(None) => Res::Deq(c, None),
                        // (the slot of an element delivered may be taken over right away, if so many enqueues are going on)
                        Ok(Some(e)) => {
                            let safe = !s.overflow || { let w = w.borrow(); let done = w.events.iter().filter(|e| matches!(e.res, Res::Deq(x, Some(_)) if x == c)).count() as u64; w.next_id <= s.cap as u64 + first + done };
                            if safe { let id = take(e); if s.overflow { w.borrow_mut().certain.push((c, id)); } Res::Deq(c, Some(id)) } else { Res::Deq(c, Some(id_of(e).unwrap_or(u64::MAX))) }
                        }
                        Err(_) => Res::Overflow(c),
                    }
                }
                Op::P(c) => {
                    mc_rt::trace(|| format!("peek(c{c})"));
                    match cons[c as usize].peek_all() {
                        Ok(sl) => if s.overflow { Res::Peek(c, sl.iter().flat_map(|x| x.iter()).filter_map(id_of).collect()) } else { Res::Peek(c, sl.iter().flat_map(|x| x.iter()).map(take).collect()) },
                        Err(_) => Res::Overflow(c),
                    }
                }
                Op::N => {
                    mc_rt::trace(|| "consumer()".into());
                    let k = Box::new(ring.consumer());
                    let mut n = newcons.borrow_mut();
                    n.push((0, k));
                    Res::New(n.len() - 1, None)
                }
                // a new consumer, put to use at once
                Op::M => {
                    mc_rt::trace(|| "consumer(), peek & dequeue on it".into());
                    let k = Box::new(ring.consumer());
                    let peeked = k.peek_all().map(|sl| sl.iter().flat_map(|x| x.iter()).map(take).collect::<Vec<u64>>());
                    let got = k.dequeue().map(|e| e.map(take));
                    let mut n = newcons.borrow_mut();
                    n.push((0, k));
                    match (peeked, got) { (Ok(p), Ok(g)) => Res::New(n.len() - 1, Some((p, g))), _ => Res::NewOverflow }
                }
            };
            mc_rt::trace(|| format!("  returns {res:?}"));
            let mut w = w.borrow_mut();
            w.clock += 1;
            let end = w.clock;
            let stamp = mc_rt::stamp();
            mc_rt::note(mc_rt::hash::hash_bytes(format!("{tid}{res:?}{known:?}{}", w.events.len()).as_bytes()));
            w.events.push(Ev { tid, start, end, stamp0, stamp, known, known_deq, res });
        }
    };
    let handles: Vec<_> = s.threads.iter().enumerate().map(|(i, ops)| { let run = &run; mc_rt::spawn(move || run(i + 1, ops)) }).collect();
    for h in handles { if let Err(p) = h.join() { return Err(format!("panicked: {}", mc_rt::panic_message(&p))); } }

    let w = w.into_inner();
    let drain = |c: &RingBufferConsumer<El, N>, max: usize| -> Result<Vec<u64>, String> {
        let mut v = vec![];
        loop {
            mc_rt::op();
            match c.dequeue() {
                Ok(None) => return Ok(v),
                Ok(Some(e)) => { let id = id_of(e).ok_or("an element came out torn or before it was written")?; v.push(id); if v.len() > max { return Err(format!("more elements than were enqueued came out: {v:?}")); } }
                Err(e) => return Err(format!("overflow reported although no more than the capacity is outstanding: {e}")),
            }
        }
    };
    let mut results: Vec<String> = vec![];
    for t in 0..s.threads.len() { results.push(w.events.iter().filter(|e| e.tid == t + 1).map(|e| format!("{:?}", e.res)).collect::<Vec<_>>().join(",")); }
    let outcome = results.join(" | ");
    if s.overflow {
        // what is left once everything settled: the overflown stay so for good, everybody else goes on
        let total = s.out + w.events.iter().filter(|e| matches!(e.res, Res::Enq(_))).count();
        for (c, k) in cons.iter().enumerate() {
            let told = w.events.iter().any(|e| matches!(e.res, Res::Overflow(x) if x as usize == c));
            let got = w.events.iter().filter(|e| matches!(e.res, Res::Deq(x, Some(_)) if x as usize == c)).count();
            if told || total - got > s.cap {
                mc_rt::op();
                if k.dequeue().is_ok() || k.peek_all().is_ok() || k.dequeue().is_ok() { return Err(format!("consumer {c} {} (capacity {}), but it goes on without an error (threads got {outcome})", if told { "reported an overflow".into() } else { format!("got {got} of {total} elements") }, s.cap)); }
            }
        }
        for (c, id) in &w.certain {
            if *id < first { return Err(format!("consumer {c} delivered {id} again (threads got {outcome})")); }
            if w.certain.iter().filter(|x| **x == (*c, *id)).count() > 1 { return Err(format!("consumer {c} delivered {id} twice (threads got {outcome})")); }
        }
        // consumers created on the way
        let enq: Vec<&Ev> = w.events.iter().filter(|e| matches!(e.res, Res::Enq(_))).collect();
        let mut lists: Vec<Vec<u64>> = vec![];
        for e in &w.events {
            let Res::New(i, _) = e.res else { continue };
            let n = newcons.borrow();
            let k = &n[i].1;
            let possible: Vec<u64> = w.started_enq.iter().map(|x| x.0).filter(|id| !e.known.contains(id)).collect();
            let after: Vec<u64> = enq.iter().filter(|x| x.start > e.end && (!weak || x.tid == e.tid)).filter_map(|x| if let Res::Enq(id) = x.res { Some(id) } else { None }).collect();
            let peeked = k.peek_all().map(|sl| sl.iter().flat_map(|x| x.iter()).map(|e| if mc_rt::visible(e as *const El as *const u8, std::mem::size_of::<El>()) { id_of(e) } else { None }).collect::<Option<Vec<u64>>>());
            let mut got = vec![];
            let end = loop {
                mc_rt::op();
                match k.dequeue() {
                    Ok(None) => break Ok(()),
                    Ok(Some(e)) => { got.push(if mc_rt::visible(e as *const El as *const u8, std::mem::size_of::<El>()) { id_of(e) } else { None }); if got.len() > s.cap { return Err(format!("a consumer created on the way goes on delivering: {got:?} (capacity {})", s.cap)); } }
                    Err(e) => break Err(e),
                }
            };
            let txt = || format!("a consumer created on the way (capacity {}, threads got {outcome})", s.cap);
            match (peeked, end) {
                (Err(_), Err(_)) if got.is_empty() => { if possible.len() <= s.cap { return Err(format!("{} reports an overflow although no more than {} elements came after it", txt(), possible.len())); } continue; }
                (Ok(p), Ok(())) => {
                    let (Some(p), Some(got)) = (p, got.into_iter().collect::<Option<Vec<u64>>>()) else { return Err(format!("{} delivers an element torn, or not visible", txt())) };
                    if p != got { return Err(format!("{} peeks {p:?} and then delivers {got:?}", txt())); }
                    if after.len() > s.cap { return Err(format!("{} reports no overflow after {} elements", txt(), after.len())); }
                    if let Some(id) = got.iter().find(|id| !possible.contains(id)) { return Err(format!("{} delivers {id}, enqueued before it was created", txt())); }
                    if got.iter().any(|id| got.iter().filter(|x| *x == id).count() > 1) { return Err(format!("{} delivers {got:?}", txt())); }
                    if let Some(id) = after.iter().find(|id| !got.contains(id)) { return Err(format!("{} does not deliver {id}, enqueued after it was created, but {got:?}", txt())); }
                    for x in &enq { for y in &enq {
                        let (Res::Enq(a), Res::Enq(b)) = (&x.res, &y.res) else { unreachable!() };
                        let before = x.end < y.start && (!weak || x.tid == y.tid || y.known.contains(a));
                        let (p, q) = (got.iter().position(|x| x == a), got.iter().position(|x| x == b));
                        if before && p.is_some() && q.is_some() && p > q { return Err(format!("{} delivers {got:?}, although {a} was enqueued before {b}", txt())); }
                        if before && p.is_some() && q.is_none() { return Err(format!("{} delivers {got:?}, but not {b}, enqueued after {a}", txt())); }
                    } }
                    lists.push(got);
                }
                (p, e) => return Err(format!("{} peeks {p:?} but dequeueing gives {got:?} and {e:?}", txt())),
            }
        }
        for a in &lists { for b in &lists { if !a.ends_with(b) && !b.ends_with(a) { return Err(format!("two consumers created on the way deliver {a:?} and {b:?} (threads got {outcome})")); } } }
        let k = ring.consumer();
        for round in 0..2 * s.cap as u64 + 1 {
            ring.enqueue(el(7_000 + round));
            match k.dequeue() { Ok(Some(e)) if id_of(e) == Some(7_000 + round) => {}, Ok(e) => return Err(format!("after an overflow of others, a new consumer got {:?} (threads got {outcome})", e.map(id_of))), Err(e) => return Err(format!("after an overflow of others, a new consumer reports {e} (threads got {outcome})")) }
        }
        return Ok(outcome);
    }

    // publication order, as seen by a consumer that was there from the start
    let total = (w.next_id - first) as usize;
    let l = drain(&obs, total)?;
    let pos = |id: u64| l.iter().position(|x| *x == id);
    let mut sorted = l.clone(); sorted.sort();
    if sorted != (first..w.next_id).collect::<Vec<_>>() { return Err(format!("an independent consumer saw {l:?} instead of each of {first}..{} once", w.next_id)); }
    if !l.starts_with(&base_out) { return Err(format!("elements enqueued before the threads started do not come first: {l:?}")); }
    let enq: Vec<&Ev> = w.events.iter().filter(|e| matches!(e.res, Res::Enq(_))).collect();
    for x in &enq { for y in &enq {
        let (Res::Enq(a), Res::Enq(b)) = (&x.res, &y.res) else { unreachable!() };
        let before = x.end < y.start && (!weak || x.tid == y.tid || y.known.contains(a));
        if before && pos(*a) > pos(*b) { return Err(format!("element {a} was enqueued before {b} but comes out after it: {l:?}")); }
    } }
    for c in 0..s.consumers as u8 {
        let deqs: Vec<(usize, &Ev, u64)> = w.events.iter().enumerate().filter_map(|(i, e)| match e.res { Res::Deq(k, Some(id)) if k == c => Some((i, e, id)), _ => None }).collect();
        let rest = drain(&cons[c as usize], total)?;
        let mut all: Vec<u64> = deqs.iter().map(|d| d.2).collect();
        all.extend(&rest);
        let mut so = all.clone(); so.sort();
        if so != sorted { return Err(format!("consumer {c} delivered {all:?} in all, instead of each of {l:?} exactly once")); }
        if rest != l[l.len() - rest.len()..] { return Err(format!("consumer {c} delivered {:?} to its threads and then {rest:?}, out of queue order {l:?}", deqs.iter().map(|d| d.2).collect::<Vec<_>>())); }
        for (i, x, a) in &deqs { for (_, y, b) in &deqs {
            let before = x.end < y.start && (!weak || x.tid == y.tid || y.known_deq.contains(i));
            if before && pos(*a) > pos(*b) { return Err(format!("consumer {c} delivered {b} after {a}, against queue order {l:?}")); }
        } }
        for e in &w.events {
            let done_deqs = deqs.iter().filter(|(i, d, _)| d.end < e.start && e.known_deq.contains(i)).count();
            let begun_deqs = deqs.iter().filter(|(_, d, _)| d.start < e.end).count();
            let must = s.out.max(e.known.iter().filter_map(|id| pos(*id)).map(|p| p + 1).max().unwrap_or(0));
            match &e.res {
                Res::Deq(k, None) if *k == c => if must > begun_deqs { return Err(format!("consumer {c} was told there is nothing to dequeue while {} elements were waiting", must - begun_deqs)); },
                Res::Peek(k, v) if *k == c => {
                    if v.is_empty() { if must > begun_deqs { return Err(format!("consumer {c} peeked nothing while {} elements were waiting", must - begun_deqs)); } continue; }
                    let Some(h) = pos(v[0]) else { return Err(format!("peek showed element {} that is not in the queue", v[0])) };
                    if h + v.len() > l.len() || l[h..h + v.len()] != v[..] { return Err(format!("peek on consumer {c} showed {v:?}, which is not a run of the queue {l:?}")); }
                    if h < done_deqs { return Err(format!("peek on consumer {c} showed {v:?}, including elements already delivered (queue {l:?}, {done_deqs} delivered)")); }
                    if h > begun_deqs { return Err(format!("peek on consumer {c} showed {v:?}, leaving out elements nobody dequeued (queue {l:?})")); }
                    if h + v.len() < must { return Err(format!("peek on consumer {c} showed {v:?}, leaving out elements already enqueued (queue {l:?})")); }
                    if let Some(id) = v.iter().find(|id| w.started_enq.iter().any(|(x, t)| x == *id && *t > e.end)) { return Err(format!("peek showed {id} before it was enqueued")); }
                }
                Res::Overflow(k) if *k == c => return Err(format!("consumer {c}: overflow reported although no more than the capacity is outstanding")),
                _ => {}
            }
        }
    }
    for e in &w.events {
        if let Res::NewOverflow = e.res { return Err("a new consumer reported an overflow although no more than the capacity is outstanding".into()); }
        if let Res::New(i, used) = &e.res {
            let n = newcons.borrow();
            let mut got = drain(&n[*i].1, total)?;
            if let Some((_, Some(id))) = used { got.insert(0, *id); }
            if let Some((peeked, first)) = used {
                if !got.starts_with(peeked) { return Err(format!("a new consumer peeked {peeked:?} and then delivered {got:?}")); }
                if first.is_none() && !peeked.is_empty() { return Err(format!("a new consumer peeked {peeked:?}, but had nothing to dequeue")); }
                if let Some(id) = peeked.iter().chain(first).find(|id| w.started_enq.iter().any(|(x, t)| x == *id && *t > e.end)) { return Err(format!("a new consumer showed {id} before it was enqueued")); }
            }
            let from = l.len() - got.len().min(l.len());
            if got != l[from..] { return Err(format!("a consumer created on the way delivered {got:?}, not the end of the queue {l:?}")); }
            let min = s.out.max(e.known.iter().filter_map(|id| pos(*id)).map(|p| p + 1).max().unwrap_or(0));
            if from < min { return Err(format!("a new consumer delivered {got:?}, including elements enqueued before it was created")); }
            for x in &enq {
                let Res::Enq(a) = x.res else { unreachable!() };
                let after = if weak { x.tid == e.tid && x.start > e.end } else { x.start > e.end };
                if after && pos(a).unwrap() < from { return Err(format!("element {a}, enqueued after a consumer was created, was not delivered by it")); }
            }
        }
    }
    let _ = w.events.iter().map(|e| e.stamp0).count();
    Ok(outcome)
}

fn ring_run(s: &Scn, weak: bool) -> Result<String, String> {
    match s.cap { 1 => ring_world::<1>(s, weak), 2 => ring_world::<2>(s, weak), 3 => ring_world::<3>(s, weak), 4 => ring_world::<4>(s, weak), 5 => ring_world::<5>(s, weak), _ => ring_world::<8>(s, weak) }
}

fn scripts(alpha: &[Op], max: usize) -> Vec<Vec<Op>> {
    let mut out: Vec<Vec<Op>> = vec![];
    let mut level: Vec<Vec<Op>> = vec![vec![]];
    for _ in 0..max {
        let mut next = vec![];
        for s in &level { for a in alpha { let mut t = s.clone(); t.push(*a); next.push(t); } }
        out.extend(next.clone());
        level = next;
    }
    out
}

pub fn c01(tier: Tier) -> Property {
    let mut p = Property::new("C01", "model_checking", "every schedule within the preemption bound and every stale read / spurious failure within the deviation bound, of every combination of thread scripts up to the stated length; an execution counts as one trace of the real code; distinct outcomes are the combinations of results the threads got");
    p.assume("memory model: C11 release/acquire views without load buffering (a read never sees a write that is later in the execution)");
    let enqs = |t: &Vec<Vec<Op>>| t.iter().flatten().filter(|o| **o == Op::E).count();
    let mut scns: Vec<(Scn, &'static str)> = vec![];
    // every pair of scripts up to two operations, over one shared consumer
    let sc = scripts(&[Op::E, Op::D(0), Op::P(0), Op::N], 2);
    for (i, a) in sc.iter().enumerate() {
        for b in &sc[i..] {
            let t = vec![a.clone(), b.clone()];
            let e = enqs(&t);
            if e == 0 && !t.iter().flatten().any(|o| matches!(o, Op::D(_))) { continue; }
            for out in 0..=2usize {
                if e + out == 0 || e + out > 4 { continue; }
                if out == 2 && e > 1 { continue; }
                let cap = (e + out).max(1);
                let pre = if (i + out) % 2 == 0 { 0 } else { cap - 1 };
                scns.push((Scn { cap, pre, out, consumers: 1, threads: t.clone(), overflow: false }, "pair"));
            }
        }
    }
    use Op::*;
    let tri: Vec<Vec<Vec<Op>>> = vec![
        vec![vec![E], vec![E], vec![E]], vec![vec![E], vec![E], vec![D(0)]], vec![vec![E], vec![D(0)], vec![D(0)]], vec![vec![D(0)], vec![D(0)], vec![D(0)]],
        vec![vec![E], vec![E], vec![P(0)]], vec![vec![E], vec![D(0)], vec![P(0)]], vec![vec![D(0)], vec![D(0)], vec![P(0)]], vec![vec![E], vec![D(0)], vec![D(1)]],
        vec![vec![E], vec![E], vec![N]], vec![vec![E], vec![D(0)], vec![P(1)]], vec![vec![E, E], vec![D(0)], vec![D(0)]], vec![vec![E], vec![D(0), D(0)], vec![D(0)]],
        vec![vec![E, D(0)], vec![E, D(0)], vec![E]], vec![vec![E, E], vec![D(0), D(0)], vec![D(1), P(1)]], vec![vec![E], vec![E], vec![D(0), P(0)]], vec![vec![E], vec![D(0)], vec![P(0), P(0)]],
    ];
    let newly: Vec<Vec<Vec<Op>>> = vec![vec![vec![E], vec![M]], vec![vec![E, E], vec![M]], vec![vec![E], vec![M, M]], vec![vec![E], vec![E, M]], vec![vec![D(0), E], vec![M]], vec![vec![M], vec![M]], vec![vec![E, M], vec![E, M]]];
    for t in &newly { for out in 0..=2usize {
        if enqs(t) + out == 0 { continue; }
        let cap = enqs(t) + out;
        for pre in [0, cap - 1, cap, 2 * cap + 1] { scns.push((Scn { cap, pre, out, consumers: 1, threads: t.clone(), overflow: false }, "new")); }
    } }
    for t in [vec![vec![E], vec![E], vec![M]], vec![vec![E], vec![D(0)], vec![M]], vec![vec![E], vec![E, M], vec![P(0)]], vec![vec![E], vec![M], vec![M]]] { for out in 0..=1usize {
        let cap = enqs(&t) + out;
        for pre in [0, cap + 1] { scns.push((Scn { cap, pre, out, consumers: 1, threads: t.clone(), overflow: false }, "tri")); }
    } }
    for t in &tri {
        for out in 0..=2usize {
            let e = enqs(t);
            if e + out == 0 || e + out > 4 { continue; }
            let cap = e + out;
            for pre in [0, cap - 1] { scns.push((Scn { cap, pre, out, consumers: 2, threads: t.clone(), overflow: false }, "tri")); }
        }
    }
    for t in [[vec![E], vec![E], vec![D(0)], vec![D(0)]], [vec![E], vec![E], vec![E], vec![D(0)]], [vec![E], vec![E], vec![D(0)], vec![P(0)]], [vec![E], vec![D(0)], vec![D(0)], vec![D(0)]], [vec![E], vec![D(0)], vec![D(1)], vec![P(0)]], [vec![E], vec![E], vec![N], vec![D(0)]]] {
        for out in 0..=1usize { let cap = enqs(&t.to_vec()) + out; scns.push((Scn { cap, pre: cap - 1, out, consumers: 2, threads: t.to_vec(), overflow: false }, "quad")); }
    }
    let long: Vec<Vec<Vec<Op>>> = vec![
        vec![vec![E, E, E], vec![D(0), D(0), D(0)]], vec![vec![E, D(0), E], vec![D(0), E, D(0)]], vec![vec![E, E, E], vec![P(0), D(0), P(0)]], vec![vec![E, P(0), D(0)], vec![E, P(0), D(0)]],
        vec![vec![D(0), D(0), D(0)], vec![D(0), P(0), D(0)]], vec![vec![E, E], vec![D(0), D(1), P(0)]],
    ];
    for t in &long { for out in [0usize, 2] { let cap = (enqs(t) + out).max(2); scns.push((Scn { cap, pre: cap - 1, out, consumers: 2, threads: t.clone(), overflow: false }, "long")); } }
    // beyond the capacity: nothing may panic or hang
    for (cap, t) in [(1usize, vec![vec![E], vec![E]]), (1, vec![vec![E, E], vec![D(0)]]), (1, vec![vec![E, E], vec![P(0)]]), (2, vec![vec![E, E, E], vec![D(0), P(0)]]), (2, vec![vec![E, E], vec![E, D(0)]]), (1, vec![vec![E], vec![E], vec![D(0)]]), (1, vec![vec![E], vec![E], vec![P(0)]]), (2, vec![vec![E, E], vec![E], vec![E]]), (2, vec![vec![E, E, E], vec![P(0)], vec![D(0)]])] {
        for out in [0, cap] { scns.push((Scn { cap, pre: cap - 1, out, consumers: 1, threads: t.clone(), overflow: true }, "over")); }
    }
    // consumers created while there are more enqueues than slots
    for (cap, t) in [(1usize, vec![vec![E, N], vec![E]]), (1, vec![vec![E, N], vec![E, N]]), (1, vec![vec![E, N, E], vec![E]]), (1, vec![vec![E, E, N], vec![E]]), (1, vec![vec![N, E], vec![E, N]]), (2, vec![vec![E, E, N], vec![E, N]]), (2, vec![vec![N, E, E], vec![E, N]])] {
        for pre in [0, cap, 2 * cap + 1] { scns.push((Scn { cap, pre, out: 0, consumers: 1, threads: t.clone(), overflow: true }, "new")); }
    }
    for (cap, t) in [(1usize, vec![vec![E, N], vec![E], vec![E]]), (2, vec![vec![E, N], vec![E], vec![E]]), (1, vec![vec![E], vec![E], vec![N]])] {
        for pre in [0, cap] { scns.push((Scn { cap, pre, out: 0, consumers: 1, threads: t.clone(), overflow: true }, "over")); }
    }
    for (s, class) in scns {
        let nops: usize = s.threads.iter().map(|t| t.len()).sum();
        let deep = tier == Tier::Thorough;
        let mut modes: Vec<(String, Bounds, bool)> = vec![];
        // sequential consistency: all interleavings, or all within a preemption bound
        let (sp, cap) = match (class, deep) { ("pair" | "new", _) => (u32::MAX, 1_500_000), ("tri", false) => (if nops <= 3 { 4 } else { 3 }, 1_500_000), ("quad", false) => (2, 1_500_000), (_, false) => (3, 1_500_000), ("tri", true) => (u32::MAX, 60_000_000), ("quad", true) => (4, 60_000_000), (_, true) => (u32::MAX, 60_000_000) };
        modes.push((if sp == u32::MAX { "SC full".into() } else { format!("SC p{sp}") }, Bounds { preemptions: sp, max_execs: cap, ..Bounds::full().post() }, false));
        // relaxed memory
        let (pb, db) = match (class, deep) { ("pair", false) => if nops <= 3 { (3, 2) } else { (2, 2) }, ("tri" | "new", false) => (2, 1), ("quad", false) => (1, 1), (_, false) => (2, 1), ("pair" | "new", true) => (3, 3), ("tri", true) => (3, 2), (_, true) => (2, 2) };
        modes.push((format!("C11 p{pb} d{db}"), Bounds { max_execs: if deep { 30_000_000 } else { 1_500_000 }, ..Bounds::weak(pb, db) }, true));
        for (m, b, weak) in modes {
            let s = s.clone();
            p.explore(format!("{} [{m}]", s.name()), b, move || ring_run(&s, weak));
        }
    }
    p
}


// ---- C02 -------------------------------------------------------------------------------------------

struct ModelConsumer { next: usize, dead: bool }

/// every sequence of `depth` operations from {enqueue, new consumer, dequeue(c), peek(c)}
fn history<const N: usize>(depth: usize, max_consumers: usize, wrap: usize) -> Result<String, String> {
    let ring = RingBuffer::<u32, N>::new();
    if ring.get_buffer_size() != N { return Err(format!("a ring of {N} slots says it has {}", ring.get_buffer_size())); }
    for i in 0..wrap { ring.enqueue(900 + i as u32); }
    let mut log: Vec<u32> = vec![];
    let mut cons: Vec<RingBufferConsumer<u32, N>> = vec![ring.consumer()];
    let mut model: Vec<ModelConsumer> = vec![ModelConsumer { next: 0, dead: false }];
    let mut trail = String::new();
    let (mut overflows, mut delivered) = (0, 0);
    for step in 0..depth {
        let nc = cons.len();
        let can_new = nc < max_consumers;
        let k = mc_rt::choose(1 + 2 * nc + can_new as usize);
        if k == 0 {
            let v = 1000 + log.len() as u32;
            ring.enqueue(v);
            log.push(v);
            for m in model.iter_mut() { if log.len() - m.next > N { m.dead = true; } }
            trail += " E";
        } else if k <= 2 * nc {
            let c = (k - 1) / 2;
            let m = &mut model[c];
            if (k - 1) % 2 == 0 {
                trail += &format!(" D{c}");
                let got = cons[c].dequeue().map(|o| o.copied()).map_err(|_| ());
                let want = if m.dead { Err(()) } else if m.next == log.len() { Ok(None) } else { m.next += 1; delivered += 1; Ok(Some(log[m.next - 1])) };
                if got != want { return Err(format!("after{trail} (ring of {N}, starting at slot {wrap}): dequeue gave {got:?}, expected {want:?}")); }
            } else {
                trail += &format!(" P{c}");
                let got = cons[c].peek_all().map(|s| s.concat()).map_err(|_| ());
                let want = if m.dead { Err(()) } else { Ok(log[m.next..].to_vec()) };
                if got != want { return Err(format!("after{trail} (ring of {N}, starting at slot {wrap}): peek gave {got:?}, expected {want:?}")); }
            }
            if model[c].dead { overflows += 1; }
        } else {
            trail += " N";
            cons.push(ring.consumer());
            model.push(ModelConsumer { next: log.len(), dead: false });
        }
        let mut h = (log.len() % (4 * N)) as u64 | (step as u64) << 32;
        for m in &model { h = mc_rt::hash::mix(h ^ if m.dead { 99 } else { (log.len() - m.next) as u64 }); }
        mc_rt::state(h);
    }
    // whatever happened, every consumer must still be as the model says
    for (c, m) in model.iter().enumerate() {
        for round in 0..3 {
            let got = cons[c].peek_all().map(|s| s.concat()).map_err(|_| ());
            let want = if m.dead { Err(()) } else { Ok(log[m.next..].to_vec()) };
            if got != want { return Err(format!("at the end of{trail} (ring of {N}, starting at slot {wrap}): peek #{round} on consumer {c} gave {got:?}, expected {want:?}")); }
            if m.dead { let got = cons[c].dequeue().map(|o| o.copied()).map_err(|_| ()); if got != Err(()) { return Err(format!("at the end of{trail} (ring of {N}, starting at slot {wrap}): dequeue on the overflowed consumer {c} gave {got:?}")); } }
        }
        if !m.dead {
            for want in &log[m.next..] {
                match cons[c].dequeue() { Ok(Some(v)) if v == want => {}, o => return Err(format!("at the end of{trail} (ring of {N}, starting at slot {wrap}): draining consumer {c} gave {o:?}, expected {want}")) }
            }
            match cons[c].dequeue() { Ok(None) => {}, o => return Err(format!("at the end of{trail}: dequeue on the drained consumer {c} gave {o:?}")) }
        }
    }
    Ok(format!("overflow answers: {}, delivered: {}", overflows.min(3), delivered.min(4)))
}

fn history_n(n: usize, depth: usize, mc: usize, wrap: usize) -> Result<String, String> {
    match n { 1 => history::<1>(depth, mc, wrap), 2 => history::<2>(depth, mc, wrap), 3 => history::<3>(depth, mc, wrap), 4 => history::<4>(depth, mc, wrap), 5 => history::<5>(depth, mc, wrap), 7 => history::<7>(depth, mc, wrap), _ => history::<8>(depth, mc, wrap) }
}

/// one consumer, deep: the state space of a single window, by runs of enqueues and dequeues
fn runs<const N: usize>(rounds: usize, wrap: usize) -> Result<String, String> {
    let ring = RingBuffer::<u32, N>::new();
    for i in 0..wrap { ring.enqueue(i as u32); }
    let a = ring.consumer();
    let (mut log, mut next, mut dead) = (vec![], 0usize, false);
    let mut trail = String::new();
    for _ in 0..rounds {
        let e = mc_rt::choose(N + 2);
        let d = mc_rt::choose(N + 2);
        trail += &format!(" +{e}-{d}");
        for _ in 0..e { let v = 5000 + log.len() as u32; ring.enqueue(v); log.push(v); if log.len() - next > N { dead = true; } }
        let got = a.peek_all().map(|s| s.concat()).map_err(|_| ());
        let want = if dead { Err(()) } else { Ok(log[next..].to_vec()) };
        if got != want { return Err(format!("after{trail} (ring of {N}, starting at slot {wrap}): peek gave {got:?}, expected {want:?}")); }
        for _ in 0..d {
            let got = a.dequeue().map(|o| o.copied()).map_err(|_| ());
            let want = if dead { Err(()) } else if next == log.len() { Ok(None) } else { next += 1; Ok(Some(log[next - 1])) };
            if got != want { return Err(format!("after{trail} (ring of {N}, starting at slot {wrap}): dequeue gave {got:?}, expected {want:?}")); }
        }
        mc_rt::state(((log.len() % (8 * N)) as u64) << 8 | if dead { 99 } else { (log.len() - next) as u64 });
    }
    Ok(if dead { "overflowed".into() } else { format!("{} left", log.len() - next) })
}

/// large rings: every sequence of runs around the capacity and around the widths of narrower integers
fn big_runs<const N: usize>(blank: &'static RingBuffer<u32, N>, rounds: usize) -> Result<String, String> {
    let mut b = Box::new(std::mem::MaybeUninit::<RingBuffer<u32, N>>::uninit());
    let ring: &RingBuffer<u32, N> = unsafe {
        std::ptr::copy_nonoverlapping(blank as *const _ as *const u8, b.as_mut_ptr() as *mut u8, std::mem::size_of::<RingBuffer<u32, N>>());
        &*b.as_ptr()
    };
    if ring.get_buffer_size() != N { return Err(format!("a ring of {N} slots says it has {}", ring.get_buffer_size())); }
    let a = ring.consumer();
    let (mut log, mut next, mut dead): (Vec<u32>, usize, bool) = (vec![], 0, false);
    let mut trail = String::new();
    let sizes = [0usize, 1, N / 2 + 1, N - 1, N, N + 1];
    for _ in 0..rounds {
        let (e, d) = (sizes[mc_rt::choose(sizes.len())], sizes[mc_rt::choose(sizes.len())]);
        trail += &format!(" +{e}-{d}");
        for _ in 0..e { let v = 5000 + log.len() as u32; ring.enqueue(v); log.push(v); if log.len() - next > N { dead = true; } }
        let got = a.peek_all().map(|s| s.concat()).map_err(|_| ());
        let want = if dead { Err(()) } else { Ok(log[next..].to_vec()) };
        if got != want { return Err(format!("after{trail} (ring of {N}): peek gave {:?}, expected {:?}", got.map(|v| (v.len(), v.first().copied())), want.map(|v| (v.len(), v.first().copied())))); }
        for _ in 0..d {
            let got = a.dequeue().map(|o| o.copied()).map_err(|_| ());
            let want = if dead { Err(()) } else if next == log.len() { Ok(None) } else { next += 1; Ok(Some(log[next - 1])) };
            if got != want { return Err(format!("after{trail} (ring of {N}): dequeue gave {got:?}, expected {want:?}")); }
        }
        mc_rt::state((log.len() as u64) << 24 | if dead { 0xffffff } else { (log.len() - next) as u64 });
    }
    Ok(if dead { "overflowed".into() } else { format!("{} left", log.len() - next) })
}

/// threads sharing a consumer that is already overflowed, or overflows under their hands
fn overflow_threads<const N: usize>(extra: usize, ops: [&'static [Op]; 2], late: usize) -> Result<String, String> {
    let ring = Box::new(RingBuffer::<u32, N>::new());
    let cons = Box::new(ring.consumer());
    let fresh: RefCell<Option<Box<RingBufferConsumer<u32, N>>>> = RefCell::new(None);
    for i in 0..N + extra { if i == extra { *fresh.borrow_mut() = Some(Box::new(ring.consumer())); } ring.enqueue(i as u32); }
    let fresh = fresh.into_inner();
    let dead_from_start = extra > 0;
    let bad: RefCell<Option<String>> = RefCell::new(None);
    let erred = std::cell::Cell::new(false);
    let run = |ops: &[Op]| for op in ops {
        mc_rt::op();
        let must = dead_from_start || erred.get();
        let r = match op { Op::D(_) => cons.dequeue().map(|o| format!("{o:?}")), Op::P(_) => cons.peek_all().map(|s| format!("{s:?}")), _ => { ring.enqueue(77); continue } };
        mc_rt::note_local(r.is_ok() as u64);
        match r { Ok(v) if must => { bad.borrow_mut().get_or_insert(format!("{op:?} on an overflowed consumer gave {v} instead of the error")); } Ok(_) => {}, Err(_) => { erred.set(true); mc_rt::note(1); } }
    };
    let hs: Vec<_> = ops.iter().map(|o| { let run = &run; mc_rt::spawn(move || run(o)) }).collect();
    for h in hs { if let Err(p) = h.join() { return Err(format!("panicked: {}", mc_rt::panic_message(&p))); } }
    if let Some(b) = bad.into_inner() { return Err(b); }
    if dead_from_start || erred.get() {
        for _ in 0..N + 3 { if cons.dequeue().is_ok() { return Err("an overflowed consumer answers a later dequeue without the error".into()); } }
        if cons.peek_all().is_ok() { return Err("an overflowed consumer answers a later peek without the error".into()); }
    }
    if late == 0 {
        if let Some(f) = fresh {
            let got = f.peek_all().map(|s| s.concat()).map_err(|_| ());
            if got != Ok((extra as u32..(N + extra) as u32).collect::<Vec<_>>()) { return Err(format!("a consumer that did not overflow is affected by another that did: {got:?}")); }
        }
    }
    Ok(format!("{}", erred.get()))
}

pub fn c02(tier: Tier) -> Property {
    let mut p = Property::new("C02", "model_checking", "every operation sequence of the stated length over the stated consumers, from every wrap position, compared step by step with an unbounded log; states are (log position, backlog per consumer), transitions are operations on the real ring");
    let b = Bounds::seq();
    for n in [1usize, 2, 3, 4] {
        for wrap in 0..=n {
            p.explore(format!("all histories cap{n} wrap{wrap} consumers2"), b, move || history_n(n, tier.pick(if n <= 2 { 8 } else { 8 }, 10), 2, wrap));
        }
        p.explore(format!("all histories cap{n} consumers3"), b, move || history_n(n, tier.pick(7, 8), 3, n - 1));
        p.explore(format!("all histories cap{n} one consumer, deep"), b, move || history_n(n, tier.pick(12, 15), 1, 0));
    }
    for (n, w) in [(1usize, 0usize), (2, 1), (3, 0), (3, 2), (4, 3), (5, 4), (7, 5), (8, 0), (8, 7)] {
        let rounds = tier.pick(if n <= 3 { 4 } else if n <= 5 { 3 } else { 3 }, if n <= 3 { 5 } else { 4 });
        p.explore(format!("runs cap{n} wrap{w}"), b, move || match n { 1 => runs::<1>(rounds, w), 2 => runs::<2>(rounds, w), 3 => runs::<3>(rounds, w), 4 => runs::<4>(rounds, w), 5 => runs::<5>(rounds, w), 7 => runs::<7>(rounds, w), _ => runs::<8>(rounds, w) });
    }
    p.explore("runs cap16", b, move || runs::<16>(2, 11));
    macro_rules! big { ($($n:literal $r:expr),*) => { $( {
        static BLANK: RingBuffer<u32, $n> = RingBuffer::new();
        p.explore(concat!("runs in a large ring cap", stringify!($n)), b, move || big_runs::<$n>(&BLANK, $r));
    } )* } }
    let r = tier.pick(3, 4);
    big!(127 r, 128 r, 255 r, 256 r, 257 r, 300 r, 1000 3, 1024 3, 32769 2, 65535 2, 65536 2, 65537 2);
    use Op::*;
    let scr: Vec<(&str, [&'static [Op]; 2])> = vec![
        ("D|D", [&[D(0)], &[D(0)]]), ("D.D|D", [&[D(0), D(0)], &[D(0)]]), ("D.D|D.D", [&[D(0), D(0)], &[D(0), D(0)]]), ("D.P|D", [&[D(0), P(0)], &[D(0)]]), ("P|D.D", [&[P(0)], &[D(0), D(0)]]), ("D.P|P.D", [&[D(0), P(0)], &[P(0), D(0)]]),
    ];
    for (name, ops) in scr.iter().cloned() {
        for extra in 1..=3usize {
            for n in [1usize, 2, 3] {
                p.explore(format!("shared overflowed consumer cap{n} excess{extra} {name}"), Bounds { max_execs: 200_000, ..Bounds::full() }, move || match n { 1 => overflow_threads::<1>(extra, ops, 0), 2 => overflow_threads::<2>(extra, ops, 0), _ => overflow_threads::<3>(extra, ops, 0) });
            }
        }
    }
    let scr2: Vec<(&str, [&'static [Op]; 2])> = vec![("E|D.D", [&[E], &[D(0), D(0)]]), ("E.E|D.D", [&[E, E], &[D(0), D(0)]]), ("E.E|P.D", [&[E, E], &[P(0), D(0)]]), ("E.D|D.D", [&[E, D(0)], &[D(0), D(0)]]), ("E.E.E|D.D.D", [&[E, E, E], &[D(0), D(0), D(0)]]), ("E.E|D.P.D", [&[E, E], &[D(0), P(0), D(0)]])];
    for (name, ops) in scr2.iter().cloned() {
        for n in [1usize, 2, 3] {
            p.explore(format!("consumer overflowing while in use cap{n} {name}"), Bounds { max_execs: 300_000, ..Bounds::full() }, move || match n { 1 => overflow_threads::<1>(0, ops, 1), 2 => overflow_threads::<2>(0, ops, 1), _ => overflow_threads::<3>(0, ops, 1) });
        }
    }
    p
}

// ---- C03 -------------------------------------------------------------------------------------------

const ALIVE: u64 = 0xA11C_E5ED_0B57_ACED;
#[derive(Default)]
struct Reg { alive: std::collections::HashMap<u64, bool>, errors: Vec<String>, zst_made: i64, zst_dropped: i64, drops: u64, on: bool, yields: bool }
thread_local! { static REG: RefCell<Reg> = RefCell::new(Reg::default()); }
fn reg<R>(f: impl FnOnce(&mut Reg) -> R) -> R { REG.with(|r| f(&mut r.borrow_mut())) }

/// records its own construction and destruction
struct Tracked { magic: u64, id: u64 }
impl Tracked { fn new(id: u64) -> Self { reg(|r| { r.alive.insert(id, true); }); Tracked { magic: ALIVE, id } } }
impl Drop for Tracked {
    fn drop(&mut self) {
        if reg(|r| r.on && r.yields) && !mc_rt::visible(self as *const _ as *const u8, std::mem::size_of::<Self>()) { mc_rt::fail("an element is destroyed by a thread for which its contents are not guaranteed to be visible (data race)") }
        let (m, id) = (self.magic, self.id);
        // the owner may be held up in the middle of destroying it
        if reg(|r| r.on && r.yields) { mc_rt::point(); }
        self.magic = 0xDEAD;
        mc_rt::note_local(id ^ m.rotate_left(11));
        reg(|r| {
            if !r.on { return }
            r.drops += 1;
            if m != ALIVE { r.errors.push(format!("memory that holds no element was destroyed as one ({})", if m == 0xDEAD { "already destroyed".to_string() } else { "never initialised".into() })); }
            else { match r.alive.insert(id, false) { Some(true) => {}, Some(false) => r.errors.push(format!("element {id} was destroyed twice")), None => r.errors.push(format!("an element nobody made ({id}) was destroyed")) } }
        });
    }
}
struct Zst;
impl Zst { fn new() -> Self { reg(|r| r.zst_made += 1); Zst } }
impl Drop for Zst { fn drop(&mut self) { reg(|r| { if r.on { r.zst_dropped += 1 } }) } }

/// a ring whose unused memory is filled with `fill`
fn poisoned<T, const N: usize>(fill: u8) -> Box<RingBuffer<T, N>> {
    // the slots are wherever two images of an empty ring may differ: find them with a plain element of the same shape
    let size = std::mem::size_of::<RingBuffer<T, N>>();
    let probe_region = |val: u8| -> Vec<u8> {
        let r = Box::new(RingBuffer::<T, N>::new());
        let p = &*r as *const _ as *mut u8;
        let before = unsafe { std::slice::from_raw_parts(p, size) }.to_vec();
        let es = std::mem::size_of::<T>();
        let bytes = vec![val; es.max(1)];
        for _ in 0..N { let e: T = unsafe { std::ptr::read_unaligned(bytes.as_ptr() as *const T) }; r.enqueue(e); }
        let after = unsafe { std::slice::from_raw_parts(p, size) }.to_vec();
        let _ = before;
        std::mem::forget(r);
        after
    };
    let off = reg(|r| { let o = r.on; r.on = false; o });
    let (a, b) = (probe_region(0x11), probe_region(0x22));
    reg(|r| r.on = off);
    let ring = Box::new(RingBuffer::<T, N>::new());
    let p = &*ring as *const _ as *mut u8;
    for i in 0..size { if a[i] == 0x11 && b[i] == 0x22 { unsafe { *p.add(i) = fill } } }
    ring
}

fn lifecycle<const N: usize>(depth: usize, wrap: usize, fill: u8) -> Result<String, String> {
    reg(|r| { *r = Reg::default(); r.on = true; });
    let ring = poisoned::<Tracked, N>(fill);
    let mut id = 0u64;
    for _ in 0..wrap { ring.enqueue(Tracked::new(id)); id += 1; }
    let c = ring.consumer();
    let (start, mut next, mut dead) = (id, id, false);
    let mut trail = String::new();
    let check = |trail: &str, id: u64, next: u64, dead: bool| -> Result<(), String> {
        reg(|r| {
            if let Some(e) = r.errors.first() { return Err(format!("after{trail} (ring of {N}, {wrap} before): {e}")); }
            // still in the ring: the last N
            for k in id.saturating_sub(N as u64)..id { if r.alive.get(&k) == Some(&false) { return Err(format!("after{trail} (ring of {N}, {wrap} before): element {k} was destroyed although nothing replaced it (elements so far: {id})")); } }
            if !dead { for k in next..id { if r.alive.get(&k) == Some(&false) { return Err(format!("after{trail}: element {k} was destroyed although it can still be read")); } } }
            Ok(())
        })
    };
    for _ in 0..depth {
        match mc_rt::choose(3) {
            0 => { trail += " E"; ring.enqueue(Tracked::new(id)); id += 1; if id - next > N as u64 { dead = true } }
            1 => { trail += " D"; match c.dequeue() { Ok(Some(e)) => { if dead { return Err(format!("after{trail}: expected an overflow")); } if (e.magic, e.id) != (ALIVE, next) { return Err(format!("after{trail} (ring of {N}, {wrap} before): dequeue gave a destroyed or wrong element")); } next += 1; } Ok(None) => if next != id { return Err(format!("after{trail}: nothing dequeued")); }, Err(_) => if !dead { return Err(format!("after{trail}: overflow")); } } }
            _ => { trail += " P"; match c.peek_all() { Ok(s) => for (i, e) in s.iter().flat_map(|x| x.iter()).enumerate() { if (e.magic, e.id) != (ALIVE, next + i as u64) { return Err(format!("after{trail} (ring of {N}, {wrap} before): peek showed a destroyed or wrong element")); } }, Err(_) => if !dead { return Err(format!("after{trail}: overflow")); } } }
        }
        check(&trail, id, next, dead)?;
        mc_rt::state(id << 8 | if dead { 99 } else { id - next });
    }
    drop(c);
    drop(ring);
    reg(|r| { r.on = false; if let Some(e) = r.errors.first() { Err(format!("after{trail}, dropping the ring (of {N}, {wrap} before): {e}")) } else { Ok(format!("{} elements, {} destroyed", id - start, r.drops)) } })
}

fn lifecycle_zst<const N: usize>(depth: usize) -> Result<String, String> {
    reg(|r| { *r = Reg::default(); r.on = true; });
    let ring = Box::new(RingBuffer::<Zst, N>::new());
    let c = ring.consumer();
    let (mut made, mut next, mut dead) = (0i64, 0i64, false);
    let mut trail = String::new();
    for _ in 0..depth {
        match mc_rt::choose(3) {
            0 => { trail += " E"; ring.enqueue(Zst::new()); made += 1; if made - next > N as i64 { dead = true } }
            1 => { trail += " D"; match c.dequeue() { Ok(Some(_)) if !dead && next < made => next += 1, Ok(None) if !dead && next == made => {}, Err(_) if dead => {}, _ => return Err(format!("after{trail}: wrong answer for zero-sized elements")) } }
            _ => { trail += " P"; match c.peek_all() { Ok(s) if !dead && s.iter().map(|x| x.len() as i64).sum::<i64>() == made - next => {}, Err(_) if dead => {}, _ => return Err(format!("after{trail}: wrong peek for zero-sized elements")) } }
        }
        let replaced = (made - N as i64).max(0);
        let dropped = reg(|r| r.zst_dropped);
        if dropped > replaced { return Err(format!("after{trail} (ring of {N}): {dropped} zero-sized elements destroyed, but only {replaced} were replaced")); }
        mc_rt::state((made as u64) << 8 | (made - next) as u64);
    }
    drop(c); drop(ring);
    reg(|r| { r.on = false; if r.zst_dropped > made { Err(format!("{} zero-sized elements destroyed out of {made}", r.zst_dropped)) } else { Ok(format!("{made}")) } })
}

/// elements owning heap memory, of an odd size
fn lifecycle_heap<const N: usize>(depth: usize) -> Result<String, String> {
    let ring = Box::new(RingBuffer::<(u8, Rc<u32>), N>::new());
    let items: Vec<Rc<u32>> = (0..depth as u32).map(Rc::new).collect();
    let mut n = 0;
    // fresh memory all zeros is the null pointer: treating it as an element would crash
    for _ in 0..depth {
        if mc_rt::choose(2) == 0 { ring.enqueue((7, items[n].clone())); n += 1; }
        for (i, it) in items.iter().enumerate() {
            let want_min = 1 + (i < n && i + N >= n) as usize;
            if Rc::strong_count(it) < want_min || Rc::strong_count(it) > 2 { return Err(format!("after {n} elements in a ring of {N}: element {i} has {} owners", Rc::strong_count(it))); }
        }
        mc_rt::state(n as u64);
    }
    std::mem::forget(ring);
    std::mem::forget(items);
    Ok(format!("{n}"))
}

/// producers racing, then the ring goes away
fn lifecycle_threads<const N: usize>(wrap: usize, threads: &[usize], fill: u8) -> Result<String, String> {
    reg(|r| { *r = Reg::default(); r.on = true; });
    let ring = poisoned::<Tracked, N>(fill);
    for i in 0..wrap as u64 { ring.enqueue(Tracked::new(i)); }
    mc_rt::watch(&*ring as *const _ as *const u8, std::mem::size_of::<RingBuffer<Tracked, N>>());
    reg(|r| r.yields = true);
    let id = std::cell::Cell::new(wrap as u64);
    let hs: Vec<_> = threads.iter().map(|n| { let (ring, id) = (&ring, &id); mc_rt::spawn(move || for _ in 0..*n { mc_rt::op(); let k = id.get(); id.set(k + 1); mc_rt::note_local(k); ring.enqueue(Tracked::new(k)); if let Some(e) = reg(|r| r.errors.first().cloned()) { mc_rt::fail(e) } }) }).collect();
    for h in hs { if let Err(p) = h.join() { return Err(format!("panicked: {}", mc_rt::panic_message(&p))); } }
    let total = id.get();
    reg(|r| r.yields = false);
    let gone = reg(|r| r.alive.values().filter(|a| !**a).count() as u64);
    if gone > total.saturating_sub(N as u64) { return Err(format!("{gone} elements destroyed although only {} were replaced", total.saturating_sub(N as u64))); }
    drop(ring);
    reg(|r| { r.on = false; match r.errors.first() { Some(e) => Err(e.clone()), None => Ok(format!("{gone} replaced")) } })
}

/// producers and consumers racing with everything within the capacity
fn lifecycle_readers<const N: usize>(wrap: usize, producers: &[usize], readers: usize, fill: u8) -> Result<String, String> {
    reg(|r| { *r = Reg::default(); r.on = true; });
    let ring = poisoned::<Tracked, N>(fill);
    for i in 0..wrap as u64 { ring.enqueue(Tracked::new(i)); }
    let (shared, other) = (ring.consumer(), ring.consumer());
    mc_rt::watch(&*ring as *const _ as *const u8, std::mem::size_of::<RingBuffer<Tracked, N>>());
    reg(|r| r.yields = true);
    let id = std::cell::Cell::new(wrap as u64);
    let enqueued: u64 = producers.iter().sum::<usize>() as u64;
    let mut hs: Vec<_> = producers.iter().map(|n| { let (ring, id) = (&ring, &id); mc_rt::spawn(move || for _ in 0..*n { mc_rt::op(); let k = id.get(); id.set(k + 1); mc_rt::note_local(k); ring.enqueue(Tracked::new(k)); if let Some(e) = reg(|r| r.errors.first().cloned()) { mc_rt::fail(e) } }) }).collect();
    for _ in 0..readers { let c = &shared; hs.push(mc_rt::spawn(move || for _ in 0..2 {
        mc_rt::op();
        match c.dequeue() {
            Ok(Some(e)) => { mc_rt::note_local(e.id); if e.magic != ALIVE || reg(|r| r.alive.get(&e.id) != Some(&true)) { mc_rt::fail(format!("element {} was destroyed before it was delivered", e.id)) } mc_rt::op(); if reg(|r| r.alive.get(&e.id) != Some(&true)) { mc_rt::fail(format!("element {} was destroyed on being delivered, although nothing replaced it", e.id)) } }
            Ok(None) => mc_rt::note_local(77),
            Err(_) => mc_rt::fail("overflow reported although no more than the capacity is outstanding"),
        }
    })); }
    for h in hs { if let Err(p) = h.join() { return Err(format!("panicked: {}", mc_rt::panic_message(&p))); } }
    reg(|r| r.yields = false);
    let total = id.get();
    let mut seen = 0;
    match other.peek_all() { Ok(s) => for e in s.iter().flat_map(|x| x.iter()) { seen += 1; if e.magic != ALIVE || reg(|r| r.alive.get(&e.id) != Some(&true)) { return Err(format!("element {} was destroyed although another consumer has not seen it", e.id)); } }, Err(_) => return Err("overflow reported although no more than the capacity is outstanding".into()) }
    if seen != enqueued { return Err(format!("another consumer sees {seen} elements instead of {enqueued}")); }
    let gone = reg(|r| r.alive.values().filter(|a| !**a).count() as u64);
    if gone > total.saturating_sub(N as u64) { return Err(format!("{gone} elements destroyed although only {} were replaced", total.saturating_sub(N as u64))); }
    drop(shared); drop(other); drop(ring);
    reg(|r| { r.on = false; match r.errors.first() { Some(e) => Err(e.clone()), None => Ok(format!("{gone} replaced")) } })
}

pub fn c03(tier: Tier) -> Property {
    let mut p = Property::new("C03", "model_checking", "every enqueue/dequeue/peek sequence of the stated length, and every interleaving of the stated producers, on rings whose unused memory holds a fill pattern; elements report construction and destruction");
    let b = Bounds::seq();
    for fill in [0u8, 0xA5] {
        for w in [0usize, 1, 2, 3] {
            p.explore(format!("cap1 before{w} fill{fill:02x}"), b, move || lifecycle::<1>(tier.pick(8, 10), w, fill));
            p.explore(format!("cap2 before{w} fill{fill:02x}"), b, move || lifecycle::<2>(tier.pick(9, 11), w, fill));
            p.explore(format!("cap3 before{w} fill{fill:02x}"), b, move || lifecycle::<3>(tier.pick(9, 11), w, fill));
            p.explore(format!("cap4 before{w} fill{fill:02x}"), b, move || lifecycle::<4>(tier.pick(9, 12), w, fill));
        }
    }
    p.explore("zero-sized cap1", b, move || lifecycle_zst::<1>(tier.pick(8, 10)));
    p.explore("zero-sized cap2", b, move || lifecycle_zst::<2>(tier.pick(9, 11)));
    p.explore("zero-sized cap3", b, move || lifecycle_zst::<3>(tier.pick(9, 11)));
    p.explore("owning heap memory cap1", b, move || lifecycle_heap::<1>(8));
    p.explore("owning heap memory cap3", b, move || lifecycle_heap::<3>(10));
    let f = Bounds { max_execs: tier.pick(4_000_000, 40_000_000), ..Bounds::full().post() };
    for w in [0usize, 1, 2, 3] {
        p.explore(format!("producers 1|1 cap1 before{w}"), f, move || lifecycle_threads::<1>(w, &[1, 1], 0xA5));
        p.explore(format!("producers 1|1 cap2 before{w}"), f, move || lifecycle_threads::<2>(w, &[1, 1], 0xA5));
        p.explore(format!("producers 2|2 cap2 before{w}"), f, move || lifecycle_threads::<2>(w, &[2, 2], 0xA5));
        p.explore(format!("producers 2|2 cap3 before{w}"), f, move || lifecycle_threads::<3>(w, &[2, 2], 0xA5));
        p.explore(format!("producers 1|1|1 cap2 before{w}"), f, move || lifecycle_threads::<2>(w, &[1, 1, 1], 0xA5));
        p.explore(format!("producers 1|1|1 cap3 before{w}"), f, move || lifecycle_threads::<3>(w, &[1, 1, 1], 0xA5));
        p.explore(format!("producer 2, reader, cap2 before{w}"), f, move || lifecycle_readers::<2>(w, &[2], 1, 0xA5));
        p.explore(format!("producer 3, reader, cap3 before{w}"), f, move || lifecycle_readers::<3>(w, &[3], 1, 0xA5));
        let g = Bounds { preemptions: tier.pick(3, 6), ..f };
        p.explore(format!("producers 1|1, reader, cap2 before{w}"), g, move || lifecycle_readers::<2>(w, &[1, 1], 1, 0xA5));
        p.explore(format!("producer 2, readers, cap3 before{w}"), g, move || lifecycle_readers::<3>(w, &[2], 2, 0xA5));
        let k = Bounds { max_execs: tier.pick(1_500_000, 40_000_000), ..Bounds::weak(tier.pick(3, 4), tier.pick(2, 3)) };
        p.explore(format!("C11: producers 1|1 cap1 before{w}"), k, move || lifecycle_threads::<1>(w, &[1, 1], 0xA5));
        p.explore(format!("C11: producers 2|2 cap1 before{w}"), k, move || lifecycle_threads::<1>(w, &[2, 2], 0xA5));
        p.explore(format!("C11: producers 2|1 cap2 before{w}"), k, move || lifecycle_threads::<2>(w, &[2, 1], 0xA5));
        p.explore(format!("C11: producers 1|1|1 cap2 before{w}"), Bounds { preemptions: tier.pick(2, 3), deviations: tier.pick(1, 2), ..k }, move || lifecycle_threads::<2>(w, &[1, 1, 1], 0xA5));
        p.explore(format!("C11: producer 2, reader, cap2 before{w}"), k, move || lifecycle_readers::<2>(w, &[2], 1, 0xA5));
    }
    p
}

// ---- C04 -------------------------------------------------------------------------------------------

fn crossing<const N: usize>(e: &mut Enum, depth: usize, follow: bool) {
    let ring = Box::new(RingBuffer::<u32, N>::new());
    let ancient = ring.consumer();
    // where narrower representations of a count would wrap, change sign or lose precision
    let edges: [u64; 7] = [1 << 7, 1 << 8, 1 << 15, 1 << 16, 1 << 24, 1 << 31, 1 << 32];
    let before = 6u64;
    let mut n: u64 = 0;
    // one consumer goes along all the way, as far behind as the ring allows, and checks every element
    let follower = ring.consumer();
    let lag = N as u64 - 1;
    macro_rules! put { () => {{
        ring.enqueue(n as u32); n += 1;
        if follow && n > lag {
            let want = (n - 1 - lag) as u32;
            match follower.dequeue() { Ok(Some(v)) if *v == want => {}, o => { e.fail(format!("ring of {N} after {n} elements: a consumer keeping up gets {o:?} instead of {want}")); return; } }
        }
    }} }
    for (at, edge) in edges.into_iter().enumerate() {
    let depth = if at + 2 < edges.len() { depth.min(6) } else { depth };
    while n < edge - before { put!(); }
    e.sample(|| format!("{n} elements went through the ring of {N} before exploring"));
    // from each position around the edge, every sequence of operations on a consumer created there. The ring's memory is copied
    // to start each of them from the same point (its elements are plain numbers); real history goes on with the original.
    for _ in 0..2 * before {
        if n > N as u64 && (ancient.dequeue().is_ok() || ancient.peek_all().is_ok()) { e.fail(format!("after {n} elements, a consumer as old as the ring (of {N}) no longer reports the overflow")); return; }
        e.case(n ^ 0xACE);
        let size = std::mem::size_of::<RingBuffer<u32, N>>();
        let mut seq = vec![0u8; depth];
        loop {
            let mut copy = Box::new(std::mem::MaybeUninit::<RingBuffer<u32, N>>::uninit());
            let r: &RingBuffer<u32, N> = unsafe { std::ptr::copy_nonoverlapping(&*ring as *const _ as *const u8, copy.as_mut_ptr() as *mut u8, size); &*copy.as_ptr() };
            let c = r.consumer();
            let (mut log, mut next, mut dead): (Vec<u32>, usize, bool) = (vec![], 0, false);
            for (i, op) in seq.iter().enumerate() {
                let bad = match op {
                    0 => { let v = 7000 + log.len() as u32; r.enqueue(v); log.push(v); if log.len() - next > N { dead = true } None }
                    1 => { let got = c.dequeue().map(|o| o.copied()).map_err(|_| ()); let want = if dead { Err(()) } else if next == log.len() { Ok(None) } else { next += 1; Ok(Some(log[next - 1])) }; if got != want { Some(format!("dequeue gave {got:?}, expected {want:?}")) } else { None } }
                    _ => { let got = c.peek_all().map(|s| s.concat()).map_err(|_| ()); let want = if dead { Err(()) } else { Ok(log[next..].to_vec()) }; if got != want { Some(format!("peek gave {got:?}, expected {want:?}")) } else { None } }
                };
                if let Some(b) = bad { e.fail(format!("ring of {N} after {n} elements, then operations {:?} (0 enqueue, 1 dequeue, 2 peek): {b}", &seq[..=i])); return; }
            }
            e.case(mc_rt::hash::mix(n) ^ mc_rt::hash::hash_bytes(&seq));
            let mut i = depth;
            let done = loop { if i == 0 { break true } i -= 1; if seq[i] < 2 { seq[i] += 1; break false } seq[i] = 0; };
            if done { break }
        }
        // the real history goes on
        put!();
    }
    }
    // past the edge for good
    let c = ring.consumer();
    for i in 0..4 * N as u32 { ring.enqueue(i); match c.dequeue() { Ok(Some(v)) if *v == i => {}, o => { e.fail(format!("past 2^32 elements in a ring of {N}: dequeued {o:?} instead of {i}")); return; } } }
    if ancient.dequeue().is_ok() { e.fail(format!("past 2^32 elements, a consumer as old as the ring (of {N}) no longer reports the overflow")); }
}

pub fn c04(tier: Tier) -> Property {
    let mut p = Property::new("C04", "exploration", "a real history of more than 2^32 enqueues through one ring; then, from each of 12 positions around 2^7, 2^8, 2^15, 2^16, 2^24, 2^31 and 2^32, every sequence of enqueue/dequeue/peek of the stated length on a consumer created there, against an unbounded log; a consumer kept capacity-1 elements behind checks every single element on the way");
    let d = tier.pick(7, 9);
    p.enumerate("across 2^32 cap4", move |e| crossing::<4>(e, d, true));
    p.enumerate("across 2^32 cap3", move |e| crossing::<3>(e, d, true));
    p.enumerate("across 2^32 cap1", move |e| crossing::<1>(e, d, true));
    p.enumerate("across 2^32 cap5", move |e| crossing::<5>(e, d, true));
    p.enumerate("across 2^32 cap4, nobody listening", move |e| crossing::<4>(e, d, false));
    p.enumerate("across 2^32 cap2", move |e| crossing::<2>(e, d, true));
    p.enumerate("across 2^32 cap1024", move |e| crossing::<1024>(e, d, true));
    p
}
