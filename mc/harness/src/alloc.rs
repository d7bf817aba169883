//! C05-C08: the metrics allocator.
use crate::frame::*;
use big_o_test::metrics_allocator::{MetricsAllocator, MetricsAllocatorSavePoint, MetricsAllocatorStatistics};
use mc_rt::Bounds;
use mc_std::mc::{clear_handler, set_handler, Call};
use std::alloc::{GlobalAlloc, Layout};
use std::cell::{Cell, RefCell};

thread_local! {
    static REFUSE: Cell<bool> = const { Cell::new(false) };
    static CALLS: RefCell<Vec<Call>> = const { RefCell::new(Vec::new()) };
}
/// the system as seen by the allocator: refuses on demand, and hands out memory that is not accidentally zeroed
fn system(c: Call) -> Option<*mut u8> {
    CALLS.with(|v| v.borrow_mut().push(c));
    let refuse = REFUSE.with(|r| r.get());
    match c {
        Call::Dealloc(..) => None,
        _ if refuse => Some(std::ptr::null_mut()),
        Call::Alloc(l) => { let p = unsafe { std::alloc::System.alloc(l) }; if !p.is_null() { unsafe { p.write_bytes(0xCC, l.size()) } } Some(p) }
        Call::Zeroed(_) | Call::Realloc(..) => None,
    }
}
/// requests are not looked at, memory is made up (nobody touches it)
fn fictional(c: Call) -> Option<*mut u8> {
    if REFUSE.with(|r| r.get()) && !matches!(c, Call::Dealloc(..)) { return Some(std::ptr::null_mut()); }
    let next = CALLS.with(|v| { let mut v = v.borrow_mut(); v.push(c); v.len() });
    Some((next << 16) as *mut u8)
}
fn reset_system(h: fn(Call) -> Option<*mut u8>) { CALLS.with(|v| v.borrow_mut().clear()); REFUSE.with(|r| r.set(false)); set_handler(h); }
fn refusing<R>(f: impl FnOnce() -> R) -> R { REFUSE.with(|r| r.set(true)); let x = f(); REFUSE.with(|r| r.set(false)); x }

fn fresh<const N: usize>() -> Box<MetricsAllocator<'static, N>> {
    // same bytes in every execution, unused ring slots included
    let mut b = Box::new(std::mem::MaybeUninit::<MetricsAllocator<'static, N>>::zeroed());
    unsafe { b.as_mut_ptr().write(MetricsAllocator::new()); Box::from_raw(Box::into_raw(b) as *mut MetricsAllocator<'static, N>) }
}

#[derive(Clone, Copy, Default, Debug, PartialEq)]
struct Fig { a: usize, d: usize, z: usize, r: usize, ab: usize, db: usize, zb: usize, ro: usize, rn: usize, cur: usize }
impl Fig {
    fn since(&self, o: &Fig) -> Fig { Fig { a: self.a - o.a, d: self.d - o.d, z: self.z - o.z, r: self.r - o.r, ab: self.ab - o.ab, db: self.db - o.db, zb: self.zb - o.zb, ro: self.ro - o.ro, rn: self.rn - o.rn, cur: self.cur } }
    fn of(s: &MetricsAllocatorStatistics<usize>) -> Fig { Fig { a: s.allocations_count, d: s.deallocations_count, z: s.zeroed_allocations_count, r: s.reallocations_count, ab: s.allocated_bytes, db: s.deallocated_bytes, zb: s.zeroed_allocated_bytes, ro: s.reallocated_originals_bytes, rn: s.reallocated_news_bytes, cur: s.current_used_memory } }
    fn hash(&self) -> u64 { mc_rt::hash::hash_bytes(format!("{self:?}").as_bytes()) }
}
fn lay(size: usize) -> Layout { Layout::from_size_align(size, 8).unwrap() }

/// what a reading prints has to be what it holds: every "label: number" of the text, for the labels known here
fn prints(text: &str, s: &MetricsAllocatorStatistics<usize>) -> Result<(), String> {
    let b = text.as_bytes();
    let mut i = 0;
    while i < b.len() {
        if !b[i].is_ascii_digit() { i += 1; continue; }
        let j = (i..b.len()).find(|k| !b[*k].is_ascii_digit()).unwrap_or(b.len());
        let before = text[..i].trim_end_matches([':', ' ']);
        let label = &before[before.rfind(|c: char| !(c.is_ascii_alphanumeric() || c == '_')).map_or(0, |k| k + 1)..];
        let want = match label {
            "allocations" => s.allocations_count, "deallocations" => s.deallocations_count, "zeroed_allocations" => s.zeroed_allocations_count, "reallocations" => s.reallocations_count,
            "allocated" => s.allocated_bytes, "deallocated" => s.deallocated_bytes, "zeroed" => s.zeroed_allocated_bytes, "originals" => s.reallocated_originals_bytes, "news" => s.reallocated_news_bytes,
            "current_used_memory" => s.current_used_memory, "min_used_memory" => s.min_used_memory, "max_used_memory" => s.max_used_memory,
            _ => { i = j; continue; }
        };
        if text[i..j].parse::<usize>() != Ok(want) { return Err(format!("{label} is {want}, printed is {text}")); }
        i = j;
    }
    Ok(())
}
// ---- C05, C06: sequential histories ----------------------------------------------------------------

struct Sp<'a, const N: usize> { sp: MetricsAllocatorSavePoint<'a, N>, fig: Fig, min: usize, max: usize, later: usize }

/// `exact`: judge low and high marks and the overflow (C06); otherwise counts, bytes and memory in use (C05)
fn history<const N: usize>(depth: usize, prefix: &[usize], sizes: fn(usize, usize) -> usize, exact: bool) -> Result<String, String> {
    reset_system(fictional);
    let m = fresh::<N>();
    let m: &MetricsAllocator<'_, N> = &m;
    let mut live: Vec<(*mut u8, usize)> = vec![];
    let mut f = Fig::default();
    let mut sps: Vec<Sp<N>> = vec![];
    let mut trail = String::new();
    macro_rules! readall { () => {
        for (k, s) in sps.iter().enumerate() {
            let got = m.delta_statistics(&s.sp);
            match got {
                Err(_) if exact => { if s.later <= N { return Err(format!("after{trail} (room for {N} save points): save point {k} reports an error although only {} save points followed", s.later)); } }
                Err(e) => return Err(format!("after{trail} (room for {N} save points): {e}")),
                Ok(_) if exact && s.later > N => return Err(format!("after{trail} (room for {N} save points): save point {k} reports figures although {} save points followed", s.later)),
                Ok(g) => {
                    if exact { if (g.min_used_memory, g.max_used_memory) != (s.min, s.max) { return Err(format!("after{trail} (room for {N} save points): save point {k} reports min {} max {}, true ones are {} and {}", g.min_used_memory, g.max_used_memory, s.min, s.max)); } }
                    else { let want = f.since(&s.fig); if Fig::of(&g) != want { return Err(format!("after{trail}: save point {k} reports {:?}, true figures are {want:?}", Fig::of(&g))); } }
                }
            }
        }
    } }
    for step in 0..depth {
        // operations: 0 save, 1 read, 2 alloc, 3 zeroed, 4 refused (alloc, zeroed, realloc), 5.. free/realloc of each live block
        let nl = live.len().min(3);
        let n = 7 + nl * 3;
        let c = if step < prefix.len() { if prefix[step] >= n { return Ok("-".into()); } prefix[step] } else { mc_rt::choose(n) };
        let size = sizes(step, c);
        match c {
            0 => {
                trail += " save"; let sp = m.save_point();
                for s in sps.iter_mut() { s.later += 1; }
                sps.push(Sp { sp, fig: f, min: f.cur, max: f.cur, later: 0 });
                let s = &sps.last().unwrap().sp.metrics;
                if !exact && (Fig::of(s) != f) { return Err(format!("after{trail}: the save point says {:?}, true figures are {f:?}", Fig::of(s))); }
            }
            1 => { trail += " read"; readall!(); }
            2 => { trail += &format!(" alloc({size})"); let p = unsafe { m.alloc(lay(size)) }; live.push((p, size)); f.a += 1; f.ab += size; f.cur += size; }
            3 => { trail += &format!(" zeroed({size})"); let p = unsafe { m.alloc_zeroed(lay(size)) }; live.push((p, size)); f.z += 1; f.zb += size; f.cur += size; }
            4 => { trail += &format!(" refused-alloc({size})"); if !refusing(|| unsafe { m.alloc(lay(size)) }).is_null() { return Err(format!("after{trail}: not null")); } }
            5 => { trail += &format!(" refused-zeroed({size})"); if !refusing(|| unsafe { m.alloc_zeroed(lay(size)) }).is_null() { return Err(format!("after{trail}: not null")); } }
            6 => {
                // refused growth and refused shrinking, of the newest block
                let Some(&(p, s)) = live.last() else { return Ok("-".into()) };
                trail += &format!(" refused-realloc({s}->{},{s}->1)", s + size);
                if !refusing(|| unsafe { m.realloc(p, lay(s), s + size) }).is_null() || !refusing(|| unsafe { m.realloc(p, lay(s), 1) }).is_null() { return Err(format!("after{trail}: not null")); }
            }
            c => {
                let (k, what) = ((c - 7) / 3, (c - 7) % 3);
                // the newest ones first
                let i = live.len() - 1 - k;
                let (p, s) = live[i];
                if what == 0 { trail += &format!(" free({s})"); unsafe { m.dealloc(p, lay(s)) }; live.remove(i); f.d += 1; f.db += s; f.cur -= s; }
                else {
                    let new = if what == 1 { s + size } else { (s / 2).max(1) };
                    trail += &format!(" realloc({s}->{new})");
                    let p = unsafe { m.realloc(p, lay(s), new) };
                    live[i] = (p, new); f.r += 1; f.ro += s; f.rn += new; f.cur = f.cur + new - s;
                }
            }
        }
        for s in sps.iter_mut() { s.min = s.min.min(f.cur); s.max = s.max.max(f.cur); }
        mc_rt::state(f.hash() ^ (sps.len() as u64) << 50 ^ mc_rt::hash::mix(sps.iter().fold(0, |h, s| mc_rt::hash::mix(h ^ (s.min as u64) << 32 ^ s.max as u64))));
    }
    readall!();
    trail += " (read)";
    readall!();
    for (k, s) in sps.iter().enumerate().take(1) { if let Ok(g) = m.delta_statistics(&s.sp) {
        for text in [format!("{g}"), format!("{g:?}")] { prints(&text, &g).map_err(|e| format!("after{trail}: save point {k}: {e}"))?; }
        prints(&s.sp.metrics.to_string(), &s.sp.metrics).map_err(|e| format!("after{trail}: save point {k}: {e}"))?;
    } }
    let shown = sps.iter().map(|s| format!("{}:{}..{}", s.later, s.min, s.max)).collect::<Vec<_>>().join(" ");
    clear_handler();
    Ok(if sps.is_empty() { "-".into() } else if exact { format!("{:x}", mc_rt::hash::hash_bytes(shown.as_bytes()) % 4096) } else { format!("{:x}", f.hash() % 4096) })
}

pub fn c05(tier: Tier) -> Property {
    let mut p = Property::new("C05", "model_checking", "every sequence of the stated length of save, read, alloc, zeroed alloc, free, grow, shrink and refused requests on a fresh allocator instance (the system allocator is the harness), all nine counters and the memory in use compared with the true ones");
    let b = Bounds::seq();
    fn plain(step: usize, _c: usize) -> usize { 1 << step }
    fn huge(step: usize, _c: usize) -> usize { (1usize << 33) + (3 << (10 + step)) }
    fn same(_s: usize, c: usize) -> usize { 8 + c }
    let d = tier.pick(6, 7);
    for first in 0..6 { for second in 0..16 {
        if second >= 7 && first != 2 && first != 3 { continue; }
        if second >= 10 || (second == 6 && first != 2 && first != 3) { continue; }
        p.explore(format!("powers of two, from {first},{second}"), b, move || history::<16>(d, &[first, second], plain, false));
        p.explore(format!("beyond 32 bits, from {first},{second}"), b, move || history::<16>(d - 1, &[first, second], huge, false));
        p.explore(format!("similar sizes, from {first},{second}"), b, move || history::<16>(d - 1, &[first, second], same, false));
    } }
    let total = if mc_std::mc::SHIMMED { (1u64 << 32) + 3 } else { (1 << 25) + 3 };
    for what in 0..3 { for size in [1usize, 4096] {
        if size == 1 { p.enumerate_fast(format!("2^32 calls of kind {what}"), move |e| many(what, size, total, e)); }
        else { p.enumerate_fast(format!("2^22 calls of kind {what}, adding up to 16 GiB"), move |e| many(what, size, 1 << 22, e)); }
    } }
    p
}

fn one_block(c: Call) -> Option<*mut u8> { Some(if let Call::Dealloc(..) = c { std::ptr::null_mut() } else { (1usize << 40) as *mut u8 }) }
/// so many calls of one kind that counts and bytes leave 16 and 32 bits behind; figures compared around each power of two
fn many(what: usize, size: usize, total: u64, e: &mut Enum) {
    reset_system(one_block);
    let m = fresh::<16>();
    let m: &MetricsAllocator<'_, 16> = &m;
    let sp = m.save_point();
    let name = ["alloc & free", "zeroed alloc & free", "grow & shrink"][what];
    let mut f = Fig::default();
    let p = if what == 2 { f.a += 1; f.ab += size; f.cur += size; unsafe { m.alloc(lay(size)) } } else { std::ptr::null_mut() };
    let stops: Vec<u64> = (0..=total.ilog2()).flat_map(|b| { let x = 1u64 << b; [x.saturating_sub(1), x, x + 1, x + x / 2] }).chain([total]).filter(|x| *x <= total).collect::<std::collections::BTreeSet<_>>().into_iter().collect();
    let mut done = 0u64;
    for stop in stops {
        let k = (stop - done) as usize;
        match what {
            0 => { for _ in 0..k { unsafe { let p = m.alloc(lay(size)); m.dealloc(p, lay(size)); } } f.a += k; f.ab += k * size; f.d += k; f.db += k * size; }
            1 => { for _ in 0..k { unsafe { let p = m.alloc_zeroed(lay(size)); m.dealloc(p, lay(size)); } } f.z += k; f.zb += k * size; f.d += k; f.db += k * size; }
            _ => { for _ in 0..k { unsafe { m.realloc(p, lay(size), 2 * size); m.realloc(p, lay(2 * size), size); } } f.r += 2 * k; f.ro += 3 * k * size; f.rn += 3 * k * size; }
        }
        done = stop;
        let sp2 = m.save_point();
        match m.delta_statistics(&sp) {
            Err(x) if e.evaluations < 16 => return e.fail(format!("after {done} times {name}: {x}")),
            Err(_) => {}
            Ok(g) => if Fig::of(&g) != f { return e.fail(format!("after {done} times {name} of {size} bytes: {:?} is reported, true figures are {f:?}", Fig::of(&g))) },
        }
        if Fig::of(&sp2.metrics) != f { return e.fail(format!("after {done} times {name} of {size} bytes: the save point says {:?}, true figures are {f:?}", Fig::of(&sp2.metrics))); }
        e.case(mc_rt::hash::mix(done * 4 + what as u64) | 1);
    }
    clear_handler();
    e.sample(|| format!("{done} times {name} of {size} bytes"));
}

pub fn c06(tier: Tier) -> Property {
    let mut p = Property::new("C06", "model_checking", "every sequence of the stated length of save, read, alloc, zeroed alloc, free, grow, shrink and refused requests on allocator instances with room for 1 to 4 save points; low and high marks and the overflow of every save point compared with the true ones");
    let b = Bounds::seq();
    fn plain(step: usize, _c: usize) -> usize { 1 << (20 - step) }
    fn rising(step: usize, _c: usize) -> usize { 1 << step }
    fn huge(step: usize, _c: usize) -> usize { (1usize << 33) + (3 << (10 + step)) }
    let d = tier.pick(6, 7);
    for first in [0usize, 2, 3] { for second in 0..10 {
        if (second >= 6 && first == 0) || second == 4 || second == 5 { continue; }
        p.explore(format!("room for 1, from {first},{second}"), b, move || history::<1>(d, &[first, second], plain, true));
        p.explore(format!("room for 2, from {first},{second}"), b, move || history::<2>(d, &[first, second], rising, true));
        p.explore(format!("room for 3, from {first},{second}"), b, move || history::<3>(d, &[first, second], plain, true));
        p.explore(format!("room for 4, from {first},{second}"), b, move || history::<4>(d, &[first, second], rising, true));
        p.explore(format!("room for 3, beyond 32 bits, from {first},{second}"), b, move || history::<3>(d - 1, &[first, second], huge, true));
    } }
    // longer histories over fewer operations
    let l = tier.pick(10, 11);
    for first in [0usize, 2] { for second in [0usize, 1, 2, 7] {
        if first == 0 && second == 7 { continue; }
        p.explore(format!("long, room for 1, from {first},{second}"), b, move || few::<1>(l, &[first, second]));
        p.explore(format!("long, room for 2, from {first},{second}"), b, move || few::<2>(l, &[first, second]));
        p.explore(format!("long, room for 3, from {first},{second}"), b, move || few::<3>(l, &[first, second]));
        p.explore(format!("long, room for 5, from {first},{second}"), b, move || few::<5>(l, &[first, second]));
    } }
    p.explore("the default room (1024)", b, || { room::<1024>() });
    p.explore("room for 7", b, || { room::<7>() });
    for what in 0..3 { p.enumerate_fast(format!("read very often ({what})"), move |e| reads(what, tier.pick(1 << 20, 1 << 26), e)); }
    p
}
/// two save points read so many times, with nothing (0), an allocation and its release (1) or just a change of memory in use (2) from one to the next
fn reads(what: usize, times: u64, e: &mut Enum) {
    reset_system(one_block);
    let m = fresh::<4>();
    let m: &MetricsAllocator<'_, 4> = &m;
    let p = unsafe { m.alloc(lay(1000)) };
    let first = m.save_point();
    unsafe { m.alloc(lay(50)); m.dealloc(p, lay(200)); }
    let second = m.save_point();
    let (mut lo, mut hi) = ((850usize, 850usize), (1050usize, 850usize));
    let mut cur = 850;
    for i in 0..times {
        if what == 1 { unsafe { m.alloc(lay(16)); m.dealloc(p, lay(16)); } hi.0 = hi.0.max(cur + 16); hi.1 = hi.1.max(cur + 16); }
        if what == 2 {
            // goes up and down, ever further
            let (up, by) = (i % 2 == 0, 1 + (i / 2 % 800) as usize);
            if up { unsafe { m.alloc(lay(by)) }; cur += by } else { unsafe { m.dealloc(p, lay(by)) }; cur -= by }
            lo = (lo.0.min(cur), lo.1.min(cur)); hi = (hi.0.max(cur), hi.1.max(cur));
        }
        for (k, sp, l, h) in [(1, &first, lo.0, hi.0), (2, &second, lo.1, hi.1)] {
            match m.delta_statistics(sp) {
                Ok(g) => if (g.min_used_memory, g.max_used_memory) != (l, h) { return e.fail(format!("reading {i} of save point {k}: min {} max {}, true ones are {l} and {h}", g.min_used_memory, g.max_used_memory)) },
                Err(x) => return e.fail(format!("reading {i} of save point {k}: {x}")),
            }
        }
        if i.is_power_of_two() { e.case(mc_rt::hash::mix(i * 4 + what as u64) | 1); }
    }
    clear_handler();
    e.sample(|| format!("{times} readings"));
}
/// save, read one, alloc, free newest, realloc
fn few<const N: usize>(depth: usize, prefix: &[usize]) -> Result<String, String> {
    reset_system(fictional);
    let m = fresh::<N>();
    let m: &MetricsAllocator<'_, N> = &m;
    let mut live: Vec<(*mut u8, usize)> = vec![];
    let mut cur = 0usize;
    let mut sps: Vec<Sp<N>> = vec![];
    let mut trail = String::new();
    let judge = |k: usize, s: &Sp<N>, trail: &str| -> Result<(), String> {
        match m.delta_statistics(&s.sp) {
            Err(_) if s.later <= N => Err(format!("after{trail} (room for {N} save points): save point {k} reports an error although only {} save points followed", s.later)),
            Ok(_) if s.later > N => Err(format!("after{trail} (room for {N} save points): save point {k} reports figures although {} save points followed", s.later)),
            Ok(g) if (g.min_used_memory, g.max_used_memory) != (s.min, s.max) => Err(format!("after{trail} (room for {N} save points): save point {k} reports min {} max {}, true ones are {} and {}", g.min_used_memory, g.max_used_memory, s.min, s.max)),
            _ => Ok(()),
        }
    };
    for step in 0..depth {
        let n = if live.is_empty() { 3 } else { 4 };
        let c = if step < prefix.len() { match prefix[step] { 7 => 3, x => x } } else { mc_rt::choose(n) };
        if c >= n { return Ok("-".into()) }
        match c {
            0 => { trail += " save"; let sp = m.save_point(); for s in sps.iter_mut() { s.later += 1; } sps.push(Sp { sp, fig: Fig::default(), min: cur, max: cur, later: 0 }); }
            1 => { if sps.is_empty() { return Ok("-".into()) } let k = if sps.len() == 1 { 0 } else { mc_rt::choose(sps.len().min(4)) }; let k = sps.len() - 1 - k; trail += &format!(" read{k}"); judge(k, &sps[k], &trail)?; }
            2 => { let s = 1 << step; trail += &format!(" alloc({s})"); live.push((unsafe { m.alloc(lay(s)) }, s)); cur += s; }
            _ => { let (p, s) = live.pop().unwrap(); trail += &format!(" free({s})"); unsafe { m.dealloc(p, lay(s)) }; cur -= s; }
        }
        for s in sps.iter_mut() { s.min = s.min.min(cur); s.max = s.max.max(cur); }
        mc_rt::state(sps.iter().fold(cur as u64, |h, s| mc_rt::hash::mix(h ^ (s.min as u64) << 32 ^ s.max as u64 ^ (s.later as u64) << 60)));
    }
    for (k, s) in sps.iter().enumerate() { judge(k, s, &trail)?; }
    clear_handler();
    Ok(if sps.is_empty() { "-".into() } else { format!("{:x}", mc_rt::hash::hash_bytes(sps.iter().map(|s| format!("{}:{}..{}", s.later, s.min, s.max)).collect::<String>().as_bytes()) % 4096) })
}
/// fills the room for save points completely and beyond, from every earlier number of save points up to one turn
fn room<const N: usize>() -> Result<String, String> {
    reset_system(fictional);
    let m = fresh::<N>();
    let m: &MetricsAllocator<'_, N> = &m;
    let before = [0, 1, N - 1, N, N + 1][mc_rt::choose(5)];
    let after = [0, 1, N - 1, N, N + 1, 2 * N, 2 * N + 1][mc_rt::choose(7)];
    let spike = mc_rt::choose(after + 1);
    if N > 100 && ![0, 1, after / 2, after.saturating_sub(1), after].contains(&spike) { return Ok("-".into()) }
    unsafe { m.alloc(lay(500)) };
    for _ in 0..before { m.save_point(); }
    let sp = m.save_point();
    for i in 0..=after {
        if i == spike { unsafe { let p = m.alloc(lay(64)); m.dealloc(p, lay(64)); m.dealloc(p, lay(100)); m.alloc(lay(100)); } }
        if i < after { m.save_point(); }
    }
    for _ in 0..2 {
        match m.delta_statistics(&sp) {
            Err(_) if after <= N => return Err(format!("error although only {after} of {N} save points followed (after {before} earlier ones)")),
            Ok(_) if after > N => return Err(format!("figures although {after} save points followed, with room for {N} (after {before} earlier ones)")),
            Ok(g) if (g.min_used_memory, g.max_used_memory) != (400, 564) => return Err(format!("min {} max {} instead of 400 and 564 ({before} save points before, {after} after, spike in number {spike})", g.min_used_memory, g.max_used_memory)),
            _ => {}
        }
    }
    clear_handler();
    Ok(format!("{before} {after}"))
}

// ---- C07: threads ----------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq)]
enum Do { A(usize), Z(usize), F, R(usize), X(usize), Read, Save, ReadNew }

struct Obs { cur: usize, start: u64, end: u64 }

fn concurrent<const N: usize>(pre: &[usize], threads: &[Vec<Do>]) -> Result<String, String> {
    reset_system(fictional);
    let m = fresh::<N>();
    let m: &MetricsAllocator<'_, N> = &m;
    mc_rt::watch(m as *const _ as *const u8, std::mem::size_of::<MetricsAllocator<'_, N>>());
    let base: usize = pre.iter().sum();
    let given: RefCell<Vec<(*mut u8, usize)>> = RefCell::new(pre.iter().map(|s| (unsafe { m.alloc(lay(*s)) }, *s)).collect());
    let sp0 = m.save_point();
    if sp0.metrics.current_used_memory != base { return Err(format!("the save point says {} bytes in use, true figure is {base}", sp0.metrics.current_used_memory)); }
    let clock = Cell::new(0u64);
    let tick = || { clock.set(clock.get() + 1); clock.get() };
    let seen: RefCell<Vec<Obs>> = RefCell::new(vec![]);
    let done: RefCell<(Fig, isize)> = RefCell::new((Fig::default(), 0));
    let held: Cell<usize> = Cell::new(base);       // bytes surely outstanding: returned to somebody and not yet handed back
    let peak: Cell<usize> = Cell::new(base);
    let took = |s: usize| { held.set(held.get() + s); if held.get() > peak.get() { peak.set(held.get()) } mc_rt::note((held.get() as u64) << 32 | peak.get() as u64); };
    let gone = |s: usize| { held.set(held.get() - s); mc_rt::note(held.get() as u64); };

    // one reading of `sp`, taken when `cur0` bytes were in use, by the running thread
    let read = |sp: &MetricsAllocatorSavePoint<'_, N>, since: u64, what: &str| -> MetricsAllocatorStatistics<usize> {
        mc_rt::trace(|| format!("reads {what}"));
        let start = tick();
        mc_rt::note(start);
        let g = match m.delta_statistics(sp) { Ok(g) => g, Err(e) => mc_rt::fail(format!("reading {what}: {e}")) };
        let end = tick();
        mc_rt::note(end ^ 0x99); mc_rt::note(mc_rt::hash::hash_bytes(format!("{g:?}").as_bytes()));
        mc_rt::trace(|| format!("  {g}"));
        let (c0, c1, lo, hi) = (sp.metrics.current_used_memory, g.current_used_memory, g.min_used_memory, g.max_used_memory);
        if !(lo <= c0 && c0 <= hi) { mc_rt::fail(format!("reading {what}: {c0} bytes were in use at the save point, but it says min {lo}, max {hi}")); }
        if !(lo <= c1 && c1 <= hi) { mc_rt::fail(format!("reading {what}: {c1} bytes are in use according to itself, but it says min {lo}, max {hi}")); }
        for o in seen.borrow().iter() { if o.start > since && o.end < start && !(lo <= o.cur && o.cur <= hi) { mc_rt::fail(format!("reading {what}: an earlier reading since that save point saw {} bytes in use, but this one says min {lo}, max {hi}", o.cur)); } }
        seen.borrow_mut().push(Obs { cur: c1, start, end });
        g
    };
    let run = |t: usize, ops: &[Do]| {
        let mut live: Vec<(*mut u8, usize)> = given.borrow().get(t).map(|x| vec![*x]).unwrap_or_default();
        let mut newest: Option<(MetricsAllocatorSavePoint<'_, N>, u64)> = None;
        for op in ops {
            mc_rt::op();
            mc_rt::trace(|| format!("{op:?}"));
            match *op {
                Do::A(s) => { let p = unsafe { m.alloc(lay(s)) }; live.push((p, s)); took(s); let d = &mut *done.borrow_mut(); d.0.a += 1; d.0.ab += s; d.1 += s as isize; }
                Do::Z(s) => { let p = unsafe { m.alloc_zeroed(lay(s)) }; live.push((p, s)); took(s); let d = &mut *done.borrow_mut(); d.0.z += 1; d.0.zb += s; d.1 += s as isize; }
                Do::F => { let (p, s) = live.pop().unwrap(); gone(s); unsafe { m.dealloc(p, lay(s)) }; let d = &mut *done.borrow_mut(); d.0.d += 1; d.0.db += s; d.1 -= s as isize; }
                Do::R(n) => { let (p, s) = live.pop().unwrap(); if n < s { gone(s - n) } let p = unsafe { m.realloc(p, lay(s), n) }; live.push((p, n)); if n > s { took(n - s) } let d = &mut *done.borrow_mut(); d.0.r += 1; d.0.ro += s; d.0.rn += n; d.1 += n as isize - s as isize; }
                Do::X(s) => { mc_rt::atomically(|| refusing(|| unsafe { m.alloc(lay(s)) })); }
                Do::Read => { read(&sp0, 0, "the first save point"); }
                Do::Save => { let sp = m.save_point(); newest = Some((sp, tick())); mc_rt::note(clock.get()); }
                Do::ReadNew => { if let Some((sp, since)) = &newest { read(sp, *since, "the newest save point"); } }
            }
        }
    };
    let hs: Vec<_> = threads.iter().enumerate().map(|(i, ops)| { let run = &run; mc_rt::spawn(move || run(i, ops)) }).collect();
    for h in hs { if let Err(p) = h.join() { return Err(format!("panicked: {}", mc_rt::panic_message(&p))); } }
    mc_rt::op();
    let g = read(&sp0, 0, "the first save point after all threads ended");
    let (f, net) = &*done.borrow();
    let mut want = *f;
    want.cur = (base as isize + net) as usize;
    if Fig::of(&g) != want { return Err(format!("after all threads ended the figures are {:?}, true ones are {want:?}", Fig::of(&g))); }
    let rises: usize = base + threads.iter().enumerate().map(|(t, ops)| { let mut l = pre.get(t).map(|x| vec![*x]).unwrap_or_default(); let (mut c, mut best) = (0isize, 0isize); for o in ops { match *o { Do::A(s) | Do::Z(s) => { l.push(s); c += s as isize } Do::F => c -= l.pop().unwrap() as isize, Do::R(n) => { let s = l.pop().unwrap(); l.push(n); c += n as isize - s as isize } _ => {} } best = best.max(c); } best as usize }).sum::<usize>();
    let falls: usize = threads.iter().enumerate().map(|(t, ops)| { let mut l = pre.get(t).map(|x| vec![*x]).unwrap_or_default(); let (mut c, mut worst) = (0isize, 0isize); for o in ops { match *o { Do::A(s) | Do::Z(s) => { l.push(s); c += s as isize } Do::F => c -= l.pop().unwrap() as isize, Do::R(n) => { let s = l.pop().unwrap(); l.push(n); c += n as isize - s as isize } _ => {} } worst = worst.min(c); } (-worst) as usize }).sum::<usize>();
    if g.max_used_memory < peak.get() { return Err(format!("{} bytes were held at once, but the maximum reported is {}", peak.get(), g.max_used_memory)); }
    if g.max_used_memory > rises { return Err(format!("the maximum reported is {}, but no more than {rises} bytes could ever be in use", g.max_used_memory)); }
    if g.min_used_memory < base - falls { return Err(format!("the minimum reported is {}, but no less than {} bytes could ever be in use", g.min_used_memory, base - falls)); }
    clear_handler();
    let s = seen.borrow().iter().map(|o| o.cur.to_string()).collect::<Vec<_>>().join(",");
    Ok(format!("min {} max {} seen {s}", g.min_used_memory, g.max_used_memory))
}

pub fn c07(tier: Tier) -> Property {
    use Do::*;
    let mut p = Property::new("C07", "model_checking", "every schedule of the listed threads (allocating, reallocating, freeing, reading and saving on one allocator instance) within the preemption bound under sequential consistency, and within preemption and stale-read bounds under relaxed memory; save points are taken by one thread at a time, and not while another one is reading");
    p.assume("memory model: C11 release/acquire views without load buffering");
    let scns: Vec<(&str, Vec<usize>, Vec<Vec<Do>>, u32)> = vec![
        ("alloc | alloc", vec![], vec![vec![A(8)], vec![A(16)]], 9),
        ("alloc free | alloc free", vec![], vec![vec![A(8), F], vec![A(16), F]], 3),
        ("free | free", vec![8, 16], vec![vec![F], vec![F]], 9),
        ("zeroed free | realloc", vec![0, 16], vec![vec![Z(32), F], vec![R(64)]], 3),
        ("shrink | grow | read", vec![64, 16], vec![vec![R(8)], vec![R(32)], vec![Read]], 2),
        ("alloc free | read read", vec![], vec![vec![A(8), F], vec![Read, Read]], 3),
        ("alloc free | alloc free | read read", vec![], vec![vec![A(8), F], vec![A(16), F], vec![Read, Read]], 2),
        ("alloc free | save readnew", vec![], vec![vec![A(8), F], vec![Save, ReadNew]], 4),
        ("alloc free | save readnew read", vec![100], vec![vec![F, A(100)], vec![Save, ReadNew, Read]], 3),
        ("free alloc | save readnew readnew", vec![100], vec![vec![F, A(7)], vec![Save, ReadNew, ReadNew]], 3),
        ("alloc free | alloc free | save readnew", vec![], vec![vec![A(8), F], vec![A(16), F], vec![Save, ReadNew]], 2),
        ("alloc free | save save readnew read", vec![], vec![vec![A(8), F], vec![Save, Save, ReadNew, Read]], 2),
        ("realloc realloc | save readnew readnew", vec![10], vec![vec![R(90), R(10)], vec![Save, ReadNew, ReadNew]], 2),
        ("alloc alloc | read | read", vec![], vec![vec![A(8), A(16)], vec![Read, Read], vec![Read]], 2),
        ("refused alloc | refused read", vec![5], vec![vec![X(1000), A(8)], vec![X(2000), Read]], 2),
        ("alloc realloc free | alloc realloc free", vec![], vec![vec![A(8), R(24), F], vec![A(16), R(4), F]], 2),
        ("alloc | alloc | alloc", vec![], vec![vec![A(8)], vec![A(16)], vec![A(32)]], 3),
        ("free | free | alloc", vec![8, 16, 0], vec![vec![F], vec![F], vec![A(32)]], 3),
        ("same size realloc | alloc", vec![16, 0], vec![vec![R(16)], vec![A(8)]], 9),
    ];
    for (name, pre, threads, pb) in scns {
        let pre: Vec<usize> = pre;
        let deep = tier == Tier::Thorough;
        let cap = tier.pick(1_000_000, 60_000_000);
        let sp = if deep { if threads.len() > 2 { pb + 3 } else { u32::MAX } } else if pb == 9 { u32::MAX } else { pb + 1 };
        let wp = pb.min(tier.pick(2, 3));
        let modes = [
            (if sp == u32::MAX { "SC full".into() } else { format!("SC p{sp}") }, Bounds { preemptions: sp, max_execs: cap, ..Bounds::full() }),
            (format!("C11 p{wp} d{}", tier.pick(1, 2)), Bounds { max_execs: cap, ..Bounds::weak(wp, tier.pick(1, 2)) }),
        ];
        for (m, b) in modes {
            let (pre, threads) = (pre.clone(), threads.clone());
            let pre: Vec<usize> = pre.iter().map(|x| (*x).max(1)).collect();
            p.explore(format!("{name} [{m}]"), b, move || concurrent::<4>(&pre, &threads));
        }
    }
    p
}

// ---- C08: transparency -----------------------------------------------------------------------------

fn pattern(seed: usize, i: usize) -> u8 { (seed.wrapping_mul(31) ^ i.wrapping_mul(7)) as u8 | 1 }
struct Blk { p: *mut u8, l: Layout, seed: usize }
impl Blk {
    fn fill(&self) { for i in 0..self.l.size() { unsafe { *self.p.add(i) = pattern(self.seed, i) } } }
    fn intact(&self, upto: usize) -> bool { (0..upto.min(self.l.size())).all(|i| unsafe { *self.p.add(i) } == pattern(self.seed, i)) }
}

/// a request, without addresses (they differ from run to run)
fn shown(c: &Call, asked: &Call) -> String {
    let of = |p: *mut u8| if matches!(asked, Call::Dealloc(q, _) | Call::Realloc(q, ..) if *q == p) { "the block" } else { "another block" };
    match c {
        Call::Alloc(l) => format!("for {} bytes aligned {}", l.size(), l.align()),
        Call::Zeroed(l) => format!("for {} zeroed bytes aligned {}", l.size(), l.align()),
        Call::Dealloc(p, l) => format!("to free {} as {} bytes aligned {}", of(*p), l.size(), l.align()),
        Call::Realloc(p, l, n) => format!("to reallocate {} as {} bytes aligned {} to {n}", of(*p), l.size(), l.align()),
    }
}
fn transparent(depth: usize, first: usize) -> Result<String, String> {
    reset_system(system);
    let m = fresh::<4>();
    let m: &MetricsAllocator<'_, 4> = &m;
    const L: [(usize, usize); 6] = [(1, 1), (24, 8), (7, 16), (130, 64), (33, 2), (5000, 4096)];
    const NEW: [usize; 4] = [1, 24, 200, 9000];
    let mut live: Vec<Blk> = vec![];
    let mut trail = String::new();
    let mut shape = 0u64;
    struct Free<'a>(&'a mut Vec<Blk>);
    impl Drop for Free<'_> { fn drop(&mut self) { clear_handler(); for b in self.0.drain(..) { unsafe { std::alloc::System.dealloc(b.p, b.l) } } } }
    let free = Free(&mut live);
    let live = &mut *free.0;
    for step in 0..depth {
        // per layout: alloc, zeroed, each possibly refused; then per live block (up to 2 newest): free, realloc to 4 sizes, possibly refused
        let nl = live.len().min(2);
        let na = L.len() * 4;
        let n = na + nl * (1 + NEW.len() * 2);
        let c = if step == 0 { first } else { mc_rt::choose(n) };
        CALLS.with(|v| v.borrow_mut().clear());
        let expect: Call;
        if c < na {
            let (size, align) = L[c / 4];
            let l = Layout::from_size_align(size, align).unwrap();
            let (zero, refuse) = (c % 4 & 1 == 1, c % 4 & 2 == 2);
            trail += &format!(" {}{}({size} aligned {align})", if refuse { "refused-" } else { "" }, if zero { "zeroed" } else { "alloc" });
            let go = || unsafe { if zero { m.alloc_zeroed(l) } else { m.alloc(l) } };
            let p = if refuse { refusing(go) } else { go() };
            expect = if zero { Call::Zeroed(l) } else { Call::Alloc(l) };
            if refuse { if !p.is_null() { return Err(format!("after{trail}: the refused request did not return null")); } }
            else {
                if p.is_null() { return Err(format!("after{trail}: null although the system served the request")); }
                if p as usize % align != 0 { return Err(format!("after{trail}: not aligned")); }
                if zero && (0..size).any(|i| unsafe { *p.add(i) } != 0) { return Err(format!("after{trail}: zeroed memory is not zero")); }
                let b = Blk { p, l, seed: step * 100 + c };
                for o in live.iter() { if (b.p as usize) < o.p as usize + o.l.size() && (o.p as usize) < b.p as usize + size { return Err(format!("after{trail}: overlaps a live block")); } }
                b.fill();
                live.push(b);
            }
        } else {
            let per = 1 + NEW.len() * 2;
            let i = live.len() - 1 - (c - na) / per;
            let what = (c - na) % per;
            if what == 0 {
                let b = live.remove(i);
                trail += &format!(" free({})", b.l.size());
                expect = Call::Dealloc(b.p, b.l);
                unsafe { m.dealloc(b.p, b.l) };
            } else {
                let (new, refuse) = (NEW[(what - 1) / 2], (what - 1) % 2 == 1);
                let (p, l) = (live[i].p, live[i].l);
                trail += &format!(" {}realloc({} -> {new} aligned {})", if refuse { "refused-" } else { "" }, l.size(), l.align());
                let go = || unsafe { m.realloc(p, l, new) };
                let q = if refuse { refusing(go) } else { go() };
                expect = Call::Realloc(p, l, new);
                if refuse { if !q.is_null() { return Err(format!("after{trail}: the refused request did not return null")); } }
                else {
                    if q.is_null() { return Err(format!("after{trail}: null although the system served the request")); }
                    if q as usize % l.align() != 0 { return Err(format!("after{trail}: not aligned")); }
                    let nb = Blk { p: q, l: Layout::from_size_align(new, l.align()).unwrap(), seed: live[i].seed };
                    if !nb.intact(l.size()) { live[i] = nb; return Err(format!("after{trail}: contents were lost")); }
                    live[i] = nb;
                    for (j, o) in live.iter().enumerate() { if j != i && (q as usize) < o.p as usize + o.l.size() && (o.p as usize) < q as usize + new { return Err(format!("after{trail}: overlaps a live block")); } }
                    live[i].fill();
                }
            }
        }
        let calls = CALLS.with(|v| v.borrow().clone());
        let ok = calls.len() == 1 && match (calls[0], expect) {
            // zeroing by hand what the system allocated, or zeroing more than asked, is transparent, too
            (Call::Alloc(a) | Call::Zeroed(a), Call::Alloc(b) | Call::Zeroed(b)) => a == b,
            (a, b) => a == b,
        };
        if !ok { return Err(format!("after{trail}: the system allocator was asked {} instead of {}", calls.iter().map(|c| shown(c, &expect)).collect::<Vec<_>>().join(" and then "), shown(&expect, &expect))); }
        for b in live.iter() { if !b.intact(usize::MAX) { return Err(format!("after{trail}: the contents of a block of {} bytes changed", b.l.size())); } }
        shape = mc_rt::hash::mix(shape ^ live.iter().fold(0, |h, b| mc_rt::hash::mix(h ^ b.l.size() as u64)));
        mc_rt::state(shape);
    }
    Ok(format!("{:x}", shape % 1024))
}

pub fn c08(tier: Tier) -> Property {
    let mut p = Property::new("C08", "model_checking", "every sequence of the stated length of alloc, zeroed alloc (6 layouts), free and realloc (4 new sizes), each possibly refused by the system; contents, alignment, disjointness and the requests that reach the system are checked after every step");
    for first in 0..24 { p.explore(format!("from request {first}"), Bounds::seq(), move || transparent(tier.pick(4, 5), first)); }
    for shift in 0..=22u32 { p.enumerate(format!("sizes around powers of two, aligned {}", 1u32 << shift), move |e| ladder(1 << shift, e)); }
    p.enumerate("sizes beyond 32 bits", |e| beyond(e));
    p
}
fn only(expect: &[Call]) -> Result<(), String> {
    let calls = CALLS.with(|v| std::mem::take(&mut *v.borrow_mut()));
    let same = calls.len() == expect.len() && calls.iter().zip(expect).all(|(a, b)| match (a, b) { (Call::Alloc(a) | Call::Zeroed(a), Call::Alloc(b) | Call::Zeroed(b)) => a == b, _ => a == b });
    if same { return Ok(()) }
    Err(format!("the system allocator was asked {} instead of {}", calls.iter().map(|c| shown(c, &expect[0])).collect::<Vec<_>>().join(" and then "), expect.iter().map(|c| shown(c, &expect[0])).collect::<Vec<_>>().join(" and then ")))
}
/// every size around a power of two up to 4 MiB: fresh and reused memory, zeroed or not, grown and shrunk
fn ladder(align: usize, e: &mut Enum) {
    let m = fresh::<4>();
    let m: &MetricsAllocator<'_, 4> = &m;
    let sizes: std::collections::BTreeSet<usize> = (0..=22).flat_map(|b| { let x = 1usize << b; [x - 1, x, x + 1, x + x / 2] }).filter(|x| *x > 0).collect();
    for &size in &sizes {
        let l = Layout::from_size_align(size, align).unwrap();
        let one = |zero: bool, new: Option<usize>| -> Result<(), String> {
            reset_system(system);
            let p = unsafe { if zero { m.alloc_zeroed(l) } else { m.alloc(l) } };
            if p.is_null() { return Err("null".into()) }
            only(&[if zero { Call::Zeroed(l) } else { Call::Alloc(l) }])?;
            let b = Blk { p, l, seed: size ^ align };
            let r = (|| {
                if p as usize % align != 0 { return Err("not aligned".into()) }
                if zero && !unsafe { std::slice::from_raw_parts(p, size) }.iter().all(|x| *x == 0) { return Err("zeroed memory is not zero".to_string()) }
                b.fill();
                Ok(())
            })();
            let mut now = b;
            if let (Ok(()), Some(new)) = (&r, new) {
                let q = unsafe { m.realloc(now.p, l, new) };
                let was = now.p;
                if q.is_null() { return Err(format!("null when reallocating to {new}")) }
                now = Blk { p: q, l: Layout::from_size_align(new, align).unwrap(), seed: now.seed };
                only(&[Call::Realloc(was, l, new)])?;
                if q as usize % align != 0 { return Err(format!("not aligned after reallocating to {new}")) }
                if !now.intact(size) { return Err(format!("contents were lost when reallocating to {new}")) }
            }
            unsafe { m.dealloc(now.p, now.l) }
            only(&[Call::Dealloc(now.p, now.l)])?;
            r
        };
        for (zero, new) in [(false, None), (true, None), (false, Some(1)), (false, Some(size.div_ceil(2))), (false, Some(size + 1)), (false, Some(size * 2)), (true, Some(size * 3)), (true, None)] {
            if e.failed() { return }
            e.case(mc_rt::hash::mix((size * 64 + align.trailing_zeros() as usize) as u64) | 1);
            let r = one(zero, new);
            clear_handler();
            if let Err(x) = r { return e.fail(format!("{size} bytes aligned {align}{}{}: {x}", if zero { " zeroed" } else { "" }, new.map_or(String::new(), |n| format!(", then reallocated to {n}")))) }
        }
    }
    e.sample(|| format!("{} sizes aligned {align}", sizes.len()));
}
/// sizes no memory is provided for: the request and the answer of the system are handed on as they are
fn beyond(e: &mut Enum) {
    let m = fresh::<4>();
    let m: &MetricsAllocator<'_, 4> = &m;
    let sizes: Vec<usize> = (23..62).flat_map(|b| { let x = 1usize << b; [x - 1, x, x + 1, x + 4096] }).collect();
    for &size in &sizes { for shift in [0u32, 3, 12, 16] {
        let l = Layout::from_size_align(size, 1 << shift).unwrap();
        for new in [1, size / 2, size + 1, size + (1 << 20)] {
            e.case(mc_rt::hash::mix(size as u64 + shift as u64) | 1);
            reset_system(fictional);
            let go = || -> Result<(), String> {
                let p = unsafe { m.alloc(l) };
                if p as usize != 1 << 16 { return Err(format!("{p:?} was returned instead of what the system provided")) }
                only(&[Call::Alloc(l)])?;
                let q = unsafe { m.realloc(p, l, new) };
                if q as usize != 1 << 16 { return Err(format!("{q:?} was returned instead of what the system provided")) }
                only(&[Call::Realloc(p, l, new)])?;
                let n = Layout::from_size_align(new, 1 << shift).unwrap();
                unsafe { m.dealloc(q, n) }
                only(&[Call::Dealloc(q, n)])?;
                Ok(())
            };
            let r = go();
            clear_handler();
            if let Err(x) = r { return e.fail(format!("{size} bytes aligned {}, then {new}: {x}", 1u32 << shift)) }
        }
    } }
    e.sample(|| format!("{} sizes", sizes.len()));
}
