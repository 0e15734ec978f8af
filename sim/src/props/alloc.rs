//! Logging allocator: C10.
use super::*;
use std::alloc::{GlobalAlloc, Layout};
use std::sync::Arc;
use zkp_logging_allocator::LoggingAllocator;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C10",
        quick: 50000,
        thorough: 1500000,
        run: c10,
        real: "zkp-logging-allocator (an instance of LoggingAllocator, its GlobalAlloc implementation)",
        stub: "thread scheduling simulated; malloc, calloc, realloc and memalign below it fail on demand; the logger is a counting sink",
        rule: "one evaluation is one run of one to five simulated threads allocating and freeing through one allocator with an observer, statistics checked at every quiescent point; distinct = different interleaving hash",
    }]
}

#[derive(Clone, Copy, Debug)]
enum Op {
    Alloc { size: usize, align: usize, zero: bool, fail: bool },
    Free(usize),
    Realloc { which: usize, size: usize, fail: bool },
    Huge(usize, bool),
}
/// (start, end, delta): the change happened somewhere between the two instants of the global order
#[derive(Default)]
struct Log {
    clock: u64,
    changes: Vec<(u64, u64, i64)>,
    total: u64,
    count: u64,
    largest: u64,
    live: i64,
    errors: Vec<String>,
    kept: Vec<(usize, Layout, u8)>,
}
// the log is bookkeeping of the harness: a plain cell is enough since one simulated thread runs at a time,
// and it must not add scheduling points inside the window being observed
struct Cell(std::cell::UnsafeCell<Log>);
unsafe impl Sync for Cell {}
unsafe impl Send for Cell {}
impl Cell {
    #[allow(clippy::mut_from_ref)]
    fn get(&self) -> &mut Log {
        unsafe { &mut *self.0.get() }
    }
}
struct World {
    a: LoggingAllocator,
    log: Cell,
}
fn tick(w: &World) -> u64 {
    let l = w.log.get();
    l.clock += 1;
    l.clock
}
fn got(w: &World, s: u64, size: usize) {
    let e = tick(w);
    let l = w.log.get();
    l.changes.push((s, e, size as i64));
    l.total += size as u64;
    l.count += 1;
    l.largest = l.largest.max(size as u64);
    l.live += size as i64;
}
fn gone(w: &World, s: u64, size: usize) {
    let e = tick(w);
    let l = w.log.get();
    l.changes.push((s, e, -(size as i64)));
    l.live -= size as i64;
}
fn worker(w: &World, ops: &[Op], tag: u8, fill: bool) {
    // blocks left over by other threads in an earlier phase
    let mut held: Vec<(*mut u8, Layout, u8)> = vec![];
    let k = w.log.get().kept.len();
    for (p, l, t) in w.log.get().kept.split_off(k - (k + 1) / 2) {
        held.push((p as *mut u8, l, t));
    }
    let bad = |s: String| w.log.get().errors.push(s);
    for op in ops {
        match *op {
            Op::Alloc { size, align, zero, fail } => {
                let l = Layout::from_size_align(size, align).unwrap();
                let s = tick(w);
                rt::malloc_arm(fail);
                let p = unsafe { if zero { w.a.alloc_zeroed(l) } else { w.a.alloc(l) } };
                let hits = rt::malloc_hits();
                rt::malloc_arm(false);
                if fail && hits > 0 {
                    if !p.is_null() {
                        bad(format!("allocation of {} succeeded although the system had no memory", size));
                    }
                    continue;
                }
                if p.is_null() {
                    bad(format!("allocation of {} refused although the system had memory", size));
                    continue;
                }
                got(w, s, size);
                if p as usize % align != 0 {
                    bad(format!("allocation of {} not aligned to {}", size, align));
                }
                if zero && !unsafe { std::slice::from_raw_parts(p, size) }.iter().all(|b| *b == 0) {
                    bad(format!("zeroed allocation of {} is not zero", size));
                }
                if fill {
                    unsafe { std::ptr::write_bytes(p, tag, size.min(64)) };
                }
                held.push((p, l, tag));
            }
            Op::Free(k) => {
                if held.is_empty() {
                    continue;
                }
                let (p, l, _) = held.swap_remove(k % held.len());
                let s = tick(w);
                unsafe { w.a.dealloc(p, l) };
                gone(w, s, l.size());
            }
            Op::Realloc { which, size, fail } => {
                if held.is_empty() {
                    continue;
                }
                let k = which % held.len();
                let (p, l, old) = held[k];
                let s = tick(w);
                rt::malloc_arm(fail);
                let q = unsafe { w.a.realloc(p, l, size) };
                let hits = rt::malloc_hits();
                rt::malloc_arm(false);
                if fail && hits > 0 {
                    if !q.is_null() {
                        bad("reallocation succeeded although the system had no memory".into());
                    }
                    // the old block stays valid
                    continue;
                }
                if q.is_null() {
                    bad(format!("reallocation to {} refused although the system had memory", size));
                    continue;
                }
                got(w, s, size);
                gone(w, s, l.size());
                if fill && !unsafe { std::slice::from_raw_parts(q, l.size().min(size).min(64)) }.iter().all(|b| *b == old) {
                    bad("reallocation lost the contents".into());
                }
                if fill {
                    unsafe { std::ptr::write_bytes(q, tag, size.min(64)) };
                }
                held[k] = (q, Layout::from_size_align(size, l.align()).unwrap(), tag);
            }
            Op::Huge(size, zero) => {
                let l = Layout::from_size_align(size, 16).unwrap();
                let p = unsafe { if zero { w.a.alloc_zeroed(l) } else { w.a.alloc(l) } };
                if !p.is_null() {
                    bad(format!("allocation of {} bytes, above the limit, not refused", size));
                    unsafe { w.a.dealloc(p, l) };
                }
            }
        }
    }
    // keep the first half, free the rest: some stays live until the end of the phase
    while held.len() > ops.len() / 8 {
        let (p, l, _) = held.pop().unwrap();
        let s = tick(w);
        unsafe { w.a.dealloc(p, l) };
        gone(w, s, l.size());
    }
    w.log.get().kept.extend(held.into_iter().map(|(p, l, t)| (p as usize, l, t)));
}
/// Bounds of the true high-water mark given when each change can have happened.
fn peak_bounds(l: &Log) -> (i64, i64) {
    let mut lo_ev: Vec<(u64, i64)> = vec![];
    let mut hi_ev: Vec<(u64, i64)> = vec![];
    for &(s, e, d) in &l.changes {
        // at the latest / at the earliest for allocations, the other way round for frees
        lo_ev.push((if d > 0 { e } else { s }, d));
        hi_ev.push((if d > 0 { s } else { e }, d));
    }
    let top = |mut v: Vec<(u64, i64)>, up_first: bool| {
        v.sort_by_key(|&(t, d)| (t, if up_first { -d } else { d }));
        let (mut x, mut m) = (0i64, 0i64);
        for (_, d) in v {
            x += d;
            m = m.max(x);
        }
        m
    };
    (top(lo_ev, false), top(hi_ev, true))
}
fn quiescent(w: &World, seen: u64, phase: usize) -> Option<String> {
    let l = w.log.get();
    if let Some(e) = l.errors.first() {
        return Some(e.clone());
    }
    let (lo, hi) = peak_bounds(l);
    let a = &w.a;
    if a.allocated() as u64 != l.live as u64 {
        return Some(format!("phase {}: {} bytes live, reported {}", phase, l.live, a.allocated() as i64));
    }
    if a.total_allocated() as u64 != l.total {
        return Some(format!("phase {}: {} bytes allocated in total, reported {}", phase, l.total, a.total_allocated()));
    }
    if a.num_allocations() as u64 != l.count {
        return Some(format!("phase {}: {} allocations, reported {}", phase, l.count, a.num_allocations()));
    }
    if a.largest_allocated() as u64 != l.largest {
        return Some(format!("phase {}: largest allocation {}, reported {}", phase, l.largest, a.largest_allocated()));
    }
    let p = a.peak_allocated() as i64;
    if p < lo || p > hi {
        return Some(format!("phase {}: high-water mark between {} and {}, reported {}", phase, lo, hi, p));
    }
    if (p as u64) < seen {
        return Some(format!("phase {}: {} live bytes were reported at one time, high-water mark reported {}", phase, seen, p));
    }
    if a.peak_allocated() < a.allocated() {
        return Some(format!("phase {}: high-water mark {} below live bytes {}", phase, p, a.allocated()));
    }
    None
}

fn c10(ctx: &mut Ctx) {
    let mut rng = ctx.rng.clone();
    let threads = 1 + rng.below(5);
    let phases = 1 + rng.below(3);
    let nops = 4 + rng.below(16);
    let mut faults = vec![];
    let mut plan: Vec<Vec<Vec<Op>>> = vec![];
    let big = rng.chance(1, 6);
    for ph in 0..phases {
        let mut v = vec![];
        for t in 0..threads {
            let mut ops = vec![];
            for i in 0..nops {
                let size = match rng.below(if big { 12 } else { 10 }) {
                    0 => 1,
                    1..=6 => 1 + rng.below(500),
                    7 | 8 => 1000 + rng.below(20000),
                    9 => 999_999 + rng.below(3),
                    10 => 1_000_000 + rng.below(500_000),
                    _ => 12_000_000,
                };
                let align = 1usize << rng.below(9);
                let op = match rng.below(12) {
                    0..=4 => Op::Alloc { size, align, zero: rng.chance(1, 4), fail: false },
                    5..=8 => Op::Free(rng.below(100)),
                    9 | 10 => Op::Realloc { which: rng.below(100), size, fail: false },
                    _ => Op::Huge(1_000_000_000_000usize + [0, 1, 1 << 40, 1 << 50][rng.below(4)], rng.chance(1, 3)),
                };
                if rng.chance(1, 6) {
                    faults.push(json!({"k": "no memory for this allocation", "p": ph, "t": t, "i": i}));
                }
                ops.push(op);
            }
            v.push(ops);
        }
        plan.push(v);
    }
    let plan = Arc::new(plan);
    let observer = rng.chance(3, 4);
    let logging = rng.chance(1, 2);
    let fill = true;
    let sched = Sched::random(&mut rng);
    ctx.input(hash_of(format!("{:?}", plan).as_bytes()));
    let run = ctx.sim("threads on one allocator", &sched, &faults, &mut |fs| {
        log::set_max_level(if logging { log::LevelFilter::Trace } else { log::LevelFilter::Off });
        let w: &'static World = Box::leak(Box::new(World { a: LoggingAllocator::new(), log: Cell(std::cell::UnsafeCell::new(Log::default())) }));
        let mut plan2 = (*plan).clone();
        for f in fs {
            let at = |k: &str| f[k].as_u64().unwrap() as usize;
            match &mut plan2[at("p")][at("t")][at("i")] {
                Op::Alloc { fail, .. } | Op::Realloc { fail, .. } => *fail = true,
                _ => {}
            }
        }
        let mut seen = 0u64;
        for (k, ph) in plan2.into_iter().enumerate() {
            let hs: Vec<_> = ph.into_iter().enumerate().map(|(t, ops)| rt::spawn(move || catch_unwind(AssertUnwindSafe(|| worker(w, &ops, 1 + t as u8, fill))).map_err(|e| rt::panic_text(&e)))).collect();
            if observer {
                // reads the statistics whenever it is scheduled
                let o = rt::spawn(move || {
                    let (mut top, mut low) = (0u64, String::new());
                    for _ in 0..60 {
                        let x = w.a.allocated();
                        if (x as i64) < 0 {
                            low = format!("{} live bytes reported", x as i64);
                        }
                        top = top.max(x as u64 & (u64::MAX >> 1));
                        let (p, t, n, l) = (w.a.peak_allocated(), w.a.total_allocated(), w.a.num_allocations(), w.a.largest_allocated());
                        let _ = (p, t, n, l);
                        rt::point();
                    }
                    w.a.log_statistics();
                    (top, low)
                });
                for h in hs {
                    match h.join() {
                        Ok(Ok(())) => {}
                        Ok(Err(e)) => return json!({ "bad": format!("panic: {}", e) }),
                        Err(_) => return json!({"bad": "panic"}),
                    }
                }
                let (t, l) = o.join().unwrap();
                seen = seen.max(t);
                if !l.is_empty() {
                    return json!({ "bad": l });
                }
            } else {
                for h in hs {
                    match h.join() {
                        Ok(Ok(())) => {}
                        Ok(Err(e)) => return json!({ "bad": format!("panic: {}", e) }),
                        Err(_) => return json!({"bad": "panic"}),
                    }
                }
            }
            if let Some(s) = quiescent(w, seen, k) {
                return json!({ "bad": s });
            }
        }
        json!({"ok": w.log.get().count})
    });
    ctx.count(&format!("{} threads", threads), 1);
    if !ctx.ended(&run) {
        return;
    }
    if let Some(s) = run.out["bad"].as_str().or(run.out["panic"].as_str()) {
        let sig = if s.contains("high-water") {
            "high-water mark wrong"
        } else if s.contains("reported") {
            "statistics wrong"
        } else if s.contains("panic") {
            "crash"
        } else {
            "allocation misbehaves"
        };
        ctx.fail(sig, format!("{} threads, {} phases: {}", threads, phases, s));
        return;
    }
    ctx.count("allocations", run.out["ok"].as_u64().unwrap_or(0));
    ctx.sample(format!("{} threads x {} operations x {} phases, observer {}", threads, nops, phases, observer));
}
