//! Resource failures while proving (C12) and unsatisfied claims (C13).
use super::*;
use crate::protocol::{self, Cheat};
use crate::scen;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::SeqCst};
use std::sync::Arc;
use zkp_hash::Hash;
use zkp_merkle_tree::{Tree, VectorCommitment};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C12",
            quick: 800,
            thorough: 40000,
            run: c12,
            real: "zkp-stark prover, Merkle tree, mmap-vec, FFT; rayon unmodified",
            stub: "operating system memory mapping, heap allocation and thread creation fail on command; log sink and leaf container are the harness's own and panic on command; thread scheduling simulated",
            rule: "one evaluation is one process history under one seeded schedule: one or two proofs during which faults strike at drawn points, then the same requests again without faults, every returned proof compared with the reference bytes; distinct = different interleaving hash",
        },
        Prop {
            id: "C13",
            quick: 1900,
            thorough: 40000,
            run: c13,
            real: "zkp-stark prover including its self check; rayon unmodified",
            stub: "storage damage is applied to the trace or the public inputs between construction and proving; thread scheduling simulated",
            rule: "one evaluation is one process history of proving requests with sound and damaged traces under one seeded schedule, each request judged by an independent check of the constraints; distinct = different interleaving hash",
        },
    ]
}

/// Log sink that fails (panics) at the k-th record.
struct Sink;
static LOG_AT: AtomicI64 = AtomicI64::new(-1);
static LOG_N: AtomicI64 = AtomicI64::new(0);
impl log::Log for Sink {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        let text = format!("{}", r.args());
        let i = LOG_N.fetch_add(1, SeqCst);
        if i == LOG_AT.load(SeqCst) {
            std::panic::panic_any(format!("log sink failed at record {} ({})", i, text.len()));
        }
    }
    fn flush(&self) {}
}
static SINK: Sink = Sink;

/// Container whose leaf hash fails once, inside whatever task happens to compute it.
struct Fragile {
    n: usize,
    at: i64,
    seen: AtomicU64,
}
impl VectorCommitment for Fragile {
    type Leaf = zkp_u256::U256;
    fn len(&self) -> usize {
        self.n
    }
    fn leaf(&self, i: usize) -> zkp_u256::U256 {
        if self.seen.fetch_add(1, SeqCst) as i64 == self.at {
            panic!("leaf unreadable");
        }
        zkp_u256::U256::from(i as u64 * 7 + 1)
    }
    fn leaf_hash(&self, i: usize) -> Hash {
        use zkp_hash::Hashable;
        self.leaf(i).hash()
    }
}
fn fragile_root(n: usize) -> protocol::H {
    let leaves = (0..n)
        .map(|i| {
            let mut b = [0u8; 32];
            b[24..].copy_from_slice(&(i as u64 * 7 + 1).to_be_bytes());
            b
        })
        .collect();
    protocol::Merkle::new(leaves).root()
}
fn commit_fragile(n: usize, at: i64) -> Value {
    match catch_unwind(AssertUnwindSafe(|| Tree::from_leaves(Fragile { n, at, seen: AtomicU64::new(0) }))) {
        Ok(Ok(t)) => json!({ "root": hex(t.commitment().hash().as_bytes()) }),
        Ok(Err(e)) => json!({"error": format!("{:?}", e)}),
        Err(e) => json!({"panic": rt::panic_text(&e)}),
    }
}
fn panic_in_pool(depth: usize) -> Value {
    // someone else's task dies in the shared pool
    let r = catch_unwind(AssertUnwindSafe(|| {
        fn go(d: usize) {
            if d == 0 {
                panic!("foreign task failed");
            }
            rayon::join(|| go(d - 1), || rt::point());
        }
        rayon::scope(|s| {
            s.spawn(|_| rt::point());
            s.spawn(move |_| go(depth));
        })
    }));
    json!({ "panicked": r.is_err() })
}

fn disarm() -> [i64; 3] {
    let m = rt::malloc_stop();
    let n = rt::mmap_count();
    rt::mmap_faults(-1, 0);
    LOG_AT.store(-1, SeqCst);
    [m, n, LOG_N.load(SeqCst)]
}
fn arm(faults: &[Value]) {
    LOG_N.store(0, SeqCst);
    rt::mmap_faults(-1, 0);
    let mut malloc = (-1, 0);
    for f in faults {
        let at = f["at"].as_i64().unwrap_or(-1);
        let n = f["n"].as_i64().unwrap_or(1);
        match f["k"].as_str().unwrap_or("") {
            "mapping refused" => rt::mmap_faults(at, n),
            "allocation refused" => malloc = (at, n),
            "log sink panic" => LOG_AT.store(at, SeqCst),
            _ => (),
        }
    }
    rt::malloc_plan(malloc.0, malloc.1);
}

fn c12(ctx: &mut Ctx) {
    let mut rng = ctx.rng.clone();
    let (a, ta) = {
        let cl = if ctx.idx % 300 == 13 { Class::Huge } else { class(&mut rng) };
        scen::gen(&mut rng, cl)
    };
    let (b, tb) = scen::gen(&mut rng, Class::Tiny);
    ctx.input(sys_hash(&a));
    let ra = hex(&protocol::prove(&a, &ta, &mut Cheat::honest()).bytes);
    let rb = hex(&protocol::prove(&b, &tb, &mut Cheat::honest()).bytes);
    let probe = a.n > 4096;
    if ctx.idx % 16 == 5 {
        return no_threads(ctx, rng, &a, &ta, &ra);
    }
    // where can it fail? count the operations of a fault-free run
    let run = ctx.sim("count operations", &quiet(), &[], &mut |_| {
        rt::global_pool(2);
        let _ = log::set_logger(&SINK);
        log::set_max_level(log::LevelFilter::Trace);
        arm(&[]);
        let v = prove_json(&a, &ta);
        let c = disarm();
        json!({"v": v["bytes"] == json!(ra), "c": c})
    });
    if !ctx.ended(&run) {
        return;
    }
    let c: Vec<i64> = (0..3).map(|i| run.out["c"][i].as_i64().unwrap_or(1).max(1)).collect();
    let rounds = if probe { 1 } else { 5 };
    for _ in 0..rounds {
        let mut faults = vec![];
        let mut kinds = vec![rng.below(5)];
        if rng.chance(1, 4) {
            kinds.push(rng.below(5));
        }
        for k in kinds {
            let f = match k {
                0 | 1 => json!({"k": "mapping refused", "at": rng.below(c[1] as usize + 1), "n": rng.pick(&[1, 1, 2, 1000])}),
                2 => json!({"k": "allocation refused", "at": rng.below(c[0] as usize + 1), "n": rng.pick(&[1, 1, 1000000])}),
                3 => json!({"k": "log sink panic", "at": rng.below(c[2] as usize + 1)}),
                _ => json!({"k": if rng.chance(1, 2) { "leaf hash panic in a task" } else { "foreign task panic" }, "at": rng.below(200), "size": 1usize << (1 + rng.below(8))}),
            };
            faults.push(f);
        }
        if !probe && rng.chance(1, 3) {
            // a bad spell: many requests in a row fail
            faults.push(json!({"k": "spell of failures", "n": 1usize << (1 + rng.below(6)), "at": rng.below(1000), "what": rng.below(4), "size": 1usize << (1 + rng.below(5))}));
        }
        let workers = pool_size(&mut rng);
        let sched = Sched::random(&mut rng);
        let both = rng.chance(1, 2);
        let logging = rng.chance(3, 4) || faults.iter().any(|f| f["k"] == "log sink panic");
        let (b1, tb1) = (Arc::new(b.clone()), Arc::new(tb.clone()));
        let run = ctx.sim("prove under faults", &sched, &faults, &mut |fl| {
            rt::global_pool(workers);
            if logging {
                let _ = log::set_logger(&SINK);
                log::set_max_level(log::LevelFilter::Trace);
            }
            arm(fl);
            let h = if both {
                let (b1, tb1) = (b1.clone(), tb1.clone());
                let fl = fl.to_vec();
                Some(rt::spawn(move || {
                    let mut side = vec![];
                    for f in &fl {
                        match f["k"].as_str() {
                            Some("leaf hash panic in a task") => side.push(json!({"size": f["size"], "r": commit_fragile(f["size"].as_u64().unwrap() as usize, f["at"].as_i64().unwrap() % (2 * f["size"].as_i64().unwrap()))})),
                            Some("foreign task panic") => side.push(panic_in_pool(1 + f["at"].as_u64().unwrap() as usize % 5)),
                            _ => (),
                        }
                    }
                    (prove_json(&b1, &tb1), side)
                }))
            } else {
                for f in fl {
                    match f["k"].as_str() {
                        Some("leaf hash panic in a task") => drop(commit_fragile(f["size"].as_u64().unwrap() as usize, f["at"].as_i64().unwrap() % f["size"].as_i64().unwrap())),
                        Some("foreign task panic") => drop(panic_in_pool(1 + f["at"].as_u64().unwrap() as usize % 5)),
                        _ => (),
                    }
                }
                None
            };
            let first = prove_json(&a, &ta);
            let (other, side) = h.map_or((Value::Null, vec![]), |h| h.join().unwrap_or((json!({"panic": "thread"}), vec![])));
            let hit = disarm();
            for f in fl.iter().filter(|f| f["k"] == "spell of failures") {
                let (at, size) = (f["at"].as_i64().unwrap(), f["size"].as_i64().unwrap());
                for i in 0..f["n"].as_i64().unwrap() {
                    match (f["what"].as_i64().unwrap() + i) % 4 {
                        0 | 1 => {
                            arm(&[json!({"k": "mapping refused", "at": (at + i) % 7, "n": 1})]);
                            let _ = prove_json(&b1, &tb1);
                            let _ = disarm();
                        }
                        2 => drop(commit_fragile(size as usize, (at + i) % size)),
                        _ => drop(panic_in_pool(1 + i as usize % 3)),
                    }
                }
            }
            let again_b = prove_json(&b1, &tb1);
            let again = prove_json(&a, &ta);
            let n = 64;
            let tree = commit_fragile(n, -1);
            json!({"first": first, "other": other, "side": side, "again": again, "again_b": again_b, "tree": tree, "hit": hit})
        });
        ctx.count(&format!("{} workers", workers), 1);
        let used = ctx.used_faults(&faults);
        let what = |s: &str| format!("{} with {} workers, faults {}: {}", describe(&a), workers, json!(used), s);
        if run.exit == Exit::Signal(6) && run.stats.malloc_failed > 0 {
            ctx.count("process ended by a refused allocation", 1);
            continue;
        }
        if !ctx.ended(&run) {
            return;
        }
        let o = &run.out;
        if o["panic"].is_string() {
            ctx.fail("crash", what(&o["panic"].to_string()));
            return;
        }
        for (name, want) in [("first", &ra), ("other", &rb)] {
            match o[name]["bytes"].as_str() {
                Some(h) if h == want => ctx.count("proof correct despite the fault", 1),
                Some(_) => {
                    ctx.fail("wrong proof after a resource failure", what(name));
                    return;
                }
                None => {
                    if o[name]["panic"].is_string() || o[name]["error"].is_string() {
                        ctx.count("failed visibly", 1)
                    }
                }
            }
        }
        for s in o["side"].as_array().map(|v| v.to_vec()).unwrap_or_default() {
            if let (Some(r), Some(n)) = (s["r"]["root"].as_str(), s["size"].as_u64()) {
                if r != hex(&fragile_root(n as usize)) {
                    ctx.fail("wrong commitment after a task failure", what(&s.to_string()));
                    return;
                }
            }
        }
        for (name, want) in [("again", &ra), ("again_b", &rb)] {
            if o[name]["bytes"].as_str() != Some(want) {
                let s = o[name].to_string();
                ctx.fail("request after a failure does not succeed", what(&format!("{}: {}", name, &s[..s.len().min(200)])));
                return;
            }
        }
        if o["tree"]["root"].as_str() != Some(&hex(&fragile_root(64))) {
            ctx.fail("request after a failure does not succeed", what(&format!("commitment: {}", o["tree"])));
            return;
        }
        ctx.sample(what(&sched.name()));
    }
}
use crate::rt::Exit;

/// The worker pool itself cannot be brought up: the call has to fail or to work, not to hang or to lie.
fn no_threads(ctx: &mut Ctx, mut rng: Rng, a: &Sys, ta: &[Vec<F>], want: &str) {
    let workers = 1 + rng.below(8);
    let f = vec![json!({"k": "thread creation refused", "at": rng.below(workers)})];
    let sched = Sched::random(&mut rng);
    let run = ctx.sim("prove without threads", &sched, &f, &mut |fl| {
        std::env::set_var("RAYON_NUM_THREADS", workers.to_string());
        if let Some(x) = fl.first() {
            rt::thread_faults(x["at"].as_i64().unwrap());
        }
        json!([prove_json(a, ta), prove_json(a, ta)])
    });
    if !ctx.ended(&run) {
        return;
    }
    for i in 0..2 {
        match run.out[i]["bytes"].as_str() {
            Some(h) if h != want => {
                ctx.fail("wrong proof after a resource failure", format!("{}, {} workers, {}", describe(a), workers, f[0]));
                return;
            }
            Some(_) => ctx.count("proof correct despite the fault", 1),
            None => ctx.count("failed visibly", 1),
        }
    }
}

/// Damage to a trace or to the public inputs between construction and proving.
pub fn corrupt(rng: &mut Rng, sys: &mut Sys, t: &mut Vec<Vec<F>>) -> &'static str {
    let (c, n) = (sys.cols, sys.n);
    let j = rng.below(c);
    let edge = [0, n - 1, n / 2, n.min(2) - 1];
    let i = if rng.chance(1, 3) { edge[rng.below(4)] } else { rng.below(n) };
    match rng.below(12) {
        0 | 1 => {
            t[j][i] = rng.field();
            "cell replaced"
        }
        2 => {
            t[j][i] += F::one();
            "cell off by one"
        }
        3 => {
            let mut b = t[j][i].to_bytes();
            let k = rng.below(251);
            b[31 - k / 8] ^= 1 << (k % 8);
            if let Some(x) = F::from_bytes(&b) {
                t[j][i] = x;
            }
            "bit flip in a cell"
        }
        4 => {
            t[j][i] = F::ZERO;
            "cell zeroed"
        }
        5 => {
            let k = rng.below(n);
            t[j].swap(i, k);
            "cells of a column swapped"
        }
        6 => {
            let k = rng.below(c);
            let x = t[k][i];
            let y = t[j][i];
            t[j][i] = x;
            t[k][i] = y;
            "cells of a row swapped"
        }
        7 => {
            let k = rng.below(n);
            for col in t.iter_mut() {
                col[i] = col[k];
            }
            "row overwritten by another"
        }
        8 => {
            t[j].rotate_left(1);
            "column shifted"
        }
        9 => {
            for r in i..n {
                t[j][r] = F::ZERO;
            }
            "tail of a column lost"
        }
        10 if !sys.claims.is_empty() => {
            let k = rng.below(sys.claims.len());
            let d = rng.below(scen::significant(&sys.claims[k]));
            sys.claims[k][d] += F::one();
            "public input changed"
        }
        _ => {
            t[j][i] = -t[j][i];
            "cell negated"
        }
    }
}

fn c13(ctx: &mut Ctx) {
    let mut rng = ctx.rng.clone();
    let cl = if ctx.idx % 250 == 17 { Class::Huge } else { class(&mut rng) };
    let (sys, trace) = scen::gen(&mut rng, cl);
    let mut reqs = vec![];
    let n = match cl {
        Class::Huge => 2,
        Class::Medium => 5,
        _ => 12,
    };
    for k in 0..n {
        let (mut s, mut t) = (sys.clone(), trace.clone());
        let mut what = vec![];
        if k > 0 && rng.chance(3, 4) || cl == Class::Huge {
            for _ in 0..1 + rng.below(6) / 4 {
                what.push(corrupt(&mut rng, &mut s, &mut t));
            }
        }
        if cl != Class::Huge && rng.chance(1, 3) {
            scen::params(&mut rng, &mut s, cl);
        }
        if rng.chance(1, 4) {
            s.queries = 1;
        }
        let ok = s.satisfied(&t);
        for w in &what {
            ctx.fault(w, 1);
        }
        ctx.input(sys_hash(&s) ^ hash_of(format!("{:?}", t).as_bytes()));
        ctx.count(if ok { "satisfied requests" } else { "unsatisfied requests" }, 1);
        reqs.push((s, t, ok, what));
    }
    for i in (1..reqs.len()).rev() {
        reqs.swap(i, rng.below(i + 1));
    }
    let reqs = Arc::new(reqs);
    let threads = if cl == Class::Huge { 1 } else { 1 + rng.below(3) };
    let workers = pool_size(&mut rng);
    let sched = Sched::random(&mut rng);
    let run = ctx.sim("proving requests", &sched, &[], &mut |_| {
        rt::global_pool(workers);
        let hs: Vec<_> = (0..threads)
            .map(|k| {
                let reqs = reqs.clone();
                rt::spawn(move || {
                    let mut out = vec![];
                    for (i, (s, t, _, _)) in reqs.iter().enumerate() {
                        if i % threads == k {
                            let v = prove_json(s, t);
                            out.push(json!([i, if v["bytes"].is_string() { 1 } else if v["error"].is_string() { 0 } else { 2 }]));
                        }
                    }
                    out
                })
            })
            .collect();
        json!(hs.into_iter().flat_map(|h| h.join().unwrap_or_default()).collect::<Vec<_>>())
    });
    ctx.count(&format!("{} workers", workers), 1);
    if !ctx.ended(&run) {
        return;
    }
    for x in run.out.as_array().cloned().unwrap_or_default() {
        let (s, _, ok, what) = &reqs[x[0].as_u64().unwrap() as usize];
        match (x[1].as_u64().unwrap(), *ok) {
            (1, false) => {
                ctx.fail("proof handed out for an unsatisfied claim", format!("{}: {:?}", describe(s), what));
                return;
            }
            (0, false) => ctx.count("refused with an error", 1),
            (2, false) => ctx.count("refused with a panic", 1),
            (1, true) => ctx.count("proved", 1),
            _ => ctx.count("satisfied but not proved", 1),
        }
    }
    ctx.sample(format!("{} requests to {} workers, first: {}", reqs.len(), workers, describe(&reqs[0].0)));
}
