//! Concurrent sessions of every kind in one process: C16.
use super::*;
use crate::props::fft::{model, run_op, Op};
use crate::props::merkle::{inspect, positions, Leafs};
use crate::protocol::{self, Cheat};
use crate::props::sig::{sc, un, unpt};
use crate::{curve, scen};
use std::sync::Arc;
use zkp_elliptic_curve_crypto::{PrivateKey, PublicKey};
use zkp_mmap_vec::MmapVec;
use zkp_merkle_tree::Tree;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C16",
        quick: 4800,
        thorough: 40000,
        run: c16,
        real: "zkp-stark prover and verifier, Merkle tree, FFT, signatures, mmap-vec; rayon unmodified",
        stub: "thread scheduling, futexes and clocks simulated",
        rule: "one evaluation is one process in which two to seven sessions of different kinds run at the same time on shared, separate or nested pools under one seeded schedule, each result compared with its isolated reference; distinct = different interleaving hash",
    }]
}

enum Work {
    Prove(Sys, Vec<Vec<F>>, Vec<u8>),
    Verify(Sys, Vec<u8>, bool),
    Commit(Leafs, Vec<Vec<usize>>),
    Transform(Op, Vec<F>, Vec<F>),
    Sign(curve::U, curve::U),
    Store(Vec<(usize, usize)>, u64),
}
impl Work {
    fn name(&self) -> &'static str {
        match self {
            Work::Prove(..) => "prove",
            Work::Verify(..) => "verify",
            Work::Commit(..) => "commit",
            Work::Transform(..) => "transform",
            Work::Sign(..) => "sign",
            Work::Store(..) => "store",
        }
    }
    /// What is wrong with the result, if anything.
    fn go(&self) -> Option<String> {
        match self {
            Work::Prove(s, t, want) => {
                let v = prove_json(s, t);
                match v["bytes"].as_str() {
                    Some(h) if unhex(h) == *want => None,
                    Some(_) => Some("different proof".into()),
                    None => Some(v.to_string()),
                }
            }
            Work::Verify(s, b, ok) => {
                let r = verify_code(&s.to_repo(), b);
                if (r.0 == 1) == *ok && r.0 < 2 {
                    None
                } else {
                    Some(format!("expected accept={}, got {:?}", ok, r))
                }
            }
            Work::Commit(l, opens) => match catch_unwind(AssertUnwindSafe(|| Tree::from_leaves(l.repo()))) {
                Ok(Ok(t)) => inspect(&t, &l.model(), opens, &[]),
                Ok(Err(e)) => Some(format!("{:?}", e)),
                Err(e) => Some(rt::panic_text(&e)),
            },
            Work::Transform(op, v, want) => match catch_unwind(AssertUnwindSafe(|| run_op(op, v))) {
                Ok(r) if r == *want => None,
                Ok(_) => Some("different values".into()),
                Err(e) => Some(rt::panic_text(&e)),
            },
            Work::Sign(key, m) => match catch_unwind(AssertUnwindSafe(|| {
                let k = PrivateKey::from(sc(key));
                let q = PublicKey::from(&k);
                let s = k.sign(&sc(m));
                (unpt(q.as_affine()), un(s.r()), un(s.w()), q.verify(&sc(m), &s))
            })) {
                Ok((q, r, w, own)) => {
                    let want = curve::mul(&curve::generator(), key);
                    if q != want {
                        Some("different public key".into())
                    } else if !own || !curve::verify(&want, m, &r, &w) {
                        Some("invalid signature".into())
                    } else {
                        None
                    }
                }
                Err(e) => Some(rt::panic_text(&e)),
            },
            Work::Store(steps, tag) => match catch_unwind(AssertUnwindSafe(|| store(steps, *tag))) {
                Ok(r) => r,
                Err(e) => Some(rt::panic_text(&e)),
            },
        }
    }
}
/// A session that keeps a few mapped vectors of its own: make, fill, check, copy, drop.
fn store(steps: &[(usize, usize)], tag: u64) -> Option<String> {
    let word = |j: usize, i: usize| tag.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ ((j as u64) << 40) ^ i as u64;
    let mut held: Vec<Option<(usize, MmapVec<u64>)>> = (0..3).map(|_| None).collect();
    for (j, (size, slot)) in steps.iter().enumerate() {
        let slot = slot % held.len();
        if let Some((k, v)) = &held[slot] {
            let wrong = (0..v.len()).find(|i| v[*i] != word(*k, *i));
            if let Some(i) = wrong {
                return Some(format!("element {} of {} changed", i, v.len()));
            }
            if steps.len() % 2 == 0 && j % 5 == 4 {
                let c = v.clone();
                if c[..] != v[..] {
                    return Some("copy differs".into());
                }
            }
        }
        held[slot] = None;
        rt::point();
        let mut v = MmapVec::with_capacity(*size);
        if !v.is_empty() {
            return Some("new vector is not empty".into());
        }
        for i in 0..*size {
            v.push(word(j, i));
        }
        rt::point();
        held[slot] = Some((j, v));
    }
    for (k, v) in held.iter().flatten() {
        if (0..v.len()).any(|i| v[i] != word(*k, i)) {
            return Some("stored elements changed".into());
        }
    }
    None
}
fn draw_store(rng: &mut Rng) -> Work {
    let steps = (0..4 + rng.below(12))
        .map(|_| {
            let size = if rng.chance(1, 4) { 1 + rng.below(3000) } else { 1usize << (6 + rng.below(10)) };
            (size, rng.below(3))
        })
        .collect();
    Work::Store(steps, rng.next() >> 12)
}
fn draw(rng: &mut Rng, rich: bool, crowd: bool) -> Work {
    match if crowd && rng.chance(2, 3) { 0 } else { rng.below(11) } {
        0 | 1 | 2 => {
            let cl = if rich { class(rng) } else { Class::Tiny };
            let (s, t) = scen::gen(rng, cl);
            let b = protocol::prove(&s, &t, &mut Cheat::honest()).bytes;
            Work::Prove(s, t, b)
        }
        3 | 4 => {
            let (s, t) = scen::gen(rng, Class::Tiny);
            let mut b = protocol::prove(&s, &t, &mut Cheat::honest()).bytes;
            if rng.chance(1, 2) {
                let i = rng.below(b.len());
                b[i] ^= 1 << rng.below(8);
            }
            let ok = protocol::verify(&s, &b).is_ok();
            Work::Verify(s, b, ok)
        }
        5 => {
            let n = 1usize << rng.below(9);
            let l = Leafs::gen(rng, n);
            let opens = (0..2).map(|_| positions(rng, n)).collect();
            Work::Commit(l, opens)
        }
        6 | 7 => draw_store(rng),
        8 => {
            let key = loop {
                let k = curve::scalar(rng);
                if k != [0; 4] {
                    break k;
                }
            };
            Work::Sign(key, curve::scalar(rng))
        }
        _ => {
            let n = 1usize << (2 + rng.below(11));
            let v: Vec<F> = (0..n).map(|_| rng.field()).collect();
            let c = F::from_u64(3 + rng.below(1000) as u64);
            let op = match rng.below(5) {
                0 => Op::Fft,
                1 => Op::Ifft,
                2 => Op::FftCofactor(c),
                3 => Op::IfftCofactor(c),
                _ => Op::CloneShifted(c),
            };
            let want = model(&op, &v);
            Work::Transform(op, v, want)
        }
    }
}

fn c16(ctx: &mut Ctx) {
    let mut rng = ctx.rng.clone();
    let crowd = rng.chance(1, 3);
    let n = if crowd { 4 + rng.below(6) } else { 2 + rng.below(6) };
    let mut work: Vec<Arc<Work>> = vec![];
    let large = crowd && rng.chance(1, 6);
    if large {
        let (mut s, t) = scen::gen(&mut rng, Class::Large);
        s.queries = s.queries.min(10);
        let b = protocol::prove(&s, &t, &mut Cheat::honest()).bytes;
        let w = Arc::new(Work::Prove(s, t, b));
        (0..n).for_each(|_| work.push(w.clone()));
        ctx.count("crowds of large proofs", 1);
    }
    if work.is_empty() && rng.chance(1, 6) {
        // sessions that compete for mappings
        for _ in 0..n {
            work.push(Arc::new(draw_store(&mut rng)));
        }
        ctx.count("crowds of stores", 1);
    }
    for k in work.len()..n {
        // the same session more than once, too
        if k > 0 && rng.chance(1, 5) {
            let j = rng.below(k);
            work.push(work[j].clone());
        } else {
            work.push(Arc::new(draw(&mut rng, k == 0, crowd)));
        }
    }
    let work = Arc::new(work);
    // a crowd: more sessions than workers, all as tasks of one pool
    let place: Vec<usize> = (0..n).map(|_| if crowd { 5 } else { rng.below(6) }).collect();
    let sizes: Vec<usize> = (0..n).map(|_| 1 + rng.below(4)).collect();
    let workers = if crowd { 2 + rng.below(3) } else { pool_size(&mut rng) };
    if crowd {
        ctx.count("crowds of sibling sessions", 1);
    }
    let sched = Sched::random(&mut rng);
    for w in work.iter() {
        ctx.count(&format!("{} sessions", w.name()), 1);
    }
    ctx.input(ctx.seed);
    let run = ctx.sim("mixed sessions", &sched, &[], &mut |_| {
        rt::global_pool(workers);
        let shared = Arc::new(rt::pool(sizes[0]));
        let mut hs = vec![];
        let mut nested = vec![];
        for k in 0..n {
            let work = work.clone();
            let size = sizes[k];
            let shared = shared.clone();
            match place[k] {
                0 | 1 => hs.push((k, rt::spawn(move || work[k].go()))),
                2 => hs.push((k, rt::spawn(move || rt::pool(size).install(|| work[k].go())))),
                3 => hs.push((k, rt::spawn(move || shared.install(|| work[k].go())))),
                _ => nested.push(k),
            }
        }
        // the rest from inside the global pool: all at once as sibling tasks
        let mut out: Vec<Value> = vec![Value::Null; n];
        let results: Vec<(usize, std::sync::Mutex<Option<String>>)> = nested.iter().map(|k| (*k, std::sync::Mutex::new(Some("never ran".into())))).collect();
        rayon::scope(|s| {
            for (k, slot) in &results {
                let work = &work;
                s.spawn(move |_| {
                    let r = work[*k].go();
                    *slot.lock().unwrap() = r;
                });
            }
        });
        for (k, slot) in results {
            out[k] = json!(slot.into_inner().unwrap());
        }
        for (k, h) in hs {
            out[k] = json!(h.join().unwrap_or(Some("session thread died".into())));
        }
        json!(out)
    });
    ctx.count(&format!("{} workers", workers), 1);
    ctx.count(&format!("{} sessions at once", n), 1);
    if !ctx.ended(&run) {
        return;
    }
    if run.out["panic"].is_string() {
        ctx.fail("crash", run.out["panic"].to_string());
        return;
    }
    for k in 0..n {
        if let Some(s) = run.out[k].as_str() {
            let all: Vec<&str> = work.iter().map(|w| w.name()).collect();
            ctx.fail("session disturbed", format!("{} among {:?} (placement {:?}, {} workers): {}", work[k].name(), all, place, workers, &s[..s.len().min(200)]));
            return;
        }
    }
    ctx.sample(format!("{:?} placement {:?} {} workers {}", work.iter().map(|w| w.name()).collect::<Vec<_>>(), place, workers, sched.name()));
}
