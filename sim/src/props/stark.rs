//! Prover side: C01, C02, C06.
use super::*;
use crate::protocol::{self, Cheat, Dev};
use crate::scen;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            quick: 1100,
            thorough: 12000,
            run: c01,
            real: "zkp-stark prover, Merkle tree, FFT, mmap-vec, hash, field arithmetic; rayon and crossbeam unmodified",
            stub: "none in the prover; thread scheduling, futexes and clocks are simulated",
            rule: "one evaluation is one complete proof by the real prover under one seeded schedule, compared byte for byte with an independent sequential implementation; distinct = different interleaving hash",
        },
        Prop {
            id: "C02",
            quick: 1600,
            thorough: 16000,
            run: c02,
            real: "zkp-stark prover and verifier, rayon unmodified",
            stub: "thread scheduling, futexes, clocks simulated; transport is a reliable channel",
            rule: "one evaluation is one simulated session: prover and concurrent verifiers under one seeded schedule; distinct = different interleaving hash",
        },
        Prop {
            id: "C06",
            quick: 1800,
            thorough: 24000,
            run: c06,
            real: "zkp-stark prover (proof-of-work search on the real worker pool) and verifier",
            stub: "thread scheduling, futexes, clocks simulated; the adversarial prover is the independent reference prover",
            rule: "one evaluation is one parallel nonce search under one seeded schedule compared with the sequential least nonce, or one batch of nonces offered to the verifier; distinct = different interleaving hash",
        },
        Prop {
            id: "C21",
            quick: 1250,
            thorough: 30000,
            run: c21,
            real: "zkp-stark prover (expression graph, sharing, lookup tables, chunk-parallel evaluation on the real pool) and verifier",
            stub: "thread scheduling, futexes, clocks simulated",
            rule: "one evaluation is one proof of a claim whose constraints are rewritten at random, under one seeded schedule; the committed and opened constraint values are compared with direct evaluation of the expressions by independent arithmetic; distinct = different interleaving hash",
        },
    ]
}

/// Something else going on in the process on the same worker pool.
fn noise(kind: usize, seed: u64) -> std::thread::JoinHandle<()> {
    rt::spawn(move || {
        let mut r = Rng::new(seed);
        match kind {
            0 => {
                use zkp_primefield::Fft;
                let v: Vec<_> = (0..1usize << (4 + r.below(6))).map(|_| to_fe(&r.field())).collect();
                let mut w = v.clone();
                w.fft();
                w.ifft();
                drop(w);
            }
            1 => {
                let v: Vec<zkp_u256::U256> = (0..64u64).map(zkp_u256::U256::from).collect();
                let _ = zkp_merkle_tree::Tree::from_leaves(v);
            }
            _ => {
                let (s, t) = scen::gen(&mut r, Class::Tiny);
                let _ = prove_json(&s, &t);
            }
        }
    })
}

fn c01(ctx: &mut Ctx) {
    let mut rng = ctx.rng.clone();
    let huge = if ctx.thorough() { ctx.idx % 150 == 7 } else { ctx.idx % 160 == 7 };
    let cl = if huge { Class::Huge } else { class(&mut rng) };
    let (mut sys, mut trace) = scen::gen(&mut rng, cl);
    if ctx.idx % 40 == 26 && matches!(cl, Class::Tiny | Class::Small) {
        (sys, trace) = scen::crowd(&mut rng, &sys, &trace);
    }
    let r = protocol::prove(&sys, &trace, &mut Cheat::honest());
    ctx.input(sys_hash(&sys));
    ctx.count(&format!("trace length {}", sys.n), 1);
    let runs = match cl {
        Class::Huge => 1,
        _ if sys.exprs.len() > 100 => 2,
        Class::Medium => 3,
        _ => 6,
    };
    for k in 0..runs {
        let workers = pool_size(&mut rng);
        let sched = Sched::random(&mut rng);
        let nk = if huge { 9 } else { rng.below(9) };
        let ns = rng.next();
        let run = ctx.sim("prove", &sched, &[], &mut |_| {
            rt::global_pool(workers);
            let h = if nk < 3 { Some(noise(nk, ns)) } else { None };
            let v = prove_json(&sys, &trace);
            if let Some(h) = h {
                let _ = h.join();
            }
            v
        });
        ctx.count(&format!("{} workers", workers), 1);
        if nk < 3 {
            ctx.count("with other work in the process", 1);
        }
        if !ctx.ended(&run) {
            return;
        }
        match run.out["bytes"].as_str() {
            Some(h) => {
                let b = unhex(h);
                if b != r.bytes {
                    let at = first_diff(&b, &r.bytes);
                    ctx.fail(
                        "proof differs from the documented protocol",
                        format!("{} with {} workers: {} bytes instead of {}, first difference at byte {} ({})", describe(&sys), workers, b.len(), r.bytes.len(), at, segment(&r.map, at)),
                    );
                    return;
                }
            }
            None => {
                ctx.fail("no proof", format!("{} with {} workers: {}", describe(&sys), workers, run.out));
                return;
            }
        }
        if k == 0 {
            ctx.sample(format!("{} workers={} {}", describe(&sys), workers, sched.name()));
        }
    }
}

fn c02(ctx: &mut Ctx) {
    let mut rng = ctx.rng.clone();
    let cl = match ctx.idx % 200 {
        11 => Class::Huge,
        k if k % 40 == 23 => Class::Large,
        _ => class(&mut rng),
    };
    let (mut sys, mut trace) = if cl == Class::Large {
        // with default parameters, up to where these change the layout
        let log_n = [9, 10, 11, 12, 12, 13, 13, 14][rng.below(8)];
        scen::gen_log(&mut rng, cl, log_n)
    } else if ctx.idx % 800 == 411 {
        // an evaluation that takes four chunks and more
        (0..12).map(|_| scen::gen_log(&mut rng, cl, 16)).find(|s| s.0.eval_degree() >= 4).unwrap_or_else(|| scen::gen_log(&mut rng, cl, 17))
    } else {
        scen::gen(&mut rng, cl)
    };
    if ctx.idx % 40 == 26 && matches!(cl, Class::Tiny | Class::Small) {
        (sys, trace) = scen::crowd(&mut rng, &sys, &trace);
    } else if cl != Class::Huge && rng.chance(1, 8) {
        sys = scen::merge(&mut rng, &sys);
    }
    if cl != Class::Huge && rng.chance(1, 3) {
        // extreme parameters
        match rng.below(4) {
            0 => sys.queries = 1,
            1 => sys.queries = 60 + rng.below(100),
            2 => sys.pow_bits = 10,
            _ => sys.fri = vec![1; sys.n.trailing_zeros() as usize],
        }
    }
    if cl == Class::Large || matches!(cl, Class::Tiny | Class::Small | Class::Medium) && rng.chance(1, 8) {
        // the parameters a caller gets who does not choose any
        let exprs = sys.to_repo().expressions().to_vec();
        let c = if rng.chance(1, 2) {
            zkp_stark::Constraints::from_expressions((sys.n, sys.cols), sys.seed.clone(), exprs).unwrap()
        } else {
            zkp_stark::Constraints::from_expressions_detailed((sys.n, sys.cols), sys.seed.clone(), exprs, None, Some(sys.pow_bits), None, None).unwrap()
        };
        sys.blowup = c.blowup;
        sys.queries = c.num_queries;
        sys.pow_bits = c.pow_bits;
        sys.fri = c.fri_layout.clone();
        ctx.count("default parameters", 1);
    }
    ctx.input(sys_hash(&sys));
    let r = protocol::prove(&sys, &trace, &mut Cheat::honest());
    // the real verifier accepts the proof the documented protocol prescribes, under several parameter choices
    let mut sessions = vec![(sys.clone(), r.bytes)];
    if cl == Class::Tiny || cl == Class::Small {
        for _ in 0..4 {
            let mut s = sys.clone();
            scen::params(&mut rng, &mut s, cl);
            let p = protocol::prove(&s, &trace, &mut Cheat::honest());
            sessions.push((s, p.bytes));
        }
    }
    let verifiers = 1 + rng.below(3);
    let workers = pool_size(&mut rng);
    let sched = Sched::random(&mut rng);
    let run = ctx.sim("prove and verify", &sched, &[], &mut |_| {
        rt::global_pool(workers);
        // verifiers of other sessions are busy while the prover works
        let hs: Vec<_> = (0..verifiers)
            .map(|v| {
                let ss = sessions.clone();
                rt::spawn(move || {
                    let mut out = vec![];
                    for (i, (s, b)) in ss.iter().enumerate() {
                        if i % verifiers == v {
                            let (c, t) = verify_code(&s.to_repo(), b);
                            out.push(json!([i, c, t, s.to_repo().max_proof_size()]));
                        }
                    }
                    out
                })
            })
            .collect();
        let p = prove_json(&sys, &trace);
        let mine = match p["bytes"].as_str() {
            Some(b) => {
                let b = unhex(b);
                // delivered to two verifiers that know claim and parameters only
                let s = sys.clone();
                let b2 = b.clone();
                let h = rt::spawn(move || verify_code(&s.to_repo(), &b2));
                let a = verify_code(&sys.to_repo(), &b);
                let c = h.join().unwrap_or((2, "thread".into()));
                json!({"own": [a.0, c.0], "text": a.1 + &c.1, "len": b.len(), "limit": sys.to_repo().max_proof_size()})
            }
            None => p,
        };
        let others: Vec<Value> = hs.into_iter().map(|h| json!(h.join().unwrap_or_default())).collect();
        json!({"mine": mine, "others": others})
    });
    ctx.count(&format!("{} workers", workers), 1);
    ctx.count("honest proofs offered to the verifier", sessions.len() as u64 + 2);
    if !ctx.ended(&run) {
        return;
    }
    if run.out["panic"].is_string() {
        ctx.fail("crash", run.out["panic"].to_string());
        return;
    }
    let mine = &run.out["mine"];
    if mine["own"] != json!([1, 1]) {
        let what = if mine["own"].is_array() { "honest proof rejected" } else { "no proof for a satisfied claim" };
        ctx.fail(what, format!("{} with {} workers: {}", describe(&sys), workers, mine));
        return;
    }
    if mine["len"].as_u64() > mine["limit"].as_u64() {
        ctx.fail("honest proof exceeds the announced limit", format!("{}: {} bytes, limit {}", describe(&sys), mine["len"], mine["limit"]));
        return;
    }
    let mut seen = 0;
    for l in run.out["others"].as_array().unwrap() {
        for o in l.as_array().unwrap() {
            seen += 1;
            if o[1] != 1 {
                let s = &sessions[o[0].as_u64().unwrap() as usize].0;
                ctx.fail("honest proof rejected", format!("{}: {}", describe(s), o));
                return;
            }
            let (s, b) = &sessions[o[0].as_u64().unwrap() as usize];
            if b.len() as u64 > o[3].as_u64().unwrap() {
                ctx.fail("honest proof exceeds the announced limit", format!("{}: {} bytes, limit {}", describe(s), b.len(), o[3]));
                return;
            }
        }
    }
    if seen != sessions.len() {
        ctx.fail("verifier thread died", format!("{} of {} answers", seen, sessions.len()));
        return;
    }
    ctx.sample(format!("{} workers={} verifiers={} {}", describe(&sys), workers, verifiers, sched.name()));
}

fn c06(ctx: &mut Ctx) {
    let mut rng = ctx.rng.clone();
    let (mut sys, trace) = scen::gen(&mut rng, Class::Tiny);
    sys.queries = 1 + rng.below(4);
    sys.pow_bits = if ctx.idx % 40 == 3 { 13 + rng.below(3) } else { rng.below(13) };
    ctx.input(sys_hash(&sys));
    let r = protocol::prove(&sys, &trace, &mut Cheat::honest());
    let at = r.map.iter().find(|(n, _, _)| n == "nonce").unwrap().1;
    ctx.count(&format!("difficulty {}", sys.pow_bits), 1);
    for _ in 0..2 {
        let workers = [1, 2, 3, 4, 5, 7, 8, 11, 16, 24, 32][rng.below(11)];
        let sched = Sched::random(&mut rng);
        let run = ctx.sim("nonce search", &sched, &[], &mut |_| {
            rt::global_pool(workers);
            prove_json(&sys, &trace)
        });
        ctx.count(&format!("{} workers", workers), 1);
        if !ctx.ended(&run) {
            return;
        }
        match run.out["bytes"].as_str() {
            Some(h) => {
                let b = unhex(h);
                if b.len() < at + 8 || b[..at] != r.bytes[..at] {
                    // another property's business
                    ctx.count("transcript before the nonce differs", 1);
                    continue;
                }
                let mut nb = [0; 8];
                nb.copy_from_slice(&b[at..at + 8]);
                let got = u64::from_be_bytes(nb);
                if got != r.nonce {
                    ctx.fail("nonce is not the least valid one", format!("{} workers={}: nonce {} instead of {}", describe(&sys), workers, got, r.nonce));
                    return;
                }
            }
            None => {
                ctx.fail("nonce search gave no proof", format!("{} workers={}: {}", describe(&sys), workers, run.out));
                return;
            }
        }
    }
    // offer other nonces to the verifier
    let mut offers: Vec<(Vec<u8>, bool, &str)> = vec![(r.bytes.clone(), true, "least")];
    for k in 0..12 {
        let dev = match k {
            0..=3 => Dev::OtherNonce,
            4..=7 => Dev::BadNonce,
            8 => Dev::EarlyPow,
            _ => Dev::NearNonce,
        };
        let mut ch = Cheat { dev, rng: rng.fork(k) };
        let o = protocol::prove(&sys, &trace, &mut ch);
        if o.fired {
            let ok = protocol::verify(&sys, &o.bytes).is_ok();
            let kind = match dev {
                Dev::OtherNonce => "nonce: valid, not least",
                Dev::BadNonce => "nonce: invalid",
                Dev::EarlyPow => "nonce: work on another transcript",
                _ => "nonce: one bit short",
            };
            ctx.fault(kind, 1);
            offers.push((o.bytes, ok, kind));
        }
    }
    // a difficulty nobody has reached, and proofs with whatever work there is
    let mut hard = sys.clone();
    hard.pow_bits = 16 + if rng.chance(1, 2) { rng.below(50) } else { rng.below(230) };
    let reachable = offers.len();
    for k in 0..4 {
        let dev = if k == 0 { Dev::BadNonce } else { Dev::WeakWork };
        let o = protocol::prove(&hard, &trace, &mut Cheat { dev, rng: rng.fork(50 + k) });
        let ok = protocol::verify(&hard, &o.bytes).is_ok();
        ctx.fault("nonce: far below the difficulty", 1);
        offers.push((o.bytes, ok, "far below the difficulty"));
    }
    let run = ctx.sim("offer nonces", &quiet(), &[], &mut |_| {
        rt::global_pool(1);
        let (c, h) = (sys.to_repo(), hard.to_repo());
        json!(offers.iter().enumerate().map(|(i, o)| verify_code(if i < reachable { &c } else { &h }, &o.0).0).collect::<Vec<_>>())
    });
    if !ctx.ended(&run) {
        return;
    }
    ctx.count("nonces offered", offers.len() as u64);
    for (i, o) in offers.iter().enumerate() {
        let got = run.out[i].as_u64().unwrap_or(9);
        if (got == 1) != o.1 {
            ctx.fail("verifier misjudges the nonce", format!("{}: {}: expected accept={}, verifier code {}", describe(&sys), o.2, o.1, got));
            return;
        }
    }
    ctx.sample(describe(&sys));
}

fn c21(ctx: &mut Ctx) {
    let mut rng = ctx.rng.clone();
    let cl = match ctx.idx % 150 {
        7 => Class::Huge,
        k if k % 30 == 13 => Class::Large,
        _ => class(&mut rng),
    };
    // a table whose evaluation takes four chunks and more
    let (mut plain, mut trace) = if ctx.idx % 600 == 157 {
        (0..12).map(|_| scen::gen_log(&mut rng, cl, 16)).find(|s| s.0.eval_degree() >= 4).unwrap_or_else(|| scen::gen_log(&mut rng, cl, 17))
    } else {
        scen::gen(&mut rng, cl)
    };
    if cl != Class::Huge && rng.chance(1, 2) {
        for _ in 0..1 + rng.below(2) {
            let (p, t) = scen::quotient_column(&mut rng, &plain, &trace);
            plain = p;
            trace = t;
        }
    }
    if cl == Class::Tiny && plain.cols > 1 && plain.n <= 8 && rng.chance(1, 6) {
        let (p, t) = scen::widen(&mut rng, &plain, &trace);
        plain = p;
        trace = t;
    }
    let mut forms = vec![plain.clone()];
    for _ in 0..match cl {
        Class::Huge | Class::Large => 1,
        _ => 3,
    } {
        let f = scen::rewrite(&mut rng, &plain);
        forms.push(if cl != Class::Huge && rng.chance(1, 3) { scen::merge(&mut rng, &f) } else { f });
    }
    if cl == Class::Huge {
        forms.remove(0);
    }
    let refs: Vec<(usize, Vec<u8>, protocol::Map)> = forms
        .iter()
        .map(|s| {
            let r = protocol::prove(s, &trace, &mut Cheat::honest());
            let end = r.map.iter().filter(|(n, _, _)| n == "oods_constraint").map(|(_, o, l)| o + l).max().unwrap();
            (end, r.bytes, r.map)
        })
        .collect();
    // direct evaluation at points of the harness's choosing
    let points: Vec<(F, u64)> = (0..4).map(|_| (rng.field(), rng.next())).collect();
    let cell = |seed: u64, c: usize, o: isize| F::from_u64(1 + hash_of(format!("{} {} {}", seed, c, o).as_bytes()));
    for s in &forms {
        ctx.input(sys_hash(s));
    }
    let workers = pool_size(&mut rng);
    let sched = Sched::random(&mut rng);
    let run = ctx.sim("evaluate", &sched, &[], &mut |_| {
        rt::global_pool(workers);
        let mut out = vec![];
        for s in &forms {
            let mut c = s.to_repo();
            c.substitute();
            let mut direct = vec![];
            for (k, (x, seed)) in points.iter().enumerate() {
                for (e, own) in c.expressions().iter().zip(&s.exprs) {
                    let v = catch_unwind(AssertUnwindSafe(|| from_fe(&e.evaluate(&to_fe(x), &|c, o| to_fe(&cell(*seed, c, o))))));
                    let w = own.eval(*x, &|c, o| cell(*seed, c, o), &s.claims);
                    direct.push(json!(v.ok() == w));
                    let _ = k;
                }
            }
            let p = prove_json(s, &trace);
            let v = match p["bytes"].as_str() {
                Some(b) => verify_code(&s.to_repo(), &unhex(b)).0,
                None => 9,
            };
            out.push(json!([p, v, direct]));
        }
        json!(out)
    });
    ctx.count(&format!("{} workers", workers), 1);
    ctx.count(&format!("trace length {}", plain.n), 1);
    if !ctx.ended(&run) {
        return;
    }
    if run.out["panic"].is_string() {
        ctx.fail("crash", run.out["panic"].to_string());
        return;
    }
    for (k, s) in forms.iter().enumerate() {
        let o = &run.out[k];
        let (end, want, map) = &refs[k];
        if o[2].as_array().unwrap().iter().any(|v| *v != true) {
            ctx.fail("direct evaluation differs from the expression", describe(s));
            return;
        }
        match o[0]["bytes"].as_str() {
            Some(h) => {
                let b = unhex(h);
                let at = first_diff(&b, want);
                if at < *end {
                    ctx.fail("constraint evaluation differs from the expression", format!("{} with {} workers: first difference in {}", describe(s), workers, segment(map, at)));
                    return;
                }
                if o[1] != 1 {
                    ctx.fail("prover and verifier evaluate an expression differently", describe(s));
                    return;
                }
            }
            None => {
                ctx.fail("an expression cannot be evaluated", format!("{} with {} workers: {}", describe(s), workers, o[0]));
                return;
            }
        }
        ctx.count("expressions", s.exprs.len() as u64);
    }
    ctx.sample(format!("{} forms of {} workers={} {}", forms.len(), describe(&plain), workers, sched.name()));
}
