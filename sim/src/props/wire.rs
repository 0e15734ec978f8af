//! Verifier side: faulty transport (C03), misrouting (C04), Byzantine provers (C05).
use super::*;
use crate::protocol::{self, Cheat, Dev};
use crate::scen;
use std::collections::BTreeMap;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C03",
            quick: 3200,
            thorough: 40000,
            run: c03,
            real: "zkp-stark verifier with its Merkle, hash and field code",
            stub: "the network between prover and verifier is simulated and damages proofs; the honest prover is the independent reference prover (byte-identical to the real one by C01)",
            rule: "one evaluation is one simulated batch of damaged deliveries to verifiers; verdicts are compared with an independent verifier; distinct = different batch execution hash",
        },
        Prop {
            id: "C04",
            quick: 1700,
            thorough: 30000,
            run: c04,
            real: "zkp-stark verifier with its Merkle, hash and field code",
            stub: "the network misroutes proofs between simulated sessions; provers are the independent reference prover",
            rule: "one evaluation is one batch of proofs misrouted to verifiers of other sessions; acceptance is compared with an independent verifier of the receiving session; distinct = different batch execution hash",
        },
        Prop {
            id: "C05",
            quick: 850,
            thorough: 30000,
            run: c05,
            real: "zkp-stark verifier with its Merkle, hash and field code",
            stub: "the prover node is Byzantine: an independent implementation of the protocol with one seeded deviation",
            rule: "one evaluation is one batch of Byzantine transcripts, one deviation each, given to the real verifier; acceptance is compared with an independent verifier; distinct = different batch execution hash",
        },
    ]
}

fn u(v: &Value, k: &str) -> usize {
    v[k].as_u64().unwrap_or(0) as usize
}
fn add_p(b: &mut [u8], times: usize) {
    for _ in 0..times {
        let l = F::limbs_from_bytes(b);
        let mut o = [0u64; 4];
        let mut c = 0u128;
        for i in 0..4 {
            c += l[i] as u128 + P[i] as u128;
            o[i] = c as u64;
            c >>= 64;
        }
        b.copy_from_slice(&F(o).to_bytes());
    }
}
/// One thing the transport does to a proof.
pub fn damage(b: &mut Vec<u8>, op: &Value, other: &[u8]) {
    let n = b.len();
    let at = if n == 0 { 0 } else { u(op, "at") % n };
    let len = u(op, "len").min(n - at);
    match op["k"].as_str().unwrap() {
        "bit flip" => {
            if n > 0 {
                b[at] ^= 1 << (u(op, "bit") % 8);
            }
        }
        "truncation" => b.truncate(u(op, "at").min(n)),
        "extension" => b.extend_from_slice(&unhex(op["hex"].as_str().unwrap())),
        "zeroed range" => b[at..at + len].iter_mut().for_each(|x| *x = 0),
        "ones range" => b[at..at + len].iter_mut().for_each(|x| *x = 0xff),
        "dropped range" => {
            b.drain(at..at + len);
        }
        "duplicated range" => {
            let c = b[at..at + len].to_vec();
            let t = at + len;
            b.splice(t..t, c);
        }
        "copied range" => {
            let to = u(op, "to") % n.max(1);
            let len = len.min(n - to);
            let c = b[at..at + len].to_vec();
            b[to..to + len].copy_from_slice(&c);
        }
        "swapped ranges" => {
            let to = u(op, "to") % n.max(1);
            let len = len.min(n - to);
            for i in 0..len {
                b.swap(at + i, to + i);
            }
        }
        "spliced from another proof" => {
            for i in at..(at + len).min(other.len()) {
                b[i] = other[i];
            }
        }
        "non-canonical element" => {
            if at + 32 <= n {
                add_p(&mut b[at..at + 32], 1 + u(op, "times") % 30);
            }
        }
        "negated element" => {
            if at + 32 <= n {
                if let Some(f) = F::from_bytes(&b[at..at + 32]) {
                    let v = (-f).to_bytes();
                    b[at..at + 32].copy_from_slice(&v);
                }
            }
        }
        "replaced by noise" => {
            let mut r = Rng::new(u(op, "seed") as u64);
            *b = (0..u(op, "len")).map(|_| r.next() as u8).collect();
        }
        "inserted range" => {
            let c = unhex(op["hex"].as_str().unwrap());
            b.splice(at..at, c);
        }
        k => panic!("unknown fault {}", k),
    }
}
fn random_damage(rng: &mut Rng, map: &protocol::Map, len: usize) -> Value {
    // choose the kind of segment first, so that rare ones are hit as often as common ones
    let mut names: Vec<&str> = map.iter().map(|m| m.0.as_str()).collect();
    names.sort_unstable();
    names.dedup();
    let name = names[rng.below(names.len())];
    let segs: Vec<&(String, usize, usize)> = map.iter().filter(|m| m.0 == name).collect();
    let s = segs[rng.below(segs.len())];
    let t = segs[rng.below(segs.len())];
    let any = &map[rng.below(map.len())];
    let noise = |rng: &mut Rng, n: usize| hex(&(0..n).map(|_| rng.next() as u8).collect::<Vec<_>>());
    let elem = s.1 + 32 * rng.below((s.2 / 32).max(1));
    match rng.below(20) {
        0..=4 => json!({"k": "bit flip", "at": s.1 + rng.below(s.2), "bit": rng.below(8)}),
        5 => json!({"k": "truncation", "at": rng.below(len)}),
        6 => json!({"k": "truncation", "at": if rng.chance(1, 2) { any.1 } else { len - 1 - rng.below(40.min(len)) }}),
        7 => {
            let m = if rng.chance(1, 2) { 4 } else { 64 };
            let n = 1 + rng.below(m);
            let z = rng.chance(1, 3);
            json!({"k": "extension", "hex": if z { "00".repeat(n) } else { noise(rng, n) }})
        }
        8 => json!({"k": if rng.chance(3, 4) { "zeroed range" } else { "ones range" }, "at": s.1, "len": if rng.chance(1, 2) { s.2 } else { len }}),
        9 => json!({"k": "zeroed range", "at": rng.below(len), "len": 1 + rng.below(64)}),
        10 => json!({"k": "dropped range", "at": s.1, "len": s.2}),
        11 => json!({"k": "dropped range", "at": rng.below(len), "len": 1 + rng.below(40)}),
        12 => json!({"k": "duplicated range", "at": s.1, "len": s.2}),
        13 => json!({"k": "copied range", "at": s.1, "to": t.1, "len": s.2}),
        14 => json!({"k": "swapped ranges", "at": s.1, "to": t.1, "len": s.2}),
        15 => json!({"k": "swapped ranges", "at": s.1, "to": any.1, "len": 32}),
        16 => json!({"k": "spliced from another proof", "at": s.1, "len": if rng.chance(1, 2) { s.2 } else { len }}),
        17 => json!({"k": "non-canonical element", "at": elem, "times": if rng.chance(2, 3) { 0 } else { rng.below(30) }}),
        18 => json!({"k": "negated element", "at": elem}),
        _ => {
            if rng.chance(1, 3) {
                json!({"k": "replaced by noise", "len": rng.below(len + 64), "seed": rng.next() >> 12})
            } else {
                let n = 1 + rng.below(40);
                json!({"k": "inserted range", "at": rng.below(len), "hex": noise(rng, n)})
            }
        }
    }
}

fn small(rng: &mut Rng) -> Class {
    if rng.chance(1, 2) {
        Class::Tiny
    } else {
        Class::Small
    }
}

fn c03(ctx: &mut Ctx) {
    let mut rng = ctx.rng.clone();
    // now and then a proof of a few hundred kilobytes
    let long = ctx.idx % 40 == 21;
    let cl = if long || ctx.idx % 10 == 3 { Class::Medium } else { small(&mut rng) };
    let (mut sys, trace) = scen::gen(&mut rng, cl);
    if long {
        sys.queries = 150 + rng.below(250);
    }
    let r = protocol::prove(&sys, &trace, &mut Cheat::honest());
    let mut sys2 = sys.clone();
    sys2.seed.push(1);
    let other = protocol::prove(&sys2, &trace, &mut Cheat::honest()).bytes;
    ctx.input(sys_hash(&sys));
    let deliveries = if long { 48 } else { 96 };
    let mut faults = vec![];
    for d in 0..deliveries {
        let k = match rng.below(6) {
            0..=3 => 1,
            4 => 2,
            _ => 3,
        };
        for _ in 0..k {
            // the later elements of a long proof are many: make sure that some are hit in each way
            let late: Vec<&(String, usize, usize)> = if long && rng.chance(1, 4) { r.map.iter().filter(|m| m.1 > r.bytes.len() / 2 && m.2 >= 32 && !m.0.contains("hash")).collect() } else { vec![] };
            let mut op = if late.is_empty() {
                random_damage(&mut rng, &r.map, r.bytes.len())
            } else {
                let s = late[rng.below(late.len())];
                json!({"k": if rng.chance(1, 3) { "negated element" } else { "non-canonical element" }, "at": s.1 + 32 * rng.below(s.2 / 32), "times": 0})
            };
            op["d"] = json!(d);
            faults.push(op);
        }
    }
    let nver = 1 + rng.below(3);
    let sched = Sched::random(&mut rng);
    let build = |fl: &[Value]| -> BTreeMap<u64, Vec<u8>> {
        let mut m: BTreeMap<u64, Vec<u8>> = BTreeMap::new();
        for op in fl {
            let b = m.entry(op["d"].as_u64().unwrap()).or_insert_with(|| r.bytes.clone());
            damage(b, op, &other);
        }
        m
    };
    let run = ctx.sim("damaged deliveries", &sched, &faults, &mut |fl| {
        rt::global_pool(2);
        let m: Vec<(u64, Vec<u8>)> = build(fl).into_iter().collect();
        let m = std::sync::Arc::new(m);
        let hs: Vec<_> = (0..nver)
            .map(|v| {
                let (m, s) = (m.clone(), sys.clone());
                rt::spawn(move || {
                    let c = s.to_repo();
                    m.iter().enumerate().filter(|(i, _)| i % nver == v).map(|(_, (d, b))| {
                        let (code, t) = verify_code(&c, b);
                        rt::point();
                        json!([d, code, t, hash_of(b), b.len()])
                    }).collect::<Vec<_>>()
                })
            })
            .collect();
        json!(hs.into_iter().map(|h| h.join().unwrap_or_default()).collect::<Vec<_>>())
    });
    if !ctx.ended(&run) {
        return;
    }
    // rebuild what was delivered from the fault list that was really used
    let used = ctx.used_faults(&faults);
    let m = build(&used);
    let mut n = 0;
    for l in run.out.as_array().unwrap_or(&vec![]) {
        for o in l.as_array().unwrap() {
            n += 1;
            let b = &m[&o[0].as_u64().unwrap()];
            match o[1].as_u64().unwrap() {
                2 => {
                    ctx.fail("verifier panicked on a damaged proof", format!("{}: delivery {} ({} bytes instead of {}): {}", describe(&sys), o[0], b.len(), r.bytes.len(), o[2]));
                    return;
                }
                1 => match protocol::verify(&sys, b) {
                    Ok(()) => ctx.count("damage left a valid proof", 1),
                    Err(rule) => {
                        let at = first_diff(b, &r.bytes);
                        ctx.fail(
                            "verifier accepted a damaged proof",
                            format!("{}: delivery {} ({} bytes, first difference at {} in {}) must be rejected by rule '{}'", describe(&sys), o[0], b.len(), at, segment(&r.map, at), rule),
                        );
                        return;
                    }
                },
                _ => {
                    ctx.count(&format!("rejected: {}", o[2].as_str().unwrap()), 1);
                }
            }
        }
    }
    if n != m.len() {
        ctx.fail("verifier gave no answer", format!("{} answers for {} deliveries", n, m.len()));
        return;
    }
    ctx.count("damaged deliveries", n as u64);
    if ctx.idx < 8 {
        ctx.sample(format!("{} deliveries={} e.g. {}", describe(&sys), n, used.first().unwrap_or(&Value::Null)));
    }
}

/// Verifier sessions that differ from `a` in one requirement.
fn variants(a: &Sys, rng: &mut Rng) -> Vec<(String, Sys)> {
    let mut out: Vec<(String, Sys)> = vec![];
    let mut push = |what: &str, s: Sys| out.push((what.to_string(), s));
    let log_n = a.n.trailing_zeros() as usize;
    // transcript seed
    let mut s = a.clone();
    if s.seed.is_empty() || rng.chance(1, 3) {
        s.seed.push(rng.next() as u8);
    } else if rng.chance(1, 3) {
        s.seed.pop();
    } else {
        let i = rng.below(s.seed.len());
        s.seed[i] ^= 1 << rng.below(8);
    }
    push("seed", s);
    // public inputs: constants inside a constraint
    for _ in 0..3 {
        let mut s = a.clone();
        let k = rng.below(s.exprs.len());
        let total = s.exprs[k].constants();
        if total > 0 {
            let which = rng.below(total);
            let d = rng.field();
            s.exprs[k] = s.exprs[k].bump(&mut { which }, d);
            // a claim whose denominator vanishes where a prover has to divide by it cannot be stated
            let (mut x, w, t) = (F::from_u64(3), F::root(s.n * s.blowup), rng.next() >> 1);
            let cell = |c: usize, o: isize| F::from_u64(t.wrapping_add((c as u64) << 32).wrapping_add(o as u64));
            let fine = (0..s.n * s.blowup).all(|_| {
                x *= w;
                s.exprs[k].eval(x, &cell, &s.claims).is_some()
            });
            if fine {
                push("public input", s);
            }
        }
    }
    // claim polynomials
    if !a.claims.is_empty() {
        let mut s = a.clone();
        let k = rng.below(s.claims.len());
        let i = rng.below(scen::significant(&s.claims[k]));
        s.claims[k][i] += rng.field();
        push("claim polynomial", s);
    }
    // a constraint more, less, repeated, reordered
    if a.exprs.len() > 1 {
        let mut s = a.clone();
        let k = rng.below(s.exprs.len());
        s.exprs.remove(k);
        push("constraint removed", s);
        let mut s = a.clone();
        let i = rng.below(s.exprs.len());
        let j = (i + 1 + rng.below(s.exprs.len() - 1)) % s.exprs.len();
        s.exprs.swap(i, j);
        push("constraints reordered", s);
    }
    let mut s = a.clone();
    let c = rng.below(s.cols);
    let row = rng.below(s.n);
    s.exprs.push(div(sub(E::T(c, 0), E::C(rng.field())), sub(E::X, E::C(F::root(s.n).pow(row as u64)))));
    push("constraint added", s);
    // sizes
    for (what, n) in [("trace length doubled", a.n * 2), ("trace length halved", a.n / 2)] {
        let mut s = a.clone();
        s.n = n;
        if n >= 2 && s.fri.iter().sum::<usize>() <= n.trailing_zeros() as usize {
            push(what, s);
        }
    }
    for b in [a.blowup * 2, a.blowup / 2] {
        let mut s = a.clone();
        s.blowup = b;
        if b >= s.eval_degree().max(2) && b <= 64 {
            push("blow-up", s);
        }
    }
    // length and blow-up traded against each other: same evaluation domain
    let mut s = a.clone();
    s.n *= 2;
    s.blowup /= 2;
    if s.blowup >= s.eval_degree().max(2) {
        push("length and blow-up", s);
    }
    for q in [a.queries + 1, a.queries + 4, a.queries * 2, a.queries.max(2) - 1, (a.queries / 2).max(1), 1] {
        let mut s = a.clone();
        s.queries = q;
        push("queries", s);
    }
    for d in [1usize, 4, 8] {
        let mut s = a.clone();
        s.pow_bits = a.pow_bits + d;
        push("work raised", s);
        if a.pow_bits >= d {
            let mut s = a.clone();
            s.pow_bits = a.pow_bits - d;
            push("work lowered", s);
        }
    }
    for _ in 0..3 {
        let mut s = a.clone();
        s.fri = match rng.below(3) {
            0 => {
                let mut f = a.fri.clone();
                f.reverse();
                f
            }
            1 => {
                let mut f = a.fri.clone();
                f.pop();
                if f.is_empty() {
                    vec![1]
                } else {
                    f
                }
            }
            _ => scen::fri_layout(rng, log_n),
        };
        push("folding layout", s);
    }
    if a.cols < 5 {
        let mut s = a.clone();
        s.cols += 1;
        push("columns", s);
    }
    out.retain(|(_, s)| valid(s));
    out
}
/// Parameters the code supports.
fn valid(s: &Sys) -> bool {
    let ed = s.eval_degree();
    if ed > 16 || s.degree() == 0 || s.blowup < ed {
        return false;
    }
    let target = s.degree() * s.n - 1;
    s.exprs.iter().all(|e| {
        let (a, b) = e.degree(1, s.n - 1);
        target + b >= a
    })
}

fn c04(ctx: &mut Ctx) {
    let mut rng = ctx.rng.clone();
    let cl = small(&mut rng);
    let (mut a, trace) = scen::gen(&mut rng, cl);
    if ctx.idx % 6 == 5 {
        // a transcript seed with long public inputs in it
        let (mut r, k) = (rng.fork(31), [260, 600, 1500, 5000][ctx.idx as usize / 6 % 4]);
        a.seed.extend((0..k).map(|_| r.next() as u8));
    }
    ctx.input(sys_hash(&a));
    let mut sessions: Vec<(String, Sys)> = vec![("own".into(), a.clone())];
    sessions.extend(variants(&a, &mut rng));
    // an unrelated session
    let (b, tb) = scen::gen(&mut rng, cl);
    sessions.push(("unrelated".into(), b.clone()));
    // proofs in flight: the honest one, honest ones of sessions whose claim this trace satisfies too, a stranger's
    let mut proofs: Vec<(usize, Vec<u8>)> = vec![];
    for (i, (_, s)) in sessions.iter().enumerate() {
        if i + 1 == sessions.len() {
            proofs.push((i, protocol::prove(&b, &tb, &mut Cheat::honest()).bytes));
        } else if s.n == a.n && s.cols == a.cols && (i == 0 || rng.chance(1, 3)) && s.satisfied(&trace) {
            let bytes = protocol::prove(s, &trace, &mut Cheat::honest()).bytes;
            // a changed denominator may ask for divisibility at a point outside the table
            if i == 0 || protocol::verify(s, &bytes).is_ok() {
                proofs.push((i, bytes));
            }
        }
    }
    // a session that demands work nobody has done, and a proof made for it all the same
    let mut weak = usize::MAX;
    if rng.chance(1, 3) {
        let mut s = a.clone();
        s.pow_bits = 16 + if rng.chance(1, 2) { rng.below(50) } else { rng.below(230) };
        weak = proofs.len();
        proofs.push((sessions.len(), protocol::prove(&s, &trace, &mut Cheat { dev: Dev::WeakWork, rng: rng.fork(8) }).bytes));
        sessions.push(("work out of reach".into(), s));
    }
    // every routing the network might choose; the fault list is the list of misroutings
    let mut faults = vec![];
    for (p, _) in proofs.iter().enumerate() {
        for s in 0..sessions.len() {
            if p == 0 || rng.chance(1, 3) || proofs[p].0 == s {
                faults.push(json!({"k": if proofs[p].0 == s { "delivered" } else { "misrouted" }, "p": p, "s": s}));
            }
        }
    }
    for i in (1..faults.len()).rev() {
        faults.swap(i, rng.below(i + 1));
    }
    let sched = Sched::random(&mut rng);
    let nver = 1 + rng.below(3);
    let sarc = std::sync::Arc::new((sessions.clone(), proofs.clone()));
    let run = ctx.sim("misrouted deliveries", &sched, &faults, &mut |fl| {
        rt::global_pool(2);
        let fl = std::sync::Arc::new(fl.to_vec());
        let hs: Vec<_> = (0..nver)
            .map(|v| {
                let (fl, sp) = (fl.clone(), sarc.clone());
                rt::spawn(move || {
                    fl.iter().enumerate().filter(|(i, _)| i % nver == v).map(|(_, f)| {
                        let (p, s) = (u(f, "p"), u(f, "s"));
                        let c = catch_unwind(AssertUnwindSafe(|| sp.0[s].1.to_repo()));
                        let (code, t) = match c {
                            Ok(c) => verify_code(&c, &sp.1[p].1),
                            Err(_) => (3, "claim not constructible".into()),
                        };
                        rt::point();
                        json!([p, s, code, t])
                    }).collect::<Vec<_>>()
                })
            })
            .collect();
        json!(hs.into_iter().map(|h| h.join().unwrap_or_default()).collect::<Vec<_>>())
    });
    if !ctx.ended(&run) {
        return;
    }
    for l in run.out.as_array().unwrap_or(&vec![]) {
        for o in l.as_array().unwrap() {
            let (p, s, code) = (o[0].as_u64().unwrap() as usize, o[1].as_u64().unwrap() as usize, o[2].as_u64().unwrap());
            let (what, sys) = &sessions[s];
            if code == 3 {
                ctx.count("receiving claim not constructible", 1);
                continue;
            }
            if code == 1 {
                if let Err(rule) = protocol::verify(sys, &proofs[p].1) {
                    ctx.fail(
                        "proof accepted by another session",
                        format!("proof of session '{}' ({}) accepted by session '{}' ({}), rule broken: {}", sessions[proofs[p].0].0, describe(&sessions[proofs[p].0].1), what, describe(sys), rule),
                    );
                    return;
                }
                ctx.count(&format!("accepted and valid: {}", if proofs[p].0 == s { "own" } else { what }), 1);
            } else {
                if proofs[p].0 == s && p != weak {
                    ctx.fail("proof rejected by its own session", format!("session '{}' ({}): {}", what, describe(sys), o[3]));
                    return;
                }
                ctx.count(&format!("rejected: {}", what), 1);
            }
        }
    }
    ctx.sample(format!("{} sessions={} proofs={}", describe(&a), sessions.len(), proofs.len()));
}

fn devs(sys: &Sys, rng: &mut Rng) -> Vec<Dev> {
    use Dev::*;
    let mut v = vec![
        Honest, LdePoint, LdePoint, LdePoint, ConstraintPoint, ConstraintPoint, ConstraintPoint, OodsTrace, OodsConstraint, OodsRaw, OodsRaw,
        FriForeign, LastLayer, LastLayer, BadNonce, WeakWork, NearNonce, OtherNonce, ChosenQueries, FreeTraceOpenings, FreeTraceOpenings,
        FreeConstraintOpenings, FreeConstraintOpenings, ConflictingDuplicates, ConflictingDuplicates, EarlyCoefficients, EarlyOodsPoint,
        EarlyOodsCoefficients, EarlyQueries, EarlyPow, TraceValue, TraceValue, ConstraintValue, ConstraintValue, PairedOpenings, PairedOpenings,
        TraceHash, ConstraintHash, NonCanonicalOods, NonCanonicalOpening, NonCanonicalLast, FalseTrace, FalseTraceSolved, HighDegreeConstraint,
        HighDegreeTrace, SwapConstraintColumns, SwapTraceColumns, NegatedOods, Trailing, Truncated,
    ];
    for k in 0..sys.fri.len() {
        v.extend([FriPoint(k), FriPoint(k), FriLayerForeign(k), FreeFriOpenings(k), EarlyFriPoint(k), FriValue(k), FriValue(k), FriHash(k)]);
    }
    for i in (1..v.len()).rev() {
        v.swap(i, rng.below(i + 1));
    }
    v
}

fn c05(ctx: &mut Ctx) {
    let mut rng = ctx.rng.clone();
    let cl = if ctx.idx % 16 == 5 { Class::Medium } else { small(&mut rng) };
    let (mut sys, mut trace) = scen::gen(&mut rng, cl);
    let crowd = ctx.idx % 48 == 26;
    if crowd {
        (sys, trace) = scen::crowd(&mut rng, &sys, &trace);
    }
    if rng.chance(1, 4) {
        // few positions, many queries: repeated and adjacent queries
        sys.queries = 8 + rng.below(40);
    } else if rng.chance(1, 3) {
        sys.queries = 1 + rng.below(4);
    }
    if sys.pow_bits > 4 {
        sys.pow_bits = rng.below(5);
    }
    ctx.input(sys_hash(&sys));
    let mut ds = devs(&sys, &mut rng);
    if crowd || cl == Class::Medium {
        ds.truncate(14);
    }
    if crowd {
        ds[0] = Dev::Honest;
    }
    let faults: Vec<Value> = ds.iter().enumerate().map(|(i, d)| json!({"k": format!("{:?}", d).split('(').next().unwrap(), "i": i, "seed": rng.next() >> 12})).collect();
    let mut offers: Vec<(usize, Vec<u8>, Result<(), &'static str>)> = vec![];
    for f in &faults {
        let i = u(f, "i");
        let mut ch = Cheat { dev: ds[i], rng: Rng::new(f["seed"].as_u64().unwrap()) };
        let o = protocol::prove(&sys, &trace, &mut ch);
        if !o.fired && ds[i] != Dev::Honest {
            continue;
        }
        let v = protocol::verify(&sys, &o.bytes);
        offers.push((i, o.bytes, v));
    }
    let sched = quiet();
    let run = ctx.sim("Byzantine transcripts", &sched, &faults, &mut |fl| {
        rt::global_pool(2);
        let c = sys.to_repo();
        let on: Vec<usize> = fl.iter().map(|f| u(f, "i")).collect();
        json!(offers.iter().filter(|o| on.contains(&o.0)).map(|o| {
            let (code, t) = verify_code(&c, &o.1);
            json!([o.0, code, t])
        }).collect::<Vec<_>>())
    });
    if !ctx.ended(&run) {
        return;
    }
    for o in run.out.as_array().unwrap_or(&vec![]) {
        let i = o[0].as_u64().unwrap() as usize;
        let of = offers.iter().find(|x| x.0 == i).unwrap();
        match (o[1].as_u64().unwrap(), of.2) {
            (1, Err(rule)) => {
                ctx.fail("cheating prover accepted", format!("{}: deviation {:?} must be rejected by rule '{}'", describe(&sys), ds[i], rule));
                return;
            }
            (c, Ok(())) if c != 1 && matches!(ds[i], Dev::Honest | Dev::OtherNonce) => {
                ctx.fail("valid transcript rejected", format!("{}: {:?}: {}", describe(&sys), ds[i], o[2]));
                return;
            }
            (1, Ok(())) => ctx.count("deviation not visible at the queried positions", 1),
            (_, Err(rule)) => ctx.count(&format!("caught by: {}", rule), 1),
            _ => ctx.count("stricter than the rules", 1),
        }
    }
    ctx.count("Byzantine transcripts", offers.len() as u64);
    ctx.sample(format!("{} transcripts={}", describe(&sys), offers.len()));
}
