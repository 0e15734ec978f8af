//! The on-chain verifier run on a simulated chain: C25.
use super::chain;
use super::export::{expected, listing, supported, Scratch};
use super::*;
use crate::protocol::{self, Cheat, Dev};
use crate::scen;
use crate::sol::{Chain, Own, Unit};
use crate::yul::{self, Halt};
use std::collections::VecDeque;
use std::path::PathBuf;
use std::sync::{Arc, Condvar, Mutex};


pub fn dir() -> String {
    "/repo/crypto/stark-verifier-ethereum/contracts".to_string()
}
pub fn sources(names: &[&str]) -> Vec<String> {
    names.iter().filter_map(|n| std::fs::read_to_string(format!("{}/{}", dir(), n)).ok()).collect()
}
pub const CORE: [&str; 12] = [
    "interfaces/ConstraintInterface.sol", "default_cs.sol", "fri.sol", "iterator.sol", "merkle.sol", "primefield.sol", "proof_of_work.sol", "proof_types.sol", "public_coin.sol", "stark_verifier.sol", "trace.sol", "utils.sol",
];

fn words(v: &Value) -> Option<Own> {
    match v {
        Value::Array(a) => Some(Own::List(a.iter().map(words).collect::<Option<_>>()?)),
        Value::String(s) => {
            let h = s.strip_prefix("0x")?;
            let b = unhex(h);
            // bytes8 and bytes32 are left aligned, numbers have 32 bytes
            Some(Own::Word(yul::word(&b)))
        }
        _ => None,
    }
}
/// The argument of the verifier from the exported form.
pub fn proof_arg(u: &Unit, v: &Value, public: Vec<u8>) -> Option<Own> {
    let mut out = vec![];
    for f in u.fields("StarkProof")? {
        if f == "public_inputs" {
            out.push(Own::Bytes(public.clone()));
        } else {
            out.push(words(v.get(&f)?)?);
        }
    }
    Some(Own::List(out))
}
/// Recorded proofs of the repository's own end to end test: what a real chain accepted.
pub fn calibrate() -> i32 {
    let mut names: Vec<&str> = CORE.to_vec();
    names.extend(["testing_contracts/recurrence.sol", "testing_contracts/recurrence_trace.sol", "testing_contracts/recurence_constraint_256.sol"].iter());
    let u = match Unit::load(&sources(&names)) {
        Ok(u) => u,
        Err(e) => {
            eprintln!("not understood: {}", e);
            return 2;
        }
    };
    let ch = Chain::new(&u);
    let poly = ch.deploy("ConstraintPolyLen256", &[]).expect("deploy");
    let system = ch.deploy("Recurrence", &[Own::Word(poly)]).expect("deploy");
    let verifier = ch.deploy("StarkVerifier", &[]).expect("deploy");
    let text = std::fs::read_to_string(format!("{}/../test/recurrence_proofs.json", dir())).unwrap();
    let all: Vec<Value> = serde_json::from_str(&text).unwrap();
    for (i, p) in all.iter().enumerate() {
        let mut public = unhex(p["public_inputs"]["value"].as_str().unwrap().trim_start_matches("0x"));
        while public.len() < 32 {
            public.insert(0, 0);
        }
        public.extend_from_slice(&yul::bytes(&yul::w(p["public_inputs"]["index"].as_u64().unwrap())));
        let arg = proof_arg(&u, p, public).expect("fields");
        ch.begin();
        let t = std::time::Instant::now();
        let r = ch.call(&verifier, "verify_proof", &[arg, Own::Word(system)]);
        println!("{} {:?} {:?} {} steps {:?}", i, r, ch.reason.borrow(), ch.steps.get(), t.elapsed());
    }
    0
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C25",
        quick: 3000,
        thorough: 60000,
        run: c25,
        real: "the on-chain verifier (verifier, FRI, Merkle, coin, work, field and default constraint system contracts), the contracts generated for the claim, zkp-stark's contract generator and proof export; all contract code runs as written",
        stub: "the chain is simulated: an interpreter of the Solidity subset and of the assembly in use, with memory, calls between contracts and the exponentiation precompile; the claim specific glue contract (which the generator leaves to the user) is written by the harness; proofs come from the independent reference prover (byte-identical with the real one, see C01)",
        rule: "one evaluation is one simulated run: relayers build and submit transactions concurrently, the chain executes them in the order of arrival, every verdict is compared with the rules of the proof system; distinct_inputs counts different (claim, transaction) pairs",
    }]
}

/// The glue a user has to write: parameters, transcript start, and the call of the generated contracts.
fn glue(sys: &Sys, name: &str, w: &chain::Wrapper, periodic: &[(u64, String)]) -> String {
    let ty = |n: u64| periodic.iter().find(|p| p.0 == n).map(|p| p.1.clone()).unwrap_or_default();
    let mut s = format!("contract SimSystem is {}Trace {{\n using PrimeField for uint256;\n using PrimeField for PrimeField.EvalX;\n OodsPoly immutable poly;\n", name);
    for (k, (_, n, _)) in w.periodic.iter().enumerate() {
        s += &format!(" {} immutable per{};\n", ty(*n), k);
    }
    s += " constructor(OodsPoly a";
    for (k, (_, n, _)) in w.periodic.iter().enumerate() {
        s += &format!(", {} b{}", ty(*n), k);
    }
    s += ") public {\n  poly = a;\n";
    for k in 0..w.periodic.len() {
        s += &format!("  per{} = b{};\n", k, k);
    }
    s += " }\n function initalize_system(bytes calldata public_input) external view override returns (ProofTypes.ProofParameters memory, PublicCoin.Coin memory) {\n";
    s += "  PublicCoin.Coin memory coin = PublicCoin.init_coin(public_input);\n";
    s += &format!("  uint8[] memory fri_layout = new uint8[]({});\n", sys.fri.len());
    for (i, f) in sys.fri.iter().enumerate() {
        s += &format!("  fri_layout[{}] = {};\n", i, f);
    }
    s += &format!(
        "  ProofTypes.ProofParameters memory params = ProofTypes.ProofParameters({{ number_of_columns: NUM_COLUMNS, log_trace_length: {}, number_of_constraints: {}, log_blowup: {}, constraint_degree: CONSTRAINT_DEGREE, pow_bits: {}, number_of_queries: {}, fri_layout: fri_layout }});\n  return (params, coin);\n }}\n",
        sys.n.trailing_zeros(),
        sys.exprs.len(),
        sys.blowup.trailing_zeros(),
        sys.pow_bits,
        sys.queries
    );
    s += " function constraint_calculations(ProofTypes.OodsEvaluationData memory data, uint256[] memory queries, uint256 oods_point, uint256[] memory coefs, uint256[] memory oods_coefs) public override returns (uint256[] memory, uint256) {\n";
    s += "  PrimeField.EvalX memory eval = PrimeField.init_eval(data.log_trace_length + 4);\n  uint256[] memory result = get_polynomial_points(data, eval, oods_coefs, queries, oods_point);\n";
    s += &format!("  uint256[] memory cc = new uint256[]({});\n  uint256 z = oods_point.fmul_mont(1);\n  cc[0] = z;\n", w.size);
    for (k, (at, _, e)) in w.periodic.iter().enumerate() {
        s += &format!("  cc[{}] = per{}.evaluate(z.fpow({}));\n", at, k, e);
    }
    s += &format!("  uint256 at = {};\n", w.offset);
    s += "  for (uint256 i = 0; i < coefs.length; i++) { cc[at] = coefs[i]; at++; }\n  for (uint256 i = 0; i < data.trace_oods_values.length; i++) { cc[at] = data.trace_oods_values[i].fmul_mont(1); at++; }\n";
    s += &format!("  uint256 value;\n  OodsPoly to = poly;\n  assembly {{ let p := mload(0x40) if iszero(call(not(0), to, 0, add(cc, 0x20), {}, p, 0x20)) {{ revert(0, 0) }} value := mload(p) }}\n  return (result, value);\n }}\n}}\n", w.input);
    s
}
fn contract_name(src: &str) -> Option<String> {
    let i = src.find("contract ")? + 9;
    Some(src[i..].split(|c: char| !c.is_alphanumeric() && c != '_').next()?.to_string())
}

/// What must happen to a transaction.
#[derive(Clone, Copy, PartialEq)]
enum Must {
    Accept,
    Reject,
    Nothing,
}
struct Tx {
    number: usize,
    what: String,
    body: Value,
    must: Must,
    fail: Option<u64>,
}
fn has_claims(e: &E) -> bool {
    match e {
        E::X | E::C(_) | E::T(..) => false,
        E::Claim(..) => true,
        E::Add(a, b) | E::Mul(a, b) => has_claims(a) || has_claims(b),
        E::Poly(_, a) | E::Neg(a) | E::Exp(a, _) | E::Inv(a) => has_claims(a),
    }
}
fn devs(sys: &Sys) -> Vec<Dev> {
    use Dev::*;
    let mut v = vec![
        LdePoint, ConstraintPoint, OodsTrace, OodsConstraint, OodsRaw, FriForeign, LastLayer, BadNonce, WeakWork, NearNonce, OtherNonce, ChosenQueries, FreeTraceOpenings, FreeTraceOpenings, FreeConstraintOpenings,
        FreeConstraintOpenings, ConflictingDuplicates, EarlyCoefficients, EarlyOodsPoint, EarlyOodsCoefficients, EarlyQueries, EarlyPow, TraceValue, ConstraintValue, PairedOpenings, TraceHash,
        ConstraintHash, FalseTrace, FalseTraceSolved, HighDegreeConstraint, HighDegreeTrace, SwapConstraintColumns, SwapTraceColumns, NegatedOods, ExtraOods, LongLast, ShiftedTrace, ShiftedConstraint,
    ];
    for k in 0..sys.fri.len() {
        v.extend([FriPoint(k), FriLayerForeign(k), FreeFriOpenings(k), FreeFriOpenings(k), EarlyFriPoint(k), FriValue(k), FriHash(k)]);
    }
    v
}
const ARRAYS: [&str; 9] = ["trace_oods_values", "constraint_oods_values", "last_layer_coefficients", "trace_values", "constraint_values", "trace_decommitment", "constraint_decommitment", "fri_values", "fri_decommitments"];

fn c25(ctx: &mut Ctx) {
    let mut rng = ctx.rng.fork(5);
    let long = ctx.idx % 150 == 77;
    let (mut sys, trace) = loop {
        let cl = if rng.chance(1, 2) { Class::Tiny } else { Class::Small };
        let (mut s, t) = if long { scen::gen_log(&mut rng, Class::Large, 12) } else { scen::gen(&mut rng, cl) };
        if rng.chance(1, 4) {
            s = scen::rewrite(&mut rng, &s);
        }
        if s.exprs.iter().all(|e| supported(e) && chain::plain(e, false) && !has_claims(e)) && s.degree() <= 16 && (long || s.n <= 64) {
            break (s, t);
        }
    };
    sys.blowup = 16;
    let log_n = sys.n.trailing_zeros() as usize;
    // what the contracts support: at least one reduction, cosets of at most eight
    let mut left = if rng.chance(1, 2) { log_n } else { 1 + rng.below(log_n) };
    sys.fri = vec![];
    while left > 0 {
        let k = (1 + rng.below(3)).min(left);
        sys.fri.push(k);
        left -= k;
    }
    sys.queries = match rng.below(5) {
        0 => 1,
        1 => 2 + rng.below(3),
        2 if rng.chance(1, 4) && !long => 21 + rng.below(60),
        _ => 4 + rng.below(17),
    };
    sys.pow_bits = [0, 1, 3, 5, 8][rng.below(5)];
    // work nobody can do: no proof is good enough
    let hard = rng.chance(1, 12);
    if hard {
        sys.pow_bits = 16 + if rng.chance(1, 2) { rng.below(50) } else { rng.below(230) };
    }
    let name = ["Test", "A", "LongerSystemName"][rng.below(3)];
    let honest = protocol::prove(&sys, &trace, &mut if hard { Cheat { dev: Dev::WeakWork, rng: rng.fork(9) } } else { Cheat::honest() });
    let repeated = honest.queries.windows(2).any(|q| q[0] == q[1]);
    ctx.count("claims", 1);
    if repeated {
        ctx.count("claims with coinciding queries", 1);
    }
    let all = if hard { vec![Dev::WeakWork, Dev::WeakWork, Dev::BadNonce] } else { devs(&sys) };
    // drawn acts of relayers and of the chain
    let mut faults: Vec<Value> = vec![];
    for _ in 0..4 + rng.below(3) {
        faults.push(match rng.below(if hard { 10 } else { 16 }) {
            0..=9 => json!({"k": "cheating prover", "dev": rng.below(all.len()), "seed": rng.next() >> 12}),
            10 | 11 => json!({"k": "word changed in transit", "seed": rng.next() >> 12}),
            12 | 13 => json!({"k": "array length changed in transit", "seed": rng.next() >> 12}),
            _ => json!({"k": "call fails on chain", "at": rng.below(40) * rng.below(20) , "seed": rng.next() >> 12}),
        });
    }
    let base = std::env::temp_dir().join(format!("zkpsim-c25-{}", std::process::id()));
    let _ = std::fs::remove_dir_all(&base);
    std::fs::create_dir_all(&base).expect("scratch");
    let scratch = Scratch(base);
    let dir = scratch.0.clone();
    let real = rng.chance(1, 10) && !hard && !long;
    let workers = pool_size(&mut rng);
    let sched = Sched::random(&mut rng);
    for (i, f) in faults.iter_mut().enumerate() {
        f["i"] = json!(i);
    }
    let (sys, trace, honest) = (Arc::new(sys), Arc::new(trace), Arc::new(honest));
    let run = ctx.sim("deploy and verify", &sched, &faults, &mut |faults| {
        rt::global_pool(workers);
        // deployment artefacts
        let made = {
            let (s, d) = (sys.clone(), dir.clone());
            rt::spawn(move || match catch_unwind(AssertUnwindSafe(|| zkp_stark::generate(&s.to_repo(), d.to_str().unwrap(), name))) {
                Ok(Ok(())) => String::new(),
                Ok(Err(e)) => format!("{:?}", e),
                Err(e) => rt::panic_text(&e),
            })
            .join()
            .unwrap_or("thread".into())
        };
        if !made.is_empty() {
            return json!({ "generation": made });
        }
        if real {
            let p = prove_json(&sys, &trace);
            if p["bytes"].as_str().map(unhex).as_ref() != Some(&honest.bytes) {
                return json!({ "generation": "proof differs from the documented protocol" });
            }
        }
        // relayers
        let pool: Arc<(Mutex<VecDeque<Tx>>, Condvar)> = Arc::new((Mutex::new(VecDeque::new()), Condvar::new()));
        let mut hs = vec![];
        let mut jobs: Vec<Value> = vec![if hard { json!({"k": "cheating prover", "dev": 0, "seed": 1, "i": 100}) } else { json!({"k": "honest", "i": 100}) }];
        jobs.extend(faults.iter().cloned());
        let total = jobs.len();
        for j in jobs {
            let (s, t, h, pool, all) = (sys.clone(), trace.clone(), honest.clone(), pool.clone(), all.clone());
            hs.push(rt::spawn(move || {
                rt::point();
                let tx = match catch_unwind(AssertUnwindSafe(|| transaction(&s, &t, &h, &all, &j))) {
                    Ok(t) => t,
                    Err(e) => Tx { number: j["i"].as_u64().unwrap() as usize, what: format!("harness {}", rt::panic_text(&e)), body: Value::Null, must: Must::Nothing, fail: None },
                };
                pool.0.lock().unwrap().push_back(tx);
                pool.1.notify_one();
            }));
        }
        let (s, d) = (sys.clone(), dir.clone());
        let p2 = pool.clone();
        let chain = rt::spawn(move || {
            let mut take = || {
                let mut q = p2.0.lock().unwrap();
                loop {
                    if let Some(t) = q.pop_front() {
                        return t;
                    }
                    q = p2.1.wait(q).unwrap();
                }
            };
            match catch_unwind(AssertUnwindSafe(|| operate(&s, name, &d, total, &mut take))) {
                Ok(v) => v,
                Err(e) => json!({"harness": rt::panic_text(&e)}),
            }
        });
        for h in hs {
            let _ = h.join();
        }
        chain.join().unwrap_or(json!({"harness": "thread"}))
    });
    if !ctx.ended(&run) {
        return;
    }
    if run.out.get("generation").is_some() {
        ctx.fail("generation fails without faults", format!("{}: {}", describe(&sys), run.out));
        return;
    }
    if let Some(x) = run.out.get("harness") {
        panic!("chain simulation: {}", x);
    }
    if let Some(x) = run.out.get("unknown") {
        ctx.count(&format!("contracts not understood: {}", x), 1);
        return;
    }
    for v in run.out.as_array().into_iter().flatten() {
        let what = v["what"].as_str().unwrap();
        if what.starts_with("harness") {
            panic!("{}", what);
        }
        ctx.input(sys_hash(&sys) ^ hash_of(v.to_string().as_bytes()));
        if let Some(x) = v.get("unknown") {
            ctx.count(&format!("contracts not understood: {}", x), 1);
            return;
        }
        let verdict = v["verdict"].as_str().unwrap();
        ctx.count(&format!("{}: {}", v["class"].as_str().unwrap(), verdict), 1);
        if let Some(w) = v.get("wrong") {
            ctx.fail(w.as_str().unwrap(), format!("{}: {} -> {} {}", describe(&sys), what, verdict, v["reason"]));
            return;
        }
    }
    ctx.sample(format!("{} -> {} transactions", describe(&sys), faults.len() + 1));
}

fn transaction(sys: &Sys, trace: &[Vec<F>], honest: &protocol::Out, all: &[Dev], j: &Value) -> Tx {
    let number = j["i"].as_u64().unwrap() as usize;
    let mut rng = Rng::new(j["seed"].as_u64().unwrap_or(0));
    let exported = || {
        let mut out = String::from("{");
        zkp_stark::proof_serialize(&sys.to_repo(), &zkp_stark::Proof::from_bytes(honest.bytes.clone()), &mut out).expect("export");
        serde_json::from_str::<Value>(&(out + "}")).expect("export")
    };
    let verdict = |b: &[u8]| protocol::verify(sys, b);
    match j["k"].as_str().unwrap() {
        "honest" => Tx { number, what: "honest proof".into(), body: exported(), must: Must::Accept, fail: None },
        "call fails on chain" => Tx { number, what: format!("honest proof, call {} fails", j["at"]), body: exported(), must: Must::Accept, fail: j["at"].as_u64() },
        "cheating prover" => {
            let dev = all[j["dev"].as_u64().unwrap() as usize % all.len()];
            let o = protocol::prove(sys, trace, &mut Cheat { dev, rng });
            let special = matches!(dev, Dev::ExtraOods | Dev::LongLast | Dev::ShiftedTrace | Dev::ShiftedConstraint);
            let must = if special && o.fired {
                Must::Reject
            } else {
                match verdict(&o.bytes) {
                    Err(_) => Must::Reject,
                    Ok(()) => Must::Accept,
                }
            };
            Tx { number, what: format!("deviation {:?}", dev), body: expected(sys, &o), must, fail: None }
        }
        "word changed in transit" => {
            let mut o = protocol::Out { bytes: honest.bytes.clone(), map: honest.map.clone(), nonce: 0, queries: vec![], fired: true };
            let kinds: std::collections::BTreeSet<&String> = honest.map.iter().map(|m| &m.0).collect();
            let kind = kinds.iter().nth(rng.below(kinds.len())).unwrap().to_string();
            let of: Vec<_> = honest.map.iter().filter(|m| m.0 == kind && m.2 > 0).collect();
            if of.is_empty() {
                return Tx { number, what: "honest proof".into(), body: expected(sys, &o), must: Must::Accept, fail: None };
            }
            let (_, at, len) = of[rng.below(of.len())];
            // low bits, so that numbers stay numbers
            let word = rng.below((len + 31) / 32);
            let from = at + 32 * word + if *len >= 32 { 1 } else { 0 };
            let room = (at + len - from).min(if *len >= 32 { 31 } else { 8 });
            o.bytes[from + rng.below(room)] ^= 1 << rng.below(8);
            let must = match verdict(&o.bytes) {
                Err(_) => Must::Reject,
                Ok(()) => Must::Nothing,
            };
            Tx { number, what: format!("honest proof, {} changed", kind), body: expected(sys, &o), must, fail: None }
        }
        _ => {
            let mut body = exported();
            let key = ARRAYS[rng.below(ARRAYS.len())];
            let mut a = &mut body[key];
            if key.starts_with("fri") {
                let n = a.as_array().unwrap().len();
                a = &mut a[rng.below(n)];
            }
            let v = a.as_array_mut().unwrap();
            let loose = key.starts_with("fri") || key.ends_with("decommitment");
            let mut what = format!("honest proof, {} ", key);
            let must;
            if !v.is_empty() && (loose || rng.chance(1, 2)) {
                let at = if rng.chance(1, 2) { v.len() - 1 } else { rng.below(v.len()) };
                v.remove(at);
                what += &format!("without entry {}", at);
                must = Must::Reject;
            } else {
                let zero = format!("0x{}", "00".repeat(32));
                let x = if v.is_empty() || rng.chance(1, 2) { json!(zero) } else { v[rng.below(v.len())].clone() };
                v.push(x);
                what += "with one more entry";
                // nothing is read from there
                must = if loose { Must::Nothing } else { Must::Reject };
            }
            Tx { number, what, body, must, fail: None }
        }
    }
}

fn operate(sys: &Sys, name: &str, dir: &PathBuf, total: usize, take: &mut dyn FnMut() -> Tx) -> Value {
    let files = listing(dir);
    let mut src = sources(&CORE);
    let main = chain::text(&files, &format!("{}.sol", name));
    let w = match chain::wrapper(&main) {
        Some(w) => w,
        None => return json!({"unknown": "wrapper"}),
    };
    let mut periodic = vec![];
    for (f, b) in &files {
        if *f == format!("{}.sol", name) {
            continue;
        }
        let t = String::from_utf8_lossy(b).into_owned();
        if let Some(n) = f.strip_prefix("periodic").and_then(|x| x.strip_suffix(".sol")).and_then(|x| x.parse::<u64>().ok()) {
            match contract_name(&t) {
                Some(c) => periodic.push((n, c)),
                None => return json!({"unknown": "periodic contract"}),
            }
        }
        src.push(t);
    }
    src.push(glue(sys, name, &w, &periodic));
    let u = match Unit::load(&src) {
        Ok(u) => u,
        Err(e) => return json!({ "unknown": e }),
    };
    let ch = Chain::new(&u);
    let stuck = |h: Halt| json!({"unknown": format!("deployment {:?}", h)});
    let mut args = vec![];
    match ch.deploy("OodsPoly", &[]) {
        Ok(a) => args.push(Own::Word(a)),
        Err(e) => return stuck(e),
    }
    for (_, n, _) in &w.periodic {
        let c = match periodic.iter().find(|p| p.0 == *n) {
            Some(c) => &c.1,
            None => return json!({"unknown": "periodic contract"}),
        };
        match ch.deploy(c, &[]) {
            Ok(a) => args.push(Own::Word(a)),
            Err(e) => return stuck(e),
        }
    }
    let system = match ch.deploy("SimSystem", &args) {
        Ok(a) => a,
        Err(e) => return stuck(e),
    };
    let verifier = match ch.deploy("StarkVerifier", &[]) {
        Ok(a) => a,
        Err(e) => return stuck(e),
    };
    let mut out = vec![];
    for _ in 0..total {
        let tx = take();
        rt::point();
        let class = tx.what.split(|c: char| c == '(' || c == ',').next().unwrap().to_string();
        let arg = match proof_arg(&u, &tx.body, sys.seed.clone()) {
            Some(a) => a,
            None => {
                out.push(json!({"what": tx.what, "unknown": "proof fields"}));
                continue;
            }
        };
        ch.begin();
        ch.fail_call.set(tx.fail);
        let r = ch.call(&verifier, "verify_proof", &[arg, Own::Word(system)]);
        let hit = tx.fail.map_or(false, |k| ch.calls.get() > k);
        let must = if hit { Must::Reject } else { tx.must };
        let reason = ch.reason.borrow().clone();
        let verdict = match &r {
            Ok(v) if *v == vec![Own::Word(yul::w(1))] => "accepted",
            Ok(_) => "no answer",
            Err(Halt::Stuck(s)) if !s.contains("gas") && s != "memory address" => {
                out.push(json!({"n": tx.number, "what": tx.what, "unknown": s}));
                continue;
            }
            Err(Halt::Stuck(s)) if s.contains("gas") => "out of gas",
            Err(_) => "rejected",
        };
        let class = if hit { "honest proof with a failing call".to_string() } else { class };
        let mut v = json!({"n": tx.number, "what": tx.what, "class": class, "verdict": verdict, "reason": reason});
        match must {
            Must::Accept if verdict == "no answer" => v["wrong"] = json!("valid proof verified but not confirmed"),
            Must::Accept if verdict != "accepted" => v["wrong"] = json!("valid proof rejected on chain"),
            Must::Reject if verdict == "accepted" || verdict == "no answer" => v["wrong"] = json!(if hit { "accepted in spite of a failed call" } else { "invalid proof accepted on chain" }),
            _ => {}
        }
        out.push(v);
    }
    json!(out)
}
