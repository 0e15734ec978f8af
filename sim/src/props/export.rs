//! What leaves the process for the chain: contract generation under I/O faults (C14), proof export (C17).
use super::*;
use crate::protocol::{self, Cheat};
use crate::rt::{Exit, IoFault};
use crate::scen;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::sync::Arc;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C14",
            quick: 5000,
            thorough: 120000,
            run: c14,
            real: "zkp-stark contract generator, tinytemplate, std file API, the real file system in a scratch directory",
            stub: "open, write and sync calls below the scratch directory fail, are cut short, interrupted or end the process at seeded points; randomness of hash maps is seeded; thread scheduling simulated",
            rule: "one evaluation is one simulated run of the generator with a fault plan (or a fault-free rerun after it), judged by return value and files on disk; distinct_inputs counts different (claim, fault plan) pairs",
        },
        Prop {
            id: "C17",
            quick: 13000,
            thorough: 100000,
            run: c17,
            real: "zkp-stark proof export (proof_serialize), prover for a sample of proofs",
            stub: "thread scheduling and randomness simulated; most proofs come from the independent reference prover (byte-identical, see C01)",
            rule: "one evaluation is one simulated run exporting proofs from concurrent threads, every field of the output compared with the proof bytes; distinct_inputs counts different claims and parameters",
        },
    ]
}

pub fn supported(e: &E) -> bool {
    fn power(e: &E) -> bool {
        match e {
            E::X => true,
            E::Exp(a, _) => power(a),
            _ => false,
        }
    }
    match e {
        E::X | E::C(_) => true,
        E::T(_, o) => *o >= 0,
        E::Poly(_, a) => power(a),
        E::Claim(..) => true,
        E::Add(a, b) | E::Mul(a, b) => supported(a) && supported(b),
        E::Neg(a) | E::Inv(a) | E::Exp(a, _) => supported(a),
    }
}
pub fn listing(d: &Path) -> BTreeMap<String, Vec<u8>> {
    let mut m = BTreeMap::new();
    if let Ok(r) = std::fs::read_dir(d) {
        for e in r.flatten() {
            m.insert(e.file_name().to_string_lossy().into_owned(), std::fs::read(e.path()).unwrap_or_default());
        }
    }
    m
}
pub struct Scratch(pub PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
const ACTIONS: [(u32, &str); 10] = [
    (1, "permission denied"),
    (2, "disk full"),
    (3, "I/O error"),
    (4, "short write"),
    (5, "interrupted call"),
    (6, "crash before the call"),
    (7, "crash after half a write"),
    (8, "too many open files"),
    (9, "quota exceeded"),
    (10, "write of zero bytes"),
];

fn c14(ctx: &mut Ctx) {
    let mut rng = ctx.rng.clone();
    let sys = loop {
        let cl = if rng.chance(1, 3) { Class::Tiny } else { Class::Small };
        let (s, _) = scen::gen(&mut rng, cl);
        if s.exprs.iter().all(supported) {
            break s;
        }
    };
    let name = ["Test", "A", "LongerSystemName", "x1"][rng.below(4)];
    let base = std::env::temp_dir().join(format!("zkpsim-c14-{}", std::process::id()));
    let _ = std::fs::remove_dir_all(&base);
    std::fs::create_dir_all(&base).expect("scratch");
    let scratch = Scratch(base);
    let sys_a = Arc::new(sys);
    // one run of the generator in `dir`, on a fresh thread of a fresh process
    let go = |dir: PathBuf, plan: &[Value], threads: usize| -> Value {
        let p: Vec<IoFault> = plan.iter().map(|f| IoFault { op: f["op"].as_u64().unwrap() as u32, action: f["a"].as_u64().unwrap() as u32 }).collect();
        rt::io_watch(dir.to_str().unwrap(), &p);
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                let s = sys_a.clone();
                let d = if t == 0 { dir.clone() } else { PathBuf::from(format!("{}-{}", dir.display(), t)) };
                rt::spawn(move || match catch_unwind(AssertUnwindSafe(|| zkp_stark::generate(&s.to_repo(), d.to_str().unwrap(), name))) {
                    Ok(Ok(())) => json!("ok"),
                    Ok(Err(e)) => json!({ "error": format!("{:?}", e) }),
                    Err(e) => json!({ "panic": rt::panic_text(&e) }),
                })
            })
            .collect();
        let r: Vec<Value> = hs.into_iter().map(|h| h.join().unwrap_or(json!({"panic": "thread"}))).collect();
        json!({"r": r, "kinds": rt::io_kinds()})
    };
    let fresh = |k: &str| {
        let d = scratch.0.join(k);
        let _ = std::fs::remove_dir_all(&d);
        std::fs::create_dir_all(&d).unwrap();
        d
    };
    // fault free
    let d0 = fresh("clean");
    let run = ctx.sim("fault-free generation", &quiet(), &[], &mut |_| go(d0.clone(), &[], 1));
    if !ctx.ended(&run) {
        return;
    }
    if run.out["r"][0] != "ok" {
        ctx.fail("generation fails without faults", format!("{}: {}", describe(&sys_a), run.out));
        return;
    }
    let want = listing(&d0);
    let kinds = run.out["kinds"].as_str().unwrap().to_string();
    if want.is_empty() || want.values().any(|v| v.is_empty()) {
        ctx.fail("incomplete files reported as success", format!("{}: files {:?}", describe(&sys_a), want.iter().map(|(k, v)| (k, v.len())).collect::<Vec<_>>()));
        return;
    }
    ctx.count("files per generation", want.len() as u64);
    ctx.input(sys_hash(&sys_a));
    // the same again with other randomness, other schedule, other directory and company
    for k in 0..2 {
        let d = fresh(&format!("again{}", k));
        for t in 1..3 {
            fresh(&format!("again{}-{}", k, t));
        }
        let sched = Sched::random(&mut rng);
        let run = ctx.sim("concurrent generation", &sched, &[], &mut |_| go(d.clone(), &[], 3));
        if !ctx.ended(&run) {
            return;
        }
        for t in 0..3 {
            let dt = if t == 0 { d.clone() } else { PathBuf::from(format!("{}-{}", d.display(), t)) };
            if run.out["r"][t] != "ok" || listing(&dt) != want {
                ctx.fail("output depends on more than the claim", format!("{}: {} differing {:?}", describe(&sys_a), run.out["r"][t], listing(&dt).iter().filter(|(k, v)| want.get(*k) != Some(v)).map(|x| x.0.clone()).collect::<Vec<_>>()));
                return;
            }
        }
    }
    let plans = if ctx.thorough() { 24 } else { 14 };
    for k in 0..plans {
        let nops = kinds.len();
        let n = if rng.chance(1, 4) { 2 + rng.below(3) } else { 1 };
        let faults: Vec<Value> = (0..n)
            .map(|_| {
                let op = rng.below(nops);
                let a = rng.pick(&ACTIONS);
                json!({"k": a.1, "op": op, "a": a.0})
            })
            .collect();
        let what = rng.below(6);
        let d = fresh(&format!("f{}", k));
        let mut dir = d.clone();
        match what {
            0 => {
                // leftovers of an earlier, longer output
                for (f, v) in &want {
                    let mut s = v.clone();
                    s.extend_from_slice(b"\n// old tail\n// old tail\n");
                    std::fs::write(d.join(f), s).unwrap();
                }
            }
            1 if k % 3 == 0 => {
                // no such directory
                let _ = std::fs::remove_dir_all(&d);
            }
            2 if k % 3 == 0 => {
                // a file where the directory should be
                let _ = std::fs::remove_dir_all(&d);
                std::fs::write(&d, b"not a directory").unwrap();
            }
            3 if k % 3 == 0 => {
                // a directory where a file should be
                let f = want.keys().nth(rng.below(want.len())).unwrap();
                std::fs::create_dir(d.join(f)).unwrap();
            }
            _ => {}
        }
        let impossible = k % 3 == 0 && (1..=3).contains(&what);
        if rng.chance(1, 5) {
            dir = PathBuf::from(format!("{}/", d.display()));
        }
        let sched = Sched::random(&mut rng);
        let run = ctx.sim("generation with faults", &sched, &faults, &mut |fs| go(dir.clone(), fs, 1));
        let used = ctx.used_faults(&faults);
        let tell = |s: &str| format!("{}: {:?}{} -> {}", describe(&sys_a), used, if impossible { " (output directory unusable)" } else { "" }, s);
        ctx.input(hash_of(format!("{:?}{}{}", used, what, sys_hash(&sys_a)).as_bytes()));
        match &run.exit {
            Exit::Done => {
                let r = &run.out["r"][0];
                if r.get("panic").is_some() || run.out["panic"].is_string() {
                    ctx.fail("crash instead of an error", tell(&run.out.to_string()));
                    return;
                }
                if *r == "ok" {
                    ctx.count("reported success", 1);
                    let got = listing(&d);
                    if impossible || got != want {
                        ctx.fail(
                            "damaged files reported as success",
                            tell(&format!("files {:?}, expected {:?}", got.iter().map(|(k, v)| (k, v.len())).collect::<Vec<_>>(), want.iter().map(|(k, v)| (k, v.len())).collect::<Vec<_>>())),
                        );
                        return;
                    }
                } else {
                    ctx.count("reported an error", 1);
                    if used.is_empty() && !impossible {
                        ctx.fail("error without a fault", tell(&r.to_string()));
                        return;
                    }
                }
            }
            Exit::IoCrash => ctx.count("process ended by an injected crash", 1),
            _ => {
                ctx.ended(&run);
                return;
            }
        }
        if impossible {
            let _ = std::fs::remove_file(&d);
            let _ = std::fs::remove_dir_all(&d);
            continue;
        }
        // recovery: run again without faults on whatever is there
        let sched = Sched::random(&mut rng);
        let run = ctx.sim("rerun", &sched, &[], &mut |_| go(dir.clone(), &[], 1));
        if !ctx.ended(&run) {
            return;
        }
        let got = listing(&d);
        if run.out["r"][0] != "ok" || want.iter().any(|(f, v)| got.get(f) != Some(v)) {
            ctx.fail("running again does not repair the output", tell(&format!("{} files {:?}", run.out["r"][0], got.iter().map(|(k, v)| (k, v.len())).collect::<Vec<_>>())));
            return;
        }
        let _ = std::fs::remove_dir_all(&d);
    }
    ctx.sample(format!("{} -> {} files, file operations {}", describe(&sys_a), want.len(), kinds));
}

/// The export by the documented layout, from the proof bytes and where things are in them.
pub fn expected(sys: &Sys, r: &protocol::Out) -> Value {
    let h = |name: &str| -> Vec<Value> { r.map.iter().filter(|m| m.0 == name).map(|(_, o, l)| json!(format!("0x{}", hex(&r.bytes[*o..o + l])))).collect() };
    let split = |name: &str| -> Vec<Value> { r.map.iter().filter(|m| m.0 == name).flat_map(|(_, o, l)| r.bytes[*o..o + l].chunks(32).map(|c| json!(format!("0x{}", hex(c)))).collect::<Vec<_>>()).collect() };
    json!({
        "trace_commitment": h("trace_root")[0],
        "constraint_commitment": h("constraint_root")[0],
        "trace_oods_values": h("oods_trace"),
        "constraint_oods_values": h("oods_constraint"),
        "fri_commitments": (0..sys.fri.len()).map(|k| h(&format!("fri_root{}", k))[0].clone()).collect::<Vec<_>>(),
        "last_layer_coefficients": split("last_layer"),
        "pow_nonce": h("nonce")[0],
        "trace_values": h("trace_value"),
        "trace_decommitment": h("trace_hash"),
        "constraint_values": h("constraint_value"),
        "constraint_decommitment": h("constraint_hash"),
        "fri_values": (0..sys.fri.len()).map(|k| h(&format!("fri_value{}", k))).collect::<Vec<_>>(),
        "fri_decommitments": (0..sys.fri.len()).map(|k| h(&format!("fri_hash{}", k))).collect::<Vec<_>>(),
    })
}
fn c17(ctx: &mut Ctx) {
    let mut rng = ctx.rng.clone();
    let cl = class(&mut rng);
    let (mut sys, trace) = scen::gen(&mut rng, cl);
    match rng.below(6) {
        0 => sys.queries = 60 + rng.below(200),
        1 => sys.queries = 1,
        _ => {}
    }
    ctx.input(sys_hash(&sys));
    let r = protocol::prove(&sys, &trace, &mut Cheat::honest());
    let want = expected(&sys, &r);
    let real = rng.chance(1, 8) && cl != Class::Medium;
    let threads = 1 + rng.below(3);
    let workers = pool_size(&mut rng);
    let sched = Sched::random(&mut rng);
    let bytes = Arc::new(r.bytes.clone());
    let s = Arc::new(sys.clone());
    let run = ctx.sim("export", &sched, &[], &mut |_| {
        rt::global_pool(workers);
        if real {
            let p = prove_json(&s, &trace);
            if p["bytes"].as_str().map(unhex) != Some((*bytes).clone()) {
                return json!({ "bad": "proof differs from the documented protocol" });
            }
        }
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                let (s, b) = (s.clone(), bytes.clone());
                rt::spawn(move || {
                    let mut out = if t == 1 { String::from("{\"public\": 1,\n") } else { String::from("{") };
                    match catch_unwind(AssertUnwindSafe(|| zkp_stark::proof_serialize(&s.to_repo(), &zkp_stark::Proof::from_bytes((*b).clone()), &mut out))) {
                        Ok(Ok(())) => json!({ "text": out + "}" }),
                        Ok(Err(e)) => json!({ "error": format!("{:?}", e) }),
                        Err(e) => json!({ "panic": rt::panic_text(&e) }),
                    }
                })
            })
            .collect();
        json!(hs.into_iter().map(|h| h.join().unwrap_or(json!({"panic": "thread"}))).collect::<Vec<_>>())
    });
    if !ctx.ended(&run) {
        return;
    }
    if let Some(b) = run.out["bad"].as_str().or(run.out["panic"].as_str()) {
        ctx.fail("no proof to export", b.to_string());
        return;
    }
    for (t, o) in run.out.as_array().unwrap().iter().enumerate() {
        let text = match o["text"].as_str() {
            Some(t) => t,
            None => {
                ctx.fail("valid proof not exported", format!("{}: {}", describe(&sys), o));
                return;
            }
        };
        let mut got: Value = match serde_json::from_str(text) {
            Ok(v) => v,
            Err(e) => {
                ctx.fail("export is not well formed", format!("{}: {} near {:?}", describe(&sys), e, text.lines().nth(e.line().max(2) - 2)));
                return;
            }
        };
        if t == 1 && got.as_object_mut().and_then(|m| m.remove("public")) != Some(json!(1)) {
            ctx.fail("export drops what was there before", describe(&sys));
            return;
        }
        if got != want {
            let keys: Vec<String> = want.as_object().unwrap().iter().filter(|(k, v)| got.get(k) != Some(v)).map(|x| x.0.clone()).collect();
            ctx.fail("export differs from the proof", format!("{}: {:?}", describe(&sys), keys));
            return;
        }
    }
    ctx.count("exports compared", threads as u64);
    if want["fri_values"].as_array().unwrap().iter().any(|v| v.as_array().unwrap().is_empty()) {
        ctx.count("with an empty layer", 1);
    }
    ctx.sample(describe(&sys));
}
