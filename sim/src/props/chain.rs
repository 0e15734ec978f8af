//! The generated on-chain verifier, run on a simulated chain: C24.
use super::export::{listing, supported, Scratch};
use super::*;
use crate::{scen, yul};
use std::collections::BTreeMap;
use std::path::PathBuf;
use std::sync::Arc;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C24",
        quick: 10000,
        thorough: 250000,
        run: c24,
        real: "zkp-stark contract generator and its templates; the assembly of the generated contracts runs as generated",
        stub: "the chain is simulated (an interpreter of the assembly with memory, call data and the exponentiation precompile); the wrapper's call data assembly and the layout tables are read from the generated text; thread scheduling simulated",
        rule: "one evaluation is one simulated run: contracts generated by one to three threads, then relayers submit calls with drawn openings and faults, each answer compared with the value the native verification rules prescribe; distinct_inputs counts different (claim, call) pairs",
    }]
}

/// Does an inverse hide inside another one (or something the generator does not know)?
pub fn plain(e: &E, inside: bool) -> bool {
    match e {
        E::X | E::C(_) | E::T(..) => true,
        E::Poly(_, a) => plain(a, inside),
        E::Claim(_, _, a) => plain(a, true),
        E::Add(a, b) | E::Mul(a, b) => plain(a, inside) && plain(b, inside),
        E::Neg(a) | E::Exp(a, _) => plain(a, inside),
        E::Inv(a) => !inside && plain(a, true),
    }
}
const NAMES: [&str; 24] = [
    "qzalpha", "qzbravo", "qzcharlie", "qzdelta", "qzecho", "qzfoxtrot", "qzgolf", "qzhotel", "qzindia", "qzjuliet", "qzkilo", "qzlima", "qzmike", "qznovember", "qzoscar", "qzpapa", "qzquebec",
    "qzromeo", "qzsierra", "qztango", "qzuniform", "qzvictor", "qzwhiskey", "qzxray",
];
fn claims_of(e: &E, out: &mut Vec<(String, usize, E)>) {
    match e {
        E::X | E::C(_) | E::T(..) => {}
        E::Claim(i, d, a) => {
            let k = format!("{} {} {:?}", i, d, a);
            if !out.iter().any(|x| x.0 == k) {
                out.push((k, *i, (**a).clone()));
            }
        }
        E::Add(a, b) | E::Mul(a, b) => {
            claims_of(a, out);
            claims_of(b, out);
        }
        E::Poly(_, a) | E::Neg(a) | E::Exp(a, _) | E::Inv(a) => claims_of(a, out),
    }
}
/// Numbers between `before` and `after`, first occurrence.
fn between(s: &str, before: &str, after: &str) -> Option<u64> {
    let i = s.find(before)? + before.len();
    let j = s[i..].find(after)? + i;
    s[i..j].trim().parse().ok()
}
/// `NAME = [new ...](N)` tables: result[i] = v;
fn table_of(s: &str, function: &str) -> Option<(u64, Vec<u64>)> {
    let i = s.find(&format!("function {}", function))?;
    let body = &s[i..];
    let body = &body[..body.find("return result").unwrap_or(body.len())];
    let n = between(body, "new uint256[](", ")")?;
    let mut v = BTreeMap::new();
    let mut rest = body;
    while let Some(i) = rest.find("result[") {
        rest = &rest[i + 7..];
        let j = rest.find(']')?;
        let index: u64 = match rest[..j].trim().parse() {
            Ok(x) => x,
            Err(_) => continue,
        };
        let value = between(&rest[j..], "=", ";")?;
        v.insert(index, value);
    }
    let ok = v.keys().cloned().eq(0..v.len() as u64);
    if !ok {
        return None;
    }
    Some((n, v.values().cloned().collect()))
}
/// What the wrapper puts into the call.
pub struct Wrapper {
    pub size: u64,
    pub input: u64,
    pub offset: u64,
    claims: BTreeMap<String, u64>,
    /// (position, number of the periodic contract, exponent)
    pub periodic: Vec<(u64, u64, u64)>,
}
pub fn wrapper(s: &str) -> Option<Wrapper> {
    let mut r = Wrapper {
        size: between(s, "call_context = new uint256[](", ")")?,
        input: between(s, "add(call_context, 0x20),", ",")?,
        offset: between(s, "current_index =", ";")?,
        claims: BTreeMap::new(),
        periodic: vec![],
    };
    for l in s.lines() {
        if let Some(i) = l.find("call_context[") {
            let j = l[i..].find(']')? + i;
            let mut at = 0u64;
            let mut number = true;
            for t in l[i + 13..j].split('+') {
                match t.trim().parse::<u64>() {
                    Ok(x) => at += x,
                    Err(_) => number = false,
                }
            }
            if !number {
                continue;
            }
            if let Some(n) = NAMES.iter().find(|n| l.split(|c: char| !c.is_alphanumeric()).any(|t| t == **n)) {
                r.claims.insert(n.to_string(), at);
            } else if let Some(k) = l.find(".evaluate(") {
                let name = l[..k].rsplit(|c: char| !c.is_alphanumeric() && c != '_').next()?;
                let digits: String = name.chars().rev().take_while(|c| c.is_ascii_digit()).collect();
                let number: u64 = digits.chars().rev().collect::<String>().parse().ok()?;
                r.periodic.push((at, number, between(&l[k..], "fpow(", ")")?));
            }
        }
    }
    Some(r)
}

fn c24(ctx: &mut Ctx) {
    let mut rng = ctx.rng.fork(3);
    let sys = loop {
        let cl = if rng.chance(1, 3) { Class::Tiny } else { Class::Small };
        let (mut s, t) = scen::gen(&mut rng, cl);
        if rng.chance(1, 4) {
            s = scen::quotient_column(&mut rng, &s, &t).0;
        }
        if rng.chance(1, 2) {
            s = scen::rewrite(&mut rng, &s);
        }
        if rng.chance(1, 5) {
            let m = 1usize << (1 + rng.below(16));
            s = scen::stretch(&mut rng, &s, m);
        }
        if s.exprs.iter().all(|e| supported(e) && plain(e, false)) {
            break s;
        }
    };
    let mut claims = vec![];
    for e in &sys.exprs {
        claims_of(e, &mut claims);
    }
    if claims.len() > NAMES.len() {
        ctx.count("too many public inputs to name", 1);
        return;
    }
    let name = ["Test", "A", "LongerSystemName", "x1"][rng.below(4)];
    let args = sys.trace_args();
    let ncalls = 2 + rng.below(4);
    let mut faults = vec![];
    // openings of each call
    let draws: Vec<(F, Vec<F>, Vec<F>)> = (0..ncalls)
        .map(|_| {
            let v = |rng: &mut Rng, n: usize| -> Vec<F> {
                (0..n)
                    .map(|_| match rng.below(12) {
                        0 => F::ZERO,
                        1 => F::one(),
                        2 => -F::one(),
                        _ => rng.field(),
                    })
                    .collect()
            };
            (rng.field(), v(&mut rng, 2 * sys.exprs.len()), v(&mut rng, args.len()))
        })
        .collect();
    for i in 0..ncalls {
        match rng.below(6) {
            0 => faults.push(json!({"k": "ether attached to a call", "call": i, "value": 1 + rng.next() % 1000})),
            1 | 2 => faults.push(json!({"k": "precompile call fails", "call": i, "at": rng.below(12)})),
            3 => faults.push(json!({"k": "call data cut short", "call": i, "words": 1 + rng.below(args.len())})),
            _ => {}
        }
    }
    let base = std::env::temp_dir().join(format!("zkpsim-c24-{}", std::process::id()));
    let _ = std::fs::remove_dir_all(&base);
    let generators = 1 + rng.below(3);
    for t in 0..generators {
        std::fs::create_dir_all(base.join(t.to_string())).expect("scratch");
    }
    let scratch = Scratch(base);
    let keys: Vec<String> = claims.iter().map(|c| c.0.clone()).collect();
    let (sys, keys, draws) = (Arc::new(sys), Arc::new(keys), Arc::new(draws));
    let claims = Arc::new(claims.into_iter().map(|c| (c.1, c.2)).collect::<Vec<_>>());
    let dir = scratch.0.clone();
    let sched = Sched::random(&mut rng);
    let run = ctx.sim("generate and call", &sched, &faults, &mut |faults| {
        let hs: Vec<_> = (0..generators)
            .map(|t| {
                let (s, keys, d) = (sys.clone(), keys.clone(), dir.join(t.to_string()));
                rt::spawn(move || {
                    let names = |i: usize, d: usize, e: &E| keys.iter().position(|k| *k == format!("{} {} {:?}", i, d, e)).map(|k| NAMES[k]);
                    match catch_unwind(AssertUnwindSafe(|| zkp_stark::generate(&s.to_repo_named(&names), d.to_str().unwrap(), name))) {
                        Ok(Ok(())) => String::new(),
                        Ok(Err(e)) => format!("{:?}", e),
                        Err(e) => rt::panic_text(&e),
                    }
                })
            })
            .collect();
        let r: Vec<String> = hs.into_iter().map(|h| h.join().unwrap_or("thread".into())).collect();
        if let Some(e) = r.iter().find(|x| !x.is_empty()) {
            return json!({"generation": e});
        }
        let d = dir.join(rng_pick(generators, draws[0].0));
        let faults = Arc::new(faults.to_vec());
        let hs: Vec<_> = (0..draws.len())
            .map(|i| {
                let (s, draws, claims, faults, d) = (sys.clone(), draws.clone(), claims.clone(), faults.clone(), d.clone());
                rt::spawn(move || {
                    rt::point();
                    match catch_unwind(AssertUnwindSafe(|| submit(&s, &claims, name, &d, &draws[i], &faults.iter().filter(|f| f["call"] == json!(i)).cloned().collect::<Vec<_>>()))) {
                        Ok(v) => v,
                        Err(e) => json!({"harness": rt::panic_text(&e)}),
                    }
                })
            })
            .collect();
        let mut v: Vec<Value> = hs.into_iter().map(|h| h.join().unwrap_or(json!({"harness": "thread"}))).collect();
        v.push(static_parts(&sys, name, &d));
        json!(v)
    });
    if !ctx.ended(&run) {
        return;
    }
    ctx.input(sys_hash(&sys) ^ hash_of(&draws[0].0.to_bytes()));
    if run.out.get("generation").is_some() {
        ctx.fail("generation fails without faults", format!("{}: {}", describe(&sys), run.out));
        return;
    }
    let out = run.out.as_array().cloned().unwrap_or_default();
    for v in &out {
        if let Some(x) = v.get("wrong") {
            ctx.fail(x.as_str().unwrap(), format!("{}: {}", describe(&sys), v));
            return;
        }
        if let Some(x) = v.get("harness") {
            panic!("chain simulation: {}", x);
        }
        for k in v.get("did").and_then(|x| x.as_array()).into_iter().flatten() {
            ctx.count(k.as_str().unwrap(), 1);
        }
    }
    ctx.sample(format!("{} -> {} calls, {} public inputs", describe(&sys), ncalls, claims.len()));
}
fn rng_pick(n: usize, f: F) -> String {
    (f.0[0] as usize % n).to_string()
}
pub fn text(files: &BTreeMap<String, Vec<u8>>, name: &str) -> String {
    files.get(name).map(|b| String::from_utf8_lossy(b).into_owned()).unwrap_or_default()
}

/// The tables and parameters the contracts announce.
fn static_parts(sys: &Sys, name: &str, dir: &PathBuf) -> Value {
    let files = listing(dir);
    let trace = text(&files, &format!("{}Trace.sol", name));
    let main = text(&files, &format!("{}.sol", name));
    let wrong = |what: &str, got: String| json!({"wrong": what, "got": got});
    let mut did = vec![];
    let args = sys.trace_args();
    if let (Some((n, cells)), Some((rn, rows))) = (table_of(&trace, "layout_col_major"), table_of(&trace, "layout_rows")) {
        did.push("layout compared");
        let mut all: Vec<u64> = args.iter().map(|a| a.1 as u64).collect();
        all.sort();
        all.dedup();
        let mut have = rows.clone();
        have.sort();
        if rn != rows.len() as u64 || have != all {
            return wrong("row table is not the rows of the claim", format!("{:?} of {}, offsets {:?}", rows, rn, all));
        }
        let mut said = vec![];
        for p in cells.chunks(2) {
            if p.len() < 2 || p[0] % 32 != 0 || p[1] % 32 != 0 || p[1] / 32 >= rows.len() as u64 {
                return wrong("cell table malformed", format!("{:?}", cells));
            }
            said.push((p[0] as usize / 32, rows[p[1] as usize / 32] as isize));
        }
        if n != cells.len() as u64 || said != args {
            return wrong("cell table does not match the order of the openings", format!("{:?}, openings {:?}", said, args));
        }
        if let Some(i) = trace.find("DefaultConstraintSystem(") {
            let s = &trace[i + 24..];
            let v: Vec<u64> = s[..s.find(')').unwrap_or(0)].split(',').filter_map(|x| x.trim().parse().ok()).collect();
            if v.len() == 4 {
                did.push("shape compared");
                let want = [sys.eval_degree() as u64, all.len() as u64, sys.cols as u64, sys.blowup as u64];
                if v != want {
                    return wrong("announced shape is not the shape of the proof", format!("{:?} instead of {:?} (constraint columns, rows, columns, blow-up)", v, want));
                }
            }
        }
    }
    for (key, end, want) in [
        ("log_trace_length =", ";", sys.n.trailing_zeros() as u64),
        ("number_of_constraints:", ",", sys.exprs.len() as u64),
        ("log_blowup:", ",", sys.blowup.trailing_zeros() as u64),
        ("pow_bits:", ",", sys.pow_bits as u64),
        ("number_of_queries:", ",", sys.queries as u64),
    ] {
        if let Some(got) = between(&main, key, end) {
            did.push("parameter compared");
            if got != want {
                return wrong("announced parameter differs", format!("{} {} instead of {}", key, got, want));
            }
        }
    }
    json!({ "did": did })
}

fn submit(sys: &Sys, claims: &[(usize, E)], name: &str, dir: &PathBuf, draw: &(F, Vec<F>, Vec<F>), faults: &[Value]) -> Value {
    let files = listing(dir);
    let (x, coefs, opened) = draw;
    let wrong = |what: &str, got: String| json!({"wrong": what, "got": got, "point": hex(&yul::bytes(&x.to_raw()))});
    let main = text(&files, &format!("{}.sol", name));
    let w = match wrapper(&main) {
        Some(w) => w,
        None => return json!({"did": ["wrapper not understood"]}),
    };
    let args = sys.trace_args();
    let none = |_: usize, _: isize| F::ZERO;
    // the call the wrapper makes
    let mut words: Vec<yul::W> = vec![[0; 4]; w.size as usize];
    let mut put = |i: u64, v: yul::W| -> bool {
        let ok = (i as usize) < words.len();
        if ok {
            words[i as usize] = v;
        }
        ok
    };
    let mut fits = put(0, x.to_raw());
    for (k, (i, arg)) in claims.iter().enumerate() {
        let at = match w.claims.get(NAMES[k]) {
            Some(at) => *at,
            None => return json!({"did": ["public inputs not understood"]}),
        };
        let v = match arg.eval(*x, &none, &sys.claims) {
            Some(a) => eval_poly(&sys.claims[*i], a),
            None => return json!({"did": ["undefined at this point"]}),
        };
        fits &= put(at, v.to_raw());
    }
    for (at, number, e) in &w.periodic {
        let src = text(&files, &format!("periodic{}.sol", number));
        let p = match yul::parse(&src) {
            Ok(p) => p,
            Err(_) if src.is_empty() => return wrong("contract of a periodic column is missing", format!("number {}", number)),
            Err(_) => return json!({"did": ["periodic contract not understood"]}),
        };
        // function evaluate(uint256 IN) ... returns (uint256 OUT)
        let arg = |key: &str| -> Option<String> {
            let i = src.find(key)? + key.len();
            let t = &src[i..];
            let t = &t[t.find("uint256")? + 7..];
            Some(t[..t.find(')')?].trim().to_string())
        };
        let (a, r) = match (arg("function evaluate("), arg("returns (")) {
            (Some(a), Some(r)) => (a, r),
            _ => return json!({"did": ["periodic contract not understood"]}),
        };
        let at_x = x.pow(*e);
        let mut m = yul::Machine::new(&[]);
        match m.run(&p, &[(&a, at_x.to_raw()), (&r, [0; 4])]) {
            Ok(v) => fits &= put(*at, v[&r]),
            Err(yul::Halt::Stuck(s)) if s.starts_with("unknown") => return json!({"did": ["periodic contract not understood"]}),
            Err(e) => return wrong("periodic contract fails", format!("{:?}", e)),
        }
    }
    for (i, v) in coefs.iter().chain(opened).enumerate() {
        fits &= put(w.offset + i as u64, v.to_raw());
    }
    if !fits {
        return wrong("call context too small for its contents", format!("{} words", w.size));
    }
    let mut data: Vec<u8> = words.iter().flat_map(|x| yul::bytes(x).to_vec()).collect();
    data.resize(w.input as usize, 0);
    let mut seen = opened.clone();
    let mut value = 0;
    let mut fail = None;
    let mut did = vec!["calls"];
    for f in faults {
        match f["k"].as_str().unwrap() {
            "ether attached to a call" => value = f["value"].as_u64().unwrap(),
            "precompile call fails" => fail = f["at"].as_u64(),
            _ => {
                let k = f["words"].as_u64().unwrap() as usize;
                // the openings come last
                let total = (w.offset as usize + coefs.len() + opened.len()) * 32;
                data.truncate(total - 32 * k);
                let n = seen.len();
                for v in &mut seen[n - k..] {
                    *v = F::ZERO;
                }
            }
        }
    }
    let src = text(&files, &format!("{}ConstraintPoly.sol", name));
    if src.is_empty() {
        return wrong("constraint contract is missing", format!("{:?}", files.keys().collect::<Vec<_>>()));
    }
    let p = match yul::parse(&src) {
        Ok(p) => p,
        Err(e) => return json!({"did": ["constraint contract not understood"], "why": e}),
    };
    let mut m = yul::Machine::new(&data);
    m.value = value;
    m.fail_call = fail;
    let got = match m.run(&p, &[]) {
        Ok(_) => yul::Halt::Return(vec![]),
        Err(h) => h,
    };
    if let yul::Halt::Stuck(s) = &got {
        if s.starts_with("unknown operation") || s.starts_with("call of") {
            return json!({"did": ["constraint contract not understood"], "why": s});
        }
        return wrong("constraint contract fails", s.clone());
    }
    let precompile_failed = fail.map_or(false, |k| m.calls > k);
    if value != 0 || precompile_failed {
        did.push("calls that had to be reverted");
        if got != yul::Halt::Revert {
            return wrong("answer in spite of a failed call", format!("{:?}", got));
        }
        return json!({ "did": did });
    }
    // native rule
    let map: BTreeMap<(usize, isize), F> = args.iter().cloned().zip(seen.iter().cloned()).collect();
    let tr = |c: usize, o: isize| map[&(c, o)];
    let mut want = F::ZERO;
    for (k, (e, adj)) in sys.exprs.iter().zip(sys.adjustments()).enumerate() {
        match e.eval(*x, &tr, &sys.claims) {
            Some(v) => want = want + (coefs[2 * k] + coefs[2 * k + 1] * x.pow(adj as u64)) * v,
            None => return json!({"did": ["undefined at this point"]}),
        }
    }
    match got {
        yul::Halt::Return(b) if b.len() == 32 && yul::word(&b) == want.to_raw() => {
            did.push("answers equal to the native value");
            json!({ "did": did })
        }
        g => wrong("contract and native verifier disagree on the value at the deep point", format!("{:?} instead of {:x?}", g, want.to_raw())),
    }
}
