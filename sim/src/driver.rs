//! Seeded search: cases, workers, minimisation, replay files, evidence.
use crate::field::Rng;
use crate::rt::{self, Event, Exit, Run, Sched, Shm};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::{Read, Write};
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }
}

/// What one batch covered.
#[derive(Default)]
pub struct Cov {
    pub count: BTreeMap<String, u64>,
    pub faults: BTreeMap<String, u64>,
    pub policies: BTreeMap<String, u64>,
    pub scheds: HashSet<u64>,
    pub inputs: HashSet<u64>,
    pub samples: Vec<String>,
    pub runs: u64,
    pub cases: u64,
    pub steps: u64,
    pub switches: u64,
    pub max_steps: u64,
    pub max_threads: u64,
    pub cut: u64,
}
impl Cov {
    fn to_json(&self) -> Value {
        json!({"count": self.count, "faults": self.faults, "policies": self.policies,
            "scheds": self.scheds.iter().collect::<Vec<_>>(), "inputs": self.inputs.iter().collect::<Vec<_>>(),
            "samples": self.samples, "runs": self.runs, "cases": self.cases, "steps": self.steps,
            "switches": self.switches, "max_steps": self.max_steps, "max_threads": self.max_threads, "cut": self.cut})
    }
    fn absorb(&mut self, v: &Value) {
        for (name, m) in [("count", &mut self.count), ("faults", &mut self.faults), ("policies", &mut self.policies)] {
            for (k, x) in v[name].as_object().unwrap() {
                *m.entry(k.clone()).or_default() += x.as_u64().unwrap();
            }
        }
        self.scheds.extend(v["scheds"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()));
        self.inputs.extend(v["inputs"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()));
        self.samples.extend(v["samples"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()));
        self.runs += v["runs"].as_u64().unwrap();
        self.cases += v["cases"].as_u64().unwrap();
        self.steps += v["steps"].as_u64().unwrap();
        self.switches += v["switches"].as_u64().unwrap();
        self.cut += v["cut"].as_u64().unwrap();
        self.max_steps = self.max_steps.max(v["max_steps"].as_u64().unwrap());
        self.max_threads = self.max_threads.max(v["max_threads"].as_u64().unwrap());
    }
}

#[derive(Clone, Debug)]
pub struct Fail {
    pub sub: usize,
    pub sig: String,
    pub detail: String,
}
/// Plays back (part of) a recorded run instead of drawing it from the seed.
#[derive(Clone)]
pub struct Override {
    pub sub: usize,
    pub events: Option<Vec<Event>>,
    pub faults: Option<Vec<Value>>,
}
struct Trace {
    sub: usize,
    events: Vec<Event>,
    faults: Vec<Value>,
    hash: u64,
    what: String,
    sched: String,
}

pub struct Ctx<'a> {
    pub shm: &'a Shm,
    pub tier: Tier,
    pub idx: u64,
    pub seed: u64,
    pub rng: Rng,
    pub cov: &'a mut Cov,
    pub fails: Vec<Fail>,
    over: Option<Override>,
    sub: usize,
    traces: Vec<Trace>,
    keep: bool,
}
pub fn hash_of(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    h
}
impl<'a> Ctx<'a> {
    /// One simulated run in a forked process. `f` is simulated thread 0; it gets the fault list.
    pub fn sim(&mut self, what: &str, sched: &Sched, faults: &[Value], f: &mut dyn FnMut(&[Value]) -> Value) -> Run {
        let sub = self.sub;
        self.sub += 1;
        let mut sched = sched.clone();
        let mut faults = faults.to_vec();
        if let Some(o) = self.over.as_ref().filter(|o| o.sub == sub) {
            if let Some(e) = &o.events {
                sched.replay = Some(e.clone());
            }
            if let Some(v) = &o.faults {
                faults = v.clone();
            }
        }
        let mut run = rt::forked(self.shm, 240, self.keep, &mut |shm| rt::simulate(shm, &sched, || f(&faults)));
        if run.exit == Exit::Signal(9) {
            // ended from outside (memory pressure): once more
            std::thread::sleep(std::time::Duration::from_secs(2));
            run = rt::forked(self.shm, 240, self.keep, &mut |shm| rt::simulate(shm, &sched, || f(&faults)));
        }
        let c = &mut self.cov;
        c.runs += 1;
        c.steps += run.stats.steps;
        c.switches += run.stats.switches;
        c.max_steps = c.max_steps.max(run.stats.steps);
        c.max_threads = c.max_threads.max(run.stats.nthreads);
        *c.policies.entry(sched.name()).or_default() += 1;
        if c.scheds.len() < 200_000 {
            c.scheds.insert(run.stats.sched_hash ^ run.stats.hash.rotate_left(7));
        }
        for (k, n) in [
            ("spurious wakeup", run.stats.spurious),
            ("stalled thread", run.stats.stalls),
            ("forced switch", run.stats.forced),
            ("mmap failure", run.stats.mmap_failed),
            ("malloc failure", run.stats.malloc_failed),
            ("file operation fault", run.stats.io_faults),
        ] {
            if n > 0 {
                *c.faults.entry(k.into()).or_default() += n;
            }
        }
        for x in &faults {
            if let Some(k) = x["k"].as_str() {
                *c.faults.entry(k.into()).or_default() += 1;
            }
        }
        if self.keep {
            self.traces.push(Trace { sub, events: run.events.clone(), faults, hash: run.stats.hash, what: what.into(), sched: sched.name() });
        }
        run
    }
    /// The property failed in the last run.
    pub fn fail(&mut self, sig: &str, detail: String) {
        self.fails.push(Fail { sub: self.sub.max(1) - 1, sig: sig.into(), detail });
    }
    /// The fault list the last run really used (it differs from the drawn one while minimising).
    pub fn used_faults(&self, drawn: &[Value]) -> Vec<Value> {
        match self.over.as_ref().filter(|o| o.sub + 1 == self.sub) {
            Some(Override { faults: Some(f), .. }) => f.clone(),
            _ => drawn.to_vec(),
        }
    }
    pub fn count(&mut self, k: &str, n: u64) {
        *self.cov.count.entry(k.into()).or_default() += n;
    }
    pub fn fault(&mut self, k: &str, n: u64) {
        *self.cov.faults.entry(k.into()).or_default() += n;
    }
    pub fn input(&mut self, h: u64) {
        if self.cov.inputs.len() < 200_000 {
            self.cov.inputs.insert(h);
        }
    }
    pub fn sample(&mut self, s: String) {
        if self.cov.samples.len() < 4 {
            self.cov.samples.push(s);
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    /// A run that did not end by itself breaks every property that promises an answer.
    pub fn ended(&mut self, run: &Run) -> bool {
        match &run.exit {
            Exit::Done => true,
            Exit::Deadlock => {
                self.fail("deadlock", format!("all simulated threads blocked after {} steps", run.stats.steps));
                false
            }
            Exit::StepLimit => {
                self.fail("no progress", format!("no answer within {} steps", run.stats.steps));
                false
            }
            Exit::CpuLimit => {
                self.fail("no progress", "no answer within 240 s of processor time".into());
                false
            }
            Exit::Signal(9) => {
                self.count("run ended from outside (ignored)", 1);
                false
            }
            e => {
                self.fail("crash", format!("{:?}", e));
                false
            }
        }
    }
}

pub struct Prop {
    pub id: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub run: fn(&mut Ctx),
    pub real: &'static str,
    pub stub: &'static str,
    pub rule: &'static str,
}

fn case_seed(seed: u64, id: &str, idx: u64) -> u64 {
    let mut r = Rng::new(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ hash_of(id.as_bytes()));
    let a = r.next();
    Rng::new(a ^ idx.wrapping_mul(0xD1342543DE82EF95)).next()
}
fn run_case(p: &Prop, tier: Tier, seed: u64, idx: u64, shm: &Shm, cov: &mut Cov, over: Option<Override>, keep: bool) -> (Vec<Fail>, Vec<Trace>) {
    let cs = case_seed(seed, p.id, idx);
    let mut ctx = Ctx { shm, tier, idx, seed: cs, rng: Rng::new(cs), cov, fails: vec![], over, sub: 0, traces: vec![], keep };
    (p.run)(&mut ctx);
    let r = (std::mem::take(&mut ctx.fails), std::mem::take(&mut ctx.traces));
    cov.cases += 1;
    r
}

fn ddmin<T: Clone>(mut v: Vec<T>, deadline: Instant, test: &mut dyn FnMut(&[T]) -> bool) -> Vec<T> {
    if v.is_empty() || test(&[]) {
        return vec![];
    }
    let mut n = 2usize;
    while v.len() > 1 && Instant::now() < deadline {
        let sz = (v.len() + n - 1) / n;
        let mut hit = false;
        let mut i = 0;
        while i < v.len() && Instant::now() < deadline {
            let mut c = v[..i].to_vec();
            c.extend_from_slice(&v[(i + sz).min(v.len())..]);
            if !c.is_empty() && test(&c) {
                v = c;
                n = n.max(3) - 1;
                hit = true;
                break;
            }
            i += sz;
        }
        if !hit {
            if sz <= 1 {
                break;
            }
            n = (2 * n).min(v.len());
        }
    }
    v
}

fn replay_json(p: &Prop, tier: Tier, seed: u64, idx: u64, shm: &Shm, f: &Fail) -> Value {
    let mut scratch = Cov::default();
    let (fails, traces) = run_case(p, tier, seed, idx, shm, &mut scratch, None, true);
    let full = traces.into_iter().find(|t| t.sub == f.sub);
    let again = fails.iter().any(|g| g.sub == f.sub && g.sig == f.sig);
    let mut out = json!({"property": p.id, "tier": tier.name(), "verif_seed": seed, "case": idx, "case_seed": case_seed(seed, p.id, idx),
        "sub": f.sub, "signature": f.sig, "detail": f.detail, "reproduced_from_seed": again});
    let full = match full {
        Some(t) if again => t,
        _ => return out,
    };
    out["run"] = json!(full.what);
    out["scheduler"] = json!(full.sched);
    let deadline = Instant::now() + std::time::Duration::from_secs(45);
    let mut last: Option<(u64, String, Vec<Event>)> = None;
    let mut test = |ev: &[Event], fl: &[Value]| -> bool {
        let o = Override { sub: f.sub, events: Some(ev.to_vec()), faults: Some(fl.to_vec()) };
        let (fs, ts) = run_case(p, tier, seed, idx, shm, &mut scratch, Some(o), true);
        match fs.iter().find(|g| g.sub == f.sub && g.sig == f.sig) {
            Some(g) => {
                let t = ts.into_iter().find(|t| t.sub == f.sub).unwrap();
                last = Some((t.hash, g.detail.clone(), t.events));
                true
            }
            None => false,
        }
    };
    let mut events = full.events.clone();
    let mut faults = full.faults.clone();
    if test(&events, &faults) {
        if test(&[], &faults) {
            events = vec![];
        }
        faults = ddmin(faults, deadline, &mut |fl| test(&events, fl));
        let fl = faults.clone();
        events = ddmin(events, deadline, &mut |ev| test(ev, &fl));
        let ok = test(&events, &faults) && test(&events, &faults);
        let (h, d, played) = last.unwrap();
        let _ = played;
        out["minimised"] = json!(ok);
        out["detail"] = json!(d);
        out["hash"] = json!(h);
        out["schedule_recorded"] = json!(full.events.len());
        out["faults_recorded"] = json!(full.faults.len());
        out["schedule"] = rt::events_to_json(&events);
        out["faults"] = json!(faults);
    }
    out
}

pub struct Report {
    pub violations: u64,
    pub code: i32,
}

fn known(id: &str) -> Vec<(String, String)> {
    let f = std::fs::read_to_string("/verif/known_findings.json").unwrap_or_default();
    let v: Value = serde_json::from_str(&f).unwrap_or(Value::Null);
    v["findings"]
        .as_array()
        .map(|a| {
            a.iter()
                .filter(|x| x["property"] == id)
                .map(|x| (x["signature"].as_str().unwrap_or("").to_string(), x["what"].as_str().unwrap_or("").to_string()))
                .collect()
        })
        .unwrap_or_default()
}

pub fn check(p: &Prop, tier: Tier, seed: u64, build_s: f64) -> Report {
    let t0 = Instant::now();
    let n = match tier {
        Tier::Quick => p.quick,
        Tier::Thorough => p.thorough,
    };
    let cap = std::env::var("ZKPSIM_CAP").ok().and_then(|s| s.parse().ok()).unwrap_or(match tier {
        Tier::Quick => 420u64,
        Tier::Thorough => 3600,
    });
    let workers: u64 = std::env::var("ZKPSIM_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let mut cov = Cov::default();
    let mut fails: Vec<(u64, Fail)> = vec![];
    let mut readers = vec![];
    for w in 0..workers {
        let (mut rd, mut wr) = std::io::pipe().expect("pipe");
        let pid = unsafe { libc::fork() };
        assert!(pid >= 0);
        if pid == 0 {
            drop(rd);
            unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
            let shm = Shm::new();
            let mut cov = Cov::default();
            let mut out = vec![];
            let mut i = w;
            while i < n {
                if t0.elapsed().as_secs() > cap {
                    cov.cut += (n - i + workers - 1) / workers;
                    break;
                }
                let (fs, _) = run_case(p, tier, seed, i, &shm, &mut cov, None, false);
                if let Some(f) = fs.into_iter().next() {
                    out.push(json!([i, f.sub, f.sig, f.detail]));
                    break;
                }
                i += workers;
            }
            let s = serde_json::to_vec(&json!({"cov": cov.to_json(), "fails": out})).unwrap();
            wr.write_all(&s).unwrap();
            drop(wr);
            unsafe { libc::_exit(0) };
        }
        drop(wr);
        readers.push((pid, std::thread::spawn(move || {
            let mut b = vec![];
            rd.read_to_end(&mut b).ok();
            b
        })));
    }
    let mut lost = 0;
    for (pid, r) in readers {
        let b = r.join().unwrap();
        let mut st = 0;
        unsafe { while libc::waitpid(pid, &mut st, 0) < 0 {} }
        match serde_json::from_slice::<Value>(&b) {
            Ok(v) => {
                cov.absorb(&v["cov"]);
                for f in v["fails"].as_array().unwrap() {
                    fails.push((
                        f[0].as_u64().unwrap(),
                        Fail { sub: f[1].as_u64().unwrap() as usize, sig: f[2].as_str().unwrap().into(), detail: f[3].as_str().unwrap().into() },
                    ));
                }
            }
            Err(_) => lost += 1,
        }
    }
    fails.sort_by_key(|f| f.0);
    let search_s = t0.elapsed().as_secs_f64();
    let mut violations = 0;
    let mut seen = HashSet::new();
    let kn = known(p.id);
    for (idx, f) in &fails {
        if !seen.insert(f.sig.clone()) {
            continue;
        }
        if let Some((_, what)) = kn.iter().find(|(s, _)| *s == f.sig) {
            println!("KNOWN-FINDING: property={} {}", p.id, what);
            continue;
        }
        let shm = Shm::new();
        let v = replay_json(p, tier, seed, *idx, &shm, f);
        std::fs::create_dir_all("/verif/replays").ok();
        let path = format!("/verif/replays/{}-{}-{:x}.json", p.id, idx, hash_of(f.sig.as_bytes()) & 0xffffff);
        std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).ok();
        println!("  case {} run {}: {}: {}", idx, f.sub, f.sig, f.detail.chars().take(600).collect::<String>());
        println!("VIOLATION property={} replay={}", p.id, path);
        violations += 1;
    }
    let wall = t0.elapsed().as_secs_f64();
    let mut samples = std::mem::take(&mut cov.samples);
    samples.truncate(8);
    let ev = json!({
        "property": p.id, "tier": tier.name(), "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": cov.runs,
            "distinct_nontrivial": if p.rule.contains("distinct_inputs") { cov.inputs.len() } else { cov.scheds.len() },
            "rule": p.rule,
            "samples": samples,
            "cases_seeds": cov.cases,
            "simulated_runs": cov.runs,
            "runs_per_hour": (cov.runs as f64 * 3600.0 / search_s).round(),
            "seeds_per_hour": (cov.cases as f64 * 3600.0 / search_s).round(),
            "simulated_steps": cov.steps,
            "simulated_time_s": cov.steps as f64 * 100e-9,
            "context_switches": cov.switches,
            "longest_run_steps": cov.max_steps,
            "max_simulated_threads": cov.max_threads,
            "distinct_interleavings": cov.scheds.len(),
            "distinct_interleavings_measure": "different hash over (thread, operation kind) of every scheduling point and every scheduler decision of a run",
            "distinct_inputs": cov.inputs.len(),
            "scheduler_policies": cov.policies,
            "faults_injected": cov.faults,
            "counts": cov.count,
            "cases_cut_by_time_cap": cov.cut,
            "workers_lost": lost,
            "real_components": p.real,
            "stubbed_components": p.stub,
        },
        "wall_s": wall + build_s,
        "violations": violations,
        "assumptions": [
            "scheduling points are the atomic operations, futex waits, yields and allocator/mmap seams; memory is sequentially consistent between them",
            "harness and repository are compiled with the release profile on x86-64",
        ],
    });
    std::fs::create_dir_all("/verif/evidence").ok();
    std::fs::write(format!("/verif/evidence/{}.json", p.id), serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
    println!(
        "{} {}: {} cases, {} simulated runs, {} steps, {} distinct interleavings, {} violations, {:.1} s{}",
        p.id, tier.name(), cov.cases, cov.runs, cov.steps, cov.scheds.len(), violations, wall,
        if cov.cut > 0 { format!(" ({} cases cut by the time cap)", cov.cut) } else { String::new() }
    );
    let code = if violations > 0 {
        1
    } else if lost > 0 {
        eprintln!("{} worker process(es) lost", lost);
        3
    } else {
        0
    };
    Report { violations, code }
}

pub fn replay(props: &[Prop], path: &str) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).expect("json");
    let p = props.iter().find(|p| p.id == v["property"]).expect("property");
    let tier = if v["tier"] == "quick" { Tier::Quick } else { Tier::Thorough };
    let over = v.get("schedule").map(|s| Override {
        sub: v["sub"].as_u64().unwrap() as usize,
        events: Some(rt::events_from_json(s)),
        faults: v["faults"].as_array().cloned(),
    });
    let shm = Shm::new();
    let (fs, ts) = run_case(p, tier, v["verif_seed"].as_u64().unwrap(), v["case"].as_u64().unwrap(), &shm, &mut Cov::default(), over, true);
    let sub = v["sub"].as_u64().unwrap() as usize;
    match fs.iter().find(|g| g.sub == sub && v["signature"] == g.sig.as_str()) {
        Some(g) => {
            let h = ts.iter().find(|t| t.sub == sub).map(|t| t.hash);
            println!("reproduced: {}: {}", g.sig, g.detail);
            println!("execution hash {:?} recorded {}{}", h, v["hash"], if h == v["hash"].as_u64() { " (identical execution)" } else { "" });
            println!("VIOLATION property={} replay={}", p.id, path);
            1
        }
        None => {
            println!("not reproduced");
            0
        }
    }
}

pub fn one(p: &Prop, tier: Tier, seed: u64, idx: u64) {
    let shm = Shm::new();
    let mut cov = Cov::default();
    let t0 = Instant::now();
    let (fs, _) = run_case(p, tier, seed, idx, &shm, &mut cov, None, false);
    println!("{} case {}: {:?} runs {} steps {} {:?} {:?} {:?} {:?}", p.id, idx, fs, cov.runs, cov.steps, cov.count, cov.faults, cov.samples, t0.elapsed());
}
