//! Fourier transforms: C09.
use super::*;
use std::sync::Arc;
use zkp_primefield::{Fft, FieldElement};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C09",
        quick: 22000,
        thorough: 200000,
        run: c09,
        real: "zkp-primefield transforms, zkp-stark DensePolynomial and TraceTable, rayon unmodified",
        stub: "thread scheduling, futexes, clocks simulated",
        rule: "one evaluation is one to four transforms running at the same time on a simulated worker pool under one seeded schedule, every output value compared with the definition; distinct = different interleaving hash",
    }]
}

#[derive(Clone, Debug)]
pub enum Op {
    Fft,
    Ifft,
    FftCofactor(F),
    IfftCofactor(F),
    FftRoot(u64),
    CloneShifted(F),
    Lde(usize),
    Interpolate(usize),
    RoundTrip(F),
}
pub fn run_op(op: &Op, v: &[F]) -> Vec<F> {
    let mut w: Vec<FieldElement> = v.iter().map(to_fe).collect();
    let n = w.len();
    match op {
        Op::Fft => w.fft(),
        Op::Ifft => w.ifft(),
        Op::FftCofactor(c) => w.fft_cofactor(&to_fe(c)),
        Op::IfftCofactor(c) => w.ifft_cofactor(&to_fe(c)),
        Op::FftRoot(k) => w.fft_root(&to_fe(&F::root(n).pow(*k))),
        Op::CloneShifted(c) => {
            let src = w.clone();
            // the destination holds rubbish before
            for x in w.iter_mut() {
                *x = to_fe(&F::from_u64(77));
            }
            w.clone_shifted(&src, &to_fe(c));
        }
        Op::Lde(b) => {
            let p = zkp_stark::DensePolynomial::new(&w);
            let r = p.low_degree_extension(*b);
            return r.iter().map(from_fe).collect();
        }
        Op::Interpolate(cols) => {
            let rows = n / cols;
            let t = table(&(0..*cols).map(|j| (0..rows).map(|r| v[r * cols + j]).collect()).collect::<Vec<_>>());
            let ps = t.interpolate();
            return ps.iter().flat_map(|p| p.coefficients().iter().map(from_fe).collect::<Vec<_>>()).collect();
        }
        Op::RoundTrip(c) => {
            w.fft_cofactor(&to_fe(c));
            zkp_primefield::fft::permute(&mut w);
            w.ifft_cofactor(&to_fe(c));
            zkp_primefield::fft::permute(&mut w);
        }
    }
    w.iter().map(from_fe).collect()
}
fn scaled(v: &[F], c: F) -> Vec<F> {
    let mut s = F::one();
    v.iter()
        .map(|x| {
            let r = *x * s;
            s *= c;
            r
        })
        .collect()
}
/// By the definition: natural order in, bit-reversed order out.
pub fn model(op: &Op, v: &[F]) -> Vec<F> {
    let n = v.len();
    let inv = |v: &[F]| -> Vec<F> {
        let m = F::from_u64(n as u64).inv();
        permute(&dft(v, F::root(n).inv()).into_iter().map(|x| x * m).collect::<Vec<_>>())
    };
    match op {
        Op::Fft => permute(&dft(v, F::root(n))),
        Op::Ifft => inv(v),
        Op::FftCofactor(c) => permute(&dft(&scaled(v, *c), F::root(n))),
        Op::IfftCofactor(c) => permute(&interpolate_coset(v, *c)),
        Op::FftRoot(k) => permute(&dft(v, F::root(n).pow(*k))),
        Op::CloneShifted(c) => scaled(v, *c),
        Op::Lde(b) => permute(&eval_coset(v, n * b, F::from_u64(3))),
        Op::Interpolate(cols) => {
            let rows = n / cols;
            (0..*cols).flat_map(|j| interpolate_coset(&(0..rows).map(|r| v[r * cols + j]).collect::<Vec<_>>(), F::one())).collect()
        }
        Op::RoundTrip(_) => v.to_vec(),
    }
}
/// Definition by direct summation, for the reference itself.
fn slow(v: &[F], w: F) -> Vec<F> {
    (0..v.len()).map(|i| eval_poly(v, w.pow(i as u64))).collect()
}

fn c09(ctx: &mut Ctx) {
    let mut rng = ctx.rng.clone();
    // now and then one transform long enough for the deepest recursion
    let vast = ctx.idx % 5000 == 2333;
    let long = vast || ctx.idx % if ctx.thorough() { 250 } else { 500 } == 17;
    let sessions = if long { 1 } else { 1 + rng.below(4) };
    let mut jobs = vec![];
    for _ in 0..sessions {
        let top = if vast { 20 } else if long { 19 } else if ctx.thorough() { 16 } else { 14 };
        let lg = match rng.below(10) {
            // both shapes of the square-root split, with rows and columns beyond 512
            _ if vast => 19 + (ctx.idx / 5000 % 2) as usize,
            _ if long => 15 + rng.below(4),
            0..=2 => rng.below(10),
            3..=7 => 9 + rng.below(4),
            _ => 11 + rng.below(top - 10),
        };
        let n = 1usize << lg;
        let nz = loop {
            let c = rng.field();
            if !c.is_zero() {
                break c;
            }
        };
        let op = match if vast { rng.below(7) } else { rng.below(12) } {
            0 | 1 => Op::Fft,
            2 => Op::Ifft,
            3 | 4 => Op::FftCofactor(nz),
            5 => Op::IfftCofactor(nz),
            6 => Op::FftRoot((rng.next() | 1) % n.max(2) as u64),
            7 | 8 => Op::CloneShifted(nz),
            9 => Op::Lde(1 << rng.below((top - lg.min(top)).min(5) + 1)),
            10 => Op::Interpolate(if lg == 0 { 1 } else { 1 << rng.below(lg.min(3)) }),
            _ => Op::RoundTrip(nz),
        };
        let v: Vec<F> = match rng.below(8) {
            0 => {
                let mut v = vec![F::ZERO; n];
                let i = rng.below(n);
                v[i] = rng.field();
                v
            }
            1 => vec![rng.field(); n],
            2 => (0..n).map(|i| F::from_u64(i as u64)).collect(),
            _ => (0..n).map(|_| rng.field()).collect(),
        };
        if n <= 32 {
            assert!(dft(&v, F::root(n)) == slow(&v, F::root(n)), "reference transform");
        }
        ctx.count(&format!("length 2^{}", lg), 1);
        ctx.input(hash_of(format!("{} {:?}", n, op).as_bytes()) ^ rng.0);
        let want = model(&op, &v);
        jobs.push((op, v, want));
    }
    let jobs = Arc::new(jobs);
    let workers = pool_size(&mut rng);
    let sched = Sched::random(&mut rng);
    let own = rng.chance(1, 3);
    let run = ctx.sim("transforms", &sched, &[], &mut |_| {
        rt::global_pool(workers);
        let hs: Vec<_> = (0..jobs.len())
            .map(|k| {
                let jobs = jobs.clone();
                rt::spawn(move || {
                    let (op, v, want) = &jobs[k];
                    match catch_unwind(AssertUnwindSafe(|| if own && k % 2 == 0 { rt::pool(1 + k + workers % 3).install(|| run_op(op, v)) } else { run_op(op, v) })) {
                        Ok(r) if r == *want => Value::Null,
                        Ok(r) => json!(format!("{} of {} values wrong, first at {}", r.iter().zip(want).filter(|(a, b)| a != b).count().max((r.len() != want.len()) as usize), want.len(), r.iter().zip(want).position(|(a, b)| a != b).unwrap_or(0))),
                        Err(e) => json!(format!("panic: {}", rt::panic_text(&e))),
                    }
                })
            })
            .collect();
        json!(hs.into_iter().map(|h| h.join().unwrap_or(json!("panic: thread died"))).collect::<Vec<_>>())
    });
    ctx.count(&format!("{} workers", workers), 1);
    if !ctx.ended(&run) {
        return;
    }
    if run.out["panic"].is_string() {
        ctx.fail("crash", run.out["panic"].to_string());
        return;
    }
    for (k, r) in run.out.as_array().unwrap().iter().enumerate() {
        if let Some(s) = r.as_str() {
            let op = format!("{:?}", jobs[k].0);
            ctx.fail(
                if s.starts_with("panic") { "crash" } else { "transform differs from its definition" },
                format!("{} of length {} with {} workers, {} at the same time: {}", op.chars().take(40).collect::<String>(), jobs[k].1.len(), workers, jobs.len(), s),
            );
            return;
        }
    }
    ctx.sample(format!("{} transforms, first {:?} of length {}, {} workers, {}", jobs.len(), jobs[0].0, jobs[0].1.len(), workers, sched.name()));
}
