//! Random values from a generator that the simulator owns: C23.
use super::*;
use crate::curve;
use rand::distributions::{Distribution, Standard, Uniform};
use rand::{Rng as _, RngCore};
use std::sync::Arc;
use zkp_elliptic_curve::ScalarFieldElement;
use zkp_primefield::FieldElement;
use zkp_u256::U256;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C23",
        quick: 70000,
        thorough: 1000000,
        run: c23,
        real: "sampling of zkp-u256 (Standard, Uniform, gen_range) and of zkp-primefield (both prime fields); the rand crate unmodified",
        stub: "the random generator is the harness's own: seeded, every word recorded, and it sticks, repeats, loses bits or fails on command; thread scheduling simulated",
        rule: "one evaluation is one simulated process in which one to four threads draw values from generators with faults; every value is judged by range, canonical form, repeatability and progress, and long healthy series by their distribution; distinct_inputs = different (request, generator) pairs",
    }]
}

type L4 = [u64; 4];
fn lt(a: &L4, b: &L4) -> bool {
    for i in (0..4).rev() {
        if a[i] != b[i] {
            return a[i] < b[i];
        }
    }
    false
}
fn sub(a: &L4, b: &L4) -> L4 {
    let mut r = [0; 4];
    let mut c = 0u64;
    for i in 0..4 {
        let (x, p) = a[i].overflowing_sub(b[i]);
        let (x, q) = x.overflowing_sub(c);
        r[i] = x;
        c = (p | q) as u64;
    }
    r
}
fn inc(a: &L4) -> L4 {
    let mut r = *a;
    for x in &mut r {
        *x = x.wrapping_add(1);
        if *x != 0 {
            break;
        }
    }
    r
}
fn u(a: &L4) -> U256 {
    U256::from_limbs(*a)
}
fn l(a: &U256) -> L4 {
    [a.limb(0), a.limb(1), a.limb(2), a.limb(3)]
}

#[derive(Clone, Debug)]
enum Req {
    Full,
    Range(L4, L4),
    Inclusive(L4, L4),
    Single(L4, L4),
    Field,
    Scalar,
}
impl Req {
    fn name(&self) -> &'static str {
        match self {
            Req::Full => "integer",
            Req::Range(..) => "integer in a range",
            Req::Inclusive(..) => "integer in an inclusive range",
            Req::Single(..) => "integer by gen_range",
            Req::Field => "field element",
            Req::Scalar => "scalar",
        }
    }
    /// (low, number of values; None: all 2^256)
    fn space(&self) -> (L4, Option<L4>) {
        match self {
            Req::Full => ([0; 4], None),
            Req::Range(a, b) | Req::Single(a, b) => (*a, Some(sub(b, a))),
            Req::Inclusive(a, b) => {
                let n = inc(&sub(b, a));
                (*a, if n == [0; 4] { None } else { Some(n) })
            }
            Req::Field => ([0; 4], Some(P)),
            Req::Scalar => ([0; 4], Some(curve::N)),
        }
    }
    fn empty(&self) -> bool {
        match self {
            Req::Range(a, b) | Req::Single(a, b) => !lt(a, b),
            Req::Inclusive(a, b) => lt(b, a),
            _ => false,
        }
    }
    fn draw(&self, g: &mut Gen, n: usize) -> Vec<L4> {
        match self {
            Req::Full => (0..n).map(|_| l(&Distribution::<U256>::sample(&Standard, g))).collect(),
            Req::Range(a, b) => {
                let d = Uniform::new(u(a), u(b));
                (0..n).map(|_| l(&d.sample(g))).collect()
            }
            Req::Inclusive(a, b) => {
                let d = Uniform::new_inclusive(u(a), u(b));
                (0..n).map(|_| l(&d.sample(g))).collect()
            }
            Req::Single(a, b) => (0..n).map(|_| l(&g.gen_range(u(a), u(b)))).collect(),
            Req::Field => (0..n)
                .map(|_| {
                    let v: FieldElement = g.gen();
                    l(v.as_montgomery())
                })
                .collect(),
            Req::Scalar => (0..n)
                .map(|_| {
                    let v: ScalarFieldElement = g.gen();
                    l(v.as_montgomery())
                })
                .collect(),
        }
    }
}

const LIMIT: u64 = 120_000;

/// The generator: seeded words with faults over stretches of them.
struct Gen {
    rng: Rng,
    used: u64,
    limit: u64,
    healthy: u64,
    last: u64,
    faults: Vec<(u64, u64, u64, L4)>,
}
impl Gen {
    fn word(&mut self) -> u64 {
        let w = self.rng.next();
        let i = self.used;
        self.used += 1;
        if self.used > self.limit {
            panic!("no progress: generator asked for too many words");
        }
        let mut r = w;
        let mut bad = false;
        for (from, len, kind, v) in &self.faults {
            if i >= *from && i < from + len {
                bad = true;
                r = match kind {
                    0 => v[0],
                    1 => self.last,
                    2 => w & v[0],
                    3 => w | v[0],
                    5 => v[((i - from) % 4) as usize],
                    _ => panic!("entropy source failed"),
                };
            }
        }
        if !bad {
            self.healthy += 1;
        }
        self.last = r;
        rt::point();
        r
    }
}
impl RngCore for Gen {
    fn next_u32(&mut self) -> u32 {
        self.word() as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.word()
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for c in dest.chunks_mut(8) {
            let w = self.word().to_le_bytes();
            c.copy_from_slice(&w[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

fn number(rng: &mut Rng) -> L4 {
    let mut v = [rng.next(), rng.next(), rng.next(), rng.next()];
    match rng.below(8) {
        0 => [rng.below(20) as u64, 0, 0, 0],
        1 => {
            let k = rng.below(256);
            let mut r = [0; 4];
            r[k / 64] = 1 << (k % 64);
            if rng.chance(1, 2) {
                r = sub(&r, &[1, 0, 0, 0]);
            }
            r
        }
        2 => sub(&[0; 4], &[rng.below(20) as u64, 0, 0, 0]),
        3 => sub(&P, &[rng.below(3) as u64, 0, 0, 0]),
        4 => {
            for x in v.iter_mut().skip(1 + rng.below(3)) {
                *x = 0;
            }
            v
        }
        5 => {
            for x in v.iter_mut().take(1 + rng.below(3)) {
                *x = if rng.chance(1, 2) { 0 } else { u64::MAX };
            }
            v
        }
        _ => v,
    }
}
fn add(a: &L4, b: &L4) -> L4 {
    sub(a, &sub(&[0; 4], b))
}
fn request(rng: &mut Rng) -> Req {
    let a = number(rng);
    let mut b = if rng.chance(1, 3) { add(&a, &[rng.below(9) as u64, 0, 0, 0]) } else { number(rng) };
    let mut a = a;
    if !rng.chance(1, 12) && lt(&b, &a) {
        std::mem::swap(&mut a, &mut b);
    }
    match rng.below(8) {
        0 => Req::Full,
        1 | 2 => Req::Range(a, b),
        3 => Req::Inclusive(a, b),
        4 => Req::Single(a, b),
        5 => Req::Inclusive(if rng.chance(1, 2) { [0; 4] } else { a }, [u64::MAX; 4]),
        6 => Req::Field,
        _ => Req::Scalar,
    }
}

/// Words that a sampler may turn into a value at, just below or just above a bound of the request.
fn beside(req: &Req, rng: &mut Rng) -> L4 {
    let (low, n) = req.space();
    let n = n.unwrap_or([0; 4]);
    let mut v = match rng.below(6) {
        0..=3 => n,
        4 => low,
        _ => add(&low, &n),
    };
    match rng.below(4) {
        0 => v = inc(&v),
        1 => v = sub(&v, &[1, 0, 0, 0]),
        _ => {}
    }
    // most samplers use the upper bits, some the lower ones
    let bits = |x: &L4| (0..4).rev().find(|i| x[*i] != 0).map_or(0, |i| 64 * i + 64 - x[i].leading_zeros() as usize);
    if rng.chance(3, 4) {
        for _ in 0..256 - bits(&n) {
            v = add(&v, &v);
            if rng.chance(1, 2) {
                v[0] |= 1;
            }
        }
    }
    if rng.chance(1, 6) {
        v.reverse();
    }
    v
}
/// Leading bits of (value - low) / count.
fn leading(req: &Req, v: &L4, k: usize) -> u64 {
    let (low, n) = req.space();
    let mut x = sub(v, &low);
    let mut bits = 0;
    for _ in 0..k {
        let top = x[3] >> 63;
        x = add(&x, &x);
        let one = match &n {
            None => top == 1,
            Some(n) => top == 1 || !lt(&x, n),
        };
        if one {
            if let Some(n) = &n {
                x = sub(&x, n);
            }
        }
        bits = bits << 1 | one as u64;
    }
    bits
}

/// First way in which a long series is not evenly spread.
fn uneven(req: &Req, v: &[L4]) -> Option<String> {
    let (low, n) = req.space();
    let total = v.len() as f64;
    let test = |what: &str, counts: &[u64], expect: f64| -> Option<String> {
        for (i, c) in counts.iter().enumerate() {
            let sd = (expect * (1.0 - expect / total)).max(1.0).sqrt();
            if ((*c as f64) - expect).abs() > 7.5 * sd + 2.0 {
                return Some(format!("{} {}: {} of {} values, {:.1} expected", what, i, c, v.len(), expect));
            }
        }
        None
    };
    let small = n.filter(|n| n[1] == 0 && n[2] == 0 && n[3] == 0 && n[0] <= 64);
    if let Some(n) = small {
        let mut c = vec![0u64; n[0] as usize];
        for x in v {
            c[sub(x, &low)[0] as usize] += 1;
        }
        return test("value", &c, total / n[0] as f64);
    }
    let many = n.map_or(true, |n| n[1] | n[2] | n[3] != 0);
    if !many {
        return None;
    }
    let mut c = vec![0u64; 16];
    for x in v {
        c[leading(req, x, 4) as usize] += 1;
    }
    if let Some(e) = test("sixteenth", &c, total / 16.0) {
        return Some(e);
    }
    // no two bits go together: leading bits of the share, and low bits when the count leaves them free
    let top = n.map_or(256, |n| 256 - (0..4).rev().map(|i| (i, n[i].leading_zeros() as usize)).find(|x| x.1 < 64).map_or(256, |(i, z)| (3 - i) * 64 + z));
    let free = top.saturating_sub(24);
    let mut cols: Vec<Vec<u64>> = vec![vec![0; (v.len() + 63) / 64]; 16 + free];
    for (i, x) in v.iter().enumerate() {
        let lead = leading(req, x, 16);
        let r = sub(x, &low);
        for (j, c) in cols.iter_mut().enumerate() {
            let b = if j < 16 { lead >> (15 - j) & 1 } else { r[(j - 16) / 64] >> ((j - 16) % 64) & 1 };
            c[i / 64] |= b << (i % 64);
        }
    }
    let sd = total.sqrt() / 2.0;
    for (i, a) in cols.iter().enumerate() {
        let ones: u32 = a.iter().map(|x| x.count_ones()).sum();
        if (ones as f64 - total / 2.0).abs() > 7.5 * sd {
            return Some(format!("bit {} set in {} of {} values", i, ones, v.len()));
        }
        for (j, b) in cols.iter().enumerate().take(i) {
            // a leading bit and a low bit may be the same bit when the count is near a power of two
            if j < 16 && i >= 16 && i - 16 + 20 >= free {
                continue;
            }
            let diff: u32 = a.iter().zip(b).map(|(x, y)| (x ^ y).count_ones()).sum();
            if (diff as f64 - total / 2.0).abs() > 8.0 * sd {
                return Some(format!("bits {} and {} differ in {} of {} values", j, i, diff, v.len()));
            }
        }
    }
    None
}

fn c23(ctx: &mut Ctx) {
    let mut rng = ctx.rng.fork(1);
    let threads = 1 + rng.below(4);
    let series = rng.chance(1, 6);
    // (thread, request, seed, number of values)
    let mut reqs: Vec<(usize, Req, u64, usize)> = vec![];
    let mut faults: Vec<Value> = vec![];
    if series {
        let mut r = request(&mut rng);
        while r.empty() {
            r = request(&mut rng);
        }
        if rng.chance(1, 3) {
            let a = number(&mut rng);
            let b = add(&a, &[2 + rng.below(40) as u64, 0, 0, 0]);
            if lt(&a, &b) {
                r = if rng.chance(1, 2) { Req::Range(a, b) } else { Req::Inclusive(a, b) };
            }
        }
        reqs.push((0, r, rng.next(), 2048));
    } else {
        for i in 0..threads + rng.below(12) {
            let r = request(&mut rng);
            let n = if r.empty() { 1 } else { 1 + rng.below(6) };
            reqs.push((i % threads, r, rng.next(), n));
            if rng.chance(1, 2) {
                for _ in 0..1 + rng.below(2) {
                    let kind = rng.below(7).min(5) as u64;
                    let v = match kind {
                        0 => [[0, u64::MAX, rng.next(), 1][rng.below(4)], 0, 0, 0],
                        2 => [(1u64 << rng.below(64)) - 1, 0, 0, 0],
                        3 => [!0 << rng.below(64), 0, 0, 0],
                        5 => beside(&reqs[i].1, &mut rng),
                        _ => [0; 4],
                    };
                    let k = ["generator stuck", "words repeated", "upper bits lost", "upper bits set", "entropy source failed", "words next to a bound"][kind as usize];
                    let (from, len) = if kind == 5 { (4 * rng.below(4), 4 * (1 + rng.below(3))) } else { (rng.below(24), [1, 2, 4, 8, 40, 400][rng.below(6)]) };
                    faults.push(json!({"request": i, "from": from, "len": len, "kind": kind, "value": v, "k": k}));
                    ctx.fault(k, 1);
                }
            }
        }
    }
    for (_, r, s, _) in &reqs {
        ctx.count(r.name(), 1);
        if r.empty() {
            ctx.fault("empty range asked for", 1);
        }
        ctx.input(hash_of(format!("{:?}{}", r, s).as_bytes()));
    }
    let reqs = Arc::new(reqs);
    let nthreads = reqs.iter().map(|x| x.0).max().unwrap() + 1;
    let sched = Sched::random(&mut rng);
    let run = ctx.sim("draw", &sched, &faults, &mut |faults| {
        let faults: Vec<(usize, (u64, u64, u64, L4))> = faults
            .iter()
            .map(|f| {
                let g = |k: &str| f[k].as_u64().unwrap();
                (g("request") as usize, (g("from"), g("len"), g("kind"), serde_json::from_value(f["value"].clone()).unwrap()))
            })
            .collect();
        let faults = Arc::new(faults);
        let hs: Vec<_> = (0..nthreads)
            .map(|t| {
                let (reqs, faults) = (reqs.clone(), faults.clone());
                rt::spawn(move || {
                    let mut out = vec![];
                    for (i, (th, r, seed, n)) in reqs.iter().enumerate() {
                        if *th != t {
                            continue;
                        }
                        // twice: a value is a function of the generator's words
                        for _ in 0..2 {
                            let mut g = Gen {
                                rng: Rng::new(*seed),
                                used: 0,
                                limit: LIMIT,
                                healthy: 0,
                                last: 0,
                                faults: faults.iter().filter(|f| f.0 == i).map(|f| f.1).collect(),
                            };
                            out.push(match catch_unwind(AssertUnwindSafe(|| r.draw(&mut g, *n))) {
                                Ok(v) => json!([i, 1, v, g.used, g.healthy]),
                                Err(e) => json!([i, 0, rt::panic_text(&e), g.used, g.healthy]),
                            });
                        }
                    }
                    out
                })
            })
            .collect();
        json!(hs.into_iter().flat_map(|h| h.join().unwrap_or_default()).collect::<Vec<_>>())
    });
    if !ctx.ended(&run) {
        return;
    }
    let used = ctx.used_faults(&faults);
    let got = run.out.as_array().cloned().unwrap_or_default();
    if got.len() != 2 * reqs.len() {
        ctx.fail("a drawing thread died", run.out.to_string());
        return;
    }
    let mut before: Option<Value> = None;
    for g in &got {
        let i = g[0].as_u64().unwrap() as usize;
        let (_, r, seed, n) = &reqs[i];
        let where_ = format!("{} {:x?}, generator {:x}, {}", r.name(), r.space(), seed, json!(used.iter().filter(|f| f["request"] == json!(i)).collect::<Vec<_>>()));
        if let Some(b) = before.take() {
            if b != *g {
                ctx.fail("same generator, different values", format!("{}: {} and {}", where_, b, g));
                return;
            }
            continue;
        }
        before = Some(g.clone());
        let source_failed = used.iter().any(|f| f["request"] == json!(i) && f["kind"] == json!(4));
        if g[1] == json!(0) {
            let text = g[2].as_str().unwrap().to_string();
            if r.empty() {
                if text.contains("no progress") {
                    ctx.fail("asking for a value of an empty range never ends", where_);
                    return;
                }
                ctx.count("empty range refused", 1);
            } else if text.contains("no progress") {
                ctx.fail("drawing never ends although the generator recovered", where_);
                return;
            } else if !(source_failed && text.contains("entropy source failed")) {
                ctx.fail("drawing failed", format!("{}: {}", where_, text));
                return;
            } else {
                ctx.count("failed with its source", 1);
            }
            continue;
        }
        if r.empty() {
            ctx.fail("a value of an empty range", format!("{}: {}", where_, g[2]));
            return;
        }
        let v: Vec<L4> = serde_json::from_value(g[2].clone()).unwrap();
        let (low, count) = r.space();
        for x in &v {
            let ok = !lt(x, &low) && count.map_or(true, |n| lt(&sub(x, &low), &n));
            if !ok {
                ctx.fail("value out of range", format!("{}: {:x?}", where_, x));
                return;
            }
        }
        ctx.count("values drawn", v.len() as u64);
        // four words make a try and at least every second try succeeds
        let healthy = g[4].as_u64().unwrap();
        if healthy > 40 * *n as u64 + 4000 {
            ctx.fail("too many words for a value", format!("{}: {} healthy words for {} values", where_, healthy, n));
            return;
        }
        if series {
            ctx.count("series judged", 1);
            if let Some(e) = uneven(r, &v) {
                ctx.fail("values are not evenly spread", format!("{}: {}", where_, e));
                return;
            }
        }
    }
    ctx.sample(format!("{} requests by {} threads, first: {}", reqs.len(), nthreads, reqs[0].1.name()));
}
