//! Seeded generation of claims, witnesses and parameters.
use crate::expr::*;
use crate::field::*;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Class {
    Tiny,
    Small,
    Medium,
    /// trace large enough that shifting and transforming a column is split over workers
    Large,
    /// trace large enough that constraint evaluation needs several parallel chunks
    Huge,
}

/// Constraint holds on all rows but the excluded ones (negative: from the end).
fn on_rows(e: E, n: usize, exclude: &[isize]) -> E {
    let g = F::root(n);
    let mut num = e;
    for r in exclude {
        num = mul(num, sub(E::X, E::C(g.pow(r.rem_euclid(n as isize) as u64))));
    }
    div(num, sub(exp(E::X, n), E::C(F::one())))
}

/// The same function written differently (constants split, neutral elements, double negation, nested powers).
/// `exact`: keep the degree bound exact, too; the library needs that of denominators.
fn disguise(rng: &mut Rng, e: &E, exact: bool, n: usize) -> E {
    let e = match e {
        // rows count modulo the table length
        E::T(c, o) if rng.chance(1, 40) => E::T(*c, o + n as isize * (rng.below(5) as isize - 2)),
        E::C(f) if !exact && !f.is_zero() && rng.chance(1, 30) => E::Inv(Box::new(E::C(f.inv()))),
        E::X | E::C(_) | E::T(..) => e.clone(),
        E::Poly(p, a) => {
            let mut p = p.clone();
            if rng.chance(1, 6) {
                p.resize(2 * p.len(), F::ZERO);
            }
            E::Poly(p, Box::new(disguise(rng, a, exact, n)))
        }
        E::Claim(i, d, a) => E::Claim(*i, *d, a.clone()),
        E::Neg(a) => E::Neg(Box::new(disguise(rng, a, exact, n))),
        E::Inv(a) => E::Inv(Box::new(disguise(rng, a, true, n))),
        E::Exp(a, k) => {
            let a = disguise(rng, a, exact, n);
            if *k % 2 == 0 && rng.chance(1, 6) {
                exp(exp(a, *k / 2), 2)
            } else if *k % 2 == 0 && rng.chance(1, 8) {
                exp(mul(a.clone(), a), *k / 2)
            } else if *k > 1 && *k < 8 && rng.chance(1, 8) {
                mul(exp(a.clone(), *k - 1), a)
            } else {
                exp(a, *k)
            }
        }
        E::Add(a, b) => {
            let (a, b) = (disguise(rng, a, exact, n), disguise(rng, b, exact, n));
            if rng.chance(1, 4) { add(b, a) } else { add(a, b) }
        }
        E::Mul(a, b) => {
            let (a, b) = (disguise(rng, a, exact, n), disguise(rng, b, exact, n));
            if rng.chance(1, 4) { mul(b, a) } else { mul(a, b) }
        }
    };
    let neg = |e: E| E::Neg(Box::new(e));
    match rng.below(60) {
        0 => add(e, E::C(F::ZERO)),
        1 => add(E::C(F::ZERO), e),
        2 => mul(e, E::C(F::one())),
        3 => mul(E::C(F::one()), e),
        4 => neg(neg(e)),
        5 => exp(e, 1),
        6 => E::Poly(vec![F::ZERO, F::one()], Box::new(e)),
        7 if !exact && rng.chance(1, 2) => add(e, sub(E::X, E::X)),
        7 if !exact => {
            let zero_somewhere = sub(E::X, E::C(F::root(n).pow(rng.below(n) as u64)));
            add(e, sub(exp(zero_somewhere, 0), E::C(F::one())))
        }
        8 => mul(e.clone(), exp(if rng.chance(1, 2) { E::X } else { e }, 0)),
        9 => match e {
            E::C(f) => {
                let a = rng.field();
                add(E::C(a), E::C(f - a))
            }
            e => neg(mul(E::C(-F::one()), e)),
        },
        10 => match e {
            E::C(f) => neg(E::C(-f)),
            e => {
                let a = rng.field();
                add(sub(e, E::C(a)), E::C(a))
            }
        },
        11 => match e {
            E::C(f) => mul(E::C(F::from_u64(7)), E::C(f * F::from_u64(7).inv())),
            e if !exact => add(e, mul(E::C(F::ZERO), E::X)),
            e => e,
        },
        _ => e,
    }
}
/// One more column, a multiple of some polynomial D in X, and the constraint that says what is left after division by D.
pub fn quotient_column(rng: &mut Rng, sys: &Sys, trace: &[Vec<F>]) -> (Sys, Vec<Vec<F>>) {
    let (mut s, mut t) = (sys.clone(), trace.to_vec());
    let (n, j) = (s.n, s.cols);
    let log_n = n.trailing_zeros() as usize;
    if log_n < 2 {
        return (s, t);
    }
    let m = if rng.chance(3, 4) { 1usize << rng.below(log_n) } else { 1 + rng.below(n - 1) };
    let x = exp(E::X, m);
    // small constants are powers of the coset offset, and then D has zeros where the prover evaluates it
    fn unit(rng: &mut Rng) -> F {
        match rng.below(8) {
            0 => F::one(),
            1 => -F::one(),
            _ => loop {
                let f = rng.field();
                if f.to_bytes()[..16].iter().any(|b| *b != 0) && (-f).to_bytes()[..16].iter().any(|b| *b != 0) {
                    return f;
                }
            },
        }
    }
    let d = match rng.below(6) {
        0 | 1 => x,
        2 => mul(E::C(unit(rng)), x),
        3 => add(x, E::C(unit(rng))),
        4 if 2 * m < n => exp(add(mul(E::C(unit(rng)), x), E::C(if rng.chance(1, 8) { F::ZERO } else { unit(rng) })), 2),
        5 if 3 * m < n => E::Poly(vec![unit(rng), rng.field(), unit(rng), rng.field() + unit(rng)], Box::new(x)),
        _ => sub(E::C(unit(rng)), x),
    };
    let dd = d.degree(1, n - 1).0;
    let q: Vec<F> = (0..(1usize << rng.below(3)).min(n - dd).max(1)).map(|_| rng.field()).collect();
    let q = if q.len() == 3 { q[..2].to_vec() } else { q };
    let g = F::root(n);
    let mut col = vec![];
    let mut y = F::one();
    for _ in 0..n {
        match d.eval(y, &|_, _| F::ZERO, &[]) {
            Some(v) if !v.is_zero() => col.push(v * eval_poly(&q, y)),
            _ => return (s, t),
        }
        y *= g;
    }
    // the prover divides on this coset as well
    let w = F::root(n * s.blowup);
    let mut y = F::from_u64(3);
    for _ in 0..n * s.blowup {
        match d.eval(y, &|_, _| F::ZERO, &[]) {
            Some(v) if !v.is_zero() => {}
            _ => return (s, t),
        }
        y *= w;
    }
    let rest = if q.len() == 1 { E::C(q[0]) } else { E::Poly(q.clone(), Box::new(E::X)) };
    let divided = if rng.chance(1, 2) { div(E::T(j, 0), d) } else { mul(E::Inv(Box::new(d)), E::T(j, 0)) };
    let num = if rng.chance(1, 2) { sub(divided, rest) } else { sub(rest, divided) };
    s.exprs.push(div(num, sub(E::X, E::C(g.pow(rng.below(n) as u64)))));
    s.cols += 1;
    t.push(col);
    s.label += " quotient";
    let target = s.degree() * n - 1;
    if s.eval_degree() > s.blowup || s.exprs.iter().any(|e| { let (a, b) = e.degree(1, n - 1); target + b < a }) {
        return (sys.clone(), trace.to_vec());
    }
    (s, t)
}
/// The same claim with every constraint written differently, within the degree bounds.
pub fn rewrite(rng: &mut Rng, sys: &Sys) -> Sys {
    let n = sys.n;
    for _ in 0..20 {
        let mut s = sys.clone();
        for _ in 0..1 + rng.below(3) {
            s.exprs = s.exprs.iter().map(|e| disguise_fraction(rng, e, n)).collect();
        }
        s.exprs = s.exprs.into_iter().map(|e| if rng.chance(1, 8) { distribute(e) } else { e }).collect();
        let target = s.degree() * s.n - 1;
        if s.degree() == sys.degree() && s.exprs.iter().all(|e| { let (a, b) = e.degree(1, s.n - 1); target + b >= a }) {
            s.label += " rewritten";
            return s;
        }
    }
    sys.clone()
}
/// Sums of fractions with different denominators: no longer the same claim, but one the same trace satisfies.
pub fn merge(rng: &mut Rng, sys: &Sys) -> Sys {
    let mut s = sys.clone();
    for _ in 0..1 + rng.below(3) {
        let i = rng.below(s.exprs.len());
        let e = s.exprs[i].clone();
        s.exprs[i] = match rng.below(4) {
            0 | 1 if s.exprs.len() > 1 => {
                let j = (i + 1 + rng.below(s.exprs.len() - 1)) % s.exprs.len();
                let other = s.exprs[j].clone();
                let other = if rng.chance(1, 2) { mul(E::C(rng.field()), other) } else { other };
                if rng.chance(1, 3) { sub(e, other) } else { add(e, other) }
            }
            2 => {
                let k = rng.below(s.n);
                add(e, mul(E::C(rng.field()), exp(E::X, k)))
            }
            _ => match e {
                E::Mul(a, b) if matches!(&*b, E::Inv(_)) => E::Mul(a, Box::new(E::Inv(Box::new(E::Inv(b))))),
                e => e,
            },
        };
    }
    let target = s.degree() * s.n - 1;
    if s.eval_degree() == sys.eval_degree() && s.exprs.iter().all(|e| { let (a, b) = e.degree(1, s.n - 1); target + b >= a }) {
        s.label += " merged";
        return s;
    }
    sys.clone()
}
/// The same claim about columns of a wider table.
pub fn widen(rng: &mut Rng, sys: &Sys, trace: &[Vec<F>]) -> (Sys, Vec<Vec<F>>) {
    fn rename(e: &E, to: &[usize]) -> E {
        let go = |a: &E| Box::new(rename(a, to));
        match e {
            E::T(c, o) => E::T(to[*c], *o),
            E::X | E::C(_) => e.clone(),
            E::Poly(p, a) => E::Poly(p.clone(), go(a)),
            E::Claim(i, d, a) => E::Claim(*i, *d, go(a)),
            E::Neg(a) => E::Neg(go(a)),
            E::Inv(a) => E::Inv(go(a)),
            E::Exp(a, k) => E::Exp(go(a), *k),
            E::Add(a, b) => E::Add(go(a), go(b)),
            E::Mul(a, b) => E::Mul(go(a), go(b)),
        }
    }
    let cols = 257 + rng.below(60);
    let first = rng.below(cols - 256);
    let mut to = vec![first, first + 256];
    while to.len() < sys.cols {
        let c = rng.below(cols);
        if !to.contains(&c) {
            to.push(c);
        }
    }
    to.truncate(sys.cols);
    let mut t: Vec<Vec<F>> = (0..cols).map(|_| if rng.chance(1, 2) { vec![F::ZERO; sys.n] } else { vec![rng.field(); sys.n] }).collect();
    for (c, k) in to.iter().enumerate() {
        t[*k] = trace[c].clone();
    }
    let mut s = sys.clone();
    s.cols = cols;
    s.exprs = s.exprs.iter().map(|e| rename(e, &to)).collect();
    s.label += " wide";
    (s, t)
}
/// The same claim with a few hundred constraints, and now and then a few hundred cells in use.
pub fn crowd(rng: &mut Rng, sys: &Sys, trace: &[Vec<F>]) -> (Sys, Vec<Vec<F>>) {
    let (mut s, mut t) = (sys.clone(), trace.to_vec());
    let total = 129 + rng.below(140);
    if s.n <= 32 && rng.chance(1, 2) {
        let extra = total.max(s.exprs.len()) - s.exprs.len();
        for _ in 0..extra {
            // a public column and a constraint that says so
            let (c, v) = (s.cols, rng.field());
            s.cols += 1;
            t.push(vec![v; s.n]);
            s.exprs.push(sub(E::T(c, rng.below(s.n) as isize), E::C(v)));
        }
    } else {
        let own = s.exprs.clone();
        while s.exprs.len() < total {
            let k = loop {
                let k = rng.field();
                if !k.is_zero() {
                    break k;
                }
            };
            s.exprs.push(mul(E::C(k), own[rng.below(own.len())].clone()));
        }
    }
    s.label += " crowd";
    (s, t)
}
/// Coefficients of a public polynomial up to its leading one (at least one), where changing one cannot raise the degree.
pub fn significant(p: &[F]) -> usize {
    p.iter().rposition(|c| !c.is_zero()).map_or(1, |k| k + 1)
}
/// The same shape of claim about a table m times as long; only for checks that need no witness.
pub fn stretch(rng: &mut Rng, sys: &Sys, m: usize) -> Sys {
    fn go(e: &E, m: usize, k: isize) -> E {
        let r = |a: &E| Box::new(go(a, m, k));
        match e {
            E::T(c, o) => E::T(*c, o * k),
            E::Exp(a, n) if matches!(**a, E::X) => exp(E::X, n * m),
            E::X | E::C(_) => e.clone(),
            E::Poly(p, a) => E::Poly(p.clone(), r(a)),
            E::Claim(i, d, a) => E::Claim(*i, *d, r(a)),
            E::Neg(a) => E::Neg(r(a)),
            E::Inv(a) => E::Inv(r(a)),
            E::Exp(a, n) => E::Exp(r(a), *n),
            E::Add(a, b) => E::Add(r(a), r(b)),
            E::Mul(a, b) => E::Mul(r(a), r(b)),
        }
    }
    let mut s = sys.clone();
    s.n *= m;
    let k = [1, m as isize, 128, 256, 1 + rng.below(1000) as isize][rng.below(5)];
    s.exprs = s.exprs.iter().map(|e| go(e, m, k)).collect();
    let target = s.degree() * s.n - 1;
    if s.eval_degree() == sys.eval_degree() && s.exprs.iter().all(|e| { let (a, b) = e.degree(1, s.n - 1); target + b >= a }) {
        s.label += &format!(" stretched {}", m);
        return s;
    }
    sys.clone()
}
/// Disguise numerator and denominator, keep the fraction.
fn disguise_fraction(rng: &mut Rng, e: &E, n: usize) -> E {
    match e {
        E::Mul(a, b) => match &**b {
            E::Inv(d) => {
                let (mut a, mut d) = (disguise(rng, a, false, n), disguise(rng, d, true, n));
                if rng.chance(1, 12) {
                    // a common factor without zeros on the domain
                    let k = if rng.chance(2, 3) { 1usize << rng.below(n.trailing_zeros() as usize + 2) } else { 1 + rng.below(2 * n) };
                    let f = if rng.chance(1, 2) { exp(E::X, k) } else { mul(E::C(rng.field()), exp(E::X, k)) };
                    if !matches!(&f, E::Mul(c, _) if matches!(&**c, E::C(c) if c.is_zero())) {
                        a = if rng.chance(1, 2) { mul(f.clone(), a) } else { mul(a, f.clone()) };
                        d = if rng.chance(1, 2) { mul(f, d) } else { mul(d, f) };
                    }
                }
                div(a, d)
            }
            _ => e.clone(),
        },
        _ => e.clone(),
    }
}
/// (a + b) / d as a / d + b / d
fn distribute(e: E) -> E {
    match &e {
        E::Mul(a, b) => match (&**a, &**b) {
            (E::Add(x, y), E::Inv(d)) => add(div((**x).clone(), (**d).clone()), div((**y).clone(), (**d).clone())),
            _ => e,
        },
        _ => e,
    }
}

pub fn fri_layout(rng: &mut Rng, log_n: usize) -> Vec<usize> {
    let total = if rng.chance(1, 2) { log_n } else { 1 + rng.below(log_n) };
    let mut left = total;
    let mut v = vec![];
    while left > 0 {
        let k = (1 + rng.below(4)).min(left);
        v.push(k);
        left -= k;
    }
    v
}

pub fn gen(rng: &mut Rng, class: Class) -> (Sys, Vec<Vec<F>>) {
    loop {
        if let Some(r) = try_gen(rng, class, None) {
            return r;
        }
    }
}
pub fn gen_log(rng: &mut Rng, class: Class, log_n: usize) -> (Sys, Vec<Vec<F>>) {
    loop {
        if let Some(r) = try_gen(rng, class, Some(log_n)) {
            return r;
        }
    }
}

fn try_gen(rng: &mut Rng, class: Class, log_n: Option<usize>) -> Option<(Sys, Vec<Vec<F>>)> {
    let log_n = log_n.unwrap_or(match class {
        Class::Tiny => 1 + rng.below(4),
        Class::Small => 2 + rng.below(5),
        Class::Medium => 6 + rng.below(4),
        Class::Large => 11 + rng.below(2),
        Class::Huge => 15,
    });
    let n = 1usize << log_n;
    let cols = match class {
        Class::Huge | Class::Large => 1 + rng.below(2),
        Class::Tiny | Class::Small if rng.chance(1, 6) => 5 + rng.below(12),
        _ => 1 + rng.below(4),
    };
    let dmax = match class {
        Class::Huge => 3 + rng.below(2),
        Class::Large => 1 + rng.below(2),
        Class::Tiny | Class::Small if rng.chance(1, 24) => 9 + rng.below(7),
        _ => [1, 1, 2, 2, 3, 4, 5 + rng.below(4)][rng.below(7)],
    };
    let g = F::root(n);
    let mut exprs: Vec<E> = vec![];
    let mut trace: Vec<Vec<F>> = vec![vec![F::ZERO; n]; cols];
    let mut label = format!("n={} cols={} d={}", n, cols, dmax);

    // a random polynomial expression in X of degree below `room`, built from monomials whose values repeat with various periods
    fn weight(rng: &mut Rng, n: usize, room: usize, depth: usize) -> E {
        let monomial = |rng: &mut Rng| {
            let k = if rng.chance(2, 3) { 1usize << rng.below(room.max(1).next_power_of_two().trailing_zeros() as usize + 1) } else { 1 + rng.below(room.max(1)) };
            exp(E::X, k.min(room))
        };
        if depth == 0 || room < 4 {
            return match rng.below(4) {
                0 => E::C(rng.field()),
                1 => mul(E::C(rng.field()), monomial(rng)),
                2 => mul(monomial(rng), E::C(rng.field())),
                _ => monomial(rng),
            };
        }
        let h = room / 2;
        match rng.below(6) {
            0 => add(weight(rng, n, room, depth - 1), weight(rng, n, room, depth - 1)),
            1 => sub(weight(rng, n, room, depth - 1), weight(rng, n, room, depth - 1)),
            2 => mul(weight(rng, n, h, depth - 1), weight(rng, n, h, depth - 1)),
            3 => {
                let e = 2 + rng.below(6.min(room - 1));
                exp(weight(rng, n, room / e, depth - 1), e)
            }
            4 => E::Neg(Box::new(weight(rng, n, room, depth - 1))),
            _ => {
                let len = (1usize << (1 + rng.below(3))).min(room.next_power_of_two());
                let p: Vec<F> = (0..len).map(|_| rng.field()).collect();
                E::Poly(p, Box::new(weight(rng, n, room / (len - 1).max(1), depth - 1)))
            }
        }
    }
    // a random polynomial expression in earlier columns and this one at the given row offset, X and a periodic column
    fn term(rng: &mut Rng, cands: &[(usize, isize)], deg: usize, n: usize) -> E {
        let mut e = match rng.below(4) {
            0 => E::C(F::one()),
            _ => E::C(rng.field()),
        };
        let mut left = deg;
        while left > 0 {
            let (c, o) = cands[rng.below(cands.len())];
            let k = 1 + rng.below(left);
            e = if k > 1 { mul(e, exp(E::T(c, o), k)) } else { mul(e, E::T(c, o)) };
            left -= k;
        }
        if rng.chance(1, 4) && n >= 4 {
            // periodic column: polynomial in X^(n/period)
            let most = (n.trailing_zeros() as usize - 1).max(1);
            let lp = 1 + if rng.chance(1, 6) { rng.below(most) } else { rng.below(most.min(3)) };
            let period = 1usize << lp;
            let p: Vec<F> = (0..period).map(|_| rng.field()).collect();
            e = mul(e, E::Poly(p, Box::new(exp(E::X, n / period))));
        } else if rng.chance(1, 8) {
            e = mul(e, E::X);
        } else if rng.chance(1, 6) && n >= 4 && n <= 1024 {
            let depth = rng.below(4);
            e = mul(e, weight(rng, n, n - 1, depth));
        }
        e
    }
    let mut order: Vec<usize> = (0..cols).collect();
    for i in (1..cols).rev() {
        order.swap(i, rng.below(i + 1));
    }
    let mut done: Vec<usize> = vec![];
    for &j in &order {
        let kind = rng.below(if done.is_empty() { 4 } else { 6 });
        let ts = 1 + rng.below(2);
        let degs: Vec<usize> = (0..ts).map(|k| if k == 0 { 1 + rng.below(dmax) } else { rng.below(dmax + 1) }).collect();
        match kind {
            0 if n >= 2 => {
                // one step recurrence, may read finished columns at offsets 0 and 1
                let mut cands = vec![(j, 0isize), (j, 0)];
                for &d in &done {
                    cands.push((d, 0));
                    cands.push((d, 1));
                }
                let f = degs.iter().map(|d| term(rng, &cands, *d, n)).reduce(add).unwrap();
                trace[j][0] = rng.field();
                for i in 0..n - 1 {
                    let tr = |c: usize, o: isize| trace[c][(i as isize + o).rem_euclid(n as isize) as usize];
                    let v = f.eval(g.pow(i as u64), &tr, &[])?;
                    trace[j][i + 1] = v;
                }
                exprs.push(on_rows(sub(E::T(j, 1), f), n, &[-1]));
                label += " step1";
            }
            1 if n >= 4 => {
                // two step recurrence
                let mut cands = vec![(j, 0isize), (j, 1)];
                for &d in &done {
                    cands.push((d, 1));
                }
                let f = degs.iter().map(|d| term(rng, &cands, *d, n)).reduce(add).unwrap();
                trace[j][0] = rng.field();
                trace[j][1] = rng.field();
                for i in 0..n - 2 {
                    let tr = |c: usize, o: isize| trace[c][(i as isize + o).rem_euclid(n as isize) as usize];
                    trace[j][i + 2] = f.eval(g.pow(i as u64), &tr, &[])?;
                }
                exprs.push(on_rows(sub(E::T(j, 2), f), n, &[-1, -2]));
                label += " step2";
            }
            2 if n >= 2 => {
                // reads the previous row
                let mut cands = vec![(j, -1isize)];
                for &d in &done {
                    cands.push((d, -1));
                    cands.push((d, 0));
                }
                let f = degs.iter().map(|d| term(rng, &cands, *d, n)).reduce(add).unwrap();
                trace[j][0] = rng.field();
                for i in 1..n {
                    let tr = |c: usize, o: isize| trace[c][(i as isize + o).rem_euclid(n as isize) as usize];
                    trace[j][i] = f.eval(g.pow(i as u64), &tr, &[])?;
                }
                exprs.push(on_rows(sub(E::T(j, 0), f), n, &[0]));
                label += " back1";
            }
            3 => {
                // free column, squares of itself bounded only by boundary constraints
                for i in 0..n {
                    trace[j][i] = rng.field();
                }
                label += " free";
            }
            4 => {
                // same row function of finished columns, every row
                let cands: Vec<(usize, isize)> = done.iter().flat_map(|d| vec![(*d, 0), (*d, 0)]).collect();
                let f = degs.iter().map(|d| term(rng, &cands, *d, n)).reduce(add).unwrap();
                for i in 0..n {
                    let tr = |c: usize, o: isize| trace[c][(i as isize + o).rem_euclid(n as isize) as usize];
                    trace[j][i] = f.eval(g.pow(i as u64), &tr, &[])?;
                }
                exprs.push(on_rows(sub(E::T(j, 0), f), n, &[]));
                label += " map";
            }
            5 if n >= 4 => {
                // every s-th row equals a function of a far away row (wraps around)
                let s = 2usize << rng.below(2).min(log_n - 2);
                let d = done[rng.below(done.len())];
                let mut far = rng.below(n) as isize - (n / 2) as isize;
                if rng.chance(1, 2) {
                    far = (1isize << rng.below(log_n)) * if rng.chance(1, 2) { 1 } else { -1 };
                }
                if rng.chance(1, 4) {
                    far += n as isize * (rng.below(7) as isize - 3);
                }
                let cands = vec![(d, far)];
                let f = degs.iter().map(|k| term(rng, &cands, *k, n)).reduce(add).unwrap();
                for i in 0..n {
                    let tr = |c: usize, o: isize| trace[c][(i as isize + o).rem_euclid(n as isize) as usize];
                    trace[j][i] = if i % s == 0 { f.eval(g.pow(i as u64), &tr, &[])? } else { rng.field() };
                }
                exprs.push(div(sub(E::T(j, 0), f), sub(exp(E::X, n / s), E::C(F::one()))));
                label += " sparse";
            }
            _ => return None,
        }
        done.push(j);
    }
    // boundary constraints; every column is mentioned at least once
    let mut claims: Vec<Vec<F>> = vec![];
    for j in 0..cols {
        let mentioned = {
            let mut s = Default::default();
            exprs.iter().for_each(|e| e.trace_args(&mut s));
            s.iter().any(|(c, _)| *c == j)
        };
        let reps = if mentioned { rng.below(3) } else { 1 + rng.below(2) };
        for _ in 0..reps {
            if n >= 4 && rng.chance(1, 3) {
                // claim polynomial through two or more rows
                let k = if rng.chance(1, 2) { 2 } else { 4.min(n / 2) };
                let mut rows: Vec<usize> = vec![];
                while rows.len() < k {
                    let r = if rng.chance(1, 3) { [0, n - 1, n / 2][rng.below(3)] } else { rng.below(n) };
                    if !rows.contains(&r) {
                        rows.push(r);
                    }
                }
                let pts: Vec<(F, F)> = rows.iter().map(|r| (g.pow(*r as u64), trace[j][*r])).collect();
                let p = lagrange(&pts);
                let bound = k - 1;
                let mut den = sub(E::X, E::C(pts[0].0));
                for q in &pts[1..] {
                    den = mul(den, sub(E::X, E::C(q.0)));
                }
                claims.push(p);
                exprs.push(div(sub(E::T(j, 0), E::Claim(claims.len() - 1, bound, Box::new(E::X))), den));
                label += " claim";
            } else if n >= 8 && rng.chance(1, 6) {
                // cells weighted by one public polynomial are those of another one; both bounds may have slack
                let k = 2 + rng.below(3);
                let m = 1 + rng.below(2);
                let mut rows: Vec<usize> = vec![];
                while rows.len() < k {
                    let r = rng.below(n);
                    if !rows.contains(&r) {
                        rows.push(r);
                    }
                }
                let bound = k / m;
                let mut w: Vec<F> = (0..1 + rng.below(bound)).map(|_| rng.field()).collect();
                w.resize(w.len().next_power_of_two(), F::ZERO);
                let x = |y: F| y.pow(m as u64);
                let pts: Vec<(F, F)> = rows.iter().map(|r| (g.pow(*r as u64), eval_poly(&w, x(g.pow(*r as u64))) * trace[j][*r])).collect();
                let mut q = lagrange(&pts);
                q.resize(q.len().next_power_of_two(), F::ZERO);
                let mut den = sub(E::X, E::C(pts[0].0));
                for q in &pts[1..] {
                    den = mul(den, sub(E::X, E::C(q.0)));
                }
                let arg = if m == 1 { E::X } else { exp(E::X, m) };
                claims.push(w);
                let w = E::Claim(claims.len() - 1, bound, Box::new(arg));
                claims.push(q);
                let q = E::Claim(claims.len() - 1, k - 1 + rng.below(2), Box::new(E::X));
                exprs.push(div(sub(if rng.chance(1, 2) { mul(E::T(j, 0), w) } else { mul(w, E::T(j, 0)) }, q), den));
                label += " weighted";
            } else {
                let r = if rng.chance(1, 2) { [0, n - 1][rng.below(2)] } else { rng.below(n) };
                // the same cell may be named from another row
                let o = match rng.below(8) {
                    0 => rng.below(n) as isize,
                    1 => 1isize << rng.below(log_n + 1),
                    2 => -(1isize << rng.below(log_n + 1)),
                    _ => 0,
                };
                let from = (r as isize - o).rem_euclid(n as isize) as u64;
                exprs.push(div(sub(E::T(j, o), E::C(trace[j][r])), sub(E::X, E::C(g.pow(from)))));
                label += " bnd";
            }
        }
    }
    if exprs.is_empty() {
        return None;
    }
    if class != Class::Huge && rng.chance(1, 3) {
        exprs = exprs.iter().map(|e| disguise_fraction(rng, e, n)).collect();
        label += " disguised";
    }
    for i in (1..exprs.len()).rev() {
        exprs.swap(i, rng.below(i + 1));
    }
    let mut sys = Sys {
        n,
        cols,
        seed: (0..[0, 1, 8, 32, 33, 64, 200][rng.below(7)]).map(|_| rng.next() as u8).collect(),
        exprs,
        claims,
        blowup: 2,
        pow_bits: 0,
        queries: 1,
        fri: vec![1],
        label,
    };
    let ed = sys.eval_degree();
    if ed > if dmax > 8 { 16 } else { 8 } || sys.degree() == 0 {
        return None;
    }
    // degree bounds must fit
    let target = sys.degree() * n - 1;
    for e in &sys.exprs {
        let (a, b) = e.degree(1, n - 1);
        if target + b < a {
            return None;
        }
    }
    let lo = ed.max(2);
    sys.blowup = match class {
        Class::Huge => lo.max(4),
        _ => lo << rng.below(4),
    };
    if n * sys.blowup > match class { Class::Tiny => 256, Class::Small => 1024, Class::Medium => 8192, Class::Large => 8192, Class::Huge => 1 << 18 } {
        sys.blowup = lo;
    }
    params(rng, &mut sys, class);
    Some((sys, trace))
}

pub fn params(rng: &mut Rng, sys: &mut Sys, class: Class) {
    let log_n = sys.n.trailing_zeros() as usize;
    sys.fri = fri_layout(rng, log_n);
    sys.queries = match rng.below(4) {
        0 => 1 + rng.below(3),
        1 => 4 + rng.below(9),
        2 if rng.chance(1, 4) => 32 + if rng.chance(1, 6) { rng.below(300) } else { rng.below(90) },
        _ => 8 + rng.below(24),
    };
    sys.pow_bits = match class {
        Class::Huge => rng.below(4),
        _ => [0, 0, 1, 2, 4, 6, 8, 9 + rng.below(4)][rng.below(8)],
    };
    if class == Class::Huge {
        sys.fri = vec![3, 3, 2];
    }
}

fn lagrange(pts: &[(F, F)]) -> Vec<F> {
    let k = pts.len();
    let mut out = vec![F::ZERO; k];
    for i in 0..k {
        let mut num = vec![F::one()];
        let mut den = F::one();
        for j in 0..k {
            if i == j {
                continue;
            }
            let mut nn = vec![F::ZERO; num.len() + 1];
            for (d, c) in num.iter().enumerate() {
                nn[d + 1] += *c;
                nn[d] = nn[d] - *c * pts[j].0;
            }
            num = nn;
            den *= pts[i].0 - pts[j].0;
        }
        let s = pts[i].1 * den.inv();
        for d in 0..k {
            out[d] += num[d] * s;
        }
    }
    out
}
