//! Constraint systems in the harness's own representation, evaluated with the harness's own arithmetic,
//! and their translation into the repository's public types.
use crate::field::*;
use std::collections::BTreeSet;
use zkp_primefield::FieldElement;
use zkp_stark::{Constraints, DensePolynomial, RationalExpression, TraceTable};
use zkp_u256::U256;

#[derive(Clone, Debug)]
pub enum E {
    X,
    C(F),
    T(usize, isize),
    Poly(Vec<F>, Box<E>),
    Claim(usize, usize, Box<E>),
    Add(Box<E>, Box<E>),
    Neg(Box<E>),
    Mul(Box<E>, Box<E>),
    Inv(Box<E>),
    Exp(Box<E>, usize),
}
pub fn add(a: E, b: E) -> E {
    E::Add(Box::new(a), Box::new(b))
}
pub fn sub(a: E, b: E) -> E {
    add(a, E::Neg(Box::new(b)))
}
pub fn mul(a: E, b: E) -> E {
    E::Mul(Box::new(a), Box::new(b))
}
pub fn div(a: E, b: E) -> E {
    mul(a, E::Inv(Box::new(b)))
}
pub fn exp(a: E, e: usize) -> E {
    E::Exp(Box::new(a), e)
}

pub fn to_fe(f: &F) -> FieldElement {
    FieldElement::from_montgomery(U256::from_limbs(f.0))
}
pub fn from_fe(f: &FieldElement) -> F {
    let m = f.as_montgomery();
    F([m.limb(0), m.limb(1), m.limb(2), m.limb(3)])
}
pub fn dense(c: &[F]) -> DensePolynomial {
    DensePolynomial::new(&c.iter().map(to_fe).collect::<Vec<_>>())
}
fn poly_degree(c: &[F]) -> usize {
    let mut d = c.len() - 1;
    while d > 0 && c[d].is_zero() {
        d -= 1;
    }
    d
}

impl E {
    pub fn to_repo(&self) -> RationalExpression {
        self.to_repo_named(&|_, _, _| None)
    }
    /// With names for the claim polynomials.
    pub fn to_repo_named(&self, name: &dyn Fn(usize, usize, &E) -> Option<&'static str>) -> RationalExpression {
        use RationalExpression as R;
        let b = |e: &E| Box::new(e.to_repo_named(name));
        match self {
            E::X => R::X,
            E::C(f) => R::Constant(to_fe(f)),
            E::T(c, o) => R::Trace(*c, *o),
            E::Poly(p, e) => R::Polynomial(dense(p), b(e)),
            E::Claim(i, d, e) => R::ClaimPolynomial(*i, *d, b(e), name(*i, *d, e)),
            E::Add(x, y) => R::Add(b(x), b(y)),
            E::Neg(x) => R::Neg(b(x)),
            E::Mul(x, y) => R::Mul(b(x), b(y)),
            E::Inv(x) => R::Inv(b(x)),
            E::Exp(x, e) => R::Exp(b(x), *e),
        }
    }
    /// Degree of numerator and denominator, given the degrees of X and of a trace column.
    pub fn degree(&self, xd: usize, td: usize) -> (usize, usize) {
        match self {
            E::X => (xd, 0),
            E::C(_) => (0, 0),
            E::T(..) => (td, 0),
            E::Poly(p, e) => {
                let (n, d) = e.degree(xd, td);
                (poly_degree(p) * n, poly_degree(p) * d)
            }
            E::Claim(_, b, e) => {
                let (n, d) = e.degree(xd, td);
                (b * n, b * d)
            }
            E::Add(a, b) => {
                let (an, ad) = a.degree(xd, td);
                let (bn, bd) = b.degree(xd, td);
                ((an + bd).max(bn + ad), ad + bd)
            }
            E::Neg(a) => a.degree(xd, td),
            E::Mul(a, b) => {
                let (an, ad) = a.degree(xd, td);
                let (bn, bd) = b.degree(xd, td);
                (an + bn, ad + bd)
            }
            E::Inv(a) => {
                let (n, d) = a.degree(xd, td);
                (d, n)
            }
            E::Exp(a, e) => {
                let (n, d) = a.degree(xd, td);
                (e * n, e * d)
            }
        }
    }
    pub fn eval(&self, x: F, tr: &dyn Fn(usize, isize) -> F, claims: &[Vec<F>]) -> Option<F> {
        Some(match self {
            E::X => x,
            E::C(f) => *f,
            E::T(c, o) => tr(*c, *o),
            E::Poly(p, e) => eval_poly(p, e.eval(x, tr, claims)?),
            E::Claim(i, _, e) => eval_poly(&claims[*i], e.eval(x, tr, claims)?),
            E::Add(a, b) => a.eval(x, tr, claims)? + b.eval(x, tr, claims)?,
            E::Neg(a) => -a.eval(x, tr, claims)?,
            E::Mul(a, b) => a.eval(x, tr, claims)? * b.eval(x, tr, claims)?,
            E::Inv(a) => {
                let v = a.eval(x, tr, claims)?;
                if v.is_zero() {
                    return None;
                }
                v.inv()
            }
            E::Exp(a, e) => a.eval(x, tr, claims)?.pow(*e as u64),
        })
    }
    /// Values on a whole domain at once. `stride`: domain steps per trace row.
    pub fn eval_all(&self, xs: &[F], cols: &[Vec<F>], stride: usize, claims: &[Vec<F>]) -> Vec<F> {
        let n = xs.len();
        let go = |e: &E| e.eval_all(xs, cols, stride, claims);
        match self {
            E::X => xs.to_vec(),
            E::C(f) => vec![*f; n],
            E::T(c, o) => (0..n).map(|i| cols[*c][(i as isize + o * stride as isize).rem_euclid(n as isize) as usize]).collect(),
            E::Poly(p, e) => go(e).into_iter().map(|x| eval_poly(p, x)).collect(),
            E::Claim(k, _, e) => go(e).into_iter().map(|x| eval_poly(&claims[*k], x)).collect(),
            E::Add(a, b) => go(a).into_iter().zip(go(b)).map(|(x, y)| x + y).collect(),
            E::Neg(a) => go(a).into_iter().map(|x| -x).collect(),
            E::Mul(a, b) => go(a).into_iter().zip(go(b)).map(|(x, y)| x * y).collect(),
            E::Inv(a) => batch_inv(&go(a)),
            E::Exp(a, e) => go(a).into_iter().map(|x| pow_small(x, *e as u64)).collect(),
        }
    }
    /// Number of constants in the expression.
    pub fn constants(&self) -> usize {
        match self {
            E::C(_) => 1,
            E::X | E::T(..) => 0,
            E::Poly(_, e) | E::Claim(_, _, e) | E::Neg(e) | E::Inv(e) | E::Exp(e, _) => e.constants(),
            E::Add(a, b) | E::Mul(a, b) => a.constants() + b.constants(),
        }
    }
    /// The expression with constant number `which` increased by d.
    pub fn bump(&self, which: &mut usize, d: F) -> E {
        let mut go = |e: &E| Box::new(e.bump(which, d));
        match self {
            E::C(f) => {
                let hit = *which == 0;
                *which = which.wrapping_sub(1);
                E::C(if hit { *f + d } else { *f })
            }
            E::X | E::T(..) => self.clone(),
            E::Poly(p, e) => E::Poly(p.clone(), go(e)),
            E::Claim(i, n, e) => E::Claim(*i, *n, go(e)),
            E::Neg(e) => E::Neg(go(e)),
            E::Inv(e) => E::Inv(go(e)),
            E::Exp(e, n) => E::Exp(go(e), *n),
            E::Add(a, b) => {
                let a = go(a);
                E::Add(a, go(b))
            }
            E::Mul(a, b) => {
                let a = go(a);
                E::Mul(a, go(b))
            }
        }
    }
    pub fn trace_args(&self, s: &mut BTreeSet<(usize, isize)>) {
        match self {
            E::T(c, o) => {
                s.insert((*c, *o));
            }
            E::X | E::C(_) => {}
            E::Poly(_, e) | E::Claim(_, _, e) | E::Neg(e) | E::Inv(e) | E::Exp(e, _) => e.trace_args(s),
            E::Add(a, b) | E::Mul(a, b) => {
                a.trace_args(s);
                b.trace_args(s);
            }
        }
    }
}
pub fn pow_small(x: F, e: u64) -> F {
    let mut r = F::one();
    let bits = 64 - e.leading_zeros();
    for i in (0..bits).rev() {
        r = r * r;
        if e >> i & 1 == 1 {
            r = r * x;
        }
    }
    r
}

#[derive(Clone, Debug)]
pub struct Sys {
    pub n: usize,
    pub cols: usize,
    pub seed: Vec<u8>,
    pub exprs: Vec<E>,
    pub claims: Vec<Vec<F>>,
    pub blowup: usize,
    pub pow_bits: usize,
    pub queries: usize,
    pub fri: Vec<usize>,
    pub label: String,
}
impl Sys {
    pub fn degree(&self) -> usize {
        self.exprs
            .iter()
            .map(|e| {
                let (n, d) = e.degree(0, 1);
                n - d
            })
            .max()
            .unwrap()
    }
    pub fn eval_degree(&self) -> usize {
        self.degree().next_power_of_two()
    }
    pub fn trace_args(&self) -> Vec<(usize, isize)> {
        let mut s = BTreeSet::new();
        for e in &self.exprs {
            e.trace_args(&mut s);
        }
        s.into_iter().collect()
    }
    /// Exponents of X in the degree adjustment of each constraint.
    pub fn adjustments(&self) -> Vec<usize> {
        let target = self.degree() * self.n - 1;
        self.exprs
            .iter()
            .map(|e| {
                let (n, d) = e.degree(1, self.n - 1);
                assert!(target + d >= n, "constraint degree too high for the system: {}", self.label);
                target + d - n
            })
            .collect()
    }
    pub fn to_repo(&self) -> Constraints {
        self.to_repo_named(&|_, _, _| None)
    }
    pub fn to_repo_named(&self, name: &dyn Fn(usize, usize, &E) -> Option<&'static str>) -> Constraints {
        let exprs = self.exprs.iter().map(|e| e.to_repo_named(name)).collect();
        let mut c = Constraints::from_expressions((self.n, self.cols), self.seed.clone(), exprs).expect("constraints");
        c.blowup = self.blowup;
        c.pow_bits = self.pow_bits;
        c.num_queries = self.queries;
        c.fri_layout = self.fri.clone();
        if !self.claims.is_empty() {
            c.add_claim_polynomials(self.claims.iter().map(|p| dense(p)).collect());
        }
        c
    }
    /// Does the trace satisfy all constraints? Decided on coefficients, with no reference to any prover:
    /// the quotient must be a polynomial within the degree bound of its constraint.
    pub fn satisfied(&self, trace: &[Vec<F>]) -> bool {
        let d = self.eval_degree();
        let size = self.n * d * 2; // twice the target degree: room to see an overflow
        let polys: Vec<Vec<F>> = trace.iter().map(|c| interpolate_coset(c, F::one())).collect();
        let shift = F::from_u64(5);
        let xs = eval_coset(&[F::ZERO, F::one()], size, shift);
        let cols: Vec<Vec<F>> = polys.iter().map(|p| eval_coset(p, size, shift)).collect();
        let bound = self.degree() * self.n - 1;
        self.exprs.iter().all(|e| {
            let v = e.eval_all(&xs, &cols, size / self.n, &self.claims);
            interpolate_coset(&v, shift).iter().skip(bound + 1).all(F::is_zero)
        })
    }
}
pub fn table(trace: &[Vec<F>]) -> TraceTable {
    let mut t = TraceTable::new(trace[0].len(), trace.len());
    for (j, c) in trace.iter().enumerate() {
        for (i, v) in c.iter().enumerate() {
            t[(i, j)] = to_fe(v);
        }
    }
    t
}
