//! Component trees (C20) and the constraint checker (C22).
use super::*;
use crate::scen;
use std::sync::Arc;
use zkp_primefield::FieldElement;
use zkp_stark::component::{Component, Empty, Fold, Horizontal, PolynomialWriter, Test, Vertical};
use zkp_stark::{Constraints, Provable, RationalExpression, TraceTable, Verifiable};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C20",
            quick: 3600,
            thorough: 30000,
            run: c20,
            real: "zkp-stark components (Empty, Test, Fold, Horizontal, Vertical, Mapped), constraint checker, prover, verifier; rayon unmodified",
            stub: "the polynomial store behind the PolynomialWriter seam is the harness's own and loses, tears, misdirects or repeats writes on command; leaf components are generated; thread scheduling simulated",
            rule: "one evaluation is one simulated history of composing, tracing, proving and verifying one component tree, with sound and damaged stores, judged part by part; distinct = different interleaving hash",
        },
        Prop {
            id: "C22",
            quick: 4000,
            thorough: 60000,
            run: c22,
            real: "zkp-stark check_constraints, Provable::check, Provable::check_specified, RationalExpression::check",
            stub: "storage damage is applied to the trace; thread scheduling simulated",
            rule: "distinct_inputs: one evaluation is one simulated history of checking requests over sound and damaged traces, each compared with row-by-row evaluation by independent arithmetic; distinct_inputs = different (system, trace)",
        },
    ]
}

// ---------------------------------------------------------------- trees

#[derive(Clone, Debug)]
enum Spec {
    Leaf { n: usize, cols: usize, exprs: Vec<E>, fill: Vec<Fill>, claim: F, uses_claim: bool },
    Test { n: usize, cols: usize, seed: F, claim: F },
    Empty { n: usize, cols: usize },
    Fold(Box<Spec>, usize),
    Hor(Box<Spec>, Box<Spec>),
    Ver(Box<Spec>, usize),
}
#[derive(Clone, Debug)]
enum Fill {
    Free,
    Step(Option<F>, E),
    Back(Option<F>, E),
    Map(E),
}
enum W {
    Cells(F, Vec<Vec<F>>),
    Seq(FieldElement, FieldElement),
    Unit,
    Pair(Box<(W, W)>),
    Many(Vec<W>),
}
#[derive(Clone)]
enum Cl {
    Val(FieldElement),
    Unit,
    Pair(Box<(Cl, Cl)>),
    Many(Vec<Cl>),
}
impl Cl {
    fn pair(&self) -> &(Cl, Cl) {
        match self {
            Cl::Pair(p) => p,
            _ => panic!("harness: claim shape"),
        }
    }
    fn many(&self) -> &Vec<Cl> {
        match self {
            Cl::Many(p) => p,
            _ => panic!("harness: claim shape"),
        }
    }
}
impl W {
    fn pair(&self) -> &(W, W) {
        match self {
            W::Pair(p) => p,
            _ => panic!("harness: witness shape"),
        }
    }
    fn many(&self) -> &Vec<W> {
        match self {
            W::Many(p) => p,
            _ => panic!("harness: witness shape"),
        }
    }
}
/// Leaf component made of generated constraints.
#[derive(Clone)]
struct Part {
    n: usize,
    cols: usize,
    exprs: Vec<E>,
}
fn with_claim(e: &E, v: F) -> E {
    let go = |e: &E| Box::new(with_claim(e, v));
    match e {
        E::Claim(..) => E::C(v),
        E::X | E::C(_) | E::T(..) => e.clone(),
        E::Poly(p, e) => E::Poly(p.clone(), go(e)),
        E::Neg(e) => E::Neg(go(e)),
        E::Inv(e) => E::Inv(go(e)),
        E::Exp(e, n) => E::Exp(go(e), *n),
        E::Add(a, b) => E::Add(go(a), go(b)),
        E::Mul(a, b) => E::Mul(go(a), go(b)),
    }
}
enum Tree {
    Part(Part),
    Test(Test),
    Empty(Empty),
    Fold(Box<Fold<Tree>>),
    Hor(Box<Horizontal<Tree, Tree>>),
    Ver(Box<Vertical<Tree>>),
}
struct Dyn<'a>(&'a mut dyn PolynomialWriter);
impl PolynomialWriter for Dyn<'_> {
    fn num_polynomials(&self) -> usize {
        self.0.num_polynomials()
    }
    fn polynomial_size(&self) -> usize {
        self.0.polynomial_size()
    }
    fn write(&mut self, p: usize, l: usize, v: FieldElement) {
        self.0.write(p, l, v)
    }
}
impl Tree {
    fn trace_dyn(&self, trace: &mut dyn PolynomialWriter, w: &W) {
        let mut trace = Dyn(trace);
        match self {
            Tree::Part(_) => match w {
                W::Cells(_, cells) => {
                    for (j, c) in cells.iter().enumerate() {
                        for (i, v) in c.iter().enumerate() {
                            trace.write(j, i, to_fe(v));
                        }
                    }
                }
                _ => panic!("harness: witness shape"),
            },
            Tree::Test(t) => match w {
                W::Seq(a, b) => t.trace(&mut trace, &(a.clone(), b.clone())),
                _ => panic!("harness: witness shape"),
            },
            Tree::Empty(t) => t.trace(&mut trace, &()),
            Tree::Fold(t) => t.trace(&mut trace, w),
            Tree::Hor(t) => match w {
                W::Pair(p) => t.trace(&mut trace, p),
                _ => panic!("harness: witness shape"),
            },
            Tree::Ver(t) => t.trace(&mut trace, w.many()),
        }
    }
}
impl Component for Tree {
    type Claim = Cl;
    type Witness = W;
    fn claim(&self, w: &W) -> Cl {
        match self {
            Tree::Part(_) => match w {
                W::Cells(v, _) => Cl::Val(to_fe(v)),
                _ => panic!("harness: witness shape"),
            },
            Tree::Test(t) => match w {
                W::Seq(a, b) => Cl::Val(t.claim(&(a.clone(), b.clone()))),
                _ => panic!("harness: witness shape"),
            },
            Tree::Empty(_) => Cl::Unit,
            Tree::Fold(t) => t.claim(w),
            Tree::Hor(t) => Cl::Pair(Box::new(t.claim(w.pair()))),
            Tree::Ver(t) => Cl::Many(t.claim(w.many())),
        }
    }
    fn num_polynomials(&self) -> usize {
        match self {
            Tree::Part(p) => p.cols,
            Tree::Test(t) => t.num_polynomials(),
            Tree::Empty(t) => t.num_polynomials(),
            Tree::Fold(t) => t.num_polynomials(),
            Tree::Hor(t) => t.num_polynomials(),
            Tree::Ver(t) => t.num_polynomials(),
        }
    }
    fn polynomial_size(&self) -> usize {
        match self {
            Tree::Part(p) => p.n,
            Tree::Test(t) => t.polynomial_size(),
            Tree::Empty(t) => t.polynomial_size(),
            Tree::Fold(t) => t.polynomial_size(),
            Tree::Hor(t) => t.polynomial_size(),
            Tree::Ver(t) => t.polynomial_size(),
        }
    }
    fn constraints(&self, c: &Cl) -> Vec<RationalExpression> {
        match self {
            Tree::Part(p) => match c {
                Cl::Val(v) => p.exprs.iter().map(|e| with_claim(e, from_fe(v)).to_repo()).collect(),
                _ => panic!("harness: claim shape"),
            },
            Tree::Test(t) => match c {
                Cl::Val(v) => t.constraints(v),
                _ => panic!("harness: claim shape"),
            },
            Tree::Empty(t) => t.constraints(&()),
            Tree::Fold(t) => t.constraints(c),
            Tree::Hor(t) => t.constraints(c.pair()),
            Tree::Ver(t) => t.constraints(c.many()),
        }
    }
    fn trace<P: PolynomialWriter>(&self, trace: &mut P, w: &W) {
        self.trace_dyn(trace, w)
    }
}
fn bitrev(i: usize, k: usize) -> usize {
    (0..k).fold(0, |r, b| r | ((i >> b & 1) << (k - 1 - b)))
}
type Cells = Vec<Vec<Option<F>>>;
impl Spec {
    fn n(&self) -> usize {
        match self {
            Spec::Leaf { n, .. } | Spec::Test { n, .. } | Spec::Empty { n, .. } => *n,
            Spec::Fold(e, k) => e.n() << k,
            Spec::Hor(a, _) => a.n(),
            Spec::Ver(e, s) => e.n() * s,
        }
    }
    fn cols(&self) -> usize {
        match self {
            Spec::Leaf { cols, .. } | Spec::Test { cols, .. } | Spec::Empty { cols, .. } => *cols,
            Spec::Fold(e, k) => (e.cols() + (1 << k) - 1) >> k,
            Spec::Hor(a, b) => a.cols() + b.cols(),
            Spec::Ver(e, _) => e.cols(),
        }
    }
    fn constrained(&self) -> bool {
        match self {
            Spec::Leaf { exprs, .. } => !exprs.is_empty(),
            Spec::Test { n, cols, .. } => n * cols >= 1,
            Spec::Empty { .. } => false,
            Spec::Fold(e, _) | Spec::Ver(e, _) => e.constrained(),
            Spec::Hor(a, b) => a.constrained() || b.constrained(),
        }
    }
    fn uses_claim(&self) -> bool {
        match self {
            Spec::Leaf { uses_claim, .. } => *uses_claim,
            Spec::Test { n, cols, .. } => n * cols >= 3,
            Spec::Empty { .. } => false,
            Spec::Fold(e, _) | Spec::Ver(e, _) => e.uses_claim(),
            Spec::Hor(a, b) => a.uses_claim() || b.uses_claim(),
        }
    }
    fn name(&self) -> String {
        match self {
            Spec::Leaf { n, cols, .. } => format!("Part({}x{})", n, cols),
            Spec::Test { n, cols, .. } => format!("Test({}x{})", n, cols),
            Spec::Empty { n, cols } => format!("Empty({}x{})", n, cols),
            Spec::Fold(e, k) => format!("Fold({},{})", e.name(), k),
            Spec::Hor(a, b) => format!("Horizontal({},{})", a.name(), b.name()),
            Spec::Ver(e, s) => format!("Vertical({},{})", e.name(), s),
        }
    }
    fn build(&self) -> Tree {
        match self {
            Spec::Leaf { n, cols, exprs, .. } => Tree::Part(Part { n: *n, cols: *cols, exprs: exprs.clone() }),
            Spec::Test { n, cols, seed, .. } => Tree::Test(Test::new(*n, *cols, &to_fe(seed))),
            Spec::Empty { n, cols } => Tree::Empty(Empty::new(*cols, *n)),
            Spec::Fold(e, k) => Tree::Fold(Box::new(Fold::new(e.build(), *k))),
            Spec::Hor(a, b) => Tree::Hor(Box::new(Horizontal::new(a.build(), b.build()))),
            Spec::Ver(e, s) => Tree::Ver(Box::new(Vertical::new(e.build(), *s))),
        }
    }
    /// A witness and the cells it has to fill; None: never written.
    fn witness(&self, rng: &mut Rng) -> Option<(W, Cells)> {
        Some(match self {
            Spec::Leaf { n, cols, fill, claim, .. } => {
                let g = F::root(*n);
                let mut t = vec![vec![F::ZERO; *n]; *cols];
                let cl = [vec![*claim]];
                for (j, f) in fill.iter().enumerate() {
                    match f {
                        Fill::Free => t[j].iter_mut().for_each(|v| *v = rng.field()),
                        Fill::Step(s, e) => {
                            t[j][0] = s.unwrap_or_else(|| rng.field());
                            for i in 0..n - 1 {
                                let v = e.eval(g.pow(i as u64), &|c, o| t[c][(i as isize + o) as usize % n], &cl)?;
                                t[j][i + 1] = v;
                            }
                        }
                        Fill::Back(s, e) => {
                            t[j][0] = s.unwrap_or_else(|| rng.field());
                            for i in 1..*n {
                                let v = e.eval(g.pow(i as u64), &|c, o| t[c][(i as isize + o) as usize], &cl)?;
                                t[j][i] = v;
                            }
                        }
                        Fill::Map(e) => {
                            for i in 0..*n {
                                let v = e.eval(g.pow(i as u64), &|c, _| t[c][i], &cl)?;
                                t[j][i] = v;
                            }
                        }
                    }
                }
                let cells = t.iter().map(|c| c.iter().map(|v| Some(*v)).collect()).collect();
                (W::Cells(*claim, t), cells)
            }
            Spec::Test { n, cols, seed, claim } => {
                let w = rng.field();
                let mut a = *seed;
                let mut b = w;
                let mut cells = vec![vec![None; *n]; *cols];
                for i in 0..n * cols {
                    cells[i % cols][i / cols] = Some(a);
                    let c = a * b + *claim;
                    a = b;
                    b = c;
                }
                (W::Seq(to_fe(claim), to_fe(&w)), cells)
            }
            Spec::Empty { n, cols } => (W::Unit, vec![vec![None; *n]; *cols]),
            Spec::Fold(e, k) => {
                let (w, inner) = e.witness(rng)?;
                let mut cells = vec![vec![None; self.n()]; self.cols()];
                for (j, c) in inner.iter().enumerate() {
                    for (i, v) in c.iter().enumerate() {
                        cells[j >> k][(i << k) + bitrev(j & ((1 << k) - 1), *k)] = *v;
                    }
                }
                (w, cells)
            }
            Spec::Hor(a, b) => {
                let (wa, mut ca) = a.witness(rng)?;
                let (wb, cb) = b.witness(rng)?;
                ca.extend(cb);
                (W::Pair(Box::new((wa, wb))), ca)
            }
            Spec::Ver(e, s) => {
                let mut ws = vec![];
                let mut cells: Cells = vec![vec![]; self.cols()];
                for _ in 0..*s {
                    let (w, c) = e.witness(rng)?;
                    ws.push(w);
                    for (j, c) in c.into_iter().enumerate() {
                        cells[j].extend(c);
                    }
                }
                (W::Many(ws), cells)
            }
        })
    }
    fn claim(&self, d: F) -> Cl {
        match self {
            Spec::Leaf { claim, .. } | Spec::Test { claim, .. } => Cl::Val(to_fe(&(*claim + d))),
            Spec::Empty { .. } => Cl::Unit,
            Spec::Fold(e, _) => e.claim(d),
            Spec::Hor(a, b) => Cl::Pair(Box::new((a.claim(d), b.claim(d)))),
            Spec::Ver(e, s) => Cl::Many((0..*s).map(|_| e.claim(d)).collect()),
        }
    }
    /// Does every part hold on its own share of the table?
    fn judge(&self, t: &[Vec<F>]) -> bool {
        match self {
            Spec::Leaf { n, cols, exprs, claim, .. } => {
                let g = F::root(*n);
                let cl = [vec![*claim]];
                let _ = cols;
                exprs.iter().all(|e| rows_ok(e, *n, g, t, &cl).is_none())
            }
            Spec::Test { n, cols, seed, claim } => {
                let at = |i: usize| t[i % cols][i / cols];
                n * cols == 0 || at(0) == *seed && (2..n * cols).all(|i| at(i) == at(i - 2) * at(i - 1) + *claim)
            }
            Spec::Empty { .. } => true,
            Spec::Fold(e, k) => {
                let inner: Vec<Vec<F>> = (0..e.cols())
                    .map(|j| (0..e.n()).map(|i| t[j >> k][(i << k) + bitrev(j & ((1 << k) - 1), *k)]).collect())
                    .collect();
                e.judge(&inner)
            }
            Spec::Hor(a, b) => a.judge(&t[..a.cols()]) && b.judge(&t[a.cols()..]),
            Spec::Ver(e, s) => {
                let m = e.n();
                (0..*s).all(|i| e.judge(&t.iter().map(|c| c[i * m..(i + 1) * m].to_vec()).collect::<Vec<_>>()))
            }
        }
    }
}
/// First row where the numerator does not vanish although the denominator does.
fn rows_ok(e: &E, n: usize, g: F, t: &[Vec<F>], claims: &[Vec<F>]) -> Option<usize> {
    let mut x = F::one();
    for i in 0..n {
        let tr = |c: usize, o: isize| t[c][(i as isize + o).rem_euclid(n as isize) as usize];
        if bad_at(e, x, &tr, claims) {
            return Some(i);
        }
        x *= g;
    }
    None
}
fn bad_at(e: &E, x: F, tr: &dyn Fn(usize, isize) -> F, claims: &[Vec<F>]) -> bool {
    match e {
        E::Mul(num, inv) => match &**inv {
            E::Inv(den) => den.eval(x, tr, claims).unwrap().is_zero() && !num.eval(x, tr, claims).unwrap().is_zero(),
            _ => panic!("harness: not a fraction"),
        },
        _ => panic!("harness: not a fraction"),
    }
}

fn gen_leaf(rng: &mut Rng, n: usize) -> Spec {
    let g = F::root(n);
    match rng.below(8) {
        0 => Spec::Empty { n, cols: rng.below(4) },
        1 | 2 => Spec::Test { n, cols: rng.below(7), seed: rng.field(), claim: rng.field() },
        _ => {
            let cols = 1 + rng.below(5);
            let mut exprs = vec![];
            let mut fill = vec![];
            let mut uses_claim = false;
            for j in 0..cols {
                let kind = if n < 2 { [0, 3][rng.below(if j > 0 { 2 } else { 1 })] } else { rng.below(if j > 0 { 4 } else { 3 }) };
                let mut cands: Vec<(usize, isize)> = vec![];
                match kind {
                    1 => {
                        cands.push((j, 0));
                        (0..j).for_each(|c| cands.extend(&[(c, 0), (c, 1)]));
                    }
                    2 => {
                        cands.push((j, -1));
                        (0..j).for_each(|c| cands.extend(&[(c, 0), (c, -1)]));
                    }
                    _ => (0..j).for_each(|c| cands.push((c, 0))),
                }
                let mut f = E::C(rng.field());
                for _ in 0..1 + rng.below(2) {
                    let mut m = E::C(rng.field());
                    for _ in 0..1 + rng.below(3) {
                        if cands.is_empty() {
                            break;
                        }
                        let (c, o) = cands[rng.below(cands.len())];
                        m = mul(m, E::T(c, o));
                    }
                    if n >= 4 && rng.chance(1, 4) {
                        let lp = 1 + rng.below(n.trailing_zeros() as usize - 1);
                        let p: Vec<F> = (0..1usize << lp).map(|_| rng.field()).collect();
                        m = mul(m, E::Poly(p, Box::new(exp(E::X, n >> lp))));
                    }
                    f = add(f, m);
                }
                if kind != 0 && rng.chance(1, 2) {
                    f = add(f, E::Claim(0, 0, Box::new(E::X)));
                    uses_claim = true;
                }
                let start = if rng.chance(1, 2) { Some(rng.field()) } else { None };
                let all = |e: E, excl: Option<usize>| {
                    let e = match excl {
                        Some(r) => mul(e, sub(E::X, E::C(g.pow(r as u64)))),
                        None => e,
                    };
                    div(e, sub(exp(E::X, n), E::C(F::one())))
                };
                match kind {
                    0 => fill.push(Fill::Free),
                    1 => {
                        exprs.push(all(sub(E::T(j, 1), f.clone()), Some(n - 1)));
                        fill.push(Fill::Step(start, f));
                    }
                    2 => {
                        exprs.push(all(sub(E::T(j, 0), f.clone()), Some(0)));
                        fill.push(Fill::Back(start, f));
                    }
                    _ => {
                        exprs.push(all(sub(E::T(j, 0), f.clone()), None));
                        fill.push(Fill::Map(f));
                    }
                }
                if let (1 | 2, Some(s)) = (kind, start) {
                    exprs.push(div(sub(E::T(j, 0), E::C(s)), sub(E::X, E::C(F::one()))));
                }
            }
            Spec::Leaf { n, cols, exprs, fill, claim: rng.field(), uses_claim }
        }
    }
}
fn gen_spec(rng: &mut Rng, n: usize, depth: usize) -> Spec {
    let log = n.trailing_zeros() as usize;
    if depth == 0 || rng.chance(1, 8) {
        return gen_leaf(rng, n);
    }
    match rng.below(3) {
        0 => {
            let left = gen_spec(rng, n, depth - 1);
            // parts may be alike, claim included
            let right = if rng.chance(1, 4) { left.clone() } else { gen_spec(rng, n, depth - 1) };
            Spec::Hor(Box::new(left), Box::new(right))
        }
        1 => {
            let k = rng.below(log.min(3) + 1);
            Spec::Fold(Box::new(gen_spec(rng, n >> k, depth - 1)), k)
        }
        _ => {
            let k = rng.below(log.min(3) + 1);
            Spec::Ver(Box::new(gen_spec(rng, n >> k, depth - 1)), 1 << k)
        }
    }
}

/// Polynomial store with faults: write number -> what happens to it.
struct Store {
    t: Vec<Vec<F>>,
    hits: Vec<Vec<u32>>,
    n: usize,
    at: usize,
    stray: bool,
    faults: Vec<(usize, String, usize, usize)>,
}
impl PolynomialWriter for Store {
    fn num_polynomials(&self) -> usize {
        self.t.len()
    }
    fn polynomial_size(&self) -> usize {
        self.n
    }
    fn write(&mut self, p: usize, l: usize, v: FieldElement) {
        let at = self.at;
        self.at += 1;
        if p >= self.t.len() || l >= self.n {
            self.stray = true;
            return;
        }
        self.hits[p][l] += 1;
        let v = from_fe(&v);
        let f = self.faults.iter().find(|f| f.0 == at).cloned();
        match f {
            None => self.t[p][l] = v,
            Some((_, k, a, b)) => match k.as_str() {
                "write lost" => {}
                "write torn" => {
                    let mut w = v.0;
                    w[a % 4] = 0;
                    w[3] &= 0x07ff_ffff_ffff_ffff;
                    self.t[p][l] = F(w);
                }
                "write misdirected" => {
                    let (c, n) = (self.t.len(), self.n);
                    self.t[a % c][b % n] = v
                }
                "write stale" => {
                    let o = self.t[a % self.t.len()][b % self.n];
                    self.t[p][l] = o;
                }
                _ => self.t[p][l] = v,
            },
        }
    }
}
fn system(tree: &Tree, claim: &Cl, fast: bool) -> Constraints {
    let mut c = Constraints::from_expressions((tree.polynomial_size(), tree.num_polynomials()), vec![], tree.constraints(claim)).expect("constraints");
    if fast {
        c.num_queries = 8;
    }
    c
}

fn c20(ctx: &mut Ctx) {
    let mut rng = ctx.rng.clone();
    let (spec, cells, wseed) = loop {
        let log = 1 + rng.below(6);
        let depth = 1 + rng.below(4);
        let s = gen_spec(&mut rng, 1 << log, depth);
        if s.cols() == 0 || s.cols() > 10 {
            continue;
        }
        let ws = rng.next();
        if let Some((_, c)) = s.witness(&mut Rng::new(ws)) {
            break (s, c, ws);
        }
    };
    let flat: Vec<Vec<F>> = cells.iter().map(|c| c.iter().map(|v| v.unwrap_or(F::ZERO)).collect()).collect();
    assert!(spec.judge(&flat), "harness: own witness is not valid: {}", spec.name());
    let writes: usize = cells.iter().map(|c| c.iter().filter(|v| v.is_some()).count()).sum();
    ctx.input(hash_of(format!("{:?}", spec).as_bytes()));
    ctx.count(&format!("trees with {} columns", spec.cols()), 1);
    // fault plans for the store
    let mut faults = vec![];
    for k in 0..3 {
        if writes == 0 {
            break;
        }
        for _ in 0..1 + rng.below(5) / 4 {
            let kind = ["write lost", "write torn", "write misdirected", "write stale"][rng.below(4)];
            let at = match rng.below(4) {
                0 => writes - 1,
                1 => 0,
                _ => rng.below(writes),
            };
            faults.push(json!({"k": kind, "plan": k, "at": at, "a": rng.below(64), "b": rng.below(4096)}));
        }
    }
    let workers = pool_size(&mut rng);
    let sched = Sched::random(&mut rng);
    let run = ctx.sim("component tree", &sched, &faults, &mut |faults| {
        rt::global_pool(workers);
        let tree = spec.build();
        let (w, _) = spec.witness(&mut Rng::new(wseed)).unwrap();
        let shape = json!([tree.num_polynomials(), tree.polynomial_size()]);
        if shape != json!([spec.cols(), spec.n()]) {
            return json!({"bad": "the combination has the wrong shape", "detail": shape});
        }
        let claim = tree.claim(&w);
        // 1. the honest table
        let table = tree.trace_table(&w);
        for j in 0..spec.cols() {
            for i in 0..spec.n() {
                if from_fe(&table[(i, j)]) != flat[j][i] {
                    return json!({"bad": "the combined trace is not the combination of the parts", "detail": [i, j]});
                }
            }
        }
        let mut store = Store { t: vec![vec![F::ZERO; spec.n()]; spec.cols()], hits: vec![vec![0; spec.n()]; spec.cols()], n: spec.n(), at: 0, stray: false, faults: vec![] };
        tree.trace(&mut store, &w);
        if store.stray {
            return json!({"bad": "a part wrote outside the table", "detail": 0});
        }
        for j in 0..spec.cols() {
            for i in 0..spec.n() {
                if store.hits[j][i] != cells[j][i].is_some() as u32 {
                    return json!({"bad": "a cell was not written exactly once", "detail": [i, j, store.hits[j][i]]});
                }
            }
        }
        if let Err(e) = tree.check(&w) {
            return json!({"bad": "the checker refuses an honest combination", "detail": [e.0, e.1]});
        }
        if !spec.constrained() {
            return json!({ "proved": 0, "damaged": [] });
        }
        // 2. prove and verify
        let proof = match tree.prove(&w) {
            Ok(p) => p,
            Err(e) => return json!({"bad": "an honest combination is not provable", "detail": format!("{:?}", e)}),
        };
        let verifier = spec.build();
        if let Err(e) = verifier.verify(&claim, &proof) {
            return json!({"bad": "the proof of an honest combination is rejected", "detail": format!("{:?}", e)});
        }
        if let Err(e) = verifier.verify(&spec.claim(F::ZERO), &proof) {
            return json!({"bad": "the claim of the combination is not the combination of the claims", "detail": format!("{:?}", e)});
        }
        if spec.uses_claim() && verifier.verify(&spec.claim(F::one()), &proof).is_ok() {
            return json!({"bad": "the proof is accepted for another claim", "detail": 0});
        }
        // 3. damaged stores
        let mut damaged = vec![];
        for k in 0..3 {
            let plan: Vec<_> = faults
                .iter()
                .filter(|f| f["plan"] == k)
                .map(|f| (f["at"].as_u64().unwrap() as usize, f["k"].as_str().unwrap().to_string(), f["a"].as_u64().unwrap() as usize, f["b"].as_u64().unwrap() as usize))
                .collect();
            if plan.is_empty() {
                continue;
            }
            store.t = vec![vec![F::ZERO; spec.n()]; spec.cols()];
            store.at = 0;
            store.faults = plan;
            tree.trace(&mut store, &w);
            let good = spec.judge(&store.t);
            let c = system(&tree, &claim, true);
            let t: TraceTable = crate::expr::table(&store.t);
            let checked = zkp_stark::check_constraints(&c, &t).is_ok();
            let proved = catch_unwind(AssertUnwindSafe(|| zkp_stark::prove(&c, &t).is_ok())).unwrap_or(false);
            damaged.push(json!([good, checked, proved]));
            if checked != good || proved != good {
                return json!({"bad": "damage is misjudged", "detail": {"satisfied": good, "checker": checked, "prover": proved}});
            }
        }
        json!({"proved": 1, "damaged": damaged})
    });
    ctx.count(&format!("{} workers", workers), 1);
    if !ctx.ended(&run) {
        return;
    }
    if let Some(b) = run.out["bad"].as_str() {
        let b = b.to_string();
        ctx.fail(&b, format!("{} with {} workers: {}", spec.name(), workers, run.out["detail"]));
        return;
    }
    if run.out["panic"].is_string() {
        ctx.fail("crash", format!("{}: {}", spec.name(), run.out["panic"]));
        return;
    }
    for d in run.out["damaged"].as_array().cloned().unwrap_or_default() {
        ctx.count(if d[0] == true { "damage without effect on the claim" } else { "damage that breaks the claim" }, 1);
    }
    ctx.sample(format!("{} workers={} {}", spec.name(), workers, sched.name()));
}

// ---------------------------------------------------------------- checker

struct Job {
    sys: Sys,
    trace: Vec<Vec<F>>,
}
impl Verifiable for Job {
    fn constraints(&self) -> Constraints {
        let mut c = self.sys.to_repo();
        c.substitute();
        c
    }
}
impl Provable<&[Vec<F>]> for Job {
    fn trace(&self, t: &[Vec<F>]) -> TraceTable {
        crate::expr::table(t)
    }
}

fn c22(ctx: &mut Ctx) {
    let mut rng = ctx.rng.clone();
    let cl = [Class::Tiny, Class::Tiny, Class::Small, Class::Small, Class::Medium][rng.below(5)];
    let (sys, trace) = scen::gen(&mut rng, cl);
    let mut jobs = vec![];
    let mut expect = vec![];
    for k in 0..6 {
        let (mut s, mut t) = (sys.clone(), trace.clone());
        let mut what = "intact";
        if k > 0 {
            what = faults::corrupt(&mut rng, &mut s, &mut t);
            ctx.fault(what, 1);
        }
        let g = F::root(s.n);
        let mut first: Option<(usize, usize)> = None;
        let mut bad = vec![vec![false; s.exprs.len()]; s.n];
        let mut x = F::one();
        for i in 0..s.n {
            let tr = |c: usize, o: isize| t[c][(i as isize + o).rem_euclid(s.n as isize) as usize];
            for (w, e) in s.exprs.iter().enumerate() {
                if bad_at(e, x, &tr, &s.claims) {
                    bad[i][w] = true;
                    if first.is_none() {
                        first = Some((i, w));
                    }
                }
            }
            x *= g;
        }
        // rows and constraints to ask about one by one
        let mut asks: Vec<(usize, usize)> = (0..12).map(|_| (rng.below(s.n), rng.below(s.exprs.len()))).collect();
        let all_bad: Vec<(usize, usize)> = (0..s.n).flat_map(|i| (0..s.exprs.len()).map(move |w| (i, w))).filter(|(i, w)| bad[*i][*w]).collect();
        for _ in 0..6.min(all_bad.len()) {
            let (i, w) = all_bad[rng.below(all_bad.len())];
            asks.extend(&[(i, w), ((i + 1) % s.n, w), ((i + s.n - 1) % s.n, w)]);
        }
        let ans: Vec<bool> = asks.iter().map(|(i, w)| bad[*i][*w]).collect();
        ctx.input(sys_hash(&s) ^ hash_of(format!("{:?}", t).as_bytes()));
        ctx.count(if first.is_some() { "violated traces" } else { "satisfied traces" }, 1);
        expect.push((first, what, asks, ans));
        jobs.push(Job { sys: s, trace: t });
    }
    let jobs = Arc::new(jobs);
    let asks: Arc<Vec<Vec<(usize, usize)>>> = Arc::new(expect.iter().map(|e| e.2.clone()).collect());
    let threads = 1 + rng.below(3);
    let sched = Sched::random(&mut rng);
    let workers = pool_size(&mut rng);
    let run = ctx.sim("checking requests", &sched, &[], &mut |_| {
        rt::global_pool(workers);
        let hs: Vec<_> = (0..threads)
            .map(|k| {
                let (jobs, asks) = (jobs.clone(), asks.clone());
                rt::spawn(move || {
                    let mut out = vec![];
                    for i in 0..jobs.len() {
                        if i % threads != k {
                            continue;
                        }
                        let j = &jobs[i];
                        let r = catch_unwind(AssertUnwindSafe(|| {
                            let a = j.check(&j.trace);
                            let b = zkp_stark::check_constraints(&j.constraints(), &crate::expr::table(&j.trace));
                            let c: Vec<bool> = asks[i].iter().map(|(r, w)| j.check_specified(&j.trace, *r, *w).is_err()).collect();
                            (a, b, c)
                        }));
                        out.push(match r {
                            Ok((a, b, c)) => json!([i, a.err().map(|e| vec![e.0, e.1]), b.err().map(|e| vec![e.0, e.1]), c]),
                            Err(e) => json!([i, rt::panic_text(&e)]),
                        });
                    }
                    out
                })
            })
            .collect();
        json!(hs.into_iter().flat_map(|h| h.join().unwrap_or_default()).collect::<Vec<_>>())
    });
    if !ctx.ended(&run) {
        return;
    }
    let mut seen = 0;
    for v in run.out.as_array().cloned().unwrap_or_default() {
        seen += 1;
        let i = v[0].as_u64().unwrap() as usize;
        let (first, what, asks, ans) = &expect[i];
        let d = describe(&jobs[i].sys);
        if v[1].is_string() {
            ctx.fail("the checker crashed", format!("{} ({}): {}", d, what, v[1]));
            return;
        }
        let f = json!(first.map(|e| vec![e.0, e.1]));
        if v[1] != f || v[2] != f {
            let sig = if first.is_none() { "the checker refuses a satisfied trace" } else if v[1].is_null() || v[2].is_null() { "the checker passes a violated trace" } else { "the checker names the wrong place" };
            ctx.fail(sig, format!("{} ({}): answers {} and {}, first violation at {}", d, what, v[1], v[2], f));
            return;
        }
        for (k, a) in asks.iter().enumerate() {
            if v[3][k] != ans[k] {
                ctx.fail("a single constraint is misjudged", format!("{} ({}): row {} constraint {} violated: {}, answer {}", d, what, a.0, a.1, ans[k], v[3][k]));
                return;
            }
        }
        ctx.count("single questions", asks.len() as u64);
    }
    if seen != jobs.len() {
        ctx.fail("a checking thread died", format!("{} of {} answers", seen, jobs.len()));
        return;
    }
    ctx.sample(format!("{} on {} threads", describe(&sys), threads));
}
