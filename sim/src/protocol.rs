//! The documented protocol, implemented independently and sequentially: transcript, Merkle tree, proof of
//! work, prover (honest and Byzantine) and verifier. Used as oracle and as the Byzantine node.
use crate::expr::*;
use crate::field::*;
use std::collections::{BTreeMap, VecDeque};
use tiny_keccak::{Hasher, Keccak};

pub type H = [u8; 32];
pub fn keccak(parts: &[&[u8]]) -> H {
    let mut k = Keccak::v256();
    for p in parts {
        k.update(p);
    }
    let mut h = [0; 32];
    k.finalize(&mut h);
    h
}
pub fn masked(parts: &[&[u8]]) -> H {
    let mut h = keccak(parts);
    for b in h[20..].iter_mut() {
        *b = 0;
    }
    h
}
/// Hash of a leaf made of field elements: the element itself if there is one, else the hash of all of them.
pub fn leaf_hash(v: &[F]) -> H {
    if v.len() == 1 {
        return v[0].to_bytes();
    }
    let mut b = Vec::with_capacity(32 * v.len());
    for x in v {
        b.extend_from_slice(&x.to_bytes());
    }
    masked(&[&b])
}
pub fn node(a: &H, b: &H) -> H {
    masked(&[a, b])
}

/// Textbook Merkle tree: level 0 is the root.
#[derive(Clone)]
pub struct Merkle {
    pub levels: Vec<Vec<H>>,
}
impl Merkle {
    pub fn new(leaves: Vec<H>) -> Merkle {
        let mut levels = vec![leaves];
        while levels[0].len() > 1 {
            let l = levels[0].chunks(2).map(|p| node(&p[0], &p[1])).collect();
            levels.insert(0, l);
        }
        Merkle { levels }
    }
    pub fn root(&self) -> H {
        self.levels[0][0]
    }
    /// Positions of the authentication hashes for a set of leaves, in the order the proof lists them:
    /// level by level from the leaves up, left to right, skipping what is known.
    pub fn path_positions(depth: usize, indices: &[usize]) -> Vec<(usize, usize)> {
        let mut known: Vec<usize> = indices.to_vec();
        known.sort_unstable();
        known.dedup();
        let mut out = vec![];
        for level in (1..=depth).rev() {
            let mut parents: Vec<usize> = vec![];
            for &i in &known {
                if known.binary_search(&(i ^ 1)).is_err() {
                    out.push((level, i ^ 1));
                }
                if parents.last() != Some(&(i / 2)) {
                    parents.push(i / 2);
                }
            }
            known = parents;
        }
        out
    }
    pub fn open(&self, indices: &[usize]) -> Vec<H> {
        Merkle::path_positions(self.levels.len() - 1, indices).into_iter().map(|(l, i)| self.levels[l][i]).collect()
    }
}
/// Root implied by leaves and authentication hashes, or None when the number of hashes is wrong or leaves conflict.
pub fn implied_root(depth: usize, leaves: &[(usize, H)], hashes: &[H]) -> Option<H> {
    let mut known: BTreeMap<usize, H> = BTreeMap::new();
    for (i, h) in leaves {
        if *i >> depth != 0 {
            return None;
        }
        if let Some(o) = known.insert(*i, *h) {
            if o != *h {
                return None;
            }
        }
    }
    if known.is_empty() {
        return None;
    }
    let mut it: VecDeque<H> = hashes.iter().cloned().collect();
    for _ in 0..depth {
        let mut up = BTreeMap::new();
        let keys: Vec<usize> = known.keys().cloned().collect();
        for i in keys {
            if up.contains_key(&(i / 2)) {
                continue;
            }
            let s = match known.get(&(i ^ 1)) {
                Some(s) => *s,
                None => it.pop_front()?,
            };
            let h = known[&i];
            up.insert(i / 2, if i % 2 == 0 { node(&h, &s) } else { node(&s, &h) });
        }
        known = up;
    }
    if !it.is_empty() {
        return None;
    }
    Some(known[&0])
}

#[derive(Clone)]
pub struct Coin {
    pub digest: H,
    counter: u64,
}
impl Coin {
    pub fn new(seed: &[u8]) -> Coin {
        Coin { digest: keccak(&[seed]), counter: 0 }
    }
    pub fn absorb(&mut self, b: &[u8]) {
        self.digest = keccak(&[&self.digest, b]);
        self.counter = 0;
    }
    pub fn bytes(&mut self) -> H {
        let h = keccak(&[&self.digest, &[0; 24], &self.counter.to_be_bytes()]);
        self.counter += 1;
        h
    }
    pub fn field(&mut self) -> F {
        loop {
            let mut b = self.bytes();
            b[0] &= 0x0f;
            if let Some(f) = F::from_bytes(&b) {
                return f;
            }
        }
    }
    pub fn fields(&mut self, n: usize) -> Vec<F> {
        (0..n).map(|_| self.field()).collect()
    }
    pub fn queries(&mut self, num: usize, domain: usize) -> Vec<usize> {
        let mut q = vec![];
        while q.len() < num {
            let b = self.bytes();
            for k in 0..4 {
                let mut x = [0; 8];
                x.copy_from_slice(&b[8 * k..8 * k + 8]);
                q.push((u64::from_be_bytes(x) as usize) & (domain - 1));
            }
        }
        q.truncate(num);
        q.sort_unstable();
        q
    }
}
pub fn pow_seed(digest: &H, bits: usize) -> H {
    keccak(&[&[0x01, 0x23, 0x45, 0x67, 0x89, 0xab, 0xcd, 0xed], digest, &[bits as u8]])
}
pub fn pow_ok(seed: &H, bits: usize, nonce: u64) -> bool {
    let h = keccak(&[seed, &nonce.to_be_bytes()]);
    let mut z = 0;
    for b in h.iter() {
        z += b.leading_zeros() as usize;
        if *b != 0 {
            break;
        }
    }
    z >= bits
}

/// One way of cheating. Positions and choices come from `Cheat::rng`.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Dev {
    Honest,
    /// one committed trace LDE leaf is wrong (all later layers consistent with it)
    LdePoint,
    /// one committed constraint LDE leaf is wrong
    ConstraintPoint,
    /// one entry of the first FRI layer is wrong (later layers consistent with it)
    FriPoint(usize),
    /// out of domain trace value is false, constraint value re-solved so that the OODS equation holds
    OodsTrace,
    /// out of domain constraint values false, OODS equation still holds
    OodsConstraint,
    /// out of domain values false, nothing compensated
    OodsRaw,
    /// FRI run on an unrelated low degree polynomial
    FriForeign,
    /// layer k >= 1 replaced by the evaluations of an unrelated low degree polynomial
    FriLayerForeign(usize),
    /// last layer polynomial wrong in one coefficient
    LastLayer,
    /// work nonce does not meet the difficulty
    BadNonce,
    /// the best nonce that misses the difficulty by exactly one bit
    NearNonce,
    /// the work of a much lower difficulty; the only way to offer a proof where the difficulty is out of reach
    WeakWork,
    /// valid but not minimal nonce (allowed by the verification rules)
    OtherNonce,
    /// query positions chosen by the prover
    ChosenQueries,
    /// trace values at the queries solved after the fact so that everything but the trace commitment fits
    FreeTraceOpenings,
    /// same with the constraint values
    FreeConstraintOpenings,
    /// siblings in FRI layer k solved after the fact so that everything but that layer's commitment fits
    FreeFriOpenings(usize),
    /// repeated queries answered differently the second time
    ConflictingDuplicates,
    /// challenges drawn before the commitment they should depend on
    EarlyCoefficients,
    EarlyOodsPoint,
    EarlyOodsCoefficients,
    EarlyFriPoint(usize),
    EarlyQueries,
    EarlyPow,
    /// one opened trace value changed
    TraceValue,
    ConstraintValue,
    FriValue(usize),
    /// change trace and constraint value at one query so that their combination is unchanged
    PairedOpenings,
    /// an authentication hash changed
    TraceHash,
    ConstraintHash,
    FriHash(usize),
    /// non canonical encodings of field elements
    NonCanonicalOods,
    NonCanonicalOpening,
    NonCanonicalLast,
    /// trace of a false statement, everything else by the rules
    FalseTrace,
    /// false trace, and the first constraint value re-solved at the out-of-domain point
    FalseTraceSolved,
    /// constraint polynomials of too high degree
    HighDegreeConstraint,
    /// trace column of too high degree
    HighDegreeTrace,
    /// commit to the constraint columns in another order
    SwapConstraintColumns,
    SwapTraceColumns,
    /// negated values
    NegatedOods,
    /// extra data at the end / missing data
    Trailing,
    Truncated,
    // the following only make sense where the parts of a proof come as arrays of any length (on chain)
    /// trace of a false statement and one more out-of-domain constraint value, solved so that the equation holds
    ExtraOods,
    /// trace of a false statement, solved out of domain, and a last layer polynomial of as high a degree as it takes
    LongLast,
    /// a column committed one too small, its openings given as one more than it takes and above the modulus
    ShiftedTrace,
    ShiftedConstraint,
}

pub struct Cheat {
    pub dev: Dev,
    pub rng: Rng,
}
impl Cheat {
    pub fn honest() -> Cheat {
        Cheat { dev: Dev::Honest, rng: Rng::new(0) }
    }
}
fn nonzero(r: &mut Rng) -> F {
    loop {
        let f = r.field();
        if !f.is_zero() {
            return f;
        }
    }
}

/// Where things are in a proof: (name, offset, length).
pub type Map = Vec<(String, usize, usize)>;

pub struct Out {
    pub bytes: Vec<u8>,
    pub map: Map,
    pub nonce: u64,
    pub queries: Vec<usize>,
    /// the cheat actually changed something
    pub fired: bool,
}

struct W {
    coin: Coin,
    b: Vec<u8>,
    map: Map,
}
impl W {
    fn put(&mut self, name: &str, d: &[u8]) {
        self.map.push((name.into(), self.b.len(), d.len()));
        self.b.extend_from_slice(d);
        self.coin.absorb(d);
    }
}
/// An encoding of the same residue that is not the canonical one.
fn noncanon(f: F) -> [u8; 32] {
    let mut l = [0u64; 4];
    let mut c = 0u128;
    for i in 0..4 {
        c += f.0[i] as u128 + P[i] as u128;
        l[i] = c as u64;
        c >>= 64;
    }
    F(l).to_bytes()
}

pub fn fold_once(a: F, b: F, x_inv: F, e: F) -> F {
    (a + b) + e * x_inv * (a - b)
}
/// One committed FRI step: fold `red` times. `layer` in bit reversed order over the group of its size.
pub fn fold_layer(layer: &[F], red: usize, e: F) -> Vec<F> {
    let mut v = layer.to_vec();
    let mut e = e;
    for _ in 0..red {
        let n = v.len();
        let wi = F::root(n).inv();
        let mut pw = Vec::with_capacity(n / 2);
        let mut x = F::one();
        for _ in 0..n / 2 {
            pw.push(x);
            x *= wi;
        }
        v = (0..n / 2).map(|i| fold_once(v[2 * i], v[2 * i + 1], pw[bitrev(n / 2, i)], e)).collect();
        e = e * e;
    }
    v
}

pub fn prove(sys: &Sys, trace_in: &[Vec<F>], cheat: &mut Cheat) -> Out {
    use Dev::*;
    let dev = cheat.dev;
    let rng = &mut cheat.rng;
    let mut fired = false;
    let (n, cols) = (sys.n, sys.cols);
    let dom = n * sys.blowup;
    let g3 = F::from_u64(3);
    let mut trace: Vec<Vec<F>> = trace_in.to_vec();
    if matches!(dev, FalseTrace | FalseTraceSolved | ExtraOods | LongLast) {
        for _ in 0..200 {
            let (c, r) = (rng.below(cols), rng.below(n));
            let d = nonzero(rng);
            trace[c][r] += d;
            if !sys.satisfied(&trace) {
                fired = true;
                break;
            }
        }
    }
    let mut w = W { coin: Coin::new(&sys.seed), b: vec![], map: vec![] };

    // 1. trace
    let mut tpoly: Vec<Vec<F>> = trace.iter().map(|c| interpolate_coset(c, F::one())).collect();
    if dev == HighDegreeTrace {
        let c = rng.below(cols);
        let extra = 1 + rng.below(n);
        // add multiples of X^n - 1: same values on the trace domain, degree too high
        let mut p = tpoly[c].clone();
        p.resize(n + extra, F::ZERO);
        for i in 0..extra {
            let k = nonzero(rng);
            p[n + i] += k;
            p[i] = p[i] - k;
        }
        tpoly[c] = p;
        fired = true;
    }
    let true_poly = tpoly.clone();
    let shifted = match dev {
        ShiftedTrace => sys.trace_args()[rng.below(sys.trace_args().len())].0,
        ShiftedConstraint => rng.below(sys.eval_degree()),
        _ => usize::MAX,
    };
    if dev == ShiftedTrace {
        tpoly[shifted][0] = tpoly[shifted][0] - F::one();
        fired = true;
    }
    let mut lde: Vec<Vec<F>> = tpoly.iter().map(|p| permute(&eval_coset(p, dom, g3))).collect();
    if dev == LdePoint {
        let i = rng.below(dom);
        let c = rng.below(cols);
        let d = nonzero(rng);
        lde[c][i] += d;
        fired = true;
    }
    if dev == SwapTraceColumns && cols > 1 {
        let a = rng.below(cols);
        let b = (a + 1 + rng.below(cols - 1)) % cols;
        fired = lde[a] != lde[b];
        lde.swap(a, b);
    }
    let row = |v: &Vec<Vec<F>>, i: usize| -> Vec<F> { v.iter().map(|c| c[i]).collect() };
    let ttree = Merkle::new((0..dom).map(|i| leaf_hash(&row(&lde, i))).collect());
    let mut early = w.coin.clone();
    w.put("trace_root", &ttree.root());

    // 2. constraints
    let m = sys.exprs.len();
    let coefs = if dev == EarlyCoefficients {
        fired = true;
        let r = early.fields(2 * m);
        let _ = w.coin.fields(2 * m);
        r
    } else {
        w.coin.fields(2 * m)
    };
    let adj = sys.adjustments();
    let ed = sys.eval_degree();
    let cs = n * ed;
    let xs = eval_coset(&[F::ZERO, F::one()], cs, g3);
    let tcos: Vec<Vec<F>> = true_poly.iter().map(|p| eval_coset(p, cs, g3)).collect();
    let mut cvals = vec![F::ZERO; cs];
    for (k, e) in sys.exprs.iter().enumerate() {
        let v = e.eval_all(&xs, &tcos, ed, &sys.claims);
        let (lo, hi) = (coefs[2 * k], coefs[2 * k + 1]);
        for i in 0..cs {
            cvals[i] += (lo + hi * pow_small(xs[i], adj[k] as u64)) * v[i];
        }
    }
    let cpoly = interpolate_coset(&cvals, g3);
    let mut apoly: Vec<Vec<F>> = (0..ed).map(|j| (0..n).map(|i| cpoly[i * ed + j]).collect()).collect();
    if dev == HighDegreeConstraint {
        let j = rng.below(ed);
        let extra = 1 + rng.below(n);
        for _ in 0..extra {
            let k = nonzero(rng);
            apoly[j].push(k);
        }
        fired = true;
    }
    if dev == ShiftedConstraint {
        apoly[shifted][0] = apoly[shifted][0] - F::one();
        fired = true;
    }
    let mut clde: Vec<Vec<F>> = apoly.iter().map(|p| permute(&eval_coset(p, dom, g3))).collect();
    if dev == ConstraintPoint {
        let i = rng.below(dom);
        let j = rng.below(ed);
        let d = nonzero(rng);
        clde[j][i] += d;
        fired = true;
    }
    if dev == SwapConstraintColumns && ed > 1 {
        let a = rng.below(ed);
        let b = (a + 1 + rng.below(ed - 1)) % ed;
        fired = clde[a] != clde[b];
        clde.swap(a, b);
    }
    let ctree = Merkle::new((0..dom).map(|i| leaf_hash(&row(&clde, i))).collect());
    let mut early = w.coin.clone();
    w.put("constraint_root", &ctree.root());

    // 3. out of domain
    let z = if dev == EarlyOodsPoint {
        fired = true;
        let r = early.field();
        let _ = w.coin.field();
        r
    } else {
        w.coin.field()
    };
    let g = F::root(n);
    let args = sys.trace_args();
    let off = |o: isize| g.pow(o.rem_euclid(n as isize) as u64);
    let zs: Vec<F> = args.iter().map(|(_, o)| z * off(*o)).collect();
    let zd = z.pow(ed as u64);
    let mut tv: Vec<F> = args.iter().zip(&zs).map(|((c, _), zz)| eval_poly(&tpoly[*c], *zz)).collect();
    let mut av: Vec<F> = apoly.iter().map(|p| eval_poly(p, zd)).collect();
    let oods_c = |tv: &Vec<F>| -> Option<F> {
        let tr = |c: usize, o: isize| tv[args.iter().position(|a| *a == (c, o)).unwrap()];
        let mut s = F::ZERO;
        for (k, e) in sys.exprs.iter().enumerate() {
            s += (coefs[2 * k] + coefs[2 * k + 1] * z.pow(adj[k] as u64)) * e.eval(z, &tr, &sys.claims)?;
        }
        Some(s)
    };
    let solve_first = |av: &mut Vec<F>, c: F| {
        let mut s = F::ZERO;
        let mut p = z;
        for a in av.iter().skip(1) {
            s += *a * p;
            p *= z;
        }
        av[0] = c - s;
    };
    match dev {
        OodsTrace | FreeTraceOpenings => {
            let k = rng.below(tv.len());
            tv[k] += nonzero(rng);
            if let Some(c) = oods_c(&tv) {
                solve_first(&mut av, c);
                fired = true;
            }
        }
        ExtraOods => {
            if let Some(c) = oods_c(&tv) {
                let mut s = F::ZERO;
                let mut p = F::one();
                for a in av.iter() {
                    s += *a * p;
                    p *= z;
                }
                av.push((c - s) * p.inv());
            }
        }
        FalseTraceSolved | LongLast => {
            if let Some(c) = oods_c(&tv) {
                solve_first(&mut av, c);
            }
        }
        OodsConstraint | FreeConstraintOpenings => {
            if ed > 1 && rng.chance(1, 2) {
                let k = 1 + rng.below(ed - 1);
                av[k] += nonzero(rng);
                if let Some(c) = oods_c(&tv) {
                    solve_first(&mut av, c);
                }
            } else {
                let k = rng.below(tv.len());
                tv[k] += nonzero(rng);
                if let Some(c) = oods_c(&tv) {
                    solve_first(&mut av, c);
                }
            }
            fired = true;
        }
        OodsRaw => {
            let k = rng.below(tv.len() + av.len());
            let d = nonzero(rng);
            if k < tv.len() {
                tv[k] += d
            } else {
                av[k - tv.len()] += d
            }
            fired = true;
        }
        NegatedOods => {
            let k = rng.below(tv.len());
            fired = !tv[k].is_zero();
            tv[k] = -tv[k];
        }
        _ => {}
    }
    let nc = if dev == NonCanonicalOods { rng.below(tv.len() + av.len()) } else { usize::MAX };
    let mut early = w.coin.clone();
    for (k, v) in tv.iter().chain(av.iter()).enumerate() {
        if k == nc {
            w.put("oods", &noncanon(*v));
            fired = true;
        } else if dev == ShiftedTrace && k < tv.len() && args[k].0 == shifted {
            w.put("oods_trace", &noncanon(*v + F::one()));
        } else if dev == ShiftedConstraint && k == tv.len() + shifted {
            w.put("oods_constraint", &noncanon(*v + F::one()));
        } else {
            w.put(if k < tv.len() { "oods_trace" } else { "oods_constraint" }, &v.to_bytes());
        }
    }
    let oc = if dev == EarlyOodsCoefficients {
        fired = true;
        let r = early.fields(tv.len() + av.len());
        let _ = w.coin.fields(tv.len() + av.len());
        r
    } else {
        w.coin.fields(tv.len() + av.len())
    };

    // 4. FRI
    let dxs = permute(&eval_coset(&[F::ZERO, F::one()], dom, g3));
    let comb = {
        let mut invs: Vec<Vec<F>> = zs.iter().map(|zz| batch_inv(&dxs.iter().map(|x| *x - *zz).collect::<Vec<_>>())).collect();
        invs.push(batch_inv(&dxs.iter().map(|x| *x - zd).collect::<Vec<_>>()));
        invs
    };
    let value_at = |i: usize, trow: &[F], crow: &[F]| -> F {
        let mut s = F::ZERO;
        for (k, (c, _)) in args.iter().enumerate() {
            s += oc[k] * (trow[*c] - tv[k]) * comb[k][i];
        }
        for j in 0..ed {
            s += oc[args.len() + j] * (crow[j] - av[j]) * comb[args.len()][i];
        }
        s
    };
    let mut layer: Vec<F> = (0..dom).map(|i| value_at(i, &row(&lde, i), &row(&clde, i))).collect();
    if matches!(dev, FriForeign | FreeTraceOpenings | FreeConstraintOpenings) {
        let p: Vec<F> = (0..n).map(|_| rng.field()).collect();
        layer = permute(&eval_coset(&p, dom, F::one()));
        if dev == FriForeign {
            fired = true;
        }
    }
    let mut layers = vec![];
    let mut trees = vec![];
    let mut points = vec![];
    for (k, &red) in sys.fri.iter().enumerate() {
        if let FriLayerForeign(j) = dev {
            if j == k && k > 0 {
                let p: Vec<F> = (0..(layer.len() / sys.blowup).max(1)).map(|_| rng.field()).collect();
                layer = permute(&eval_coset(&p, layer.len(), F::one()));
                fired = true;
            }
        }
        if dev == FriPoint(k) {
            let i = rng.below(layer.len());
            let d = nonzero(rng);
            layer[i] += d;
            fired = true;
        }
        if let FreeFriOpenings(j) = dev {
            if j + 1 == k || (j == k && k + 1 == sys.fri.len() && false) {
                // the layer after the unchecked one: unrelated low degree polynomial
                let p: Vec<F> = (0..(layer.len() / sys.blowup).max(1)).map(|_| rng.field()).collect();
                layer = permute(&eval_coset(&p, layer.len(), F::one()));
            }
        }
        let tree = Merkle::new(layer.chunks(1 << red).map(leaf_hash).collect());
        let mut early = w.coin.clone();
        w.put(&format!("fri_root{}", k), &tree.root());
        let e = if dev == EarlyFriPoint(k) {
            fired = true;
            let r = early.field();
            let _ = w.coin.field();
            r
        } else {
            w.coin.field()
        };
        points.push(e);
        let next = fold_layer(&layer, red, e);
        layers.push(layer);
        trees.push(tree);
        layer = next;
    }
    if let FreeFriOpenings(j) = dev {
        if j + 1 == sys.fri.len() {
            let p: Vec<F> = (0..(layer.len() / sys.blowup).max(1)).map(|_| rng.field()).collect();
            layer = permute(&eval_coset(&p, layer.len(), F::one()));
        }
    }
    let nl = layer.len() / sys.blowup;
    let mut last = interpolate_coset(&permute(&layer[..nl]), F::one());
    if matches!(dev, LdePoint | ConstraintPoint | FriPoint(_)) {
        // keep the polynomial of the undisturbed layer: take it from a part of the last layer that is clean
        if let Some(p) = clean_last(&layer, nl, sys.blowup) {
            last = p;
        }
    }
    if dev == LongLast {
        last = interpolate_coset(&permute(&layer), F::one());
    }
    if dev == LastLayer {
        let i = rng.below(nl);
        let d = nonzero(rng);
        last[i] += d;
        fired = true;
    }
    let mut lb: Vec<u8> = last.iter().flat_map(|f| f.to_bytes().to_vec()).collect();
    if dev == NonCanonicalLast {
        let i = rng.below(nl);
        lb[32 * i..32 * i + 32].copy_from_slice(&noncanon(last[i]));
        fired = true;
    }
    let mut early = w.coin.clone();
    w.put("last_layer", &lb);

    // 5. work
    let digest = if dev == EarlyPow {
        fired = sys.pow_bits > 0;
        early.digest
    } else {
        w.coin.digest
    };
    let ps = pow_seed(&digest, sys.pow_bits);
    let mut nonce = 0u64;
    match dev {
        BadNonce => {
            const EDGES: [u64; 9] = [0, 1, u64::MAX, u64::MAX - 1, 1 << 63, i64::MAX as u64, 1 << 32, u32::MAX as u64, 1 << 31];
            nonce = match rng.below(3) {
                0 => rng.next() & 0xffff,
                1 => rng.next(),
                _ => EDGES[rng.below(EDGES.len())],
            };
            while pow_ok(&ps, sys.pow_bits, nonce) && sys.pow_bits > 0 {
                nonce = nonce.wrapping_add(1);
            }
            fired = sys.pow_bits > 0;
        }
        WeakWork => {
            let b = sys.pow_bits;
            let mut t = [b % 8, b % 16, b % 32, b % 64, b / 8, b / 16, 0, 8, rng.below(14)][rng.below(9)];
            if t > 13 || t >= b {
                t = rng.below(b.min(10).max(1));
            }
            nonce = rng.next() & [0xffff, u64::MAX][rng.below(2)];
            while (b > 0 && pow_ok(&ps, b, nonce)) || !pow_ok(&ps, t, nonce) {
                nonce = nonce.wrapping_add(1);
            }
            fired = b > 0;
        }
        NearNonce => {
            nonce = rng.next();
            if sys.pow_bits > 0 {
                while pow_ok(&ps, sys.pow_bits, nonce) || !pow_ok(&ps, sys.pow_bits - 1, nonce) {
                    nonce = nonce.wrapping_add(1);
                }
                fired = true;
            }
        }
        OtherNonce => {
            nonce = match rng.below(3) {
                0 => rng.next() | 1 << 62,
                1 => rng.next() >> rng.below(64),
                _ => u64::MAX - (rng.next() & 0xff),
            };
            while !pow_ok(&ps, sys.pow_bits, nonce) {
                nonce = nonce.wrapping_add(1);
            }
            fired = true;
        }
        _ => {
            while !pow_ok(&ps, sys.pow_bits, nonce) {
                nonce += 1;
            }
        }
    }
    // For localised deviations the cheater may pick any valid nonce: choose one whose queries touch the bad spot
    if matches!(dev, LdePoint | ConstraintPoint | FriPoint(_)) && rng.chance(3, 4) {
        let honest_last = permute(&eval_coset(&last, layer.len(), F::one()));
        let bad: Vec<usize> = (0..layer.len()).filter(|i| honest_last[*i] != layer[*i]).collect();
        let total: usize = sys.fri.iter().sum();
        let want_single = rng.chance(3, 4);
        for _ in 0..4000 {
            let mut c = w.coin.clone();
            c.absorb(&nonce.to_be_bytes());
            let q = c.queries(sys.queries, dom);
            let hits = q.iter().filter(|i| bad.contains(&(**i >> total))).count();
            if hits == 1 || (hits > 0 && !want_single) {
                break;
            }
            nonce += 1;
            while !pow_ok(&ps, sys.pow_bits, nonce) {
                nonce += 1;
            }
            if sys.pow_bits > 6 {
                break;
            }
        }
    }
    let mut early = w.coin.clone();
    w.put("nonce", &nonce.to_be_bytes());

    // 6. queries
    let mut queries = if dev == EarlyQueries {
        fired = true;
        early.queries(sys.queries, dom)
    } else {
        w.coin.queries(sys.queries, dom)
    };
    if dev == ChosenQueries {
        for q in queries.iter_mut() {
            if rng.chance(1, 2) {
                *q = rng.below(dom);
            }
        }
        queries.sort_unstable();
        fired = true;
    }
    let mut trows: Vec<Vec<F>> = queries.iter().map(|&q| row(&lde, q)).collect();
    let mut crows: Vec<Vec<F>> = queries.iter().map(|&q| row(&clde, q)).collect();
    let qn = queries.len();
    let pick = rng.below(qn);
    match dev {
        TraceValue => {
            let c = rng.below(cols);
            trows[pick][c] += nonzero(rng);
            fired = true;
        }
        ConstraintValue => {
            let c = rng.below(ed);
            crows[pick][c] += nonzero(rng);
            fired = true;
        }
        FreeTraceOpenings => {
            // solve one used column at each query so that the combination equals the foreign polynomial
            for k in 0..qn {
                let i = queries[k];
                let c = args[rng.below(args.len())].0;
                let have = value_at(i, &trows[k], &crows[k]);
                let mut slope = F::ZERO;
                for (a, (cc, _)) in args.iter().enumerate() {
                    if *cc == c {
                        slope += oc[a] * comb[a][i];
                    }
                }
                if k > 0 && queries[k] == queries[k - 1] {
                    trows[k] = trows[k - 1].clone();
                } else if !slope.is_zero() {
                    trows[k][c] += (layers[0][i] - have) * slope.inv();
                }
            }
        }
        FreeConstraintOpenings => {
            for k in 0..qn {
                let i = queries[k];
                let j = rng.below(ed);
                let have = value_at(i, &trows[k], &crows[k]);
                let slope = oc[args.len() + j] * comb[args.len()][i];
                if k > 0 && queries[k] == queries[k - 1] {
                    crows[k] = crows[k - 1].clone();
                } else if !slope.is_zero() {
                    crows[k][j] += (layers[0][i] - have) * slope.inv();
                }
            }
        }
        PairedOpenings => {
            let i = queries[pick];
            let (a, j) = (rng.below(args.len()), rng.below(ed));
            let c = args[a].0;
            let before = value_at(i, &trows[pick], &crows[pick]);
            trows[pick][c] += nonzero(rng);
            let after = value_at(i, &trows[pick], &crows[pick]);
            let slope = oc[args.len() + j] * comb[args.len()][i];
            if !slope.is_zero() {
                crows[pick][j] += (before - after) * slope.inv();
                fired = true;
            }
            // keep repeated queries consistent with it
            for k in 0..qn {
                if queries[k] == i {
                    trows[k] = trows[pick].clone();
                    crows[k] = crows[pick].clone();
                }
            }
        }
        ConflictingDuplicates => {
            for k in 1..qn {
                if queries[k] == queries[k - 1] {
                    let which = if rng.chance(1, 2) { k } else { k - 1 };
                    if rng.chance(1, 2) {
                        let c = rng.below(cols);
                        trows[which][c] += nonzero(rng);
                    } else {
                        let c = rng.below(ed);
                        crows[which][c] += nonzero(rng);
                    }
                    fired = true;
                    if rng.chance(1, 2) {
                        break;
                    }
                }
            }
        }
        _ => {}
    }
    let mut thash = ttree.open(&queries);
    let mut chash = ctree.open(&queries);
    if dev == TraceHash && !thash.is_empty() {
        let k = rng.below(thash.len());
        thash[k][rng.below(32)] ^= 1 << rng.below(8);
        fired = true;
    }
    if dev == ConstraintHash && !chash.is_empty() {
        let k = rng.below(chash.len());
        chash[k][rng.below(32)] ^= 1 << rng.below(8);
        fired = true;
    }
    for (k, r) in trows.iter().enumerate() {
        for (c, v) in r.iter().enumerate() {
            if dev == NonCanonicalOpening && k == pick && c == 0 {
                w.put("trace_value", &noncanon(*v));
                fired = true;
            } else {
                w.put("trace_value", &v.to_bytes());
            }
        }
    }
    for h in &thash {
        w.put("trace_hash", h);
    }
    for r in &crows {
        for v in r {
            w.put("constraint_value", &v.to_bytes());
        }
    }
    for h in &chash {
        w.put("constraint_hash", h);
    }
    // FRI decommitments: what the verifier knows at layer k
    let mut prev: Vec<usize> = queries.clone();
    let mut known: BTreeMap<usize, F> = BTreeMap::new();
    for k in 0..qn {
        known.entry(queries[k]).or_insert_with(|| value_at(queries[k], &trows[k], &crows[k]));
    }
    let mut len = dom;
    for (k, &red) in sys.fri.iter().enumerate() {
        let cset = 1usize << red;
        let mut idx: Vec<usize> = prev.iter().map(|x| x / cset).collect();
        idx.dedup();
        let bad = if dev == FriValue(k) { rng.below(idx.len()) } else { usize::MAX };
        let mut folds = BTreeMap::new();
        for (ii, &i) in idx.iter().enumerate() {
            let mut coset: Vec<F> = (0..cset).map(|j| *known.get(&(i * cset + j)).unwrap_or(&layers[k][i * cset + j])).collect();
            let free: Vec<usize> = (0..cset).filter(|j| !known.contains_key(&(i * cset + j))).collect();
            if ii == bad && !free.is_empty() {
                let j = rng.pick(&free);
                coset[j] += nonzero(rng);
                fired = true;
            }
            if dev == FreeFriOpenings(k) && !free.is_empty() {
                // choose one sibling so that the fold hits the next (foreign) layer
                let want = if k + 1 < sys.fri.len() { layers[k + 1][i] } else { layer[i] };
                let j = rng.pick(&free);
                let f0 = fold_coset(&coset, i, len, points[k]);
                coset[j] += F::one();
                let f1 = fold_coset(&coset, i, len, points[k]);
                let slope = f1 - f0;
                if !slope.is_zero() {
                    coset[j] += (want - f1) * slope.inv();
                    fired = true;
                }
            }
            for j in &free {
                w.put(&format!("fri_value{}", k), &coset[*j].to_bytes());
            }
            folds.insert(i, fold_coset(&coset, i, len, points[k]));
        }
        let mut hs = trees[k].open(&idx);
        if dev == FriHash(k) && !hs.is_empty() {
            let a = rng.below(hs.len());
            hs[a][rng.below(32)] ^= 1 << rng.below(8);
            fired = true;
        }
        for h in &hs {
            w.put(&format!("fri_hash{}", k), h);
        }
        known = folds;
        prev = idx;
        len /= cset;
    }
    let mut bytes = w.b;
    if dev == Trailing {
        for _ in 0..1 + rng.below(64) {
            bytes.push(rng.next() as u8);
        }
        fired = true;
    }
    if dev == Truncated {
        let l = bytes.len();
        bytes.truncate(l - 1 - rng.below(l.min(64)));
        fired = true;
    }
    Out { bytes, map: w.map, nonce, queries, fired }
}

/// Fold one coset (2^red consecutive entries in bit reversed order, number i) of a layer of size len.
pub fn fold_coset(coset: &[F], i: usize, len: usize, e: F) -> F {
    let mut v = coset.to_vec();
    let mut base = i * coset.len();
    let mut len = len;
    let mut e = e;
    while v.len() > 1 {
        let wi = F::root(len).inv();
        v = (0..v.len() / 2).map(|k| fold_once(v[2 * k], v[2 * k + 1], wi.pow(bitrev(len / 2, base / 2 + k) as u64), e)).collect();
        base /= 2;
        len /= 2;
        e = e * e;
    }
    v[0]
}
fn clean_last(layer: &[F], nl: usize, blowup: usize) -> Option<Vec<F>> {
    // the sub-blocks of nl consecutive entries (bit reversed) are cosets of the subgroup of order nl; the
    // polynomial found by most blocks is the undisturbed one
    let size = layer.len();
    let w = F::root(size);
    let mut seen: Vec<(Vec<F>, usize)> = vec![];
    for b in 0..blowup {
        let shift = w.pow(bitrev(blowup, b) as u64);
        let p = interpolate_coset(&permute(&layer[b * nl..(b + 1) * nl]), shift);
        match seen.iter_mut().find(|(q, _)| *q == p) {
            Some(s) => s.1 += 1,
            None => seen.push((p, 1)),
        }
    }
    seen.into_iter().max_by_key(|(_, c)| *c).map(|(p, _)| p)
}

/// The documented verification rules. Err names the rule that rejects.
pub fn verify(sys: &Sys, proof: &[u8]) -> Result<(), &'static str> {
    let n = sys.n;
    let dom = n * sys.blowup;
    let mut coin = Coin::new(&sys.seed);
    let mut pos = 0usize;
    fn take<'a>(proof: &'a [u8], pos: &mut usize, n: usize) -> Result<&'a [u8], &'static str> {
        if *pos + n > proof.len() {
            return Err("short");
        }
        *pos += n;
        Ok(&proof[*pos - n..*pos])
    }
    fn hash(b: &[u8]) -> H {
        let mut h = [0; 32];
        h.copy_from_slice(b);
        h
    }
    let fe = |b: &[u8]| F::from_bytes(b).ok_or("non-canonical");
    let ed = sys.eval_degree();
    let args = sys.trace_args();
    let m = sys.exprs.len();

    let b = take(proof, &mut pos, 32)?;
    coin.absorb(b);
    let troot = hash(b);
    let coefs = coin.fields(2 * m);
    let b = take(proof, &mut pos, 32)?;
    coin.absorb(b);
    let croot = hash(b);
    let z = coin.field();
    let mut tv = vec![];
    for _ in &args {
        let b = take(proof, &mut pos, 32)?;
        coin.absorb(b);
        tv.push(fe(b)?);
    }
    let mut av = vec![];
    for _ in 0..ed {
        let b = take(proof, &mut pos, 32)?;
        coin.absorb(b);
        av.push(fe(b)?);
    }
    let oc = coin.fields(args.len() + ed);
    let mut froots = vec![];
    let mut points = vec![];
    let mut size = dom;
    for &r in &sys.fri {
        size >>= r;
        let b = take(proof, &mut pos, 32)?;
        coin.absorb(b);
        froots.push(hash(b));
        points.push(coin.field());
    }
    let nl = size / sys.blowup;
    let b = take(proof, &mut pos, 32 * nl)?;
    coin.absorb(b);
    let last: Vec<F> = b.chunks(32).map(fe).collect::<Result<_, _>>()?;
    let ps = pow_seed(&coin.digest, sys.pow_bits);
    let b = take(proof, &mut pos, 8)?;
    coin.absorb(b);
    let mut nb = [0; 8];
    nb.copy_from_slice(b);
    if !pow_ok(&ps, sys.pow_bits, u64::from_be_bytes(nb)) {
        return Err("work");
    }
    let queries = coin.queries(sys.queries, dom);
    let depth = dom.trailing_zeros() as usize;
    let mut rows = |width: usize, root: &H, what: &'static str| -> Result<Vec<Vec<F>>, &'static str> {
        let mut v = vec![];
        for _ in &queries {
            let b = take(proof, &mut pos, 32 * width)?;
            v.push(b.chunks(32).map(fe).collect::<Result<Vec<F>, _>>()?);
        }
        let cnt = Merkle::path_positions(depth, &queries).len();
        let hs: Vec<H> = (0..cnt).map(|_| take(proof, &mut pos, 32).map(hash)).collect::<Result<_, _>>()?;
        let leaves: Vec<(usize, H)> = queries.iter().zip(&v).map(|(q, r)| (*q, leaf_hash(r))).collect();
        if implied_root(depth, &leaves, &hs) != Some(*root) {
            return Err(what);
        }
        Ok(v)
    };
    let trows = rows(sys.cols, &troot, "trace commitment")?;
    let crows = rows(ed, &croot, "constraint commitment")?;
    // first FRI layer at the queries
    let g = F::root(n);
    let wd = F::root(dom);
    let zd = z.pow(ed as u64);
    let mut known: BTreeMap<usize, F> = BTreeMap::new();
    for (k, &q) in queries.iter().enumerate() {
        let x = F::from_u64(3) * wd.pow(bitrev(dom, q) as u64);
        let mut s = F::ZERO;
        for (a, (c, o)) in args.iter().enumerate() {
            let zz = z * g.pow(o.rem_euclid(n as isize) as u64);
            s += oc[a] * (trows[k][*c] - tv[a]) * (x - zz).inv();
        }
        let i = (x - zd).inv();
        for j in 0..ed {
            s += oc[args.len() + j] * (crows[k][j] - av[j]) * i;
        }
        known.insert(q, s);
    }
    let mut prev = queries.clone();
    let mut len = dom;
    for (k, &red) in sys.fri.iter().enumerate() {
        let cset = 1usize << red;
        let mut idx: Vec<usize> = prev.iter().map(|x| x / cset).collect();
        idx.dedup();
        let mut leaves = vec![];
        let mut folds = BTreeMap::new();
        for &i in &idx {
            let mut coset = vec![];
            for j in 0..cset {
                coset.push(match known.get(&(i * cset + j)) {
                    Some(v) => *v,
                    None => fe(take(proof, &mut pos, 32)?)?,
                });
            }
            leaves.push((i, leaf_hash(&coset)));
            folds.insert(i, fold_coset(&coset, i, len, points[k]));
        }
        len /= cset;
        let d = len.trailing_zeros() as usize;
        let cnt = Merkle::path_positions(d, &idx).len();
        let hs: Vec<H> = (0..cnt).map(|_| take(proof, &mut pos, 32).map(hash)).collect::<Result<_, _>>()?;
        if implied_root(d, &leaves, &hs) != Some(froots[k]) {
            return Err("fri commitment");
        }
        known = folds;
        prev = idx;
    }
    if pos != proof.len() {
        return Err("long");
    }
    let wl = F::root(len);
    for (i, v) in &known {
        if eval_poly(&last, wl.pow(bitrev(len, *i) as u64)) != *v {
            return Err("final polynomial");
        }
    }
    let adj = sys.adjustments();
    let tr = |c: usize, o: isize| tv[args.iter().position(|a| *a == (c, o)).unwrap()];
    let mut s = F::ZERO;
    for (k, e) in sys.exprs.iter().enumerate() {
        s += (coefs[2 * k] + coefs[2 * k + 1] * z.pow(adj[k] as u64)) * e.eval(z, &tr, &sys.claims).ok_or("oods division")?;
    }
    if s != eval_poly(&av, z) {
        return Err("oods");
    }
    Ok(())
}
