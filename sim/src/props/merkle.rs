//! Vector commitments: C07, C08.
use super::*;
use crate::protocol::{self, Merkle, H};
use std::sync::Arc;
use zkp_hash::{Hash, Hashable};
use zkp_merkle_tree::{Commitment, Error, Proof, Tree, VectorCommitment};
use zkp_u256::U256;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C07",
            quick: 32000,
            thorough: 1000000,
            run: c07,
            real: "zkp-merkle-tree, zkp-hash, zkp-mmap-vec, rayon unmodified",
            stub: "thread scheduling, futexes, clocks simulated; leaf containers are the harness's own (a seam of the crate) or plain vectors",
            rule: "one evaluation is one or more trees built and opened on a simulated worker pool under one seeded schedule, every root, node and opening compared with a textbook hash tree; distinct = different interleaving hash",
        },
        Prop {
            id: "C08",
            quick: 45000,
            thorough: 1000000,
            run: c08,
            real: "zkp-merkle-tree prover and verifier side, zkp-hash",
            stub: "transport simulated (loss, duplication, reordering, corruption of leaves, positions and hashes); thread scheduling simulated",
            rule: "one evaluation is one simulated session: a committer sends openings through the faulty transport to concurrent verifiers; distinct = different interleaving hash",
        },
    ]
}

#[derive(Clone)]
pub enum Leafs {
    Ints(Vec<[u8; 32]>),
    Elements(Vec<F>),
    Rows(Vec<Vec<F>>),
}
impl Leafs {
    pub fn gen(rng: &mut Rng, n: usize) -> Leafs {
        let dup = rng.chance(1, 4);
        match rng.below(3) {
            0 => {
                let mut v: Vec<[u8; 32]> = (0..n)
                    .map(|_| {
                        let mut b = [0u8; 32];
                        for c in b.chunks_mut(8) {
                            c.copy_from_slice(&rng.next().to_be_bytes());
                        }
                        b
                    })
                    .collect();
                if dup && n > 1 {
                    for _ in 0..n / 2 {
                        let (a, b) = (rng.below(n), rng.below(n));
                        v[a] = v[b];
                    }
                }
                Leafs::Ints(v)
            }
            1 => Leafs::Elements((0..n).map(|_| rng.field()).collect()),
            _ => {
                let w = rng.below(4);
                Leafs::Rows((0..n).map(|_| (0..w).map(|_| rng.field()).collect()).collect())
            }
        }
    }
    pub fn len(&self) -> usize {
        match self {
            Leafs::Ints(v) => v.len(),
            Leafs::Elements(v) => v.len(),
            Leafs::Rows(v) => v.len(),
        }
    }
    /// Leaf hash by the documented rule.
    pub fn hash(&self, i: usize) -> H {
        match self {
            Leafs::Ints(v) => v[i],
            Leafs::Elements(v) => v[i].to_bytes(),
            Leafs::Rows(v) => protocol::leaf_hash(&v[i]),
        }
    }
    pub fn model(&self) -> Merkle {
        Merkle::new((0..self.len()).map(|i| self.hash(i)).collect())
    }
    pub fn repo(&self) -> Container {
        match self {
            Leafs::Ints(v) => Container::Ints(v.iter().map(U256::from_bytes_be).collect()),
            Leafs::Elements(v) => Container::Elements(v.iter().map(to_fe).collect()),
            Leafs::Rows(v) => Container::Rows(v.iter().map(|r| r.iter().map(to_fe).collect()).collect()),
        }
    }
}
/// A container the crate knows only through its trait; every leaf hash is a scheduling point.
pub enum Container {
    Ints(Vec<U256>),
    Elements(Vec<zkp_primefield::FieldElement>),
    Rows(Vec<Vec<zkp_primefield::FieldElement>>),
}
#[derive(Clone)]
pub enum Leaf {
    Int(U256),
    Element(zkp_primefield::FieldElement),
    Row(Vec<zkp_primefield::FieldElement>),
}
impl Hashable for Leaf {
    fn hash(&self) -> Hash {
        match self {
            Leaf::Int(x) => x.hash(),
            Leaf::Element(x) => x.hash(),
            Leaf::Row(x) => x.hash(),
        }
    }
}
impl VectorCommitment for Container {
    type Leaf = Leaf;
    fn len(&self) -> usize {
        match self {
            Container::Ints(v) => v.len(),
            Container::Elements(v) => v.len(),
            Container::Rows(v) => v.len(),
        }
    }
    fn leaf(&self, i: usize) -> Leaf {
        rt::point();
        match self {
            Container::Ints(v) => Leaf::Int(v[i].clone()),
            Container::Elements(v) => Leaf::Element(v[i].clone()),
            Container::Rows(v) => Leaf::Row(v[i].clone()),
        }
    }
}
pub fn hb(h: &Hash) -> H {
    let mut o = [0; 32];
    o.copy_from_slice(h.as_bytes());
    o
}
pub fn positions(rng: &mut Rng, n: usize) -> Vec<usize> {
    let k = match rng.below(8) {
        0 => 1,
        1 => n.min(64),
        2 => 0,
        _ => 1 + rng.below(12),
    };
    let mut v: Vec<usize> = if rng.chance(1, 6) {
        (0..k).map(|i| i % n).collect()
    } else if rng.chance(1, 5) {
        let b = rng.below(n);
        (0..k).map(|i| (b ^ (i & 3)) % n).collect()
    } else {
        (0..k).map(|_| rng.below(n)).collect()
    };
    if rng.chance(1, 2) {
        let m = v.len();
        for i in 0..m {
            let j = rng.below(m);
            v.swap(i, j);
        }
    }
    v
}

/// Build, look at every node (small trees) and open; returns the first disagreement with the model.
pub fn inspect<C: VectorCommitment>(t: &Tree<C>, m: &Merkle, opens: &[Vec<usize>], probes: &[(usize, usize)]) -> Option<String> {
    if t.commitment().size() != m.levels.last().unwrap().len() {
        return Some(format!("commitment size {}", t.commitment().size()));
    }
    if hb(t.commitment().hash()) != m.root() {
        return Some(format!("root {} instead of {}", hex(&hb(t.commitment().hash())), hex(&m.root())));
    }
    for &(l, i) in probes {
        let at = Commitment::from_size_hash(1 << l, &Hash::default()).unwrap().sort_indices(&[i]).unwrap()[0];
        let h = hb(&t.node_hash(at));
        if h != m.levels[l][i] {
            return Some(format!("node at depth {} offset {} is {} instead of {}", l, i, hex(&h), hex(&m.levels[l][i])));
        }
    }
    for o in opens {
        let want = m.open(o);
        match t.commitment().proof_size(o) {
            Ok(n) if n == want.len() => {}
            r => return Some(format!("proof size of {:?} is {:?} instead of {}", o, r, want.len())),
        }
        match t.open(o) {
            Ok(p) => {
                let got: Vec<H> = p.hashes().iter().map(hb).collect();
                if got != want {
                    return Some(format!("opening {:?}: {} hashes differ from the {} of the definition", o, got.len(), want.len()));
                }
                let ls: Vec<_> = o.iter().map(|&i| (i, t.leaf(i))).collect();
                if let Err(e) = p.verify(&ls) {
                    return Some(format!("own opening {:?} rejected: {:?}", o, e));
                }
            }
            Err(e) => return Some(format!("opening {:?}: {:?}", o, e)),
        }
    }
    None
}

fn c07(ctx: &mut Ctx) {
    let mut rng = ctx.rng.clone();
    let tall = ctx.idx % 1000 == 31;
    let sessions = if tall { 1 } else { 1 + rng.below(3) };
    let mut plans = vec![];
    for _ in 0..sessions {
        let bad = !tall && rng.chance(1, 8);
        let n = if bad {
            let k = rng.below(700);
            if k.is_power_of_two() { k + 2 } else { k }
        } else {
            1usize << if tall { 14 + rng.below(3) } else if rng.chance(1, if ctx.tier == Tier::Thorough { 20 } else { 60 }) { 11 + rng.below(3) } else { rng.below(11) }
        };
        let leaves = Leafs::gen(&mut rng, n);
        let model = if n.is_power_of_two() { Some(leaves.model()) } else { None };
        let depth = n.max(1).trailing_zeros() as usize;
        let skip = match rng.below(6) {
            0 => 0,
            1 => 1,
            2 => depth,
            3 => depth + 1 + rng.below(3),
            _ => rng.below(depth + 2),
        };
        let opens: Vec<Vec<usize>> = (0..3).map(|_| if n.is_power_of_two() { positions(&mut rng, n) } else { vec![] }).collect();
        let probes: Vec<(usize, usize)> = (0..12)
            .map(|_| {
                let l = rng.below(depth + 1);
                (l, rng.below(1 << l))
            })
            .collect();
        ctx.input(hash_of(format!("{} {} {:?}", n, skip, opens).as_bytes()));
        ctx.count(&format!("{} leaves", if n.is_power_of_two() { n.to_string() } else { "not a power of two".into() }), 1);
        plans.push((leaves, model, skip, opens, probes, rng.chance(1, 2)));
    }
    let plans = Arc::new(plans);
    let workers = pool_size(&mut rng);
    let sched = Sched::random(&mut rng);
    let own_pool = rng.chance(1, 3);
    let run = ctx.sim("build and open trees", &sched, &[], &mut |_| {
        rt::global_pool(workers);
        let hs: Vec<_> = (0..plans.len())
            .map(|k| {
                let plans = plans.clone();
                rt::spawn(move || {
                    let (leaves, model, skip, opens, probes, plain) = &plans[k];
                    let r = catch_unwind(AssertUnwindSafe(|| {
                        let go = || -> Option<String> {
                            macro_rules! one {
                                ($c:expr) => {{
                                    let via_commit = *skip == 1 && *plain;
                                    let r = if via_commit { $c.commit().map(|(c, t)| { assert!(c.hash() == t.commitment().hash() && c.size() == t.commitment().size(), "commit returned another commitment"); t }) } else { Tree::from_leaves_skip_layers($c, *skip) };
                                    match (r, model) {
                                        (Ok(t), Some(m)) => inspect(&t, m, opens, probes),
                                        (Ok(t), None) if leaves.len() == 0 => {
                                            if t.commitment().size() != 0 || t.open(&[]).map(|p| p.hashes().len()) != Ok(0) || t.open(&[0]).is_ok() { Some("empty tree".into()) } else { None }
                                        }
                                        (Ok(_), None) => Some(format!("{} leaves accepted", leaves.len())),
                                        (Err(Error::NumLeavesNotPowerOfTwo), None) if leaves.len() != 0 => None,
                                        (Err(e), _) => Some(format!("{} leaves: {:?}", leaves.len(), e)),
                                    }
                                }};
                            }
                            if *plain {
                                match leaves.repo() {
                                    Container::Ints(v) => one!(v),
                                    Container::Elements(v) => one!(v),
                                    Container::Rows(v) => one!(v),
                                }
                            } else {
                                one!(leaves.repo())
                            }
                        };
                        if own_pool && k == 0 {
                            rt::pool(1 + workers % 4).install(go)
                        } else {
                            go()
                        }
                    }));
                    match r {
                        Ok(None) => Value::Null,
                        Ok(Some(s)) => json!(s),
                        Err(e) => json!(format!("panic: {}", rt::panic_text(&e))),
                    }
                })
            })
            .collect();
        json!(hs.into_iter().map(|h| h.join().unwrap_or(json!("thread died"))).collect::<Vec<_>>())
    });
    ctx.count(&format!("{} workers", workers), 1);
    if !ctx.ended(&run) {
        return;
    }
    if run.out["panic"].is_string() {
        ctx.fail("crash", run.out["panic"].to_string());
        return;
    }
    for (k, r) in run.out.as_array().unwrap().iter().enumerate() {
        if let Some(s) = r.as_str() {
            let sig = if s.starts_with("panic") { "crash" } else { "tree differs from its definition" };
            ctx.fail(sig, format!("{} leaves, {} skipped layers, {} workers: {}", plans[k].0.len(), plans[k].2, workers, s));
            return;
        }
    }
    ctx.sample(format!("{} trees, first {} leaves skip {} workers {} {}", plans.len(), plans[0].0.len(), plans[0].2, workers, sched.name()));
}

/// What the transport delivers: commitment size, positions claimed, hashes, leaves.
#[derive(Clone)]
struct Packet {
    size: usize,
    root: H,
    indices: Vec<usize>,
    hashes: Vec<H>,
    leaves: Vec<(usize, Vec<u8>)>,
}
fn damage(p: &mut Packet, f: &Value) {
    let a = f["a"].as_u64().unwrap() as usize;
    let b = f["b"].as_u64().unwrap() as usize;
    match f["k"].as_str().unwrap() {
        "flip leaf bit" if !p.leaves.is_empty() => {
            let i = a % p.leaves.len();
            let l = &mut p.leaves[i].1;
            if !l.is_empty() {
                let m = l.len() * 8;
                l[(b % m) / 8] ^= 1 << (b % 8);
            }
        }
        "swap leaves" if p.leaves.len() > 1 => {
            let n = p.leaves.len();
            let (x, y) = (a % n, b % n);
            let t = p.leaves[x].1.clone();
            p.leaves[x].1 = p.leaves[y].1.clone();
            p.leaves[y].1 = t;
        }
        "drop leaf" if !p.leaves.is_empty() => {
            let i = a % p.leaves.len();
            p.leaves.remove(i);
        }
        "duplicate leaf" if !p.leaves.is_empty() => {
            let l = p.leaves[a % p.leaves.len()].clone();
            let n = p.leaves.len();
            p.leaves.insert(b % (n + 1), l);
        }
        "conflicting leaf" if !p.leaves.is_empty() => {
            let mut l = p.leaves[a % p.leaves.len()].clone();
            if !l.1.is_empty() {
                let m = l.1.len();
                l.1[b % m] ^= 1;
            }
            let n = p.leaves.len();
            p.leaves.insert(b % (n + 1), l);
        }
        "reorder leaves" if p.leaves.len() > 1 => {
            let n = p.leaves.len();
            p.leaves.rotate_left(a % n);
            p.leaves.swap(0, b % n);
        }
        "move leaf" if !p.leaves.is_empty() => {
            let i = a % p.leaves.len();
            p.leaves[i].0 = match b % 5 {
                0 => p.leaves[i].0 ^ 1,
                1 => p.leaves[i].0 + p.size,
                2 => usize::MAX - b % 7,
                3 => p.leaves[i].0 << 1,
                _ => b % p.size.max(1),
            };
        }
        "flip hash bit" if !p.hashes.is_empty() => {
            let i = a % p.hashes.len();
            p.hashes[i][(b / 8) % 32] ^= 1 << (b % 8);
        }
        "drop hash" if !p.hashes.is_empty() => {
            let i = a % p.hashes.len();
            p.hashes.remove(i);
        }
        "duplicate hash" if !p.hashes.is_empty() => {
            let h = p.hashes[a % p.hashes.len()];
            let n = p.hashes.len();
            p.hashes.insert(b % (n + 1), h);
        }
        "swap hashes" if p.hashes.len() > 1 => {
            let n = p.hashes.len();
            p.hashes.swap(a % n, b % n);
        }
        "drop position" if !p.indices.is_empty() => {
            let i = a % p.indices.len();
            p.indices.remove(i);
        }
        "duplicate position" if !p.indices.is_empty() => {
            let x = p.indices[a % p.indices.len()];
            let n = p.indices.len();
            p.indices.insert(b % (n + 1), x);
        }
        "reorder positions" if p.indices.len() > 1 => {
            let n = p.indices.len();
            p.indices.rotate_left(a % n);
            p.indices.swap(0, b % n);
        }
        "corrupt position" if !p.indices.is_empty() => {
            let i = a % p.indices.len();
            p.indices[i] = match b % 5 {
                0 => p.indices[i] ^ 1,
                1 => p.indices[i] + p.size,
                2 => usize::MAX - b % 7,
                3 => p.indices[i] >> 1,
                _ => b % p.size.max(1),
            };
        }
        "corrupt root" => p.root[(b / 8) % 32] ^= 1 << (b % 8),
        "corrupt size" => {
            p.size = match b % 6 {
                0 => p.size * 2,
                1 => p.size / 2,
                2 => p.size + 1,
                3 => 0,
                4 => 1 << 63,
                _ => 1 << (a % 63),
            }
        }
        "node as leaf" => {
            // present an inner hash as a leaf of a smaller tree
            if p.hashes.len() >= 1 && !p.leaves.is_empty() {
                let i = a % p.leaves.len();
                p.leaves[i].1 = p.hashes[b % p.hashes.len()].to_vec();
            }
        }
        _ => {}
    }
}
const KINDS: [&str; 18] = [
    "flip leaf bit", "swap leaves", "drop leaf", "duplicate leaf", "conflicting leaf", "reorder leaves", "move leaf", "flip hash bit", "drop hash",
    "duplicate hash", "swap hashes", "drop position", "duplicate position", "reorder positions", "corrupt position", "corrupt root", "corrupt size", "node as leaf",
];
/// Leaf as bytes on the wire: k field elements or one integer.
fn wire(l: &Leafs, i: usize) -> Vec<u8> {
    match l {
        Leafs::Ints(v) => v[i].to_vec(),
        Leafs::Elements(v) => v[i].to_bytes().to_vec(),
        Leafs::Rows(v) => v[i].iter().flat_map(|x| x.to_bytes().to_vec()).collect(),
    }
}
/// The verifier's view of a leaf: its documented hash.
fn wire_hash(l: &Leafs, b: &[u8]) -> H {
    match l {
        Leafs::Rows(_) if b.len() == 32 => {
            let mut h = [0; 32];
            h.copy_from_slice(b);
            h
        }
        Leafs::Rows(_) => protocol::masked(&[b]),
        _ => {
            let mut h = [0; 32];
            h.copy_from_slice(&b[..32]);
            h
        }
    }
}
/// 1 accepted, 0 refused, 2 panic
pub fn offer(l: &Leafs, p: &Packet) -> (u8, String) {
    let r = catch_unwind(AssertUnwindSafe(|| -> Result<(), Error> {
        let c = Commitment::from_size_hash(p.size, &Hash::new(p.root))?;
        let hs: Vec<Hash> = p.hashes.iter().map(|h| Hash::new(*h)).collect();
        let proof = Proof::from_hashes(&c, &p.indices, &hs)?;
        match l {
            Leafs::Rows(_) => {
                let v: Vec<(usize, Vec<U256>)> = p.leaves.iter().map(|(i, b)| (*i, b.chunks(32).map(|c| { let mut x = [0; 32]; x.copy_from_slice(c); U256::from_bytes_be(&x) }).collect())).collect();
                proof.verify(&v)
            }
            _ => {
                let v: Vec<(usize, U256)> = p.leaves.iter().map(|(i, b)| { let mut x = [0; 32]; x.copy_from_slice(&b[..32]); (*i, U256::from_bytes_be(&x)) }).collect();
                proof.verify(&v)
            }
        }
    }));
    match r {
        Ok(Ok(())) => (1, String::new()),
        Ok(Err(e)) => (0, format!("{:?}", e)),
        Err(e) => (2, rt::panic_text(&e)),
    }
}

fn c08(ctx: &mut Ctx) {
    let mut rng = ctx.rng.clone();
    let n = 1usize << if rng.chance(1, 3) { rng.below(3) } else { rng.below(10) };
    let leaves = Leafs::gen(&mut rng, n);
    let model = leaves.model();
    let msgs = 12;
    let mut faults = vec![];
    let mut opens = vec![];
    for m in 0..msgs {
        opens.push(positions(&mut rng, n));
        let many = if rng.chance(1, 4) { 4 } else { 1 };
        let k = if m < 2 { 0 } else { 1 + rng.below(many) };
        for _ in 0..k {
            faults.push(json!({"k": rng.pick(&KINDS), "m": m, "a": rng.below(1 << 20), "b": rng.below(1 << 20)}));
        }
        if m > 7 {
            // replayed into another verifier: positions of one opening with the leaves of another
            faults.push(json!({"k": "splice", "m": m, "a": rng.below(m), "b": rng.below(3)}));
        }
    }
    ctx.input(hash_of(format!("{} {:?}", n, opens).as_bytes()));
    let workers = pool_size(&mut rng);
    let verifiers = 1 + rng.below(3);
    let sched = Sched::random(&mut rng);
    let packets = |fs: &[Value]| -> Vec<Packet> {
        let mut v: Vec<Packet> = opens
            .iter()
            .map(|o| Packet { size: n, root: model.root(), indices: o.clone(), hashes: model.open(o), leaves: o.iter().map(|&i| (i, wire(&leaves, i))).collect() })
            .collect();
        let clean = v.clone();
        for f in fs {
            let m = f["m"].as_u64().unwrap() as usize;
            if f["k"] == "splice" {
                let o = &clean[f["a"].as_u64().unwrap() as usize];
                match f["b"].as_u64().unwrap() {
                    0 => v[m].leaves = o.leaves.clone(),
                    1 => v[m].hashes = o.hashes.clone(),
                    _ => v[m].indices = o.indices.clone(),
                }
            } else {
                damage(&mut v[m], f);
            }
        }
        v
    };
    let leaves2 = Arc::new(leaves.clone());
    let run = ctx.sim("openings through a faulty transport", &sched, &faults, &mut |fs| {
        rt::global_pool(workers);
        let ps = Arc::new(packets(fs));
        // the committer really builds the tree while verifiers work, and opens it for each of them
        let l = leaves2.clone();
        let opens2 = opens.clone();
        let committer = rt::spawn(move || {
            catch_unwind(AssertUnwindSafe(|| {
                let t = Tree::from_leaves_skip_layers(l.repo(), 1).unwrap();
                (hex(&hb(t.commitment().hash())), opens2.iter().map(|o| t.open(o).map(|p| p.hashes().iter().map(|h| hex(&hb(h))).collect::<Vec<_>>()).unwrap_or(vec!["refused".into()])).collect::<Vec<_>>())
            }))
            .ok()
        });
        let hs: Vec<_> = (0..verifiers)
            .map(|w| {
                let (ps, l) = (ps.clone(), leaves2.clone());
                rt::spawn(move || {
                    let mut out = vec![];
                    for (m, p) in ps.iter().enumerate() {
                        if m % verifiers == w {
                            rt::point();
                            let r = offer(&l, p);
                            out.push(json!([m, r.0, r.1]));
                        }
                    }
                    out
                })
            })
            .collect();
        let c = committer.join().unwrap_or(None);
        let v: Vec<Value> = hs.into_iter().flat_map(|h| h.join().unwrap_or_default()).collect();
        json!({"committer": c, "verdicts": v})
    });
    if !ctx.ended(&run) {
        return;
    }
    let c = &run.out["committer"];
    if c[0] != json!(hex(&model.root())) || (0..msgs).any(|m| c[1][m] != json!(model.open(&opens[m]).iter().map(|h| hex(h)).collect::<Vec<_>>())) {
        ctx.fail("committer's opening differs from the definition", format!("{} leaves", n));
        return;
    }
    let used = ctx.used_faults(&faults);
    let ps = packets(&used);
    let mut seen = 0;
    for v in run.out["verdicts"].as_array().cloned().unwrap_or_default() {
        seen += 1;
        let m = v[0].as_u64().unwrap() as usize;
        let p = &ps[m];
        let what = || {
            format!(
                "{} leaves, opening {:?}, faults {:?}: {}",
                n,
                opens[m],
                used.iter().filter(|f| f["m"] == m).map(|f| f["k"].as_str().unwrap()).collect::<Vec<_>>(),
                v[2].as_str().unwrap_or("")
            )
        };
        let hashed: Vec<(usize, H)> = p.leaves.iter().map(|(i, b)| (*i, wire_hash(&leaves, b))).collect();
        let own = p.size == n && p.root == model.root();
        let all_committed = own && hashed.iter().all(|(i, h)| *i < n && leaves.hash(*i) == *h);
        let honest = {
            let mut a = p.indices.clone();
            let mut b: Vec<usize> = p.leaves.iter().map(|l| l.0).collect();
            a.sort_unstable();
            a.dedup();
            b.sort_unstable();
            b.dedup();
            all_committed && a == b && p.hashes == model.open(&p.indices)
        };
        match v[1].as_u64().unwrap() {
            2 => {
                ctx.fail("crash", what());
                return;
            }
            1 => {
                ctx.count("accepted", 1);
                // an empty set of leaves shows nothing; otherwise everything shown must be committed
                let ok = if own {
                    all_committed
                } else {
                    // another commitment was delivered: judge against the textbook rule for that commitment
                    p.leaves.is_empty() || (p.size.is_power_of_two() && protocol::implied_root(p.size.trailing_zeros() as usize, &hashed, &p.hashes) == Some(p.root))
                };
                if !ok {
                    ctx.fail("opening of values that were never committed accepted", what());
                    return;
                }
            }
            _ => {
                ctx.count("refused", 1);
                if honest {
                    ctx.fail("honest opening refused", what());
                    return;
                }
            }
        }
    }
    if seen != msgs {
        ctx.fail("crash", format!("{} of {} verdicts", seen, msgs));
        return;
    }
    ctx.sample(format!("{} leaves, {} openings, {} faults, {} verifiers", n, msgs, used.len(), verifiers));
}
