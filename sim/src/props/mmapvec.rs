//! Memory-mapped vector: C11.
use super::*;
use std::cell::RefCell;
use std::collections::BTreeMap;
use zkp_mmap_vec::MmapVec;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C11",
        quick: 200000,
        thorough: 12000000,
        run: c11,
        real: "zkp-mmap-vec and the memmap crate",
        stub: "mmap fails on demand; element type is the harness's (tracks every construction and drop, panics on demand)",
        rule: "one evaluation is one simulated history of operations on memory-mapped vectors with injected mmap failures and panics in clone, drop and iteration, compared after every operation with a bounded standard vector and a registry of live elements; distinct_inputs counts different histories (the run is single threaded, so there is one interleaving)",
    }]
}

const MAGIC: u64 = 0x5eed_0e1e_3e97_0000;
#[derive(Default)]
struct Reg {
    next: u64,
    live: BTreeMap<u64, u64>,
    errors: Vec<String>,
    clone_bomb: i64,
    drop_bomb: i64,
    bombs: u64,
}
thread_local! {
    static REG: RefCell<Reg> = RefCell::new(Reg::default());
}
fn reg<T>(f: impl FnOnce(&mut Reg) -> T) -> T {
    REG.with(|r| f(&mut r.borrow_mut()))
}
/// Element with a body of N words; every instance has an identity.
#[derive(Debug)]
struct E<const N: usize> {
    id: u64,
    magic: u64,
    val: u64,
    body: [u64; N],
}
impl<const N: usize> E<N> {
    fn new(val: u64) -> Self {
        reg(|r| {
            r.next += 1;
            r.live.insert(r.next, val);
            E { id: r.next, magic: MAGIC ^ r.next, val, body: [val; N] }
        })
    }
    fn check(&self, what: &str) -> bool {
        let ok = self.magic == MAGIC ^ self.id && self.body.iter().all(|b| *b == self.val);
        reg(|r| {
            if !ok {
                r.errors.push(format!("{} of memory that holds no element", what));
            } else if r.live.get(&self.id) != Some(&self.val) {
                r.errors.push(format!("{} of an element that was dropped before", what));
            }
            ok && r.live.contains_key(&self.id)
        })
    }
}
impl<const N: usize> Clone for E<N> {
    fn clone(&self) -> Self {
        self.check("clone");
        let bang = reg(|r| {
            r.clone_bomb -= 1;
            if r.clone_bomb == 0 {
                r.bombs += 1;
            }
            r.clone_bomb == 0
        });
        if bang {
            panic!("bomb in clone");
        }
        E::new(self.val)
    }
}
impl<const N: usize> Drop for E<N> {
    fn drop(&mut self) {
        if self.check("drop") {
            let id = self.id;
            reg(|r| r.live.remove(&id));
        }
        let bang = reg(|r| {
            r.drop_bomb -= 1;
            r.drop_bomb == 0 && !std::thread::panicking()
        });
        if bang {
            reg(|r| r.bombs += 1);
            panic!("bomb in drop");
        }
    }
}
impl<const N: usize> PartialEq for E<N> {
    fn eq(&self, o: &Self) -> bool {
        self.check("comparison");
        o.check("comparison");
        self.val == o.val
    }
}

#[derive(Clone, Debug)]
enum Op {
    New(usize),
    Huge(usize),
    Push,
    Clear,
    Truncate(usize),
    Resize(usize),
    ExtendSlice(usize),
    ExtendOwned(usize, Option<usize>),
    ExtendRef(usize),
    Set(usize),
    Swap(usize, usize),
    CloneTo(usize),
    Eq(usize),
    Drop,
    Sort,
}
const SLOTS: usize = 3;

/// Runs the history; returns the first thing that went wrong.
fn history<const N: usize>(ops: &[(usize, Op)], faults: &[Value]) -> Result<u64, String> {
    type V<const N: usize> = Option<(MmapVec<E<N>>, usize, Vec<u64>)>;
    let mut slots: Vec<V<N>> = (0..SLOTS).map(|_| None).collect();
    let mut fresh = 1000u64;
    let mut val = || {
        fresh += 1;
        fresh
    };
    for (i, (s, op)) in ops.iter().enumerate() {
        let s = *s;
        reg(|r| {
            r.clone_bomb = 0;
            r.drop_bomb = 0;
        });
        rt::mmap_faults(-1, 0);
        for f in faults.iter().filter(|f| f["i"] == i) {
            let n = f["n"].as_i64().unwrap();
            match f["k"].as_str().unwrap() {
                "failing mmap call" => rt::mmap_faults(0, 1),
                "panic in clone" => reg(|r| r.clone_bomb = n),
                "panic in drop" => reg(|r| r.drop_bomb = n),
                _ => {}
            }
        }
        let mmap_fails = faults.iter().any(|f| f["i"] == i && f["k"] == "failing mmap call");
        if slots[s].is_none() && !matches!(op, Op::New(_) | Op::Huge(_)) {
            continue;
        }
        let bombs0 = reg(|r| r.bombs);
        // what the model says: Ok(new contents) or Err: the call must panic
        let mut created: Option<(usize, Vec<u64>, usize)> = None;
        let mut may_panic = false;
        let mut must_panic = false;
        let before: Vec<u64> = slots[s].as_ref().map_or(vec![], |x| x.2.clone());
        let mut want = before.clone();
        let cap = slots[s].as_ref().map_or(0, |x| x.1);
        let outcome: Result<Option<bool>, String> = {
            let slots = &mut slots;
            let vals: Vec<u64> = match op {
                Op::ExtendSlice(n) | Op::ExtendOwned(n, _) | Op::ExtendRef(n) => (0..*n).map(|_| val()).collect(),
                Op::Push | Op::Resize(_) | Op::Set(_) => vec![val()],
                _ => vec![],
            };
            let r = catch_unwind(AssertUnwindSafe(|| -> Option<bool> {
                match op {
                    Op::New(c) => {
                        let old = slots[s].take();
                        let m = MmapVec::<E<N>>::with_capacity(*c);
                        created = Some((s, vec![], *c));
                        slots[s] = Some((m, *c, vec![]));
                        drop(old);
                    }
                    Op::Huge(c) => {
                        let m = MmapVec::<E<N>>::with_capacity(*c);
                        drop(m);
                    }
                    Op::Push => slots[s].as_mut().unwrap().0.push(E::new(vals[0])),
                    Op::Clear => slots[s].as_mut().unwrap().0.clear(),
                    Op::Truncate(n) => slots[s].as_mut().unwrap().0.truncate(*n),
                    Op::Resize(n) => slots[s].as_mut().unwrap().0.resize(*n, E::new(vals[0])),
                    Op::ExtendSlice(_) => {
                        let src: Vec<E<N>> = vals.iter().map(|v| E::new(*v)).collect();
                        slots[s].as_mut().unwrap().0.extend_from_slice(&src);
                    }
                    Op::ExtendOwned(_, bang) => {
                        let it = vals.iter().enumerate().map(|(k, v)| {
                            if *bang == Some(k) {
                                panic!("bomb in iterator");
                            }
                            E::new(*v)
                        });
                        slots[s].as_mut().unwrap().0.extend(it);
                    }
                    Op::ExtendRef(_) => {
                        let src: Vec<E<N>> = vals.iter().map(|v| E::new(*v)).collect();
                        slots[s].as_mut().unwrap().0.extend(src.iter());
                    }
                    Op::Set(k) => {
                        let m = &mut slots[s].as_mut().unwrap().0;
                        if !m.is_empty() {
                            let k = k % m.len();
                            m[k] = E::new(vals[0]);
                        }
                    }
                    Op::Swap(a, b) => {
                        let m = slots[s].as_mut().unwrap().0.as_mut_slice();
                        if !m.is_empty() {
                            let n = m.len();
                            m.swap(a % n, b % n);
                        }
                    }
                    Op::Sort => slots[s].as_mut().unwrap().0.sort_by_key(|e| std::cmp::Reverse(e.val)),
                    Op::CloneTo(t) => {
                        let m = slots[s].as_ref().unwrap().0.clone();
                        let (c, v) = (slots[s].as_ref().unwrap().1, slots[s].as_ref().unwrap().2.clone());
                        created = Some((*t, v.clone(), c));
                        let old = slots[*t].take();
                        slots[*t] = Some((m, c, v));
                        drop(old);
                    }
                    Op::Eq(t) => {
                        if let Some((o, _, _)) = &slots[*t] {
                            return Some(slots[s].as_ref().unwrap().0 == *o);
                        }
                    }
                    Op::Drop => {
                        let old = slots[s].take();
                        drop(old);
                    }
                }
                None
            }));
            // the model
            match op {
                Op::New(_) | Op::CloneTo(_) => {
                    must_panic = mmap_fails;
                    want = slots[s].as_ref().map_or(vec![], |x| x.2.clone());
                }
                Op::Huge(_) => must_panic = true,
                Op::Push => {
                    must_panic = before.len() == cap;
                    if !must_panic {
                        want.push(vals[0]);
                    }
                }
                Op::Clear => want.clear(),
                Op::Truncate(n) => want.truncate(*n),
                Op::Resize(n) => {
                    must_panic = *n > cap;
                    want.resize((*n).min(cap), vals[0]);
                }
                Op::ExtendSlice(_) | Op::ExtendRef(_) | Op::ExtendOwned(..) => {
                    let mut v = vals.clone();
                    if let Op::ExtendOwned(_, Some(k)) = op {
                        if *k < v.len() {
                            v.truncate(*k);
                            must_panic = true;
                        }
                    }
                    must_panic |= before.len() + v.len() > cap;
                    want.extend(v);
                    want.truncate(cap);
                }
                Op::Set(k) => {
                    if !want.is_empty() {
                        let n = want.len();
                        want[k % n] = vals[0];
                    }
                }
                Op::Swap(a, b) => {
                    if !want.is_empty() {
                        let n = want.len();
                        want.swap(a % n, b % n);
                    }
                }
                Op::Sort => want.sort_by_key(|v| std::cmp::Reverse(*v)),
                Op::Eq(_) | Op::Drop => {}
            }
            if reg(|r| r.bombs) > bombs0 {
                may_panic = true;
            }
            match r {
                Ok(x) => Ok(x),
                Err(e) => Err(rt::panic_text(&e)),
            }
        };
        rt::mmap_faults(-1, 0);
        reg(|r| {
            r.clone_bomb = 0;
            r.drop_bomb = 0;
        });
        let at = |what: String| format!("operation {} {:?} on {} of {} elements: {}", i, op, before.len(), cap, what);
        if let Some(e) = reg(|r| r.errors.first().cloned()) {
            return Err(at(e));
        }
        match (&outcome, must_panic, may_panic) {
            (Ok(_), true, _) => return Err(at("did not fail".into())),
            (Ok(_), _, true) if !matches!(op, Op::Eq(_)) => return Err(at("swallowed a panic of user code".into())),
            (Err(e), false, false) => return Err(at(format!("failed: {}", e))),
            _ => {}
        }
        if let (Op::Eq(t), Ok(Some(eq))) = (op, &outcome) {
            let a = &slots[s].as_ref().unwrap().2;
            let b = &slots[*t].as_ref().unwrap().2;
            if *eq != (a == b) {
                return Err(at("comparison is wrong".into()));
            }
        }
        // contents
        let failed = outcome.is_err();
        if let Some(x) = slots[s].as_mut() {
            let got: Vec<u64> = x.0.iter().map(|e| { e.check("read"); e.val }).collect();
            let shorter = !matches!(op, Op::Push | Op::ExtendSlice(_) | Op::ExtendOwned(..) | Op::ExtendRef(_) | Op::Resize(_));
            let grow = matches!(op, Op::ExtendSlice(_) | Op::ExtendOwned(..) | Op::ExtendRef(_) | Op::Resize(_) | Op::Push);
            let ok = got == want
                || (failed && grow && want.len() >= before.len() && got.len() >= before.len() && got.len() <= want.len() && got[..] == want[..got.len()])
                || (failed && matches!(op, Op::Resize(_) | Op::Set(_)) && got == before)
                || (failed && shorter && matches!(op, Op::New(_) | Op::CloneTo(_)) && got == x.2);
            if !ok {
                return Err(at(format!("holds {:?} instead of {:?}", &got[..got.len().min(20)], &want[..want.len().min(20)])));
            }
            if x.0.len() != got.len() || x.0.is_empty() != got.is_empty() || x.0.as_slice().len() != got.len() || got.len() > x.1 {
                return Err(at("length is wrong".into()));
            }
            x.2 = got;
        } else if failed && matches!(op, Op::New(_)) {
            // the old vector was given up before the failing call
        }
        if let Some((t, v, _)) = created {
            if let Some(x) = slots[t].as_ref() {
                let got: Vec<u64> = x.0.iter().map(|e| { e.check("read"); e.val }).collect();
                if t != s && !failed && got != v {
                    return Err(at("the copy differs".into()));
                }
            }
        }
        if let Some(e) = reg(|r| r.errors.first().cloned()) {
            return Err(at(e));
        }
        // exactly the elements held by the vectors are alive
        let held: usize = slots.iter().flatten().map(|x| x.0.len()).sum();
        let live = reg(|r| r.live.len());
        if live != held {
            return Err(at(format!("{} elements are alive, the vectors hold {}", live, held)));
        }
    }
    reg(|r| {
        r.clone_bomb = 0;
        r.drop_bomb = 0;
    });
    drop(slots);
    if let Some(e) = reg(|r| r.errors.first().cloned()) {
        return Err(format!("at the end: {}", e));
    }
    let live = reg(|r| r.live.len());
    if live != 0 {
        return Err(format!("at the end: {} elements never dropped", live));
    }
    Ok(reg(|r| r.bombs))
}

fn c11(ctx: &mut Ctx) {
    let mut rng = ctx.rng.clone();
    let body = rng.below(3);
    let nops = 3 + rng.below(30);
    let caps = [0usize, 1, 2, 3, 8, 20, 100, 700];
    let elem = [24usize, 32, 104][body];
    let mut ops: Vec<(usize, Op)> = vec![];
    for i in 0..nops {
        let s = if rng.chance(2, 3) { 0 } else { rng.below(SLOTS) };
        let c = caps[rng.below(caps.len())];
        let op = if i == 0 {
            Op::New(caps[1 + rng.below(caps.len() - 1)])
        } else {
            match rng.below(30) {
                0 => Op::New(c),
                1..=6 => Op::Push,
                7 | 8 => Op::Clear,
                9..=11 => Op::Truncate(rng.below(c + 2)),
                12..=14 => Op::Resize(rng.below(c + 2)),
                15..=17 => {
                    let m = [3, 5, 30, 300][rng.below(4)];
                    Op::ExtendSlice(rng.below(m))
                },
                18 | 19 => {
                    let n = rng.below(20);
                    Op::ExtendOwned(n, if n > 0 && rng.chance(1, 4) { Some(rng.below(n)) } else { None })
                }
                20 | 21 => Op::ExtendRef(rng.below(20)),
                22 | 23 => Op::Set(rng.below(1000)),
                24 => Op::Swap(rng.below(1000), rng.below(1000)),
                25 => Op::CloneTo(rng.below(SLOTS)),
                26 => Op::Eq(rng.below(SLOTS)),
                27 => Op::Drop,
                28 => Op::Sort,
                _ => {
                    if rng.chance(1, 3) {
                        // more bytes than an address can count: wraps around to something small
                        Op::Huge(usize::MAX / elem + 1 + rng.below(3))
                    } else {
                        Op::Push
                    }
                }
            }
        };
        ops.push((s, op));
    }
    let mut faults = vec![];
    for i in 0..nops {
        if rng.chance(1, 5) {
            let k = match &ops[i].1 {
                Op::New(_) => "failing mmap call",
                Op::CloneTo(_) => rng.pick(&["failing mmap call", "panic in clone"]),
                Op::Resize(_) => rng.pick(&["panic in clone", "panic in drop"]),
                Op::ExtendSlice(_) | Op::ExtendRef(_) => "panic in clone",
                Op::Clear | Op::Truncate(_) | Op::Drop | Op::Set(_) => "panic in drop",
                _ => continue,
            };
            let far = rng.chance(1, 2);
            let n = 1 + rng.below(if far { 40 } else { 3 });
            faults.push(json!({"k": k, "i": i, "n": n}));
        }
    }
    ctx.input(hash_of(format!("{:?}{:?}{}", ops, faults, body).as_bytes()));
    let run = ctx.sim("history of operations", &quiet(), &faults, &mut |fs| {
        let r = match body {
            0 => history::<0>(&ops, fs),
            1 => history::<1>(&ops, fs),
            _ => history::<10>(&ops, fs),
        };
        match r {
            Ok(n) => json!({ "bombs": n }),
            Err(s) => json!({ "bad": s }),
        }
    });
    if !ctx.ended(&run) {
        return;
    }
    if let Some(s) = run.out["bad"].as_str().or(run.out["panic"].as_str()) {
        let sig = if s.contains("dropped before") || s.contains("holds no element") {
            "element dropped or read when it does not exist"
        } else if s.contains("alive") || s.contains("never dropped") {
            "element leaked"
        } else if s.contains("did not fail") || s.contains("failed:") {
            "refuses or allows the wrong operation"
        } else {
            "contents differ from a bounded vector"
        };
        ctx.fail(sig, s.to_string());
        return;
    }
    ctx.count("operations", nops as u64);
    ctx.count("panics raised in user code", run.out["bombs"].as_u64().unwrap_or(0));
    ctx.sample(format!("{} operations {:?}.. faults {:?}", nops, &ops[..3], faults.iter().take(2).collect::<Vec<_>>()));
}
