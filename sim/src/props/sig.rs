//! Signatures over a faulty transport: C15.
use super::*;
use crate::curve::{self, Pt, U};
use std::sync::Arc;
use zkp_elliptic_curve::{double_mul, Affine, ScalarFieldElement, GENERATOR};
use zkp_elliptic_curve_crypto::{PrivateKey, PublicKey, Signature};
use zkp_u256::U256;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C15",
        quick: 2600,
        thorough: 40000,
        run: c15,
        real: "zkp-elliptic-curve-crypto signing, key derivation and verification, zkp-elliptic-curve, scalar field",
        stub: "transport simulated (bit flips, swaps between sessions, replay, attacker-chosen values); thread scheduling simulated",
        rule: "one evaluation is one process in which several threads derive keys, sign and verify delivered packets from the first use of the tables on, under one seeded schedule; every verdict compared with an independent implementation of the curve; distinct = different interleaving hash",
    }]
}

pub fn sc(u: &U) -> ScalarFieldElement {
    ScalarFieldElement::from(U256::from_bytes_be(&curve::be(u)))
}
pub fn un(s: &ScalarFieldElement) -> U {
    curve::from_be(&s.to_uint().to_bytes_be())
}
pub fn pt(p: &Pt) -> Affine {
    match p {
        None => Affine::Zero,
        Some((x, y)) => Affine::new(to_fe(x), to_fe(y)),
    }
}
pub fn unpt(p: &Affine) -> Pt {
    p.as_coordinates().map(|(x, y)| (from_fe(x), from_fe(y)))
}
#[derive(Clone, Debug, PartialEq)]
struct Packet {
    key: Pt,
    digest: U,
    r: U,
    w: U,
}
fn flip(u: &U, rng: &mut Rng) -> U {
    let mut v = *u;
    let b = rng.below(251);
    v[b / 64] ^= 1 << (b % 64);
    curve::reduce(v, &curve::N)
}
fn flipf(f: &F, rng: &mut Rng) -> F {
    loop {
        let mut v = f.0;
        let b = rng.below(252);
        v[b / 64] ^= 1 << (b % 64);
        if !curve::geq(&v, &P) {
            return F(v);
        }
    }
}
/// A value that a careless signer might treat as the same one.
fn related(u: &U, rng: &mut Rng) -> U {
    let mut v = *u;
    match rng.below(9) {
        0 => v[3] ^= 1 << (48 + rng.below(12)),
        1 => v[0] ^= 1 << rng.below(12),
        2 => v[3] ^= 1 << 59,
        3 => v[rng.below(4)] = 0,
        4 => v = curve::neg_n(&v),
        5 => v[rng.below(4)] ^= 1 << rng.below(59),
        6 => {
            let b = curve::be(&v);
            let k = rng.below(32);
            let mut c = b;
            c[k] = 0;
            v = curve::from_be(&c);
        }
        7 => {
            let mut b = curve::be(&v);
            b[0] = 0;
            b.rotate_left(1);
            b[0] &= 7;
            v = curve::from_be(&b);
        }
        _ => v.swap(0, 1 + rng.below(2)),
    }
    curve::reduce(v, &curve::N)
}
/// What the transport or an attacker does to a packet; `others` are packets of other sessions.
fn damage(rng: &mut Rng, p: &mut Packet, d: &U, others: &[Packet]) -> &'static str {
    let o = rng.pick(others);
    match rng.below(24) {
        0 => {
            p.r = flip(&p.r, rng);
            "bit flip in r"
        }
        1 => {
            p.w = flip(&p.w, rng);
            "bit flip in w"
        }
        2 => {
            p.digest = flip(&p.digest, rng);
            "bit flip in the digest"
        }
        3 => {
            if let Some((x, y)) = p.key {
                p.key = Some((flipf(&x, rng), y));
            }
            "bit flip in the key"
        }
        4 => {
            if let Some((x, y)) = p.key {
                p.key = Some((x, flipf(&y, rng)));
            }
            "bit flip in the key"
        }
        5 => {
            p.r = o.r;
            "component of another session"
        }
        6 => {
            p.w = o.w;
            "component of another session"
        }
        7 => {
            p.digest = o.digest;
            "message of another session"
        }
        8 => {
            p.key = o.key;
            "key of another session"
        }
        9 => {
            p.r = o.r;
            p.w = o.w;
            "signature of another session"
        }
        10 => {
            std::mem::swap(&mut p.r, &mut p.w);
            "components exchanged"
        }
        11 => {
            p.r = [0; 4];
            "r chosen zero"
        }
        12 => {
            p.w = [0; 4];
            "w chosen zero"
        }
        13 => {
            p.key = None;
            "key at infinity"
        }
        14 => {
            p.key = Some((rng.field(), rng.field()));
            "key off the curve"
        }
        15 => {
            p.w = curve::neg_n(&p.w);
            "negated w (documented)"
        }
        16 => {
            p.r = curve::neg_n(&p.r);
            "negated r"
        }
        17 => {
            if let Some((x, y)) = p.key {
                p.key = Some((x, -y));
            }
            "negated key"
        }
        18 => {
            p.digest = curve::neg_n(&p.digest);
            "negated digest"
        }
        19 => {
            // the verification sum is the point at infinity
            p.digest = curve::neg_n(&curve::mul_n(&p.r, d));
            "sum at infinity"
        }
        20 => {
            p.r = curve::scalar(rng);
            p.w = curve::scalar(rng);
            "attacker-chosen components"
        }
        21 => {
            p.digest = [0; 4];
            "digest zeroed"
        }
        22 => {
            p.key = curve::generator();
            "generator as key"
        }
        _ => {
            p.digest = [0; 4];
            p.r = [0; 4];
            p.w = [0; 4];
            p.key = if rng.chance(1, 2) { None } else { Some((F::ZERO, F::ZERO)) };
            "all zero packet"
        }
    }
}

fn c15(ctx: &mut Ctx) {
    let mut rng = ctx.rng.clone();
    let mut keys: Vec<U> = vec![];
    while keys.len() < 3 {
        let k = if !keys.is_empty() && rng.chance(1, 3) { related(&keys[0], &mut rng) } else { curve::scalar(&mut rng) };
        if k != [0; 4] {
            keys.push(k);
        }
    }
    let pubs: Vec<Pt> = keys.iter().map(|k| curve::mul(&curve::generator(), k)).collect();
    let mut msgs: Vec<U> = vec![curve::scalar(&mut rng)];
    while msgs.len() < 4 {
        let m = if rng.chance(2, 3) { related(&msgs[rng.below(msgs.len())], &mut rng) } else { curve::scalar(&mut rng) };
        msgs.push(m);
    }
    // packets from other implementations (free nonces), intact and damaged
    let mut honest = vec![];
    for (k, q) in keys.iter().zip(&pubs) {
        for m in &msgs {
            if let Some((r, w)) = curve::sign(k, m, &curve::scalar(&mut rng)) {
                honest.push((Packet { key: *q, digest: *m, r, w }, *k));
            }
        }
    }
    if honest.is_empty() {
        return;
    }
    let all: Vec<Packet> = honest.iter().map(|h| h.0.clone()).collect();
    let mut offers: Vec<(Packet, bool, &str)> = vec![];
    for (p, d) in &honest {
        offers.push((p.clone(), true, "intact"));
        for _ in 0..4 {
            let mut q = p.clone();
            let what = damage(&mut rng, &mut q, d, &all);
            let ok = curve::verify(&q.key, &q.digest, &q.r, &q.w);
            ctx.fault(what, 1);
            offers.push((q, ok, what));
        }
    }
    // a forger fixes the verification sum first and chooses the message afterwards; only the exact r will do
    for q in pubs.iter() {
        let (a, b) = (curve::scalar(&mut rng), curve::scalar(&mut rng));
        let sum = curve::combine(&a, q, &b);
        let (x, y) = match sum {
            Some(p) => p,
            None => continue,
        };
        let exact = curve::reduce(x.to_raw(), &curve::N);
        let mut rs = vec![(exact, "message chosen after the signature")];
        for _ in 0..4 {
            let mut r = exact;
            let what = match rng.below(7) {
                0 => {
                    let k = rng.below(4);
                    for (i, l) in r.iter_mut().enumerate() {
                        if i != k {
                            *l = rng.next() >> 5;
                        }
                    }
                    "forged r agreeing in one limb"
                }
                1 | 2 => {
                    r[rng.below(4)] = rng.next() >> 5;
                    "forged r differing in one limb"
                }
                3 => {
                    r = flip(&r, &mut rng);
                    "forged r differing in one bit"
                }
                4 => {
                    r = curve::neg_n(&r);
                    "forged r negated"
                }
                5 => {
                    r = curve::reduce(y.to_raw(), &curve::N);
                    "forged r from the other coordinate"
                }
                _ => {
                    r = curve::reduce((-x).to_raw(), &curve::N);
                    "forged r from the negated coordinate"
                }
            };
            rs.push((curve::reduce(r, &curve::N), what));
        }
        for (r, what) in rs {
            // w = b / r and digest = a r / b give the sum a G + b Q
            if r == [0; 4] || a == [0; 4] || b == [0; 4] {
                continue;
            }
            let w = curve::mul_n(&b, &curve::inv_n(&r));
            let digest = curve::mul_n(&a, &curve::inv_n(&w));
            let p = Packet { key: *q, digest, r, w };
            let ok = curve::verify(&p.key, &p.digest, &p.r, &p.w);
            assert!(ok == (r == exact), "reference forgery");
            ctx.fault(what, 1);
            offers.push((p, ok, what));
        }
    }
    for (p, ok, w) in &offers {
        assert!(*w != "intact" || (*ok && curve::verify(&p.key, &p.digest, &p.r, &p.w)), "reference signature");
        ctx.input(hash_of(format!("{:?}", p).as_bytes()));
    }
    for i in (1..offers.len()).rev() {
        offers.swap(i, rng.below(i + 1));
    }
    let offers = Arc::new(offers);
    let job = Arc::new((keys.clone(), msgs.clone()));
    let signers = 1 + rng.below(3);
    let verifiers = 1 + rng.below(3);
    let sched = Sched::random(&mut rng);
    let mut runs = vec![];
    for (pass, sched) in [(0, &sched), (1, &quiet())] {
        let run = ctx.sim("sign and verify", sched, &[], &mut |_| {
            let hs: Vec<_> = (0..signers)
                .map(|_| {
                    let job = job.clone();
                    rt::spawn(move || {
                        let mut out = vec![];
                        for k in &job.0 {
                            let k = PrivateKey::from(sc(k));
                            let q = PublicKey::from(&k);
                            for m in &job.1 {
                                let m = sc(m);
                                let s = k.sign(&m);
                                let own = catch_unwind(AssertUnwindSafe(|| q.verify(&m, &s))).unwrap_or(false);
                                let x = unpt(q.as_affine()).map_or("".into(), |(x, y)| hex(&x.to_bytes()) + &hex(&y.to_bytes()));
                                out.push(json!([hex(&curve::be(&un(s.r()))), hex(&curve::be(&un(s.w()))), x, own]));
                            }
                        }
                        out
                    })
                })
                .collect();
            let vs: Vec<_> = (0..verifiers)
                .map(|v| {
                    let offers = offers.clone();
                    rt::spawn(move || {
                        let mut out = vec![];
                        for (i, (p, _, _)) in offers.iter().enumerate() {
                            if i % verifiers != v || pass == 1 {
                                continue;
                            }
                            let r = catch_unwind(AssertUnwindSafe(|| PublicKey::from(pt(&p.key)).verify(&sc(&p.digest), &Signature::new(sc(&p.r), sc(&p.w)))));
                            // the same sum through the table-free routine
                            let s = catch_unwind(AssertUnwindSafe(|| match &p.key {
                                Some(_) if curve::on_curve(&p.key) => {
                                    let j = double_mul(&GENERATOR, &(sc(&p.digest) * sc(&p.w)), &pt(&p.key), &(sc(&p.r) * sc(&p.w)));
                                    unpt(&Affine::from(&j)).map_or(json!("zero"), |(x, _)| json!(hex(&x.to_bytes())))
                                }
                                _ => Value::Null,
                            }));
                            out.push(json!([i, match r { Ok(b) => b as u8, Err(_) => 2 }, s.unwrap_or(json!("panic"))]));
                        }
                        out
                    })
                })
                .collect();
            let a: Vec<Value> = hs.into_iter().map(|h| json!(h.join().unwrap_or_default())).collect();
            let b: Vec<Value> = vs.into_iter().flat_map(|h| h.join().unwrap_or_default()).collect();
            json!({"signed": a, "verdicts": b})
        });
        if !ctx.ended(&run) {
            return;
        }
        if run.out["panic"].is_string() {
            ctx.fail("crash", run.out["panic"].to_string());
            return;
        }
        runs.push(run);
    }
    let first = runs[1].out["signed"][0].clone();
    if first.as_array().map_or(0, |v| v.len()) != keys.len() * msgs.len() {
        ctx.fail("signer died", first.to_string());
        return;
    }
    for run in &runs {
        for (t, l) in run.out["signed"].as_array().unwrap().iter().enumerate() {
            if *l != first {
                ctx.fail("signature or key depends on the schedule", format!("thread {} of {} with {} verifiers, {}", t, signers, verifiers, sched.name()));
                return;
            }
        }
    }
    ctx.count("signatures", (keys.len() * msgs.len() * signers) as u64 * 2);
    let mut rs: Vec<(String, usize)> = vec![];
    for (i, s) in first.as_array().unwrap().iter().enumerate() {
        let (k, m) = (i / msgs.len(), i % msgs.len());
        let want = pubs[k].map_or("".into(), |(x, y)| hex(&x.to_bytes()) + &hex(&y.to_bytes()));
        if s[2] != json!(want) {
            ctx.fail("public key is not the private multiple of the generator", format!("private key {:x?}", keys[k]));
            return;
        }
        let (r, w) = (curve::from_be(&unhex(s[0].as_str().unwrap())), curve::from_be(&unhex(s[1].as_str().unwrap())));
        if s[3] != json!(true) || !curve::verify(&pubs[k], &msgs[m], &r, &w) {
            ctx.fail("own signature does not verify", format!("private key {:x?} digest {:x?}: own verdict {}", keys[k], msgs[m], s[3]));
            return;
        }
        rs.push((s[0].as_str().unwrap().into(), i));
    }
    for (i, a) in rs.iter().enumerate() {
        for b in &rs[..i] {
            let same = keys[a.1 / msgs.len()] == keys[b.1 / msgs.len()] && msgs[a.1 % msgs.len()] == msgs[b.1 % msgs.len()];
            if a.0 == b.0 && !same {
                ctx.fail("nonce used for two messages", format!("keys {:x?} messages {:x?}: requests {} and {}", keys, msgs, b.1, a.1));
                return;
            }
        }
    }
    let verdicts = runs[0].out["verdicts"].as_array().unwrap().clone();
    if verdicts.len() != offers.len() {
        ctx.fail("verifier died", format!("{} of {} answers", verdicts.len(), offers.len()));
        return;
    }
    ctx.count("packets judged", offers.len() as u64);
    for v in &verdicts {
        let (p, ok, what) = &offers[v[0].as_u64().unwrap() as usize];
        let got = v[1].as_u64().unwrap();
        if got == 2 {
            ctx.fail("verifier crashed", format!("{}: {:x?}", what, p));
            return;
        }
        if (got == 1) != *ok {
            ctx.fail(if *ok { "valid signature refused" } else { "invalid signature accepted" }, format!("{}: {:x?}", what, p));
            return;
        }
        if let Some(s) = v[2].as_str() {
            let want = curve::combine(&curve::mul_n(&p.digest, &p.w), &p.key, &curve::mul_n(&p.r, &p.w)).map_or("zero".to_string(), |(x, _)| hex(&x.to_bytes()));
            if s != want {
                ctx.fail("verification sum wrong", format!("{}: {:x?}: {} instead of {}", what, p, s, want));
                return;
            }
        }
    }
    ctx.sample(format!("{} signers, {} verifiers, {} packets, {}", signers, verifiers, offers.len(), sched.name()));
}
