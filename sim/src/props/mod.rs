use crate::driver::*;
use crate::expr::*;
use crate::field::*;
use crate::rt;
use crate::rt::Sched;
use crate::scen::Class;
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub mod alloc;
pub mod chain;
pub mod codec;
pub mod compose;
pub mod export;
pub mod faults;
pub mod fft;
pub mod merkle;
pub mod mixed;
pub mod mmapvec;
pub mod onchain;
pub mod random;
pub mod sig;
pub mod stark;
pub mod wire;

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
/// Worker pool sizes of the simulated machine.
pub fn pool_size(rng: &mut Rng) -> usize {
    [1, 2, 2, 3, 4, 4, 5, 6, 7, 8, 8, 12, 16][rng.below(13)]
}
/// Outcome of calling the real prover, as JSON.
pub fn prove_json(sys: &Sys, trace: &[Vec<F>]) -> Value {
    match catch_unwind(AssertUnwindSafe(|| zkp_stark::prove(&sys.to_repo(), &table(trace)))) {
        Ok(Ok(p)) => json!({"bytes": hex(p.as_bytes())}),
        Ok(Err(e)) => json!({"error": format!("{:?}", e)}),
        Err(e) => json!({"panic": rt::panic_text(&e)}),
    }
}
/// Real verifier: 0 rejected, 1 accepted, 2 panicked.
pub fn verify_code(c: &zkp_stark::Constraints, bytes: &[u8]) -> (u8, String) {
    match catch_unwind(AssertUnwindSafe(|| zkp_stark::verify(c, &zkp_stark::Proof::from_bytes(bytes.to_vec())))) {
        Ok(Ok(())) => (1, String::new()),
        Ok(Err(e)) => (0, format!("{:?}", e)),
        Err(e) => (2, rt::panic_text(&e)),
    }
}
pub fn describe(sys: &Sys) -> String {
    format!(
        "{} constraints={} seed_len={} blowup={} queries={} fri={:?} pow={}",
        sys.label,
        sys.exprs.len(),
        sys.seed.len(),
        sys.blowup,
        sys.queries,
        sys.fri,
        sys.pow_bits
    )
}
pub fn sys_hash(sys: &Sys) -> u64 {
    hash_of(format!("{:?}{:?}{:?}", sys.exprs, sys.claims, describe(sys)).as_bytes())
}
pub fn first_diff(a: &[u8], b: &[u8]) -> usize {
    a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()))
}
pub fn segment(map: &crate::protocol::Map, at: usize) -> String {
    map.iter().find(|(_, o, l)| at >= *o && at < o + l).map_or("end".into(), |(n, _, _)| n.clone())
}
pub fn class(rng: &mut Rng) -> Class {
    match rng.below(20) {
        0..=6 => Class::Tiny,
        7..=14 => Class::Small,
        _ => Class::Medium,
    }
}
pub fn quiet() -> Sched {
    Sched::serial()
}

pub fn all() -> Vec<Prop> {
    let mut v = stark::props();
    v.extend(wire::props());
    v.extend(merkle::props());
    v.extend(fft::props());
    v.extend(alloc::props());
    v.extend(mmapvec::props());
    v.extend(export::props());
    v.extend(faults::props());
    v.extend(mixed::props());
    v.extend(sig::props());
    v.extend(codec::props());
    v.extend(compose::props());
    v.extend(random::props());
    v.extend(chain::props());
    v.extend(onchain::props());
    v
}
