//! Encoded values over a faulty transport: C19.
use super::*;
use crate::curve;
use crate::props::sig::{pt, sc};
use parity_scale_codec::{Decode, Encode};
use serde::{de::DeserializeOwned, Serialize};
use std::sync::Arc;
use zkp_elliptic_curve::{Affine, ScalarFieldElement};
use zkp_elliptic_curve_crypto::{PrivateKey, PublicKey, Signature};
use zkp_primefield::FieldElement;
use zkp_u256::U256;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C19",
        quick: 30000,
        thorough: 3000000,
        run: c19,
        real: "text (serde, human readable), binary (serde) and SCALE encoders and decoders of zkp-u256, zkp-primefield, zkp-elliptic-curve and zkp-elliptic-curve-crypto",
        stub: "transport simulated (bit flips, cuts, extensions, splices, replaced characters, out-of-range numbers); containers are serde_json, bincode and parity-scale-codec unmodified; thread scheduling simulated",
        rule: "one evaluation is one simulated session in which senders encode values, the transport damages some of them and concurrent receivers decode; distinct_inputs = different received encodings",
    }]
}

const KINDS: [&str; 7] = ["integer", "field element", "scalar", "point", "private key", "public key", "signature"];
const FORMATS: [&str; 4] = ["text", "binary", "scale", "decimal"];

enum Val {
    Int(U256),
    Field(FieldElement),
    Scalar(ScalarFieldElement),
    Point(Affine),
    Private(PrivateKey),
    Public(PublicKey),
    Sig(Signature),
}
fn enc<T: Serialize + Encode>(v: &T, format: usize) -> Vec<u8> {
    match format {
        0 => serde_json::to_vec(v).unwrap(),
        1 => bincode::serialize(v).unwrap(),
        _ => v.encode(),
    }
}
/// Re-encoding of what was decoded and how many bytes were taken; None: refused.
fn dec<T: Serialize + Encode + DeserializeOwned + Decode + PartialEq>(b: &[u8], format: usize, sent: &T) -> Option<(Vec<u8>, usize, bool)> {
    let (v, n): (T, usize) = match format {
        0 => (serde_json::from_slice(b).ok()?, b.len()),
        1 => {
            let mut r = b;
            let v = bincode::deserialize_from(&mut r).ok()?;
            let n = b.len() - r.len();
            (v, n)
        }
        _ => {
            let mut r = b;
            let v = T::decode(&mut r).ok()?;
            let n = b.len() - r.len();
            (v, n)
        }
    };
    Some((enc(&v, format), n, v == *sent))
}
impl Val {
    fn draw(kind: usize, rng: &mut Rng) -> Val {
        let raw = |rng: &mut Rng| -> U256 {
            match rng.below(8) {
                0 => U256::from(rng.below(300) as u64),
                1 => U256::MAX,
                2 => U256::from_bytes_be(&curve::be(&P)),
                3 => U256::from_bytes_be(&curve::be(&curve::N)),
                _ => U256::from_limbs([rng.next(), rng.next(), rng.next(), rng.next()]),
            }
        };
        let point = |rng: &mut Rng| match rng.below(4) {
            0 => None,
            1 => Some((rng.field(), rng.field())),
            _ => curve::mul(&curve::generator(), &[rng.next(), 0, 0, 0]),
        };
        match kind {
            0 => Val::Int(raw(rng)),
            1 => Val::Field(to_fe(&rng.field())),
            2 => Val::Scalar(sc(&curve::scalar(rng))),
            3 => Val::Point(pt(&point(rng))),
            4 => Val::Private(PrivateKey::from(sc(&curve::scalar(rng)))),
            5 => Val::Public(PublicKey::from(pt(&point(rng)))),
            _ => Val::Sig(Signature::new(sc(&curve::scalar(rng)), sc(&curve::scalar(rng)))),
        }
    }
    fn enc(&self, f: usize) -> Vec<u8> {
        match self {
            Val::Int(v) if f == 3 => v.to_decimal_string().into_bytes(),
            Val::Int(v) => enc(v, f),
            Val::Field(v) => enc(v, f),
            Val::Scalar(v) => enc(v, f),
            Val::Point(v) => enc(v, f),
            Val::Private(v) => enc(v, f),
            Val::Public(v) => enc(v, f),
            Val::Sig(v) => enc(v, f),
        }
    }
    fn dec(&self, b: &[u8], f: usize) -> Option<(Vec<u8>, usize, bool)> {
        match self {
            Val::Int(v) if f == 3 => {
                let x = U256::from_decimal_str(std::str::from_utf8(b).ok()?).ok()?;
                Some((x.to_decimal_string().into_bytes(), b.len(), x == *v))
            }
            Val::Int(v) => dec(b, f, v),
            Val::Field(v) => dec(b, f, v),
            Val::Scalar(v) => dec(b, f, v),
            Val::Point(v) => dec(b, f, v),
            Val::Private(v) => dec(b, f, v),
            Val::Public(v) => dec(b, f, v),
            Val::Sig(v) => dec(b, f, v),
        }
    }
}

fn damage(rng: &mut Rng, b: &mut Vec<u8>, format: usize, other: &[u8]) -> &'static str {
    if b.is_empty() {
        b.extend_from_slice(other);
        return "spliced with another message";
    }
    let n = b.len();
    if format == 3 && rng.chance(1, 2) {
        let max = "115792089237316195423570985008687907853269984665640564039457584007913129639935";
        *b = match rng.below(6) {
            0 => format!("{}{}", &max[..77], (b'0' + rng.below(10) as u8) as char).into_bytes(),
            1 => format!("{}4{}", &max[..76], (b'0' + rng.below(10) as u8) as char).into_bytes(),
            2 => format!("{}{}", max, rng.below(10)).into_bytes(),
            3 => format!("{}{}", "0".repeat(rng.below(90)), String::from_utf8_lossy(b)).into_bytes(),
            4 => {
                let mut c: Vec<char> = String::from_utf8_lossy(b).chars().collect();
                let i = rng.below(c.len());
                c[i] = ['a', '-', ' ', 'é', '+', '٣', '_', '€'][rng.below(8)];
                c.into_iter().collect::<String>().into_bytes()
            }
            _ => (0..70 + rng.below(12)).map(|_| b'0' + rng.below(10) as u8).collect(),
        };
        return "decimal text rewritten";
    }
    match rng.below(if format == 0 { 15 } else { 9 }) {
        0 => {
            let i = rng.below(n);
            b[i] ^= 1 << rng.below(8);
            "bit flip"
        }
        1 => {
            b.truncate(rng.below(n));
            "truncation"
        }
        2 => {
            for _ in 0..1 + rng.below(40) {
                b.push(rng.next() as u8);
            }
            "extension"
        }
        3 => {
            let i = rng.below(n);
            let j = (i + 1 + rng.below(8)).min(n);
            b.drain(i..j);
            "bytes lost"
        }
        4 => {
            let i = rng.below(n);
            let x = b[i];
            b.insert(i, x);
            "byte duplicated"
        }
        5 => {
            let i = rng.below(n.min(other.len()) + 1);
            b.truncate(i);
            b.extend_from_slice(&other[i.min(other.len())..]);
            "spliced with another message"
        }
        6 => {
            let i = rng.below(n);
            for x in &mut b[i..] {
                *x = if format == 0 { b'f' } else { 0xff };
            }
            "tail overwritten"
        }
        7 if format != 0 => {
            // numbers at and around the moduli
            let m = if rng.chance(1, 2) { P } else { curve::N };
            let d = rng.below(3) as u64;
            let mut v = m;
            v[0] = v[0].wrapping_add(d).wrapping_sub((d == 2) as u64 * 3);
            let mut x = curve::be(&v);
            if format == 2 {
                x.reverse();
            }
            let at = [0, 1, 4, 32, 36, 33][rng.below(6)];
            for (i, y) in x.iter().enumerate() {
                if at + i < b.len() {
                    b[at + i] = *y;
                }
            }
            "number near the modulus"
        }
        7 => {
            b.reverse();
            "reversed"
        }
        8 => {
            let k = rng.below(n);
            for x in &mut b[..k] {
                *x = 0;
            }
            "head zeroed"
        }
        k => {
            // text: rewrite one quoted string
            let s = String::from_utf8_lossy(b).into_owned();
            let q: Vec<usize> = s.match_indices("\"0x").map(|x| x.0).collect();
            if q.is_empty() {
                *b = s.replace('"', "").into_bytes();
                return "quotes lost";
            }
            let at = rng.pick(&q);
            let end = at + 1 + s[at + 1..].find('"').unwrap_or(0);
            let body = &s[at + 1..end];
            if body.is_empty() {
                return "text rewritten";
            }
            let m = if rng.chance(1, 2) { P } else { curve::N };
            let new = match k {
                9 => body.to_uppercase().replace("0X", "0x"),
                10 => body.trim_start_matches("0x").to_string(),
                11 => format!("0x{}{}", "0".repeat(1 + rng.below(5)), body.trim_start_matches("0x")),
                12 => {
                    let mut v = m;
                    v[0] = v[0].wrapping_add(rng.below(3) as u64);
                    format!("0x{}", hex(&curve::be(&v)))
                }
                13 => {
                    let mut c: Vec<char> = body.chars().collect();
                    let i = rng.below(c.len());
                    c[i] = ['g', '-', ' ', 'é', '+', 'x', '0', '_'][rng.below(8)];
                    c.into_iter().collect()
                }
                _ => format!("0x{}", body.chars().skip(2).take(rng.below(20)).collect::<String>()),
            };
            *b = format!("{}{}{}", &s[..at + 1], new, &s[end..]).into_bytes();
            "text rewritten"
        }
    }
}

/// Numbers of a text message in canonical form, whatever their spelling; None if some string is not a number.
fn denotes(v: &Value) -> Option<Value> {
    Some(match v {
        Value::String(s) => {
            // enum tags stay as they are
            if s == "Zero" || s == "Point" {
                return Some(v.clone());
            }
            let mut d = s.as_str();
            while d.starts_with("0x") {
                d = &d[2..];
            }
            if !d.bytes().all(|b| b.is_ascii_hexdigit()) {
                return None;
            }
            let d = d.to_lowercase();
            if d.len() > 64 {
                return None;
            }
            json!(d.trim_start_matches('0'))
        }
        Value::Array(a) => Value::Array(a.iter().map(denotes).collect::<Option<_>>()?),
        Value::Object(o) => Value::Object(o.iter().map(|(k, x)| denotes(x).map(|y| (k.clone(), y))).collect::<Option<_>>()?),
        _ => v.clone(),
    })
}

fn c19(ctx: &mut Ctx) {
    let mut rng = ctx.rng.clone();
    let n = 24;
    let mut msgs: Vec<(usize, usize, Val, Vec<u8>, &str)> = vec![];
    let seed = rng.next();
    for i in 0..n {
        let mut r = Rng::new(seed ^ i as u64);
        let kind = r.below(7);
        let format = r.below(if kind == 0 { 4 } else { 3 });
        let v = Val::draw(kind, &mut r);
        let mut b = v.enc(format);
        let mut what = "intact";
        if r.chance(3, 4) {
            let other = Val::draw(kind, &mut r).enc(format);
            for _ in 0..1 + r.below(5) / 4 {
                what = damage(&mut r, &mut b, format, &other);
            }
            ctx.fault(what, 1);
        }
        ctx.count(&format!("{} as {}", KINDS[kind], FORMATS[format]), 1);
        ctx.input(hash_of(&b));
        msgs.push((kind, format, v, b, what));
    }
    let msgs = Arc::new(msgs);
    let receivers = 1 + rng.below(3);
    let sched = Sched::random(&mut rng);
    let run = ctx.sim("deliver", &sched, &[], &mut |_| {
        let hs: Vec<_> = (0..receivers)
            .map(|k| {
                let msgs = msgs.clone();
                rt::spawn(move || {
                    let mut out = vec![];
                    for (i, (_, f, v, b, _)) in msgs.iter().enumerate() {
                        if i % receivers == k {
                            rt::point();
                            out.push(match catch_unwind(AssertUnwindSafe(|| v.dec(b, *f))) {
                                Ok(None) => json!([i, 0]),
                                Ok(Some((again, used, same))) => json!([i, 1, hex(&again), used, same]),
                                Err(e) => json!([i, 2, rt::panic_text(&e)]),
                            });
                        }
                    }
                    out
                })
            })
            .collect();
        json!(hs.into_iter().flat_map(|h| h.join().unwrap_or_default()).collect::<Vec<_>>())
    });
    if !ctx.ended(&run) {
        return;
    }
    let got = run.out.as_array().cloned().unwrap_or_default();
    if got.len() != msgs.len() {
        ctx.fail("receiver died", run.out.to_string());
        return;
    }
    for g in &got {
        let (kind, format, v, b, what) = &msgs[g[0].as_u64().unwrap() as usize];
        let sent = v.enc(*format);
        let shown = if *format % 3 == 0 { String::from_utf8_lossy(b).into_owned() } else { hex(b) };
        let where_ = format!("{} as {}, {}: {}", KINDS[*kind], FORMATS[*format], what, shown);
        match g[1].as_u64().unwrap() {
            2 => {
                ctx.fail("receiver crashed", format!("{}: {}", where_, g[2]));
                return;
            }
            0 => {
                ctx.count("refused", 1);
                if *b == sent {
                    ctx.fail("intact encoding refused", where_);
                    return;
                }
            }
            _ => {
                ctx.count("decoded", 1);
                let again = unhex(g[2].as_str().unwrap());
                if *b == sent && g[4] != json!(true) {
                    ctx.fail("value changed in transit", where_);
                    return;
                }
                // equal values have equal encodings and the other way round
                if (again == sent) != (g[4] == json!(true)) {
                    ctx.fail("different values with one encoding", where_);
                    return;
                }
                let faithful = if *format == 3 {
                    let t = String::from_utf8_lossy(b).into_owned();
                    let d = t.trim_start_matches('0');
                    t.bytes().all(|x| x.is_ascii_digit()) && !t.is_empty() && String::from_utf8_lossy(&again) == if d.is_empty() { "0" } else { d }
                } else if *format == 0 {
                    match (serde_json::from_slice::<Value>(b), serde_json::from_slice::<Value>(&again)) {
                        (Ok(x), Ok(y)) => denotes(&x).is_some() && extra(&denotes(&x), &denotes(&y)),
                        _ => false,
                    }
                } else {
                    let used = g[3].as_u64().unwrap() as usize;
                    used <= b.len() && again == b[..used]
                };
                if !faithful {
                    ctx.fail("decoded value is not what was received", format!("{} became {}", where_, if *format % 3 == 0 { String::from_utf8_lossy(&again).into_owned() } else { hex(&again) }));
                    return;
                }
            }
        }
    }
    ctx.sample(format!("{} messages to {} receivers, first: {} as {}, {}", msgs.len(), receivers, KINDS[msgs[0].0], FORMATS[msgs[0].1], msgs[0].4));
}
/// Every number decoded is the number received (unknown extra fields are ignored by the container, arrays stand for structs).
fn extra(x: &Option<Value>, y: &Option<Value>) -> bool {
    fn go(x: &Value, y: &Value) -> bool {
        match (x, y) {
            (Value::Object(a), Value::Object(b)) => b.iter().all(|(k, v)| a.get(k).map_or(false, |u| go(u, v))),
            (Value::Array(a), Value::Object(b)) => a.len() == b.len(),
            (Value::Array(a), Value::Array(b)) => a.len() == b.len() && a.iter().zip(b).all(|(p, q)| go(p, q)),
            (Value::Object(a), Value::String(t)) if t == "Zero" => a.len() == 1 && a.get("Zero").map_or(false, Value::is_null),
            _ => x == y,
        }
    }
    match (x, y) {
        (Some(a), Some(b)) => go(a, b),
        _ => false,
    }
}
