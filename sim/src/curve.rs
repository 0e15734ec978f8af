//! Independent implementation of the curve y^2 = x^3 + x + beta and of the signature equation.
use crate::field::*;

pub type U = [u64; 4];
pub const N: U = [0x1e66_a241_adc6_4d2f, 0xb781_126d_cae7_b232, 0xffff_ffff_ffff_ffff, 0x0800_0000_0000_0010];

pub fn geq(a: &U, b: &U) -> bool {
    for i in (0..4).rev() {
        if a[i] != b[i] {
            return a[i] > b[i];
        }
    }
    true
}
pub fn sub_raw(a: &U, b: &U) -> U {
    let mut r = [0; 4];
    let mut br = 0u64;
    for i in 0..4 {
        let (x, b1) = a[i].overflowing_sub(b[i]);
        let (x, b2) = x.overflowing_sub(br);
        r[i] = x;
        br = (b1 || b2) as u64;
    }
    r
}
pub fn reduce(mut a: U, m: &U) -> U {
    // values are below 2^256 and the moduli above 2^251: at most 31 subtractions
    while geq(&a, m) {
        a = sub_raw(&a, m);
    }
    a
}
pub fn add_n(a: &U, b: &U) -> U {
    let mut r = [0; 4];
    let mut c = 0u128;
    for i in 0..4 {
        c += a[i] as u128 + b[i] as u128;
        r[i] = c as u64;
        c >>= 64;
    }
    reduce(r, &N)
}
pub fn neg_n(a: &U) -> U {
    if *a == [0; 4] {
        *a
    } else {
        sub_raw(&N, a)
    }
}
pub fn mul_n(a: &U, b: &U) -> U {
    let mut r = [0; 4];
    for i in (0..252).rev() {
        r = add_n(&r, &r);
        if b[i / 64] >> (i % 64) & 1 == 1 {
            r = add_n(&r, a);
        }
    }
    r
}
pub fn inv_n(a: &U) -> U {
    let e = sub_raw(&N, &[2, 0, 0, 0]);
    let mut r = [1, 0, 0, 0];
    for i in (0..252).rev() {
        r = mul_n(&r, &r);
        if e[i / 64] >> (i % 64) & 1 == 1 {
            r = mul_n(&r, a);
        }
    }
    r
}
pub fn be(u: &U) -> [u8; 32] {
    let mut b = [0; 32];
    for i in 0..4 {
        b[8 * i..8 * i + 8].copy_from_slice(&u[3 - i].to_be_bytes());
    }
    b
}
pub fn from_be(b: &[u8]) -> U {
    F::limbs_from_bytes(b)
}
fn parse(s: &str) -> U {
    let mut b = [0u8; 32];
    for i in 0..32 {
        b[i] = u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap();
    }
    from_be(&b)
}
pub type Pt = Option<(F, F)>;
pub fn beta() -> F {
    F::from_raw(parse("06f21413efbe40de150e596d72f7a8c5609ad26c15c915c1f4cdfcb99cee9e89"))
}
pub fn generator() -> Pt {
    Some((
        F::from_raw(parse("01ef15c18599971b7beced415a40f0c7deacfd9b0d1819e03d723d8bc943cfca")),
        F::from_raw(parse("005668060aa49730b7be4801df46ec62de53ecd11abe43a32873000c36e8dc1f")),
    ))
}
pub fn on_curve(p: &Pt) -> bool {
    match p {
        None => true,
        Some((x, y)) => *y * *y == *x * *x * *x + *x + beta(),
    }
}
#[derive(Clone, Copy)]
struct J(F, F, F);
fn dbl(p: J) -> J {
    if p.2.is_zero() || p.1.is_zero() {
        return J(F::one(), F::one(), F::ZERO);
    }
    let y2 = p.1 * p.1;
    let s = F::from_u64(4) * p.0 * y2;
    let z2 = p.2 * p.2;
    let m = F::from_u64(3) * p.0 * p.0 + z2 * z2;
    let x = m * m - s - s;
    J(x, m * (s - x) - F::from_u64(8) * y2 * y2, F::from_u64(2) * p.1 * p.2)
}
fn addj(p: J, q: J) -> J {
    if p.2.is_zero() {
        return q;
    }
    if q.2.is_zero() {
        return p;
    }
    let (z1, z2) = (p.2 * p.2, q.2 * q.2);
    let (u1, u2) = (p.0 * z2, q.0 * z1);
    let (s1, s2) = (p.1 * z2 * q.2, q.1 * z1 * p.2);
    if u1 == u2 {
        return if s1 == s2 { dbl(p) } else { J(F::one(), F::one(), F::ZERO) };
    }
    let h = u2 - u1;
    let r = s2 - s1;
    let h2 = h * h;
    let h3 = h * h2;
    let v = u1 * h2;
    let x = r * r - h3 - v - v;
    J(x, r * (v - x) - s1 * h3, h * p.2 * q.2)
}
fn up(p: &Pt) -> J {
    match p {
        None => J(F::one(), F::one(), F::ZERO),
        Some((x, y)) => J(*x, *y, F::one()),
    }
}
fn down(p: J) -> Pt {
    if p.2.is_zero() {
        return None;
    }
    let zi = p.2.inv();
    let z2 = zi * zi;
    Some((p.0 * z2, p.1 * z2 * zi))
}
fn mulj(p: &Pt, k: &U) -> J {
    let mut r = up(&None);
    let q = up(p);
    for i in (0..256).rev() {
        r = dbl(r);
        if k[i / 64] >> (i % 64) & 1 == 1 {
            r = addj(r, q);
        }
    }
    r
}
pub fn mul(p: &Pt, k: &U) -> Pt {
    down(mulj(p, k))
}
pub fn add(p: &Pt, q: &Pt) -> Pt {
    down(addj(up(p), up(q)))
}
/// a * G + b * K
pub fn combine(a: &U, k: &Pt, b: &U) -> Pt {
    down(addj(mulj(&generator(), a), mulj(k, b)))
}
/// The documented verification equation: x(digest*w*G + r*w*K) = r.
pub fn verify(key: &Pt, digest: &U, r: &U, w: &U) -> bool {
    if *r == [0; 4] || *w == [0; 4] || key.is_none() || !on_curve(key) {
        return false;
    }
    match combine(&mul_n(digest, w), key, &mul_n(r, w)) {
        None => false,
        Some((x, _)) => reduce(x.to_raw(), &N) == *r,
    }
}
/// A valid signature with a freely chosen nonce.
pub fn sign(d: &U, digest: &U, k: &U) -> Option<(U, U)> {
    let r = reduce(mul(&generator(), k)?.0.to_raw(), &N);
    let s = add_n(&mul_n(&r, d), digest);
    if r == [0; 4] || s == [0; 4] || *k == [0; 4] {
        return None;
    }
    Some((r, mul_n(k, &inv_n(&s))))
}
pub fn scalar(rng: &mut Rng) -> U {
    match rng.below(12) {
        0 => [rng.below(40) as u64, 0, 0, 0],
        1 => sub_raw(&N, &[1 + rng.below(40) as u64, 0, 0, 0]),
        2 => {
            let mut u = [0; 4];
            let b = rng.below(251);
            u[b / 64] = 1 << (b % 64);
            u
        }
        3 => {
            let b = 1 + rng.below(250);
            let mut u = [!0u64; 4];
            for i in 0..4 {
                if 64 * i >= b {
                    u[i] = 0;
                } else if 64 * (i + 1) > b {
                    u[i] = (1u64 << (b % 64)) - 1;
                }
            }
            reduce(u, &N)
        }
        _ => reduce([rng.next(), rng.next(), rng.next(), rng.next() >> 4], &N),
    }
}
