//! Independent implementation of the STARK prime field, used by every oracle.
//! p = 2^251 + 17 * 2^192 + 1, Montgomery form with R = 2^256 (the form the proof bytes use).
use std::ops::*;

pub const P: [u64; 4] = [1, 0, 0, 0x0800_0000_0000_0011];

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct F(pub [u64; 4]);

fn geq(a: &[u64; 4], b: &[u64; 4]) -> bool {
    for i in (0..4).rev() {
        if a[i] != b[i] {
            return a[i] > b[i];
        }
    }
    true
}
fn sub_raw(a: &[u64; 4], b: &[u64; 4]) -> ([u64; 4], bool) {
    let mut r = [0; 4];
    let mut br = false;
    for i in 0..4 {
        let (x, b1) = a[i].overflowing_sub(b[i]);
        let (x, b2) = x.overflowing_sub(br as u64);
        r[i] = x;
        br = b1 || b2;
    }
    (r, br)
}
fn add_raw(a: &[u64; 4], b: &[u64; 4]) -> [u64; 4] {
    let mut r = [0; 4];
    let mut c = 0u128;
    for i in 0..4 {
        c += a[i] as u128 + b[i] as u128;
        r[i] = c as u64;
        c >>= 64;
    }
    r
}

impl F {
    pub const ZERO: F = F([0; 4]);
    pub fn one() -> F {
        F::from_u64(1)
    }
    pub fn from_u64(x: u64) -> F {
        F::from_raw([x, 0, 0, 0])
    }
    /// From an ordinary (non Montgomery) integer below p.
    pub fn from_raw(x: [u64; 4]) -> F {
        // multiply by R^2 (computed by doubling, so that no magic constant has to be trusted)
        F(x) * F(r2())
    }
    /// Ordinary integer value.
    pub fn to_raw(self) -> [u64; 4] {
        (self * F([1, 0, 0, 0])).0
    }
    pub fn from_i64(x: i64) -> F {
        if x < 0 {
            -F::from_u64(x.unsigned_abs())
        } else {
            F::from_u64(x as u64)
        }
    }
    pub fn is_zero(&self) -> bool {
        self.0 == [0; 4]
    }
    pub fn pow(self, e: u64) -> F {
        self.pow_limbs(&[e, 0, 0, 0])
    }
    pub fn pow_limbs(self, e: &[u64; 4]) -> F {
        let mut r = F::one();
        for i in (0..256).rev() {
            r = r * r;
            if e[i / 64] >> (i % 64) & 1 == 1 {
                r = r * self;
            }
        }
        r
    }
    pub fn inv(self) -> F {
        let (e, _) = sub_raw(&P, &[2, 0, 0, 0]);
        self.pow_limbs(&e)
    }
    /// Primitive n-th root of unity, 3^((p-1)/n), n a power of two.
    pub fn root(n: usize) -> F {
        assert!(n.is_power_of_two());
        let k = n.trailing_zeros() as usize;
        let (mut e, _) = sub_raw(&P, &[1, 0, 0, 0]);
        for _ in 0..k {
            for i in 0..4 {
                e[i] = e[i] >> 1 | if i < 3 { e[i + 1] << 63 } else { 0 };
            }
        }
        F::from_u64(3).pow_limbs(&e)
    }
    pub fn to_bytes(self) -> [u8; 32] {
        let mut b = [0; 32];
        for i in 0..4 {
            b[8 * i..8 * i + 8].copy_from_slice(&self.0[3 - i].to_be_bytes());
        }
        b
    }
    /// Montgomery limbs from bytes, whatever their size.
    pub fn limbs_from_bytes(b: &[u8]) -> [u64; 4] {
        let mut l = [0; 4];
        for i in 0..4 {
            let mut x = [0; 8];
            x.copy_from_slice(&b[8 * i..8 * i + 8]);
            l[3 - i] = u64::from_be_bytes(x);
        }
        l
    }
    /// None unless canonical.
    pub fn from_bytes(b: &[u8]) -> Option<F> {
        let l = F::limbs_from_bytes(b);
        if geq(&l, &P) {
            None
        } else {
            Some(F(l))
        }
    }
}
fn r2() -> [u64; 4] {
    use std::sync::OnceLock;
    static R2: OnceLock<[u64; 4]> = OnceLock::new();
    *R2.get_or_init(|| {
        let mut x = [1u64, 0, 0, 0];
        for _ in 0..512 {
            x = add_raw(&x, &x);
            if geq(&x, &P) {
                x = sub_raw(&x, &P).0;
            }
        }
        x
    })
}
impl Add for F {
    type Output = F;
    #[inline]
    fn add(self, o: F) -> F {
        let r = add_raw(&self.0, &o.0);
        if geq(&r, &P) {
            F(sub_raw(&r, &P).0)
        } else {
            F(r)
        }
    }
}
impl Sub for F {
    type Output = F;
    #[inline]
    fn sub(self, o: F) -> F {
        let (r, b) = sub_raw(&self.0, &o.0);
        if b {
            F(add_raw(&r, &P))
        } else {
            F(r)
        }
    }
}
impl Neg for F {
    type Output = F;
    fn neg(self) -> F {
        F::ZERO - self
    }
}
impl Mul for F {
    type Output = F;
    #[inline]
    fn mul(self, o: F) -> F {
        // CIOS Montgomery multiplication; -p^-1 mod 2^64 = -1 since p = 1 mod 2^64
        let a = &self.0;
        let b = &o.0;
        let mut t = [0u64; 6];
        for i in 0..4 {
            let mut c = 0u128;
            for j in 0..4 {
                let v = t[j] as u128 + a[j] as u128 * b[i] as u128 + c;
                t[j] = v as u64;
                c = v >> 64;
            }
            let v = t[4] as u128 + c;
            t[4] = v as u64;
            t[5] = (v >> 64) as u64;
            let m = t[0].wrapping_neg();
            // t += m * p ; p = 1 + P3 * 2^192
            let v = t[0] as u128 + m as u128;
            let mut c = v >> 64;
            let v = t[1] as u128 + c;
            t[0] = v as u64;
            c = v >> 64;
            let v = t[2] as u128 + c;
            t[1] = v as u64;
            c = v >> 64;
            let v = t[3] as u128 + m as u128 * P[3] as u128 + c;
            t[2] = v as u64;
            c = v >> 64;
            let v = t[4] as u128 + c;
            t[3] = v as u64;
            t[4] = t[5] + (v >> 64) as u64;
        }
        let r = [t[0], t[1], t[2], t[3]];
        if t[4] != 0 || geq(&r, &P) {
            F(sub_raw(&r, &P).0)
        } else {
            F(r)
        }
    }
}
impl AddAssign for F {
    fn add_assign(&mut self, o: F) {
        *self = *self + o
    }
}
impl MulAssign for F {
    fn mul_assign(&mut self, o: F) {
        *self = *self * o
    }
}

pub fn batch_inv(v: &[F]) -> Vec<F> {
    let mut pre = Vec::with_capacity(v.len());
    let mut acc = F::one();
    for x in v {
        pre.push(acc);
        if !x.is_zero() {
            acc *= *x;
        }
    }
    let mut inv = acc.inv();
    let mut out = vec![F::ZERO; v.len()];
    for i in (0..v.len()).rev() {
        if !v[i].is_zero() {
            out[i] = inv * pre[i];
            inv *= v[i];
        }
    }
    out
}

pub fn bitrev(n: usize, i: usize) -> usize {
    if n == 1 {
        return 0;
    }
    i.reverse_bits() >> (usize::BITS - n.trailing_zeros())
}
pub fn permute<T: Clone>(v: &[T]) -> Vec<T> {
    (0..v.len()).map(|i| v[bitrev(v.len(), i)].clone()).collect()
}
/// values[i] = sum_j c[j] * w^(i j), natural order in, natural order out.
pub fn dft(c: &[F], w: F) -> Vec<F> {
    let n = c.len();
    let mut a = permute(c);
    let mut len = 2;
    while len <= n {
        let wl = w.pow((n / len) as u64);
        let mut tw = Vec::with_capacity(len / 2);
        let mut x = F::one();
        for _ in 0..len / 2 {
            tw.push(x);
            x *= wl;
        }
        for s in (0..n).step_by(len) {
            for k in 0..len / 2 {
                let u = a[s + k];
                let v = a[s + k + len / 2] * tw[k];
                a[s + k] = u + v;
                a[s + k + len / 2] = u - v;
            }
        }
        len *= 2;
    }
    a
}
/// Evaluate on shift * <w_n> with n = size, natural order.
pub fn eval_coset(c: &[F], size: usize, shift: F) -> Vec<F> {
    let mut v = vec![F::ZERO; size];
    let mut s = F::one();
    for (i, x) in c.iter().enumerate() {
        // wrap around is exact: x^size is constant on the coset
        v[i % size] += *x * s;
        s *= shift;
    }
    dft(&v, F::root(size))
}
/// Inverse of `eval_coset` for polynomials of degree below the domain size.
pub fn interpolate_coset(v: &[F], shift: F) -> Vec<F> {
    let n = v.len();
    let mut c = dft(v, F::root(n).inv());
    let ninv = F::from_u64(n as u64).inv();
    let si = shift.inv();
    let mut s = ninv;
    for x in c.iter_mut() {
        *x *= s;
        s *= si;
    }
    c
}
pub fn eval_poly(c: &[F], x: F) -> F {
    let mut r = F::ZERO;
    for a in c.iter().rev() {
        r = r * x + *a;
    }
    r
}

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed ^ 0x6a09_e667_f3bc_c908);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.next() % den < num
    }
    pub fn pick<T: Clone>(&mut self, v: &[T]) -> T {
        v[self.below(v.len())].clone()
    }
    pub fn fork(&mut self, tag: u64) -> Rng {
        Rng::new(self.next() ^ tag.wrapping_mul(0x2545_F491_4F6C_DD1D))
    }
    pub fn field(&mut self) -> F {
        match self.next() % 16 {
            0 => F::ZERO,
            1 => F::one(),
            2 => -F::one(),
            3 => F::from_u64(self.next() % 8),
            _ => loop {
                let l = [self.next(), self.next(), self.next(), self.next() >> 4];
                if !geq(&l, &P) {
                    return F(l);
                }
            },
        }
    }
}
