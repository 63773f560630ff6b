//! The reference model: plaintext rings, independent phase computation and
//! worst-case noise bounds. Nothing here calls the library.
use crate::rt::Rng;
use num_bigint::BigUint;
use num_traits::{One, ToPrimitive, Zero};

pub fn big(x: u64) -> BigUint { BigUint::from(x) }

pub fn is_prime(n: u64) -> bool {
    if n < 2 { return false; }
    for p in [2u64, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37] { if n % p == 0 { return n == p; } }
    let (mut d, mut r) = (n - 1, 0);
    while d % 2 == 0 { d /= 2; r += 1; }
    'w: for a in [2u64, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37] {
        let mut x = powm(a, d, n);
        if x == 1 || x == n - 1 { continue; }
        for _ in 0..r - 1 { x = mulm(x, x, n); if x == n - 1 { continue 'w; } }
        return false;
    }
    true
}
pub fn mulm(a: u64, b: u64, m: u64) -> u64 { ((a as u128 * b as u128) % m as u128) as u64 }
pub fn powm(mut a: u64, mut e: u64, m: u64) -> u64 {
    let mut r = 1 % m;
    a %= m;
    while e > 0 { if e & 1 == 1 { r = mulm(r, a, m); } a = mulm(a, a, m); e >>= 1; }
    r
}
/// The k-th largest prime with exactly `bits` bits that is 1 mod `step`.
pub fn ntt_prime(bits: u32, step: u64, k: usize) -> Option<u64> {
    let hi = if bits == 64 { u64::MAX } else { (1u64 << bits) - 1 };
    let lo = 1u64 << (bits - 1);
    let mut p = hi - (hi - 1) % step;
    let mut k = k;
    while p > lo {
        if is_prime(p) { if k == 0 { return Some(p); } k -= 1; }
        if p < step { break; }
        p -= step;
    }
    None
}

#[derive(Clone, Debug)]
pub struct Ring {
    pub n: usize,
    pub t: BigUint,
    pub t64: Option<u64>,
    pub simd: bool,
    pub tf: f64,
}

/// A plaintext value as the client means it.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Val {
    Poly(Vec<BigUint>),
    Simd(Vec<u64>),
}

impl Ring {
    pub fn new(n: usize, t: &BigUint) -> Self {
        let t64 = t.to_u64();
        let simd = t64.is_some_and(|x| x < 1 << 62 && x % (2 * n as u64) == 1 && is_prime(x));
        Ring { n, t: t.clone(), t64, simd, tf: t.to_f64().unwrap() }
    }
    pub fn zero(&self, simd: bool) -> Val {
        if simd { Val::Simd(vec![0; self.n]) } else { Val::Poly(vec![BigUint::zero(); self.n]) }
    }
    /// Edge-biased residue.
    pub fn residue(&self, r: &mut Rng) -> BigUint {
        match r.below(8) {
            0 => BigUint::zero(),
            1 => BigUint::one() % &self.t,
            2 => &self.t - 1u32,
            3 => &self.t >> 1,
            4 => ((&self.t + 1u32) >> 1) % &self.t,
            _ => {
                let words = self.t.bits().div_ceil(32) as usize + 1;
                BigUint::new((0..words).map(|_| r.u64() as u32).collect()) % &self.t
            }
        }
    }
    pub fn random(&self, r: &mut Rng, simd: bool) -> Val {
        let style = r.below(6);
        if self.t.bits() > 62 && r.pct(25) {
            // values that fit a signed or an unsigned word
            let signed = r.pct(60);
            return Val::Poly((0..self.n).map(|_| {
                let x = match r.below(5) { 0 => 1 << 63, 1 => u64::MAX >> 1, 2 => r.u64() >> r.below(64), _ => r.u64() };
                if !signed { return big(x) % &self.t }
                let x = x as i64;
                (if x < 0 { &self.t - big(x.unsigned_abs()) % &self.t } else { big(x as u64) }) % &self.t
            }).collect())
        }
        let v: Vec<BigUint> = (0..self.n)
            .map(|i| match style {
                0 => BigUint::zero(),
                1 => if i == 0 { self.residue(r) } else { BigUint::zero() },
                2 => &self.t - 1u32,
                3 => if r.pct(20) { self.residue(r) } else { BigUint::zero() },
                _ => self.residue(r),
            })
            .collect();
        if simd { Val::Simd(v.iter().map(|x| x.to_u64().unwrap()).collect()) } else { Val::Poly(v) }
    }
    pub fn add(&self, a: &Val, b: &Val) -> Val {
        match (a, b) {
            (Val::Poly(a), Val::Poly(b)) => Val::Poly(a.iter().zip(b).map(|(x, y)| (x + y) % &self.t).collect()),
            (Val::Simd(a), Val::Simd(b)) => { let t = self.t64.unwrap(); Val::Simd(a.iter().zip(b).map(|(x, y)| ((*x as u128 + *y as u128) % t as u128) as u64).collect()) }
            _ => panic!("mixed encodings"),
        }
    }
    pub fn neg(&self, a: &Val) -> Val {
        match a {
            Val::Poly(a) => Val::Poly(a.iter().map(|x| (&self.t - x) % &self.t).collect()),
            Val::Simd(a) => { let t = self.t64.unwrap(); Val::Simd(a.iter().map(|x| (t - x) % t).collect()) }
        }
    }
    pub fn sub(&self, a: &Val, b: &Val) -> Val { self.add(a, &self.neg(b)) }
    pub fn mul(&self, a: &Val, b: &Val) -> Val {
        match (a, b) {
            (Val::Poly(a), Val::Poly(b)) => Val::Poly(negacyclic(a, b, &self.t)),
            (Val::Simd(a), Val::Simd(b)) => { let t = self.t64.unwrap(); Val::Simd(a.iter().zip(b).map(|(x, y)| mulm(*x, *y, t)).collect()) }
            _ => panic!("mixed encodings"),
        }
    }
    /// x -> x^e
    pub fn substitute(&self, a: &[BigUint], e: usize) -> Vec<BigUint> {
        let n = self.n;
        let mut o = vec![BigUint::zero(); n];
        for (j, c) in a.iter().enumerate() {
            let k = (j * e) % (2 * n);
            if k < n { o[k] = c.clone() } else { o[k - n] = (&self.t - c) % &self.t }
        }
        o
    }
    pub fn rot_cols(&self, a: &Val, i: usize) -> Val {
        match a {
            Val::Poly(a) => {
                let mut e = 1usize;
                for _ in 0..i { e = (e * 3) % (2 * self.n) }
                Val::Poly(self.substitute(a, e))
            }
            Val::Simd(a) => {
                let h = self.n / 2;
                let mut o = a.clone();
                o[..h].rotate_left(i % h);
                o[h..].rotate_left(i % h);
                Val::Simd(o)
            }
        }
    }
    pub fn rot_rows(&self, a: &Val) -> Val {
        match a {
            Val::Poly(a) => Val::Poly(self.substitute(a, 2 * self.n - 1)),
            Val::Simd(a) => { let h = self.n / 2; Val::Simd(a[h..].iter().chain(&a[..h]).copied().collect()) }
        }
    }
    pub fn inner_sum(&self, a: &Val) -> Val {
        match a {
            // The trace of Z[x]/(x^n+1): n * constant coefficient.
            Val::Poly(a) => { let mut o = vec![BigUint::zero(); self.n]; o[0] = (&a[0] * big(self.n as u64)) % &self.t; Val::Poly(o) }
            Val::Simd(a) => { let t = self.t64.unwrap(); let s = a.iter().fold(0u128, |s, x| (s + *x as u128) % t as u128) as u64; Val::Simd(vec![s; self.n]) }
        }
    }
    /// Oblivious expansion at `level`: out_i = 2^level * sum_{j = i mod 2^level} m_j x^{j-i}.
    pub fn expand(&self, a: &[BigUint], level: usize, i: usize) -> Vec<BigUint> {
        let step = 1usize << level;
        let mut o = vec![BigUint::zero(); self.n];
        let mut j = i;
        while j < self.n { o[j - i] = (&a[j] << level) % &self.t; j += step }
        o
    }
    pub fn is_zero(&self, a: &Val) -> bool {
        match a { Val::Poly(a) => a.iter().all(Zero::is_zero), Val::Simd(a) => a.iter().all(|x| *x == 0) }
    }
}

/// The negacyclic product modulo any q below 2^62: over the integers, by transforms
/// modulo three primes of our own, recombined.
pub fn negacyclic_words(a: &[u64], b: &[u64], q: u64) -> Vec<u64> {
    let n = a.len();
    let addq = |x: u64, y: u64| ((x as u128 + y as u128) % q as u128) as u64;
    let product = |k: usize| (0..n).fold(0u64, |s, i| {
        let (j, w) = if i <= k { (k - i, false) } else { (n + k - i, true) };
        let z = mulm(a[i], b[j], q);
        addq(s, if w && z > 0 { q - z } else { z })
    });
    if n < 128 || q >> 62 != 0 { return (0..n).map(product).collect() }
    let ps: Vec<u64> = (0..3).map(|k| ntt_prime(61, 1 << 18, k).unwrap()).collect();
    let res: Vec<Vec<u64>> = ps.iter().map(|p| {
        let p = *p;
        let psi = (2..).map(|g| powm(g, (p - 1) / (2 * n as u64), p)).find(|x| powm(*x, n as u64, p) == p - 1).unwrap();
        let tw = |v: &[u64], w: u64| { let mut x = 1; v.iter().map(|y| { let z = mulm(*y % p, x, p); x = mulm(x, w, p); z }).collect::<Vec<u64>>() };
        let om = mulm(psi, psi, p);
        let (x, y) = (cyclic(tw(a, psi), om, p), cyclic(tw(b, psi), om, p));
        let z: Vec<u64> = x.iter().zip(&y).map(|(x, y)| mulm(*x, *y, p)).collect();
        let z = cyclic(z, powm(om, p - 2, p), p);
        let ni = powm(n as u64, p - 2, p);
        tw(&z.iter().map(|x| mulm(*x, ni, p)).collect::<Vec<_>>(), powm(psi, p - 2, p))
    }).collect();
    let (p0, p1, p2) = (ps[0], ps[1], ps[2]);
    let (i01, i02) = (powm(p0 % p1, p1 - 2, p1), powm(mulm(p0, p1, p2), p2 - 2, p2));
    let all = mulm(mulm(p0 % q, p1 % q, q), p2 % q, q);
    let o: Vec<u64> = (0..n).map(|k| {
        let x0 = res[0][k];
        let d1 = mulm((res[1][k] + p1 - x0 % p1) % p1, i01, p1);
        let low = addm3(x0 % p2, mulm(d1 % p2, p0 % p2, p2), p2);
        let d2 = mulm((res[2][k] + p2 - low) % p2, i02, p2);
        let v = addq(addq(x0 % q, mulm(d1 % q, p0 % q, q)), mulm(d2 % q, mulm(p0 % q, p1 % q, q), q));
        // the upper half of the range stands for negative integers
        if d2 > p2 / 2 { addq(v, q - all) } else { v }
    }).collect();
    for k in [0, n / 3, n - 1] { assert_eq!(o[k], product(k), "reference product") }
    o
}
fn addm3(a: u64, b: u64, m: u64) -> u64 { ((a as u128 + b as u128) % m as u128) as u64 }
/// Values of a polynomial at the powers of w, in order.
fn cyclic(v: Vec<u64>, w: u64, p: u64) -> Vec<u64> {
    let n = v.len();
    if n == 1 { return v }
    let half = |o: usize| cyclic(v.iter().skip(o).step_by(2).copied().collect(), mulm(w, w, p), p);
    let (e, d) = (half(0), half(1));
    let mut o = vec![0; n];
    let mut x = 1;
    for k in 0..n / 2 {
        let z = mulm(d[k], x, p);
        o[k] = (e[k] + z) % p;
        o[k + n / 2] = (e[k] + p - z) % p;
        x = mulm(x, w, p);
    }
    o
}

pub fn negacyclic(a: &[BigUint], b: &[BigUint], m: &BigUint) -> Vec<BigUint> {
    let n = a.len();
    if let Some(q) = m.to_u64() {
        let ua: Vec<u64> = a.iter().map(|x| x.to_u64().unwrap()).collect();
        let ub: Vec<u64> = b.iter().map(|x| x.to_u64().unwrap()).collect();
        return negacyclic_words(&ua, &ub, q).into_iter().map(big).collect();
    }
    let mut pos = vec![BigUint::zero(); n];
    let mut neg = vec![BigUint::zero(); n];
    for i in 0..n {
        if a[i].is_zero() { continue; }
        for j in 0..n {
            if b[j].is_zero() { continue; }
            let p = &a[i] * &b[j];
            if i + j < n { pos[i + j] += p } else { neg[i + j - n] += p }
        }
    }
    pos.into_iter().zip(neg).map(|(p, q)| { let (p, q) = (p % m, q % m); if p >= q { p - q } else { p + m - q } }).collect()
}

/// sum_i c_i s^i mod q, with s given by signed coefficients.
pub fn phase(c: &[Vec<BigUint>], s: &[i64], q: &BigUint) -> Vec<BigUint> {
    let sb: Vec<BigUint> = s.iter().map(|x| if *x >= 0 { big(*x as u64) } else { q - big(x.unsigned_abs()) }).collect();
    // Horner
    let mut acc = c[c.len() - 1].clone();
    for ci in c[..c.len() - 1].iter().rev() {
        acc = small_mul(&acc, s, &sb, q);
        for (x, y) in acc.iter_mut().zip(ci) { *x = (&*x + y) % q }
    }
    acc
}
fn small_mul(a: &[BigUint], s: &[i64], sb: &[BigUint], q: &BigUint) -> Vec<BigUint> {
    let n = a.len();
    if s.iter().any(|x| x.unsigned_abs() > 1 << 20) { return negacyclic(a, sb, q); }
    let mut pos = vec![BigUint::zero(); n];
    let mut neg = vec![BigUint::zero(); n];
    for (j, sj) in s.iter().enumerate() {
        if *sj == 0 { continue; }
        let m = sj.unsigned_abs();
        for i in 0..n {
            let p = &a[i] * m;
            let wrap = i + j >= n;
            let k = if wrap { i + j - n } else { i + j };
            if (*sj > 0) != wrap { pos[k] += p } else { neg[k] += p }
        }
    }
    pos.into_iter().zip(neg).map(|(p, q2)| { let (p, r) = (p % q, q2 % q); if p >= r { p - r } else { p + q - r } }).collect()
}

/// The library's scaled plaintext floor(Q m / t) mod Q.
pub fn scaled(m: &BigUint, q: &BigUint, t: &BigUint) -> BigUint { (q * m / t) % q }

/// Noise polynomial |phase - floor(Q m/t)| centred: (magnitudes, exact signed as (neg, mag)).
pub fn noise(ph: &[BigUint], m: &[BigUint], q: &BigUint, t: &BigUint) -> Vec<(bool, BigUint)> {
    ph.iter().zip(m).map(|(p, m)| {
        let s = scaled(m, q, t);
        let d = if *p >= s { p - &s } else { p + q - &s };
        if &d + &d > *q { (true, q - d) } else { (false, d) }
    }).collect()
}
/// Decryption by definition: round(t * phase / Q) mod t.
pub fn decrypt_by_definition(ph: &[BigUint], q: &BigUint, t: &BigUint) -> Vec<BigUint> {
    ph.iter().map(|p| ((p * t * 2u32 + q) / (q * 2u32)) % t).collect()
}

/// Worst-case bounds of one parameter set (all plain f64; Q < 2^400).
#[derive(Clone, Debug)]
pub struct Bounds {
    pub n: f64,
    pub t: f64,
    pub b: f64,
    pub s1: f64,
    /// modulus at each level
    pub q: Vec<f64>,
    pub moduli: Vec<u64>,
}
impl Bounds {
    pub fn new(n: usize, t: &BigUint, var: usize, moduli: &[u64]) -> Self {
        let l = moduli.len();
        let q = (0..l).map(|lev| moduli[..l - lev].iter().map(|x| *x as f64).product()).collect();
        let b = 2.0 * var as f64;
        Bounds { n: n as f64, t: t.to_f64().unwrap(), b, s1: n as f64 * b, q, moduli: moduli.to_vec() }
    }
    pub fn max_level(&self) -> usize { self.q.len() - 1 }
    /// Largest noise under which the model insists on correct decryption.
    pub fn cap(&self, level: usize) -> f64 { self.q[level] / (4.0 * self.t) - 2.0 }
    pub fn fresh_sk(&self) -> f64 { self.b + 1.0 }
    pub fn fresh_pk(&self, level: usize) -> f64 {
        let e = self.b + level as f64 * (1.0 + self.s1);
        self.n * self.b * e + self.b + self.n * self.b * self.b + 2.0
    }
    fn qmax(&self, k: usize) -> f64 { self.moduli[..k].iter().map(|x| *x as f64).fold(0.0, f64::max) }
    /// Key switching from ciphertext level `cl` with a key at level `kl`.
    pub fn ks(&self, cl: usize, kl: usize) -> f64 {
        let l = self.q.len();
        if l - kl == 1 {
            let lg = 64 - (self.moduli[0] - 1).leading_zeros() as usize;
            let base = lg / 2;
            return lg.div_ceil(base) as f64 * self.n * (base as f64).exp2() * self.b + 1.0;
        }
        let k = (l - cl) as f64;
        let raw = k * self.n * self.qmax(l - cl) * self.b;
        raw * self.q[cl] / self.q[kl] + (cl - kl) as f64 * (1.0 + self.s1) + 2.0
    }
    pub fn mul(&self, level: usize, v1: f64, len1: usize, v2: f64, len2: usize) -> f64 {
        let k = |len: usize| 2.0 + (1..len).map(|i| self.s1.powi(i as i32)).sum::<f64>();
        let (k1, k2) = (k(len1), k(len2));
        let q = self.q[level];
        self.n * self.t * (v1 + v2) + self.n * self.t * (k1 * v2 + k2 * v1) + self.n * self.t * (v1 / q) * v2
            + (0..len1 + len2 - 1).map(|j| self.s1.powi(j as i32)).sum::<f64>() * 2.0 + 4.0
    }
    /// Extra noise of the asymmetric multiplicator (one operand scaled to modulus p).
    pub fn mul_asym_extra(&self, level: usize, p: f64) -> f64 {
        let k = 2.0 + self.s1;
        2.0 * self.n * self.t * (self.q[level] / p) * k * k + 4.0 * k * k
    }
    pub fn switch_down(&self, level: usize, v: f64, len: usize) -> f64 {
        let l = self.q.len();
        let dropped = self.moduli[l - level - 1] as f64;
        v / dropped + (0..len).map(|j| self.s1.powi(j as i32)).sum::<f64>() + 2.0
    }
    pub fn rgsw(&self, level: usize, v: f64, m_l1: f64) -> f64 { v * m_l1 + 2.0 * self.ks(level, level) + 2.0 }
    pub fn plain_mul(&self, v: f64) -> f64 { (v + 1.0) * self.n * self.t + 2.0 }
}
