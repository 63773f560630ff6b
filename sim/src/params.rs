//! Seeded parameter sets.
use crate::model::{Bounds, Ring, big, is_prime, ntt_prime};
use crate::core::lib;
use crate::ensure;
use crate::rt::Rng;
use fhe::bfv::{BfvParameters, BfvParametersBuilder};
use num_bigint::BigUint;
use std::sync::Arc;

#[derive(Clone, Debug)]
pub struct Spec {
    pub n: usize,
    pub moduli: Vec<u64>,
    pub t: BigUint,
    pub var: usize,
    pub by_size: Option<Vec<usize>>,
}

impl Spec {
    pub fn build(&self) -> Result<Arc<BfvParameters>, fhe::Error> {
        let mut b = BfvParametersBuilder::new();
        b.set_degree(self.n).set_variance(self.var);
        match u64::try_from(&self.t) {
            Ok(t) => b.set_plaintext_modulus(t),
            Err(_) => b.set_plaintext_modulus_biguint(self.t.clone()),
        };
        match &self.by_size { Some(s) => b.set_moduli_sizes(s), None => b.set_moduli(&self.moduli) };
        b.build_arc()
    }
    pub fn ring(&self) -> Ring { Ring::new(self.n, &self.t) }
    pub fn bounds(&self) -> Bounds { Bounds::new(self.n, &self.t, self.var, &self.moduli) }
}

#[derive(Clone, Copy)]
pub struct Want {
    pub min_moduli: usize,
    pub max_moduli: usize,
    pub max_deg_log: usize,
    /// favour SIMD-friendly plaintext moduli
    pub simd: u32,
    /// favour parameter sets deep enough for `depth` multiplications
    pub depth: usize,
    pub big_t: bool,
}

pub fn gen_spec(r: &mut Rng, w: Want) -> Spec {
    loop {
        if let Some(s) = try_spec(r, w) { return s; }
    }
}

/// Parameters that share moduli with `s` without being the same: another
/// plaintext modulus, half the degree, another order, one modulus fewer.
pub fn neighbour(r: &mut Rng, s: &Spec) -> Option<Spec> {
    let mut o = s.clone();
    o.by_size = None;
    for _ in 0..r.range(1, 2) {
        match r.below(7) {
            5 | 6 => {
                let bits = r.range(20, 62) as u32;
                for (k, m) in o.moduli.iter_mut().enumerate() { *m = ntt_prime(bits, 2 * s.n as u64, k)? }
            }
            0 => o.t = big(2 + r.below64(60)),
            1 => o.n = (o.n / 2).max(8),
            2 => o.moduli.reverse(),
            3 if o.moduli.len() > 1 => { let i = r.below(o.moduli.len()); o.moduli.remove(i); }
            _ => o.var = r.range(1, 32),
        }
    }
    if o.moduli.iter().any(|m| &o.t % *m == big(0)) { return None }
    let b = o.bounds();
    if b.fresh_pk(0) > b.cap(0) { None } else { Some(o) }
}

/// A prime of `bits` bits that is 1 mod `step`, from a random point upwards.
fn prime_anywhere(r: &mut Rng, bits: u32, step: u64) -> Option<u64> {
    let (lo, hi) = (1u64 << (bits - 1), 1u64 << bits);
    let start = if r.pct(25) { lo } else { lo + r.below64(lo) };
    let mut p = start - start % step + 1;
    while p < hi { if p > lo && is_prime(p) { return Some(p) } p += step; }
    None
}

fn try_spec(r: &mut Rng, w: Want) -> Option<Spec> {
    let mut lg = 3 + r.weighted(&[30, 30, 22, 12, 4, 2]).min(w.max_deg_log.max(3) - 3);
    let mut k = r.range(w.min_moduli, w.max_moduli);
    // long chains and large degrees are rare, because they are slow
    if w.max_moduli > 4 && r.below(32) == 0 { k = r.range(w.max_moduli, 12); lg = lg.min(4); }
    else if (3..=4).contains(&w.max_moduli) && w.max_deg_log >= 6 && r.below(40) == 0 { k = r.range(5, 9); lg = if w.max_deg_log >= 7 { 6 } else { lg.min(4) } }
    else if w.max_moduli > 4 && w.max_deg_log >= 7 && r.below(96) == 0 { lg = r.range(9, 12); k = r.range(w.min_moduli, w.min_moduli + 1); }
    else if w.max_moduli > 4 && w.max_deg_log >= 7 && r.below(160) == 0 {
        // a documented default set: batching with plaintext moduli of the requested size
        let bits = r.range(12, 40);
        let sets: Vec<_> = lib("default_parameters_128", || BfvParameters::default_parameters_128(bits).map(|x| x.collect())).ok()?;
        for p in &sets {
            let (t, q) = (p.plaintext(), p.moduli().iter().map(|q| 64 - q.leading_zeros() as usize).sum::<usize>());
            ensure!(t.leading_zeros() as usize == 64 - bits && is_prime(t) && t % (2 * p.degree() as u64) == 1 && q >= bits, "default-parameters",
                "default_parameters_128({bits}) offers degree {}, plaintext modulus {t}, moduli {:?}", p.degree(), p.moduli());
        }
        ensure!(sets.windows(2).all(|x| x[0].degree() < x[1].degree()), "default-parameters", "default_parameters_128({bits}) is not ordered by degree");
        let p = sets.iter().filter(|p| p.degree() <= 8192 && p.moduli().len() >= w.min_moduli).nth(r.below(2))?;
        let s = Spec { n: p.degree(), moduli: p.moduli().to_vec(), t: big(p.plaintext()), var: 10, by_size: None };
        let b = s.bounds();
        return if b.fresh_pk(0) > b.cap(0) { None } else { Some(s) };
    }
    let n = 1usize << lg;
    let style = r.below(7);
    let mut sizes: Vec<usize> = (0..k)
        .map(|_| match style {
            0 => 62,
            1 => r.range(55, 62),
            2 => r.range(30, 62),
            3 => r.range(20, 40),
            4 => *r.pick(&[62, 20]),
            5 => *r.pick(&[62, 61, 14, 13, 12, 11, 10]),
            _ => r.range(14, 62),
        })
        .collect();
    if r.pct(25) { sizes.sort(); }
    let mut moduli = vec![];
    let by_size = r.below(8) == 0;
    if by_size { moduli = BfvParametersBuilder::new().set_degree(n).set_plaintext_modulus(2u64).set_moduli_sizes(&sizes).build().ok()?.moduli().to_vec(); }
    // moduli just below a power of two, or anywhere of that size
    let anywhere = r.pct(40);
    for s in sizes.iter().skip(moduli.len()) {
        if anywhere {
            let p = prime_anywhere(r, *s as u32, 2 * n as u64)?;
            if moduli.contains(&p) { return None }
            moduli.push(p);
            continue;
        }
        let mut tries = r.below(3);
        let mut done = false;
        for _ in 0..12 {
            let p = ntt_prime(*s as u32, 2 * n as u64, tries)?;
            if !moduli.contains(&p) { moduli.push(p); done = true; break; }
            tries += 1;
        }
        if !done { return None; }
    }
    let qbits: f64 = moduli.iter().map(|m| (*m as f64).log2()).sum();
    let var = match r.below(5) { 0 => 1, 1 => 32, 2 => r.range(1, 32), _ => 10 };
    let want_simd = r.pct(w.simd);
    let budget = (qbits - 12.0 - 2.0 * (n as f64).log2() - 2.0 * (2.0 * var as f64).log2()).max(0.0);
    let budget = budget / (1.0 + 0.9 * w.depth as f64);
    let maxbits = (budget as u64).min(if w.big_t { 150 } else { 61 });
    if maxbits < 2 { return None; }
    let t: BigUint = if want_simd {
        let lo = lg as u64 + 2;
        if maxbits < lo { return None; }
        let hi = maxbits.min(61);
        let bits = if r.pct(70) { lo + r.below((hi - lo + 1).min(16) as usize) as u64 } else { lo + r.below((hi - lo + 1) as usize) as u64 };
        big(ntt_prime(bits as u32, 2 * n as u64, r.below(2))?)
    } else {
        match r.below(7) {
            0 => big(2),
            1 => big(r.range(3, 40) as u64),
            2 => { let b = r.range(1, maxbits.min(20) as usize); BigUint::from(1u32) << b }
            3 => big(1153),
            _ if maxbits > 66 && r.pct(25) => { let b = if r.pct(25) { 65 } else { r.range(65, maxbits as usize) }; (BigUint::from(1u32) << b) - big(r.below64(1 << 20)) }
            _ => { let b = r.range(2, maxbits.min(61) as usize) as u32; big((1u64 << b) - r.below64(1 << (b - 1).min(40))) }
        }
    };
    if t < big(2) { return None; }
    let by_size = by_size.then(|| sizes.clone());
    let s = Spec { n, moduli, t, var, by_size };
    let b = s.bounds();
    if b.fresh_pk(0) > b.cap(0) { return None; }
    // coprimality with the ciphertext moduli
    if s.moduli.iter().any(|m| (&s.t % *m) == big(0)) { return None; }
    if s.moduli.iter().any(|m| big(*m) == s.t) { return None; }
    Some(s)
}
