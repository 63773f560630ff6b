//! Thin helpers over the public BFV API.
use crate::core::{lib, lib_ok};
use crate::model::{Ring, Val};
use crate::rt::Rng;
use fhe::bfv::*;
use fhe_math::rq::{Ntt, Poly};
use fhe_traits::*;
use num_bigint::BigUint;
use num_traits::ToPrimitive;
use std::sync::Arc;

#[derive(Clone, Debug)]
pub struct PtSpec {
    pub val: Val,
    pub level: usize,
    /// which encoder entry point is used
    pub form: u8,
}

pub fn encoding(simd: bool, level: usize) -> Encoding {
    match (simd, level) {
        (true, l) => if l == 0 { Encoding::simd() } else { Encoding::simd_at_level(l) },
        (false, l) => if l == 0 { Encoding::poly() } else { Encoding::poly_at_level(l) },
    }
}
pub fn public() -> VariableTime { VariableTime::new(PublicData::assert_public()) }

fn trim<T: Clone + PartialEq>(v: &[T], z: &T) -> Vec<T> {
    let mut k = v.len();
    while k > 1 && v[k - 1] == *z { k -= 1 }
    v[..k].to_vec()
}

/// The representative of x modulo t closest to zero, if it is an i64.
pub fn centred(x: &BigUint, t: &BigUint) -> Option<i64> {
    let c = t - x;
    if *x <= c { x.to_i64() } else { c.to_i128().and_then(|c| i64::try_from(-c).ok()) }
}

/// Encode through one of the public encoder entry points.
pub fn encode(par: &Arc<BfvParameters>, ring: &Ring, p: &PtSpec) -> Plaintext {
    let simd = matches!(p.val, Val::Simd(_));
    let enc = encoding(simd, p.level);
    let small = ring.t64.is_some_and(|t| t < 1 << 62);
    if small {
        let v: Vec<u64> = match &p.val { Val::Poly(v) => v.iter().map(|x| x.to_u64().unwrap()).collect(), Val::Simd(v) => v.clone() };
        let t = ring.t64.unwrap();
        // Encoders take values modulo t: half of the forms give other representatives.
        let v: Vec<u64> = if p.form % 12 < 6 { v } else { v.iter().enumerate().map(|(i, x)| x + t * ((i as u64).wrapping_mul(0x9E3779B97F4A7C15) >> (i % 64)).min((u64::MAX - x) / t)).collect() };
        match p.form % 6 {
            0 => lib_ok("Plaintext::try_encode(&[u64])", || Plaintext::try_encode(&v as &[u64], enc, par)),
            1 => { let w = trim(&v, &0); lib_ok("Plaintext::try_encode(&Vec<u64>)", || Plaintext::try_encode(&w, enc, par)) }
            2 => { let w: Vec<i64> = v.iter().map(|x| { let y = *x as i64; if y < 0 { (*x % t) as i64 - t as i64 } else if *x < t && *x > t / 2 { y - t as i64 } else { y } }).collect(); lib_ok("Plaintext::try_encode(&[i64])", || Plaintext::try_encode(&w as &[i64], enc, par)) }
            3 => lib_ok("Plaintext::try_encode_vt", || Plaintext::try_encode_vt(&v as &[u64], enc, par, public())),
            4 => { let w: Vec<BigUint> = v.iter().enumerate().map(|(i, x)| { let b = BigUint::from(*x); if p.form % 12 < 6 || simd { b } else { b + ((&ring.t * i) << (i % 200)) } }).collect(); lib_ok("Plaintext::try_encode(&[BigUint])", || Plaintext::try_encode(&w as &[BigUint], enc, par)) }
            _ => {
                // one chunk of a longer vector
                let f = p.form as usize / 12;
                let (before, after) = (f % 3, if f / 3 % 2 == 0 { 0 } else { 1 + f % 5 });
                let w: Vec<u64> = (0..before * ring.n).map(|i| (i as u64 * 7 + 1) % t).chain(if after == 0 && f % 2 == 1 { trim(&v, &0) } else { v.clone() }).chain((0..after).map(|i| i as u64 % t)).collect();
                let pv = match f / 6 % 3 {
                    0 => lib_ok("PlaintextVec::try_encode(&[u64])", || PlaintextVec::try_encode(&w as &[u64], enc, par)),
                    1 => { let w: Vec<BigUint> = w.iter().map(|x| BigUint::from(*x)).collect(); lib_ok("PlaintextVec::try_encode(&[BigUint])", || PlaintextVec::try_encode(&w as &[BigUint], enc, par)) }
                    _ => lib_ok("PlaintextVec::try_encode_vt", || PlaintextVec::try_encode_vt(&w as &[u64], enc, par, public())),
                };
                ensure!(pv.len() == w.len().div_ceil(ring.n).max(1), "plaintextvec", "PlaintextVec of {} values has {} plaintexts of degree {}", w.len(), pv.len(), ring.n);
                pv[before].clone()
            }
        }
    } else {
        let Val::Poly(v) = &p.val else { panic!("simd with large t") };
        let w = if p.form % 2 == 0 { v.clone() } else { trim(v, &BigUint::ZERO) };
        let one = p.form as usize / 12 % 3 == 0;
        if one && p.form % 3 == 1 && v.iter().all(|x| centred(x, &ring.t).is_some()) {
            let w: Vec<i64> = w.iter().map(|x| centred(x, &ring.t).unwrap()).collect();
            return lib_ok("Plaintext::try_encode(&[i64])", || Plaintext::try_encode(&w as &[i64], enc, par));
        }
        if one && p.form % 3 == 2 && v.iter().all(|x| x.bits() <= 64) {
            let w: Vec<u64> = w.iter().map(|x| x.to_u64().unwrap()).collect();
            return if p.form % 2 == 0 { lib_ok("Plaintext::try_encode(&[u64])", || Plaintext::try_encode(&w as &[u64], enc, par)) }
                else { lib_ok("Plaintext::try_encode_vt", || Plaintext::try_encode_vt(&w as &[u64], enc, par, public())) };
        }
        let w: Vec<BigUint> = if p.form % 12 < 6 { w } else { w.into_iter().enumerate().map(|(i, x)| x + ((&ring.t * i) << (i % 200))).collect() };
        let before = p.form as usize / 12 % 3;
        if before > 0 {
            let w: Vec<BigUint> = (0..(before - 1) * ring.n).map(BigUint::from).chain(w).collect();
            let pv = lib_ok("PlaintextVec::try_encode(&[BigUint])", || PlaintextVec::try_encode(&w as &[BigUint], enc, par));
            ensure!(pv.len() == w.len().div_ceil(ring.n).max(1), "plaintextvec", "PlaintextVec of {} values has {} plaintexts of degree {}", w.len(), pv.len(), ring.n);
            return pv[before - 1].clone();
        }
        lib_ok("Plaintext::try_encode(&[BigUint])", || Plaintext::try_encode(&w as &[BigUint], enc, par))
    }
}

/// Decode through every applicable decoder and return the value.
pub fn decode(pt: &Plaintext, ring: &Ring, simd: bool, level: usize, form: u8) -> Val {
    let enc = encoding(simd, level);
    let small = ring.t64.is_some_and(|t| t < 1 << 62);
    if small {
        let t = ring.t64.unwrap();
        let v: Vec<u64> = match form % 3 {
            0 => lib_ok("Vec<u64>::try_decode", || Vec::<u64>::try_decode(pt, enc)),
            1 => {
                let w = lib_ok("Vec<i64>::try_decode", || Vec::<i64>::try_decode(pt, enc));
                w.iter().map(|x| {
                    ensure!(2 * x.unsigned_abs() <= t + 1, "i64-not-centred", "Vec<i64>::try_decode gave {x} for plaintext modulus {t}");
                    x.rem_euclid(t as i64) as u64
                }).collect()
            }
            _ => lib_ok("Vec<BigUint>::try_decode", || Vec::<BigUint>::try_decode(pt, enc)).iter().map(|x| x.to_u64().unwrap_or(u64::MAX)).collect(),
        };
        if simd { Val::Simd(v) } else { Val::Poly(v.into_iter().map(BigUint::from).collect()) }
    } else {
        let v = lib_ok("Vec<BigUint>::try_decode", || Vec::<BigUint>::try_decode(pt, enc.clone()));
        // The word decoders agree with it where the values fit, and refuse otherwise.
        match form % 3 {
            0 => {
                let fits = v.iter().all(|x| x.bits() <= 64);
                match lib("Vec<u64>::try_decode", || Vec::<u64>::try_decode(pt, enc)) {
                    Ok(w) => ensure!(fits && w.iter().zip(&v).all(|(a, b)| *b == BigUint::from(*a)), "large-decode", "Vec<u64>::try_decode gave {w:?} for {v:?}"),
                    Err(e) => ensure!(!fits, "large-decode", "Vec<u64>::try_decode refuses {v:?}: {e}"),
                }
            }
            1 => {
                let want: Option<Vec<i64>> = v.iter().map(|x| centred(x, &ring.t)).collect();
                match (lib("Vec<i64>::try_decode", || Vec::<i64>::try_decode(pt, enc)), want) {
                    (Ok(w), Some(_)) => ensure!(w.iter().zip(&v).all(|(a, b)| {
                        let m = BigUint::from(a.unsigned_abs());
                        2u32 * &m <= &ring.t + 1u32 && (if *a < 0 { &ring.t - m } else { m }) % &ring.t == *b
                    }), "large-decode", "Vec<i64>::try_decode gave {w:?} for {v:?} modulo {}", ring.t),
                    (Err(_), None) => {}
                    (Ok(w), None) => violate!("large-decode", "Vec<i64>::try_decode gave {w:?} for {v:?}"),
                    (Err(e), Some(_)) => violate!("large-decode", "Vec<i64>::try_decode refuses {v:?}: {e}"),
                }
            }
            _ => {}
        }
        Val::Poly(v)
    }
}

pub fn level_of(par: &BfvParameters, ct: &Ciphertext) -> usize { par.moduli().len() - ct[0].ctx().moduli().len() }

/// Power-basis coefficients in [0, Q_level) of one polynomial (own CRT).
pub fn lift(p: &Poly<Ntt>) -> Vec<BigUint> {
    let pb = lib("into_power_basis", || p.to_power_basis());
    let c = pb.coefficients();
    let moduli = p.ctx().moduli().to_vec();
    crt(&c.outer_iter().map(|r| r.to_vec()).collect::<Vec<_>>(), &moduli)
}
pub fn crt(rows: &[Vec<u64>], moduli: &[u64]) -> Vec<BigUint> {
    let q: BigUint = moduli.iter().map(|m| BigUint::from(*m)).product();
    let gs: Vec<BigUint> = moduli.iter().map(|m| {
        let qi = &q / *m;
        let r = (&qi % *m).to_u64().unwrap();
        let inv = crate::model::powm(r, *m - 2, *m);
        qi * inv
    }).collect();
    let n = rows[0].len();
    (0..n).map(|j| rows.iter().zip(&gs).map(|(r, g)| g * r[j]).sum::<BigUint>() % &q).collect()
}
pub fn modulus_at(par: &BfvParameters, level: usize) -> BigUint {
    par.moduli()[..par.moduli().len() - level].iter().map(|m| BigUint::from(*m)).product()
}

/// Signed secret-key coefficients via the public serialisation.
pub fn sk_coeffs(sk: &SecretKey) -> Vec<i64> {
    let b = sk.to_bytes();
    let p: fhe::proto::bfv::SecretKey = prost::Message::decode(&b[..]).unwrap_or_else(|e| violate!("sk-bytes", "SecretKey::to_bytes is not a SecretKey message: {e}"));
    p.coeffs
}
pub fn sk_from_coeffs(c: &[i64], par: &Arc<BfvParameters>) -> SecretKey {
    let p = fhe::proto::bfv::SecretKey { coeffs: c.to_vec() };
    lib_ok("SecretKey::from_bytes", || SecretKey::from_bytes(&prost::Message::encode_to_vec(&p), par))
}

/// Noise polynomial of `ct` for plaintext coefficients `m`, by independent
/// integer arithmetic.
pub fn noise_poly(par: &BfvParameters, s: &[i64], ct: &Ciphertext, m: &[BigUint]) -> Vec<(bool, BigUint)> {
    let q = modulus_at(par, level_of(par, ct));
    let c: Vec<Vec<BigUint>> = ct.iter().map(lift).collect();
    let ph = crate::model::phase(&c, s, &q);
    crate::model::noise(&ph, m, &q, par.plaintext_big())
}
pub fn noise_max(v: &[(bool, BigUint)]) -> BigUint { v.iter().map(|x| x.1.clone()).max().unwrap_or_default() }

pub fn pick_form(r: &mut Rng) -> u8 { r.below(252) as u8 }
