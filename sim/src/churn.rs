//! Short-lived parameter sets: made, used once or twice and dropped, one after
//! another in one thread, so that memory and whatever the library remembers of
//! the previous ones is there when the next is made.
use crate::bfvx::*;
use crate::core::{lib, lib_ok};
use crate::params::{Spec, neighbour};
use crate::rt::{LibRng, Rng};
use fhe::bfv::*;
use fhe_traits::*;

fn mini(spec: &Spec, r: &mut Rng) {
    let (ring, b) = (spec.ring(), spec.bounds());
    let mut lr = LibRng::new(r.u64());
    let par = lib_ok("BfvParametersBuilder::build_arc", || spec.build());
    let lm = par.max_level();
    let sk = SecretKey::random(&par, &mut lr);
    let l = r.below(lm + 1);
    let simd = ring.simd && ring.t64.is_some() && r.pct(50);
    if b.cap(l) < b.fresh_pk(l) { return }
    let put = |lr: &mut LibRng, r: &mut Rng, public: bool| {
        let v = ring.random(r, simd);
        let p = encode(&par, &ring, &PtSpec { val: v.clone(), level: l, form: pick_form(r) });
        let c: Ciphertext = if public { let pk = PublicKey::new(&sk, lr); lib_ok("PublicKey::try_encrypt", || pk.try_encrypt(&p, lr)) } else { lib_ok("SecretKey::try_encrypt", || sk.try_encrypt(&p, lr)) };
        (v, c)
    };
    let judge = |what: &str, c: &Ciphertext, l: usize, bound: f64, want: &crate::model::Val, r: &mut Rng| {
        if bound >= b.cap(l) { return }
        let p = lib_ok("SecretKey::try_decrypt", || sk.try_decrypt(c));
        let got = decode(&p, &ring, simd, l, pick_form(r));
        ensure!(got == *want, "wrong-plaintext", "{what} with short-lived parameters (degree {}, moduli {:?}, t {}, level {l}) decrypts to another plaintext", spec.n, spec.moduli, spec.t);
    };
    let (x, c) = put(&mut lr, r, false);
    let f = b.fresh_sk().max(1.0);
    judge("an encryption", &c, l, f, &x, r);
    for _ in 0..r.range(1, 2) {
        match r.below(5) {
            0 | 1 if lm > 0 => {
                let kl = r.below(l.min(lm - 1) + 1);
                let rk = lib_ok("RelinearizationKey::new_leveled", || RelinearizationKey::new_leveled(&sk, l, kl, &mut lr));
                let (y, d) = put(&mut lr, r, false);
                let want = ring.mul(&x, &y);
                let v = b.mul(l, f + 1.0, 2, f + 1.0, 2) + b.ks(l, kl);
                let m = lib_ok("Multiplicator::default", || Multiplicator::default(&rk));
                judge("a product", &lib_ok("Multiplicator::multiply", || m.multiply(&c, &d)), l, v, &want, r);
                let mut p = lib("mul", || &c * &d);
                lib_ok("relinearizes", || rk.relinearizes(&mut p));
                judge("a relinearised product", &p, l, v, &want, r);
            }
            2 if lm > 0 => {
                let kl = r.below(l.min(lm - 1) + 1);
                let i = r.range(1, spec.n / 2 - 1);
                let e = lib_ok("EvaluationKeyBuilder::new_leveled", || EvaluationKeyBuilder::new_leveled(&sk, l, kl).and_then(|mut k| k.enable_row_rotation()?.enable_column_rotation(i)?.build(&mut lr)));
                let v = f + b.ks(l, kl);
                judge("a row rotation", &lib_ok("rotates_rows", || e.rotates_rows(&c)), l, v, &ring.rot_rows(&x), r);
                judge("a column rotation", &lib_ok("rotates_columns_by", || e.rotates_columns_by(&c, i)), l, v, &ring.rot_cols(&x, i), r);
            }
            3 if l < lm => {
                let mut d = c.clone();
                lib_ok("switch_down", || d.switch_down());
                judge("a switched ciphertext", &d, l + 1, b.switch_down(l, f + 1.0, 2), &x, r);
            }
            _ => { let (y, d) = put(&mut lr, r, true); judge("a public-key encryption", &d, l, b.fresh_pk(l), &y, r); }
        }
    }
}

/// Some rounds of short-lived neighbours of `spec`. Rounds of one script do the
/// same calls on parameters of different sizes, so that their objects come to
/// lie where those of the previous round lay.
pub fn churn(spec: &Spec, seed: u64, rounds: usize) {
    let mut r = Rng::new(seed);
    let mut small = spec.clone();
    small.by_size = None;
    small.moduli.truncate(3);
    let mut left = rounds;
    while left > 0 {
        let specs: Vec<Spec> = (0..3).filter_map(|_| neighbour(&mut r, &small)).collect();
        let (script, n) = (r.u64(), r.range(1, 8).min(left));
        left -= n;
        for i in 0..n { if !specs.is_empty() { mini(&specs[i % specs.len()], &mut Rng::new(script)) } }
    }
}
