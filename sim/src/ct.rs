//! Twin executions that differ in secrets only, observed block by block and
//! access by access: a simulated clock that ticks with everything an attacker
//! who shares the machine could time.
use crate::bfvx::*;
use crate::core::{Caught, Sim, classify, fnv, lib, lib_ok};
use crate::misuse::Tn;
use crate::params::{Want, gen_spec};
use crate::rt::*;
use fhe::bfv::*;
use fhe::mbfv::*;
use fhe_math::rns::ScalingFactor;
use fhe_math::rq::{Context, Ntt, Poly, PowerBasis, SubstitutionExponent, scaler::Scaler, switcher::Switcher, traits::TryConvertFrom};
use fhe_math::zq::Modulus;
use fhe_traits::*;
use num_bigint::BigUint;
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Arc;

unsafe extern "C" {
    fn sim_cov_present() -> i32;
    fn sim_cov_arm(buf: *mut u64, cap: usize);
    fn sim_cov_disarm(out: *mut u64) -> usize;
    fn fork() -> i32;
    fn pipe(p: *mut i32) -> i32;
    fn close(f: i32) -> i32;
    fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn _exit(c: i32) -> !;
    fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn munmap(a: *mut u8, n: usize) -> i32;
}

/// One observed library call: edges, their hash, accesses, their hash.
#[derive(Clone, Debug, PartialEq)]
struct Win { name: String, ev: [u64; 4] }

/// What one twin records; the events of window `want` go to `buf`.
struct Rec { wins: Vec<Win>, want: usize, buf: *mut u64, cap: usize }
impl Rec {
    fn armed<T>(&mut self, name: &str, f: impl FnOnce() -> T) -> Option<T> {
        let b = if self.wins.len() == self.want { self.buf } else { std::ptr::null_mut() };
        let mut ev = [0u64; 4];
        heap_reset_stats();
        let cap = self.cap;
        let r = catch_unwind(AssertUnwindSafe(|| {
            unsafe { sim_cov_arm(b, cap) };
            let x = f();
            unsafe { sim_cov_disarm(ev.as_mut_ptr()) };
            x
        }));
        if r.is_err() { unsafe { sim_cov_disarm(ev.as_mut_ptr()) }; }
        let (x, how) = match r {
            Ok(x) => (Some(x), String::new()),
            Err(p) => match classify(p) {
                Caught::Rng => (None, ", generator failing".into()),
                Caught::Library(l, m) => (None, format!(" panicked at {l}: {m}")),
                Caught::Violation(v) => std::panic::panic_any(v),
                Caught::Harness(l, m) => panic!("{l}: {m}"),
            },
        };
        self.wins.push(Win { name: format!("{name}{how}"), ev });
        x
    }
}

/// The secrets of one twin.
struct K { sk: SecretKey, sk2: SecretKey, seed: u64, k: u64 }

/// Signed coefficients in protobuf varints of one length, so that restoring them
/// asks for the same memory whatever they are.
fn key_bytes(c: &[i64]) -> Vec<u8> {
    let mut b = vec![0x0a];
    let mut n = c.len() as u64 * 10;
    while n >= 0x80 { b.push(n as u8 | 0x80); n >>= 7 }
    b.push(n as u8);
    for x in c {
        let mut x = *x as u64;
        for i in 0..10 { b.push((x & 0x7f) as u8 | if i < 9 { 0x80 } else { 0 }); x >>= 7 }
    }
    b
}
/// Coefficients of a secret key: any pattern within the distribution's range.
fn key_coeffs(r: &mut Rng, n: usize, bound: i64, k: u64) -> Vec<i64> {
    let style = r.below(6);
    let mut r = Rng::new(mix(r.u64(), k));
    let mut v: Vec<i64> = (0..n).map(|i| match style {
        0 => if k == 0 { 0 } else { 1 },
        1 => if k == 0 { bound } else { -bound },
        2 => if k == 0 { 1 } else { if i % 2 == 0 { 1 } else { -1 } },
        3 => if k == 0 { (i == 0) as i64 } else { r.range(0, 2) as i64 - 1 },
        _ => r.range(0, 2 * bound as usize) as i64 - bound,
    }).collect();
    if v.iter().all(|x| *x == 0) { v[n - 1] = 1 }
    v
}
fn key_values(r: &mut Rng, n: usize, t: u64, k: u64) -> Vec<u64> {
    let style = r.below(5);
    let mut r = Rng::new(mix(r.u64(), k));
    (0..n).map(|i| match style {
        0 => if k == 0 { 0 } else { t - 1 },
        1 => *r.pick(&[0, 1, t - 1, t / 2, t / 2 + 1]) % t,
        2 => if k == 0 { (i == 0) as u64 } else { r.below64(t) },
        _ => r.below64(t),
    }).collect()
}
fn key_residues(r: &mut Rng, m: &[u64], n: usize, k: u64) -> Vec<u64> {
    let style = r.below(4);
    let mut r = Rng::new(mix(r.u64(), k));
    m.iter().flat_map(|q| (0..n).map(|_| match style {
        0 => if k == 0 { 0 } else { q - 1 },
        1 => *r.pick(&[0, 1, q - 1, q / 2, q / 2 + 1]),
        _ => r.below64(*q),
    }).collect::<Vec<_>>()).collect()
}

struct World { t: Tn, ctxs: Vec<Arc<Context>>, sw: Vec<(usize, Switcher)>, sc: Vec<(usize, Scaler)>, moduli: Vec<Modulus> }

const OPS: usize = 44;

/// One step of the program. Everything drawn from `r` is the same for both twins.
fn step(w: &World, k: &K, r: &mut Rng, shared: u64, rec: &mut Rec, op: usize, fail: Option<u64>) {
    let t = &w.t;
    // randomness that becomes public (seeds of masks) and randomness that stays secret
    let pubr = || { let mut x = LibRng::new(shared); x.fail_at = fail; x };
    let secr = || { let mut x = LibRng::new(mix(shared, k.seed)); x.fail_at = fail; x };
    let l = r.below(t.lm() + 1);
    let n = t.spec.n;
    let tt = t.ring.t64.unwrap();
    let simd = t.ring.simd && r.pct(50);
    let e = encoding(simd, l);
    macro_rules! pt { () => {{ let v = key_values(r, n, tt, k.k); lib_ok("Plaintext::try_encode", || Plaintext::try_encode(&v[..], encoding(simd, l), &t.par)) }} }
    match op {
        0 => { rec.armed("SecretKey::random", || SecretKey::random(&t.par, &mut secr())); }
        1 => { let v = key_values(r, n, tt, k.k); rec.armed("Plaintext::try_encode(&[u64])", || Plaintext::try_encode(&v[..], e, &t.par)); }
        2 => { let v: Vec<i64> = key_values(r, n, tt, k.k).iter().map(|x| if *x > tt / 2 { *x as i64 - tt as i64 } else { *x as i64 }).collect(); rec.armed("Plaintext::try_encode(&[i64])", || Plaintext::try_encode(&v[..], e, &t.par)); }
        3 => { let v = key_values(r, 2 * n + n / 2, tt, k.k); rec.armed("PlaintextVec::try_encode", || PlaintextVec::try_encode(&v[..], e, &t.par)); }
        4 | 5 => { let p = pt!(); rec.armed("SecretKey::try_encrypt", || -> Result<Ciphertext, _> { k.sk.try_encrypt(&p, &mut secr()) }); }
        6 | 7 => { let p = pt!(); rec.armed("PublicKey::try_encrypt", || -> Result<Ciphertext, _> { t.pk.try_encrypt(&p, &mut secr()) }); }
        8 | 9 | 10 => { let c = &t.cts[l][r.below(4)]; rec.armed("SecretKey::try_decrypt", || k.sk.try_decrypt(c)); }
        11 => {
            // a plaintext under a key both hold would be one secret: each decrypts its own
            let p = pt!();
            let c: Ciphertext = lib_ok("try_encrypt", || k.sk.try_encrypt(&p, &mut secr_plain(shared, k)));
            rec.armed("SecretKey::try_decrypt of own ciphertext", || k.sk.try_decrypt(&c));
        }
        12 => { let p = pt!(); rec.armed("Vec::<u64>::try_decode", || Vec::<u64>::try_decode(&p, encoding(simd, l))); }
        13 => { let p = pt!(); rec.armed("Vec::<i64>::try_decode", || Vec::<i64>::try_decode(&p, encoding(simd, l))); }
        14 => { rec.armed("PublicKey::new", || PublicKey::new(&k.sk, &mut secr())); }
        15 => { if t.lm() > 0 { let kl = r.below(l.min(t.lm() - 1) + 1); rec.armed("RelinearizationKey::new_leveled", || RelinearizationKey::new_leveled(&k.sk, l, kl, &mut pubr())); } }
        16 => { if t.lm() > 0 { rec.armed("RelinearizationKey::new", || RelinearizationKey::new(&k.sk, &mut pubr())); } }
        17 | 18 => {
            let x = r.range(1, n / 2 - 1);
            let kl = r.below(l + 1);
            let ex = r.range(1, n.ilog2() as usize);
            let what = r.below(4);
            rec.armed("EvaluationKeyBuilder", || -> Result<EvaluationKey, _> {
                let mut b = EvaluationKeyBuilder::new_leveled(&k.sk, l, kl)?;
                b.enable_column_rotation(x)?;
                if what == 1 { b.enable_row_rotation()?; }
                if what == 2 { b.enable_inner_sum()?; }
                if what == 3 { b.enable_expansion(ex)?; }
                b.build(&mut pubr())
            });
        }
        19 => { let p = pt!(); rec.armed("gadget encryption", || -> Result<RGSWCiphertext, _> { k.sk.try_encrypt(&p, &mut pubr()) }); }
        20 => { let c = t.crp[0].clone(); rec.armed("PublicKeyShare::new", || PublicKeyShare::new(&k.sk, c, &mut secr())); }
        21 => {
            let c = Arc::new(t.cts[l][r.below(2)].clone());
            rec.armed("DecryptionShare::new", || DecryptionShare::new(&k.sk, &c, &mut secr()));
        }
        22 => { let c = Arc::new(t.cts[l][r.below(2)].clone()); rec.armed("SecretKeySwitchShare::new", || SecretKeySwitchShare::new(&k.sk, &k.sk2, c, &mut secr())); }
        23 => { let c = &t.cts[l][r.below(2)]; rec.armed("PublicKeySwitchShare::new", || PublicKeySwitchShare::new(&k.sk, &t.pk, c, &mut secr())); }
        24 => {
            let Some(r1) = &t.r1 else { return };
            let Some(Ok(g)) = rec.armed("RelinKeyGenerator::new", || RelinKeyGenerator::new(&k.sk, &t.crp, &mut secr())) else { return };
            rec.armed("RelinKeyGenerator::round_1", || g.round_1(&mut secr()));
            rec.armed("RelinKeyGenerator::round_2", || g.round_2(r1, &mut secr()));
            rec.armed("dropping a RelinKeyGenerator", || drop(g));
        }
        25 => { let p = pt!(); let c = &t.cts[l][r.below(4)]; match r.below(3) { 0 => { rec.armed("ciphertext + plaintext", || c + &p); } 1 => { rec.armed("ciphertext - plaintext", || c - &p); } _ => { rec.armed("ciphertext * plaintext", || c * &p); } } }
        26 => { let p = pt!(); let mut c = t.cts[l][r.below(4)].clone(); match r.below(3) { 0 => { rec.armed("ciphertext += plaintext", || c += &p); } 1 => { rec.armed("ciphertext -= plaintext", || c -= &p); } _ => { rec.armed("ciphertext *= plaintext", || c *= &p); } } }
        27 => { let m = r.range(1, 3); let p: Vec<Plaintext> = (0..m).map(|_| pt!()).collect(); let c = &t.cts[l][..2]; rec.armed("dot_product_scalar", || dot_product_scalar(c.iter().cycle().take(p.len()), p.iter())); }
        28 => { let p = pt!(); let q = p.clone(); rec.armed("dropping a plaintext", || drop(q)); rec.armed("cloning a plaintext", || p.clone()); let c = sk_copy(&k.sk); rec.armed("dropping a secret key", || drop(c)); }
        29 => {
            // words
            let q = r.pick(&w.moduli);
            let p = **q;
            let a: Vec<u64> = key_residues(r, &[p], n, k.k);
            let b: Vec<u64> = key_residues(r, &[p], n, k.k);
            let bs = q.shoup_vec(&b);
            let (mut x, mut y) = (a.clone(), a.clone());
            match r.below(15) {
                0 => { rec.armed("Modulus::add_vec", || q.add_vec(&mut x, &b)); }
                1 => { rec.armed("Modulus::sub_vec", || q.sub_vec(&mut x, &b)); }
                2 => { rec.armed("Modulus::mul_vec", || q.mul_vec(&mut x, &b)); }
                3 => { rec.armed("Modulus::mul_shoup_vec", || q.mul_shoup_vec(&mut x, &b, &bs)); }
                4 => { rec.armed("Modulus::neg_vec", || q.neg_vec(&mut x)); }
                5 => { rec.armed("Modulus::scalar_mul_vec", || q.scalar_mul_vec(&mut x, b[0])); }
                6 => { rec.armed("Modulus::center_vec", || q.center_vec(&a)); }
                7 => { rec.armed("Modulus::shoup_vec", || q.shoup_vec(&a)); }
                8 => { let mut v: Vec<u64> = key_values(r, n, u64::MAX, k.k); rec.armed("Modulus::reduce_vec", || q.reduce_vec(&mut v)); }
                9 => { let v: Vec<i64> = key_values(r, n, u64::MAX, k.k).iter().map(|x| (*x as i64) >> 3).collect(); rec.armed("Modulus::reduce_vec_i64", || q.reduce_vec_i64(&v)); }
                10 => { let v = key_values(r, n, u64::MAX, k.k); rec.armed("Modulus::reduce_vec_new", || q.reduce_vec_new(&v)); }
                11 => { let mut v = key_values(r, n, u64::MAX, k.k); rec.armed("Modulus::lazy_reduce_vec", || q.lazy_reduce_vec(&mut v)); }
                12 => { rec.armed("Modulus::add, sub, neg, mul", || for i in 0..n { x[i] = q.add(a[i], b[i]); y[i] = q.neg(q.mul(q.sub(a[i], b[i]), x[i])) }); }
                13 => { rec.armed("Modulus::mul_shoup, lazy_mul_shoup, center", || for i in 0..n { x[i] = q.mul_shoup(a[i], b[i], bs[i]); y[i] = q.lazy_mul_shoup(a[i], b[i], bs[i]) ^ q.center(a[i]) as u64 }); }
                _ => { let v = key_values(r, n, u64::MAX, k.k); rec.armed("Modulus::reduce, reduce_u128, lazy_reduce", || for i in 0..n { x[i] = q.reduce(v[i]) ^ q.lazy_reduce(v[i]); y[i] = q.reduce_u128((v[i] as u128) << 64 | b[i] as u128) ^ q.lazy_reduce_u128((v[i] as u128) << 60 | a[i] as u128) }); }
            }
            std::hint::black_box((&x, &y));
        }
        30 => { let nb = (u64::BITS - tt.leading_zeros()) as usize; let v = key_values(r, n, tt, k.k); let b = fhe_util::transcode_to_bytes(&v, nb); if r.pct(50) { rec.armed("transcode_to_bytes", || fhe_util::transcode_to_bytes(&v, nb)); } else { rec.armed("transcode_from_bytes", || fhe_util::transcode_from_bytes(&b, nb)); } }
        31 => { rec.armed("sample_vec_cbd", || fhe_util::sample_vec_cbd(n, t.spec.var, &mut secr())); }
        32 => { let ctx = &w.ctxs[l]; if r.pct(50) { rec.armed("Poly::small", || Poly::<PowerBasis>::small(ctx, t.spec.var, &mut secr())); } else { rec.armed("Poly::small", || Poly::<Ntt>::small(ctx, t.spec.var, &mut secr())); } }
        _ => {
            // polynomials without permission, alone and with public ones
            let ctx = &w.ctxs[l];
            let (x, mut y) = (key_residues(r, ctx.moduli(), n, k.k), key_residues(r, ctx.moduli(), n, k.k));
            if r.pct(20) && k.k == 0 { y.copy_from_slice(&x) }
            let z = key_residues(r, ctx.moduli(), n, 7);
            let poly = |v: Vec<u64>, vt: bool| lib_ok("polynomial", || Poly::<PowerBasis>::try_convert_from(v, ctx, vt));
            let (a, b, c) = (poly(x, false), poly(y, false), poly(z, true));
            let (an, bn, cn) = lib("into_ntt", || (a.clone().into_ntt(), b.clone().into_ntt(), c.clone().into_ntt()));
            let (bs, cs) = lib("into_ntt_shoup", || (bn.clone().into_ntt_shoup(), cn.clone().into_ntt_shoup()));
            match r.below(24) {
                0 => { rec.armed("&Poly + &Poly", || &a + &b); }
                1 => { rec.armed("&Poly - &Poly", || &an - &bn); }
                2 => { rec.armed("&Poly * &Poly", || &an * &bn); }
                3 => { rec.armed("&Poly * &Poly<NttShoup>", || &an * &bs); }
                4 => { rec.armed("-&Poly", || -&a); }
                5 => { let s = lib_ok("SubstitutionExponent::new", || SubstitutionExponent::new(ctx, 2 * r.below(n) + 1)); rec.armed("substitute", || (a.substitute(&s), an.substitute(&s), bs.substitute(&s))); }
                6 => { rec.armed("into_ntt", || a.clone().into_ntt()); }
                7 => { rec.armed("into_power_basis", || an.clone().into_power_basis()); }
                8 => { let mut a = a; rec.armed("switch_down", || a.switch_down()); }
                9 => { rec.armed("public + secret", || &c + &a); }
                10 => { rec.armed("secret += public", || { let mut a = an.clone(); a += &cn; a -= &cn; a }); }
                11 => { rec.armed("public *= secret", || { let mut c = cn.clone(); c *= &an; c += &bn; c }); }
                12 => { rec.armed("into_ntt_shoup", || an.clone().into_ntt_shoup()); }
                13 => { let x = BigUint::from(shared); rec.armed("integer multiple", || &an * &x); }
                14 => { rec.armed("secret *= public (NttShoup)", || { let mut a = an.clone(); a *= &cs; a }); }
                15 => { rec.armed("public *= secret (NttShoup)", || { let mut c = cn.clone(); c *= &bs; c }); }
                16 => { let m = r.range(0, 2 * n - 1); let mut a = a; rec.armed("multiply_inverse_power_of_x", || a.multiply_inverse_power_of_x(m)); }
                17 => { if let Some((i, s)) = w.sw.get(r.below(w.sw.len().max(1))) { if *i == l { rec.armed("switching to another chain", || a.switch(s)); } } }
                18 | 19 => { if let Some((i, s)) = w.sc.get(r.below(w.sc.len().max(1))) { if *i == l { rec.armed("scaling to another chain", || a.scale(s)); } } }
                20 => { let v = key_coeffs(r, n, 1 << 20, k.k); rec.armed("polynomial from signed words", || Poly::<PowerBasis>::try_convert_from(&v[..], ctx, false)); }
                21 => { let v = key_values(r, n, u64::MAX, k.k); rec.armed("polynomial from words", || Poly::<PowerBasis>::try_convert_from(&v[..], ctx, false)); }
                22 => { let t1 = &w.ctxs[t.lm()]; let mut a = a; rec.armed("switch_down_to", || a.switch_down_to(t1)); }
                _ => { let v = [an.clone(), bn.clone()]; let u = [bn, cn]; rec.armed("dot_product", || fhe_math::rq::dot_product(v.iter(), u.iter())); }
            }
        }
    }
}
fn secr_plain(shared: u64, k: &K) -> LibRng { LibRng::new(mix(shared, k.seed ^ 0x77)) }
fn sk_copy(k: &SecretKey) -> SecretKey { k.clone() }

fn place(pc: u64) -> String {
    let maps = std::fs::read_to_string("/proc/self/maps").unwrap_or_default();
    let base = maps.lines().next().and_then(|l| u64::from_str_radix(l.split('-').next()?, 16).ok()).unwrap_or(0);
    let Ok(exe) = std::env::current_exe() else { return String::new() };
    let o = std::process::Command::new("addr2line").args(["-f", "-C", "-i", "-s", "-e"]).arg(exe).arg(format!("{:x}", pc.wrapping_sub(base + 1))).output();
    o.map(|o| String::from_utf8_lossy(&o.stdout).lines().map(|l| l.to_string()).collect::<Vec<_>>().join(" ")).unwrap_or_default()
}

const CAP: usize = 1 << 27;

pub fn run(sim: &mut Sim) {
    // instrumented: branches and addresses; otherwise every instruction, one by one
    let stepped = unsafe { sim_cov_present() } == 0;
    sim.begin(0);
    let mut r = sim.rng.clone();
    let top = if stepped { if r.below(12) == 0 { 6 } else { 4 } } else if r.below(12) == 0 { 8 } else { 6 };
    let spec = loop {
        let s = gen_spec(&mut r, Want { min_moduli: 1, max_moduli: 4, max_deg_log: top, simd: 60, depth: 1, big_t: false });
        // larger plaintext moduli are computed on with arbitrary-precision integers
        if s.moduli.iter().all(|q| BigUint::from(*q) > &s.t * 2u32) && s.t < BigUint::from(1u64 << 61) { break s }
    };
    sim.rng = r;
    let mut t = Tn::new(sim, spec);
    for (i, row) in t.cts.iter_mut().enumerate() {
        for c in row.iter_mut() { if sim.rng.pct(40) { let b = c.to_bytes(); *c = lib_ok("Ciphertext::from_bytes", || Ciphertext::from_bytes(&b, &t.par)); let _ = i; } }
    }
    let ctxs: Vec<Arc<Context>> = (0..=t.lm()).map(|l| lib_ok("context_at_level", || t.par.context_at_level(l).cloned())).collect();
    let (mut sw, mut sc) = (vec![], vec![]);
    let r = &mut sim.rng;
    for _ in 0..3 {
        let (a, b) = (r.below(ctxs.len()), r.below(ctxs.len()));
        if let Ok(s) = Switcher::new(&ctxs[a], &ctxs[b]) { sw.push((a, s)) }
        let f = ScalingFactor::new(&t.spec.t, ctxs[a].modulus());
        if let Ok(s) = Scaler::new(&ctxs[a], &ctxs[b], f) { sc.push((a, s)) }
    }
    let moduli = t.spec.moduli.iter().map(|q| lib_ok("Modulus::new", || Modulus::new(*q))).collect();
    let (n, bound) = (t.spec.n, 2 * t.spec.var as i64);
    let mut keys: Vec<[Vec<u8>; 2]> = (0..2).map(|_| { let s = r.u64(); [0, 1].map(|k| key_bytes(&key_coeffs(&mut Rng::new(s), n, bound, k))) }).collect();
    // one twin's two keys coincide
    if r.pct(25) { let k = r.below(2); keys[1][k] = keys[0][k].clone() }
    let w = World { t, ctxs, sw, sc, moduli };
    let mut prog = vec![];
    for i in 1..=if stepped { 8 } else { 36 } {
        if !sim.begin(i) { continue }
        let mut op = sim.rng.below(OPS);
        // long calls are stepped through more rarely
        if stepped && [17, 18, 19, 23, 24].contains(&op) && sim.rng.pct(60) { op = sim.rng.below(OPS) }
        // between changes of the compiler: the arithmetic everything else is made of
        if stepped && !sim.thorough && ![10, 29, 31, 32].contains(&op) && op < 33 { op = 29 + op % 2 * 4 }
        let s = sim.lib_seed();
        let fail = if sim.fault("generator fails", 120) { Some(sim.frand(6 * n) as u64) } else { None };
        let ent = sim.fault("entropy interrupted", 60);
        prog.push((sim.rng.clone(), op, s, fail, ent));
    }
    let base = sim.seed;
    // Both twins are forked from the same state: same addresses, same entropy.
    let spawn = |k: u64, want: usize, buf: *mut u64, fds: &[i32; 4]| -> i32 {
        let pid = unsafe { fork() };
        assert!(pid >= 0, "fork");
        if pid == 0 {
            unsafe { prctl(1, 9, 0, 0, 0) };
            let mut rec = Rec { wins: Vec::with_capacity(256), want, buf, cap: CAP / 8 };
            let x = catch_unwind(AssertUnwindSafe(|| {
                let key = |i: usize| lib_ok("SecretKey::from_bytes", || SecretKey::from_bytes(&keys[i][k as usize], &w.t.par));
                let k = K { sk: key(0), sk2: key(1), seed: mix(base, 77 + k), k };
                for (r, op, s, f, ent) in &prog {
                    unsafe { sim_entropy_fault(if *ent { 3 } else { 0 }) };
                    step(&w, &k, &mut r.clone(), *s, &mut rec, *op, *f);
                }
            }));
            let mut s = String::new();
            for w in &rec.wins { s += &format!("{} {} {} {} {}\n", w.ev[0], w.ev[1], w.ev[2], w.ev[3], w.name.replace('\n', " ")) }
            if let Err(p) = x {
                s += &match classify(p) {
                    Caught::Violation(v) => format!("0 0 0 0 !V{}\t{}\n", v.class, v.msg.replace('\n', " ")),
                    Caught::Rng => "0 0 0 0 !Hstray generator failure\n".into(),
                    Caught::Library(l, m) | Caught::Harness(l, m) => format!("0 0 0 0 !H{l}: {}\n", m.replace('\n', " ")),
                };
            }
            let mut f = unsafe { std::fs::File::from_raw_fd(fds[2 * k as usize + 1]) };
            let _ = f.write_all(s.as_bytes());
            unsafe { _exit(0) }
        }
        pid
    };
    let twins = |want: usize, bufs: [*mut u64; 2]| -> [(Vec<Win>, i32); 2] {
        let mut fds = [0i32; 4];
        unsafe { assert!(pipe(fds.as_mut_ptr()) == 0 && pipe(fds.as_mut_ptr().add(2)) == 0, "pipe") };
        let pids = [spawn(0, want, bufs[0], &fds), spawn(1, want, bufs[1], &fds)];
        unsafe { close(fds[1]); close(fds[3]) };
        [0, 1].map(|k| {
            let mut s = String::new();
            unsafe { std::fs::File::from_raw_fd(fds[2 * k]) }.read_to_string(&mut s).expect("pipe");
            let mut st = 0;
            unsafe { waitpid(pids[k], &mut st, 0) };
            (s.lines().map(|l| { let p: Vec<&str> = l.splitn(5, ' ').collect(); Win { name: p[4].into(), ev: [0, 1, 2, 3].map(|i| p[i].parse().unwrap()) } }).collect(), st)
        })
    };
    let [(a, sa), (b, sb)] = twins(usize::MAX, [std::ptr::null_mut(); 2]);
    for x in [&a, &b] {
        if let Some(l) = x.last() {
            if let Some(m) = l.name.strip_prefix("!V") { let (c, m) = m.split_once('\t').unwrap_or((m, "")); violate!(c, "{m}") }
            if let Some(m) = l.name.strip_prefix("!H") { panic!("twin: {m}") }
        }
    }
    ensure!(sa == 0 && sb == 0, "crash", "a twin ended with status {sa}/{sb} after {}/{} calls", a.len(), b.len());
    for w in &a { sim.op(w.name.split([',', '(']).next().unwrap()); sim.log(&format!("{}: {} edges #{:016x}, {} accesses", w.name, w.ev[0], w.ev[1], w.ev[2])); sim.now += w.ev[0] + w.ev[2]; sim.state(fnv(w.ev[1], w.name.as_bytes())); }
    for i in 0..a.len().max(b.len()) {
        let (Some(x), Some(y)) = (a.get(i), b.get(i)) else { violate!("outcome-depends", "one twin makes {} observed calls, the other {}", a.len(), b.len()) };
        ensure!(x.name == y.name, "outcome-depends", "{} with one secret is {} with another", x.name, y.name);
        if x.ev == y.ev { continue }
        let map = || unsafe { mmap(std::ptr::null_mut(), CAP, 3, 0x4021, -1, 0) } as *mut u64;
        let (p, q) = (map(), map());
        twins(i, [p, q]);
        let (p, q) = unsafe { (std::slice::from_raw_parts(p, CAP / 8), std::slice::from_raw_parts(q, CAP / 8)) };
        let at = match (0..CAP / 16).find(|e| p[2 * e..2 * e + 2] != q[2 * e..2 * e + 2]) {
            None => "a place not found again".to_string(),
            Some(e) if p[2 * e] == q[2 * e] => format!("event {e}: {} uses an address that differs", place(p[2 * e])),
            Some(e) => format!("event {e}: after {} one continues at {}, the other at {}", if e > 0 { place(p[2 * e - 2]) } else { "the start".into() }, place(p[2 * e]), place(q[2 * e])),
        };
        unsafe { munmap(p.as_ptr() as *mut u8, CAP); munmap(q.as_ptr() as *mut u8, CAP) };
        let what = if x.ev[..2] != y.ev[..2] { "control-flow" } else { "memory-access" };
        violate!(format!("{what}@{}", x.name.split(',').next().unwrap()), "{} depends on secrets: {} and {} edges, {} and {} accesses; {at}", x.name, x.ev[0], y.ev[0], x.ev[2], y.ev[2]);
    }
}
