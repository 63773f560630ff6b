//! Secrets in freed memory: every block a library call frees, normally, on an
//! error or while unwinding, is searched for the secrets that call handled.
use crate::bfvx::*;
use crate::core::{Caught, Sim, classify, fnv, lib, lib_ok};
use crate::misuse::Tn;
use crate::model::{Val, negacyclic};
use crate::node::Node;
use crate::params::{Spec, Want, gen_spec};
use crate::rt::*;
use fhe::bfv::*;
use fhe::mbfv::round::*;
use fhe::mbfv::*;
use fhe_math::rq::{Ntt, Poly, PowerBasis, SubstitutionExponent, traits::TryConvertFrom};
use fhe_traits::*;
use num_bigint::BigUint;
use num_traits::{ToPrimitive, Zero};
use std::collections::HashMap;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Arc;

const FNV: u64 = 0xcbf29ce484222325;

/// Word windows that must not be found in a freed block, indexed by first word.
#[derive(Default, Clone)]
struct Needles { v: Vec<(String, Vec<u64>)>, ix: HashMap<u64, Vec<usize>> }

/// Bits a window of these words carries, judged by how the words repeat.
fn bits(w: &[u64]) -> f64 {
    let mut c: HashMap<u64, usize> = HashMap::new();
    for x in w { *c.entry(*x).or_default() += 1 }
    let n = w.len() as f64;
    let coll: f64 = c.values().map(|k| (*k as f64 / n).powi(2)).sum::<f64>();
    // collision entropy of the empirical distribution, at least one bit per word off
    -coll.log2() * n
}

impl Needles {
    /// Two windows of a row, each long enough to identify it.
    fn row(&mut self, name: &str, row: &[u64], r: &mut Rng) {
        let n = row.len();
        let mut len = 8;
        while len < n && bits(&row[..len]).min(bits(&row[n - len..])) < 100.0 && !(len >= 8 && row[..len].iter().all(|x| *x > 1 << 13)) { len += 4 }
        let len = len.min(n);
        if bits(row) < 60.0 { return }
        for k in 0..2 {
            let at = if k == 0 { r.below(n / 2 + 1).min(n - len) } else { (n / 2 + r.below(n / 2)).min(n - len) };
            let w = row[at..at + len].to_vec();
            if bits(&w) < 60.0 && !w.iter().all(|x| *x > 1 << 13) { continue }
            self.push(name, w);
        }
    }
    fn push(&mut self, name: &str, w: Vec<u64>) {
        self.ix.entry(w[0]).or_default().push(self.v.len());
        self.v.push((name.to_string(), w));
    }
    /// Residues, transforms and transform companions of a polynomial.
    fn poly(&mut self, name: &str, p: &Poly<PowerBasis>, r: &mut Rng) {
        let moduli = p.ctx().moduli().to_vec();
        for (row, q) in p.coefficients().outer_iter().zip(&moduli) { self.row(&format!("{name} (residues modulo {q})"), &row.to_vec(), r) }
        let t = p.clone().into_ntt();
        for (row, q) in t.coefficients().outer_iter().zip(&moduli) {
            let row = row.to_vec();
            self.row(&format!("{name} (transform modulo {q})"), &row, r);
            let sh: Vec<u64> = row.iter().map(|x| (((*x as u128) << 64) / *q as u128) as u64).collect();
            self.row(&format!("{name} (transform companion modulo {q})"), &sh, r);
        }
    }
    /// First needle present in a block.
    fn find(&self, block: &[u64]) -> Option<&str> {
        for (i, w) in block.iter().enumerate() {
            if let Some(c) = self.ix.get(w) {
                for &k in c {
                    let n = &self.v[k].1;
                    if block.len() - i >= n.len() && block[i..i + n.len()] == n[..] { return Some(&self.v[k].0) }
                }
            }
        }
        None
    }
    fn and(&self, o: &Needles) -> Needles {
        let mut s = self.clone();
        for (n, w) in &o.v { s.push(n, w.clone()) }
        s
    }
}

/// Runs a library call keeping the contents of every block it frees.
fn armed<T>(f: impl FnOnce() -> T) -> (Option<T>, Vec<Vec<u64>>) {
    heap_capture(256);
    let x = catch_unwind(AssertUnwindSafe(f));
    let blocks = heap_captured();
    match x {
        Ok(v) => (Some(v), blocks),
        Err(p) => match classify(p) {
            Caught::Rng => (None, blocks),
            Caught::Library(l, m) => violate!("panic", "library panic at {l}: {m}"),
            Caught::Violation(v) => std::panic::panic_any(v),
            Caught::Harness(l, m) => panic!("{l}: {m}"),
        },
    }
}

struct W { t: Tn, crp: Vec<Poly<Ntt>>, key: Needles, key2: Needles, seen: std::collections::BTreeMap<String, usize>, all: bool }
impl W {
    fn check(&mut self, op: &str, how: &str, n: &Needles, blocks: &[Vec<u64>]) {
        for b in blocks {
            if let Some(x) = n.find(b) {
                if self.all { *self.seen.entry(format!("{op} {how}: {} [{}w]", x.split(" modulo").next().unwrap(), b.len())).or_default() += 1; continue }
                violate!("secret-left", "{op}{how} frees a block of {} bytes that still holds {x}", b.len() * 8);
            }
        }
    }
    fn ctx(&self, l: usize) -> Arc<fhe_math::rq::Context> { lib_ok("context_at_level", || self.t.par.context_at_level(l).cloned()) }
    /// What a plaintext carries.
    fn plain(&self, pt: &Plaintext, slots: Option<&Vec<u64>>, r: &mut Rng) -> Needles {
        let mut n = Needles::default();
        let l = pt.level();
        let ctx = self.ctx(l);
        let p = lib_ok("polynomial of a plaintext", || Poly::<PowerBasis>::try_convert_from(pt, &ctx, false));
        let q = modulus_at(&self.t.par, l);
        let m: Vec<BigUint> = crt(&p.coefficients().outer_iter().map(|x| x.to_vec()).collect::<Vec<_>>(), p.ctx().moduli()).into_iter().map(|x| x % &self.t.spec.t).collect();
        if let Some(s) = slots { n.row("the values of a plaintext", s, r) }
        if self.t.ring.t64.is_some() {
            let w: Vec<u64> = m.iter().map(|x| x.to_u64().unwrap()).collect();
            n.row("the coefficients of a plaintext", &w, r);
            let qt = &q % &self.t.spec.t;
            let w: Vec<u64> = m.iter().map(|x| ((x * &qt) % &self.t.spec.t).to_u64().unwrap()).collect();
            n.row("the scaled coefficients of a plaintext", &w, r);
        }
        n.poly("a plaintext polynomial", &p, r);
        let s: Vec<BigUint> = m.iter().map(|x| crate::model::scaled(x, &q, &self.t.spec.t)).collect();
        let s = lib_ok("polynomial", || Poly::<PowerBasis>::try_convert_from(&s[..], &ctx, false));
        n.poly("a scaled plaintext polynomial", &s, r);
        n
    }
    /// c1*s, c2*s^2, ... and their sums: what decryption computes on the way.
    fn phases(&self, ct: &Ciphertext, s: &[i64], r: &mut Rng) -> Needles {
        let mut n = Needles::default();
        let ctx = ct[0].ctx().clone();
        let sp = lib_ok("polynomial", || Poly::<PowerBasis>::try_convert_from(s, &ctx, false)).into_ntt();
        let mut si = sp.clone();
        let mut acc = ct[0].clone();
        acc.disallow_variable_time_computations();
        for i in 1..ct.len() {
            let x = lib("mul", || &ct[i] * &si);
            n.poly("a ciphertext polynomial times a power of the secret key", &x.to_power_basis(), r);
            acc += &x;
            si *= &sp;
        }
        n.poly("a decrypted phase", &acc.to_power_basis(), r);
        n
    }
}

/// Masks of a key-switching key, as its bytes announce them.
pub fn ksk_masks(par: &Arc<BfvParameters>, k: &fhe::proto::bfv::KeySwitchingKey) -> Vec<Poly<Ntt>> {
    use rand::{RngExt, SeedableRng};
    let Ok(ctx) = par.context_at_level(k.ksk_level as usize) else { return vec![] };
    let Ok(seed) = <[u8; 32]>::try_from(&k.seed[..]) else { return vec![] };
    let mut g = rand_chacha::ChaCha8Rng::from_seed(seed);
    (0..k.c0.len()).map(|_| { let mut s = [0u8; 32]; g.fill(&mut s); Poly::<Ntt>::random_from_seed(ctx, s) }).collect()
}
/// Public masks times the secret key: with the mask, these give the key away.
fn mask_needles(masks: &[Poly<Ntt>], s: &[i64], n: &mut Needles, r: &mut Rng) {
    for a in masks {
        let sp = lib_ok("polynomial", || Poly::<PowerBasis>::try_convert_from(s, a.ctx(), false)).into_ntt();
        let mut x = a.clone();
        x.disallow_variable_time_computations();
        x *= &sp;
        n.poly("a public mask times the secret key", &x.to_power_basis(), r);
        n.poly("a public mask times the secret key, negated", &(-x).to_power_basis(), r);
    }
}
fn key_needles(par: &Arc<BfvParameters>, s: &[i64], r: &mut Rng) -> Needles {
    let mut n = Needles::default();
    let w: Vec<u64> = s.iter().map(|x| *x as u64).collect();
    n.row("the secret key's coefficients", &w, r);
    let ctx = lib_ok("context_at_level", || par.context_at_level(0).cloned());
    let p = lib_ok("polynomial", || Poly::<PowerBasis>::try_convert_from(s, &ctx, false));
    n.poly("the secret key", &p, r);
    // powers, exactly over the integers modulo each level's own modulus
    for l in 0..=par.max_level() {
        let q = modulus_at(par, l);
        let c = lib_ok("context_at_level", || par.context_at_level(l).cloned());
        let sb: Vec<BigUint> = s.iter().map(|x| if *x < 0 { &q - x.unsigned_abs() } else { BigUint::from(*x as u64) }).collect();
        let mut acc = sb.clone();
        for k in 2..=3 {
            acc = negacyclic(&acc, &sb, &q);
            if l == 0 {
                let p = lib_ok("polynomial", || Poly::<PowerBasis>::try_convert_from(&acc[..], &c, false));
                n.poly(&format!("power {k} of the secret key"), &p, r);
            }
        }
        break;
    }
    n
}
fn galois_needles(par: &Arc<BfvParameters>, s: &[i64], e: usize, r: &mut Rng) -> Needles {
    let mut n = Needles::default();
    let ctx = lib_ok("context_at_level", || par.context_at_level(0).cloned());
    let p = lib_ok("polynomial", || Poly::<PowerBasis>::try_convert_from(s, &ctx, false));
    let x = lib_ok("SubstitutionExponent::new", || SubstitutionExponent::new(&ctx, e));
    n.poly("the substituted secret key", &lib_ok("substitute", || p.substitute(&x)), r);
    n
}

pub fn run(sim: &mut Sim) {
    sim.begin(0);
    let mut r = sim.rng.clone();
    let spec: Spec = loop {
        let s = gen_spec(&mut r, Want { min_moduli: 1, max_moduli: 3, max_deg_log: 7, simd: 70, depth: 1, big_t: true });
        if s.n >= 64 { break s }
    };
    sim.rng = r;
    let all = std::env::var_os("FHESIM_LEAKS").is_some();
    let ent = sim.lib_seed();
    let seed = sim.lib_seed();
    let (sp, thorough) = (spec.clone(), sim.thorough);
    let w = Node::spawn(ent, move || {
        let mut sub = Sim::new("C14", seed, Default::default(), false);
        sub.begin(0);
        sub.calm = true;
        sub.thorough = thorough;
        let t = Tn::new(&mut sub, sp);
        let mut r = Rng::new(seed);
        let key = key_needles(&t.par, &t.s, &mut r);
        let s2 = sk_coeffs(&t.sk2);
        let key2 = key_needles(&t.par, &s2, &mut r);
        // The common polynomials, seen through public keys made from them.
        let crp = t.crp.iter().map(|c| {
            let pk = lib_ok("aggregate", || PublicKey::from_shares(vec![PublicKeyShare::new(&t.sk, c.clone(), &mut LibRng::new(1))?]));
            let p: fhe::proto::bfv::PublicKey = prost::Message::decode(&pk.to_bytes()[..]).unwrap();
            lib_ok("Ciphertext::from_bytes", || Ciphertext::from_bytes(&prost::Message::encode_to_vec(&p.c.unwrap()), &t.par))[1].clone()
        }).collect();
        W { key: key.clone(), key2, crp, t, seen: Default::default(), all }
    });
    sim.log(&format!("params n={} t={} var={} q={:?}", spec.n, spec.t, spec.var, spec.moduli));
    let steps = sim.rng.range(4, 12);
    for i in 1..=steps as u32 {
        if !sim.begin(i) { continue }
        let op = *sim.rng.pick(OPS);
        let fail = if RANDOM.contains(&op) && sim.fault("generator-fails", 350) {
            // anywhere in the operation: the draws grow with the degree
            let n = if sim.frand(2) == 0 { 40 } else { 40 * spec.n };
            Some(sim.frand(n) as u64)
        } else { None };
        let lseed = sim.lib_seed();
        let (x, y, hs) = (sim.rng.below(64), sim.rng.below(64), sim.rng.u64());
        sim.op(op);
        sim.log(&format!("{op} {x} {y} {fail:?}"));
        let res = w.call(move |w| step(w, op, x, y, fail, lseed, &mut Rng::new(hs)));
        sim.count_fault("error-return", res.1);
        sim.log(&format!("  {} blocks freed, {} windows searched for", res.0, res.2));
        sim.state(fnv(FNV, format!("{op} {} {} {}", fail.is_some(), res.1, spec.moduli.len()).as_bytes()));
        sim.now += 1000;
    }
    if all { let s = w.call(|w| format!("{:#?}", w.seen)); eprintln!("{s}") }
}

pub const OPS: &[&str] = &["sk-random", "sk-clone", "sk-restore", "sk-bytes", "enc-sk", "enc-pk", "decrypt", "noise", "pk-new", "rlk-new", "ek-build", "rgsw-enc", "pk-share", "dec-share", "dec-aggregate", "sks-share", "pks-share", "rlk-share", "encode", "decode", "pt-drop", "pt-vec", "enc-refused", "builder-drop"];
const RANDOM: &[&str] = &["sk-random", "enc-sk", "enc-pk", "pk-new", "rlk-new", "ek-build", "rgsw-enc", "pk-share", "dec-share", "sks-share", "pks-share", "rlk-share"];

/// (blocks freed, calls refused, windows)
fn step(w: &mut W, op: &str, x: usize, y: usize, fail: Option<u64>, seed: u64, r: &mut Rng) -> (usize, u64, usize) {
    let mut lr = match fail { Some(f) => LibRng::failing(seed, f), None => LibRng::new(seed) };
    let lr0 = LibRng::new(seed);
    let how = if fail.is_some() { " (generator failing)" } else { "" };
    let lm = w.t.lm();
    let l = x % (lm + 1);
    let par = w.t.par.clone();
    let ring = w.t.ring.clone();
    let mut refused = 0;
    let (mut blocks, mut nn) = (0usize, 0usize);
    macro_rules! go {
        ($what:expr, $n:expr, $f:expr) => {{ let (v, b) = armed($f); let n: &Needles = &$n; blocks += b.len(); nn += n.v.len(); let n2 = n.clone(); w.check($what, how, &n2, &b); v }};
    }
    macro_rules! post { ($what:expr, $b:expr, $n:expr) => {{ let n: Needles = $n; blocks += $b.len(); nn += n.v.len(); w.check($what, how, &n, &$b); }}; }
    let simd = y % 2 == 1 && w.t.pts[l].1.is_some();
    macro_rules! pt { () => { if simd { w.t.pts[l].1.clone().unwrap() } else { w.t.pts[l].0.clone() } } }
    let slots: Option<Vec<u64>> = if simd { match w.t.vals[l].1.as_ref().unwrap() { Val::Simd(v) => Some(v.clone()), _ => None } } else { None };
    match op {
        "sk-random" => {
            let (v, b) = armed(|| SecretKey::random(&par, &mut lr));
            if let Some(k) = v {
                let s = sk_coeffs(&k);
                let n = key_needles(&par, &s, r);
                post!("SecretKey::random", b, n.clone());
                go!("dropping a SecretKey", n, || drop(k));
            }
        }
        "sk-clone" => {
            let n = w.key.clone();
            let k = w.t.sk.clone();
            go!("cloning a SecretKey", n, || drop(k.clone()));
            go!("dropping a SecretKey", n, || drop(k));
        }
        "sk-bytes" => {
            let n = w.key.clone();
            let k = w.t.sk.clone();
            let b = go!("SecretKey::to_bytes", n, || k.to_bytes());
            std::hint::black_box(&b);
        }
        "sk-restore" => {
            let n = w.key.clone();
            let mut b = w.t.sk.to_bytes();
            let bad = y % 3 == 0;
            if bad {
                let mut p: fhe::proto::bfv::SecretKey = prost::Message::decode(&b[..]).unwrap();
                if y % 2 == 0 { p.coeffs.push(1) } else { p.coeffs.pop(); }
                b = prost::Message::encode_to_vec(&p);
            }
            let k = go!("SecretKey::from_bytes", n, || SecretKey::from_bytes(&b, &par));
            match k { Some(Ok(k)) => { go!("dropping a restored SecretKey", n, || drop(k)); } Some(Err(_)) => refused += 1, None => {} }
        }
        "enc-sk" | "enc-refused" => {
            let pt = pt!();
            let mut n = w.key.and(&w.plain(&pt, slots.as_ref(), r));
            if op == "enc-refused" {
                // another tenant's parameter object, equal or not: refused
                let other = lib_ok("build_arc", || w.t.spec.build());
                let sk = sk_from_coeffs(&w.t.s, &other);
                let e = go!("refused encryption", n, || sk.try_encrypt(&pt, &mut lr).map(|_: Ciphertext| ()));
                if let Some(Err(_)) = e { refused += 1 }
                let ct = w.t.cts[l][0].clone();
                let e = go!("refused decryption", n, || sk.try_decrypt(&ct).map(|_: Plaintext| ()));
                if let Some(Err(_)) = e { refused += 1 }
                go!("dropping a SecretKey", n, || drop(sk));
                return (blocks, refused, nn);
            }
            let (v, b) = { let sk = &w.t.sk; armed(|| -> Result<Ciphertext, _> { sk.try_encrypt(&pt, &mut lr) }) };
            if let Some(Ok(c)) = v { n = n.and(&w.phases(&c, &w.t.s.clone(), r)); }
            post!("SecretKey::try_encrypt", b, n);
        }
        "enc-pk" => {
            let pt = pt!();
            let mut n = w.plain(&pt, slots.as_ref(), r);
            // ephemeral secret and errors, when drawn in the present order
            let ctx = w.ctx(l);
            let mut g = lr0.clone();
            for k in ["the ephemeral secret", "the first error", "the second error"] {
                let u = lib_ok("Poly::small", || Poly::<Ntt>::small(&ctx, w.t.spec.var, &mut g));
                n.poly(k, &u.to_power_basis(), r);
            }
            let (_, b) = { let pk = &w.t.pk; armed(|| pk.try_encrypt(&pt, &mut lr)) };
            post!("PublicKey::try_encrypt", b, n);
        }
        "decrypt" => {
            let ct = w.t.cts[l][y % 4].clone();
            let ph = w.phases(&ct, &w.t.s.clone(), r);
            let (v, b) = { let sk = &w.t.sk; armed(|| sk.try_decrypt(&ct)) };
            if let Some(Ok(pt)) = v {
                let p = w.plain(&pt, None, r);
                post!("SecretKey::try_decrypt", b, w.key.and(&ph).and(&p));
                go!("dropping a decrypted Plaintext", p, || drop(pt));
            } else { refused += 1; post!("SecretKey::try_decrypt", b, w.key.and(&ph)); }
        }
        "noise" => {
            let ct = w.t.cts[l][y % 3].clone();
            let ph = w.phases(&ct, &w.t.s.clone(), r);
            let p = match w.t.sk.try_decrypt(&ct) { Ok(pt) => w.plain(&pt, None, r), _ => Needles::default() };
            let (_, b) = { let sk = &w.t.sk; armed(|| unsafe { sk.measure_noise(&ct) }) };
            post!("measure_noise", b, w.key.and(&ph).and(&p));
        }
        "pk-new" => {
            let (v, b) = { let sk = &w.t.sk; armed(|| PublicKey::new(sk, &mut lr)) };
            let mut n = w.key.clone();
            if let Some(pk) = &v {
                let p: fhe::proto::bfv::PublicKey = prost::Message::decode(&pk.to_bytes()[..]).unwrap();
                let c = lib_ok("Ciphertext::from_bytes", || Ciphertext::from_bytes(&prost::Message::encode_to_vec(&p.c.unwrap()), &par));
                n = n.and(&w.phases(&c, &w.t.s.clone(), r));
            }
            post!("PublicKey::new", b, n);
        }
        "rlk-new" => {
            if lm == 0 { return (0, 0, 0) }
            let cl = x % (lm + 1);
            let kl = y % (cl.min(lm - 1) + 1);
            let (v, b) = { let sk = &w.t.sk; armed(|| RelinearizationKey::new_leveled(sk, cl, kl, &mut lr)) };
            let mut n = w.key.clone();
            // after a failure, the same call that does not fail tells the masks
            let v = v.or_else(|| Some(RelinearizationKey::new_leveled(&w.t.sk, cl, kl, &mut lr0.clone())));
            if let Some(Ok(k)) = v {
                let p: fhe::proto::bfv::RelinearizationKey = prost::Message::decode(&k.to_bytes()[..]).unwrap();
                mask_needles(&ksk_masks(&par, &p.ksk.unwrap()), &w.t.s.clone(), &mut n, r);
            }
            post!("RelinearizationKey::new_leveled", b, n);
        }
        "ek-build" | "builder-drop" => {
            let cl = x % (lm + 1);
            let kl = y % (cl + 1);
            let mut n = w.key.clone();
            let (row, col, exp) = (r.pct(50), r.range(1, w.t.spec.n / 2 - 1), if r.pct(30) { r.range(1, w.t.spec.n.ilog2() as usize) } else { 0 });
            let two_n = 2 * w.t.spec.n;
            let mut exps = vec![crate::model::powm(3, col as u64, two_n as u64) as usize];
            if row { exps.push(two_n - 1) }
            for k in 0..exp { exps.push((w.t.spec.n >> k) + 1) }
            for e in exps { n = n.and(&galois_needles(&par, &w.t.s.clone(), e, r)); }
            let (b1, blk) = { let sk = &w.t.sk; armed(|| EvaluationKeyBuilder::new_leveled(sk, cl, kl)) };
            post!("EvaluationKeyBuilder::new_leveled", blk, n.clone());
            let Some(Ok(mut b1)) = b1 else { return (blocks, 1, nn) };
            let _ = b1.enable_column_rotation(col);
            if row { let _ = b1.enable_row_rotation(); }
            if exp > 0 { let _ = b1.enable_expansion(exp); }
            if op == "ek-build" {
                let (v, blk) = armed(|| b1.build(&mut lr));
                let v = v.or_else(|| Some(b1.build(&mut lr0.clone())));
                match v {
                    Some(Ok(k)) => {
                        let p: fhe::proto::bfv::EvaluationKey = prost::Message::decode(&k.to_bytes()[..]).unwrap();
                        for g in &p.gk { mask_needles(&ksk_masks(&par, g.ksk.as_ref().unwrap()), &w.t.s.clone(), &mut n, r) }
                    }
                    Some(Err(_)) => refused += 1,
                    None => {}
                }
                post!("EvaluationKeyBuilder::build", blk, n.clone());
            }
            go!("dropping an EvaluationKeyBuilder", n, || drop(b1));
        }
        "rgsw-enc" => {
            let pt = w.t.pts[l].0.clone();
            let mut n = w.key.and(&w.plain(&pt, None, r));
            let ctx = w.ctx(l);
            let m = lib_ok("polynomial of a plaintext", || Poly::<PowerBasis>::try_convert_from(&pt, &ctx, false)).into_ntt();
            let s = lib_ok("polynomial", || Poly::<PowerBasis>::try_convert_from(&w.t.s[..], &ctx, false)).into_ntt();
            n.poly("a plaintext times the secret key", &(&m * &s).to_power_basis(), r);
            let (v, b) = { let sk = &w.t.sk; armed(|| -> Result<RGSWCiphertext, _> { sk.try_encrypt(&pt, &mut lr) }) };
            let v = v.or_else(|| Some(w.t.sk.try_encrypt(&pt, &mut lr0.clone())));
            if let Some(Ok(g)) = v {
                let p: fhe::proto::bfv::RgswCiphertext = prost::Message::decode(&g.to_bytes()[..]).unwrap();
                for k in [p.ksk0, p.ksk1] { mask_needles(&ksk_masks(&par, &k.unwrap()), &w.t.s.clone(), &mut n, r) }
            }
            post!("RGSW try_encrypt", b, n);
        }
        "pk-share" => {
            let crp = w.t.crp[0].clone();
            let mut n = w.key.clone();
            mask_needles(&w.crp[..1].to_vec(), &w.t.s.clone(), &mut n, r);
            let (_, b) = { let sk = &w.t.sk; armed(|| PublicKeyShare::new(sk, crp, &mut lr)) };
            post!("PublicKeyShare::new", b, n);
        }
        "dec-share" | "dec-aggregate" => {
            let ct = Arc::new(w.t.cts[l][y % 2].clone());
            let ph = w.phases(&ct, &w.t.s.clone(), r);
            let n = w.key.and(&ph);
            let (v, b) = { let sk = &w.t.sk; armed(|| DecryptionShare::new(sk, &ct, &mut lr)) };
            post!("DecryptionShare::new", b, n.clone());
            if op == "dec-aggregate" {
                let Some(Ok(sh)) = v else { return (blocks, refused, nn) };
                // Where the modulus does not exceed t, the sum of the published
                // shares and the ciphertext is itself the plaintext.
                if modulus_at(&w.t.par, l) <= w.t.spec.t { return (blocks, refused, nn) }
                let (p, b) = armed(|| Plaintext::from_shares(vec![sh]));
                if let Some(Ok(pt)) = p {
                    let p = w.plain(&pt, None, r);
                    post!("aggregating decryption shares", b, w.key.and(&p));
                    go!("dropping a decrypted Plaintext", p, || drop(pt));
                }
            }
        }
        "sks-share" => {
            let ct = Arc::new(w.t.cts[l][y % 2].clone());
            let mut n = w.key.and(&w.key2).and(&w.phases(&ct, &w.t.s.clone(), r));
            let d: Vec<i64> = w.t.s.iter().zip(sk_coeffs(&w.t.sk2)).map(|(a, b)| a - b).collect();
            let ctx = w.ctx(l);
            n.poly("the difference of two secret keys", &lib_ok("polynomial", || Poly::<PowerBasis>::try_convert_from(&d[..], &ctx, false)), r);
            let (_, b) = { let (s, o) = (&w.t.sk, &w.t.sk2); armed(|| SecretKeySwitchShare::new(s, o, ct, &mut lr)) };
            post!("SecretKeySwitchShare::new", b, n);
        }
        "pks-share" => {
            let ct = w.t.cts[l][y % 2].clone();
            let n = w.key.and(&w.phases(&ct, &w.t.s.clone(), r));
            let (_, b) = { let (s, pk) = (&w.t.sk, &w.t.pk); armed(|| PublicKeySwitchShare::new(s, pk, &ct, &mut lr)) };
            post!("PublicKeySwitchShare::new", b, n);
        }
        "rlk-share" => {
            let Some(r1) = w.t.r1.clone() else { return (0, 0, 0) };
            let mut n = w.key.clone();
            // the ephemeral key, when drawn first
            let ctx = w.ctx(0);
            let u = lib_ok("Poly::small", || Poly::<Ntt>::small(&ctx, w.t.spec.var, &mut lr0.clone()));
            n.poly("the ephemeral relinearisation secret", &u.to_power_basis(), r);
            let s = lib_ok("polynomial", || Poly::<PowerBasis>::try_convert_from(&w.t.s[..], &ctx, false)).into_ntt();
            n.poly("the difference of ephemeral and secret key", &(&u - &s).to_power_basis(), r);
            mask_needles(&w.crp.clone(), &w.t.s.clone(), &mut n, r);
            let (_, b) = {
                let (sk, crp) = (&w.t.sk, &w.t.crp);
                armed(|| -> Result<(), fhe::Error> {
                    let g = RelinKeyGenerator::new(sk, crp, &mut lr)?;
                    let a = g.round_1(&mut lr)?;
                    let b = g.round_2(&r1, &mut lr)?;
                    drop(g);
                    // shares are published: what they hold is not a secret
                    heap_capture_stop();
                    drop((a, b));
                    Ok(())
                })
            };
            post!("RelinKeyGenerator", b, n);
        }
        "encode" => {
            let v = ring.random(r, simd);
            if ring.t64.is_none_or(|t| t >= 1 << 62) {
                let Val::Poly(v) = &v else { return (0, 0, 0) };
                let (p, b) = armed(|| Plaintext::try_encode(&v[..], encoding(false, l), &par));
                if let Some(Ok(pt)) = p { let n = w.plain(&pt, None, r); post!("Plaintext::try_encode", b, n.clone()); go!("dropping a Plaintext", n, || drop(pt)); }
            } else {
                let u: Vec<u64> = match &v { Val::Simd(v) => v.clone(), Val::Poly(v) => v.iter().map(|x| x.to_u64().unwrap()).collect() };
                let i: Vec<i64> = u.iter().map(|x| *x as i64).collect();
                let bg: Vec<BigUint> = u.iter().map(|x| BigUint::from(*x)).collect();
                let e = encoding(simd, l);
                let f = r.below(5);
                let (p, b) = armed(|| match f {
                    0 => Plaintext::try_encode(&u[..], e, &par),
                    1 => Plaintext::try_encode(&i[..], e, &par),
                    2 => Plaintext::try_encode_vt(&u[..], e, &par, public()),
                    3 => Plaintext::try_encode(&bg[..], e, &par),
                    _ => Plaintext::try_encode(&u[..u.len() - 1], e, &par),
                });
                if let Some(Ok(pt)) = p { let n = w.plain(&pt, if f == 4 { None } else { Some(&u) }, r); if f != 2 { post!(["Plaintext::try_encode(&[u64])", "Plaintext::try_encode(&[i64])", "", "Plaintext::try_encode(&[BigUint])", "Plaintext::try_encode(short)"][f], b, n.clone()); } go!("dropping a Plaintext", n, || drop(pt)); }
            }
        }
        "decode" => {
            let pt = pt!();
            let n = w.plain(&pt, slots.as_ref(), r);
            let e = encoding(simd, l);
            let f = r.below(3);
            if f == 2 || ring.t64.is_none_or(|t| t >= 1 << 62) {
                let v = go!("Vec<BigUint>::try_decode", n, || Vec::<BigUint>::try_decode(&pt, e));
                std::hint::black_box(&v);
            } else if f == 0 {
                let v = go!("Vec<u64>::try_decode", n, || Vec::<u64>::try_decode(&pt, e));
                std::hint::black_box(&v);
            } else {
                let v = go!("Vec<i64>::try_decode", n, || Vec::<i64>::try_decode(&pt, e));
                std::hint::black_box(&v);
            }
        }
        "pt-drop" => {
            let pt = pt!();
            let n = w.plain(&pt, slots.as_ref(), r);
            go!("cloning a Plaintext", n, || drop(pt.clone()));
            go!("dropping a Plaintext", n, || drop(pt));
        }
        "pt-vec" => {
            if ring.t64.is_none_or(|t| t >= 1 << 62) { return (0, 0, 0) }
            let k = r.range(2, 3);
            let t = ring.t64.unwrap();
            let u: Vec<u64> = (0..k * w.t.spec.n).map(|_| r.below64(t)).collect();
            let e = encoding(simd, l);
            let (p, b) = armed(|| PlaintextVec::try_encode(&u[..], e, &par));
            if let Some(Ok(v)) = p {
                let mut n = Needles::default();
                for i in 0..v.len() { let s = u[i * w.t.spec.n..(i + 1) * w.t.spec.n].to_vec(); n = n.and(&w.plain(&v[i], Some(&s), r)); }
                post!("PlaintextVec::try_encode", b, n.clone());
                go!("dropping a PlaintextVec", n, || drop(v));
            }
        }
        _ => unreachable!("{op}"),
    }
    let _ = BigUint::zero();
    (blocks, refused, nn)
}
