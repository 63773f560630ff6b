//! Misrouted, mismatched and failing calls: refused, without a trace, and
//! without consequences for the correctly routed call that follows.
use crate::bfvx::*;
use crate::core::{Sim, fnv, lib, lib_any, lib_ok};
use crate::model::{Ring, Val, big, ntt_prime};
use crate::params::{Spec, Want, gen_spec};
use crate::rt::{LibRng, Rng, RngFailure, sim_entropy_fault};
use crate::session::custom;
use fhe::bfv::*;
use fhe::mbfv::round::*;
use fhe::mbfv::*;
use fhe_math::rq::{Ntt, Poly};
use fhe_traits::*;
use num_bigint::BigUint;
use prost::Message;
use std::collections::HashMap;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Arc;

const FNV: u64 = 0xcbf29ce484222325;

pub struct Prof {
    /// weight of mismatched calls against generator failures
    pub bad: u32,
    pub rng: u32,
}
pub const C07: Prof = Prof { bad: 85, rng: 15 };
pub const C13: Prof = Prof { bad: 35, rng: 65 };

/// All objects of one tenant.
pub struct Tn {
    pub spec: Spec,
    pub ring: Ring,
    pub par: Arc<BfvParameters>,
    pub sk: SecretKey,
    pub s: Vec<i64>,
    pub sk2: SecretKey,
    pub pk: PublicKey,
    /// per level: fresh secret-key, fresh public-key, three and four polynomials
    pub cts: Vec<[Ciphertext; 4]>,
    pub pts: Vec<(Plaintext, Option<Plaintext>)>,
    pub vals: Vec<(Val, Option<Val>)>,
    pub rlks: Vec<(usize, usize, RelinearizationKey)>,
    pub eks: Vec<(usize, EvaluationKey, EkHas)>,
    pub rgsw: Vec<RGSWCiphertext>,
    pub mults: Vec<(usize, Multiplicator)>,
    pub bld: Vec<(usize, usize, std::sync::Mutex<EvaluationKeyBuilder>)>,
    pub crp: Vec<CommonRandomPoly>,
    pub r1: Option<Arc<RelinKeyShare<R1Aggregated>>>,
    /// objects handed to in-place operations
    pub scratch: Ciphertext,
}
#[derive(Clone, Default)]
pub struct EkHas { pub cols: Vec<usize>, pub row: bool, pub sum: bool, pub exp: usize }

pub fn ek_bytes(e: &EvaluationKey) -> Vec<u8> {
    e.to_bytes()
}
fn poly_hash(p: &Poly<Ntt>) -> u64 { fnv(FNV, &p.to_bytes()) }
pub fn pt_hash(p: &Plaintext) -> u64 {
    // Plaintexts have no byte form: hash what every decoder sees.
    let e = Vec::<BigUint>::try_decode(p, None).or_else(|_| Vec::<BigUint>::try_decode(p, encoding(false, p.level())));
    fnv(FNV, format!("{:?} {}", e.map_err(|_| ()), p.level()).as_bytes())
}

impl Tn {
    pub fn new(sim: &mut Sim, spec: Spec) -> Tn { Self::make(sim, spec, None) }
    /// The public key of what `new` makes.
    pub fn public(sim: &mut Sim, spec: &Spec) -> Vec<u8> {
        let par = lib_ok("BfvParametersBuilder::build_arc", || spec.build());
        let mut lr = sim.lib_rng();
        let sk = SecretKey::random(&par, &mut lr);
        PublicKey::new(&sk, &mut lr).to_bytes()
    }
    /// With a public key for it, nothing depends on the system's entropy.
    pub fn make(sim: &mut Sim, spec: Spec, public: Option<Vec<u8>>) -> Tn {
        let mut r = sim.rng.clone();
        let par = lib_ok("BfvParametersBuilder::build_arc", || spec.build());
        let ring = spec.ring();
        let mut lr = sim.lib_rng();
        let sk = SecretKey::random(&par, &mut lr);
        let s = sk_coeffs(&sk);
        let pk = match &public { Some(b) => lib_ok("PublicKey::from_bytes", || PublicKey::from_bytes(b, &par)), None => PublicKey::new(&sk, &mut lr) };
        let sk2 = SecretKey::random(&par, &mut lr);
        let lm = par.max_level();
        let (mut cts, mut pts, mut vals, mut rgsw) = (vec![], vec![], vec![], vec![]);
        for l in 0..=lm {
            let v = ring.random(&mut r, false);
            let p = encode(&par, &ring, &PtSpec { val: v.clone(), level: l, form: 0 });
            let (vs, ps) = if ring.simd && ring.t64.is_some() { let v = ring.random(&mut r, true); let p = encode(&par, &ring, &PtSpec { val: v.clone(), level: l, form: 0 }); (Some(v), Some(p)) } else { (None, None) };
            let a: Ciphertext = if public.is_some() { lib_ok("PublicKey::try_encrypt", || pk.try_encrypt(&p, &mut lr)) } else { lib_ok("SecretKey::try_encrypt", || sk.try_encrypt(&p, &mut lr)) };
            let b = lib_ok("PublicKey::try_encrypt", || pk.try_encrypt(&p, &mut lr));
            let c = lib("mul", || &a * &b);
            let d = lib("mul", || &c * &b);
            let g: RGSWCiphertext = lib_ok("RGSW try_encrypt", || sk.try_encrypt(&p, &mut lr));
            cts.push([a, b, c, d]);
            pts.push((p, ps));
            vals.push((v, vs));
            rgsw.push(g);
        }
        let (mut rlks, mut eks, mut mults, mut bld) = (vec![], vec![], vec![], vec![]);
        if lm > 0 {
            for _ in 0..2 {
                let cl = r.below(lm + 1);
                let kl = r.below(cl.min(lm - 1) + 1);
                let k = lib_ok("RelinearizationKey::new_leveled", || RelinearizationKey::new_leveled(&sk, cl, kl, &mut lr));
                if mults.len() < 1 {
                    let mut m = lib_ok("Multiplicator::default", || Multiplicator::default(&k));
                    if cl < lm && r.pct(40) { lib_ok("enable_mod_switching", || m.enable_mod_switching()); }
                    mults.push((cl, m));
                }
                rlks.push((cl, kl, k));
            }
        }
        let ml = r.below(lm + 1);
        mults.push((ml, custom(&par, ml, 0)));
        for _ in 0..2 {
            let cl = r.below(lm + 1);
            let kl = r.below(cl + 1);
            let mut b = lib_ok("EvaluationKeyBuilder::new_leveled", || EvaluationKeyBuilder::new_leveled(&sk, cl, kl));
            let mut h = EkHas::default();
            if r.pct(50) { lib_ok("enable_row_rotation", || b.enable_row_rotation().map(|_| ())); h.row = true }
            let mut more = 60;
            while r.pct(more) { let i = r.range(1, spec.n / 2 - 1); lib_ok("enable_column_rotation", || b.enable_column_rotation(i).map(|_| ())); h.cols.push(i); more -= 15 }
            if r.pct(25) { lib_ok("enable_inner_sum", || b.enable_inner_sum().map(|_| ())); h.sum = true }
            if r.pct(40) { let e = r.range(1, spec.n.ilog2() as usize); lib_ok("enable_expansion", || b.enable_expansion(e).map(|_| ())); h.exp = e }
            let e = lib_ok("EvaluationKeyBuilder::build", || b.build(&mut lr));
            eks.push((cl, e, h));
            bld.push((cl, kl, std::sync::Mutex::new(b)));
        }
        let crp = lib_ok("CommonRandomPoly::new_vec", || CommonRandomPoly::new_vec(&par, &mut lr));
        let r1 = if lm > 0 {
            let g = lib_ok("RelinKeyGenerator::new", || RelinKeyGenerator::new(&sk, &crp, &mut lr));
            let h = lib_ok("RelinKeyGenerator::new", || RelinKeyGenerator::new(&sk2, &crp, &mut lr));
            let x = lib_ok("round_1", || g.round_1(&mut lr));
            let y = lib_ok("round_1", || h.round_1(&mut lr));
            Some(Arc::new(lib_ok("aggregate", || RelinKeyShare::<R1Aggregated>::from_shares(vec![x, y]))))
        } else { None };
        let scratch = cts[0][0].clone();
        sim.rng = r;
        sim.log(&format!("params n={} t={} var={} q={:?}", spec.n, spec.t, spec.var, spec.moduli));
        Tn { spec, ring, par, sk, s, sk2, pk, cts, pts, vals, rlks, eks, rgsw, mults, bld, crp, r1, scratch }
    }
    pub fn lm(&self) -> usize { self.par.max_level() }
    /// Digest of every object.
    pub fn digest(&self) -> Vec<(String, u64)> {
        let mut d: Vec<(String, u64)> = vec![];
        let mut put = |n: String, b: &[u8]| d.push((n, fnv(FNV, b)));
        put("parameters".into(), &self.par.to_bytes());
        put("secret key".into(), &self.sk.to_bytes());
        put("secret key 2".into(), &self.sk2.to_bytes());
        put("public key".into(), &self.pk.to_bytes());
        put("in-place argument".into(), &self.scratch.to_bytes());
        for (l, c) in self.cts.iter().enumerate() { for (k, c) in c.iter().enumerate() { put(format!("ciphertext {k} at level {l}"), &c.to_bytes()); } }
        for (l, p) in self.pts.iter().enumerate() {
            put(format!("plaintext at level {l}"), &pt_hash(&p.0).to_le_bytes());
            if let Some(p) = &p.1 { put(format!("simd plaintext at level {l}"), &pt_hash(p).to_le_bytes()); }
        }
        for (i, k) in self.rlks.iter().enumerate() { put(format!("relinearization key {i}"), &k.2.to_bytes()); }
        for (i, k) in self.eks.iter().enumerate() { put(format!("evaluation key {i}"), &ek_bytes(&k.1)); }
        for (l, k) in self.rgsw.iter().enumerate() { put(format!("rgsw at level {l}"), &k.to_bytes()); }
        d
    }
}

struct World {
    a: Tn,
    b: Tn,
    /// b differs from a as a parameter set (false: an equal copy)
    other: bool,
    empty: Ciphertext,
    expect: HashMap<String, u64>,
}

fn unchanged(w: &World, before: &(Vec<(String, u64)>, Vec<(String, u64)>), copies: &Copies, what: &str) {
    for (t, (x, y)) in [(&before.0, w.a.digest()), (&before.1, w.b.digest())].into_iter().enumerate() {
        for (p, q) in x.iter().zip(y.iter()) {
            ensure!(p == q, "trace-left", "after the refused or failed {what}, {} of tenant {t} has changed", p.0);
        }
    }
    for (t, (c, n)) in [(&copies.0, &w.a), (&copies.1, &w.b)].into_iter().enumerate() {
        ensure!(c.mults == n.mults.iter().map(|m| m.1.clone()).collect::<Vec<_>>(), "trace-left", "after the refused or failed {what}, a multiplicator of tenant {t} has changed");
        ensure!(c.crp == n.crp, "trace-left", "after the refused or failed {what}, a common random polynomial of tenant {t} has changed");
        ensure!(c.r1.as_deref() == n.r1.as_deref(), "trace-left", "after the refused or failed {what}, a round-one aggregate of tenant {t} has changed");
        ensure!(c.scratch == n.scratch, "trace-left", "after the refused or failed {what}, the in-place argument of tenant {t} has changed");
    }
}
struct Copy1 { mults: Vec<Multiplicator>, crp: Vec<CommonRandomPoly>, r1: Option<Arc<RelinKeyShare<R1Aggregated>>>, scratch: Ciphertext }
type Copies = (Copy1, Copy1);
fn copy(t: &Tn) -> Copy1 {
    Copy1 { mults: t.mults.iter().map(|m| m.1.clone()).collect(), crp: t.crp.clone(), r1: t.r1.as_ref().map(|r| Arc::new((**r).clone())), scratch: t.scratch.clone() }
}

// ------------------------------------------------------------- correct calls

/// Names of the correctly routed calls. Each is a function of the objects of
/// the tenant, two small numbers and, for the randomised ones, the generator.
pub const GOOD: &[&str] = &[
    "enc-sk", "enc-pk", "decrypt", "relin", "multiply", "dot", "switch", "add", "sub", "mul", "add-pt", "mul-pt", "rgsw-mul", "ek", "rotate", "encode",
    "sk-new", "pk-new", "rlk-new", "ek-build", "rgsw-enc", "crp", "pk-share", "dec-share", "sks-share", "pks-share", "rlk-r1", "rlk-r2", "noise", "bytes", "params", "mult-new",
];
pub const RANDOMISED: &[&str] = &["enc-sk", "enc-pk", "sk-new", "pk-new", "rlk-new", "ek-build", "rgsw-enc", "crp", "pk-share", "dec-share", "sks-share", "pks-share", "rlk-r1", "rlk-r2"];

fn h(b: &[u8]) -> u64 { fnv(FNV, b) }
pub fn hc(c: &Ciphertext) -> u64 { h(&c.to_bytes()) }

/// Digest of what a correctly routed call gives, or None when not applicable.
pub fn good(t: &Tn, op: &str, x: usize, y: usize, rng: &mut LibRng) -> Option<u64> {
    let lm = t.lm();
    let l = x % (lm + 1);
    let par = t.par.clone();
    Some(match op {
        "enc-sk" => {
            // The mask is drawn from the system: judge the error and the plaintext.
            let p = if y % 2 == 1 && t.pts[l].1.is_some() { t.pts[l].1.as_ref().unwrap() } else { &t.pts[l].0 };
            let c: Ciphertext = lib_ok("SecretKey::try_encrypt", || t.sk.try_encrypt(p, rng));
            let m = coeffs(t, l, y % 2 == 1 && t.pts[l].1.is_some());
            let e = noise_poly(&par, &t.s, &c, &m);
            h(format!("{l} {} {e:?}", c.len()).as_bytes())
        }
        "enc-pk" => { let p = &t.pts[l].0; hc(&lib_ok("PublicKey::try_encrypt", || t.pk.try_encrypt(p, rng))) }
        "decrypt" => { let c = &t.cts[l][y % 4]; pt_hash(&lib_ok("SecretKey::try_decrypt", || t.sk.try_decrypt(c))) }
        "noise" => { let c = &t.cts[l][y % 4]; lib_ok("measure_noise", || unsafe { t.sk.measure_noise(c) }) as u64 }
        "relin" => {
            let (cl, _, k) = t.rlks.get(x % t.rlks.len().max(1))?;
            let mut scratch = t.cts[*cl][2].clone();
            lib_ok("relinearizes", || k.relinearizes(&mut scratch));
            hc(&scratch)
        }
        "multiply" => {
            let (l, m) = &t.mults[x % t.mults.len()];
            hc(&lib_ok("Multiplicator::multiply", || m.multiply(&t.cts[*l][0], &t.cts[*l][y % 2])))
        }
        "dot" => {
            let n = 1 + y % 6;
            let cs: Vec<&Ciphertext> = (0..n).map(|i| &t.cts[l][(i + y) % 2]).collect();
            let ps: Vec<&Plaintext> = (0..n).map(|_| &t.pts[l].0).collect();
            hc(&lib_ok("dot_product_scalar", || dot_product_scalar(cs.iter().copied(), ps.iter().copied())))
        }
        "switch" => {
            let mut scratch = t.cts[l][y % 4].clone();
            let to = l + y % (lm - l + 1);
            lib_ok("switch_to_level", || scratch.switch_to_level(to));
            hc(&scratch)
        }
        "add" => { let mut scratch = t.cts[l][0].clone(); lib("add", || scratch += &t.cts[l][1]); hc(&scratch) }
        "sub" => { let mut scratch = t.cts[l][1].clone(); lib("sub", || scratch -= &t.cts[l][0]); hc(&scratch) }
        "mul" => hc(&lib("mul", || &t.cts[l][y % 3] * &t.cts[l][y % 2])),
        "add-pt" => { let mut scratch = t.cts[l][y % 3].clone(); lib("add-pt", || scratch += &t.pts[l].0); hc(&scratch) }
        "mul-pt" => { let mut scratch = t.cts[l][y % 3].clone(); lib("mul-pt", || scratch *= &t.pts[l].0); hc(&scratch) }
        "rgsw-mul" => hc(&lib("rgsw-mul", || &t.cts[l][y % 2] * &t.rgsw[l])),
        "ek" => {
            let (cl, e, has) = &t.eks[x % t.eks.len()];
            let c = &t.cts[*cl][y % 2];
            let mut v = vec![];
            if has.row { v.push(hc(&lib_ok("rotates_rows", || e.rotates_rows(c)))); }
            for i in &has.cols { v.push(hc(&lib_ok("rotates_columns_by", || e.rotates_columns_by(c, *i)))); }
            if has.sum { v.push(hc(&lib_ok("computes_inner_sum", || e.computes_inner_sum(c)))); }
            if has.exp > 0 { for c in lib_ok("expands", || e.expands(c, (1 << has.exp) - 1)) { v.push(hc(&c)); } }
            h(format!("{v:?}").as_bytes())
        }
        "rotate" => {
            let (cl, e, _) = &t.eks[x % t.eks.len()];
            let n = t.spec.n;
            let steps: Vec<usize> = (1..n / 2).filter(|i| e.supports_column_rotation_by(*i)).collect();
            let mut v = vec![];
            for k in 0..steps.len().min(2) {
                let i = steps[(y + k) % steps.len()];
                v.push(hc(&lib_ok("rotates_columns_by", || e.rotates_columns_by(&t.cts[*cl][y % 2], i))));
            }
            h(format!("{v:?}").as_bytes())
        }
        "encode" => {
            let simd = y % 2 == 1 && t.vals[l].1.is_some();
            let v = if simd { t.vals[l].1.clone().unwrap() } else { t.vals[l].0.clone() };
            let p = encode(&par, &t.ring, &PtSpec { val: v.clone(), level: l, form: y as u8 });
            let back = decode(&p, &t.ring, simd, l, y as u8);
            // below the plaintext modulus a level cannot carry values
            let fits = modulus_at(&par, l) > t.spec.t;
            ensure!(!fits || back == v, "encode", "a plaintext encoded at level {l} does not decode to its value");
            pt_hash(&p)
        }
        "params" => {
            let p = lib_ok("BfvParametersBuilder::build_arc", || t.spec.build());
            ensure!(*p == *par, "params", "parameters built again differ from the first ones");
            let q = lib_ok("BfvParameters::try_deserialize", || BfvParameters::try_deserialize(&par.to_bytes()));
            ensure!(q == *par, "params", "parameters restored from bytes differ from the stored ones");
            let v = t.vals[l].0.clone();
            let e = encode(&p, &t.ring, &PtSpec { val: v, level: l, form: y as u8 });
            h(format!("{} {}", pt_hash(&e), h(&p.to_bytes())).as_bytes())
        }
        "mult-new" => {
            let (cl, _, k) = t.rlks.get(x % t.rlks.len().max(1))?;
            let m = lib_ok("Multiplicator::default", || Multiplicator::default(k));
            hc(&lib_ok("Multiplicator::multiply", || m.multiply(&t.cts[*cl][0], &t.cts[*cl][1])))
        }
        "bytes" => {
            let c = &t.cts[l][y % 4];
            let b = c.to_bytes();
            let d = lib_ok("Ciphertext::from_bytes", || Ciphertext::from_bytes(&b, &par));
            ensure!(d == *c, "bytes", "a ciphertext differs from the one restored from its bytes");
            h(&b)
        }
        "sk-new" => h(&lib("SecretKey::random", || SecretKey::random(&par, rng)).to_bytes()),
        "pk-new" => {
            let k = lib("PublicKey::new", || PublicKey::new(&t.sk, rng));
            let p: fhe::proto::bfv::PublicKey = Message::decode(&k.to_bytes()[..]).unwrap();
            let c = lib_ok("Ciphertext::from_bytes", || Ciphertext::from_bytes(&p.c.unwrap().encode_to_vec(), &par));
            let e = noise_poly(&par, &t.s, &c, &vec![big(0); t.ring.n]);
            h(format!("{e:?}").as_bytes())
        }
        "rlk-new" => {
            let (cl, kl, _) = *t.rlks.get(x % t.rlks.len().max(1)).as_ref()?;
            h(&lib_ok("RelinearizationKey::new_leveled", || RelinearizationKey::new_leveled(&t.sk, *cl, *kl, rng)).to_bytes())
        }
        "ek-build" => {
            // with a builder of its own or with one that was used, failed and
            // was refused things before
            let i = x % t.bld.len();
            let cl = t.bld[i].0;
            let kl = t.bld[i].1;
            let has = &t.eks[i].2;
            let kept = if y % 3 > 0 { match t.bld[i].2.try_lock() { Ok(b) => Some(b), Err(std::sync::TryLockError::Poisoned(e)) => Some(e.into_inner()), _ => None } } else { None };
            let e = if let Some(mut b) = kept { lib_ok("EvaluationKeyBuilder::build", || b.build(rng)) } else {
            let mut b = lib_ok("EvaluationKeyBuilder::new_leveled", || EvaluationKeyBuilder::new_leveled(&t.sk, cl, kl));
            if has.row { lib_ok("enable_row_rotation", || b.enable_row_rotation().map(|_| ())) }
            for &c in &has.cols { lib_ok("enable_column_rotation", || b.enable_column_rotation(c).map(|_| ())) }
            if has.sum { lib_ok("enable_inner_sum", || b.enable_inner_sum().map(|_| ())) }
            if has.exp > 0 { lib_ok("enable_expansion", || b.enable_expansion(has.exp).map(|_| ())) }
            lib_ok("EvaluationKeyBuilder::build", || b.build(rng)) };
            let n = t.spec.n;
            let mut v = vec![format!("{} {} {:016x}", e.supports_row_rotation(), e.supports_inner_sum(), h(&e.to_bytes()))];
            for k in 0..=n / 2 { v.push(e.supports_column_rotation_by(k).to_string()); }
            for k in 0..=n.ilog2() as usize { v.push(e.supports_expansion(k).to_string()); }
            let b = t.spec.bounds();
            if b.fresh_pk(cl) + b.ks(cl, t.bld[i].1) < b.cap(cl) {
                if e.supports_row_rotation() {
                    let c = lib_ok("rotates_rows", || e.rotates_rows(&t.cts[cl][0]));
                    v.push(pt_hash(&lib_ok("try_decrypt", || t.sk.try_decrypt(&c))).to_string());
                }
                for k in 1..n / 2 { if e.supports_column_rotation_by(k) {
                    let c = lib_ok("rotates_columns_by", || e.rotates_columns_by(&t.cts[cl][0], k));
                    v.push(pt_hash(&lib_ok("try_decrypt", || t.sk.try_decrypt(&c))).to_string());
                } }
            }
            h(v.join(",").as_bytes())
        }
        "rgsw-enc" => { let g: RGSWCiphertext = lib_ok("RGSW try_encrypt", || t.sk.try_encrypt(&t.pts[l].0, rng)); h(&g.to_bytes()) }
        "crp" => {
            let v = if y % 2 == 0 { lib_ok("CommonRandomPoly::new_vec", || CommonRandomPoly::new_vec(&par, rng)) } else { vec![lib_ok("CommonRandomPoly::new_leveled", || CommonRandomPoly::new_leveled(&par, l, rng))] };
            h(format!("{v:?}").as_bytes())
        }
        "pk-share" => { let s = lib_ok("PublicKeyShare::new", || PublicKeyShare::new(&t.sk, t.crp[0].clone(), rng)); h(&lib_ok("aggregate", || PublicKey::from_shares(vec![s])).to_bytes()) }
        "dec-share" => {
            let c = Arc::new(t.cts[l][y % 2].clone());
            let s = lib_ok("DecryptionShare::new", || DecryptionShare::new(&t.sk, &c, rng));
            pt_hash(&lib_ok("aggregate", || Plaintext::from_shares(vec![s])))
        }
        "sks-share" => {
            let c = Arc::new(t.cts[l][y % 2].clone());
            let s = lib_ok("SecretKeySwitchShare::new", || SecretKeySwitchShare::new(&t.sk, &t.sk2, c.clone(), rng));
            hc(&lib_ok("aggregate", || Ciphertext::from_shares(vec![s])))
        }
        "pks-share" => {
            let s = lib_ok("PublicKeySwitchShare::new", || PublicKeySwitchShare::new(&t.sk, &t.pk, &t.cts[l][y % 2], rng));
            hc(&lib_ok("aggregate", || Ciphertext::from_shares(vec![s])))
        }
        "rlk-r1" => {
            if lm == 0 { return None; }
            let g = lib_ok("RelinKeyGenerator::new", || RelinKeyGenerator::new(&t.sk, &t.crp, rng));
            let s = lib_ok("round_1", || g.round_1(rng));
            h(format!("{s:?}").as_bytes())
        }
        "rlk-r2" => {
            let r1 = t.r1.clone()?;
            let g = lib_ok("RelinKeyGenerator::new", || RelinKeyGenerator::new(&t.sk, &t.crp, rng));
            let s = lib_ok("round_2", || g.round_2(&r1, rng));
            h(&lib_ok("aggregate", || RelinearizationKey::from_shares(vec![s])).to_bytes())
        }
        _ => panic!("unknown op {op}"),
    })
}
fn coeffs(t: &Tn, l: usize, simd: bool) -> Vec<BigUint> {
    if simd {
        let p = t.pts[l].1.as_ref().unwrap();
        // slots to coefficients through a poly decode of the same polynomial
        let c: Ciphertext = lib_ok("try_encrypt", || t.sk.try_encrypt(p, &mut LibRng::new(1)));
        let d = lib_ok("try_decrypt", || t.sk.try_decrypt(&c));
        lib_ok("try_decode", || Vec::<BigUint>::try_decode(&d, encoding(false, l)))
    } else {
        let Val::Poly(v) = &t.vals[l].0 else { panic!() };
        v.clone()
    }
}

// ----------------------------------------------------------- mismatched calls

enum Refusal { Err(&'static str), Panic(&'static str) }

/// A fallible call on mismatched arguments: an error, not a result or a panic.
fn must_err<T, E: std::fmt::Debug>(must: bool, what: &'static str, f: impl FnOnce() -> Result<T, E>) -> Option<Refusal> {
    match lib_any(f) {
        Ok(Err(_)) => {}
        Ok(Ok(_)) => ensure!(!must, format!("accepted@{what}"), "{what}: a result was returned where the arguments do not match"),
        Err((l, m)) => violate!(format!("panic@{what}"), "{what}: mismatched arguments make a fallible call panic at {l}: {m}"),
    }
    Some(Refusal::Err(what))
}
/// An operator without an error channel: a panic, not a value.
fn must_refuse<T>(must: bool, what: &'static str, f: impl FnOnce() -> T) -> Option<Refusal> {
    if lib_any(f).is_ok() { ensure!(!must, format!("accepted@{what}"), "{what}: a value was returned where the arguments do not match") }
    Some(Refusal::Panic(what))
}

const BAD: usize = 86;

/// Perform mismatched call number `k`. None: not applicable to this world.
fn bad(w: &mut World, k: usize, r: &mut Rng, lr: &mut LibRng) -> Option<Refusal> {
    let (lm, lmb) = (w.a.lm(), w.b.lm());
    let l = r.below(lm + 1);
    let lb = r.below(lmb + 1);
    // another level of the same tenant
    let l2 = if lm == 0 { usize::MAX } else { (l + 1 + r.below(lm)) % (lm + 1) };
    let lv = lm > 0;
    let o = w.other;
    let n = w.a.spec.n;
    let kc = r.below(4);
    let k2 = r.below(2);
    let World { a, b, empty, .. } = w;
    let sec = a.spec.var as i64;
    let _ = sec;
    match k {
        // ---- another tenant's objects
        0 => must_err(o, "SecretKey::try_encrypt(foreign plaintext)", || -> fhe::Result<Ciphertext> { a.sk.try_encrypt(&b.pts[lb].0, lr) }),
        1 => must_err(o, "PublicKey::try_encrypt(foreign plaintext)", || a.pk.try_encrypt(&b.pts[lb].0, lr)),
        2 => must_err(o, "RGSW try_encrypt(foreign plaintext)", || -> fhe::Result<RGSWCiphertext> { a.sk.try_encrypt(&b.pts[lb].0, lr) }),
        3 => must_err(o, "SecretKey::try_decrypt(foreign ciphertext)", || a.sk.try_decrypt(&b.cts[lb][kc])),
        4 => must_err(o, "measure_noise(foreign ciphertext)", || unsafe { a.sk.measure_noise(&b.cts[lb][kc]) }),
        5 => { let (_, _, key) = a.rlks.first()?; b.scratch = b.cts[lb][2].clone(); let s = b.scratch.clone(); let x = must_err(o, "relinearizes(foreign ciphertext)", || key.relinearizes(&mut b.scratch)); if o { ensure!(b.scratch == s, "trace-left", "relinearizes changed the ciphertext it refused") } x }
        6 => { let (l, m) = &a.mults[r.below(a.mults.len())]; must_err(o, "Multiplicator::multiply(foreign rhs)", || m.multiply(&a.cts[*l][0], &b.cts[lb][0])) }
        7 => { let (l, m) = &a.mults[r.below(a.mults.len())]; must_err(o, "Multiplicator::multiply(foreign lhs)", || m.multiply(&b.cts[lb][0], &a.cts[*l][0])) }
        8 => { let (_, m) = &a.mults[r.below(a.mults.len())]; must_err(o, "Multiplicator::multiply(both foreign)", || m.multiply(&b.cts[lb][0], &b.cts[lb][1])) }
        9 => { let (_, _, key) = b.rlks.first()?; let (_, m) = a.mults.last_mut()?; let c = m.clone(); let x = must_err(o, "Multiplicator::enable_relinearization(foreign key)", || m.enable_relinearization(key)); if o { ensure!(*m == c, "trace-left", "enable_relinearization changed the multiplicator although it refused the key") } else { *m = c } x }
        10 => { let (_, e, hs) = &a.eks[r.below(a.eks.len())]; if !hs.row { return None; } must_err(o, "rotates_rows(foreign ciphertext)", || e.rotates_rows(&b.cts[lb][k2])) }
        11 => { let (_, e, hs) = &a.eks[r.below(a.eks.len())]; let i = *hs.cols.first()?; must_err(o, "rotates_columns_by(foreign ciphertext)", || e.rotates_columns_by(&b.cts[lb][k2], i)) }
        12 => { let (_, e, hs) = &a.eks[r.below(a.eks.len())]; if !hs.sum { return None; } must_err(o, "computes_inner_sum(foreign ciphertext)", || e.computes_inner_sum(&b.cts[lb][k2])) }
        13 => { let (_, e, hs) = &a.eks[r.below(a.eks.len())]; if hs.exp == 0 { return None; } let s = r.range(1, 1 << hs.exp); must_err(o, "expands(foreign ciphertext)", || e.expands(&b.cts[lb][k2], s)) }
        14 => { let p = r.below(3); must_err(o, "dot_product_scalar(one foreign ciphertext)", || { let mut cs = vec![&a.cts[l][0]; 3]; cs[p] = &b.cts[lb][0]; let ps = vec![&a.pts[l].0; 3]; dot_product_scalar(cs.into_iter(), ps.into_iter()) }) }
        15 => { let p = r.below(3); must_err(o, "dot_product_scalar(one foreign plaintext)", || { let cs = vec![&a.cts[l][0]; 3]; let mut ps = vec![&a.pts[l].0; 3]; ps[p] = &b.pts[lb].0; dot_product_scalar(cs.into_iter(), ps.into_iter()) }) }
        16 => must_refuse(o, "ct + foreign ct", || &a.cts[l][0] + &b.cts[lb][0]),
        17 => must_refuse(o, "ct - foreign ct", || &a.cts[l][0] - &b.cts[lb][0]),
        18 => must_refuse(o, "ct * foreign ct", || &a.cts[l][0] * &b.cts[lb][0]),
        19 => { a.scratch = a.cts[l][kc].clone(); let s = a.scratch.clone(); let x = must_refuse(o, "ct += foreign ct", || a.scratch += &b.cts[lb][kc]); if o { ensure!(a.scratch == s, "trace-left", "+= changed the ciphertext although it refused") } x }
        20 => { a.scratch = a.cts[l][kc].clone(); let s = a.scratch.clone(); let x = must_refuse(o, "ct -= foreign ct", || a.scratch -= &b.cts[lb][kc]); if o { ensure!(a.scratch == s, "trace-left", "-= changed the ciphertext although it refused") } x }
        21 => { a.scratch = a.cts[l][kc].clone(); let s = a.scratch.clone(); let x = must_refuse(o, "ct += foreign plaintext", || a.scratch += &b.pts[lb].0); if o { ensure!(a.scratch == s, "trace-left", "+= changed the ciphertext although it refused") } x }
        22 => { a.scratch = a.cts[l][kc].clone(); let s = a.scratch.clone(); let x = must_refuse(o, "ct -= foreign plaintext", || a.scratch -= &b.pts[lb].0); if o { ensure!(a.scratch == s, "trace-left", "-= changed the ciphertext although it refused") } x }
        23 => { a.scratch = a.cts[l][kc].clone(); let s = a.scratch.clone(); let x = must_refuse(o, "ct *= foreign plaintext", || a.scratch *= &b.pts[lb].0); if o { ensure!(a.scratch == s, "trace-left", "*= changed the ciphertext although it refused") } x }
        24 => must_refuse(o, "foreign plaintext - ct", || &b.pts[lb].0 - &a.cts[l][0]),
        25 => must_refuse(o, "ct * foreign rgsw", || &a.cts[l][k2] * &b.rgsw[lb]),
        26 => must_refuse(o, "rgsw * foreign ct", || &a.rgsw[l] * &b.cts[lb][k2]),
        27 => must_err(o, "DecryptionShare::new(foreign ciphertext)", || { let c = Arc::new(b.cts[lb][k2].clone()); DecryptionShare::new(&a.sk, &c, lr) }),
        28 => must_err(o, "SecretKeySwitchShare::new(foreign output key)", || SecretKeySwitchShare::new(&a.sk, &b.sk, Arc::new(a.cts[l][k2].clone()), lr)),
        29 => must_err(o, "SecretKeySwitchShare::new(foreign ciphertext)", || SecretKeySwitchShare::new(&a.sk, &a.sk2, Arc::new(b.cts[lb][k2].clone()), lr)),
        30 => must_err(o, "PublicKeySwitchShare::new(foreign public key)", || PublicKeySwitchShare::new(&a.sk, &b.pk, &a.cts[l][k2], lr)),
        31 => must_err(o, "PublicKeySwitchShare::new(foreign ciphertext)", || PublicKeySwitchShare::new(&a.sk, &a.pk, &b.cts[lb][k2], lr)),
        32 => { // common polynomials carry only their ring: a mismatch is visible only there
            let vis = a.spec.n != b.spec.n || a.spec.moduli != b.spec.moduli;
            must_err(vis, "PublicKeyShare::new(foreign common polynomial)", || PublicKeyShare::new(&a.sk, b.crp[0].clone(), lr)) }
        33 => { let vis = a.spec.n != b.spec.n || a.spec.moduli != b.spec.moduli; if lm == 0 { return None; }
            must_err(vis, "RelinKeyGenerator(foreign common polynomials)", || { let g = RelinKeyGenerator::new(&a.sk, &b.crp, lr)?; g.round_1(lr) }) }
        34 => { let r1 = b.r1.clone()?; if lm == 0 { return None; } must_err(o, "round_2(foreign round-one aggregate)", || { let g = RelinKeyGenerator::new(&a.sk, &a.crp, lr)?; g.round_2(&r1, lr) }) }
        35 => must_err(o, "PublicKey::from_shares(shares of two parameter sets)", || { let x = PublicKeyShare::new(&a.sk, a.crp[0].clone(), lr)?; let y = PublicKeyShare::new(&b.sk, b.crp[0].clone(), lr)?; PublicKey::from_shares(vec![x, y]) }),
        36 => must_err(o, "Plaintext::from_shares(shares of two parameter sets)", || { let (c, d) = (Arc::new(a.cts[l][0].clone()), Arc::new(b.cts[lb][0].clone())); let x = DecryptionShare::new(&a.sk, &c, lr)?; let y = DecryptionShare::new(&b.sk, &d, lr)?; Plaintext::from_shares(vec![x, y]) }),
        37 => must_err(o, "Ciphertext::from_shares(switch shares of two parameter sets)", || { let x = PublicKeySwitchShare::new(&a.sk, &a.pk, &a.cts[l][0], lr)?; let y = PublicKeySwitchShare::new(&b.sk, &b.pk, &b.cts[lb][0], lr)?; Ciphertext::from_shares(vec![x, y]) }),
        38 => { if lm == 0 || lmb == 0 { return None; } must_err(o, "round-one aggregation of two parameter sets", || { let g = RelinKeyGenerator::new(&a.sk, &a.crp, lr)?; let h = RelinKeyGenerator::new(&b.sk, &b.crp, lr)?; let x = g.round_1(lr)?; let y = h.round_1(lr)?; RelinKeyShare::<R1Aggregated>::from_shares(vec![x, y]) }) }
        39 => { let (r1, r1b) = (a.r1.clone()?, b.r1.clone()?); must_err(o, "round-two aggregation of two parameter sets", || { let g = RelinKeyGenerator::new(&a.sk, &a.crp, lr)?; let h = RelinKeyGenerator::new(&b.sk, &b.crp, lr)?; let x = g.round_2(&r1, lr)?; let y = h.round_2(&r1b, lr)?; RelinearizationKey::from_shares(vec![x, y]) }) }
        // ---- level mismatches
        40 => { if !lv { return None; } must_refuse(true, "ct + ct at another level", || &a.cts[l][0] + &a.cts[l2][0]) }
        41 => { if !lv { return None; } must_refuse(true, "ct - ct at another level", || &a.cts[l][k2] - &a.cts[l2][0]) }
        42 => { if !lv { return None; } must_refuse(true, "ct * ct at another level", || &a.cts[l][kc] * &a.cts[l2][0]) }
        43 => { if !lv { return None; } a.scratch = a.cts[l][kc].clone(); let s = a.scratch.clone(); let x = must_refuse(true, "ct += plaintext at another level", || a.scratch += &a.pts[l2].0); ensure!(a.scratch == s, "trace-left", "+= changed the ciphertext although it refused"); x }
        44 => { if !lv { return None; } a.scratch = a.cts[l][kc].clone(); let s = a.scratch.clone(); let x = must_refuse(true, "ct *= plaintext at another level", || a.scratch *= &a.pts[l2].0); ensure!(a.scratch == s, "trace-left", "*= changed the ciphertext although it refused"); x }
        45 => { if !lv { return None; } must_refuse(true, "plaintext at another level - ct", || &a.pts[l2].0 - &a.cts[l][0]) }
        46 => { if !lv { return None; } must_refuse(true, "ct * rgsw at another level", || &a.cts[l][k2] * &a.rgsw[l2]) }
        47 => { let i = r.below(a.rlks.len().max(1)); let (cl, _, key) = a.rlks.get(i)?; if l == *cl { return None; } a.scratch = a.cts[l][2].clone(); let s = a.scratch.clone(); let x = must_err(true, "relinearizes(at another level)", || key.relinearizes(&mut a.scratch)); ensure!(a.scratch == s, "trace-left", "relinearizes changed the ciphertext it refused"); x }
        48 => { let (ml, m) = &a.mults[r.below(a.mults.len())]; if l == *ml { return None; } let sw = r.pct(50); must_err(true, "multiply(at another level)", || if sw { m.multiply(&a.cts[l][0], &a.cts[*ml][0]) } else { m.multiply(&a.cts[*ml][0], &a.cts[l][0]) }) }
        49 => { let (cl, e, hs) = &a.eks[r.below(a.eks.len())]; if l == *cl { return None; } let i = hs.cols.first().copied(); let c = &a.cts[l][k2];
            if let (Some(i), true) = (i, r.pct(40)) { return must_err(true, "rotates_columns_by(at another level)", || e.rotates_columns_by(c, i)); }
            if hs.row && r.pct(40) { return must_err(true, "rotates_rows(at another level)", || e.rotates_rows(c)); }
            if hs.sum { return must_err(true, "computes_inner_sum(at another level)", || e.computes_inner_sum(c)); }
            if hs.exp > 0 { let s = r.range(1, 1 << hs.exp); return must_err(true, "expands(at another level)", || e.expands(c, s)); }
            None }
        50 => { if !lv { return None; } let p = r.below(3); must_err(true, "dot_product_scalar(one ciphertext at another level)", || { let mut cs = vec![&a.cts[l][0]; 3]; cs[p] = &a.cts[l2][0]; let ps = vec![&a.pts[l].0; 3]; dot_product_scalar(cs.into_iter(), ps.into_iter()) }) }
        51 => { if !lv { return None; } let p = r.below(3); must_err(true, "dot_product_scalar(one plaintext at another level)", || { let cs = vec![&a.cts[l][0]; 3]; let mut ps = vec![&a.pts[l].0; 3]; ps[p] = &a.pts[l2].0; dot_product_scalar(cs.into_iter(), ps.into_iter()) }) }
        52 => { if l == 0 { return None; } a.scratch = a.cts[l][kc].clone(); let s = a.scratch.clone(); let to = r.below(l); let x = must_err(true, "switch_to_level(upwards)", || a.scratch.switch_to_level(to)); ensure!(a.scratch == s, "trace-left", "switch_to_level changed the ciphertext it refused"); x }
        53 => { a.scratch = a.cts[l][kc].clone(); let s = a.scratch.clone(); let to = *r.pick(&[lm + 1, lm + 2, usize::MAX, 1 << 32]); let x = must_err(true, "switch_to_level(beyond the last level)", || a.scratch.switch_to_level(to)); ensure!(a.scratch == s, "trace-left", "switch_to_level changed the ciphertext it refused"); x }
        54 => { a.scratch = a.cts[lm][kc].clone(); let s = a.scratch.clone(); let x = must_err(true, "switch_down(at the last level)", || a.scratch.switch_down()); ensure!(a.scratch == s, "trace-left", "switch_down changed the ciphertext it refused"); x }
        55 => { let (_, m) = a.mults.iter_mut().find(|m| m.0 == lm)?; let c = m.clone(); let x = must_err(true, "enable_mod_switching(at the last level)", || m.enable_mod_switching()); ensure!(*m == c, "trace-left", "enable_mod_switching changed the multiplicator although it refused"); x }
        56 => { let (ml, m) = a.mults.last_mut()?; let (_, _, key) = a.rlks.iter().find(|k| k.0 != *ml)?; let c = m.clone(); let x = must_err(true, "enable_relinearization(key at another level)", || m.enable_relinearization(key)); ensure!(*m == c, "trace-left", "enable_relinearization changed the multiplicator although it refused the key"); x }
        57 => { let bl = *r.pick(&[lm + 1, lm + 7, usize::MAX]); let x = r.below(6); let par = &a.par; match x {
            0 => must_err(true, "context_at_level(out of range)", || par.context_at_level(bl).cloned()),
            1 => must_err(true, "Plaintext::try_encode(level out of range)", || Plaintext::try_encode(&[1u64, 2][..], Encoding::poly_at_level(bl), par)),
            2 => must_err(true, "Plaintext::zero(level out of range)", || Plaintext::zero(Encoding::poly_at_level(bl), par)),
            3 => must_err(true, "CommonRandomPoly::new_leveled(level out of range)", || CommonRandomPoly::new_leveled(par, bl, lr)),
            4 => must_err(true, "EvaluationKeyBuilder::new_leveled(level out of range)", || EvaluationKeyBuilder::new_leveled(&a.sk, bl, 0)),
            _ => must_err(true, "RelinearizationKey::new_leveled(level out of range)", || RelinearizationKey::new_leveled(&a.sk, bl, 0, lr)),
        } }
        58 => { if l == lm { return None; } let kl = r.range(l + 1, lm); if r.pct(50) { must_err(true, "EvaluationKeyBuilder::new_leveled(key level above ciphertext level)", || EvaluationKeyBuilder::new_leveled(&a.sk, l, kl)) } else { must_err(true, "RelinearizationKey::new_leveled(key level above ciphertext level)", || RelinearizationKey::new_leveled(&a.sk, l, kl, lr)) } }
        // ---- sizes
        59 => { let i = r.below(a.rlks.len().max(1)); let (cl, _, key) = a.rlks.get(i)?; a.scratch = a.cts[*cl][*r.pick(&[0, 1, 3])].clone(); let s = a.scratch.clone(); let x = must_err(true, "relinearizes(wrong number of polynomials)", || key.relinearizes(&mut a.scratch)); ensure!(a.scratch == s, "trace-left", "relinearizes changed the ciphertext it refused"); x }
        60 => { let (ml, m) = &a.mults[r.below(a.mults.len())]; let sw = r.pct(50); let j = 2 + k2; must_err(true, "multiply(wrong number of polynomials)", || if sw { m.multiply(&a.cts[*ml][j], &a.cts[*ml][0]) } else { m.multiply(&a.cts[*ml][0], &a.cts[*ml][j]) }) }
        61 => { let (cl, e, hs) = &a.eks[r.below(a.eks.len())]; let i = hs.cols.first().copied(); let c = &a.cts[*cl][2 + k2];
            if let (Some(i), true) = (i, r.pct(40)) { return must_err(true, "rotates_columns_by(wrong number of polynomials)", || e.rotates_columns_by(c, i)); }
            if hs.row && r.pct(40) { return must_err(true, "rotates_rows(wrong number of polynomials)", || e.rotates_rows(c)); }
            if hs.sum { return must_err(true, "computes_inner_sum(wrong number of polynomials)", || e.computes_inner_sum(c)); }
            if hs.exp > 0 { let s = r.range(1, 1 << hs.exp); return must_err(true, "expands(wrong number of polynomials)", || e.expands(c, s)); }
            None }
        62 => { let (x, y) = *r.pick(&[(0usize, 2usize), (2, 1), (3, 2), (0, 3)]); match r.below(4) {
            0 => must_refuse(true, "ct + ct of another size", || &a.cts[l][x] + &a.cts[l][y]),
            1 => must_refuse(true, "ct - ct of another size", || &a.cts[l][x] - &a.cts[l][y]),
            2 => { a.scratch = a.cts[l][x].clone(); let s = a.scratch.clone(); let q = must_refuse(true, "ct += ct of another size", || a.scratch += &a.cts[l][y]); ensure!(a.scratch == s, "trace-left", "+= changed the ciphertext although it refused"); q }
            _ => { a.scratch = a.cts[l][x].clone(); let s = a.scratch.clone(); let q = must_refuse(true, "ct -= ct of another size", || a.scratch -= &a.cts[l][y]); ensure!(a.scratch == s, "trace-left", "-= changed the ciphertext although it refused"); q }
        } }
        63 => must_refuse(true, "ct of three polynomials * rgsw", || &a.cts[l][2 + k2] * &a.rgsw[l]),
        64 => { let p = r.range(1, 2); must_err(true, "dot_product_scalar(sizes differ)", || { let mut cs = vec![&a.cts[l][0]; 3]; cs[p] = &a.cts[l][2]; let ps = vec![&a.pts[l].0; 3]; dot_product_scalar(cs.into_iter(), ps.into_iter()) }) }
        65 => { let (x, y) = *r.pick(&[(0usize, 0usize), (0, 2), (3, 0), (2, 3), (3, 2)]); must_err(true, "dot_product_scalar(counts differ or are zero)", || { let cs = vec![&a.cts[l][0]; x]; let ps = vec![&a.pts[l].0; y]; dot_product_scalar(cs.into_iter(), ps.into_iter()) }) }
        66 => must_err(true, "DecryptionShare::new(three polynomials)", || { let c = Arc::new(a.cts[l][2 + k2].clone()); DecryptionShare::new(&a.sk, &c, lr) }),
        67 => must_err(true, "PublicKeySwitchShare::new(three polynomials)", || PublicKeySwitchShare::new(&a.sk, &a.pk, &a.cts[l][2 + k2], lr)),
        68 => { let m = r.below(3); let p0 = a.cts[l][0][0].clone(); must_err(true, "Ciphertext::new(too few or mixed polynomials)", || { let v: Vec<Poly<Ntt>> = match m { 0 => vec![], 1 => vec![p0], _ => if lv { vec![p0, a.cts[l2][0][0].clone()] } else { vec![] } }; Ciphertext::new(v, &a.par) }) }
        69 => { let vis = a.spec.n != b.spec.n || !a.spec.moduli.starts_with(&b.spec.moduli[..b.spec.moduli.len() - lb]); must_err(vis, "Ciphertext::new(polynomials of another ring)", || Ciphertext::new(b.cts[lb][0].to_vec(), &a.par)) }
        // ---- encodings and values
        70 => { let over = n + 1 + r.below(3); let v = vec![1u64; over]; let f = r.below(3); match f {
            0 => must_err(true, "Plaintext::try_encode(too many u64)", || Plaintext::try_encode(&v as &[u64], encoding(false, l), &a.par)),
            1 => { let v: Vec<i64> = vec![-1; over]; must_err(true, "Plaintext::try_encode(too many i64)", || Plaintext::try_encode(&v as &[i64], encoding(false, l), &a.par)) }
            _ => { let v = vec![big(1); over]; must_err(true, "Plaintext::try_encode(too many BigUint)", || Plaintext::try_encode(&v as &[BigUint], encoding(false, l), &a.par)) }
        } }
        71 => { if a.ring.simd { return None; } let v = vec![1u64; n]; if r.pct(50) { must_err(true, "Plaintext::try_encode(simd unavailable)", || Plaintext::try_encode(&v as &[u64], encoding(true, l), &a.par)) } else { must_err(true, "Vec::try_decode(simd unavailable)", || { let c = a.sk.try_decrypt(&a.cts[l][0])?; Vec::<u64>::try_decode(&c, encoding(true, l)) }) } }
        72 => { let p = &a.pts[l].0; match r.below(3) {
            0 => must_err(true, "Vec<u64>::try_decode(other encoding)", || Vec::<u64>::try_decode(p, encoding(true, l))),
            1 => { if !lv { return None; } must_err(true, "Vec<u64>::try_decode(other level)", || Vec::<u64>::try_decode(p, encoding(false, l2))) }
            _ => must_err(true, "Vec<BigUint>::try_decode(no encoding)", || { let c = a.sk.try_decrypt(&a.cts[l][0])?; Vec::<BigUint>::try_decode(&c, None) }),
        } }
        // ---- capabilities
        73 => { let (cl, e, hs) = &a.eks[r.below(a.eks.len())]; let c = &a.cts[*cl][k2]; match r.below(4) {
            0 => { if e.supports_row_rotation() || hs.row || hs.sum { return None; } must_err(true, "rotates_rows(unsupported)", || e.rotates_rows(c)) }
            1 => { let i = *r.pick(&[0, n / 2, n, usize::MAX, r.clone().range(1, n / 2 - 1)]); if e.supports_column_rotation_by(i) { return None; } must_err(true, "rotates_columns_by(unsupported)", || e.rotates_columns_by(c, i)) }
            2 => { if e.supports_inner_sum() { return None; } must_err(true, "computes_inner_sum(unsupported)", || e.computes_inner_sum(c)) }
            _ => { let s = *r.pick(&[0, n + 1, 2 * n, usize::MAX, n]); if s == n && e.supports_expansion(n.ilog2() as usize) { return None; } must_err(true, "expands(unsupported size)", || e.expands(c, s)) }
        } }
        74 => { let x = r.below(2); let i = r.below(a.bld.len()); let bl = a.bld[i].2.get_mut().unwrap_or_else(|e| e.into_inner()); match x {
            0 => { let s = *r.pick(&[0, n / 2, n / 2 + 1, usize::MAX]); must_err(true, "enable_column_rotation(out of range)", || bl.enable_column_rotation(s).map(|_| ())) }
            _ => { let s = *r.pick(&[n.ilog2() as usize + 1, 64, usize::MAX]); must_err(true, "enable_expansion(out of range)", || bl.enable_expansion(s).map(|_| ())) }
        } }
        75 => { if lm == 0 {
            return match r.below(3) { 0 => must_err(true, "RelinearizationKey::new(single modulus)", || RelinearizationKey::new(&a.sk, lr)), 1 => must_err(true, "RelinKeyGenerator::new(single modulus)", || RelinKeyGenerator::new(&a.sk, &a.crp, lr).map(|_| ())), _ => must_err(true, "RelinearizationKey::new_leveled(single modulus)", || RelinearizationKey::new_leveled(&a.sk, 0, 0, lr)) };
          }
          match r.below(3) {
            0 => must_err(true, "RelinKeyGenerator::new(too few common polynomials)", || RelinKeyGenerator::new(&a.sk, &a.crp[1..], lr).map(|_| ())),
            1 => must_err(true, "RelinearizationKey::new_leveled(key at the last level)", || RelinearizationKey::new_leveled(&a.sk, lm, lm, lr)),
            _ => { let mut v = a.crp.clone(); v.push(v[0].clone()); must_err(true, "RelinKeyGenerator::new(too many common polynomials)", || RelinKeyGenerator::new(&a.sk, &v, lr).map(|_| ())) }
          } }
        76 => { if lm == 0 { return None; } let lc = r.range(1, lm); let x = r.pct(50); let c = lib_ok("CommonRandomPoly::new_leveled", || CommonRandomPoly::new_leveled(&a.par, lc, lr)); if x { must_err(true, "PublicKeyShare::new(common polynomial of another level)", || PublicKeyShare::new(&a.sk, c, lr)) } else { let p = r.below(a.crp.len()); let mut v = a.crp.clone(); v[p] = c; must_err(true, "RelinKeyGenerator(common polynomial of another level)", || { let g = RelinKeyGenerator::new(&a.sk, &v, lr)?; g.round_1(lr) }) } }
        // ---- the empty ciphertext and mixed-level shares
        77 => match r.below(8) {
            0 => must_err(true, "SecretKey::try_decrypt(empty ciphertext)", || a.sk.try_decrypt(empty)),
            1 => must_err(true, "measure_noise(empty ciphertext)", || unsafe { a.sk.measure_noise(empty) }),
            2 => { let (_, m) = &a.mults[0]; must_err(true, "multiply(empty ciphertext)", || m.multiply(empty, empty)) }
            3 => must_err(true, "dot_product_scalar(empty ciphertext)", || dot_product_scalar([&*empty].into_iter(), [&a.pts[0].0].into_iter())),
            4 => must_err(true, "DecryptionShare::new(empty ciphertext)", || DecryptionShare::new(&a.sk, &Arc::new(empty.clone()), lr)),
            5 => must_err(true, "PublicKeySwitchShare::new(empty ciphertext)", || PublicKeySwitchShare::new(&a.sk, &a.pk, empty, lr)),
            6 => { if !lv { return None; } must_err(true, "Plaintext::from_shares(shares of two levels)", || { let (c, d) = (Arc::new(a.cts[l][0].clone()), Arc::new(a.cts[l2][0].clone())); let x = DecryptionShare::new(&a.sk, &c, lr)?; let y = DecryptionShare::new(&a.sk2, &d, lr)?; Plaintext::from_shares(vec![x, y]) }) }
            _ => { if !lv { return None; } must_err(true, "Ciphertext::from_shares(switch shares of two levels)", || { let x = PublicKeySwitchShare::new(&a.sk, &a.pk, &a.cts[l][0], lr)?; let y = PublicKeySwitchShare::new(&a.sk2, &a.pk, &a.cts[l2][0], lr)?; Ciphertext::from_shares(vec![x, y]) }) }
        },
        // ---- shares of different executions
        78 => must_err(true, "PublicKey::from_shares(shares of two common polynomials)", || { let c = CommonRandomPoly::new(&a.par, lr)?; let x = PublicKeyShare::new(&a.sk, a.crp[0].clone(), lr)?; let y = PublicKeyShare::new(&a.sk2, c, lr)?; PublicKey::from_shares(vec![x, y]) }),
        79 => { let sks = r.pct(50); must_err(true, "from_shares(shares of two ciphertexts)", || { let (c, d) = (Arc::new(a.cts[l][0].clone()), Arc::new(a.cts[l][1].clone())); if sks { let x = SecretKeySwitchShare::new(&a.sk, &a.sk2, c, lr)?; let y = SecretKeySwitchShare::new(&a.sk2, &a.sk, d, lr)?; Ciphertext::from_shares(vec![x, y]).map(|_| ()) } else { let x = DecryptionShare::new(&a.sk, &c, lr)?; let y = DecryptionShare::new(&a.sk2, &d, lr)?; Plaintext::from_shares(vec![x, y]).map(|_| ()) } }) }
        80 => must_err(true, "from_shares(public key switch shares of two ciphertexts)", || { let x = PublicKeySwitchShare::new(&a.sk, &a.pk, &a.cts[l][0], lr)?; let y = PublicKeySwitchShare::new(&a.sk2, &a.pk, &a.cts[l][1], lr)?; Ciphertext::from_shares(vec![x, y]) }),
        81 => { let r1 = a.r1.clone()?; must_err(true, "RelinearizationKey::from_shares(shares of two round-one aggregates)", || { let g = RelinKeyGenerator::new(&a.sk, &a.crp, lr)?; let h = RelinKeyGenerator::new(&a.sk2, &a.crp, lr)?; let x = g.round_1(lr)?; let q = Arc::new(RelinKeyShare::<R1Aggregated>::from_shares(vec![x])?); let x = g.round_2(&r1, lr)?; let y = h.round_2(&q, lr)?; RelinearizationKey::from_shares(vec![x, y]) }) }
        // ---- values and strategies
        82 => { if a.spec.t.bits() < 66 || modulus_at(&a.par, l) <= a.spec.t { return None; } let p = encode(&a.par, &a.ring, &PtSpec { val: Val::Poly(vec![&a.spec.t / 3u32; n]), level: l, form: 0 }); if r.pct(50) { must_err(true, "Vec<i64>::try_decode(value too large)", || Vec::<i64>::try_decode(&p, None)) } else { must_err(true, "Vec<u64>::try_decode(value too large)", || Vec::<u64>::try_decode(&p, None)) } }
        83 => { use fhe_math::rns::ScalingFactor; let basis: Vec<u64> = match r.below(4) { 0 => vec![], 1 => vec![a.spec.moduli[0], a.spec.moduli[0]], 2 => vec![a.spec.moduli[0], a.spec.moduli[0] - 1], _ => vec![1 << 63] }; let q = a.par.context_at_level(l).unwrap().modulus().clone(); must_err(true, "Multiplicator::new_leveled(unusable basis)", || Multiplicator::new_leveled(ScalingFactor::one(), ScalingFactor::one(), &basis, ScalingFactor::new(&a.spec.t, &q), l, &a.par)) }
        84 => { let vis = n != b.spec.n || lm != lmb; let f = r.below(6); match f {
            0 => { let y = b.cts[lb][kc].to_bytes(); let vis = n != b.spec.n || (lm != lmb); must_err(vis, "Ciphertext::from_bytes(foreign bytes)", || Ciphertext::from_bytes(&y, &a.par)) }
            1 => { let y = b.pk.to_bytes(); must_err(vis, "PublicKey::from_bytes(foreign bytes)", || PublicKey::from_bytes(&y, &a.par)) }
            2 => { let y = b.sk.to_bytes(); must_err(n != b.spec.n, "SecretKey::from_bytes(foreign bytes)", || SecretKey::from_bytes(&y, &a.par)) }
            3 => { let y = b.rlks.first()?.2.to_bytes(); must_err(vis, "RelinearizationKey::from_bytes(foreign bytes)", || RelinearizationKey::from_bytes(&y, &a.par)) }
            4 => { let k = &b.eks[0]; if !(k.2.row || k.2.sum || k.2.exp > 0 || !k.2.cols.is_empty()) { return None; } let y = k.1.to_bytes(); must_err(vis, "EvaluationKey::from_bytes(foreign bytes)", || EvaluationKey::from_bytes(&y, &a.par)) }
            _ => { let y = b.rgsw[lb].to_bytes(); must_err(vis, "RGSWCiphertext::from_bytes(foreign bytes)", || RGSWCiphertext::from_bytes(&y, &a.par)) }
        } }
        85 => { let f = r.below(5); let y = match f { 0 => a.sk.to_bytes(), 1 => a.pk.to_bytes(), 2 => a.par.to_bytes(), 3 => a.rgsw[l].to_bytes(), _ => a.eks[0].1.to_bytes() }; let which = r.below(3); match which {
            // bytes of another kind of object: an error, or an object (protobuf is not self-describing), never a panic
            0 => must_err(false, "Ciphertext::from_bytes(bytes of another object)", || Ciphertext::from_bytes(&y, &a.par)),
            1 => must_err(false, "RelinearizationKey::from_bytes(bytes of another object)", || RelinearizationKey::from_bytes(&y, &a.par)),
            _ => must_err(false, "EvaluationKey::from_bytes(bytes of another object)", || EvaluationKey::from_bytes(&y, &a.par)),
        } }
        _ => None,
    }
}

// ------------------------------------------------------------- parameter sets

/// A parameter request that must be refused with an error.
fn bad_params(r: &mut Rng, s: &Spec) -> &'static str {
    let mut b = BfvParametersBuilder::new();
    b.set_degree(s.n).set_variance(s.var).set_moduli(&s.moduli);
    match u64::try_from(&s.t) { Ok(t) => { b.set_plaintext_modulus(t); } Err(_) => { b.set_plaintext_modulus_biguint(s.t.clone()); } }
    let mut dup = s.moduli.clone();
    dup.push(dup[0]);
    let mut even = s.moduli.clone();
    even[0] -= 1;
    let what = match r.below(13) {
        0 => { b.set_degree(*r.pick(&[0, 1, 2, 3, 4, 7, 12, s.n + 1, s.n * 3, 1 << 20])); "degree" }
        1 => { b.set_variance(*r.pick(&[0, 33, 1000, usize::MAX])); "variance" }
        2 => { b.set_moduli(&dup); "duplicate moduli" }
        3 => { b.set_moduli(&even); "modulus not usable" }
        4 => { b.set_moduli_sizes(&[62, 62]); "moduli and sizes" }
        5 => { b.set_moduli(&[]); "no moduli" }
        6 => { b.set_plaintext_modulus(*r.pick(&[0, 1])); "plaintext modulus" }
        7 => { b.set_plaintext_modulus_biguint(s.moduli.iter().map(|m| big(*m)).product::<BigUint>() + big(r.below64(5))); "plaintext modulus too large" }
        8 => { b.set_plaintext_modulus_biguint(big(s.moduli[r.below(s.moduli.len())])); "plaintext modulus not coprime" }
        9 => { b.set_moduli(&[]).set_moduli_sizes(&[*r.pick(&[0usize, 9, 63, 64, 200])]); "modulus size" }
        10 => { b.set_moduli(&[]).set_moduli_sizes(&[(2 * s.n).ilog2() as usize + 1; 40]); "too many primes" }
        11 => { b.set_moduli(&[*r.pick(&[0u64, 1, 2, u64::MAX, 1 << 63, (1 << 62) + 1])]); "modulus out of range" }
        _ => { b.set_plaintext_modulus_biguint(big(0)); "plaintext modulus zero" }
    };
    must_err(true, "BfvParametersBuilder::build", || b.build());
    what
}

// --------------------------------------------------------------------- engine

pub fn sibling(r: &mut Rng, a: &Spec) -> (Spec, bool, &'static str) {
    for _ in 0..20 {
        let mut s = Spec { by_size: None, ..a.clone() };
        let (o, w) = match r.below(7) {
            0 => (false, "equal copy"),
            1 => { s.var = if s.var == 10 { 9 } else { 10 }; (true, "variance") }
            2 => { s.t = &s.t + 1u32; (true, "plaintext modulus") }
            3 => { if a.n > 8 { s.n /= 2 } else { s.n *= 2 } (true, "degree") }
            4 => { let j = r.below(s.moduli.len()); let sz = 64 - s.moduli[j].leading_zeros(); let Some(p) = ntt_prime(sz, 2 * s.n as u64, 3 + r.below(3)) else { continue }; if s.moduli.contains(&p) { continue } s.moduli[j] = p; (true, "one modulus") }
            5 => { if s.moduli.len() < 2 { continue } s.moduli.pop(); (true, "one modulus fewer") }
            _ => { if s.moduli.len() < 2 { continue } s.moduli.reverse(); (true, "order of moduli") }
        };
        if o && s.n == a.n && s.moduli == a.moduli && s.t == a.t && s.var == a.var { continue }
        if s.moduli.iter().any(|m| *m % (2 * s.n as u64) != 1) { continue }
        let b = s.bounds();
        if b.fresh_pk(0) > b.cap(0) || s.moduli.iter().any(|m| (&s.t % *m) == big(0)) { continue }
        return (s, o, w);
    }
    (a.clone(), false, "equal copy")
}

pub fn run(sim: &mut Sim, p: &Prof) {
    sim.begin(0);
    let mut r = sim.rng.clone();
    let lg = if sim.thorough { 6 } else { 5 };
    let spec = gen_spec(&mut r, Want { min_moduli: 1, max_moduli: 4, max_deg_log: lg, simd: 60, depth: 1, big_t: true });
    let (sb, other, diff) = sibling(&mut r, &spec);
    sim.rng = r;
    sim.log(&format!("second tenant differs in: {diff}"));
    let a = Tn::new(sim, spec);
    let b = Tn::new(sim, sb);
    let empty = Ciphertext::zero(&a.par);
    let mut w = World { a, b, other, empty, expect: HashMap::new() };
    let steps = sim.rng.range(6, 18) * if sim.thorough { 2 } else { 1 };
    for i in 1..=steps as u32 {
        if !sim.begin(i) { continue; }
        sim.now += 1000;
        let total = p.bad + p.rng;
        let mut r = sim.rng.clone();
        // the correctly routed call of this step
        let fail_rng = r.below(total as usize) < p.rng as usize;
        let op = if fail_rng { *r.pick(RANDOMISED) } else { *r.pick(GOOD) };
        let (x, y) = (r.below(64), r.below(64));
        let gseed = sim.lib_seed();
        let key = format!("{op} {} {} {gseed}", x, y);
        // what it gives when nothing fails, on scratch-free objects
        let mut lr = LibRng::new(gseed);
        w.a.scratch = w.a.cts[0][0].clone();
        w.b.scratch = w.b.cts[0][0].clone();
        let Some(want) = good(&w.a, op, x, y, &mut lr) else { continue };
        let words = lr.words;
        w.expect.insert(key, want);
        w.a.scratch = w.a.cts[0][0].clone();
        let before = (w.a.digest(), w.b.digest());
        sim.state(fnv(FNV, format!("{op}/{diff}/{}", fail_rng).as_bytes()));
        let rounds = r.range(1, if fail_rng { 4 } else { 6 });
        for _ in 0..rounds {
            let copies = (copy(&w.a), copy(&w.b));
            let what: String;
            if fail_rng {
                if words == 0 { continue; }
                let at = match r.below(4) { 0 => 0, 1 => words - 1, _ => r.below64(words) };
                if !sim.fault("generator-fails", 900) { continue; }
                let mut fr = LibRng::failing(gseed, at);
                let res = catch_unwind(AssertUnwindSafe(|| good(&w.a, op, x, y, &mut fr)));
                match res {
                    Ok(_) => violate!("failure-lost", "{op} returned a result although the generator failed at word {at} of {words}"),
                    Err(e) if e.downcast_ref::<RngFailure>().is_some() => {}
                    Err(e) => std::panic::resume_unwind(e),
                }
                what = format!("{op} with a generator failing at word {at} of {words}");
                sim.log(&what);
            } else {
                let k = r.below(BAD + 2);
                let ord = sim.fault("misrouted", 950);
                let mut lr = sim.lib_rng();
                if !ord { continue; }
                let refusal = if k >= BAD { let q = bad_params(&mut r, &w.a.spec); sim.op("refused parameters"); sim.log(&format!("refused parameters: {q}")); None } else { bad(&mut w, k, &mut r, &mut lr) };
                let Some(refusal) = refusal else { continue };
                let (kind, name) = match refusal { Refusal::Err(s) => ("refused", s), Refusal::Panic(s) => ("panicked", s) };
                sim.op(name);
                sim.log(&format!("{kind}: {name}"));
                sim.state(fnv(FNV, format!("{name}/{diff}").as_bytes()));
                what = name.to_string();
                // in-place arguments were judged by the call itself
                w.a.scratch = copies.0.scratch.clone();
                w.b.scratch = copies.1.scratch.clone();
            }
            w.a.scratch = copies.0.scratch.clone();
            unchanged(&w, &before, &copies, &what);
        }
        if sim.fault("entropy-eintr", 150) { unsafe { sim_entropy_fault(1 + sim.frand(4) as i32) } }
        // the correctly routed call now
        let mut lr = LibRng::new(gseed);
        let got = good(&w.a, op, x, y, &mut lr);
        w.a.scratch = w.a.cts[0][0].clone();
        sim.op(op);
        sim.log(&format!("{op} {x} {y} -> {:016x}", got.unwrap_or(0)));
        ensure!(got == Some(want), "not-as-before", "{op} gives another result after refused or failed calls than before them");
        let after = (w.a.digest(), w.b.digest());
        for (p, q) in before.0.iter().chain(&before.1).zip(after.0.iter().chain(&after.1)) {
            ensure!(p == q, "argument-changed", "{op} changed {}", p.0);
        }
        sim.rng = r;
    }
}

#[allow(dead_code)]
fn _unused(p: &Poly<Ntt>) -> u64 { poly_hash(p) }
