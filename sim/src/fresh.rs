//! Randomness over a history: masks and errors recovered with the secret key
//! are fresh, present, bounded and spread as configured.
use crate::bfvx::*;
use crate::core::{Caught, Sim, classify, fnv, lib, lib_ok};
use crate::erase::ksk_masks;
use crate::model::{Ring, powm, scaled};
use crate::node::Node;
use crate::params::{Spec, Want, gen_spec};
use crate::rt::*;
use fhe::bfv::*;
use fhe::mbfv::round::*;
use fhe::mbfv::*;
use fhe_math::rq::{Context, Ntt, NttShoup, Poly, PowerBasis, SubstitutionExponent, traits::TryConvertFrom};
use fhe_traits::*;
use num_bigint::BigUint;
use prost::Message;
use std::collections::HashMap;
use std::panic::{AssertUnwindSafe, catch_unwind, panic_any};
use std::sync::Arc;

const FNV: u64 = 0xcbf29ce484222325;

/// Everything seen so far by an observer who knows the secret keys.
#[derive(Default)]
struct Reg {
    masks: HashMap<u64, String>,
    errs: HashMap<u64, String>,
    /// error samples in the order of coefficients, one vector per polynomial
    samples: Vec<Vec<i64>>,
    mask_n: f64,
    mask_sum: f64,
    mask_sq: f64,
    /// public-key style pairs: (key and level, first, second) polynomials
    pairs: Vec<(u64, Poly<Ntt>)>,
    count: u64,
    /// decryption shares at the edge: surplus of lifted coefficients and its variance,
    /// altogether and one standard deviation above and below
    edge: (f64, f64),
    tails: [(f64, f64); 2],
}
fn words(w: &[u64]) -> u64 { w.iter().fold(FNV, |h, x| fnv(h, &x.to_le_bytes())) }

impl Reg {
    fn mask(&mut self, what: &str, p: &Poly<Ntt>) {
        self.count += 1;
        let moduli = p.ctx().moduli().to_vec();
        for (k, (row, q)) in p.coefficients().outer_iter().zip(&moduli).enumerate() {
            let row = row.to_vec();
            ensure!(row.iter().any(|x| *x != 0), "mask-zero", "the mask of {what} is zero");
            let me = format!("{what} (number {}, row {k})", self.count);
            if let Some(o) = self.masks.insert(words(&row), me) { violate!("mask-reused", "{what} reuses the mask of {o}") }
            // no two words of a uniform row coincide when the modulus is this much larger
            if (row.len() * row.len()) as u64 <= q >> 44 {
                let mut o = row.clone();
                o.sort_unstable();
                ensure!(o.windows(2).all(|w| w[0] != w[1]), "mask-biased", "the mask of {what} repeats a word modulo {q}");
            }
            for x in &row { let y = *x as f64 / *q as f64 - 0.5; self.mask_n += 1.0; self.mask_sum += y; self.mask_sq += y * y; }
        }
    }
    fn err(&mut self, what: &str, e: &[i64], var: usize) {
        self.count += 1;
        let b = 2 * var as i64;
        if let Some(x) = e.iter().find(|x| x.abs() > b) { violate!("error-too-large", "an error of {what} has a coefficient {x}, the distribution of variance {var} ends at {b}") }
        ensure!(e.iter().any(|x| *x != 0), "error-missing", "an error of {what} is zero");
        let sgn = e.iter().find(|x| **x != 0).unwrap().signum();
        let canon: Vec<u64> = e.iter().map(|x| (x * sgn) as u64).collect();
        let me = format!("{what} (number {})", self.count);
        if let Some(o) = self.errs.insert(words(&canon), me) { violate!("error-reused", "{what} reuses the error of {o}") }
        self.samples.push(e.to_vec());
    }
    /// Sample moments against the configured distribution.
    fn spread(&self, var: usize) {
        let n: f64 = self.samples.iter().map(|v| v.len() as f64).sum();
        if n >= 2000.0 {
            let v = var as f64;
            let mean = self.samples.iter().flatten().map(|x| *x as f64).sum::<f64>() / n;
            let sv = self.samples.iter().flatten().map(|x| (*x as f64).powi(2)).sum::<f64>() / n;
            ensure!(mean.abs() < 8.0 * (v / n).sqrt(), "error-biased", "the mean of {n} error coefficients is {mean:.4}, configured variance {var}");
            // fourth moment of the difference of two binomials: 3v^2 - v/2
            let sd = ((2.0 * v * v - v / 2.0).max(v * v / 2.0) / n).sqrt();
            ensure!((sv - v).abs() < 8.0 * sd, "error-variance", "the variance of {n} error coefficients is {sv:.3}, configured {var}");
            // every position varies
            let mut at: HashMap<(usize, usize), (u64, u64)> = HashMap::new();
            for s in &self.samples { for (i, x) in s.iter().enumerate() { let c = at.entry((s.len(), i)).or_default(); c.0 += 1; c.1 += (*x != 0) as u64 } }
            // even for variance one a coefficient is zero three times out of eight
            for ((_, i), (all, nz)) in &at { ensure!(*all < 60 || *nz > 0, "error-missing", "coefficient {i} of all {all} errors is zero"); }
            let n0 = self.samples.iter().map(|s| s.len()).max().unwrap();
            for lag in [1usize, 2, 3, 4, 8, 16, 32, n0 / 8, n0 / 4, n0 / 2] {
                let (mut c, mut m) = (0f64, 0f64);
                for s in &self.samples { for w in s.windows(lag + 1) { c += (w[0] * w[lag]) as f64; m += 1.0; } }
                ensure!((c / m).abs() < 8.0 * v / m.sqrt(), "error-correlated", "error coefficients {lag} apart have covariance {:.3} over {m} pairs, configured variance {var}", c / m);
            }
        }
        for (d, v) in [self.edge, self.tails[0], self.tails[1]] {
            ensure!(v < 50.0 || d.abs() < 8.0 * v.sqrt(), "error-variance", "decryption shares lift {d:.0} coefficients at the edge more than configured variance {var} explains (standard deviation {:.1})", v.sqrt());
        }
        if self.mask_n >= 2000.0 {
            let (m, q) = (self.mask_sum / self.mask_n, self.mask_sq / self.mask_n);
            ensure!(m.abs() < 8.0 * (1.0 / 12.0 / self.mask_n).sqrt(), "mask-biased", "masks average {m:.5} away from the middle over {} coefficients", self.mask_n);
            ensure!((q - 1.0 / 12.0).abs() < 8.0 * (1.0 / 180.0 / self.mask_n).sqrt(), "mask-spread", "masks have spread {q:.5} over {} coefficients", self.mask_n);
        }
    }
}

/// Residues centred around zero, when every modulus agrees on small integers.
fn small(p: &Poly<PowerBasis>, limit: i64) -> Option<Vec<i64>> {
    let moduli = p.ctx().moduli().to_vec();
    let mut out: Option<Vec<i64>> = None;
    for (row, q) in p.coefficients().outer_iter().zip(&moduli) {
        let v: Vec<i64> = row.iter().map(|x| if *x > q / 2 { -((q - x) as i64) } else { *x as i64 }).collect();
        if v.iter().any(|x| x.abs() > limit) { return None }
        match &out { None => out = Some(v), Some(o) => if *o != v { return None } }
    }
    out
}
/// a/b in the ring, when b has an inverse.
fn quotient(a: &Poly<Ntt>, b: &Poly<Ntt>) -> Option<Poly<PowerBasis>> {
    let ctx = a.ctx().clone();
    let mut out: Vec<u64> = vec![];
    for ((x, y), q) in a.coefficients().outer_iter().zip(b.coefficients().outer_iter()).zip(ctx.moduli()) {
        for (x, y) in x.iter().zip(y.iter()) {
            if *y == 0 { return None }
            out.push(crate::model::mulm(*x, powm(*y, q - 2, *q), *q));
        }
    }
    Some(lib_ok("polynomial from residues", || Poly::<Ntt>::try_convert_from(out, &ctx, false)).into_power_basis())
}

struct W {
    spec: Spec, ring: Ring, par: Arc<BfvParameters>,
    sk: SecretKey, s: Vec<i64>, sk2: SecretKey, s2: Vec<i64>,
    pk: PublicKey, pkc: Vec<Ciphertext>,
    crp: Vec<CommonRandomPoly>, crpp: Vec<Poly<Ntt>>,
    rng: LibRng, reg: Reg,
}
impl W {
    fn sp(&self, s: &[i64], ctx: &Arc<Context>) -> Poly<Ntt> { lib_ok("polynomial", || Poly::<PowerBasis>::try_convert_from(s, ctx, false)).into_ntt() }
    fn plain(a: &Poly<Ntt>) -> Poly<Ntt> { let mut a = a.clone(); a.disallow_variable_time_computations(); a }
    /// c0 + c1 s
    fn phase(&self, c0: &Poly<Ntt>, c1: &Poly<Ntt>, s: &[i64]) -> Poly<Ntt> {
        let mut x = Self::plain(c1);
        x *= &self.sp(s, c1.ctx());
        x += c0;
        Self::plain(&x)
    }
    fn must_small(&self, what: &str, p: Poly<PowerBasis>, limit: i64) -> Vec<i64> {
        match small(&p, limit) { Some(v) => v, None => violate!("error-too-large", "{what}: what remains without mask and message is not a polynomial with coefficients within {limit}") }
    }
    /// Not a short multiple of `b`: with a missing term, a would be one.
    fn not_short(&self, what: &str, missing: &str, a: &Poly<Ntt>, b: &Poly<Ntt>) {
        let limit = 8 * self.spec.var as i64 + 8;
        if let Some(q) = quotient(a, b) { ensure!(small(&q, limit).is_none(), "error-missing", "{what}: {missing}") }
    }
    /// The pair (p0 u + e1 + m, p1 u + e2) with the message already removed.
    fn pair(&mut self, what: &str, key: u64, p0: &Poly<Ntt>, p1: &Poly<Ntt>, x0: &Poly<Ntt>, x1: &Poly<Ntt>, s: &[i64], bound: f64) {
        self.reg.mask(&format!("{what}, first polynomial"), x0);
        self.reg.mask(&format!("{what}, second polynomial"), x1);
        self.not_short(what, "the first error is missing", x0, p0);
        self.not_short(what, "the second error is missing", x1, p1);
        self.not_short(what, "both errors are the same", &(x0 - x1), &(p0 - p1));
        let one = lib_ok("polynomial", || Poly::<PowerBasis>::try_convert_from(&[1u64][..], p0.ctx(), false)).into_ntt();
        self.not_short(what, "the first error is the ephemeral secret", x0, &(p0 + &one));
        self.not_short(what, "the second error is the ephemeral secret", x1, &(p1 + &one));
        let limit = 4 * self.spec.var as i64;
        ensure!(small(&x0.to_power_basis(), limit).is_none(), "error-missing", "{what}: the ephemeral secret is missing");
        // an ephemeral secret used twice leaves only errors in the difference
        for (k, o) in &self.reg.pairs {
            if *k == key { for x in [x1 - o, x1 + o] { ensure!(small(&x.to_power_basis(), limit).is_none(), "error-reused", "{what} reuses the ephemeral secret of an earlier one") } }
        }
        self.reg.pairs.push((key, x1.clone()));
        if self.reg.pairs.len() > 24 { self.reg.pairs.remove(0); }
        let ph = self.phase(x0, x1, s).into_power_basis();
        let q: f64 = ph.ctx().moduli().iter().map(|x| *x as f64).product();
        if bound * 4.0 < q {
            let mut any = false;
            let big = Vec::<BigUint>::from(&ph);
            let qb: BigUint = ph.ctx().moduli().iter().map(|x| BigUint::from(*x)).product();
            for c in big { let c = std::cmp::min(c.clone(), &qb - c); any |= c != BigUint::ZERO; ensure!(num_traits::ToPrimitive::to_f64(&c).unwrap() <= bound, "error-too-large", "{what}: noise {c} is above the worst case {bound}"); }
            ensure!(any, "error-missing", "{what}: no noise at all");
        }
    }
    fn ksk(&mut self, what: &str, k: &fhe::proto::bfv::KeySwitchingKey, from: &Poly<Ntt>) {
        let masks = ksk_masks(&self.par, k);
        let f = from.to_power_basis();
        let fr: Vec<Vec<u64>> = f.coefficients().outer_iter().map(|r| r.to_vec()).collect();
        let size = k.c0.len();
        // the key switches from a scaled copy when its own modulus is larger
        let extra = fr.len();
        ensure!(masks.len() == size && size > 0, "mask-missing", "{what} has {size} components and {} masks", masks.len());
        for (i, (b, a)) in k.c0.iter().zip(&masks).enumerate() {
            self.reg.mask(what, a);
            let c0 = lib_ok("Poly::from_bytes", || Poly::<NttShoup>::from_bytes(b, a.ctx())).into_ntt();
            let x = self.phase(&c0, a, &self.s.clone()).into_power_basis();
            let moduli = x.ctx().moduli().to_vec();
            let limit = 2 * self.spec.var as i64;
            let mut e: Option<Vec<i64>> = None;
            for (j, (row, q)) in x.coefficients().outer_iter().zip(&moduli).enumerate() {
                if j >= fr.len() || (k.log_base == 0 && j >= size) { break }
                let mut mult = if k.log_base > 0 { powm(2, i as u64 * k.log_base as u64, *q) } else { (i == j) as u64 };
                for m in moduli.iter().skip(extra) { mult = crate::model::mulm(mult, *m % *q, *q) }
                let v: Vec<i64> = row.iter().zip(&fr[j]).map(|(x, f)| { let y = (*x as u128 + (*q as u128 - (*f as u128 * mult as u128) % *q as u128)) % *q as u128; let y = y as u64; if y > q / 2 { -((q - y) as i64) } else { y as i64 } }).collect();
                if v.iter().any(|x| x.abs() > limit) { violate!("error-too-large", "{what}, component {i}: the error is above {limit} modulo {q}") }
                match &e { None => e = Some(v), Some(o) => ensure!(*o == v, "error-too-large", "{what}, component {i}: the residues of the error disagree") }
            }
            if let Some(e) = e { self.reg.err(&format!("{what}, component {i}"), &e, self.spec.var); }
        }
    }
}

pub fn run(sim: &mut Sim) {
    sim.begin(0);
    let mut r = sim.rng.clone();
    let spec: Spec = loop {
        let mut s = gen_spec(&mut r, Want { min_moduli: 1, max_moduli: 3, max_deg_log: 7, simd: 40, depth: 0, big_t: true });
        if r.pct(50) { s.var = *r.pick(&[1, 2, 3, 7, 15, 16, 17, 20, 31]) }
        if s.n >= 64 && s.moduli.iter().all(|q| *q > 40 * s.var as u64) && s.build().is_ok() { break s }
    };
    sim.rng = r;
    sim.log(&format!("params n={} t={} var={} q={:?}", spec.n, spec.t, spec.var, spec.moduli));
    let (ent, seed) = (sim.lib_seed(), sim.lib_seed());
    let sp = spec.clone();
    let mut node = Node::spawn(ent, move || Some(Box::new(world(sp, LibRng::new(seed)))));
    let steps = sim.rng.range(6, 16);
    let mut sks = 0u64;
    for i in 1..=steps as u32 {
        if !sim.begin(i) { continue }
        if sim.fault("crash", 120) {
            // the process ends; keys come back from their bytes, entropy is new
            let ent = sim.lib_seed();
            let w = node.call(|w| {
                let w = w.take().unwrap();
                (w.spec.clone(), w.sk.to_bytes(), w.sk2.to_bytes(), w.pk.to_bytes(), w.crp.clone(), w.rng.clone(), w.reg)
            });
            node = Node::spawn(ent, move || {
                let (spec, sk, sk2, pk, crp, rng, reg) = w;
                let par = lib_ok("BfvParametersBuilder::build_arc", || spec.build());
                let sk = lib_ok("SecretKey::from_bytes", || SecretKey::from_bytes(&sk, &par));
                let sk2 = lib_ok("SecretKey::from_bytes", || SecretKey::from_bytes(&sk2, &par));
                let pk = lib_ok("PublicKey::from_bytes", || PublicKey::from_bytes(&pk, &par));
                Some(Box::new(assemble(spec, par, sk, sk2, pk, crp, rng, reg)))
            });
            sim.log("crash and restart");
        }
        if sim.fault("entropy-eintr", 80) { let k = sim.frand(3) as i32 + 1; node.call(move |_| unsafe { sim_entropy_fault(k) }) }
        let op = *sim.rng.pick(OPS);
        let fail = if sim.fault("generator-fails", 150) { let n = if sim.frand(2) == 0 { 40 } else { 60 * spec.n }; Some(sim.frand(n) as u64) } else { None };
        let reseed = if sim.fault("generator-reseeded", 60) { Some(sim.lib_seed()) } else { None };
        let (x, y, hs) = (sim.rng.below(64), sim.rng.below(64), sim.rng.u64());
        sim.op(op);
        let n = node.call(move |w| {
            let w = w.as_mut().unwrap();
            if let Some(s) = reseed { w.rng = LibRng::new(s) }
            if let Some(f) = fail { w.rng.fail_at = Some(w.rng.words + f) }
            let c = w.reg.count;
            let res = catch_unwind(AssertUnwindSafe(|| step(w, op, x, y, &mut Rng::new(hs))));
            w.rng.fail_at = None;
            if let Err(p) = res { match classify(p) {
                Caught::Rng => {}
                Caught::Violation(v) => panic_any(v),
                Caught::Library(l, m) => violate!("panic", "library panic at {l}: {m}"),
                Caught::Harness(l, m) => panic!("{l}: {m}"),
            } }
            w.reg.count - c
        });
        sks += n;
        sim.log(&format!("{op} {x} {y} fail={fail:?}: {n} masks and errors"));
        sim.state(fnv(FNV, format!("{op} {} {} {}", fail.is_some(), spec.moduli.len(), x as usize % spec.moduli.len()).as_bytes()));
        sim.now += 1000;
    }
    let var = spec.var;
    let st = node.call(move |w| { let w = w.as_mut().unwrap(); w.reg.spread(var); format!("{} {:.6} {:.6}", w.reg.samples.len(), w.reg.mask_sum, w.reg.samples.iter().flatten().map(|x| x * x).sum::<i64>()) });
    sim.log(&format!("{sks} observed; {st}"));
}

fn world(spec: Spec, mut rng: LibRng) -> W {
    let par = lib_ok("BfvParametersBuilder::build_arc", || spec.build());
    let sk = lib("SecretKey::random", || SecretKey::random(&par, &mut rng));
    let sk2 = lib("SecretKey::random", || SecretKey::random(&par, &mut rng));
    let pk = lib("PublicKey::new", || PublicKey::new(&sk, &mut rng));
    let crp = lib_ok("CommonRandomPoly::new_vec", || CommonRandomPoly::new_vec(&par, &mut rng));
    let mut reg = Reg::default();
    for k in [&sk, &sk2] { let s = sk_coeffs(k); reg.err("a secret key", &s, spec.var); }
    let mut w = assemble(spec, par, sk, sk2, pk, crp, rng, reg);
    let c = w.pkc[0].clone();
    w.reg.mask("a public key", &c[1]);
    let e = w.phase(&c[0], &c[1], &w.s.clone()).into_power_basis();
    let e = w.must_small("PublicKey::new", e, 2 * w.spec.var as i64);
    w.reg.err("a public key", &e, w.spec.var);
    for p in w.crpp.clone() { w.reg.mask("a common random polynomial", &p) }
    w
}
fn assemble(spec: Spec, par: Arc<BfvParameters>, sk: SecretKey, sk2: SecretKey, pk: PublicKey, crp: Vec<CommonRandomPoly>, rng: LibRng, reg: Reg) -> W {
    let (s, s2) = (sk_coeffs(&sk), sk_coeffs(&sk2));
    let mut c = pk_ct(&par, &pk);
    let mut pkc = vec![c.clone()];
    for _ in 0..par.max_level() { lib_ok("switch_down", || c.switch_down()); pkc.push(c.clone()) }
    let crpp = crp.iter().map(|x| {
        let pk = lib_ok("aggregate", || PublicKey::from_shares(vec![PublicKeyShare::new(&sk, x.clone(), &mut LibRng::new(1))?]));
        W::plain(&pk_ct(&par, &pk)[1])
    }).collect();
    let ring = spec.ring();
    W { spec, ring, par, sk, s, sk2, s2, pk, pkc, crp, crpp, rng, reg }
}
fn pk_ct(par: &Arc<BfvParameters>, pk: &PublicKey) -> Ciphertext {
    let p: fhe::proto::bfv::PublicKey = Message::decode(&pk.to_bytes()[..]).unwrap();
    lib_ok("Ciphertext::from_bytes", || Ciphertext::from_bytes(&p.c.unwrap().encode_to_vec(), par))
}

/// Under a public key (B, B) of the observer's making, what is left of an encryption
/// is B u + e1 and B u + e2 and can be read off.
fn open(w: &mut W, l: usize, y: usize, f: impl Fn(&mut W, &PublicKey) -> (Poly<Ntt>, Poly<Ntt>), what: &str, times: usize) {
    let (par, var) = (w.par.clone(), w.spec.var);
    let b = 64 * var as u64 + 2 * y as u64 + 1;
    let q = modulus_at(&par, l);
    if q < BigUint::from(b * 16 * var as u64) { return }
    let top = lib_ok("context_at_level", || par.context_at_level(0).cloned());
    // exactly B once switched down to the level
    let p = BigUint::from(b) * (modulus_at(&par, 0) / &q);
    let p = lib_ok("polynomial", || Poly::<PowerBasis>::try_convert_from(&[p][..], &top, false)).into_ntt();
    let c = lib_ok("Ciphertext::new", || Ciphertext::new(vec![p.clone(), p], &par));
    let c = fhe::proto::bfv::Ciphertext::decode(&c.to_bytes()[..]).unwrap();
    let pk = lib_ok("PublicKey::from_bytes", || PublicKey::from_bytes(&fhe::proto::bfv::PublicKey { c: Some(c), ..Default::default() }.encode_to_vec(), &par));
    let limit = 2 * var as i64;
    for _ in 0..times {
        let (x0, x1) = f(w, &pk);
        let read = |x: &Poly<Ntt>| -> (Vec<i64>, Vec<i64>) {
            Vec::<BigUint>::from(&x.to_power_basis()).iter().map(|c| {
                let neg = c + c > q;
                let m = if neg { &q - c } else { c.clone() };
                let m = i64::try_from(&m).unwrap_or(i64::MAX);
                let u = (m + b as i64 / 2) / b as i64;
                let (u, e) = if neg { (-u, u * b as i64 - m) } else { (u, m - u * b as i64) };
                if u.abs() > limit || e.abs() > limit { violate!("error-too-large", "{what}: a coefficient is {m} = {u} * {b} + {e}, the distribution of variance {var} ends at {limit}") }
                (u, e)
            }).unzip()
        };
        let ((u, e0), (v, e1)) = (read(&x0), read(&x1));
        ensure!(u == v, "error-too-large", "{what}: the two polynomials hide different ephemeral secrets");
        w.reg.err(&format!("{what} (its ephemeral secret)"), &u, var);
        w.reg.err(&format!("{what} (its first error)"), &e0, var);
        w.reg.err(&format!("{what} (its second error)"), &e1, var);
    }
}

pub const OPS: &[&str] = &["sk-new", "enc-sk", "enc-sk", "enc-sk-twice", "enc-pk", "enc-pk", "pk-new", "rlk-new", "ek-build", "rgsw-enc", "crp", "pk-share", "sks-share", "pks-share", "dec-share", "rlk-rounds", "enc-pk-open", "enc-pk-open", "pks-open", "burst"];

fn step(w: &mut W, op: &str, x: usize, y: usize, r: &mut Rng) {
    let par = w.par.clone();
    let lm = par.max_level();
    let l = x % (lm + 1);
    let var = w.spec.var;
    let limit = 2 * var as i64;
    let ctx = lib_ok("context_at_level", || par.context_at_level(l).cloned());
    let q = modulus_at(&par, l);
    // few distinct messages: equal plaintexts must still be masked differently
    let m: Vec<BigUint> = (0..w.spec.n).map(|i| if y % 3 == 0 { BigUint::ZERO } else { BigUint::from((y % 5 + i) as u64) % &w.spec.t }).collect();
    macro_rules! pt { () => { lib_ok("Plaintext::try_encode", || Plaintext::try_encode(&m[..], encoding(false, l), &par)) } }
    let delta = |w: &W| { let c: Vec<BigUint> = m.iter().map(|v| scaled(v, &q, &w.spec.t)).collect(); lib_ok("polynomial", || Poly::<PowerBasis>::try_convert_from(&c[..], &ctx, false)).into_ntt() };
    let s = w.s.clone();
    match op {
        "sk-new" => {
            let k = lib("SecretKey::random", || SecretKey::random(&par, &mut w.rng));
            w.reg.err("a secret key", &sk_coeffs(&k), var);
        }
        "enc-sk" | "enc-sk-twice" => {
            let pt = pt!();
            let d = delta(w);
            let again = w.rng.clone();
            for k in 0..if op == "enc-sk" { 1 } else { 2 } {
                // a caller whose generator repeats itself still gets fresh masks
                if k == 1 { w.rng = again.clone() }
                let c: Ciphertext = lib_ok("SecretKey::try_encrypt", || w.sk.try_encrypt(&pt, &mut w.rng));
                w.reg.mask("a secret-key encryption", &c[1]);
                let mut e = w.phase(&c[0], &c[1], &s);
                e -= &d;
                let e = w.must_small("secret-key encryption", e.into_power_basis(), limit);
                if k == 0 { w.reg.err("a secret-key encryption", &e, var); }
            }
        }
        "enc-pk" => {
            let pt = pt!();
            let c = lib_ok("PublicKey::try_encrypt", || w.pk.try_encrypt(&pt, &mut w.rng));
            let p = w.pkc[l].clone();
            let x0 = &W::plain(&c[0]) - &delta(w);
            let b = w.spec.bounds().fresh_pk(l);
            w.pair("a public-key encryption", l as u64, &W::plain(&p[0]), &W::plain(&p[1]), &x0, &W::plain(&c[1]), &s, b);
        }
        "enc-pk-open" => { let pt = pt!(); let d = delta(w); open(w, l, y, |w, pk| { let c = lib_ok("PublicKey::try_encrypt", || pk.try_encrypt(&pt, &mut w.rng)); (&W::plain(&c[0]) - &d, W::plain(&c[1])) }, "a public-key encryption", 1); }
        "pks-open" => {
            let c: Ciphertext = lib_ok("SecretKey::try_encrypt", || w.sk.try_encrypt(&pt!(), &mut w.rng));
            let sc = w.phase(&c[0], &c[1], &s);
            open(w, l, y, |w, pk| {
                let sh = lib_ok("PublicKeySwitchShare::new", || PublicKeySwitchShare::new(&w.sk, pk, &c, &mut w.rng));
                let o = lib_ok("aggregate", || Ciphertext::from_shares(vec![sh]));
                (&W::plain(&o[0]) - &sc, W::plain(&o[1]))
            }, "a public key switching share", 1);
        }
        "burst" => {
            // long histories of one kind
            let times = if x % 5 == 0 { r.range(257, 700) } else { r.range(3, 40) };
            let pt = pt!();
            let d = delta(w);
            if y % 2 == 0 {
                open(w, l, y, |w, pk| { let c = lib_ok("PublicKey::try_encrypt", || pk.try_encrypt(&pt, &mut w.rng)); (&W::plain(&c[0]) - &d, W::plain(&c[1])) }, "a public-key encryption", times);
            } else {
                let sp = w.sp(&s, &ctx);
                for _ in 0..times {
                    let c: Ciphertext = lib_ok("SecretKey::try_encrypt", || w.sk.try_encrypt(&pt, &mut w.rng));
                    w.reg.mask("a secret-key encryption", &c[1]);
                    let mut e = W::plain(&c[1]);
                    e *= &sp;
                    e += &c[0];
                    e -= &d;
                    let e = w.must_small("secret-key encryption", W::plain(&e).into_power_basis(), limit);
                    w.reg.err("a secret-key encryption", &e, var);
                }
            }
        }
        "pk-new" => {
            let k = lib("PublicKey::new", || PublicKey::new(&w.sk, &mut w.rng));
            let c = pk_ct(&par, &k);
            w.reg.mask("a public key", &c[1]);
            let e = w.phase(&c[0], &c[1], &s).into_power_basis();
            let e = w.must_small("PublicKey::new", e, limit);
            w.reg.err("a public key", &e, var);
        }
        "rlk-new" => {
            if lm == 0 { return }
            let kl = y % (l.min(lm - 1) + 1);
            let k = lib_ok("RelinearizationKey::new_leveled", || RelinearizationKey::new_leveled(&w.sk, l, kl, &mut w.rng));
            let p: fhe::proto::bfv::RelinearizationKey = Message::decode(&k.to_bytes()[..]).unwrap();
            let sp = w.sp(&s, &ctx);
            w.ksk("a relinearisation key", &p.ksk.unwrap(), &(&sp * &sp));
        }
        "ek-build" => {
            let kl = y % (l + 1);
            let mut b = lib_ok("EvaluationKeyBuilder::new_leveled", || EvaluationKeyBuilder::new_leveled(&w.sk, l, kl));
            if r.pct(50) { lib_ok("enable_row_rotation", || b.enable_row_rotation().map(|_| ())) }
            if r.pct(25) { lib_ok("enable_inner_sum", || b.enable_inner_sum().map(|_| ())) }
            if r.pct(40) { lib_ok("enable_expansion", || b.enable_expansion(2).map(|_| ())) }
            let col = r.range(1, w.spec.n / 2 - 1);
            lib_ok("enable_column_rotation", || b.enable_column_rotation(col).map(|_| ()));
            let k = lib_ok("EvaluationKeyBuilder::build", || b.build(&mut w.rng));
            let p: fhe::proto::bfv::EvaluationKey = Message::decode(&k.to_bytes()[..]).unwrap();
            let sp = lib_ok("polynomial", || Poly::<PowerBasis>::try_convert_from(&s[..], &ctx, false));
            for g in &p.gk {
                let e = lib_ok("SubstitutionExponent::new", || SubstitutionExponent::new(&ctx, g.exponent as usize));
                let f = lib_ok("substitute", || sp.substitute(&e)).into_ntt();
                w.ksk("a rotation key", g.ksk.as_ref().unwrap(), &f);
            }
        }
        "rgsw-enc" => {
            let pt = pt!();
            let g: RGSWCiphertext = lib_ok("RGSW try_encrypt", || w.sk.try_encrypt(&pt, &mut w.rng));
            let p: fhe::proto::bfv::RgswCiphertext = Message::decode(&g.to_bytes()[..]).unwrap();
            let mp = lib_ok("polynomial", || Poly::<PowerBasis>::try_convert_from(&m[..], &ctx, false)).into_ntt();
            w.ksk("the first half of an RGSW ciphertext", &p.ksk0.unwrap(), &mp);
            let sp = w.sp(&s, &ctx);
            w.ksk("the second half of an RGSW ciphertext", &p.ksk1.unwrap(), &(&mp * &sp));
        }
        "crp" => {
            let c = lib_ok("CommonRandomPoly::new", || CommonRandomPoly::new(&par, &mut w.rng));
            let pk = lib_ok("aggregate", || PublicKey::from_shares(vec![PublicKeyShare::new(&w.sk, c.clone(), &mut LibRng::new(7))?]));
            let c = pk_ct(&par, &pk);
            w.reg.mask("a common random polynomial", &c[1]);
        }
        "pk-share" => {
            let i = y % w.crp.len();
            let sh = lib_ok("PublicKeyShare::new", || PublicKeyShare::new(&w.sk, w.crp[i].clone(), &mut w.rng));
            let c = pk_ct(&par, &lib_ok("aggregate", || PublicKey::from_shares(vec![sh])));
            let e = w.phase(&c[0], &c[1], &s).into_power_basis();
            let e = w.must_small("PublicKeyShare::new", e, limit);
            w.reg.err("a public key share", &e, var);
        }
        "sks-share" => {
            let c: Ciphertext = lib_ok("SecretKey::try_encrypt", || w.sk.try_encrypt(&pt!(), &mut w.rng));
            let c = Arc::new(c);
            let sh = lib_ok("SecretKeySwitchShare::new", || SecretKeySwitchShare::new(&w.sk, &w.sk2, c.clone(), &mut w.rng));
            let o = lib_ok("aggregate", || Ciphertext::from_shares(vec![sh]));
            let d: Vec<i64> = s.iter().zip(&w.s2).map(|(a, b)| a - b).collect();
            let zero = Poly::<Ntt>::zero(c[0].ctx());
            let mut e = W::plain(&o[0]);
            e -= &c[0];
            e -= &w.phase(&zero, &c[1], &d);
            let e = w.must_small("SecretKeySwitchShare::new", W::plain(&e).into_power_basis(), limit);
            w.reg.err("a secret key switching share", &e, var);
        }
        "pks-share" => {
            let c: Ciphertext = lib_ok("SecretKey::try_encrypt", || w.sk.try_encrypt(&pt!(), &mut w.rng));
            let sh = lib_ok("PublicKeySwitchShare::new", || PublicKeySwitchShare::new(&w.sk, &w.pk, &c, &mut w.rng));
            let o = lib_ok("aggregate", || Ciphertext::from_shares(vec![sh]));
            let x0 = &W::plain(&o[0]) - &w.phase(&c[0], &c[1], &s);
            let p = w.pkc[l].clone();
            let b = w.spec.bounds().fresh_pk(l);
            w.pair("a public key switching share", l as u64, &W::plain(&p[0]), &W::plain(&p[1]), &x0, &W::plain(&o[1]), &s, b);
        }
        "dec-share" => {
            // On a phase at the edge between two values the error alone decides.
            let t = &w.spec.t;
            // the scaling to the plaintext is exact to about 2^-60
            if &q < &(t * 64u32 * var) || q > t << 50usize { return }
            let a = Poly::<Ntt>::random(&ctx, &mut LibRng::new(r.u64()));
            let sd = (var as f64).sqrt().round() as i64;
            let k = [0i64, limit, -limit - 1, sd, -sd - 1][y % 5];
            // round(t*x/q) is 0 up to floor((q-1)/2t) and 1 above
            let edge = (&q - 1u32) / (t * 2u32);
            let edge = if k >= 0 { edge - k as u64 } else { edge + (-k) as u64 };
            let p = lib_ok("polynomial", || Poly::<PowerBasis>::try_convert_from(&vec![edge; w.spec.n][..], &ctx, false)).into_ntt();
            let c0 = &p - &w.phase(&Poly::<Ntt>::zero(&ctx), &a, &s);
            let c = Arc::new(lib_ok("Ciphertext::new", || Ciphertext::new(vec![c0, a], &par)));
            let sh = lib_ok("DecryptionShare::new", || DecryptionShare::new(&w.sk, &c, &mut w.rng));
            let o = lib_ok("aggregate", || Plaintext::from_shares(vec![sh]));
            let v = lib_ok("Vec<BigUint>::try_decode", || Vec::<BigUint>::try_decode(&o, encoding(false, l)));
            let ones = v.iter().filter(|x| **x == BigUint::from(1u32)).count();
            let zeros = v.iter().filter(|x| **x == BigUint::ZERO).count();
            ensure!(ones + zeros == v.len(), "error-too-large", "a decryption share moves a phase at the edge between 0 and 1 elsewhere");
            let n = v.len() as f64;
            // P(error > k) for the difference of two binomials
            let (mut p, mut tail, m) = (0.5f64.powi(4 * var as i32), 0.0, 4 * var as i64);
            for j in 0..=m { if j - 2 * var as i64 > k { tail += p } p = p * (m - j) as f64 / (j + 1) as f64 }
            w.reg.edge.0 += ones as f64 - tail * n;
            w.reg.edge.1 += n * tail * (1.0 - tail);
            if y % 5 > 2 { let side = if k >= 0 { 0 } else { 1 }; w.reg.tails[side].0 += ones as f64 - tail * n; w.reg.tails[side].1 += n * tail * (1.0 - tail) }
            match y % 5 {
                3 | 4 => {}
                0 => {
                    // P(error > 0) lies between 0.3 and 0.5 for every variance
                    ensure!((ones as f64) > 0.31 * n - 8.0 * (0.25 * n).sqrt() && (ones as f64) < 0.5 * n + 8.0 * (0.25 * n).sqrt() && ones > 0, "error-missing", "a decryption share lifts {ones} of {n} coefficients at the edge");
                }
                1 => ensure!(ones == 0, "error-too-large", "a decryption share adds an error above {limit}"),
                _ => ensure!(zeros == 0, "error-too-large", "a decryption share adds an error below -{limit}"),
            }
            w.reg.count += 1;
        }
        "rlk-rounds" => {
            if lm == 0 { return }
            // One party, each round also run again with other randomness: the
            // differences isolate the errors of the rounds.
            let top = lib_ok("context_at_level", || par.context_at_level(0).cloned());
            let crp = w.crp.clone();
            let mut g2 = LibRng::new(w.rng.words ^ 0x51ED ^ r.u64());
            let (sk, rng) = (&w.sk, &mut w.rng);
            let g = lib_ok("RelinKeyGenerator::new", || RelinKeyGenerator::new(sk, &crp, rng));
            let r1 = |sh| Arc::new(lib_ok("aggregate", || RelinKeyShare::<R1Aggregated>::from_shares(vec![sh])));
            let a = r1(lib_ok("round_1", || g.round_1(rng)));
            let b = r1(lib_ok("round_1", || g.round_1(&mut g2)));
            let fin = |sh| { let k = lib_ok("aggregate", || RelinearizationKey::from_shares(vec![sh])); let p: fhe::proto::bfv::RelinearizationKey = Message::decode(&k.to_bytes()[..]).unwrap(); p.ksk.unwrap() };
            let same = LibRng::new(r.u64());
            let ka = fin(lib_ok("round_2", || g.round_2(&a, rng)));
            let ka2 = fin(lib_ok("round_2", || g.round_2(&a, &mut g2)));
            let mut used = same.clone();
            let kas = fin(lib_ok("round_2", || g.round_2(&a, &mut used)));
            // the same again with one word of the generator changed
            let mut flips = vec![];
            for _ in 0..2 {
                let mut f = same.clone();
                f.flip = Some((1 + r.below64(used.words.max(1)), r.u64() | 1));
                flips.push(fin(lib_ok("round_2", || g.round_2(&a, &mut f))));
                let mut f = same.clone();
                let mut u = same.clone();
                let x = r1(lib_ok("round_1", || g.round_1(&mut u)));
                f.flip = Some((1 + r.below64(u.words.max(1)), r.u64() | 1));
                let y = r1(lib_ok("round_1", || g.round_1(&mut f)));
                flips.push(fin(lib_ok("round_2", || g.round_2(&x, &mut same.clone()))));
                flips.push(fin(lib_ok("round_2", || g.round_2(&y, &mut same.clone()))));
            }
            let kbs = fin(lib_ok("round_2", || g.round_2(&b, &mut same.clone())));
            drop(g);
            let poly = |v: &Vec<Vec<u8>>| -> Vec<Poly<Ntt>> { v.iter().map(|b| W::plain(&lib_ok("Poly::from_bytes", || Poly::<NttShoup>::from_bytes(b, &top)).into_ntt())).collect() };
            let (a0, a1, a20, s0, t0, t1) = (poly(&ka.c0), poly(&ka.c1), poly(&ka2.c0), poly(&kas.c0), poly(&kbs.c0), poly(&kbs.c1));
            for c in flips.chunks(3) {
                for (what, was, is) in [("round two", &kas.c0, &c[0].c0), ("round one", &c[1].c0, &c[2].c0), ("round one", &c[1].c1, &c[2].c1)] {
                    let (was, is) = (poly(was), poly(is));
                    let d: Vec<Poly<Ntt>> = was.iter().zip(&is).map(|(a, b)| a - b).filter(|d| d.coefficients().iter().any(|x| *x != 0)).collect();
                    for i in 0..d.len() { for j in 0..i { ensure!(d[i] != d[j] && d[i] != -&d[j], "error-reused", "{what} of relinearisation: one word of the generator changes two components of the key by the same polynomial") } }
                }
            }
            ensure!(a1.len() == w.crpp.len() && t1.len() == a1.len(), "mask-missing", "a relinearisation key from shares has {} second polynomials", a1.len());
            let sp = w.sp(&s, &top);
            for i in 0..a1.len() {
                // first round, second polynomial: the common polynomial times the key plus an error
                for h in [&a1[i], &t1[i]] {
                    let e = h - &(&w.crpp[i] * &sp);
                    let e = w.must_small("round one of relinearisation", e.into_power_basis(), limit);
                    w.reg.err("round one of relinearisation", &e, var);
                }
                // second round: two errors per component, each drawn afresh
                let d = w.must_small("round two of relinearisation, run twice", (&a0[i] - &a20[i]).into_power_basis(), 4 * limit);
                let (n, v) = (d.len() as f64, var as f64);
                let sv = d.iter().map(|x| (*x as f64).powi(2)).sum::<f64>() / n;
                // four errors: fourth moment of a sum of 8v fair bits each way
                let sd = (2.0 * (4.0 * v).powi(2) / n).sqrt();
                ensure!(sv > 0.0 && (sv - 4.0 * v).abs() < 8.0 * sd, "error-variance", "two runs of round two differ with variance {sv:.2}, four errors of variance {var} were expected");
            }
            let k = a1.len();
            let spread: Vec<i64> = (0..k).flat_map(|i| small(&(&a0[i] - &a20[i]).into_power_basis(), 4 * limit).unwrap()).collect();
            let n = spread.len() as f64;
            let sv = spread.iter().map(|x| (*x as f64).powi(2)).sum::<f64>() / n;
            let v = 4.0 * var as f64;
            ensure!((sv - v).abs() < 8.0 * (2.0 * v * v / n).sqrt(), "error-variance", "two runs of round two differ with variance {sv:.2} over {n} coefficients, four errors of variance {var} were expected");
            // first round, first polynomial: without its error the change of the
            // key would be the same multiple of the visible error in every component
            if k >= 2 {
                let d0: Vec<Poly<Ntt>> = (0..k).map(|i| &s0[i] - &t0[i]).collect();
                let d1: Vec<Poly<Ntt>> = (0..k).map(|i| &a1[i] - &t1[i]).collect();
                ensure!(&d0[0] * &d1[1] != &d0[1] * &d1[0], "error-missing", "round one of relinearisation: the error of the first polynomial is missing");
            }
        }
        _ => unreachable!("{op}"),
    }
    let _ = &w.ring;
}
