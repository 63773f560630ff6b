//! Client / replicated-evaluator sessions over a faulty network with crashing
//! servers and durable bytes. Used by the properties about computation,
//! key material, durability, noise and replica agreement.
use crate::bfvx::*;
use crate::core::{Sim, fnv, lib, lib_ok};
use crate::model::{Bounds, Ring, Val, big};
use crate::node::Node;
use crate::misuse::{GOOD, Tn, good};
use crate::params::{Spec, Want, gen_spec, neighbour};
use crate::rt::{LibRng, Rng, mix};
use fhe::bfv::*;
use fhe_math::rns::{RnsContext, ScalingFactor};
use fhe_traits::*;
use num_bigint::BigUint;
use num_traits::{ToPrimitive, Zero};
use std::cmp::Reverse;
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, HashMap};
use std::sync::Arc;

// ------------------------------------------------------------------ requests

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Bop { Add, Sub, Mul }

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum MulKind { Default, Custom(u32) }

#[derive(Clone, Debug)]
pub enum Req {
    PutCt { bytes: Vec<u8>, out: u32 },
    PutRlk { id: u32, bytes: Vec<u8> },
    PutEk { id: u32, bytes: Vec<u8> },
    PutRgsw { id: u32, bytes: Vec<u8> },
    PutPk { id: u32, bytes: Vec<u8> },
    Bin { op: Bop, form: u8, a: u32, b: u32, out: u32 },
    BinPt { op: Bop, form: u8, a: u32, pt: PtSpec, out: u32 },
    Neg { form: u8, a: u32, out: u32 },
    ZeroCt { op: Bop, form: u8, a: u32, out: u32 },
    Relin { a: u32, rk: u32, out: u32 },
    MulRelin { kind: MulKind, relin: bool, ms: bool, a: u32, b: u32, rk: u32, level: usize, out: u32 },
    Dot { a: Vec<u32>, pts: Vec<PtSpec>, out: u32 },
    Down { a: u32, out: u32 },
    To { a: u32, level: usize, out: u32 },
    RotCol { a: u32, ek: u32, i: usize, out: u32 },
    RotRow { a: u32, ek: u32, out: u32 },
    InnerSum { a: u32, ek: u32, out: u32 },
    Expand { a: u32, ek: u32, size: usize, out: u32 },
    RgswMul { a: u32, g: u32, form: u8, out: u32 },
    ServerEnc { pk: u32, pt: PtSpec, seed: u64, out: u32 },
}
impl Req {
    fn name(&self) -> &'static str {
        match self {
            Req::PutCt { .. } => "put-ct", Req::PutRlk { .. } => "put-rlk", Req::PutEk { .. } => "put-ek", Req::PutRgsw { .. } => "put-rgsw", Req::PutPk { .. } => "put-pk",
            Req::Bin { op: Bop::Add, .. } => "add", Req::Bin { op: Bop::Sub, .. } => "sub", Req::Bin { op: Bop::Mul, .. } => "mul",
            Req::BinPt { op: Bop::Add, .. } => "add-pt", Req::BinPt { op: Bop::Sub, .. } => "sub-pt", Req::BinPt { op: Bop::Mul, .. } => "mul-pt",
            Req::Neg { .. } => "neg", Req::ZeroCt { .. } => "zero-ct", Req::Relin { .. } => "relin",
            Req::MulRelin { kind: MulKind::Default, .. } => "multiplicator", Req::MulRelin { kind: MulKind::Custom(s), .. } => ["multiplicator-rhs-scaled", "multiplicator-lhs-scaled", "multiplicator-extended", "multiplicator-disjoint"][*s as usize & 3],
            Req::Dot { .. } => "dot", Req::Down { .. } => "switch-down", Req::To { .. } => "switch-to", Req::RotCol { .. } => "rot-col", Req::RotRow { .. } => "rot-row",
            Req::InnerSum { .. } => "inner-sum", Req::Expand { .. } => "expand", Req::RgswMul { .. } => "rgsw-mul", Req::ServerEnc { .. } => "server-encrypt",
        }
    }
    fn deps(&self) -> (Vec<u32>, Option<(char, u32)>) {
        match self {
            Req::PutCt { .. } | Req::PutRlk { .. } | Req::PutEk { .. } | Req::PutRgsw { .. } | Req::PutPk { .. } => (vec![], None),
            Req::Bin { a, b, .. } => (vec![*a, *b], None),
            Req::BinPt { a, .. } | Req::Neg { a, .. } | Req::ZeroCt { a, .. } | Req::Down { a, .. } | Req::To { a, .. } => (vec![*a], None),
            Req::Relin { a, rk, .. } => (vec![*a], Some(('r', *rk))),
            Req::MulRelin { a, b, rk, relin, .. } => (vec![*a, *b], relin.then_some(('r', *rk))),
            Req::Dot { a, .. } => (a.clone(), None),
            Req::RotCol { a, ek, .. } | Req::RotRow { a, ek, .. } | Req::InnerSum { a, ek, .. } | Req::Expand { a, ek, .. } => (vec![*a], Some(('e', *ek))),
            Req::RgswMul { a, g, .. } => (vec![*a], Some(('g', *g))),
            Req::ServerEnc { pk, .. } => (vec![], Some(('p', *pk))),
        }
    }
}

// ------------------------------------------------------------------ the server

/// What survives a crash of one server, per tenant.
#[derive(Clone, Default)]
pub struct Disk {
    pub par: Vec<Vec<u8>>,
    pub snap: Vec<Snapshot>,
    pub wal: Vec<(u32, u32, Req)>,
}
#[derive(Clone, Default)]
pub struct Snapshot {
    pub objs: BTreeMap<(char, u32), Vec<u8>>,
    pub rids: BTreeSet<u32>,
}

pub struct TState {
    pub par: Arc<BfvParameters>,
    pub ring: Ring,
    pub cts: BTreeMap<u32, Ciphertext>,
    pub rlk: BTreeMap<u32, RelinearizationKey>,
    pub ek: BTreeMap<u32, EvaluationKey>,
    pub rgsw: BTreeMap<u32, RGSWCiphertext>,
    pub pk: BTreeMap<u32, PublicKey>,
    mults: HashMap<(MulKind, bool, bool, u32, usize), Multiplicator>,
    rids: BTreeSet<u32>,
}
pub struct Server { pub t: Vec<TState> }

/// A multiplication strategy: extended basis and the product of its new primes.
/// Shapes 0 and 1 scale the right or left operand by P/Q and the product by t/P;
/// 2 and 3 lift both operands exactly and scale by t/Q, over Q P or over P alone.
pub fn strategy(own: &[u64], degree: usize, shape: u32) -> (Vec<u64>, Vec<u64>, f64) {
    // In bits: the product of a long chain squared does not fit a double.
    let q: f64 = own.iter().map(|x| (*x as f64).log2()).sum();
    let room = (degree as f64 * 16.0).log2();
    let want = match shape & 3 { 0 | 1 => q, 2 => q + room, _ => 2.0 * q + room };
    let bits = [62, 61, 55, 47][(shape >> 2) as usize & 3];
    let (mut ps, mut pf, mut k) = (vec![], 0.0, 0);
    while ps.is_empty() || pf < want {
        let p = crate::model::ntt_prime(bits, 2 * degree as u64, k).unwrap();
        k += 1;
        if !own.contains(&p) { ps.push(p); pf += (p as f64).log2() }
    }
    let ext = match (shape & 3 == 3, shape >> 4 & 1) { (true, _) => ps.clone(), (_, 0) => [own, &ps[..]].concat(), _ => [&ps[..], own].concat() };
    (ext, ps, pf)
}
pub fn custom(par: &Arc<BfvParameters>, level: usize, shape: u32) -> Multiplicator {
    let ctx = lib_ok("context_at_level", || par.context_at_level(level).cloned());
    let (ext, ps, _) = strategy(ctx.moduli(), par.degree(), shape);
    let rns = RnsContext::new(&ps).unwrap();
    let up = || ScalingFactor::new(rns.modulus(), ctx.modulus());
    let (l, r, post) = match shape & 3 {
        0 => (ScalingFactor::one(), up(), rns.modulus()),
        1 => (up(), ScalingFactor::one(), rns.modulus()),
        _ => (ScalingFactor::one(), ScalingFactor::one(), ctx.modulus()),
    };
    let post = ScalingFactor::new(par.plaintext_big(), post);
    if level == 0 && shape >> 5 & 1 == 1 {
        lib_ok("Multiplicator::new", || Multiplicator::new(l, r, &ext, post, par))
    } else {
        lib_ok("Multiplicator::new_leveled", || Multiplicator::new_leveled(l, r, &ext, post, level, par))
    }
}

impl TState {
    fn load(par_bytes: &[u8], snap: &Snapshot) -> Self {
        let par = Arc::new(lib_ok("BfvParameters::try_deserialize", || BfvParameters::try_deserialize(par_bytes)));
        let ring = Ring::new(par.degree(), par.plaintext_big());
        let mut s = TState { par: par.clone(), ring, cts: BTreeMap::new(), rlk: BTreeMap::new(), ek: BTreeMap::new(), rgsw: BTreeMap::new(), pk: BTreeMap::new(), mults: HashMap::new(), rids: snap.rids.clone() };
        for ((k, id), b) in &snap.objs { s.put(*k, *id, b); }
        s
    }
    fn put(&mut self, kind: char, id: u32, b: &[u8]) {
        let par = &self.par;
        match kind {
            'c' => { self.cts.insert(id, lib_ok("Ciphertext::from_bytes", || Ciphertext::from_bytes(b, par))); }
            'r' => { self.rlk.insert(id, lib_ok("RelinearizationKey::from_bytes", || RelinearizationKey::from_bytes(b, par))); }
            'e' => { self.ek.insert(id, lib_ok("EvaluationKey::from_bytes", || EvaluationKey::from_bytes(b, par))); }
            'g' => { self.rgsw.insert(id, lib_ok("RGSWCiphertext::from_bytes", || RGSWCiphertext::from_bytes(b, par))); }
            _ => { self.pk.insert(id, lib_ok("PublicKey::from_bytes", || PublicKey::from_bytes(b, par))); }
        }
    }
    fn snapshot(&self) -> Snapshot {
        let mut s = Snapshot { rids: self.rids.clone(), ..Default::default() };
        for (i, x) in &self.cts { s.objs.insert(('c', *i), lib("Ciphertext::to_bytes", || x.to_bytes())); }
        for (i, x) in &self.rlk { s.objs.insert(('r', *i), lib("RelinearizationKey::to_bytes", || x.to_bytes())); }
        for (i, x) in &self.ek { s.objs.insert(('e', *i), lib("EvaluationKey::to_bytes", || x.to_bytes())); }
        for (i, x) in &self.rgsw { s.objs.insert(('g', *i), lib("RGSWCiphertext::to_bytes", || x.to_bytes())); }
        for (i, x) in &self.pk { s.objs.insert(('p', *i), lib("PublicKey::to_bytes", || x.to_bytes())); }
        s
    }
    /// Execute one request. Returns (id, digest of the serialized result).
    pub fn exec(&mut self, rid: u32, r: &Req) -> Vec<(u32, u64)> {
        let outs = self.eval(r);
        let mut d = vec![];
        for (id, c) in outs {
            d.push((id, fnv(0xcbf29ce484222325, &lib("Ciphertext::to_bytes", || c.to_bytes()))));
            self.cts.insert(id, c);
        }
        self.rids.insert(rid);
        d
    }
    pub fn eval(&mut self, r: &Req) -> Vec<(u32, Ciphertext)> {
        let par = self.par.clone();
        let one = |o: u32, c: Ciphertext| vec![(o, c)];
        match r {
            Req::PutCt { bytes, out } => one(*out, lib_ok("Ciphertext::from_bytes", || Ciphertext::from_bytes(bytes, &par))),
            Req::PutRlk { id, bytes } => { self.put('r', *id, bytes); vec![] }
            Req::PutEk { id, bytes } => { self.put('e', *id, bytes); vec![] }
            Req::PutRgsw { id, bytes } => { self.put('g', *id, bytes); vec![] }
            Req::PutPk { id, bytes } => { self.put('p', *id, bytes); vec![] }
            Req::Bin { op, form, a, b, out } => {
                let (x, y) = (&self.cts[a], &self.cts[b]);
                let c = lib(r.name(), || match (op, form % 3) {
                    (Bop::Add, 0) => x + y,
                    (Bop::Add, 1) => x.clone() + y,
                    (Bop::Add, _) => { let mut z = x.clone(); z += y; z }
                    (Bop::Sub, 0) => x - y,
                    (Bop::Sub, 1) => x.clone() - y,
                    (Bop::Sub, _) => { let mut z = x.clone(); z -= y; z }
                    (Bop::Mul, _) => x * y,
                });
                one(*out, c)
            }
            Req::BinPt { op, form, a, pt, out } => {
                let x = &self.cts[a];
                let p = encode(&par, &self.ring, pt);
                let c = lib(r.name(), || match (op, form % 4) {
                    (Bop::Add, 0) => x + &p,
                    (Bop::Add, 1) => &p + x,
                    (Bop::Add, 2) => x.clone() + &p,
                    (Bop::Add, _) => { let mut z = x.clone(); z += &p; z }
                    (Bop::Sub, 0) => x - &p,
                    (Bop::Sub, 1) => &p - x,
                    (Bop::Sub, 2) => x.clone() - &p,
                    (Bop::Sub, _) => { let mut z = x.clone(); z -= &p; z }
                    (Bop::Mul, 0) => x * &p,
                    (Bop::Mul, 1) => x.clone() * &p,
                    (Bop::Mul, _) => { let mut z = x.clone(); z *= &p; z }
                });
                one(*out, c)
            }
            Req::Neg { form, a, out } => {
                let x = &self.cts[a];
                one(*out, lib("neg", || match form % 3 { 0 => -x, 1 => -x.clone(), _ => { let mut y = x.clone(); y.iter_mut().for_each(|p| *p = -&*p); y } }))
            }
            Req::ZeroCt { op, form, a, out } => {
                let x = &self.cts[a];
                let z = Ciphertext::zero(&par);
                let c = lib("zero-ct", || match (op, form % 4) {
                    (Bop::Add, 0) => &z + x,
                    (Bop::Add, 1) => x + &z,
                    (Bop::Add, 2) => { let mut w = z.clone(); w += x; w }
                    (Bop::Add, _) => { let mut w = x.clone(); w += &z; w }
                    (Bop::Sub, 0) => &z - x,
                    (Bop::Sub, 1) => x - &z,
                    (Bop::Sub, 2) => { let mut w = z.clone(); w -= x; w }
                    (Bop::Sub, _) => { let mut w = x.clone(); w -= &z; w }
                    (Bop::Mul, f) => {
                        let p = if f % 2 == 0 { &z * x } else { x * &z };
                        // The product with the zero ciphertext is the zero ciphertext.
                        ensure!(p.is_empty(), "zero-product", "{} is not the zero ciphertext but has {} polynomials", if f % 2 == 0 { "zero * ct" } else { "ct * zero" }, p.len());
                        &p + x
                    }
                });
                one(*out, c)
            }
            Req::Relin { a, rk, out } => {
                let mut c = self.cts[a].clone();
                lib_ok("relinearizes", || self.rlk[rk].relinearizes(&mut c));
                one(*out, c)
            }
            Req::MulRelin { kind, relin, ms, a, b, rk, level, out } => {
                let key = (*kind, *relin, *ms, *rk, *level);
                if !self.mults.contains_key(&key) {
                    let mut m = match kind {
                        MulKind::Default => lib_ok("Multiplicator::default", || Multiplicator::default(&self.rlk[rk])),
                        MulKind::Custom(s) => { let mut m = custom(&par, *level, *s); if *relin { lib_ok("enable_relinearization", || m.enable_relinearization(&self.rlk[rk])); } m }
                    };
                    if *ms { lib_ok("enable_mod_switching", || m.enable_mod_switching()); }
                    self.mults.insert(key, m);
                }
                let m = &self.mults[&key];
                one(*out, lib_ok("Multiplicator::multiply", || m.multiply(&self.cts[a], &self.cts[b])))
            }
            Req::Dot { a, pts, out } => {
                let ps: Vec<Plaintext> = pts.iter().map(|p| encode(&par, &self.ring, p)).collect();
                let cs: Vec<Ciphertext> = a.iter().map(|i| self.cts[i].clone()).collect();
                one(*out, lib_ok("dot_product_scalar", || dot_product_scalar(cs.iter(), ps.iter())))
            }
            Req::Down { a, out } => { let mut c = self.cts[a].clone(); lib_ok("switch_down", || c.switch_down()); one(*out, c) }
            Req::To { a, level, out } => { let mut c = self.cts[a].clone(); lib_ok("switch_to_level", || c.switch_to_level(*level)); one(*out, c) }
            Req::RotCol { a, ek, i, out } => one(*out, lib_ok("rotates_columns_by", || self.ek[ek].rotates_columns_by(&self.cts[a], *i))),
            Req::RotRow { a, ek, out } => one(*out, lib_ok("rotates_rows", || self.ek[ek].rotates_rows(&self.cts[a]))),
            Req::InnerSum { a, ek, out } => one(*out, lib_ok("computes_inner_sum", || self.ek[ek].computes_inner_sum(&self.cts[a]))),
            Req::Expand { a, ek, size, out } => {
                let v = lib_ok("expands", || self.ek[ek].expands(&self.cts[a], *size));
                ensure!(v.len() == *size, "expand-count", "expands(size={size}) returned {} ciphertexts", v.len());
                v.into_iter().enumerate().map(|(k, c)| (*out + k as u32, c)).collect()
            }
            Req::RgswMul { a, g, form, out } => one(*out, lib("rgsw-mul", || if form % 2 == 0 { &self.cts[a] * &self.rgsw[g] } else { &self.rgsw[g] * &self.cts[a] })),
            Req::ServerEnc { pk, pt, seed, out } => {
                let p = encode(&par, &self.ring, pt);
                let mut rng = LibRng::new(*seed);
                one(*out, lib_ok("PublicKey::try_encrypt", || self.pk[pk].try_encrypt(&p, &mut rng)))
            }
        }
    }
}

// ------------------------------------------------------------------ the client

#[derive(Clone, Debug)]
pub struct Meta {
    pub val: Val,
    pub v: f64,
    pub level: usize,
    pub len: usize,
    pub depth: u32,
}
impl Meta { fn simd(&self) -> bool { matches!(self.val, Val::Simd(_)) } }

#[derive(Clone, Debug, Default)]
pub struct EkMeta { pub cl: usize, pub kl: usize, pub cols: Vec<usize>, pub row: bool, pub sum: bool, pub exp: usize }

pub struct Tenant {
    pub spec: Spec,
    pub ring: Ring,
    pub b: Bounds,
    pub par: Arc<BfvParameters>,
    pub sk: SecretKey,
    pub s: Vec<i64>,
    pub pks: Vec<(PublicKey, f64)>,
    pub rlks: Vec<(u32, usize, usize)>,
    pub eks: Vec<(u32, EkMeta)>,
    pub rgs: Vec<(u32, Val, usize)>,
    pub pkids: Vec<u32>,
    pub m: BTreeMap<u32, Meta>,
    pub next: u32,
    pub nextk: u32,
    pub rids: u32,
    pub log: Vec<(u32, Req)>,
    pub digests: HashMap<u32, u64>,
    pub max_handles: usize,
}

#[derive(Clone, Copy)]
pub struct Profile {
    pub w: &'static [(K, u32)],
    pub want: Want,
    /// check bytes across replicas, duplicates and replays
    pub replicas: bool,
    /// check byte round trips and restored-object interchangeability
    pub durable: bool,
    /// check noise against the model and measure_noise
    pub noise: bool,
    pub crash: u32,
    pub net: u32,
    pub steps: (usize, usize),
    pub servers: (usize, usize),
    pub tenants: u32,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum K { Enc, SrvEnc, Add, Sub, Mul, AddPt, SubPt, MulPt, Neg, Zero, Relin, MulDef, MulAsym, Dot, Down, To, RotCol, RotRow, Sum, Expand, Rgsw, NewRlk, NewEk, NewRgsw, NewPk, Fetch }

impl Tenant {
    fn lmax(&self) -> usize { self.b.max_level() }
    /// levels at which a plaintext can be carried at all
    fn usable(&self, level: usize) -> bool { self.b.q[level] > 8.0 * self.b.t && self.b.fresh_pk(level) < self.b.cap(level) }
    fn fits(&self, v: f64, level: usize) -> bool { v < self.b.cap(level) }
    fn sel(&self, r: &mut Rng, f: impl Fn(&Meta) -> bool) -> Option<u32> {
        let v: Vec<u32> = self.m.iter().filter(|(_, m)| f(m)).map(|(i, _)| *i).collect();
        if v.is_empty() { None } else if r.pct(50) { v.last().copied() } else { Some(*r.pick(&v)) }
    }
    fn fresh(&mut self, k: u32) -> u32 { let o = self.next; self.next += k; o }
    fn pt(&self, r: &mut Rng, simd: bool, level: usize) -> PtSpec { PtSpec { val: self.ring.random(r, simd), level, form: pick_form(r) } }
    /// small plaintext keeps multiplication noise in budget on large t
    fn pt_small(&self, r: &mut Rng, simd: bool, level: usize) -> (PtSpec, f64) {
        if !simd && r.pct(60) {
            let mut v = vec![BigUint::zero(); self.ring.n];
            let k = r.range(1, 3);
            let mut l1 = 0.0;
            for _ in 0..k {
                let i = r.below(self.ring.n);
                // The library lifts plaintexts to [0, t) or to the centred
                // interval; t-1 is charged as t to stay valid either way.
                v[i] = match r.below(3) { 0 => big(1), 1 => &self.ring.t - 1u32, _ => big(r.below64(16)) % &self.ring.t };
            }
            for x in &v { l1 += x.to_f64().unwrap() }
            (PtSpec { val: Val::Poly(v), level, form: pick_form(r) }, l1.max(1.0))
        } else {
            (self.pt(r, simd, level), self.b.n * self.b.t)
        }
    }
}

pub fn rand_level(r: &mut Rng, t: &Tenant) -> Option<usize> {
    let ls: Vec<usize> = (0..=t.lmax()).filter(|l| t.usable(*l)).collect();
    if ls.is_empty() { None } else if r.pct(45) { Some(ls[0]) } else { Some(*r.pick(&ls)) }
}

/// Round trip of one key object: bytes, equality, interchangeability.
macro_rules! trip {
    ($on:expr, $what:literal, $ty:ty, $x:expr, $par:expr) => {{
        let b = lib(concat!($what, "::to_bytes"), || $x.to_bytes());
        if $on {
            let y = lib_ok(concat!($what, "::from_bytes"), || <$ty>::from_bytes(&b, $par));
            ensure!(y == $x, concat!("roundtrip-", $what), "{} differs from the object restored from its bytes", $what);
            ensure!(y.to_bytes() == b, concat!("roundtrip-", $what), "{}: the restored object's bytes differ from those it was restored from", $what);
        }
        b
    }};
}

impl Tenant {
    pub fn new(sim: &mut Sim, p: &Profile) -> Self {
        let mut r = sim.rng.clone();
        let mut want = p.want;
        if sim.thorough { want.max_deg_log += 1; }
        let spec = gen_spec(&mut r, want);
        sim.rng = r;
        let par = lib_ok("BfvParametersBuilder::build_arc", || spec.build());
        sim.log(&format!("params n={} t={} var={} q={:?}", spec.n, spec.t, spec.var, spec.moduli));
        let mut lr = sim.lib_rng();
        let sk = lib("SecretKey::random", || SecretKey::random(&par, &mut lr));
        let s = sk_coeffs(&sk);
        ensure!(s.len() == spec.n && s.iter().all(|x| x.unsigned_abs() as usize <= 2 * spec.var), "secret-key-shape", "secret key has {} coefficients, max magnitude {:?}", s.len(), s.iter().map(|x| x.unsigned_abs()).max());
        if p.durable {
            let b = sk.to_bytes();
            let sk2 = lib_ok("SecretKey::from_bytes", || SecretKey::from_bytes(&b, &par));
            ensure!(sk2 == sk && sk2.to_bytes() == b, "roundtrip-SecretKey", "SecretKey does not survive its byte form");
        }
        let ring = spec.ring();
        let b = spec.bounds();
        let max_handles = if spec.n <= 64 { 40 } else { 24 };
        Tenant { ring, b, par, sk, s, pks: vec![], rlks: vec![], eks: vec![], rgs: vec![], pkids: vec![], m: BTreeMap::new(), next: 1, nextk: 1, rids: 0, log: vec![], digests: HashMap::new(), spec, max_handles }
    }

    /// Generate one client action; returns the requests to submit.
    fn act(&mut self, sim: &mut Sim, p: &Profile, k: K) -> Vec<Req> {
        let mut r = sim.rng.clone();
        let out = self.act_inner(sim, &mut r, p, k).unwrap_or_default();
        sim.rng = r;
        out
    }
    fn simd_choice(&self, r: &mut Rng) -> bool { self.ring.simd && r.pct(60) }
    fn act_inner(&mut self, sim: &mut Sim, r: &mut Rng, p: &Profile, k: K) -> Option<Vec<Req>> {
        let b = self.b.clone();
        let n = self.ring.n;
        let par = self.par.clone();
        match k {
            K::Enc => {
                let level = rand_level(r, self)?;
                let simd = self.simd_choice(r);
                let pt = self.pt(r, simd, level);
                let enc = encode(&par, &self.ring, &pt);
                let mut lr = sim.lib_rng();
                let use_pk = r.pct(50);
                let (ct, v) = if use_pk {
                    if self.pks.is_empty() || r.pct(10) {
                        let pk = lib("PublicKey::new", || PublicKey::new(&self.sk, &mut lr));
                        let by = trip!(p.durable, "PublicKey", PublicKey, pk, &par);
                        let pk = if r.pct(50) { lib_ok("PublicKey::from_bytes", || PublicKey::from_bytes(&by, &par)) } else { pk };
                        self.pks.push((pk, 0.0));
                    }
                    let pk = &self.pks[r.below(self.pks.len())].0;
                    let lr0 = lr.clone();
                    let ct = lib_ok("PublicKey::try_encrypt", || pk.try_encrypt(&enc, &mut lr));
                    if p.replicas {
                        let (pk, enc) = (pk.clone(), enc.clone());
                        elsewhere(sim, r, "PublicKey::try_encrypt", &ct.to_bytes(), move || lib_ok("PublicKey::try_encrypt", || pk.try_encrypt(&enc, &mut lr0.clone())).to_bytes());
                    }
                    (ct, b.fresh_pk(level))
                } else {
                    (lib_ok("SecretKey::try_encrypt", || self.sk.try_encrypt(&enc, &mut lr)), b.fresh_sk())
                };
                ensure!(ct.len() == 2 && level_of(&par, &ct) == level, "shape", "encryption at level {level} produced {} polynomials at level {}", ct.len(), level_of(&par, &ct));
                let bytes = trip!(p.durable, "Ciphertext", Ciphertext, ct, &par);
                sim.digest(if use_pk { "encrypt-pk" } else { "encrypt-sk" }, &bytes);
                let o = self.fresh(1);
                self.m.insert(o, Meta { val: pt.val, v, level, len: 2, depth: 0 });
                Some(vec![Req::PutCt { bytes, out: o }])
            }
            K::NewPk => {
                let mut lr = sim.lib_rng();
                let pk = lib("PublicKey::new", || PublicKey::new(&self.sk, &mut lr));
                let bytes = trip!(p.durable, "PublicKey", PublicKey, pk, &par);
                let id = self.nextk;
                self.nextk += 1;
                self.pkids.push(id);
                self.pks.push((pk, 0.0));
                Some(vec![Req::PutPk { id, bytes }])
            }
            K::SrvEnc => {
                if self.pkids.is_empty() { return self.act_inner(sim, r, p, K::NewPk); }
                let level = rand_level(r, self)?;
                let simd = self.simd_choice(r);
                let pt = self.pt(r, simd, level);
                let o = self.fresh(1);
                self.m.insert(o, Meta { val: pt.val.clone(), v: b.fresh_pk(level), level, len: 2, depth: 0 });
                Some(vec![Req::ServerEnc { pk: *r.pick(&self.pkids), pt, seed: sim.lib_seed(), out: o }])
            }
            K::Add | K::Sub => {
                let a = self.sel(r, |_| true)?;
                let ma = self.m[&a].clone();
                let bb = self.sel(r, |m| m.level == ma.level && m.len == ma.len && m.simd() == ma.simd() && self.fits(ma.v + m.v + 1.0, m.level))?;
                let mb = self.m[&bb].clone();
                let o = self.fresh(1);
                let (op, val) = if k == K::Add { (Bop::Add, self.ring.add(&ma.val, &mb.val)) } else { (Bop::Sub, self.ring.sub(&ma.val, &mb.val)) };
                self.m.insert(o, Meta { val, v: ma.v + mb.v + 1.0, depth: ma.depth.max(mb.depth) + 1, ..ma });
                Some(vec![Req::Bin { op, form: pick_form(r), a, b: bb, out: o }])
            }
            K::Mul => {
                let a = self.sel(r, |m| m.len <= 3)?;
                let ma = self.m[&a].clone();
                let cost = |m: &Meta| b.mul(ma.level, ma.v + 1.0, ma.len, m.v + 1.0, m.len);
                let ok = |m: &Meta| m.level == ma.level && m.len <= 3 && m.len + ma.len <= 6 && m.simd() == ma.simd() && cost(m) < b.cap(ma.level);
                let bb = if r.pct(25) && ok(&ma) { a } else { self.sel(r, ok)? };
                let mb = self.m[&bb].clone();
                let v = cost(&mb);
                let o = self.fresh(1);
                self.m.insert(o, Meta { val: self.ring.mul(&ma.val, &mb.val), v, level: ma.level, len: ma.len + mb.len - 1, depth: ma.depth.max(mb.depth) + 1 });
                Some(vec![Req::Bin { op: Bop::Mul, form: 0, a, b: bb, out: o }])
            }
            K::AddPt | K::SubPt => {
                let a = self.sel(r, |m| self.usable(m.level) && self.fits(m.v + 2.0, m.level))?;
                let ma = self.m[&a].clone();
                let pt = self.pt(r, ma.simd(), ma.level);
                let form = pick_form(r);
                let o = self.fresh(1);
                let (op, val) = if k == K::AddPt { (Bop::Add, self.ring.add(&ma.val, &pt.val)) } else if form % 4 == 1 { (Bop::Sub, self.ring.sub(&pt.val, &ma.val)) } else { (Bop::Sub, self.ring.sub(&ma.val, &pt.val)) };
                self.m.insert(o, Meta { val, v: ma.v + 2.0, depth: ma.depth + 1, ..ma });
                Some(vec![Req::BinPt { op, form, a, pt, out: o }])
            }
            K::MulPt => {
                let a = self.sel(r, |m| self.usable(m.level))?;
                let ma = self.m[&a].clone();
                let (pt, l1) = self.pt_small(r, ma.simd(), ma.level);
                let v = (ma.v + 1.0) * l1 + 2.0;
                if !self.fits(v, ma.level) { return None; }
                let o = self.fresh(1);
                self.m.insert(o, Meta { val: self.ring.mul(&ma.val, &pt.val), v, depth: ma.depth + 1, ..ma });
                Some(vec![Req::BinPt { op: Bop::Mul, form: pick_form(r), a, pt, out: o }])
            }
            K::Neg => {
                let a = self.sel(r, |m| self.fits(m.v + 1.0, m.level))?;
                let ma = self.m[&a].clone();
                let o = self.fresh(1);
                self.m.insert(o, Meta { val: self.ring.neg(&ma.val), v: ma.v + 1.0, depth: ma.depth + 1, ..ma });
                Some(vec![Req::Neg { form: pick_form(r), a, out: o }])
            }
            K::Zero => {
                let a = self.sel(r, |m| self.fits(m.v + 1.0, m.level))?;
                let ma = self.m[&a].clone();
                let op = *r.pick(&[Bop::Add, Bop::Sub, Bop::Mul]);
                let form = pick_form(r);
                let val = if op == Bop::Sub && form % 4 % 2 == 0 && form % 4 != 3 { self.ring.neg(&ma.val) } else { ma.val.clone() };
                let o = self.fresh(1);
                self.m.insert(o, Meta { val, v: ma.v + 1.0, depth: ma.depth + 1, ..ma });
                Some(vec![Req::ZeroCt { op, form, a, out: o }])
            }
            K::NewRlk => {
                if self.lmax() == 0 { return None; }
                let cl = if r.pct(50) { 0 } else { r.below(self.lmax() + 1) };
                let kl = if r.pct(50) { 0 } else { r.below(cl.min(self.lmax() - 1) + 1) };
                let kl = kl.min(self.lmax() - 1);
                let mut lr = sim.lib_rng();
                let lr0 = lr.clone();
                let rk = if cl == 0 && kl == 0 && r.pct(50) { lib_ok("RelinearizationKey::new", || RelinearizationKey::new(&self.sk, &mut lr)) } else { lib_ok("RelinearizationKey::new_leveled", || RelinearizationKey::new_leveled(&self.sk, cl, kl, &mut lr)) };
                let bytes = trip!(p.durable, "RelinearizationKey", RelinearizationKey, rk, &par);
                sim.digest("rlk", &bytes);
                if p.replicas {
                    let sk = self.sk.clone();
                    elsewhere(sim, r, "RelinearizationKey::new_leveled", &bytes, move || lib_ok("RelinearizationKey::new_leveled", || RelinearizationKey::new_leveled(&sk, cl, kl, &mut lr0.clone())).to_bytes());
                }
                let id = self.nextk;
                self.nextk += 1;
                self.rlks.push((id, cl, kl));
                Some(vec![Req::PutRlk { id, bytes }])
            }
            K::Relin => {
                if self.rlks.is_empty() { return self.act_inner(sim, r, p, K::NewRlk); }
                let (rk, cl, kl) = *r.pick(&self.rlks);
                let ks = b.ks(cl, kl);
                let mut pre = vec![];
                let a = match self.sel(r, |m| m.len == 3 && m.level == cl && self.fits(m.v + ks, cl)) {
                    Some(a) => a,
                    None => {
                        // multiply first, at the key's level
                        let f = |m: &Meta| m.len == 2 && m.level == cl && b.mul(cl, m.v + 1.0, 2, m.v + 1.0, 2) + ks < b.cap(cl);
                        let x = self.sel(r, f)?;
                        let mx = self.m[&x].clone();
                        let y = self.sel(r, |m| f(m) && m.simd() == mx.simd() && b.mul(cl, mx.v + 1.0, 2, m.v + 1.0, 2) + ks < b.cap(cl))?;
                        let my = self.m[&y].clone();
                        let o = self.fresh(1);
                        self.m.insert(o, Meta { val: self.ring.mul(&mx.val, &my.val), v: b.mul(cl, mx.v + 1.0, 2, my.v + 1.0, 2), level: cl, len: 3, depth: mx.depth.max(my.depth) + 1 });
                        pre.push(Req::Bin { op: Bop::Mul, form: 0, a: x, b: y, out: o });
                        o
                    }
                };
                let ma = self.m[&a].clone();
                let o = self.fresh(1);
                self.m.insert(o, Meta { v: ma.v + ks, len: 2, depth: ma.depth + 1, ..ma });
                pre.push(Req::Relin { a, rk, out: o });
                Some(pre)
            }
            K::MulDef | K::MulAsym => {
                let kind = if k == K::MulDef { MulKind::Default } else { MulKind::Custom(r.u64() as u32 & 63) };
                let relin = kind == MulKind::Default || r.pct(60);
                let (rk, cl, kl) = if relin || (r.pct(30) && !self.rlks.is_empty()) {
                    if self.rlks.is_empty() { return self.act_inner(sim, r, p, K::NewRlk); }
                    *r.pick(&self.rlks)
                } else { (0, r.below(self.lmax() + 1), 0) };
                let ms = cl < self.lmax() && r.pct(40);
                let len = if relin { 2 } else { 3 };
                let extra = match kind {
                    MulKind::Custom(s) if s & 3 < 2 => b.mul_asym_extra(cl, strategy(&self.spec.moduli[..self.spec.moduli.len() - cl], n, s).2.exp2()),
                    _ => 0.0,
                };
                let cost = |x: &Meta, y: &Meta| {
                    let mut v = b.mul(cl, x.v + 1.0, 2, y.v + 1.0, 2) + extra;
                    if relin { v += b.ks(cl, kl) }
                    if v > b.cap(cl) { return f64::INFINITY; }
                    if ms { v = b.switch_down(cl, v + 1.0, len) }
                    v
                };
                let ol = if ms { cl + 1 } else { cl };
                let f = |m: &Meta| m.len == 2 && m.level == cl && cost(m, m) < b.cap(ol);
                let x = self.sel(r, f)?;
                let mx = self.m[&x].clone();
                let y = self.sel(r, |m| f(m) && m.simd() == mx.simd() && cost(&mx, m) < b.cap(ol))?;
                let my = self.m[&y].clone();
                let o = self.fresh(1);
                self.m.insert(o, Meta { val: self.ring.mul(&mx.val, &my.val), v: cost(&mx, &my), level: ol, len, depth: mx.depth.max(my.depth) + 1 });
                Some(vec![Req::MulRelin { kind, relin, ms, a: x, b: y, rk, level: cl, out: o }])
            }
            K::Dot => {
                let a0 = self.sel(r, |m| self.usable(m.level))?;
                let m0 = self.m[&a0].clone();
                // long enough at times for sums of products beyond 128 bits
                let long = self.ring.n <= 64 && r.pct(20);
                let want = if long { r.range(64, 200) } else { match r.below(4) { 0 => 1, 1 => r.range(2, 4), 2 => r.range(5, 20), _ => r.range(1, 8) } };
                let cands: Vec<u32> = self.m.iter().filter(|(_, m)| m.level == m0.level && m.len == m0.len && m.simd() == m0.simd()).map(|(i, _)| *i).collect();
                let (mut ids, mut pts, mut v, mut val) = (vec![], vec![], 0.0, self.ring.zero(m0.simd()));
                let mut dep = 0;
                for _ in 0..want {
                    let c = *r.pick(&cands);
                    let mc = &self.m[&c];
                    let (pt, l1) = if long && !m0.simd() {
                        let mut v = vec![BigUint::zero(); self.ring.n];
                        v[r.range(1, self.ring.n - 1)] = big(1);
                        (PtSpec { val: Val::Poly(v), level: m0.level, form: pick_form(r) }, 1.0)
                    } else { self.pt_small(r, m0.simd(), m0.level) };
                    let dv = (mc.v + 1.0) * l1 + 2.0;
                    if v + dv > b.cap(m0.level) { continue; }
                    v += dv;
                    dep = dep.max(mc.depth);
                    val = self.ring.add(&val, &self.ring.mul(&mc.val, &pt.val));
                    ids.push(c);
                    pts.push(pt);
                }
                if ids.is_empty() { return None; }
                let o = self.fresh(1);
                self.m.insert(o, Meta { val, v, level: m0.level, len: m0.len, depth: dep + 1 });
                Some(vec![Req::Dot { a: ids, pts, out: o }])
            }
            K::Down | K::To => {
                let step = |m: &Meta, to: usize| { let mut v = m.v; for l in m.level..to { v = b.switch_down(l, v + 1.0, m.len) } v };
                let a = self.sel(r, |m| m.level < self.lmax() && step(m, m.level + 1) < b.cap(m.level + 1)).or_else(|| if k == K::To { self.sel(r, |_| true) } else { None })?;
                let ma = self.m[&a].clone();
                let mut to = if k == K::Down { ma.level + 1 } else { r.range(ma.level, self.lmax()) };
                while to > ma.level && (ma.level + 1..=to).any(|l| step(&ma, l) >= b.cap(l)) { to -= 1 }
                if k == K::Down && to == ma.level { return None; }
                let o = self.fresh(1);
                self.m.insert(o, Meta { v: step(&ma, to), level: to, depth: ma.depth + 1, ..ma });
                Some(vec![if k == K::Down { Req::Down { a, out: o } } else { Req::To { a, level: to, out: o } }])
            }
            K::NewEk => {
                let cl = if r.pct(50) { 0 } else { r.below(self.lmax() + 1) };
                let kl = if r.pct(50) { 0 } else { r.below(cl + 1) };
                let mut e = EkMeta { cl, kl, ..Default::default() };
                let mut lr = sim.lib_rng();
                let short = cl == 0 && kl == 0 && r.pct(50);
                for _ in 0..r.below(4) { e.cols.push(r.range(1, n / 2 - 1)) }
                e.row = r.pct(50);
                e.sum = r.pct(45);
                if r.pct(50) { e.exp = r.range(1, (n.ilog2() as usize).min(4)) }
                let make = move |sk: &SecretKey, e: &EkMeta, lr: &mut LibRng| {
                    let mut bd = if short { lib_ok("EvaluationKeyBuilder::new", || EvaluationKeyBuilder::new(sk)) } else { lib_ok("EvaluationKeyBuilder::new_leveled", || EvaluationKeyBuilder::new_leveled(sk, cl, kl)) };
                    for i in &e.cols { lib_ok("enable_column_rotation", || bd.enable_column_rotation(*i).map(|_| ())); }
                    if e.row { lib_ok("enable_row_rotation", || bd.enable_row_rotation().map(|_| ())); }
                    if e.sum { lib_ok("enable_inner_sum", || bd.enable_inner_sum().map(|_| ())); }
                    if e.exp > 0 { lib_ok("enable_expansion", || bd.enable_expansion(e.exp).map(|_| ())); }
                    lib_ok("EvaluationKeyBuilder::build", || bd.build(lr))
                };
                let lr0 = lr.clone();
                let ek = make(&self.sk, &e, &mut lr);
                self.supports(&ek, &e, "fresh");
                let bytes = trip!(p.durable, "EvaluationKey", EvaluationKey, ek, &par);
                if p.durable { self.supports(&lib_ok("EvaluationKey::from_bytes", || EvaluationKey::from_bytes(&bytes, &par)), &e, "restored"); }
                sim.digest("ek", &bytes);
                if p.replicas {
                    let (sk, e) = (self.sk.clone(), e.clone());
                    elsewhere(sim, r, "EvaluationKeyBuilder::build", &bytes, move || make(&sk, &e, &mut lr0.clone()).to_bytes());
                }
                sim.log(&format!("ek {e:?} {} bytes", bytes.len()));
                let id = self.nextk;
                self.nextk += 1;
                self.eks.push((id, e));
                Some(vec![Req::PutEk { id, bytes }])
            }
            K::RotCol | K::RotRow | K::Sum | K::Expand => {
                let f = |e: &EkMeta| match k { K::RotCol => !e.cols.is_empty() || e.sum, K::RotRow => e.row || e.sum, K::Sum => e.sum, _ => e.exp > 0 };
                let c: Vec<(u32, EkMeta)> = self.eks.iter().filter(|(_, e)| f(e)).cloned().collect();
                if c.is_empty() { return self.act_inner(sim, r, p, K::NewEk); }
                let (ek, e) = r.pick(&c).clone();
                let ks = b.ks(e.cl, e.kl) + 2.0;
                let logn = n.ilog2() as i32;
                let cost = |v: f64| match k {
                    K::Sum => (v + 2.0 * ks) * 2f64.powi(logn) * 1.0 + 2.0 * n as f64,
                    K::Expand => (v + 2.0 * ks) * 2f64.powi(e.exp as i32) + 2.0 * n as f64,
                    _ => v + ks,
                };
                let a = self.sel(r, |m| m.len == 2 && m.level == e.cl && cost(m.v) < b.cap(e.cl) && (k != K::Expand || !m.simd()))?;
                let ma = self.m[&a].clone();
                let v = cost(ma.v);
                match k {
                    K::RotCol => {
                        let mut is = e.cols.clone();
                        if e.sum { let mut i = 1; while i < n / 2 { is.push(i); i *= 2 } }
                        let i = *r.pick(&is);
                        let o = self.fresh(1);
                        self.m.insert(o, Meta { val: self.ring.rot_cols(&ma.val, i), v, depth: ma.depth + 1, ..ma });
                        Some(vec![Req::RotCol { a, ek, i, out: o }])
                    }
                    K::RotRow => {
                        let o = self.fresh(1);
                        self.m.insert(o, Meta { val: self.ring.rot_rows(&ma.val), v, depth: ma.depth + 1, ..ma });
                        Some(vec![Req::RotRow { a, ek, out: o }])
                    }
                    K::Sum => {
                        let o = self.fresh(1);
                        self.m.insert(o, Meta { val: self.ring.inner_sum(&ma.val), v, depth: ma.depth + 1, ..ma });
                        Some(vec![Req::InnerSum { a, ek, out: o }])
                    }
                    _ => {
                        let size = r.range(1, 1 << e.exp);
                        let lev = size.next_power_of_two().ilog2() as usize;
                        let o = self.fresh(size as u32);
                        let Val::Poly(mv) = &ma.val else { return None };
                        for i in 0..size {
                            let val = if lev == 0 { ma.val.clone() } else { Val::Poly(self.ring.expand(mv, lev, i)) };
                            self.m.insert(o + i as u32, Meta { val, v: if lev == 0 { ma.v } else { v }, depth: ma.depth + 1, ..ma.clone() });
                        }
                        Some(vec![Req::Expand { a, ek, size, out: o }])
                    }
                }
            }
            K::NewRgsw => {
                let level = rand_level(r, self)?;
                let simd = self.simd_choice(r);
                let (mut pt, _) = self.pt_small(r, simd, level);
                if !simd && r.pct(50) {
                    // a selector bit or a monomial
                    let mut v = vec![BigUint::zero(); n];
                    let at = if r.pct(50) { 0 } else { r.below(n) };
                    v[at] = big(r.below64(2));
                    pt.val = Val::Poly(v);
                }
                let enc = encode(&par, &self.ring, &pt);
                let mut lr = sim.lib_rng();
                let lr0 = lr.clone();
                let g: RGSWCiphertext = lib_ok("SecretKey::try_encrypt(RGSW)", || self.sk.try_encrypt(&enc, &mut lr));
                let bytes = trip!(p.durable, "RGSWCiphertext", RGSWCiphertext, g, &par);
                sim.digest("rgsw", &bytes);
                if p.replicas {
                    let sk = self.sk.clone();
                    elsewhere(sim, r, "RGSW encryption", &bytes, move || { let g: RGSWCiphertext = lib_ok("SecretKey::try_encrypt(RGSW)", || sk.try_encrypt(&enc, &mut lr0.clone())); g.to_bytes() });
                }
                let id = self.nextk;
                self.nextk += 1;
                self.rgs.push((id, pt.val, level));
                Some(vec![Req::PutRgsw { id, bytes }])
            }
            K::Rgsw => {
                if self.rgs.is_empty() { return self.act_inner(sim, r, p, K::NewRgsw); }
                let (g, gv, gl) = r.pick(&self.rgs).clone();
                let gsimd = matches!(gv, Val::Simd(_));
                let l1 = match &gv { Val::Poly(v) => v.iter().map(|x| x.to_f64().unwrap()).sum::<f64>().max(1.0), _ => b.n * b.t };
                let cost = |v: f64| b.rgsw(gl, v + 1.0, l1);
                let a = self.sel(r, |m| m.len == 2 && m.level == gl && m.simd() == gsimd && cost(m.v) < b.cap(gl))?;
                let ma = self.m[&a].clone();
                let o = self.fresh(1);
                self.m.insert(o, Meta { val: self.ring.mul(&ma.val, &gv), v: cost(ma.v), depth: ma.depth + 1, ..ma });
                Some(vec![Req::RgswMul { a, g, form: pick_form(r), out: o }])
            }
            K::Fetch => None,
        }
    }
    /// supports_* must announce exactly what was enabled.
    pub fn supports(&self, ek: &EvaluationKey, e: &EkMeta, who: &str) {
        let n = self.ring.n;
        ensure!(ek.supports_row_rotation() == (e.row || e.sum), "supports", "{who} key {e:?}: supports_row_rotation() = {}", ek.supports_row_rotation());
        let mut g: BTreeSet<usize> = BTreeSet::new();
        let ex = |i: usize| { let mut x = 1usize; for _ in 0..i { x = x * 3 % (2 * n) } x };
        for i in &e.cols { g.insert(ex(*i)); }
        if e.sum { let mut i = 1; while i < n / 2 { g.insert(ex(i)); i *= 2 } }
        for l in 0..e.exp { g.insert((n >> l) + 1); }
        if e.row || e.sum { g.insert(2 * n - 1); }
        let mut all = e.row || e.sum;
        let mut i = 1;
        while i < n / 2 { all &= g.contains(&ex(i)); i *= 2 }
        ensure!(ek.supports_inner_sum() == all, "supports", "{who} key {e:?}: supports_inner_sum() = {}", ek.supports_inner_sum());
        for i in 0..n / 2 + 2 {
            let s = ek.supports_column_rotation_by(i);
            let w = i >= 1 && i < n / 2 && g.contains(&ex(i));
            ensure!(s == w, "supports", "{who} key {e:?}: supports_column_rotation_by({i}) = {s}");
        }
        for l in 0..=n.ilog2() as usize + 1 {
            let s = ek.supports_expansion(l);
            let w = l == 0 || (l <= n.ilog2() as usize && (0..l).all(|k| g.contains(&((n >> k) + 1))));
            ensure!(s == w, "supports", "{who} key {e:?}: supports_expansion({l}) = {s}");
        }
    }

    /// The client's verdict on the bytes of one handle.
    pub fn verify(&self, sim: &mut Sim, p: &Profile, id: u32, bytes: &[u8], form: u8) {
        let m = &self.m[&id];
        let par = &self.par;
        let ct = lib_ok("Ciphertext::from_bytes", || Ciphertext::from_bytes(bytes, par));
        ensure!(level_of(par, &ct) == m.level, "level", "handle {id}: level {} instead of {}", level_of(par, &ct), m.level);
        ensure!(ct.len() == m.len, "length", "handle {id}: {} polynomials instead of {}", ct.len(), m.len);
        if p.durable { ensure!(ct.to_bytes() == bytes, "roundtrip-Ciphertext", "handle {id}: to_bytes(from_bytes(b)) differs from b"); }
        let pt = lib_ok("SecretKey::try_decrypt", || self.sk.try_decrypt(&ct));
        let got = decode(&pt, &self.ring, m.simd(), m.level, form);
        if got != m.val {
            violate!("wrong-plaintext", "handle {id} (level {}, {} polynomials, depth {}, noise bound 2^{:.1} of 2^{:.1}) decrypts to {} instead of {}", m.level, m.len, m.depth, m.v.log2(), self.b.cap(m.level).log2(), short(&got), short(&m.val));
        }
        let coeffs = match decode(&pt, &self.ring, false, m.level, form.wrapping_add(1)) { Val::Poly(v) => v, _ => unreachable!() };
        if self.ring.n <= 128 || p.noise || form % 4 == 0 {
            let q = modulus_at(par, m.level);
            let c: Vec<Vec<BigUint>> = ct.iter().map(lift).collect();
            let ph = crate::model::phase(&c, &self.s, &q);
            let def = crate::model::decrypt_by_definition(&ph, &q, &self.ring.t);
            ensure!(def == coeffs, "decrypt-definition", "handle {id}: try_decrypt disagrees with round(t*phase/Q) mod t");
            if p.noise {
                let noise = crate::model::noise(&ph, &coeffs, &q, &self.ring.t);
                let max = noise_max(&noise);
                ensure!(max.to_f64().unwrap() <= m.v, "noise-bound", "handle {id} (level {}, {} polynomials, depth {}): noise 2^{:.2} exceeds the worst-case bound 2^{:.2}", m.level, m.len, m.depth, max.to_f64().unwrap().log2(), m.v.log2());
                let meas = lib_ok("measure_noise", || unsafe { self.sk.measure_noise(&ct) });
                // measure_noise takes min(bits(c), bits(Q - c)) per coefficient.
                ensure!(meas as u64 == max.bits(), "measure-noise", "handle {id}: measure_noise reports {meas} bits, the noise polynomial has {} bits", max.bits());
                if m.depth == 0 { ensure!(noise.iter().any(|x| !x.1.is_zero()) || self.ring.n < 64, "noise-free", "handle {id}: a fresh ciphertext carries no noise at all"); }
            }
        }
        sim.op("verify");
        sim.state(mix(mix(m.depth as u64, m.level as u64), mix(m.len as u64, (m.v.log2() as u64) << 8 | m.simd() as u64)));
    }
}
fn short(v: &Val) -> String { let s = match v { Val::Poly(v) => format!("{:?}", v.iter().map(|x| x.to_string()).collect::<Vec<_>>()), Val::Simd(v) => format!("{v:?}") }; if s.len() > 160 { format!("{}…", &s[..s.char_indices().nth(150).map_or(s.len(), |x| x.0)]) } else { s } }

// ------------------------------------------------------------------ the network

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Ev { Deliver(usize, usize, u32), Ack(usize, usize, u32), Retry(usize, usize, u32), Restart(usize) }

struct Srv { node: Option<Node<Server>>, disk: Disk, done: Vec<BTreeSet<u32>>, parked: Vec<(usize, u32)>, boots: u64, slow: u64 }

pub struct Net {
    q: BinaryHeap<Reverse<(u64, u64, Ev)>>,
    seq: u64,
    srv: Vec<Srv>,
    acked: BTreeSet<(usize, usize, u32)>,
    /// partition: server unreachable until this time
    cut: Vec<u64>,
    tries: HashMap<(usize, usize, u32), u32>,
}

impl Net {
    fn push(&mut self, at: u64, e: Ev) { self.seq += 1; self.q.push(Reverse((at, self.seq, e))) }
    fn boot(sim: &Sim, disk: &Disk, k: usize, boots: u64) -> Node<Server> {
        let d = disk.clone();
        Node::spawn(mix(sim.seed, 0xB007 + k as u64 * 1000 + boots), move || {
            let mut t: Vec<TState> = d.par.iter().zip(&d.snap).map(|(p, s)| TState::load(p, s)).collect();
            for (ti, rid, r) in &d.wal { t[*ti as usize].exec(*rid, r); }
            Server { t }
        })
    }
    fn new(sim: &Sim, n: usize, pars: &[Vec<u8>]) -> Self {
        let mut net = Net { q: BinaryHeap::new(), seq: 0, srv: vec![], acked: BTreeSet::new(), cut: vec![0; n], tries: HashMap::new() };
        for k in 0..n {
            let disk = Disk { par: pars.to_vec(), snap: vec![Snapshot::default(); pars.len()], wal: vec![] };
            let node = Some(Net::boot(sim, &disk, k, 0));
            net.srv.push(Srv { node, disk, done: vec![BTreeSet::new(); pars.len()], parked: vec![], boots: 0, slow: 1 });
        }
        net
    }
    fn send(&mut self, sim: &mut Sim, p: &Profile, k: usize, t: usize, rid: u32) {
        let base = sim.now + 50 + sim.frand(400) as u64 * self.srv[k].slow;
        self.push(sim.now + 20_000, Ev::Retry(k, t, rid));
        if sim.fault("net-drop", 40 * p.net) { return; }
        if self.cut[k] > sim.now { return; }
        let d = if sim.fault("net-delay", 60 * p.net) { sim.frand(40_000) as u64 } else { 0 };
        self.push(base + d, Ev::Deliver(k, t, rid));
        if sim.fault("net-dup", 40 * p.net) { let d2 = sim.frand(30_000) as u64; self.push(base + d2, Ev::Deliver(k, t, rid)); }
    }
    /// Apply a request on a server if its inputs are there.
    fn apply(&mut self, sim: &mut Sim, p: &Profile, ts: &mut [Tenant], k: usize, t: usize, rid: u32) -> bool {
        let req = ts[t].log[rid as usize].1.clone();
        let srv = &mut self.srv[k];
        let Some(node) = &srv.node else { return false };
        let again = srv.done[t].contains(&rid);
        let (deps, key) = req.deps();
        let ok = node.call(move |s| deps.iter().all(|d| s.t[t].cts.contains_key(d)) && key.is_none_or(|(c, i)| match c { 'r' => s.t[t].rlk.contains_key(&i), 'e' => s.t[t].ek.contains_key(&i), 'g' => s.t[t].rgsw.contains_key(&i), _ => s.t[t].pk.contains_key(&i) }));
        if !ok { if !srv.parked.contains(&(t, rid)) { srv.parked.push((t, rid)); sim.op("parked"); } return false; }
        let rq = req.clone();
        sim.op(req.name());
        let d = node.call(move |s| s.t[t].exec(rid, &rq));
        if !again {
            srv.done[t].insert(rid);
            srv.disk.wal.push((t as u32, rid, req.clone()));
        } else { sim.op("re-executed"); }
        for (id, h) in d {
            sim.log(&format!("server {k} tenant {t} rid {rid} {} -> {id} #{h:016x}", req.name()));
            match ts[t].digests.get(&id) {
                None => { ts[t].digests.insert(id, h); }
                Some(x) if p.replicas => ensure!(*x == h, "divergence", "tenant {t} handle {id} ({}): server {k} produced different bytes than an earlier execution of the same request on the same inputs", req.name()),
                _ => {}
            }
        }
        true
    }
    fn unpark(&mut self, sim: &mut Sim, p: &Profile, ts: &mut [Tenant], k: usize) {
        loop {
            let l = std::mem::take(&mut self.srv[k].parked);
            if l.is_empty() { return; }
            let before = l.len();
            for (t, rid) in l { if self.apply(sim, p, ts, k, t, rid) { self.ack(sim, p, k, t, rid) } }
            if self.srv[k].parked.len() >= before || self.srv[k].node.is_none() { return; }
        }
    }
    fn ack(&mut self, sim: &mut Sim, p: &Profile, k: usize, t: usize, rid: u32) {
        if sim.fault("ack-drop", 40 * p.net) { return; }
        let d = 50 + sim.frand(400) as u64;
        self.push(sim.now + d, Ev::Ack(k, t, rid));
    }
    fn crash(&mut self, sim: &mut Sim, p: &Profile, k: usize) {
        let Some(n) = self.srv[k].node.take() else { return };
        drop(n);
        self.srv[k].parked.clear();
        sim.log(&format!("server {k} crashed"));
        if sim.fault("wal-torn", 400) {
            let l = self.srv[k].disk.wal.len();
            let lose = sim.frand(l.min(4) + 1);
            for _ in 0..lose {
                if let Some((t, rid, _)) = self.srv[k].disk.wal.pop() {
                    self.srv[k].done[t as usize].remove(&rid);
                    self.acked.remove(&(k, t as usize, rid));
                    let at = sim.now + 25_000;
                    self.push(at, Ev::Retry(k, t as usize, rid));
                }
            }
        }
        let _ = p;
        let back = 5_000 + sim.frand(60_000) as u64;
        self.push(sim.now + back, Ev::Restart(k));
    }
    fn snapshot(&mut self, sim: &mut Sim, k: usize) {
        if self.srv[k].node.is_none() { return; }
        let snaps = self.srv[k].node.as_ref().unwrap().call(|s| s.t.iter().map(|t| t.snapshot()).collect::<Vec<_>>());
        if sim.fault("snapshot-lost", 200) { return; }
        sim.op("snapshot");
        let total: usize = snaps.iter().flat_map(|s| s.objs.values()).map(|b| b.len()).sum();
        sim.log(&format!("server {k} snapshot {total} bytes"));
        self.srv[k].disk.snap = snaps;
        self.srv[k].disk.wal.clear();
    }
    /// Replace one live object by the object its bytes describe.
    fn bounce(&mut self, sim: &mut Sim, k: usize, t: usize) {
        let Some(node) = &self.srv[k].node else { return };
        let pick = sim.rng.u64() as usize;
        let what = node.call(move |s| s.t[t].bounce(pick));
        sim.op("bounce");
        sim.log(&format!("server {k} bounced {what}"));
    }
    /// A tenant is evicted from memory, others come and go, and it is loaded again.
    fn evict(&mut self, sim: &mut Sim, p: &Profile, ts: &[Tenant], k: usize, t: usize) {
        let Some(node) = &self.srv[k].node else { return };
        let mut r = Rng::new(mix(sim.frand(1 << 30) as u64, 0x6E57));
        let specs: Vec<(Spec, u64, Vec<u8>)> = (0..r.range(1, 3)).filter_map(|_| {
            let (s, seed) = (neighbour(&mut r, &ts[t].spec)?, r.u64());
            let own = s.clone();
            let public = Node::spawn(mix(seed, 0x6E57), || ()).call(move |_| Tn::public(&mut quiet(seed), &own));
            Some((s, seed, public))
        }).collect();
        let here = specs.clone();
        let (spec, cseed, rounds) = (ts[t].spec.clone(), r.u64(), r.range(8, 60));
        let got = node.call(move |s| {
            let old = s.t.remove(t);
            let (par, snap) = (old.par.to_bytes(), old.snapshot());
            drop(old);
            crate::churn::churn(&spec, cseed, rounds);
            let got: Vec<_> = here.iter().map(|(s, seed, pk)| guest(s, *seed, pk)).collect();
            s.t.insert(t, TState::load(&par, &snap));
            got
        });
        sim.op("evict");
        sim.log(&format!("server {k} evicted tenant {t}, served {} guests after {rounds} shorter ones and loaded it again: {:016x}", specs.len(), fnv(0xcbf29ce484222325, format!("{got:?}").as_bytes())));
        if !p.replicas { return }
        for ((s, seed, pk), got) in specs.into_iter().zip(got) {
            let want = Node::spawn(mix(seed, 0xF4E5), || ()).call(move |_| guest(&s, seed, &pk));
            for (a, b) in got.iter().zip(&want) { ensure!(a == b, "divergence", "{} of a short-lived tenant gives {:?} in a process that served others before and {:?} in a fresh one", a.0, a.1, b.1) }
        }
    }
    fn step(&mut self, sim: &mut Sim, p: &Profile, ts: &mut [Tenant]) -> bool {
        let Some(Reverse((at, _, e))) = self.q.pop() else { return false };
        sim.now = sim.now.max(at);
        match e {
            Ev::Deliver(k, t, rid) => {
                if self.srv[k].node.is_none() { return true; }
                if self.apply(sim, p, ts, k, t, rid) {
                    if sim.fault("crash-before-ack", 12 * p.crash) { self.crash(sim, p, k); return true; }
                    self.ack(sim, p, k, t, rid);
                    self.unpark(sim, p, ts, k);
                }
            }
            Ev::Ack(k, t, rid) => { if self.srv[k].done[t].contains(&rid) { self.acked.insert((k, t, rid)); } }
            Ev::Retry(k, t, rid) => {
                if self.acked.contains(&(k, t, rid)) { return true; }
                *self.tries.entry((k, t, rid)).or_default() += 1;
                if self.srv[k].node.is_none() { self.push(sim.now + 20_000, Ev::Retry(k, t, rid)); return true; }
                sim.op("retry");
                self.send(sim, p, k, t, rid);
            }
            Ev::Restart(k) => {
                if self.srv[k].node.is_some() { return true; }
                self.srv[k].boots += 1;
                let n = Net::boot(sim, &self.srv[k].disk, k, self.srv[k].boots);
                self.srv[k].node = Some(n);
                sim.op("restart");
                sim.log(&format!("server {k} restarted from {} snapshot objects and {} log records", self.srv[k].disk.snap.iter().map(|s| s.objs.len()).sum::<usize>(), self.srv[k].disk.wal.len()));
            }
        }
        true
    }
}

fn quiet(seed: u64) -> Sim {
    let mut sub = Sim::new("guest", seed, Default::default(), false);
    sub.begin(0);
    sub.calm = true;
    sub
}
/// A short-lived tenant: its objects are made, used and dropped in one place.
fn guest(spec: &Spec, seed: u64, public: &[u8]) -> Vec<(&'static str, Option<u64>)> {
    let mut sub = quiet(seed);
    let t = Tn::make(&mut sub, spec.clone(), Some(public.to_vec()));
    let mut r = Rng::new(seed);
    (0..8).map(|i| {
        let op = if i < 3 { *r.pick(&["mult-new", "multiply", "relin", "ek", "switch", "decrypt"]) } else { *r.pick(GOOD) };
        (op, good(&t, op, r.below(8), r.below(8), &mut crate::rt::LibRng::new(r.u64())))
    }).collect()
}

/// What another process, with other entropy and memory, computes from the same
/// inputs and the same caller randomness.
fn elsewhere(sim: &mut Sim, r: &mut Rng, what: &str, bytes: &[u8], f: impl FnOnce() -> Vec<u8> + Send + 'static) {
    if !r.pct(30) { return }
    let got = Node::spawn(r.u64(), || ()).call(move |_| f());
    sim.op("recompute-elsewhere");
    ensure!(got == bytes, "differs-elsewhere", "{what} gives different bytes in another process with the same inputs and caller randomness");
}

impl TState {
    pub fn bounce(&mut self, pick: usize) -> String {
        let mut all: Vec<(char, u32)> = vec![];
        all.extend(self.cts.keys().map(|k| ('c', *k)));
        all.extend(self.rlk.keys().map(|k| ('r', *k)));
        all.extend(self.ek.keys().map(|k| ('e', *k)));
        all.extend(self.rgsw.keys().map(|k| ('g', *k)));
        all.extend(self.pk.keys().map(|k| ('p', *k)));
        if all.is_empty() { return "nothing".into(); }
        let (k, id) = all[pick % all.len()];
        let par = self.par.clone();
        macro_rules! b {
            ($map:expr, $ty:ty, $name:literal) => {{
                let x = &$map[&id];
                let by = lib(concat!($name, "::to_bytes"), || x.to_bytes());
                let y = lib_ok(concat!($name, "::from_bytes"), || <$ty>::from_bytes(&by, &par));
                ensure!(y.to_bytes() == by, concat!("roundtrip-", $name), "{} {id}: to_bytes(from_bytes(b)) differs from b", $name);
                $map.insert(id, y);
            }};
        }
        match k {
            'c' => b!(self.cts, Ciphertext, "Ciphertext"),
            'r' => b!(self.rlk, RelinearizationKey, "RelinearizationKey"),
            'e' => b!(self.ek, EvaluationKey, "EvaluationKey"),
            'g' => b!(self.rgsw, RGSWCiphertext, "RGSWCiphertext"),
            _ => b!(self.pk, PublicKey, "PublicKey"),
        }
        self.mults.clear();
        format!("{k}{id}")
    }
}

// ------------------------------------------------------------------ the run

pub fn run(sim: &mut Sim, p: &Profile) {
    sim.begin(0);
    if p.replicas && sim.rng.below(8) == 0 { return throng(sim, p) }
    let nt = if sim.rng.pct(p.tenants) { 2 } else { 1 };
    let ns = sim.rng.range(p.servers.0, p.servers.1);
    let mut ts: Vec<Tenant> = (0..nt).map(|_| Tenant::new(sim, p)).collect();
    // Same shape, different modulus or variance: caches keyed too coarsely show up.
    let pars: Vec<Vec<u8>> = ts.iter().map(|t| lib("BfvParameters::to_bytes", || t.par.to_bytes())).collect();
    for (t, b) in ts.iter().zip(&pars) {
        let q = lib_ok("BfvParameters::try_deserialize", || BfvParameters::try_deserialize(b));
        ensure!(q == *t.par && q.to_bytes() == *b, "roundtrip-BfvParameters", "BfvParameters do not survive their byte form");
        ensure!(q.degree() == t.spec.n && q.moduli() == &t.spec.moduli[..] && *q.plaintext_big() == t.spec.t, "roundtrip-BfvParameters", "restored parameters have degree {}, moduli {:?}, plaintext modulus {}", q.degree(), q.moduli(), q.plaintext_big());
    }
    let mut net = Net::new(sim, ns, &pars);
    // swarm: drop some kinds of operation in this run
    let mut w: Vec<(K, u32)> = p.w.to_vec();
    for x in w.iter_mut() { if !matches!(x.0, K::Enc | K::Fetch) && sim.rng.pct(22) { x.1 = 0 } }
    let (lo, hi) = p.steps;
    let mul = if sim.thorough { 2 } else { 1 };
    let steps = sim.rng.range(lo, hi) * mul;
    for (k, s) in net.srv.iter_mut().enumerate() { if sim.fault("slow-server", 150) { s.slow = 20; sim.log(&format!("server {k} is slow")); } }
    for i in 1..=steps as u32 {
        if !sim.begin(i) { continue; }
        let ti = sim.rng.below(nt);
        let kinds: Vec<u32> = w.iter().map(|x| x.1).collect();
        let mut k = w[sim.rng.weighted(&kinds)].0;
        if ts[ti].m.is_empty() { k = K::Enc }
        // faults between requests
        for s in 0..ns {
            if sim.fault("crash", 8 * p.crash) { net.crash(sim, p, s); }
            if sim.fault("partition", 12 * p.net) { net.cut[s] = sim.now + 1000 + sim.frand(80_000) as u64; sim.log(&format!("server {s} cut off")); }
            if p.crash > 0 && sim.rng.pct(6) { net.snapshot(sim, s); }
            if ts[ti].spec.n <= 64 && ts[ti].spec.moduli.len() <= 6 && sim.fault("eviction", if p.replicas { 20 } else { 4 }) { net.evict(sim, p, &ts, s, ti) }
            if p.durable && sim.rng.pct(15) { net.bounce(sim, s, ti); }
            if sim.fault("entropy-eintr", 5) { if let Some(n) = &net.srv[s].node { n.call(|_| unsafe { crate::rt::sim_entropy_fault(3) }); } }
        }
        if ts[ti].m.len() > ts[ti].max_handles && k != K::Fetch && !matches!(k, K::Relin) { k = K::Fetch }
        if k == K::Fetch {
            let form = pick_form(&mut sim.rng);
            if let Some(id) = { let mut r = sim.rng.clone(); let x = ts[ti].sel(&mut r, |_| true); sim.rng = r; x } { fetch(sim, p, &mut net, &mut ts, ti, id, form); }
        } else {
            let reqs = ts[ti].act(sim, p, k);
            for rq in reqs {
                let rid = ts[ti].rids;
                ts[ti].rids += 1;
                ts[ti].log.push((rid, rq));
                for s in 0..ns { net.send(sim, p, s, ti, rid); }
            }
        }
        // let simulated time pass
        let until = sim.now + sim.rng.below(3_000) as u64;
        while net.q.peek().is_some_and(|Reverse((at, _, _))| *at <= until) { net.step(sim, p, &mut ts); }
        sim.now = sim.now.max(until);
    }
    // faults stop: everything must complete within a bounded number of events
    sim.begin(u32::MAX);
    sim.calm = true;
    for s in &mut net.srv { s.slow = 1 }
    for c in &mut net.cut { *c = 0 }
    let total: u64 = ts.iter().map(|t| t.rids as u64).sum::<u64>() * ns as u64;
    let bound = 400 + total * 60;
    let mut ev = 0u64;
    while net.step(sim, p, &mut ts) {
        ev += 1;
        ensure!(ev <= bound, "no-progress", "{bound} events after the faults stopped, requests are still outstanding");
    }
    for (k, s) in net.srv.iter().enumerate() {
        for (t, tn) in ts.iter().enumerate() { ensure!(s.done[t].len() as u32 == tn.rids, "no-progress", "server {k} completed {} of {} requests of tenant {t} and nothing is in flight", s.done[t].len(), tn.rids); }
    }
    // final verdicts: every handle
    for ti in 0..nt {
        let ids: Vec<u32> = ts[ti].m.keys().copied().collect();
        for id in ids { let form = (mix(sim.seed, id as u64) % 12) as u8; fetch(sim, p, &mut net, &mut ts, ti, id, form); }
    }
    if p.durable { interchange(sim, &mut net, &ts); }
}

/// One process serves a throng of short-lived tenants.
fn throng(sim: &mut Sim, p: &Profile) {
    let mut r = sim.rng.clone();
    let spec = gen_spec(&mut r, Want { max_deg_log: 5, max_moduli: 3, ..p.want });
    sim.rng = r;
    sim.log(&format!("params n={} t={} var={} q={:?}", spec.n, spec.t, spec.var, spec.moduli));
    let node = Node::spawn(mix(sim.seed, 0x7409), || ());
    for i in 1..=sim.rng.range(3, 12) as u32 {
        if !sim.begin(i) { continue }
        let (s, seed, rounds) = (spec.clone(), sim.rng.u64(), sim.rng.range(8, 40));
        node.call(move |_| crate::churn::churn(&s, seed, rounds));
        sim.op("throng");
        sim.state(mix(seed, rounds as u64));
    }
}

/// Fetch one handle from a server that has it and judge it.
fn fetch(sim: &mut Sim, p: &Profile, net: &mut Net, ts: &mut [Tenant], ti: usize, id: u32, form: u8) {
    let ns = net.srv.len();
    let st = sim.rng.below(ns);
    for d in 0..ns {
        let k = (st + d) % ns;
        let Some(node) = &net.srv[k].node else { continue };
        let Some(b) = node.call(move |s| s.t[ti].cts.get(&id).map(|c| c.to_bytes())) else { continue };
        sim.digest(&format!("fetch {id} from {k}"), &b);
        ts[ti].verify(sim, p, id, &b, form);
        return;
    }
}

/// Every operation gives byte-identical results on an object and on the object
/// restored from its bytes.
fn interchange(sim: &mut Sim, net: &mut Net, ts: &[Tenant]) {
    for (ti, t) in ts.iter().enumerate() {
        let take: Vec<(u32, Req)> = t.log.iter().rev().filter(|(_, r)| !matches!(r, Req::PutCt { .. } | Req::PutRlk { .. } | Req::PutEk { .. } | Req::PutRgsw { .. } | Req::PutPk { .. })).take(6).cloned().collect();
        if take.is_empty() { continue; }
        let k = sim.rng.below(net.srv.len());
        let Some(node) = &net.srv[k].node else { continue };
        let n = take.len();
        node.call(move |s| {
            let snap = s.t[ti].snapshot();
            let par = s.t[ti].par.to_bytes();
            let mut twin = TState::load(&par, &snap);
            for (_, r) in &take {
                let a: Vec<Vec<u8>> = s.t[ti].eval(r).into_iter().map(|x| x.1.to_bytes()).collect();
                let b: Vec<Vec<u8>> = twin.eval(r).into_iter().map(|x| x.1.to_bytes()).collect();
                ensure!(a == b, "not-interchangeable", "{} gives different bytes on the live objects and on the objects restored from their bytes", r.name());
            }
        });
        sim.op("interchange");
        sim.log(&format!("interchange {n} requests on server {k}"));
    }
}

// ------------------------------------------------------------------ profiles

const W0: Want = Want { min_moduli: 1, max_moduli: 5, max_deg_log: 8, simd: 60, depth: 2, big_t: true };

pub const C01: Profile = Profile {
    w: &[(K::Enc, 14), (K::SrvEnc, 3), (K::Add, 10), (K::Sub, 10), (K::Mul, 12), (K::AddPt, 7), (K::SubPt, 7), (K::MulPt, 8), (K::Neg, 5), (K::Zero, 3), (K::Relin, 9), (K::MulDef, 6), (K::MulAsym, 4), (K::Dot, 7), (K::Down, 4), (K::NewRlk, 3), (K::Fetch, 3)],
    want: W0, replicas: false, durable: false, noise: false, crash: 1, net: 1, steps: (12, 40), servers: (1, 2), tenants: 25,
};
pub const C02: Profile = Profile {
    w: &[(K::Enc, 14), (K::SrvEnc, 4), (K::Add, 6), (K::Sub, 5), (K::Mul, 6), (K::AddPt, 5), (K::SubPt, 4), (K::MulPt, 4), (K::Relin, 8), (K::MulDef, 8), (K::MulAsym, 6), (K::Dot, 3), (K::Down, 16), (K::To, 14), (K::NewRlk, 5), (K::RotCol, 4), (K::RotRow, 3), (K::NewEk, 3), (K::Rgsw, 2), (K::Fetch, 3)],
    want: Want { min_moduli: 2, max_moduli: 6, max_deg_log: 7, simd: 60, depth: 2, big_t: true }, replicas: false, durable: false, noise: false, crash: 1, net: 1, steps: (12, 40), servers: (1, 2), tenants: 20,
};
pub const C03: Profile = Profile {
    w: &[(K::Enc, 14), (K::Add, 4), (K::Sub, 3), (K::MulPt, 3), (K::Neg, 2), (K::Down, 8), (K::To, 4), (K::NewEk, 8), (K::RotCol, 14), (K::RotRow, 10), (K::Sum, 10), (K::Expand, 12), (K::Fetch, 3)],
    want: Want { min_moduli: 1, max_moduli: 5, max_deg_log: 7, simd: 70, depth: 1, big_t: true }, replicas: false, durable: false, noise: false, crash: 1, net: 1, steps: (10, 30), servers: (1, 2), tenants: 20,
};
pub const C04: Profile = Profile {
    w: &[(K::Enc, 14), (K::Add, 4), (K::Sub, 4), (K::Neg, 2), (K::MulPt, 2), (K::Down, 6), (K::NewRgsw, 8), (K::Rgsw, 22), (K::Fetch, 3)],
    want: Want { min_moduli: 1, max_moduli: 5, max_deg_log: 7, simd: 50, depth: 1, big_t: true }, replicas: false, durable: false, noise: false, crash: 1, net: 1, steps: (10, 30), servers: (1, 2), tenants: 20,
};
pub const C05: Profile = Profile {
    w: &[(K::Enc, 14), (K::SrvEnc, 5), (K::NewPk, 3), (K::Add, 5), (K::Sub, 5), (K::Mul, 6), (K::AddPt, 3), (K::MulPt, 3), (K::Neg, 3), (K::Relin, 6), (K::MulDef, 4), (K::MulAsym, 2), (K::Dot, 3), (K::Down, 6), (K::To, 4), (K::NewRlk, 4), (K::NewEk, 5), (K::RotCol, 5), (K::RotRow, 4), (K::Sum, 3), (K::Expand, 4), (K::NewRgsw, 4), (K::Rgsw, 5), (K::Fetch, 4)],
    want: Want { min_moduli: 1, max_moduli: 5, max_deg_log: 7, simd: 60, depth: 1, big_t: true }, replicas: false, durable: true, noise: false, crash: 4, net: 1, steps: (12, 36), servers: (1, 3), tenants: 40,
};
pub const C16: Profile = Profile {
    w: &[(K::Enc, 16), (K::SrvEnc, 4), (K::NewPk, 2), (K::Add, 8), (K::Sub, 6), (K::Mul, 10), (K::AddPt, 4), (K::SubPt, 4), (K::MulPt, 6), (K::Neg, 3), (K::Relin, 9), (K::MulDef, 6), (K::MulAsym, 5), (K::Dot, 4), (K::Down, 9), (K::To, 4), (K::NewRlk, 4), (K::NewEk, 3), (K::RotCol, 4), (K::RotRow, 3), (K::Sum, 3), (K::Expand, 3), (K::NewRgsw, 3), (K::Rgsw, 4), (K::Fetch, 2)],
    want: Want { min_moduli: 1, max_moduli: 5, max_deg_log: 6, simd: 60, depth: 2, big_t: true }, replicas: false, durable: false, noise: true, crash: 0, net: 0, steps: (14, 40), servers: (1, 1), tenants: 0,
};
pub const C18: Profile = Profile {
    w: &[(K::Enc, 14), (K::SrvEnc, 6), (K::NewPk, 3), (K::Add, 6), (K::Sub, 6), (K::Mul, 8), (K::AddPt, 4), (K::SubPt, 4), (K::MulPt, 4), (K::Neg, 3), (K::Zero, 2), (K::Relin, 6), (K::MulDef, 5), (K::MulAsym, 3), (K::Dot, 5), (K::Down, 6), (K::To, 4), (K::NewRlk, 4), (K::NewEk, 4), (K::RotCol, 5), (K::RotRow, 4), (K::Sum, 4), (K::Expand, 5), (K::NewRgsw, 3), (K::Rgsw, 5), (K::Fetch, 2)],
    want: Want { min_moduli: 1, max_moduli: 5, max_deg_log: 7, simd: 60, depth: 1, big_t: true }, replicas: true, durable: false, noise: false, crash: 3, net: 2, steps: (12, 36), servers: (2, 3), tenants: 40,
};
