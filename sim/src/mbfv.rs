//! Multiparty sessions: parties are simulated processes that crash, lose
//! messages and fail mid-round; a coordinator aggregates their shares in the
//! order the network delivers them.
use crate::bfvx::*;
use crate::core::{Sim, lib, lib_any, lib_err, lib_ok};
use crate::model::{Bounds, Ring, Val, big};
use crate::node::{Fail, Node, reraise};
use crate::params::{Spec, Want, gen_spec};
use crate::rt::{LibRng, Rng, mix};
use fhe::bfv::*;
use fhe::mbfv::round::{R1, R1Aggregated, R2};
use fhe::mbfv::*;
use fhe_traits::*;
use num_bigint::BigUint;
use num_traits::ToPrimitive;
use std::cmp::Reverse;
use std::collections::{BTreeMap, BinaryHeap};
use std::sync::Arc;

pub struct Party {
    sk: *mut SecretKey,
    crps: *mut Vec<CommonRandomPoly>,
    rgen: Option<RelinKeyGenerator<'static, 'static>>,
    out: Option<SecretKey>,
}
unsafe impl Send for Party {}
impl Party {
    fn new(sk: SecretKey) -> Self { Party { sk: Box::into_raw(Box::new(sk)), crps: std::ptr::null_mut(), rgen: None, out: None } }
    fn sk(&self) -> &'static SecretKey { unsafe { &*self.sk } }
    fn drop_gen(&mut self) {
        self.rgen = None;
        if !self.crps.is_null() { unsafe { drop(Box::from_raw(self.crps)) } self.crps = std::ptr::null_mut(); }
    }
    fn start_relin(&mut self, crps: Vec<CommonRandomPoly>, rng: &mut LibRng) {
        self.drop_gen();
        self.crps = Box::into_raw(Box::new(crps));
        let c: &'static [CommonRandomPoly] = unsafe { &*self.crps };
        let sk = self.sk();
        self.rgen = Some(lib_ok("RelinKeyGenerator::new", || RelinKeyGenerator::new(sk, c, rng)));
    }
}
impl Drop for Party {
    fn drop(&mut self) { self.drop_gen(); unsafe { drop(Box::from_raw(self.sk)) } }
}

#[derive(Clone, Copy)]
pub struct Profile { pub w: &'static [(A, u32)], pub want: Want, pub steps: (usize, usize), pub faults: u32 }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum A { PkGen, Relin, Enc, Add, Mul, MulPt, Down, Decrypt, SkSwitch, PkSwitch, Order, Refuse, Partial }

#[derive(Clone)]
struct H { ct: Arc<Ciphertext>, val: Val, v: f64, level: usize, len: usize }

struct Coop {
    spec: Spec,
    ring: Ring,
    b: Bounds,
    par: Arc<BfvParameters>,
    k: usize,
    s: Vec<Vec<i64>>,
    sum: Vec<i64>,
    disk: Vec<Vec<u8>>,
    nodes: Vec<Option<Node<Party>>>,
    boots: u64,
    pk: Option<PublicKey>,
    rlk: Option<RelinearizationKey>,
    hs: Vec<H>,
    joint: SecretKey,
    pm: u32,
}

enum E { Ask(usize), Arrive(usize, u64), Retry(usize), Up(usize) }
struct Lost;
type Work<T> = Arc<dyn Fn(&mut Party, &mut LibRng) -> T + Send + Sync>;

fn add_keys(v: &[Vec<i64>]) -> Vec<i64> { (0..v[0].len()).map(|j| v.iter().map(|s| s[j]).sum()).collect() }

impl Coop {
    fn eb(&self) -> f64 { self.k as f64 * self.b.b }
    fn fresh_pk(&self, level: usize) -> f64 {
        let e = self.eb() + level as f64 * (1.0 + self.b.s1);
        self.b.n * self.b.b * e + self.b.b + self.b.n * self.b.b * self.eb() + 2.0
    }
    fn rlk_err(&self) -> f64 { 2.0 * self.b.n * self.eb() * self.eb() + 2.0 * self.eb() }
    fn ks(&self) -> f64 {
        let l = self.spec.moduli.len();
        let qm = self.spec.moduli.iter().map(|x| *x as f64).fold(0.0, f64::max);
        l as f64 * self.b.n * qm * self.rlk_err() + 4.0
    }
    fn boot(sim: &Sim, par: &Arc<BfvParameters>, disk: &[u8], i: usize, boots: u64) -> Node<Party> {
        let (par, d) = (par.clone(), disk.to_vec());
        Node::spawn(mix(sim.seed, 0x9A47 + i as u64 * 1000 + boots), move || Party::new(lib_ok("SecretKey::from_bytes", || SecretKey::from_bytes(&d, &par))))
    }
    fn new(sim: &mut Sim, p: &Profile) -> Self {
        let mut r = sim.rng.clone();
        // a crowd, rarely, with small parameters
        let crowd = r.below(40) == 0;
        let spec = gen_spec(&mut r, if crowd { Want { max_deg_log: 4, max_moduli: p.want.max_moduli.min(4), ..p.want } } else { p.want });
        let k = if crowd { r.range(8, 70) } else { match r.below(8) { 0 => 1, 1..=3 => 2, 4..=5 => 3, _ => r.range(4, if sim.thorough { 9 } else { 6 }) } };
        sim.rng = r;
        let par = lib_ok("BfvParametersBuilder::build_arc", || spec.build());
        let mut s = vec![];
        let mut disk = vec![];
        for _ in 0..k {
            let mut lr = sim.lib_rng();
            let sk = lib("SecretKey::random", || SecretKey::random(&par, &mut lr));
            s.push(sk_coeffs(&sk));
            disk.push(sk.to_bytes());
        }
        let sum = add_keys(&s);
        let joint = sk_from_coeffs(&sum, &par);
        let nodes = (0..k).map(|i| Some(Coop::boot(sim, &par, &disk[i], i, 0))).collect();
        sim.log(&format!("{k} parties n={} t={} var={} q={:?}", spec.n, spec.t, spec.var, spec.moduli));
        let mut b = spec.bounds();
        b.s1 *= k as f64;
        Coop { ring: spec.ring(), b, par, k, s, sum, disk, nodes, boots: 0, pk: None, rlk: None, hs: vec![], joint, spec, pm: if crowd { p.faults.div_ceil(4) } else { p.faults } }
    }

    /// One protocol round: every party must deliver one share. Shares come back
    /// in arrival order. `stateful`: a crash loses what the round depends on.
    fn round<T: Send + 'static>(&mut self, sim: &mut Sim, what: &'static str, stateful: bool, f: Work<T>) -> Result<Vec<(usize, T)>, Lost> {
        let mut q: BinaryHeap<Reverse<(u64, u64)>> = BinaryHeap::new();
        let mut evs: BTreeMap<u64, E> = BTreeMap::new();
        let mut seq = 0u64;
        let mut slots: BTreeMap<u64, T> = BTreeMap::new();
        let mut have: Vec<(usize, T)> = vec![];
        macro_rules! at { ($t:expr, $e:expr) => {{ seq += 1; q.push(Reverse(($t, seq))); evs.insert(seq, $e); }}; }
        for i in 0..self.k { let d = sim.frand(500) as u64; at!(sim.now + d, E::Retry(i)); }
        let mut n = 0u64;
        while have.len() < self.k {
            n += 1;
            ensure!(n < 20_000, "no-progress", "{what}: round did not complete");
            let Some(Reverse((t, id))) = q.pop() else { violate!("no-progress", "{what}: nothing in flight and {} of {} shares", have.len(), self.k) };
            sim.now = sim.now.max(t);
            match evs.remove(&id).unwrap() {
                E::Retry(i) => {
                    if have.iter().any(|x| x.0 == i) { continue; }
                    at!(sim.now + 20_000, E::Retry(i));
                    if self.nodes[i].is_none() { continue; }
                    if sim.fault("net-drop", 4 * self.pm) { continue; }
                    let d = 50 + sim.frand(800) as u64 + if sim.fault("net-delay", 8 * self.pm) { sim.frand(30_000) as u64 } else { 0 };
                    at!(sim.now + d, E::Ask(i));
                    if sim.fault("net-dup", 4 * self.pm) { let d = 50 + sim.frand(25_000) as u64; at!(sim.now + d, E::Ask(i)); }
                }
                E::Ask(i) => {
                    if self.nodes[i].is_none() { continue; }
                    if sim.fault("party-crash", 2 * self.pm) { self.crash(sim, i); let d = 3_000 + sim.frand(40_000) as u64; at!(sim.now + d, E::Up(i)); if stateful { self.revive(sim); return Err(Lost); } continue; }
                    let seed = sim.lib_seed();
                    let fail = if sim.fault("rng-failure", 3 * self.pm) { Some(sim.frand(60) as u64) } else { None };
                    let g = f.clone();
                    let r = self.nodes[i].as_ref().unwrap().try_call(move |p| {
                        let mut rng = match fail { Some(k) => LibRng::failing(seed, k), None => LibRng::new(seed) };
                        g(p, &mut rng)
                    });
                    match r {
                        Ok(x) => {
                            sim.op(what);
                            if sim.fault("party-crash", 2 * self.pm) { self.crash(sim, i); let d = 3_000 + sim.frand(40_000) as u64; at!(sim.now + d, E::Up(i)); if stateful { self.revive(sim); return Err(Lost); } continue; }
                            if sim.fault("net-drop", 4 * self.pm) { continue; }
                            seq += 1;
                            let s = seq;
                            slots.insert(s, x);
                            let d = 50 + sim.frand(3000) as u64;
                            at!(sim.now + d, E::Arrive(i, s));
                        }
                        Err(Fail::Rng) => { sim.log(&format!("{what}: party {i}'s generator failed")); }
                        Err(e) => reraise(e),
                    }
                }
                E::Arrive(i, s) => {
                    let x = slots.remove(&s).unwrap();
                    if have.iter().any(|h| h.0 == i) { sim.op("duplicate-share"); continue; }
                    sim.log(&format!("{what}: share of party {i}"));
                    have.push((i, x));
                }
                E::Up(i) => if self.nodes[i].is_none() { self.up(sim, i) },
            }
        }
        Ok(have)
    }
    fn crash(&mut self, sim: &mut Sim, i: usize) { self.nodes[i] = None; sim.log(&format!("party {i} crashed")); }
    fn up(&mut self, sim: &mut Sim, i: usize) {
        self.boots += 1;
        self.nodes[i] = Some(Coop::boot(sim, &self.par, &self.disk[i], i, self.boots));
        sim.op("restart");
    }
    fn revive(&mut self, sim: &mut Sim) { for i in 0..self.k { if self.nodes[i].is_none() { self.up(sim, i) } } }

    // -------------------------------------------------------------- protocols

    fn pk_shares(&mut self, sim: &mut Sim, crp: &CommonRandomPoly) -> Vec<(usize, PublicKeyShare)> {
        let c = crp.clone();
        let f: Work<PublicKeyShare> = Arc::new(move |p, rng| { let sk = p.sk(); let c = c.clone(); lib_ok("PublicKeyShare::new", || PublicKeyShare::new(sk, c, rng)) });
        match self.round(sim, "pk-share", false, f) { Ok(v) => v, Err(_) => unreachable!() }
    }
    fn crp(&self, sim: &mut Sim) -> CommonRandomPoly { let mut lr = sim.lib_rng(); lib_ok("CommonRandomPoly::new", || CommonRandomPoly::new(&self.par, &mut lr)) }

    fn pk_ct(&self, pk: &PublicKey) -> Ciphertext {
        let b = lib("PublicKey::to_bytes", || pk.to_bytes());
        let p: fhe::proto::bfv::PublicKey = prost::Message::decode(&b[..]).unwrap_or_else(|e| violate!("pk-bytes", "{e}"));
        let c = p.c.unwrap_or_else(|| violate!("pk-bytes", "no ciphertext"));
        lib_ok("Ciphertext::from_bytes", || Ciphertext::from_bytes(&prost::Message::encode_to_vec(&c), &self.par))
    }
    /// p0 + p1*s must be an error polynomial of `k` parties.
    fn judge_pk(&self, pk: &PublicKey, s: &[i64], k: usize, what: &str) {
        let c = self.pk_ct(pk);
        ensure!(c.len() == 2 && level_of(&self.par, &c) == 0, "pk-shape", "{what}: {} polynomials at level {}", c.len(), level_of(&self.par, &c));
        let z = vec![BigUint::ZERO; self.ring.n];
        let m = noise_max(&noise_poly(&self.par, s, &c, &z));
        ensure!(m <= big(k as u64 * 2 * self.spec.var as u64), "pk-relation", "{what}: p0 + p1*s has an error of {} bits, {k} parties contribute at most {}", m.bits(), k * 2 * self.spec.var);
    }
    fn pk_gen(&mut self, sim: &mut Sim) {
        let crp = self.crp(sim);
        let sh = self.pk_shares(sim, &crp);
        let v: Vec<PublicKeyShare> = sh.into_iter().map(|x| x.1).collect();
        let direct = sim.rng.pct(50);
        let pk: PublicKey = if direct { lib_ok("PublicKey::from_shares", || v.clone().into_iter().aggregate()) } else { lib_ok("PublicKey::from_shares(Result)", || v.clone().into_iter().map(Ok::<_, fhe::Error>).aggregate()) };
        self.judge_pk(&pk, &self.sum, self.k, "collective public key");
        if self.k > 1 {
            let part = v.len() - 1;
            let sub: PublicKey = lib_ok("PublicKey::from_shares", || v[..part].iter().cloned().aggregate());
            ensure!(sub != pk, "share-ignored", "the last public key share makes no difference");
        }
        let mut w = v.clone();
        let mut r = sim.rng.clone();
        r.shuffle(&mut w);
        sim.rng = r;
        let pk2: PublicKey = lib_ok("PublicKey::from_shares", || w.into_iter().aggregate());
        ensure!(pk2 == pk && pk2.to_bytes() == pk.to_bytes(), "order", "the collective public key depends on the order of the shares");
        let b = pk.to_bytes();
        sim.digest("collective-pk", &b);
        let pk3 = lib_ok("PublicKey::from_bytes", || PublicKey::from_bytes(&b, &self.par));
        ensure!(pk3 == pk, "roundtrip-PublicKey", "the collective public key does not survive its byte form");
        self.pk = Some(if sim.rng.pct(50) { pk3 } else { pk });
        sim.op("pk-gen");
    }
    fn relin(&mut self, sim: &mut Sim) {
        if self.spec.moduli.len() < 2 { 
            let mut lr = sim.lib_rng();
            let crps = lib_ok("CommonRandomPoly::new_vec", || CommonRandomPoly::new_vec(&self.par, &mut lr));
            let sk = &self.joint;
            lib_err("RelinKeyGenerator::new(one modulus)", || RelinKeyGenerator::new(sk, &crps, &mut lr).map(|_| ()));
            return;
        }
        let mut lr = sim.lib_rng();
        let crps = lib_ok("CommonRandomPoly::new_vec", || CommonRandomPoly::new_vec(&self.par, &mut lr));
        ensure!(crps.len() == self.spec.moduli.len(), "crp-count", "{} common polynomials for {} moduli", crps.len(), self.spec.moduli.len());
        let mut epoch = 0;
        let (r1, r2) = loop {
            epoch += 1;
            if epoch > 6 { sim.calm = true; }
            ensure!(epoch < 12, "no-progress", "relinearisation protocol restarted {epoch} times");
            for i in 0..self.k {
                if self.nodes[i].is_none() { self.up(sim, i) }
                let (c, seed) = (crps.clone(), sim.lib_seed());
                self.nodes[i].as_ref().unwrap().call(move |p| p.start_relin(c, &mut LibRng::new(seed)));
            }
            let f: Work<RelinKeyShare<R1>> = Arc::new(|p, rng| { let g = p.rgen.as_ref().expect("gen"); lib_ok("RelinKeyGenerator::round_1", || g.round_1(rng)) });
            let Ok(s1) = self.round(sim, "relin-round-1", true, f) else { sim.op("protocol-restart"); continue };
            let v1: Vec<RelinKeyShare<R1>> = s1.into_iter().map(|x| x.1).collect();
            let agg: RelinKeyShare<R1Aggregated> = lib_ok("RelinKeyShare::from_shares(R1)", || v1.clone().into_iter().aggregate());
            let mut w = v1.clone();
            let mut r = sim.rng.clone();
            r.shuffle(&mut w);
            sim.rng = r;
            let agg2: RelinKeyShare<R1Aggregated> = lib_ok("RelinKeyShare::from_shares(R1)", || w.into_iter().map(Ok::<_, fhe::Error>).aggregate());
            ensure!(agg == agg2, "order", "the round-one aggregate depends on the order of the shares");
            let agg = Arc::new(agg);
            let a = agg.clone();
            let f: Work<RelinKeyShare<R2>> = Arc::new(move |p, rng| { let g = p.rgen.as_ref().expect("gen"); lib_ok("RelinKeyGenerator::round_2", || g.round_2(&a, rng)) });
            let Ok(s2) = self.round(sim, "relin-round-2", true, f) else { sim.op("protocol-restart"); continue };
            break (agg, s2.into_iter().map(|x| x.1).collect::<Vec<_>>());
        };
        let _ = r1;
        let rk: RelinearizationKey = lib_ok("RelinearizationKey::from_shares", || r2.clone().into_iter().aggregate());
        let mut w = r2.clone();
        let mut r = sim.rng.clone();
        r.shuffle(&mut w);
        sim.rng = r;
        let rk2: RelinearizationKey = lib_ok("RelinearizationKey::from_shares", || w.into_iter().map(Ok::<_, fhe::Error>).aggregate());
        ensure!(rk == rk2 && rk.to_bytes() == rk2.to_bytes(), "order", "the collective relinearisation key depends on the order of the shares");
        self.judge_rlk(&rk);
        let b = lib("RelinearizationKey::to_bytes", || rk.to_bytes());
        sim.digest("collective-rlk", &b);
        let rk3 = lib_ok("RelinearizationKey::from_bytes", || RelinearizationKey::from_bytes(&b, &self.par));
        ensure!(rk3 == rk, "roundtrip-RelinearizationKey", "the collective relinearisation key does not survive its byte form");
        self.rlk = Some(if sim.rng.pct(50) { rk3 } else { rk });
        sim.op("relin-gen");
    }
    /// c0_i + c1_i*s = w_i*s^2 + small, checked by own arithmetic on the bytes.
    fn judge_rlk(&self, rk: &RelinearizationKey) {
        let b = lib("RelinearizationKey::to_bytes", || rk.to_bytes());
        let p: fhe::proto::bfv::RelinearizationKey = prost::Message::decode(&b[..]).unwrap_or_else(|e| violate!("rlk-bytes", "{e}"));
        let k = p.ksk.unwrap_or_else(|| violate!("rlk-bytes", "no key switching key"));
        let l = self.spec.moduli.len();
        ensure!(k.c0.len() == l && k.c1.len() == l, "rlk-shape", "{} and {} components for {l} moduli", k.c0.len(), k.c1.len());
        let n = self.ring.n;
        // s^2 over the integers (negacyclic)
        let mut s2 = vec![0i128; n];
        for i in 0..n { for j in 0..n { let x = self.sum[i] as i128 * self.sum[j] as i128; if i + j < n { s2[i + j] += x } else { s2[i + j - n] -= x } } }
        let q = modulus_at(&self.par, 0);
        let bound = BigUint::from(self.rlk_err() as u128 + 1);
        for i in 0..l {
            // carry the pair in a ciphertext to reach its coefficients
            let ct = fhe::proto::bfv::Ciphertext { c: vec![k.c0[i].clone(), k.c1[i].clone()], seed: vec![], level: 0 };
            let c = match Ciphertext::from_bytes(&prost::Message::encode_to_vec(&ct), &self.par) { Ok(c) => c, Err(_) => self.shoup_pair(&k.c0[i], &k.c1[i]) };
            let pol: Vec<Vec<BigUint>> = c.iter().map(lift).collect();
            let ph = crate::model::phase(&pol, &self.sum, &q);
            // w_i s^2: residues are s^2 modulo q_i and 0 modulo the others
            let rows: Vec<Vec<u64>> = self.spec.moduli.iter().enumerate().map(|(j, m)| s2.iter().map(|x| if i == j { x.rem_euclid(*m as i128) as u64 } else { 0 }).collect()).collect();
            let ws = crt(&rows, &self.spec.moduli);
            for (x, y) in ph.iter().zip(&ws) {
                let d = if x >= y { x - y } else { x + &q - y };
                let d = if &d + &d > q { &q - d } else { d };
                ensure!(d <= bound, "rlk-relation", "component {i} of the collective relinearisation key has an error of {} bits, at most {} are possible", d.bits(), bound.bits());
            }
        }
    }
    /// Key polynomials are stored in another representation: convert.
    fn shoup_pair(&self, a: &[u8], b: &[u8]) -> Ciphertext {
        use fhe_math::rq::{NttShoup, Poly};
        let ctx = lib_ok("context_at_level", || self.par.context_at_level(0).cloned());
        let f = |x: &[u8]| lib_ok("Poly::from_bytes", || Poly::<NttShoup>::from_bytes(x, &ctx)).into_ntt();
        lib_ok("Ciphertext::new", || Ciphertext::new(vec![f(a), f(b)], &self.par))
    }

    fn pick(&self, r: &mut Rng, f: impl Fn(&H) -> bool) -> Option<H> {
        let v: Vec<&H> = self.hs.iter().filter(|h| f(h)).collect();
        if v.is_empty() { None } else { Some((*r.pick(&v)).clone()) }
    }
    fn usable(&self, l: usize) -> bool { self.b.q[l] > 8.0 * self.b.t && self.fresh_pk(l) + self.eb() + 2.0 < self.b.cap(l) }
    fn check_joint(&self, h: &H) {
        let pt = lib_ok("SecretKey::try_decrypt", || self.joint.try_decrypt(&h.ct));
        let got = decode(&pt, &self.ring, matches!(h.val, Val::Simd(_)), h.level, 0);
        ensure!(got == h.val, "joint-decrypt", "a ciphertext under the collective key (noise bound 2^{:.1} of 2^{:.1}) does not decrypt under the sum of the secret shares", h.v.log2(), self.b.cap(h.level).log2());
    }
    fn push(&mut self, h: H) { self.check_joint(&h); if self.hs.len() > 14 { self.hs.remove(0); } self.hs.push(h) }

    fn act(&mut self, sim: &mut Sim, a: A) {
        let mut r = sim.rng.clone();
        r.u64();
        let b = self.b.clone();
        let par = self.par.clone();
        match a {
            A::PkGen => self.pk_gen(sim),
            A::Relin => self.relin(sim),
            A::Enc => {
                if self.pk.is_none() { self.pk_gen(sim) }
                let ls: Vec<usize> = (0..=b.max_level()).filter(|l| self.usable(*l)).collect();
                if ls.is_empty() { return; }
                let level = if r.pct(60) { ls[0] } else { *r.pick(&ls) };
                let simd = self.ring.simd && r.pct(60);
                let spec = PtSpec { val: self.ring.random(&mut r, simd), level, form: pick_form(&mut r) };
                let pt = encode(&par, &self.ring, &spec);
                let mut lr = sim.lib_rng();
                let ct = lib_ok("PublicKey::try_encrypt", || self.pk.as_ref().unwrap().try_encrypt(&pt, &mut lr));
                sim.digest("encrypt", &ct.to_bytes());
                self.push(H { ct: Arc::new(ct), val: spec.val, v: self.fresh_pk(level), level, len: 2 });
            }
            A::Add => {
                let Some(x) = self.pick(&mut r, |_| true) else { return };
                let s = |h: &H| matches!(h.val, Val::Simd(_));
                let Some(y) = self.pick(&mut r, |h| h.level == x.level && h.len == x.len && s(h) == s(&x) && h.v + x.v + 1.0 + self.eb() < b.cap(x.level)) else { return };
                let sub = r.pct(50);
                let ct = lib("add", || if sub { &*x.ct - &*y.ct } else { &*x.ct + &*y.ct });
                let val = if sub { self.ring.sub(&x.val, &y.val) } else { self.ring.add(&x.val, &y.val) };
                self.push(H { ct: Arc::new(ct), val, v: x.v + y.v + 1.0, ..x });
            }
            A::MulPt => {
                let Some(x) = self.pick(&mut r, |h| (h.v + 1.0) * b.n * b.t + 2.0 + self.eb() < b.cap(h.level)) else { return };
                let simd = matches!(x.val, Val::Simd(_));
                let spec = PtSpec { val: self.ring.random(&mut r, simd), level: x.level, form: pick_form(&mut r) };
                let pt = encode(&par, &self.ring, &spec);
                let ct = lib("mul-pt", || &*x.ct * &pt);
                self.push(H { ct: Arc::new(ct), val: self.ring.mul(&x.val, &spec.val), v: (x.v + 1.0) * b.n * b.t + 2.0, ..x });
            }
            A::Mul => {
                if self.rlk.is_none() { self.relin(sim) }
                if self.rlk.is_none() { return; }
                let ks = self.ks();
                let cost = |x: &H, y: &H| b.mul(0, x.v + 1.0, 2, y.v + 1.0, 2);
                let Some(x) = self.pick(&mut r, |h| h.level == 0 && h.len == 2 && cost(h, h) + self.eb() < b.cap(0)) else { return };
                let s = |h: &H| matches!(h.val, Val::Simd(_));
                let Some(y) = self.pick(&mut r, |h| h.level == 0 && h.len == 2 && s(h) == s(&x) && cost(&x, h) + self.eb() < b.cap(0)) else { return };
                let ct = lib("mul", || &*x.ct * &*y.ct);
                let h3 = H { ct: Arc::new(ct), val: self.ring.mul(&x.val, &y.val), v: cost(&x, &y), level: 0, len: 3 };
                self.check_joint(&h3);
                if h3.v + ks + self.eb() >= b.cap(0) { return; }
                let mut c = (*h3.ct).clone();
                let rk = self.rlk.as_ref().unwrap();
                lib_ok("relinearizes", || rk.relinearizes(&mut c));
                ensure!(c.len() == 2, "relin-length", "relinearised ciphertext has {} polynomials", c.len());
                sim.op("mul-relin");
                self.push(H { ct: Arc::new(c), v: h3.v + ks, len: 2, ..h3 });
            }
            A::Down => {
                let Some(x) = self.pick(&mut r, |h| h.level < b.max_level() && b.switch_down(h.level, h.v + 1.0, h.len) + self.eb() < b.cap(h.level + 1)) else { return };
                let mut c = (*x.ct).clone();
                lib_ok("switch_down", || c.switch_down());
                self.push(H { ct: Arc::new(c), v: b.switch_down(x.level, x.v + 1.0, x.len), level: x.level + 1, ..x });
            }
            A::Decrypt => {
                let Some(x) = self.pick(&mut r, |h| h.len == 2 && h.v + self.eb() + 1.0 < b.cap(h.level)) else { return };
                let simd = matches!(x.val, Val::Simd(_));
                let ct = x.ct.clone();
                let f: Work<DecryptionShare> = Arc::new(move |p, rng| { let sk = p.sk(); let c = ct.clone(); lib_ok("DecryptionShare::new", || DecryptionShare::new(sk, &c, rng)) });
                let Ok(sh) = self.round(sim, "decrypt-share", false, f) else { unreachable!() };
                let mut sh: Vec<DecryptionShare> = sh.into_iter().map(|x| x.1).collect();
                r.shuffle(&mut sh);
                let pt: Plaintext = if r.pct(50) { lib_ok("Plaintext::from_shares", || sh.into_iter().aggregate()) } else { lib_ok("Plaintext::from_shares(Result)", || sh.into_iter().map(Ok::<_, fhe::Error>).aggregate()) };
                let got = decode(&pt, &self.ring, simd, x.level, pick_form(&mut r));
                ensure!(got == x.val, "threshold-decrypt", "{} parties: threshold decryption at level {} gives another plaintext (noise bound 2^{:.1} of 2^{:.1})", self.k, x.level, x.v.log2(), b.cap(x.level).log2());
                // The result must also serve as a plaintext operand.
                if x.v + 3.0 < b.cap(x.level) && r.pct(30) {
                    let d = lib("sub-pt", || &*x.ct - &pt);
                    let z = H { ct: Arc::new(d), val: self.ring.zero(simd), v: x.v + 2.0, ..x.clone() };
                    self.check_joint(&z);
                }
                sim.op("threshold-decrypt");
                sim.state(mix(self.k as u64, mix(x.level as u64, x.v.log2() as u64)));
            }
            A::SkSwitch => {
                let Some(x) = self.pick(&mut r, |h| h.len == 2 && h.v + 2.0 * self.eb() + 1.0 < b.cap(h.level)) else { return };
                let mut outs = vec![];
                for i in 0..self.k {
                    if self.nodes[i].is_none() { self.up(sim, i) }
                    let (seed, par) = (sim.lib_seed(), par.clone());
                    // an output share may be zero, shared or fresh
                    let z = r.pct(15);
                    let n = self.ring.n;
                    let c = self.nodes[i].as_ref().unwrap().call(move |p| {
                        let sk = if z { sk_from_coeffs(&vec![0; n], &par) } else { SecretKey::random(&par, &mut LibRng::new(seed)) };
                        let c = sk_coeffs(&sk);
                        p.out = Some(sk);
                        c
                    });
                    outs.push(c);
                }
                let ct = x.ct.clone();
                let outs2 = outs.clone();
                let idx: Arc<Vec<Vec<i64>>> = Arc::new(outs2);
                // After a crash the party reloads its output share from the coordinator's record.
                let par2 = par.clone();
                let ss = self.s.clone();
                let f: Work<SecretKeySwitchShare> = Arc::new(move |p, rng| {
                    if p.out.is_none() {
                        let me = sk_coeffs(p.sk());
                        let i = ss.iter().position(|s| *s == me).expect("party");
                        p.out = Some(sk_from_coeffs(&idx[i], &par2));
                    }
                    let c = ct.clone();
                    lib_ok("SecretKeySwitchShare::new", || SecretKeySwitchShare::new(p.sk(), p.out.as_ref().unwrap(), c, rng))
                });
                let Ok(sh) = self.round(sim, "sk-switch-share", false, f) else { unreachable!() };
                let mut sh: Vec<SecretKeySwitchShare> = sh.into_iter().map(|x| x.1).collect();
                r.shuffle(&mut sh);
                let out: Ciphertext = lib_ok("Ciphertext::from_shares(sk)", || sh.into_iter().aggregate());
                let sum = add_keys(&outs);
                self.judge_switched(&x, &out, &sum, x.v + self.eb() + 2.0, "secret-key switch", x.level);
                sim.op("sk-switch");
                for i in 0..self.k { if let Some(n) = &self.nodes[i] { n.call(|p| p.out = None) } }
            }
            A::PkSwitch => {
                let e = |l: usize| b.b + l as f64 * (1.0 + b.n * b.b);
                let kf = self.k as f64;
                let add = |l: usize| kf * (b.n * b.b * e(l) + b.b + b.n * b.b * b.b) + 2.0;
                let Some(x) = self.pick(&mut r, |h| h.len == 2 && h.v + add(h.level) + 1.0 < b.cap(h.level)) else { return };
                let mut lr = sim.lib_rng();
                let rsk = lib("SecretKey::random", || SecretKey::random(&par, &mut lr));
                let rpk = lib("PublicKey::new", || PublicKey::new(&rsk, &mut lr));
                let rpk = if r.pct(50) { let by = rpk.to_bytes(); lib_ok("PublicKey::from_bytes", || PublicKey::from_bytes(&by, &par)) } else { rpk };
                let rpk = Arc::new(rpk);
                let ct = x.ct.clone();
                let f: Work<PublicKeySwitchShare> = Arc::new(move |p, rng| { let (sk, pk, c) = (p.sk(), rpk.clone(), ct.clone()); lib_ok("PublicKeySwitchShare::new", || PublicKeySwitchShare::new(sk, &pk, &c, rng)) });
                let Ok(sh) = self.round(sim, "pk-switch-share", false, f) else { unreachable!() };
                let mut sh: Vec<PublicKeySwitchShare> = sh.into_iter().map(|x| x.1).collect();
                r.shuffle(&mut sh);
                let out: Ciphertext = lib_ok("Ciphertext::from_shares(pk)", || sh.into_iter().aggregate());
                self.judge_switched(&x, &out, &sk_coeffs(&rsk), x.v + add(x.level) + 2.0, "public-key switch", x.level);
                sim.op("pk-switch");
            }
            A::Order => self.order(sim, &mut r),
            A::Refuse => self.refuse(sim, &mut r),
            A::Partial => self.partial(sim, &mut r),
        }
    }
    fn judge_switched(&self, x: &H, out: &Ciphertext, s: &[i64], v: f64, what: &str, level: usize) {
        let par = &self.par;
        ensure!(out.len() == 2 && level_of(par, out) == level, "switch-shape", "{what}: {} polynomials at level {} from level {level}", out.len(), level_of(par, out));
        let sk = sk_from_coeffs(s, par);
        let bytes = lib("Ciphertext::to_bytes", || out.to_bytes());
        let back = lib_ok("Ciphertext::from_bytes", || Ciphertext::from_bytes(&bytes, par));
        ensure!(back == *out, "roundtrip-Ciphertext", "{what}: the result does not survive its byte form");
        let pt = lib_ok("SecretKey::try_decrypt", || sk.try_decrypt(&back));
        let got = decode(&pt, &self.ring, matches!(x.val, Val::Simd(_)), level, 0);
        ensure!(got == x.val, "switched-plaintext", "{what} with {} parties at level {level}: the result decrypts to another plaintext under the receiving key", self.k);
        let Val::Poly(m) = decode(&pt, &self.ring, false, level, 2) else { unreachable!() };
        let nz = noise_max(&noise_poly(par, s, out, &m));
        ensure!(nz.to_f64().unwrap() <= v, "switch-noise", "{what}: noise of {} bits exceeds the bound 2^{:.1}", nz.bits(), v.log2());
    }

    /// Random shares, random order, same bytes.
    fn order(&mut self, sim: &mut Sim, r: &mut Rng) {
        let Some(x) = self.pick(r, |h| h.len == 2 && h.v + 2.0 * self.eb() + 1.0 < self.b.cap(h.level)) else { return };
        // Not cloneable: rebuild the same shares from the same generator seeds.
        let seeds: Vec<u64> = (0..self.k).map(|_| sim.lib_seed()).collect();
        let sks: Vec<SecretKey> = self.s.iter().map(|s| sk_from_coeffs(s, &self.par)).collect();
        let mut lr = sim.lib_rng();
        let rsk = lib("SecretKey::random", || SecretKey::random(&self.par, &mut lr));
        let rpk = lib("PublicKey::new", || PublicKey::new(&rsk, &mut lr));
        let kind = r.below(3);
        let mut res: Vec<Vec<u8>> = vec![];
        for round in 0..3 {
            let mut ord: Vec<usize> = (0..self.k).collect();
            if round > 0 { r.shuffle(&mut ord) }
            let g = |i: usize| LibRng::new(seeds[i]);
            let by = match kind {
                0 => {
                    let sh: Vec<DecryptionShare> = ord.iter().map(|i| lib_ok("DecryptionShare::new", || DecryptionShare::new(&sks[*i], &x.ct, &mut g(*i)))).collect();
                    let pt: Plaintext = lib_ok("Plaintext::from_shares", || sh.into_iter().aggregate());
                    let Val::Poly(v) = decode(&pt, &self.ring, false, x.level, 2) else { unreachable!() };
                    v.iter().flat_map(|x| x.to_bytes_le()).collect()
                }
                1 => {
                    let sh: Vec<SecretKeySwitchShare> = ord.iter().map(|i| lib_ok("SecretKeySwitchShare::new", || SecretKeySwitchShare::new(&sks[*i], &rsk, x.ct.clone(), &mut g(*i)))).collect();
                    let c: Ciphertext = lib_ok("Ciphertext::from_shares(sk)", || sh.into_iter().aggregate());
                    c.to_bytes()
                }
                _ => {
                    let sh: Vec<PublicKeySwitchShare> = ord.iter().map(|i| lib_ok("PublicKeySwitchShare::new", || PublicKeySwitchShare::new(&sks[*i], &rpk, &x.ct, &mut g(*i)))).collect();
                    let c: Ciphertext = lib_ok("Ciphertext::from_shares(pk)", || sh.into_iter().aggregate());
                    c.to_bytes()
                }
            };
            res.push(by);
        }
        ensure!(res[0] == res[1] && res[0] == res[2], "order", "aggregation kind {kind} with {} shares depends on their order", self.k);
        sim.digest("order", &res[0]);
        sim.op("order");
    }
    /// No shares, failed shares, unsupported ciphertexts: refused with an error.
    fn refuse(&mut self, sim: &mut Sim, r: &mut Rng) {
        lib_err("PublicKey::from_shares(none)", || PublicKey::from_shares(std::iter::empty::<PublicKeyShare>()));
        lib_err("RelinKeyShare::from_shares(none)", || RelinKeyShare::<R1Aggregated>::from_shares(std::iter::empty::<RelinKeyShare<R1>>()));
        lib_err("RelinearizationKey::from_shares(none)", || RelinearizationKey::from_shares(std::iter::empty::<RelinKeyShare<R2>>()));
        lib_err("Ciphertext::from_shares(none, sk)", || Ciphertext::from_shares(std::iter::empty::<SecretKeySwitchShare>()));
        lib_err("Ciphertext::from_shares(none, pk)", || Ciphertext::from_shares(std::iter::empty::<PublicKeySwitchShare>()));
        lib_err("Plaintext::from_shares(none)", || Plaintext::from_shares(std::iter::empty::<DecryptionShare>()));
        let sks: Vec<SecretKey> = self.s.iter().map(|s| sk_from_coeffs(s, &self.par)).collect();
        let mut lr = sim.lib_rng();
        let bad = r.below(self.k);
        let why = || fhe::Error::from(fhe::MultipartyError::NoShares);
        // one failed share fails the aggregate, wherever it is
        let crp = self.crp(sim);
        let v: Vec<Result<PublicKeyShare, fhe::Error>> = sks.iter().enumerate().map(|(i, s)| if i == bad { Err(why()) } else { PublicKeyShare::new(s, crp.clone(), &mut lr) }).collect();
        lib_err("PublicKey::from_shares(failed share)", || v.into_iter().aggregate::<PublicKey>());
        if let Some(x) = self.pick(r, |h| h.len == 2) {
            let v: Vec<Result<DecryptionShare, fhe::Error>> = sks.iter().enumerate().map(|(i, s)| if i == bad { Err(why()) } else { DecryptionShare::new(s, &x.ct, &mut lr) }).collect();
            lib_err("Plaintext::from_shares(failed share)", || v.into_iter().aggregate::<Plaintext>());
            let v: Vec<Result<SecretKeySwitchShare, fhe::Error>> = sks.iter().enumerate().map(|(i, s)| if i == bad { Err(why()) } else { SecretKeySwitchShare::new(s, &sks[0], x.ct.clone(), &mut lr) }).collect();
            lib_err("Ciphertext::from_shares(failed share)", || v.into_iter().aggregate::<Ciphertext>());
            // products that were not relinearised, and the empty ciphertext
            let c3 = Arc::new(lib("mul", || &*x.ct * &*x.ct));
            let z = Arc::new(Ciphertext::zero(&self.par));
            let rpk = lib("PublicKey::new", || PublicKey::new(&sks[0], &mut lr));
            for c in [c3, z] {
                lib_err("DecryptionShare::new(bad size)", || DecryptionShare::new(&sks[0], &c, &mut lr).map(|_| ()));
                lib_err("SecretKeySwitchShare::new(bad size)", || SecretKeySwitchShare::new(&sks[0], &sks[0], c.clone(), &mut lr).map(|_| ()));
                lib_err("PublicKeySwitchShare::new(bad size)", || PublicKeySwitchShare::new(&sks[0], &rpk, &c, &mut lr).map(|_| ()));
            }
            // keys of another parameter set
            let mut o = self.spec.clone();
            o.var = if o.var == 1 { 2 } else { o.var - 1 };
            let par2 = lib_ok("build_arc", || o.build());
            let k2 = lib("SecretKey::random", || SecretKey::random(&par2, &mut lr));
            let pk2 = lib("PublicKey::new", || PublicKey::new(&k2, &mut lr));
            lib_err("DecryptionShare::new(other parameters)", || DecryptionShare::new(&k2, &x.ct, &mut lr).map(|_| ()));
            lib_err("SecretKeySwitchShare::new(other parameters, in)", || SecretKeySwitchShare::new(&k2, &sks[0], x.ct.clone(), &mut lr).map(|_| ()));
            lib_err("SecretKeySwitchShare::new(other parameters, out)", || SecretKeySwitchShare::new(&sks[0], &k2, x.ct.clone(), &mut lr).map(|_| ()));
            lib_err("PublicKeySwitchShare::new(other parameters, pk)", || PublicKeySwitchShare::new(&sks[0], &pk2, &x.ct, &mut lr).map(|_| ()));
            lib_err("PublicKeySwitchShare::new(other parameters, sk)", || PublicKeySwitchShare::new(&k2, &rpk, &x.ct, &mut lr).map(|_| ()));
        }
        // too few or too many common polynomials
        if self.spec.moduli.len() > 1 {
            let crps = lib_ok("CommonRandomPoly::new_vec", || CommonRandomPoly::new_vec(&self.par, &mut lr));
            let few = &crps[..crps.len() - 1];
            lib_err("RelinKeyGenerator::new(too few)", || RelinKeyGenerator::new(&sks[0], few, &mut lr).map(|_| ()));
            let mut many = crps.clone();
            many.push(crps[0].clone());
            lib_err("RelinKeyGenerator::new(too many)", || RelinKeyGenerator::new(&sks[0], &many, &mut lr).map(|_| ()));
        }
        sim.op("refuse");
    }
    /// A dropped-out party: the others' shares do not reveal the plaintext.
    fn partial(&mut self, sim: &mut Sim, r: &mut Rng) {
        if self.k < 2 { return; }
        let bits = self.ring.tf.log2() * self.ring.n as f64;
        if bits < 40.0 { return; }
        let Some(x) = self.pick(r, |h| h.len == 2 && h.v + self.eb() + 1.0 < self.b.cap(h.level)) else { return };
        if self.s.iter().any(|s| s.iter().filter(|c| **c != 0).count() < 3) { return; }
        let sks: Vec<SecretKey> = self.s.iter().map(|s| sk_from_coeffs(s, &self.par)).collect();
        let mut lr = sim.lib_rng();
        let out = r.below(self.k);
        let simd = matches!(x.val, Val::Simd(_));
        // Transparent ciphertexts (x - x, products with 0) need no key at all: what
        // the missing share contributes must matter for this ciphertext.
        let q = modulus_at(&self.par, x.level);
        let z = vec![BigUint::ZERO; self.ring.n];
        let part = crate::model::phase(&[z, lift(&x.ct[1])], &self.s[out], &q);
        let far = part.iter().filter(|a| { let d = if *a + *a > q { &q - *a } else { (*a).clone() }; &d * &self.ring.t > q.clone() * 2u32 }).count();
        if self.ring.t > big(4) && far < 3 || self.ring.t <= big(4) && part.iter().all(|a| *a == BigUint::ZERO) { return; }
        let v: Vec<DecryptionShare> = sks.iter().enumerate().filter(|(i, _)| *i != out).map(|(_, s)| lib_ok("DecryptionShare::new", || DecryptionShare::new(s, &x.ct, &mut lr))).collect();
        if let Ok(Ok(pt)) = lib_any(|| v.into_iter().aggregate::<Plaintext>()) {
            let got = decode(&pt, &self.ring, simd, x.level, 0);
            ensure!(got != x.val, "partial-decrypt", "{} of {} shares already decrypt", self.k - 1, self.k);
        }
        // each share alone must not decrypt either, nor must a share without masking error
        let Val::Poly(m) = decode(&lib_ok("SecretKey::try_decrypt", || self.joint.try_decrypt(&x.ct)), &self.ring, false, x.level, 2) else { unreachable!() };
        let _ = m;
        // single-share switch to key zero leaks s_i * c1 unless it is masked
        let sh = lib_ok("SecretKeySwitchShare::new", || SecretKeySwitchShare::new(&sks[out], &sk_from_coeffs(&vec![0; self.ring.n], &self.par), x.ct.clone(), &mut lr));
        let c: Ciphertext = lib_ok("Ciphertext::from_shares(sk)", || vec![sh].into_iter().aggregate());
        // c0' = c0 + s_out*c1 + e  =>  recompute without e and compare
        let c0 = lift(&c[0]);
        let base: Vec<Vec<BigUint>> = x.ct.iter().map(lift).collect();
        let ph = crate::model::phase(&base, &self.s[out], &q);
        let e: Vec<BigUint> = c0.iter().zip(&ph).map(|(a, b)| { let d = if a >= b { a - b } else { a + &q - b }; if &d + &d > q { &q - d } else { d } }).collect();
        let mx = e.iter().max().cloned().unwrap_or_default();
        ensure!(mx <= big(2 * self.spec.var as u64), "share-error", "the error of a decryption share has {} bits, the variance is {}", mx.bits(), self.spec.var);
        ensure!(self.ring.n < 32 || mx != BigUint::ZERO, "share-unmasked", "a decryption share carries no masking error");
        sim.op("partial");
    }
}

pub fn run(sim: &mut Sim, p: &Profile) {
    sim.begin(0);
    let mut c = Coop::new(sim, p);
    let (lo, hi) = p.steps;
    let hi = if c.k > 9 { lo + 2 } else { hi };
    let steps = sim.rng.range(lo, hi) * if sim.thorough { 2 } else { 1 };
    let mut w = p.w.to_vec();
    for x in w.iter_mut() { if x.0 != A::Enc && sim.rng.pct(15) { x.1 = 0 } }
    let kinds: Vec<u32> = w.iter().map(|x| x.1).collect();
    for i in 1..=steps as u32 {
        if !sim.begin(i) { continue; }
        sim.calm = false;
        let mut a = w[sim.rng.weighted(&kinds)].0;
        if c.hs.is_empty() && !matches!(a, A::PkGen | A::Relin) { a = A::Enc }
        sim.log(&format!("{a:?}"));
        for k in 0..c.k { if sim.fault("party-crash", 2 * c.pm) { c.crash(sim, k); c.up(sim, k); } }
        c.act(sim, a);
        c.revive(sim);
        sim.now += 1000;
    }
    // faults stop: a complete key generation and decryption must go through
    sim.begin(u32::MAX);
    sim.calm = true;
    c.act(sim, A::PkGen);
    c.act(sim, A::Enc);
    c.act(sim, A::Decrypt);
}

const W0: Want = Want { min_moduli: 1, max_moduli: 4, max_deg_log: 7, simd: 60, depth: 1, big_t: true };
pub const C08: Profile = Profile { w: &[(A::Enc, 14), (A::PkGen, 8), (A::Add, 8), (A::Mul, 4), (A::MulPt, 4), (A::Down, 8), (A::Decrypt, 24)], want: W0, steps: (8, 24), faults: 10 };
pub const C09: Profile = Profile { w: &[(A::Enc, 14), (A::PkGen, 2), (A::Relin, 10), (A::Add, 4), (A::Mul, 24), (A::Down, 4), (A::Decrypt, 8)], want: Want { min_moduli: 2, max_moduli: 5, max_deg_log: 6, ..W0 }, steps: (8, 24), faults: 8 };
pub const C10: Profile = Profile { w: &[(A::Enc, 14), (A::PkGen, 3), (A::Add, 6), (A::Mul, 3), (A::MulPt, 3), (A::Down, 8), (A::SkSwitch, 16), (A::PkSwitch, 18)], want: W0, steps: (8, 24), faults: 10 };
pub const C11: Profile = Profile { w: &[(A::Enc, 14), (A::PkGen, 8), (A::Relin, 4), (A::Add, 4), (A::Mul, 3), (A::Down, 6), (A::Decrypt, 8), (A::SkSwitch, 4), (A::PkSwitch, 4), (A::Order, 16), (A::Refuse, 10), (A::Partial, 14)], want: W0, steps: (8, 24), faults: 10 };
