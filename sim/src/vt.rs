//! Permission for variable-time computation: histories of polynomial and
//! ciphertext operations over public and secret operands, each operation also
//! run with no permission anywhere.
use crate::bfvx::*;
use crate::core::{Sim, fnv, lib, lib_any, lib_ok};
use crate::model::{Val, ntt_prime};
use crate::node::Node;
use crate::params::{Spec, Want, gen_spec};
use crate::rt::*;
use fhe::bfv::*;
use fhe::mbfv::*;
use fhe_math::rns::ScalingFactor;
use fhe_math::rq::{Context, Ntt, NttShoup, Poly, PowerBasis, SubstitutionExponent, dot_product, scaler::Scaler, switcher::Switcher, traits::TryConvertFrom};
use fhe_traits::*;
use num_bigint::BigUint;
use std::sync::Arc;

#[derive(Clone)]
pub enum P { B(Poly<PowerBasis>), N(Poly<Ntt>), S(Poly<NttShoup>) }
macro_rules! each { ($p:expr, $x:ident => $e:expr) => { match $p { P::B($x) => $e, P::N($x) => $e, P::S($x) => $e } } }
impl P {
    pub fn flag(&self) -> bool { each!(self, x => x.allows_variable_time_computations()) }
    pub fn allow(&mut self) { each!(self, x => x.allow_variable_time_computations(public())) }
    pub fn disallow(&mut self) { each!(self, x => x.disallow_variable_time_computations()) }
    pub fn bytes(&self) -> Vec<u8> { each!(self, x => x.to_bytes()) }
    pub fn same(&self, o: &P) -> bool { match (self, o) { (P::B(a), P::B(b)) => a == b, (P::N(a), P::N(b)) => a == b, (P::S(a), P::S(b)) => a == b, _ => false } }
    pub fn ctx(&self) -> &Arc<Context> { each!(self, x => x.ctx()) }
    pub fn kind(&self) -> u8 { match self { P::B(_) => 0, P::N(_) => 1, P::S(_) => 2 } }
    pub fn power(self) -> Poly<PowerBasis> { match self { P::B(x) => x, P::N(x) => x.into_power_basis(), P::S(x) => x.into_power_basis() } }
    pub fn raw(&self) -> Vec<Vec<u64>> { each!(self, x => x.coefficients().outer_iter().map(|r| r.to_vec()).collect()) }
}
/// A polynomial, the same polynomial computed without any permission, and
/// whether permission may exist: all it derives from was declared public.
#[derive(Clone)]
struct E { v: P, s: P, may: bool }
/// The same for ciphertexts, polynomial by polynomial.
#[derive(Clone)]
struct C { v: Ciphertext, s: Ciphertext, may: Vec<bool> }

struct W {
    spec: Spec, par: Arc<BfvParameters>, sk: SecretKey, skb: SecretKey, pk: PublicKey,
    rk: Option<RelinearizationKey>, ek: Option<EvaluationKey>, rgsw: RGSWCiphertext, cols: Vec<usize>,
    ctxs: Vec<Arc<Context>>, es: Vec<E>, cs: Vec<C>, rng: LibRng, checks: u64, granted: u64,
}

fn check(what: &str, e: &E) {
    ensure!(e.may || !e.v.flag(), "permission-granted", "{what}: the result permits variable time, an operand or the source did not");
    ensure!(!e.s.flag(), "permission-granted", "{what}: the result permits variable time although no operand does");
    ensure!(e.v.same(&e.s), "permission-changes-value", "{what}: the value differs from the one computed without permission");
    ensure!(e.v.bytes() == e.s.bytes(), "permission-changes-value", "{what}: the bytes differ from those computed without permission");
}
fn check_ct(what: &str, c: &C) {
    ensure!(c.v.len() == c.s.len() && c.v.len() == c.may.len(), "permission-changes-value", "{what}: {} polynomials with permission, {} without, {} expected", c.v.len(), c.s.len(), c.may.len());
    for i in 0..c.v.len() {
        ensure!(c.may[i] || !c.v[i].allows_variable_time_computations(), "permission-granted", "{what}: polynomial {i} of the result permits variable time, an operand did not");
        ensure!(!c.s[i].allows_variable_time_computations() , "permission-granted", "{what}: polynomial {i} of the result permits variable time although no operand does");
        ensure!(c.v[i] == c.s[i], "permission-changes-value", "{what}: polynomial {i} differs from the one computed without permission");
    }
}

/// Residues with many edge cases.
fn residues(r: &mut Rng, moduli: &[u64], n: usize) -> Vec<u64> {
    let style = r.below(4);
    moduli.iter().flat_map(|q| (0..n).map(|_| match style {
        0 => r.below64(*q),
        1 => *r.pick(&[0, 1, q - 1, q / 2, q / 2 + 1]),
        2 => q - 1,
        _ => if r.pct(80) { 0 } else { q - 1 - r.below64(3) },
    }).collect::<Vec<_>>()).collect()
}

impl W {
    fn put(&mut self, what: &str, e: E) {
        check(what, &e);
        self.checks += 1;
        self.granted += e.v.flag() as u64;
        if self.es.len() < 24 { self.es.push(e) } else { let k = self.checks as usize * 7 % 24; self.es[k] = e }
    }
    fn putc(&mut self, what: &str, c: C) {
        check_ct(what, &c);
        self.checks += 1;
        self.granted += c.v.iter().filter(|p| p.allows_variable_time_computations()).count() as u64;
        if c.v.len() > 4 { return }
        if self.cs.len() < 12 { self.cs.push(c) } else { let k = self.checks as usize * 5 % 12; self.cs[k] = c }
    }
    /// Operands may be read but not altered, permission included.
    fn kept(&self, what: &str, i: usize, before: &E) { ensure!(self.es[i].v.same(&before.v) && self.es[i].v.flag() == before.v.flag(), "operand-altered", "{what} altered an operand it borrows") }

    fn create(&mut self, r: &mut Rng) {
        let ctx = r.pick(&self.ctxs).clone();
        let (n, m) = (self.spec.n, ctx.moduli().to_vec());
        let may = r.pct(60);
        let kind = r.below(3);
        macro_rules! conv { ($what:expr, $v:expr) => {{
            let via = may && r.pct(50);
            macro_rules! one { ($R:ty, $c:ident) => {{
                let v = if via { lib_ok("try_convert_from_public", || Poly::<$R>::try_convert_from_public($v, &ctx, public())) } else { lib_ok("try_convert_from", || Poly::<$R>::try_convert_from($v, &ctx, may)) };
                let s = lib_ok("try_convert_from", || Poly::<$R>::try_convert_from($v, &ctx, false));
                (P::$c(v), P::$c(s))
            }} }
            let (v, s) = match kind { 0 => one!(PowerBasis, B), 1 => one!(Ntt, N), _ => one!(NttShoup, S) };
            self.put($what, E { v, s, may });
        }} }
        match r.below(9) {
            0 | 1 | 2 => { let x = residues(r, &m, n); conv!("conversion of residues", x.clone()) }
            3 => { let x: Vec<BigUint> = (0..n).map(|_| BigUint::from(r.u64()) * BigUint::from(r.u64()) % ctx.modulus()).collect(); conv!("conversion of integers", &x[..]) }
            4 | 5 => {
                // short vectors of words and of signed words: power basis only
                let k = r.range(0, n);
                let (v, s) = if r.pct(50) {
                    let x: Vec<u64> = (0..k).map(|_| *r.pick(&[0, 1, u64::MAX, 1 << 62, m[0], m[0] - 1, 12345678912345])).collect();
                    (lib_ok("try_convert_from", || Poly::<PowerBasis>::try_convert_from(&x[..], &ctx, may)), lib_ok("try_convert_from", || Poly::<PowerBasis>::try_convert_from(&x[..], &ctx, false)))
                } else {
                    let x: Vec<i64> = (0..k).map(|_| *r.pick(&[0, 1, -1, i64::MAX, i64::MIN + 1, 20, -20, m[0] as i64, -(m[0] as i64)])).collect();
                    (lib_ok("try_convert_from", || Poly::<PowerBasis>::try_convert_from(&x[..], &ctx, may)), lib_ok("try_convert_from", || Poly::<PowerBasis>::try_convert_from(&x[..], &ctx, false)))
                };
                self.put("conversion of a short vector", E { v: P::B(v), s: P::B(s), may });
            }
            6 => {
                // fresh randomness is not declared public by anybody
                let g = self.rng.clone();
                macro_rules! fresh_pair { ($c:ident, $f:expr) => {{ let v = $f; let mut s = v.clone(); s.disallow_variable_time_computations(); (P::$c(v), P::$c(s)) }} }
                let var = self.spec.var;
                let (what, (v, s)) = match (r.below(3), kind) {
                    (0, 0) => ("random", fresh_pair!(B, Poly::<PowerBasis>::random(&ctx, &mut self.rng))),
                    (0, 1) => ("random", fresh_pair!(N, Poly::<Ntt>::random(&ctx, &mut self.rng))),
                    (0, _) => ("random", fresh_pair!(S, Poly::<NttShoup>::random(&ctx, &mut self.rng))),
                    (1, 0) => ("small", fresh_pair!(B, lib_ok("small", || Poly::<PowerBasis>::small(&ctx, var, &mut self.rng)))),
                    (1, 1) => ("small", fresh_pair!(N, lib_ok("small", || Poly::<Ntt>::small(&ctx, var, &mut self.rng)))),
                    (1, _) => ("small", fresh_pair!(S, lib_ok("small", || Poly::<NttShoup>::small(&ctx, var, &mut self.rng)))),
                    (_, 0) => ("random_from_seed", fresh_pair!(B, Poly::<PowerBasis>::random_from_seed(&ctx, [7; 32]))),
                    (_, 1) => ("random_from_seed", fresh_pair!(N, Poly::<Ntt>::random_from_seed(&ctx, [8; 32]))),
                    (_, _) => ("random_from_seed", fresh_pair!(S, Poly::<NttShoup>::random_from_seed(&ctx, [9; 32]))),
                };
                let _ = g;
                self.put(what, E { v, s, may: false });
            }
            7 => {
                let (v, s) = match kind { 0 => (P::B(Poly::zero(&ctx)), P::B(Poly::zero(&ctx))), 1 => (P::N(Poly::zero(&ctx)), P::N(Poly::zero(&ctx))), _ => (P::S(Poly::zero(&ctx)), P::S(Poly::zero(&ctx))) };
                let mut s = s;
                s.disallow();
                self.put("zero", E { v, s, may: true });
            }
            _ => {
                // the polynomial of a plaintext
                let l = self.ctxs.iter().position(|c| Arc::ptr_eq(c, &ctx)).unwrap();
                if l > self.par.max_level() { return }
                let (pt, _) = self.plaintext(r, l);
                let v = lib_ok("try_convert_from(&Plaintext)", || Poly::<PowerBasis>::try_convert_from(&pt, &ctx, may));
                let s = lib_ok("try_convert_from(&Plaintext)", || Poly::<PowerBasis>::try_convert_from(&pt, &ctx, false));
                self.put("conversion of a plaintext", E { v: P::B(v), s: P::B(s), may });
            }
        }
    }

    fn poly_op(&mut self, r: &mut Rng) -> &'static str {
        if self.es.len() < 4 { self.create(r); return "create" }
        let i = r.below(self.es.len());
        let a = self.es[i].clone();
        // a partner in the same context
        let mut js: Vec<usize> = (0..self.es.len()).filter(|j| self.es[*j].v.ctx() == a.v.ctx()).collect();
        let op = r.below(18);
        if matches!(op, 0..=3) { js.retain(|j| self.es[*j].v.kind() == a.v.kind() || (a.v.kind() == 1 && self.es[*j].v.kind() == 2 && op == 2)) }
        let j = *r.pick(&js);
        let b = self.es[j].clone();
        let may = a.may && b.may;
        // every borrowed and assigning form
        let form = r.below(3);
        macro_rules! bin { ($x:expr, $y:expr, $op:tt, $as:tt) => {{ match form { 0 => $x $op $y, _ => { let mut z = $x.clone(); z $as $y; z } } }} }
        let mut put = |w: &mut W, what: &'static str, v: P, s: P, may: bool| { w.put(what, E { v, s, may }); what };
        match op {
            0 | 1 => {
                let f = |x: &P, y: &P| -> Option<P> { Some(match (x, y, op) {
                    (P::B(x), P::B(y), 0) => P::B(if form == 2 { x.clone() + y.clone() } else { bin!(x, y, +, +=) }),
                    (P::N(x), P::N(y), 0) => P::N(if form == 2 { x.clone() + y.clone() } else { bin!(x, y, +, +=) }),
                    (P::B(x), P::B(y), _) => P::B(bin!(x, y, -, -=)),
                    (P::N(x), P::N(y), _) => P::N(bin!(x, y, -, -=)),
                    _ => return None,
                }) };
                let (Some(v), Some(s)) = lib("addition", || (f(&a.v, &b.v), f(&a.s, &b.s))) else { return "skip" };
                self.kept("addition", i, &a);
                self.kept("addition", j, &b);
                put(self, if op == 0 { "addition" } else { "subtraction" }, v, s, may)
            }
            2 | 3 => {
                let f = |x: &P, y: &P| -> Option<P> { Some(match (x, y) {
                    (P::N(x), P::N(y)) => P::N(bin!(x, y, *, *=)),
                    (P::N(x), P::S(y)) => P::N(bin!(x, y, *, *=)),
                    _ => return None,
                }) };
                let (Some(v), Some(s)) = lib("multiplication", || (f(&a.v, &b.v), f(&a.s, &b.s))) else { return "skip" };
                self.kept("multiplication", j, &b);
                put(self, "multiplication", v, s, may)
            }
            4 => {
                let k: BigUint = match r.below(4) { 0 => BigUint::from(r.below(3)), 1 => a.v.ctx().modulus() - 1u32, 2 => BigUint::from(r.u64()) << r.below(100), _ => a.v.ctx().modulus() / 2u32 };
                let f = |x: &P| -> Option<P> { Some(match x { P::B(x) => P::B(if form == 1 { &k * x } else { bin!(x, &k, *, *=) }), P::N(x) => P::N(if form == 1 { &k * x } else { bin!(x, &k, *, *=) }), _ => return None }) };
                let (Some(v), Some(s)) = lib("multiplication by an integer", || (f(&a.v), f(&a.s))) else { return "skip" };
                put(self, "multiplication by an integer", v, s, a.may)
            }
            5 => {
                let f = |x: &P| -> Option<P> { Some(match x { P::B(x) => P::B(if form == 0 { -x } else { -x.clone() }), P::N(x) => P::N(if form == 0 { -x } else { -x.clone() }), _ => return None }) };
                let (Some(v), Some(s)) = lib("negation", || (f(&a.v), f(&a.s))) else { return "skip" };
                put(self, "negation", v, s, a.may)
            }
            6 => {
                let e = lib_ok("SubstitutionExponent::new", || SubstitutionExponent::new(a.v.ctx(), 2 * r.below(2 * self.spec.n) + 1));
                let f = |x: &P| match x { P::B(x) => P::B(lib_ok("substitute", || x.substitute(&e))), P::N(x) => P::N(lib_ok("substitute", || x.substitute(&e))), P::S(x) => P::S(lib_ok("substitute", || x.substitute(&e))) };
                let (v, s) = (f(&a.v), f(&a.s));
                put(self, "substitution", v, s, a.may)
            }
            7 | 8 => {
                let to = r.below(3);
                let f = |x: P| match (x, to) {
                    (P::B(x), 0) => P::B(x.to_power_basis()), (P::N(x), 0) => P::B(if form == 0 { x.to_power_basis() } else { x.into_power_basis() }), (P::S(x), 0) => P::B(if form == 0 { x.to_power_basis() } else { x.into_power_basis() }),
                    (P::B(x), 1) => P::N(x.into_ntt()), (P::S(x), 1) => P::N(x.into_ntt()), (P::N(x), 1) => P::N(x),
                    (P::B(x), _) => P::S(x.into_ntt_shoup()), (P::N(x), _) => P::S(x.into_ntt_shoup()), (P::S(x), _) => P::S(x),
                };
                let (v, s) = lib("conversion", || (f(a.v.clone()), f(a.s.clone())));
                put(self, "change of representation", v, s, a.may)
            }
            9 => {
                let (P::B(v), P::B(s)) = (&a.v, &a.s) else { return "skip" };
                let (mut v, mut s) = (v.clone(), s.clone());
                if v.ctx().moduli().len() < 2 { return "skip" }
                let k = r.range(1, v.ctx().moduli().len() - 1);
                if form == 0 { for x in [&mut v, &mut s] { lib_ok("switch_down", || x.switch_down()) } }
                else { let to = lib_ok("context_at_level", || v.ctx().context_at_level(k)); for x in [&mut v, &mut s] { lib_ok("switch_down_to", || x.switch_down_to(&to)) } }
                let c = v.ctx().clone();
                if !self.ctxs.contains(&c) { return "switching down" }
                put(self, "switching down", P::B(v), P::B(s), a.may)
            }
            10 => {
                let (P::B(v), P::B(s)) = (&a.v, &a.s) else { return "skip" };
                let (mut v, mut s) = (v.clone(), s.clone());
                let k = r.below(2 * self.spec.n);
                for x in [&mut v, &mut s] { lib_ok("multiply_inverse_power_of_x", || x.multiply_inverse_power_of_x(k)) }
                put(self, "multiplication by a monomial", P::B(v), P::B(s), a.may)
            }
            11 | 12 => {
                let to = r.pick(&self.ctxs).clone();
                let switch = r.pct(50);
                let sw = lib_ok("Switcher::new", || Switcher::new(a.v.ctx(), &to));
                let (n, d) = (BigUint::from(r.range(1, 1 << 16)), BigUint::from(r.range(1, 1 << 16)));
                let same = r.pct(30);
                let sc = lib_ok("Scaler::new", || Scaler::new(a.v.ctx(), &to, if same { ScalingFactor::one() } else { ScalingFactor::new(&n, &d) }));
                let f = |x: &P| -> Option<P> { Some(match x {
                    P::B(x) => P::B(lib_ok("switch", || if switch { x.switch(&sw) } else { x.scale(&sc) })),
                    P::N(x) => P::N(lib_ok("switch", || if switch { x.switch(&sw) } else { x.scale(&sc) })),
                    _ => return None,
                }) };
                let (Some(v), Some(s)) = (f(&a.v), f(&a.s)) else { return "skip" };
                put(self, if switch { "switch to another context" } else { "scaling" }, v, s, a.may)
            }
            13 => {
                let ids: Vec<usize> = js.iter().copied().filter(|j| self.es[*j].v.kind() == 1).collect();
                if ids.is_empty() { return "skip" }
                let k = if r.pct(30) { r.range(16, 40) } else { r.range(1, 6) };
                let xs: Vec<(usize, usize)> = (0..k).map(|_| (*r.pick(&ids), *r.pick(&ids))).collect();
                let get = |sh: bool, k: usize| -> &Poly<Ntt> { match if sh { &self.es[k].s } else { &self.es[k].v } { P::N(x) => x, _ => unreachable!() } };
                let v = lib_ok("dot_product", || dot_product(xs.iter().map(|x| get(false, x.0)), xs.iter().map(|x| get(false, x.1))));
                let s = lib_ok("dot_product", || dot_product(xs.iter().map(|x| get(true, x.0)), xs.iter().map(|x| get(true, x.1))));
                let may = xs.iter().all(|x| self.es[x.0].may && self.es[x.1].may);
                put(self, "dot product of polynomials", P::N(v), P::N(s), may)
            }
            14 => {
                // bytes carry no permission, whatever they claim
                let mut y = a.v.bytes();
                if r.pct(50) { y.extend([0x20, 1]) }
                let ctx = a.v.ctx().clone();
                let v = match a.v.kind() { 0 => P::B(lib_ok("Poly::from_bytes", || Poly::from_bytes(&y, &ctx))), 1 => P::N(lib_ok("Poly::from_bytes", || Poly::from_bytes(&y, &ctx))), _ => P::S(lib_ok("Poly::from_bytes", || Poly::from_bytes(&y, &ctx))) };
                put(self, "restoring a polynomial from bytes", v, a.s.clone(), false)
            }
            15 => {
                let mut e = a;
                if r.pct(50) { e.v.allow(); e.may = true; ensure!(e.v.flag(), "permission-lost", "allow_variable_time_computations does not permit") }
                else { e.v.disallow(); e.may = false; ensure!(!e.v.flag(), "permission-granted", "disallow_variable_time_computations does not forbid") }
                check("permission changed", &e);
                self.es[i] = e;
                "permission"
            }
            16 => {
                // lazily reduced public coefficients times a Shoup polynomial
                let (P::S(y), P::S(ys)) = (&a.v, &a.s) else { return "skip" };
                let row: Vec<u64> = residues(r, &a.v.ctx().moduli()[..1], self.spec.n);
                let x = lib("lazy", || Poly::<Ntt>::create_constant_ntt_polynomial_with_lazy_coefficients_and_variable_time(&row, a.v.ctx(), public()));
                let (v, s) = lib("multiplication of lazy coefficients", || if form == 0 { (&x * y, &x * ys) } else { let (mut z, mut zs) = (x.clone(), x.clone()); z *= y; zs *= ys; (z, zs) });
                let exact = lib_ok("try_convert_from", || Poly::<PowerBasis>::try_convert_from(&row[..], a.v.ctx(), false)).into_ntt();
                let exact = lib("multiplication", || &exact * ys);
                ensure!(exact == s, "permission-changes-value", "lazily reduced coefficients times a polynomial differ from the exact product");
                put(self, "multiplication of lazy coefficients", P::N(v), P::N(s), a.may)
            }
            _ => { let e = a.clone(); put(self, "clone", e.v, e.s, e.may) }
        }
    }

    /// A plaintext and whether it was declared public.
    fn plaintext(&mut self, r: &mut Rng, l: usize) -> (Plaintext, bool) {
        let ring = self.spec.ring();
        let small = ring.t64.is_some_and(|t| t < 1 << 62);
        let simd = ring.simd && r.pct(40);
        let form = r.below(12) as u8;
        let v: Vec<BigUint> = (0..self.spec.n).map(|_| BigUint::from(r.u64()) * BigUint::from(r.u64()) % &self.spec.t).collect();
        let val = if simd && small { Val::Simd(v.iter().map(|x| u64::try_from(x).unwrap()).collect()) } else { Val::Poly(v) };
        let p = PtSpec { val, level: l, form };
        let (par, ring) = (self.par.clone(), ring);
        if r.pct(15) { return (lib_ok("Plaintext::zero", || Plaintext::zero(encoding(simd && small, l), &par)), true) }
        let pt = encode(&par, &ring, &p);
        if small && form % 6 == 3 {
            if r.pct(30) { let pv = lib_ok("PlaintextVec::try_encode_vt", || PlaintextVec::try_encode_vt(&[1u64, 2, 3][..], encoding(simd, l), &par, public())); return (pv[0].clone(), true) }
            return (pt, true)
        }
        (pt, false)
    }

    fn ct_op(&mut self, r: &mut Rng) -> &'static str {
        let par = self.par.clone();
        let lm = par.max_level();
        if self.cs.len() < 3 || r.pct(8) {
            let l = r.below(lm + 1);
            let (pt, _) = self.plaintext(r, l);
            let v: Ciphertext = if r.pct(50) { lib_ok("SecretKey::try_encrypt", || self.sk.try_encrypt(&pt, &mut self.rng)) } else { lib_ok("PublicKey::try_encrypt", || self.pk.try_encrypt(&pt, &mut self.rng)) };
            let s = plain(&v);
            self.putc("encryption", C { v, s, may: vec![true, true] });
            return "encryption";
        }
        let i = r.below(self.cs.len());
        let a = self.cs[i].clone();
        let l = level_of(&par, &a.v);
        let js: Vec<usize> = (0..self.cs.len()).filter(|j| level_of(&par, &self.cs[*j].v) == l).collect();
        let b = self.cs[*r.pick(&js)].clone();
        let form = r.below(3);
        let all = |m: &[bool]| m.iter().all(|x| *x);
        let two = a.v.len() == 2;
        match r.below(20) {
            0 | 1 => {
                let sub = r.pct(50);
                let f = |x: &Ciphertext, y: &Ciphertext| lib("ciphertext addition", || match (sub, form) {
                    (false, 0) => x + y, (false, 1) => { let mut z = x.clone(); z += y; z } (false, _) => x.clone() + y,
                    (true, 0) => x - y, (true, 1) => { let mut z = x.clone(); z -= y; z } (true, _) => x.clone() - y,
                });
                // sums of ciphertexts of different sizes are refused
                if a.v.len() != b.v.len() { return "skip" }
                let may = a.may.iter().zip(&b.may).map(|(x, y)| *x && *y).collect();
                let c = C { v: f(&a.v, &b.v), s: f(&a.s, &b.s), may };
                self.putc("ciphertext addition", c);
                "addition"
            }
            2 => {
                let f = |x: &Ciphertext| lib("ciphertext negation", || if form == 0 { -x } else { -x.clone() });
                let c = C { v: f(&a.v), s: f(&a.s), may: a.may.clone() };
                self.putc("ciphertext negation", c);
                "negation"
            }
            3 | 4 => {
                let (pt, pub_) = self.plaintext(r, l);
                let sub = r.pct(50);
                let f = |x: &Ciphertext| lib("plaintext addition", || match (sub, form) { (false, 0) => x + &pt, (false, 1) => { let mut z = x.clone(); z += &pt; z } (false, _) => &pt + x, (true, 0) => x - &pt, (true, 1) => { let mut z = x.clone(); z -= &pt; z } (true, _) => &pt - x });
                let mut may = a.may.clone();
                may[0] &= pub_;
                let c = C { v: f(&a.v), s: f(&a.s), may };
                self.putc("addition of a plaintext", c);
                "plaintext addition"
            }
            5 => {
                let (pt, pub_) = self.plaintext(r, l);
                let f = |x: &Ciphertext| lib("plaintext multiplication", || match form { 0 => x * &pt, 1 => { let mut z = x.clone(); z *= &pt; z } _ => x.clone() * &pt });
                let may = a.may.iter().map(|x| *x && pub_).collect();
                let c = C { v: f(&a.v), s: f(&a.s), may };
                self.putc("multiplication by a plaintext", c);
                "plaintext multiplication"
            }
            6 | 7 => {
                if a.v.len() + b.v.len() > 5 { return "skip" }
                // sometimes by a copy with other permissions, or by itself
                let b = match r.below(4) { 0 => { let mut b = a.clone(); for (k, p) in b.v.iter_mut().enumerate() { if r.pct(50) { p.disallow_variable_time_computations(); b.may[k] = false } } b } 1 => a.clone(), _ => b };
                let f = |x: &Ciphertext, y: &Ciphertext| lib("ciphertext multiplication", || x * y);
                let mut may = vec![true; a.v.len() + b.v.len() - 1];
                for x in 0..a.v.len() { for y in 0..b.v.len() { may[x + y] &= a.may[x] && b.may[y] } }
                let c = C { v: f(&a.v, &b.v), s: f(&a.s, &b.s), may };
                self.putc("ciphertext multiplication", c);
                "multiplication"
            }
            8 => {
                let Some(rk) = &self.rk else { return "skip" };
                if l != 0 || !two || b.v.len() != 2 { return "skip" }
                let mut m = lib_ok("Multiplicator::default", || Multiplicator::default(rk));
                let down = r.pct(30) && lm > 0;
                if down { lib_ok("enable_mod_switching", || m.enable_mod_switching()) }
                let may = all(&a.may) && all(&b.may);
                let c = C { v: lib_ok("multiply", || m.multiply(&a.v, &b.v)), s: lib_ok("multiply", || m.multiply(&a.s, &b.s)), may: vec![may; 2] };
                self.putc("multiplication with relinearisation", c);
                "multiplicator"
            }
            9 | 10 => {
                let Some(rk) = &self.rk else { return "skip" };
                if a.v.len() != 3 || l != 0 { return "skip" }
                let mut c = a.clone();
                for x in [&mut c.v, &mut c.s] { lib_ok("relinearizes", || rk.relinearizes(x)) }
                c.may = (0..2).map(|k| a.may[k] && a.may[2]).collect();
                self.putc("relinearisation", c);
                "relinearisation"
            }
            11 | 12 => {
                let Some(ek) = &self.ek else { return "skip" };
                if !two || l != 0 { return "skip" }
                let k = r.below(4);
                let col = *r.pick(&self.cols);
                let f = |x: &Ciphertext| match k {
                    0 if ek.supports_row_rotation() => Some(lib_ok("rotates_rows", || ek.rotates_rows(x))),
                    1 if ek.supports_inner_sum() => Some(lib_ok("computes_inner_sum", || ek.computes_inner_sum(x))),
                    2 if ek.supports_expansion(1) => Some(lib_ok("expands", || ek.expands(x, 2)).pop().unwrap()),
                    3 if ek.supports_column_rotation_by(col) => Some(lib_ok("rotates_columns_by", || ek.rotates_columns_by(x, col))),
                    _ => None,
                };
                let (Some(v), Some(s)) = (f(&a.v), f(&a.s)) else { return "skip" };
                self.putc("rotation", C { v, s, may: vec![all(&a.may), a.may[1]] });
                "rotation"
            }
            13 => {
                if !two || l != 0 { return "skip" }
                let g = &self.rgsw;
                let f = |x: &Ciphertext| lib("external product", || if form == 0 { x * g } else { g * x });
                let c = C { v: f(&a.v), s: f(&a.s), may: vec![all(&a.may); 2] };
                self.putc("external product", c);
                "external product"
            }
            14 => {
                let js: Vec<usize> = js.iter().copied().filter(|j| self.cs[*j].v.len() == a.v.len()).collect();
                let k = if r.pct(25) { r.range(16, 40) } else { r.range(1, 5) };
                let ids: Vec<usize> = (0..k).map(|_| *r.pick(&js)).collect();
                let all_pub = r.pct(50);
                let pts: Vec<(Plaintext, bool)> = (0..k).map(|_| loop { let p = self.plaintext(r, l); if !all_pub || p.1 || self.spec.ring().t64.is_none_or(|t| t >= 1 << 62) { break p } }).collect();
                let v = lib_ok("dot_product_scalar", || dot_product_scalar(ids.iter().map(|j| &self.cs[*j].v), pts.iter().map(|p| &p.0)));
                let s = lib_ok("dot_product_scalar", || dot_product_scalar(ids.iter().map(|j| &self.cs[*j].s), pts.iter().map(|p| &p.0)));
                let pp = pts.iter().all(|p| p.1);
                let may = (0..a.v.len()).map(|x| pp && ids.iter().all(|j| self.cs[*j].may[x])).collect();
                self.putc("dot product", C { v, s, may });
                "dot product"
            }
            15 => {
                if l == lm { return "skip" }
                let mut c = a.clone();
                let to = r.range(l + 1, lm);
                for x in [&mut c.v, &mut c.s] { if form == 0 { lib_ok("switch_down", || x.switch_down()) } else { lib_ok("switch_to_level", || x.switch_to_level(to)) } }
                self.putc("switching a ciphertext down", c);
                "switching down"
            }
            16 => {
                let mut c = a.clone();
                for k in 0..c.v.len() { if r.pct(40) {
                    if r.pct(50) { c.v[k].allow_variable_time_computations(public()); c.may[k] = true } else { c.v[k].disallow_variable_time_computations(); c.may[k] = false }
                } }
                check_ct("permission changed", &c);
                self.cs[i] = c;
                "permission"
            }
            17 => {
                // a ciphertext is public once received
                let v = lib_ok("Ciphertext::from_bytes", || Ciphertext::from_bytes(&a.v.to_bytes(), &par));
                let c = C { v, s: a.s.clone(), may: vec![true; a.may.len()] };
                self.putc("restoring a ciphertext", c);
                "restore"
            }
            18 => {
                // a decrypted plaintext is secret
                let pt = lib_ok("try_decrypt", || self.sk.try_decrypt(&a.v));
                let p2 = lib_ok("try_decrypt", || self.sk.try_decrypt(&a.s));
                ensure!(pt == p2, "permission-changes-value", "decryption differs from the one without permission");
                let f = |x: &Ciphertext| lib("multiplication by a decrypted plaintext", || if form == 0 { x + &pt } else { x * &pt });
                let mut may = if form == 0 { a.may.clone() } else { vec![false; a.may.len()] };
                may[0] = false;
                let c = C { v: f(&a.v), s: f(&a.s), may };
                self.putc("use of a decrypted plaintext", c);
                "decryption"
            }
            _ => {
                if !two { return "skip" }
                let (va, sa) = (Arc::new(a.v.clone()), Arc::new(a.s.clone()));
                let g = self.rng.clone();
                self.rng = LibRng::new(r.u64());
                let (par, sk, skb, pk) = (&par, &self.sk, &self.skb, &self.pk);
                let _ = par;
                match form {
                    0 => {
                        let f = |x: &Arc<Ciphertext>| lib_ok("SecretKeySwitchShare", || Ciphertext::from_shares(vec![SecretKeySwitchShare::new(sk, skb, x.clone(), &mut g.clone())?]));
                        let (v, s) = (f(&va), f(&sa));
                        // the published share itself is public
                        let c = C { v, s: plain(&s), may: a.may.clone() };
                        self.putc("switching to another key", c);
                    }
                    1 => {
                        let f = |x: &Arc<Ciphertext>| lib_ok("PublicKeySwitchShare", || Ciphertext::from_shares(vec![PublicKeySwitchShare::new(sk, pk, x, &mut g.clone())?]));
                        let (v, s) = (f(&va), f(&sa));
                        let c = C { v, s: plain(&s), may: vec![a.may[0], true] };
                        self.putc("switching to a public key", c);
                    }
                    _ => {
                        let f = |x: &Arc<Ciphertext>| lib_ok("DecryptionShare", || Plaintext::from_shares(vec![DecryptionShare::new(sk, x, &mut g.clone())?]));
                        let (v, s) = (f(&va), f(&sa));
                        ensure!(v == s, "permission-changes-value", "threshold decryption differs from the one without permission");
                        let f = |x: &Ciphertext| lib("multiplication by a decrypted plaintext", || x * &v);
                        let c = C { v: f(&a.v), s: f(&a.s), may: vec![false; a.may.len()] };
                        self.putc("use of a jointly decrypted plaintext", c);
                    }
                }
                "shares"
            }
        }
    }
}
fn plain(c: &Ciphertext) -> Ciphertext {
    let mut c = c.clone();
    c.iter_mut().for_each(|p| p.disallow_variable_time_computations());
    c
}

pub fn run(sim: &mut Sim) {
    sim.begin(0);
    let mut r = sim.rng.clone();
    let spec: Spec = loop {
        let s = gen_spec(&mut r, Want { min_moduli: 1, max_moduli: 4, max_deg_log: 6, simd: 50, depth: 0, big_t: true });
        if s.build().is_ok() { break s }
    };
    sim.rng = r;
    sim.log(&format!("params n={} t={} q={:?}", spec.n, spec.t, spec.moduli));
    let (ent, seed, extra) = (sim.lib_seed(), sim.lib_seed(), sim.rng.range(20, 61) as u32);
    let sp = spec.clone();
    let mut node = Node::spawn(ent, move || Some(Box::new(world(sp, seed, extra))));
    let steps = sim.rng.range(6, 16);
    let mut bad_key = 0;
    for i in 1..=steps as u32 {
        if !sim.begin(i) { continue }
        if sim.fault("crash", 100) {
            let (ent, seed) = (sim.lib_seed(), sim.lib_seed());
            let (spec, es, cs) = node.call(|w| { let w = w.take().unwrap(); (w.spec.clone(), w.es.iter().map(|e| (e.v.kind(), e.v.bytes(), e.v.ctx().moduli().to_vec())).collect::<Vec<_>>(), w.cs.iter().map(|c| c.v.to_bytes()).collect::<Vec<_>>()) });
            node = Node::spawn(ent, move || {
                let mut w = world(spec, seed, extra);
                // polynomials come back without permission, ciphertexts are public
                for (k, b, m) in es {
                    let Some(ctx) = w.ctxs.iter().find(|c| c.moduli() == m).cloned() else { continue };
                    let v = match k { 0 => P::B(lib_ok("Poly::from_bytes", || Poly::from_bytes(&b, &ctx))), 1 => P::N(lib_ok("Poly::from_bytes", || Poly::from_bytes(&b, &ctx))), _ => P::S(lib_ok("Poly::from_bytes", || Poly::from_bytes(&b, &ctx))) };
                    let mut s = v.clone();
                    s.disallow();
                    w.put("restoring after a crash", E { v, s, may: false });
                }
                for b in cs {
                    let v = lib_ok("Ciphertext::from_bytes", || Ciphertext::from_bytes(&b, &w.par));
                    let s = plain(&v);
                    let k = v.len();
                    w.putc("restoring after a crash", C { v, s, may: vec![true; k] });
                }
                Some(Box::new(w))
            });
            sim.log("crash and restart");
        }
        let forged = sim.fault("forged-permission", 150);
        let hs = sim.rng.u64();
        let (ops, n, g, forged_seen) = node.call(move |w| {
            let w = w.as_mut().unwrap();
            let mut r = Rng::new(hs);
            let mut ops = vec![];
            let mut seen = 0;
            if forged && !w.es.is_empty() {
                for e in w.es.clone() {
                    let mut y = e.v.bytes();
                    y.extend([0x20, 1]);
                    let ctx = e.v.ctx().clone();
                    let flag = match e.v.kind() {
                        0 => lib_any(|| Poly::<PowerBasis>::from_bytes(&y, &ctx).is_ok_and(|p| p.allows_variable_time_computations())),
                        1 => lib_any(|| Poly::<Ntt>::from_bytes(&y, &ctx).is_ok_and(|p| p.allows_variable_time_computations())),
                        _ => lib_any(|| Poly::<NttShoup>::from_bytes(&y, &ctx).is_ok_and(|p| p.allows_variable_time_computations())),
                    };
                    ensure!(flag != Ok(true), "permission-granted", "bytes that claim permission are believed");
                    seen += 1;
                }
            }
            for _ in 0..10 { if r.pct(25) { w.create(&mut r); ops.push("create") } else { ops.push(w.poly_op(&mut r)) } }
            for _ in 0..8 { ops.push(w.ct_op(&mut r)) }
            (ops, w.checks, w.granted, seen)
        });
        bad_key += forged_seen;
        for o in &ops { if *o != "skip" { sim.op(o) } }
        for o in &ops { sim.state(fnv(0xcbf29ce484222325, format!("{o} {} {}", spec.moduli.len(), g > 0).as_bytes())) }
        sim.log(&format!("{} : {n} results, {g} permitted", ops.join(",")));
        sim.now += 1000;
    }
    sim.log(&format!("{bad_key} forged"));
}

fn world(spec: Spec, seed: u64, extra: u32) -> W {
    let mut rng = LibRng::new(seed);
    let par = lib_ok("BfvParametersBuilder::build_arc", || spec.build());
    let sk = lib("SecretKey::random", || SecretKey::random(&par, &mut rng));
    let skb = lib("SecretKey::random", || SecretKey::random(&par, &mut rng));
    let pk = lib("PublicKey::new", || PublicKey::new(&sk, &mut rng));
    let rk = if par.max_level() > 0 { Some(lib_ok("RelinearizationKey::new", || RelinearizationKey::new(&sk, &mut rng))) } else { None };
    let cols = vec![1, spec.n / 2 - 1, 2.min(spec.n / 2 - 1)];
    let ek = {
        let mut b = lib_ok("EvaluationKeyBuilder::new", || EvaluationKeyBuilder::new(&sk));
        lib_ok("builder", || b.enable_row_rotation().map(|_| ()));
        lib_ok("builder", || b.enable_inner_sum().map(|_| ()));
        lib_ok("builder", || b.enable_expansion(1).map(|_| ()));
        for c in &cols { lib_ok("builder", || b.enable_column_rotation(*c).map(|_| ())) }
        Some(lib_ok("EvaluationKeyBuilder::build", || b.build(&mut rng)))
    };
    let pt = lib_ok("Plaintext::try_encode", || Plaintext::try_encode(&[BigUint::from(1u32)][..], Encoding::poly(), &par));
    let rgsw: RGSWCiphertext = lib_ok("RGSW try_encrypt", || sk.try_encrypt(&pt, &mut rng));
    let mut ctxs: Vec<Arc<Context>> = (0..=par.max_level()).map(|l| lib_ok("context_at_level", || par.context_at_level(l).cloned())).collect();
    // a longer context with the same first moduli
    for k in 0..4 { if let Some(p) = ntt_prime(extra, 2 * spec.n as u64, k) { if !spec.moduli.contains(&p) {
        let mut m = spec.moduli.clone();
        m.push(p);
        ctxs.push(lib_ok("Context::new_arc", || Context::new_arc(&m, spec.n)));
        break;
    } } }
    W { spec, par, sk, skb, pk, rk, ek, rgsw, cols, ctxs, es: vec![], cs: vec![], rng, checks: 0, granted: 0 }
}
