//! Polynomials of the arithmetic crate against exact arithmetic in the ring:
//! histories over contexts, representations, operator forms and permissions, by
//! a worker that crashes and restores its polynomials from bytes.
use crate::bfvx::{crt, public};
use crate::core::{Sim, fnv, lib, lib_err, lib_ok};
use crate::model::{big, mulm, negacyclic_words, ntt_prime, powm};
use crate::node::{Fail, Node};
use crate::params::{Want, gen_spec};
use crate::rt::*;
use crate::vt::P;
use fhe_math::rns::ScalingFactor;
use fhe_math::rq::{Context, Ntt, NttShoup, Poly, PowerBasis, SubstitutionExponent, dot_product, scaler::Scaler, switcher::Switcher, traits::TryConvertFrom};
use fhe_traits::*;
use num_bigint::{BigInt, BigUint, Sign};
use num_traits::{Signed, Zero};
use std::sync::Arc;

type Rows = Vec<Vec<u64>>;
/// A polynomial and the residues of its coefficients.
#[derive(Clone)]
struct E { v: P, m: Rows }

struct W { n: usize, var: usize, ctxs: Vec<Arc<Context>>, es: Vec<E>, seed: u64, draws: u64, checks: u64 }

fn signed(x: &BigUint, q: &BigUint) -> BigInt {
    let x = BigInt::from(x.clone());
    let q = BigInt::from(q.clone());
    if &x * 2 > q { x - q } else { x }
}
fn rows(f: impl Fn(u64) -> Vec<u64>, ctx: &Context) -> Rows { ctx.moduli().iter().map(|q| f(*q)).collect() }
fn of_big(v: &[BigUint], ctx: &Context) -> Rows { rows(|q| v.iter().map(|x| u64::try_from(x % q).unwrap()).collect(), ctx) }
fn zip(a: &Rows, b: &Rows, ctx: &Context, f: impl Fn(u64, u64, u64) -> u64) -> Rows {
    ctx.moduli().iter().enumerate().map(|(i, q)| a[i].iter().zip(&b[i]).map(|(x, y)| f(*x, *y, *q)).collect()).collect()
}
fn addm(a: u64, b: u64, q: u64) -> u64 { ((a as u128 + b as u128) % q as u128) as u64 }
fn negm(a: u64, q: u64) -> u64 { if a == 0 { 0 } else { q - a } }
fn ring_mul(a: &Rows, b: &Rows, ctx: &Context) -> Rows {
    ctx.moduli().iter().enumerate().map(|(i, q)| negacyclic_words(&a[i], &b[i], *q)).collect()
}
/// x -> x^e, e any nonnegative exponent (a monomial multiple when `mono`).
fn permute(a: &Rows, ctx: &Context, f: impl Fn(usize) -> usize) -> Rows {
    ctx.moduli().iter().enumerate().map(|(i, q)| {
        let n = a[i].len();
        let mut o = vec![0u64; n];
        for (j, x) in a[i].iter().enumerate() {
            let d = f(j) % (2 * n);
            let (d, x) = if d < n { (d, *x) } else { (d - n, negm(*x, *q)) };
            o[d] = addm(o[d], x, *q);
        }
        o
    }).collect()
}
fn coefficients(p: &P) -> Rows {
    let b = lib("conversion to power basis", || p.clone().power());
    b.coefficients().outer_iter().map(|r| r.to_vec()).collect()
}
fn check(what: &str, e: &E) {
    let raw = e.v.raw();
    for (row, q) in raw.iter().zip(e.v.ctx().moduli()) { ensure!(row.iter().all(|x| x < q), "unreduced", "{what}: the result has a residue not below its modulus {q}"); }
    let got = coefficients(&e.v);
    if got != e.m {
        let (i, j) = (0..got.len()).flat_map(|i| (0..got[i].len()).map(move |j| (i, j))).find(|(i, j)| got[*i][*j] != e.m[*i][*j]).unwrap_or((0, 0));
        violate!("wrong-value", "{what}: coefficient {j} modulo {} is {:?}, the same history over the integers gives {:?}", e.v.ctx().moduli()[i], got[i].get(j), e.m[i].get(j));
    }
}
/// Every numerator*x - denominator*y must be within `slack`/2^40 denominators of a
/// rounding; x is the value nearest to zero (either one next to the edge).
fn check_scaled(what: &str, from: (&Rows, &Context), to: (&Rows, &Context), num: &BigUint, den: &BigUint) {
    let (x, y) = (crt(from.0, from.1.moduli()), crt(to.0, to.1.moduli()));
    let (q, p) = (from.1.modulus(), to.1.modulus());
    let (numi, deni) = (BigInt::from(num.clone()), BigInt::from(den.clone()));
    let big_q = BigInt::from(q.clone());
    let m = &deni * BigInt::from(p.clone());
    for j in 0..x.len() {
        let c = signed(&x[j], q);
        let mut reps = vec![c.clone()];
        // closer to the edge than the documented precision can tell apart
        if ((c.abs() * 2u32 - &big_q).abs() << 40) <= big_q { reps.push(if c.is_negative() { &c + &big_q } else { &c - &big_q }) }
        let ok = reps.iter().any(|c| {
            let mut d = (&numi * c - &deni * BigInt::from(y[j].clone())) % &m;
            if d.is_negative() { d += &m }
            if &d * 2 > m { d -= &m }
            // |d| <= den/2 (1 + 2^-39)
            (d.abs() << 40u32) <= (&deni << 39u32) + &deni + 1
        });
        ensure!(ok, "wrong-value", "{what}: coefficient {j} is not the rounding of {num}/{den} times the coefficient of the operand");
    }
}

impl W {
    fn rng(&mut self) -> LibRng { self.draws += 1; LibRng::new(mix(self.seed, self.draws)) }
    fn put(&mut self, what: &str, v: P, m: Rows) {
        let e = E { v, m };
        check(what, &e);
        self.checks += 1;
        if self.es.len() < 14 { self.es.push(e) } else { let k = self.checks as usize * 5 % 14; self.es[k] = e }
    }
    fn small_values(&self, r: &mut Rng, ctx: &Context) -> Vec<BigUint> {
        let q = ctx.modulus();
        let style = r.below(6);
        (0..self.n).map(|_| match style {
            0 => BigUint::zero(),
            1 => r.pick(&[BigUint::zero(), big(1), q - 1u32, q / 2u32, q / 2u32 + 1u32, q / 2u32 - 1u32]).clone(),
            2 => q - 1u32,
            3 => big(r.below64(5)),
            _ => { let b = r.bytes(q.bits() as usize / 8 + 9); BigUint::from_bytes_le(&b) % q }
        }).collect()
    }
    fn create(&mut self, r: &mut Rng) -> &'static str {
        let ctx = r.pick(&self.ctxs).clone();
        let n = self.n;
        let vt = r.pct(40);
        let mode = r.below(3);
        let form = r.pct(50);
        // arrays exist for one size only
        let size = |r: &mut Rng| if r.pct(25) { 8 } else { r.range(0, n) };
        match r.below(10) {
            0..=2 => {
                let m = of_big(&self.small_values(r, &ctx), &ctx);
                let flat: Vec<u64> = m.concat();
                let v = if ctx.moduli().len() > 1 || r.pct(50) { lib_ok("try_convert_from(Vec<u64>)", || Poly::<PowerBasis>::try_convert_from(flat, &ctx, vt)) }
                    else { lib_ok("try_convert_from_public(Vec<u64>)", || Poly::<PowerBasis>::try_convert_from_public(flat, &ctx, public())) };
                self.put("conversion of residues", P::B(v), m);
            }
            3 | 4 => {
                let k = size(r);
                let mut x = self.small_values(r, &ctx);
                if r.pct(30) { for y in x.iter_mut() { *y += ctx.modulus() * r.below(3) } }
                for y in x.iter_mut().skip(k) { *y = BigUint::zero() }
                let m = of_big(&x, &ctx);
                let eight: Option<&[BigUint; 8]> = x[..k].try_into().ok();
                let v = if let (Some(y), true) = (eight, form) { match mode {
                    0 => P::B(lib_ok("try_convert_from(&[BigUint; 8])", || Poly::<PowerBasis>::try_convert_from(y, &ctx, vt))),
                    1 => P::N(lib_ok("try_convert_from(&[BigUint; 8])", || Poly::<Ntt>::try_convert_from(y, &ctx, vt))),
                    _ => P::S(lib_ok("try_convert_from(&[BigUint; 8])", || Poly::<NttShoup>::try_convert_from(y, &ctx, vt))),
                } } else { match mode {
                    0 => P::B(lib_ok("try_convert_from(&[BigUint])", || Poly::<PowerBasis>::try_convert_from(&x[..k], &ctx, vt))),
                    1 => P::N(lib_ok("try_convert_from(&[BigUint])", || Poly::<Ntt>::try_convert_from(&x[..k], &ctx, vt))),
                    _ => P::S(lib_ok("try_convert_from(&[BigUint])", || Poly::<NttShoup>::try_convert_from(&x[..k], &ctx, vt))),
                } };
                self.put("conversion of integers", v, m);
            }
            5 => {
                let k = size(r);
                let q0 = ctx.moduli()[0];
                let x: Vec<u64> = (0..k).map(|_| if r.pct(50) { *r.pick(&[0, 1, u64::MAX, 1 << 63, 1 << 62, q0, q0 - 1, 2 * q0]) } else { r.u64() }).collect();
                let mut m = rows(|q| x.iter().map(|y| y % q).collect(), &ctx);
                for row in m.iter_mut() { row.resize(n, 0) }
                let v = match mode { 0 => lib_ok("try_convert_from(&[u64])", || Poly::<PowerBasis>::try_convert_from(&x[..], &ctx, vt)), 1 => lib_ok("try_convert_from(&Vec<u64>)", || Poly::<PowerBasis>::try_convert_from(&x, &ctx, vt)), _ => match <&[u64; 8]>::try_from(&x[..]) {
                    Ok(y) if form => lib_ok("try_convert_from(&[u64; 8])", || Poly::<PowerBasis>::try_convert_from(y, &ctx, vt)),
                    _ => lib_ok("try_convert_from(Vec<u64>)", || Poly::<PowerBasis>::try_convert_from(x.clone(), &ctx, vt)),
                } };
                self.put("conversion of words", P::B(v), m);
            }
            6 => {
                let k = size(r);
                let q0 = ctx.moduli()[0] as i64;
                let x: Vec<i64> = (0..k).map(|_| if r.pct(60) { *r.pick(&[0, 1, -1, i64::MAX, i64::MIN, i64::MIN + 1, q0, -q0, q0 - 1, 1 - q0]) } else { r.u64() as i64 >> 1 }).collect();
                let mut m = rows(|q| x.iter().map(|y| (*y as i128).rem_euclid(q as i128) as u64).collect(), &ctx);
                for row in m.iter_mut() { row.resize(n, 0) }
                let eight: Option<&[i64; 8]> = x[..].try_into().ok();
                let v = if let (Some(y), true) = (eight, form) { lib_ok("try_convert_from(&[i64; 8])", || Poly::<PowerBasis>::try_convert_from(y, &ctx, vt)) } else if mode == 0 { lib_ok("try_convert_from(&Vec<i64>)", || Poly::<PowerBasis>::try_convert_from(&x, &ctx, vt)) } else { lib_ok("try_convert_from(&[i64])", || Poly::<PowerBasis>::try_convert_from(&x[..], &ctx, vt)) };
                self.put("conversion of signed words", P::B(v), m);
            }
            7 => {
                let mut g = self.rng();
                let v = match mode { 0 => P::B(Poly::random(&ctx, &mut g)), 1 => P::N(Poly::random(&ctx, &mut g)), _ => P::S(Poly::random(&ctx, &mut g)) };
                let m = coefficients(&v);
                self.put("random", v, m);
            }
            8 => {
                let (mut g, var) = (self.rng(), self.var);
                let v = match mode { 0 => P::B(lib_ok("small", || Poly::small(&ctx, var, &mut g))), 1 => P::N(lib_ok("small", || Poly::small(&ctx, var, &mut g))), _ => P::S(lib_ok("small", || Poly::small(&ctx, var, &mut g))) };
                let m = coefficients(&v);
                // the same small integer modulo every modulus
                for j in 0..n {
                    let c = { let (x, q) = (m[0][j] as i128, ctx.moduli()[0] as i128); if 2 * x > q { x - q } else { x } };
                    for (i, q) in ctx.moduli().iter().enumerate() {
                        ensure!(*q <= 4 * var as u64 || (c.unsigned_abs() <= 2 * var as u128 && m[i][j] as i128 == c.rem_euclid(*q as i128)), "wrong-value", "small: coefficient {j} is not one integer of at most {} modulo every modulus", 2 * var);
                    }
                }
                self.put("small", v, m);
            }
            _ => {
                let v = match mode { 0 => P::B(Poly::zero(&ctx)), 1 => P::N(Poly::zero(&ctx)), _ => P::S(Poly::zero(&ctx)) };
                let m = rows(|_| vec![0; n], &ctx);
                self.put("zero", v, m);
            }
        }
        "create"
    }
    fn op(&mut self, r: &mut Rng) -> &'static str {
        if self.es.len() < 4 || r.pct(18) { return self.create(r) }
        let n = self.n;
        let i = r.below(self.es.len());
        let a = self.es[i].clone();
        let ctx = a.v.ctx().clone();
        let js: Vec<usize> = (0..self.es.len()).filter(|j| self.es[*j].v.ctx() == &ctx).collect();
        let op = r.weighted(&[8, 8, 12, 6, 4, 8, 12, 8, 5, 10, 6, 4, 5, 8]);
        let kind = a.v.kind();
        let js: Vec<usize> = match op { 0 | 1 => js.iter().copied().filter(|j| self.es[*j].v.kind() == kind).collect(), 2 => js.iter().copied().filter(|j| self.es[*j].v.kind() != 0).collect(), _ => js };
        if js.is_empty() { return "skip" }
        let b = self.es[*r.pick(&js)].clone();
        let form = r.below(3);
        macro_rules! bin { ($x:expr, $y:expr, $op:tt, $as:tt) => {{ match form { 0 => $x $op $y, _ => { let mut z = $x.clone(); z $as $y; z } } }} }
        match op {
            0 => {
                let v = lib("addition", || match (&a.v, &b.v) {
                    (P::B(x), P::B(y)) => Some(P::B(if form == 2 { x.clone() + y.clone() } else { bin!(x, y, +, +=) })),
                    (P::N(x), P::N(y)) => Some(P::N(if form == 2 { x.clone() + y.clone() } else { bin!(x, y, +, +=) })),
                    _ => None,
                });
                let Some(v) = v else { return "skip" };
                let m = zip(&a.m, &b.m, &ctx, addm);
                self.put("addition", v, m);
                "addition"
            }
            1 => {
                let v = lib("subtraction", || match (&a.v, &b.v) { (P::B(x), P::B(y)) => Some(P::B(bin!(x, y, -, -=))), (P::N(x), P::N(y)) => Some(P::N(bin!(x, y, -, -=))), _ => None });
                let Some(v) = v else { return "skip" };
                let m = zip(&a.m, &b.m, &ctx, |x, y, q| addm(x, negm(y, q), q));
                self.put("subtraction", v, m);
                "subtraction"
            }
            2 => {
                let v = lib("multiplication", || match (&a.v, &b.v) { (P::N(x), P::N(y)) => Some(P::N(bin!(x, y, *, *=))), (P::N(x), P::S(y)) => Some(P::N(bin!(x, y, *, *=))), _ => None });
                let Some(v) = v else { return "skip" };
                let m = ring_mul(&a.m, &b.m, &ctx);
                self.put("multiplication", v, m);
                "multiplication"
            }
            3 => {
                let k: BigUint = match r.below(5) { 0 => big(r.below64(3)), 1 => ctx.modulus() - 1u32, 2 => big(r.u64()) << r.below(100), 3 => big(r.below64(*ctx.moduli().last().unwrap())), _ => ctx.modulus() / 2u32 };
                let v = lib("multiplication by an integer", || match &a.v { P::B(x) => Some(P::B(if form == 1 { &k * x } else { bin!(x, &k, *, *=) })), P::N(x) => Some(P::N(if form == 1 { &k * x } else { bin!(x, &k, *, *=) })), _ => None });
                let Some(v) = v else { return "skip" };
                let m = zip(&a.m, &a.m, &ctx, |x, _, q| mulm(x, u64::try_from(&k % q).unwrap(), q));
                self.put("multiplication by an integer", v, m);
                "multiplication by an integer"
            }
            4 => {
                let v = lib("negation", || match &a.v { P::B(x) => Some(P::B(if form == 0 { -x } else { -x.clone() })), P::N(x) => Some(P::N(if form == 0 { -x } else { -x.clone() })), _ => None });
                let Some(v) = v else { return "skip" };
                let m = zip(&a.m, &a.m, &ctx, |x, _, q| negm(x, q));
                self.put("negation", v, m);
                "negation"
            }
            5 => {
                let e = 2 * r.below(2 * n) + 1;
                let s = lib_ok("SubstitutionExponent::new", || SubstitutionExponent::new(&ctx, e));
                let v = match &a.v { P::B(x) => P::B(lib_ok("substitute", || x.substitute(&s))), P::N(x) => P::N(lib_ok("substitute", || x.substitute(&s))), P::S(x) => P::S(lib_ok("substitute", || x.substitute(&s))) };
                let m = permute(&a.m, &ctx, |j| j * e);
                self.put("substitution", v, m);
                "substitution"
            }
            6 => {
                let to = r.below(3);
                let x = a.v.clone();
                let v = lib("conversion", || match (x, to) {
                    (P::B(x), 0) => P::B(x.to_power_basis()), (P::N(x), 0) => P::B(if form == 0 { x.to_power_basis() } else { x.into_power_basis() }), (P::S(x), 0) => P::B(if form == 0 { x.to_power_basis() } else { x.into_power_basis() }),
                    (P::B(x), 1) => P::N(x.into_ntt()), (P::S(x), 1) => P::N(x.into_ntt()), (P::N(x), 1) => P::N(x),
                    (P::B(x), _) => P::S(x.into_ntt_shoup()), (P::N(x), _) => P::S(x.into_ntt_shoup()), (P::S(x), _) => P::S(x),
                });
                let flat = a.m.concat();
                if let P::B(x) = &v {
                    ensure!(Vec::<BigUint>::from(x) == crt(&a.m, ctx.moduli()), "wrong-value", "the integers of a polynomial are not those of its residues");
                    ensure!(lib_ok("Vec::<u64>::try_from", || Vec::<u64>::try_from(x)) == flat, "wrong-value", "the words of a polynomial are not its residues");
                    let y = lib_ok("try_convert_from(Vec<u64>)", || Poly::<PowerBasis>::try_convert_from(flat.clone(), &ctx, false));
                    ensure!(*x == y, "not-equal", "a polynomial differs from the one made of the same residues");
                } else if let P::N(x) = &v {
                    let y = lib_ok("try_convert_from(Vec<u64>)", || Poly::<PowerBasis>::try_convert_from(flat, &ctx, false)).into_ntt();
                    ensure!(*x == y, "not-equal", "a polynomial differs from the one made of the same residues");
                }
                // The words and integers of a transformed polynomial are those of its
                // transform, and make it again through every constructor.
                macro_rules! again { ($x:expr, $R:ident) => {{
                    let x = $x;
                    let c = x.coefficients().to_owned();
                    let words: Vec<u64> = c.iter().copied().collect();
                    let rows: Rows = words.chunks(n).map(|w| w.to_vec()).collect();
                    ensure!(lib_ok("Vec::<u64>::try_from", || Vec::<u64>::try_from(x)) == words, "wrong-value", "the words of a polynomial are not its coefficients");
                    ensure!(Vec::<BigUint>::from(x) == crt(&rows, ctx.moduli()), "wrong-value", "the integers of a transformed polynomial are not those of its words");
                    let y = match r.below(4) {
                        0 => lib_ok("try_convert_from(Vec<u64>)", || Poly::<$R>::try_convert_from(words, &ctx, false)),
                        1 => lib_ok("try_convert_from(&[u64])", || Poly::<$R>::try_convert_from(&words[..], &ctx, false)),
                        2 => match <&[u64; 8]>::try_from(&words[..]) {
                            Ok(w) => lib_ok("try_convert_from(&[u64; 8])", || Poly::<$R>::try_convert_from(w, &ctx, false)),
                            _ => lib_ok("try_convert_from(&Vec<u64>)", || Poly::<$R>::try_convert_from(&words, &ctx, false)),
                        },
                        _ => lib_ok("try_convert_from(Array2)", || Poly::<$R>::try_convert_from(c, &ctx, false)),
                    };
                    ensure!(*x == y, "not-equal", "a polynomial differs from the one made of the same words");
                }} }
                if form == 2 { match &v { P::B(x) => again!(x, PowerBasis), P::N(x) => again!(x, Ntt), P::S(x) => again!(x, NttShoup) } }
                self.put("change of representation", v, a.m);
                "change of representation"
            }
            7 => {
                let P::B(x) = &a.v else { return "skip" };
                let mut x = x.clone();
                let k = ctx.moduli().len();
                if k < 2 { return "skip" }
                let mut m = a.m.clone();
                let down = if form == 0 { 1 } else { r.range(1, k - 1) };
                if form == 0 { lib_ok("switch_down", || x.switch_down()) }
                else { let to = lib_ok("context_at_level", || ctx.context_at_level(down)); lib_ok("switch_down_to", || x.switch_down_to(&to)) }
                for d in 0..down {
                    let ql = ctx.moduli()[k - 1 - d];
                    let last = m.pop().unwrap();
                    for (row, q) in m.iter_mut().zip(ctx.moduli()) {
                        let inv = powm(ql % q, q - 2, *q);
                        for (y, l) in row.iter_mut().zip(&last) {
                            // l centred around zero
                            let c = if *l > ql / 2 { negm((ql - l) % q, *q) } else { l % q };
                            *y = mulm(addm(*y, negm(c, *q), *q), inv, *q);
                        }
                    }
                }
                ensure!(x.ctx().moduli() == &ctx.moduli()[..k - down], "wrong-context", "switching down by {down} leaves moduli {:?}", x.ctx().moduli());
                self.put("switching down", P::B(x), m);
                "switching down"
            }
            8 => {
                let P::B(x) = &a.v else { return "skip" };
                let mut x = x.clone();
                let k = r.below(2 * n);
                lib_ok("multiply_inverse_power_of_x", || x.multiply_inverse_power_of_x(k));
                let m = permute(&a.m, &ctx, |j| j + 2 * n - k);
                self.put("division by a monomial", P::B(x), m);
                "division by a monomial"
            }
            9 => {
                let to = r.pick(&self.ctxs).clone();
                let (what, num, den) = match r.below(5) {
                    0 => ("switching contexts", to.modulus().clone(), ctx.modulus().clone()),
                    1 => ("exact extension", big(1), big(1)),
                    2 => ("scaling", big(r.range(1, 1 << 20) as u64), ctx.modulus().clone()),
                    3 => ("scaling", to.modulus().clone(), big(r.range(1, 1 << 20) as u64)),
                    _ => ("scaling", big(r.u64() >> r.below(64) | 1), big(r.u64() >> r.below(64) | 1)),
                };
                let v = if what == "switching contexts" {
                    let sw = lib_ok("Switcher::new", || Switcher::new(&ctx, &to));
                    match &a.v { P::B(x) => P::B(lib_ok("switch", || x.switch(&sw))), P::N(x) => P::N(lib_ok("switch", || x.switch(&sw))), _ => return "skip" }
                } else {
                    let f = if what == "exact extension" && form == 0 { ScalingFactor::one() } else { ScalingFactor::new(&num, &den) };
                    let sc = lib_ok("Scaler::new", || Scaler::new(&ctx, &to, f));
                    match &a.v { P::B(x) => P::B(lib_ok("scale", || x.scale(&sc))), P::N(x) => P::N(lib_ok("scale", || x.scale(&sc))), _ => return "skip" }
                };
                ensure!(v.ctx() == &to, "wrong-context", "{what} gives a polynomial of another context");
                let m = coefficients(&v);
                check_scaled(what, (&a.m, &ctx), (&m, &to), &num, &den);
                self.put(what, v, m);
                what
            }
            10 => {
                let ids: Vec<usize> = js.iter().copied().filter(|j| self.es[*j].v.kind() == 1).collect();
                if ids.is_empty() { return "skip" }
                let k = if n <= 32 && r.pct(30) { r.range(14, 70) } else { r.range(1, 6) };
                let xs: Vec<(usize, usize)> = (0..k).map(|_| (*r.pick(&ids), *r.pick(&ids))).collect();
                let get = |k: usize| -> &Poly<Ntt> { match &self.es[k].v { P::N(x) => x, _ => unreachable!() } };
                let v = lib_ok("dot_product", || dot_product(xs.iter().map(|x| get(x.0)), xs.iter().map(|x| get(x.1))));
                let mut m = rows(|_| vec![0; n], &ctx);
                for (x, y) in &xs { m = zip(&m, &ring_mul(&self.es[*x].m, &self.es[*y].m, &ctx), &ctx, addm) }
                self.put("dot product", P::N(v), m);
                "dot product"
            }
            11 => {
                let P::S(y) = &a.v else { return "skip" };
                let q = *r.pick(ctx.moduli());
                let row: Vec<u64> = (0..n).map(|_| *r.pick(&[0, 1, q - 1, q / 2, u64::MAX, 1 << 63, r.clone().u64()])).collect();
                let x = lib("lazy", || Poly::<Ntt>::create_constant_ntt_polynomial_with_lazy_coefficients_and_variable_time(&row, &ctx, public()));
                let v = lib("multiplication of lazy coefficients", || if form == 0 { &x * y } else { let mut z = x.clone(); z *= y; z });
                let m = ring_mul(&rows(|q| row.iter().map(|y| y % q).collect(), &ctx), &a.m, &ctx);
                self.put("multiplication of lazy coefficients", P::N(v), m);
                "multiplication of lazy coefficients"
            }
            12 => {
                let mut e = a;
                if r.pct(60) { e.v.allow() } else { e.v.disallow() }
                check("change of permission", &e);
                self.es[i] = e;
                "permission"
            }
            _ => self.refused(r, &a),
        }
    }
    /// Calls that cannot give a result are refused and leave their operands alone.
    fn refused(&mut self, r: &mut Rng, a: &E) -> &'static str {
        let (n, ctx) = (self.n, a.v.ctx().clone());
        let other: Vec<Arc<Context>> = self.ctxs.iter().filter(|c| c.moduli() != ctx.moduli()).cloned().collect();
        let bytes = a.v.bytes();
        match r.below(10) {
            0 => { lib_err("SubstitutionExponent::new(even)", || SubstitutionExponent::new(&ctx, 2 * r.below(2 * n))); }
            1 => {
                // The bytes name no moduli: only contexts needing another number of bytes can be told apart.
                let size = |c: &Context| c.moduli().iter().map(|q| n * (64 - q.leading_zeros() as usize)).sum::<usize>();
                let other: Vec<&Arc<Context>> = other.iter().filter(|c| size(c) != size(&ctx)).collect();
                if other.is_empty() { return "skip"; }
                let o = other[r.below(other.len())];
                match &a.v { P::B(_) => { lib_err("Poly::from_bytes(other moduli)", || Poly::<PowerBasis>::from_bytes(&bytes, o)); } P::N(_) => { lib_err("Poly::from_bytes(other moduli)", || Poly::<Ntt>::from_bytes(&bytes, o)); } P::S(_) => { lib_err("Poly::from_bytes(other moduli)", || Poly::<NttShoup>::from_bytes(&bytes, o)); } }
            }
            2 => { match &a.v { P::B(_) => { lib_err("Poly::from_bytes(other representation)", || Poly::<Ntt>::from_bytes(&bytes, &ctx)); } _ => { lib_err("Poly::from_bytes(other representation)", || Poly::<PowerBasis>::from_bytes(&bytes, &ctx)); } } }
            3 => {
                let P::B(x) = &a.v else { return "skip" };
                let mut x = x.clone();
                if ctx.moduli().len() == 1 { lib_err("switch_down(last)", || x.switch_down()); }
                else {
                    let o: Vec<&Arc<Context>> = other.iter().filter(|c| !ctx.moduli().starts_with(c.moduli())).collect();
                    let Some(o) = o.get(r.below(o.len())) else { return "skip" };
                    lib_err("switch_down_to(not below)", || x.switch_down_to(o));
                }
                ensure!(P::B(x).same(&a.v), "trace-left", "a refused switch changed the polynomial");
            }
            4 => {
                if other.is_empty() { return "skip" }
                let (f, t) = (r.pick(&other).clone(), r.pick(&self.ctxs).clone());
                let sc = lib_ok("Scaler::new", || Scaler::new(&f, &t, ScalingFactor::one()));
                match &a.v { P::B(x) => { lib_err("scale(other context)", || x.scale(&sc)); } P::N(x) => { lib_err("scale(other context)", || x.scale(&sc)); } _ => return "skip" }
            }
            5 => {
                let P::N(x) = &a.v else { return "skip" };
                let o = self.es.iter().find_map(|e| match &e.v { P::N(y) if y.ctx() != x.ctx() => Some(y), _ => None });
                let (l, k) = match (r.below(3), o) { (0, Some(y)) => (vec![x, x], vec![x, y]), (1, Some(y)) => (vec![x, y], vec![x, x]), (2, _) => (vec![x, x], vec![x]), _ => (vec![], vec![]) };
                lib_err("dot_product(unusable operands)", || dot_product(l.iter().copied(), k.iter().copied()));
            }
            6 => {
                let k = if r.pct(50) { n + 1 } else { n * ctx.moduli().len() + 1 };
                match r.below(3) {
                    0 => { lib_err("try_convert_from(too many integers)", || Poly::<PowerBasis>::try_convert_from(&vec![big(1); k][..], &ctx, false)); }
                    1 => { lib_err("try_convert_from(too many signed words)", || Poly::<PowerBasis>::try_convert_from(&vec![1i64; k][..], &ctx, false)); }
                    _ => { if k == n * ctx.moduli().len() { return "skip" } lib_err("try_convert_from(too many words)", || Poly::<PowerBasis>::try_convert_from(vec![1u64; k], &ctx, false)); }
                }
            }
            7 => {
                // chains of contexts
                let k = ctx.moduli().len();
                for i in 0..k {
                    let c = lib_ok("context_at_level", || ctx.context_at_level(i));
                    ensure!(c.moduli() == &ctx.moduli()[..k - i], "wrong-context", "the context at level {i} of {:?} has moduli {:?}", ctx.moduli(), c.moduli());
                    let d = lib_ok("niterations_to", || ctx.niterations_to(&c));
                    ensure!(d == i, "wrong-context", "{d} iterations from {:?} to {:?}", ctx.moduli(), c.moduli());
                    if i > 0 { lib_err("niterations_to(upwards)", || c.niterations_to(&ctx)); }
                }
                lib_err("context_at_level(below the last)", || ctx.context_at_level(*r.pick(&[k, k + 1, usize::MAX])));
                for o in other.iter().filter(|c| !ctx.moduli().starts_with(c.moduli())) { lib_err("niterations_to(foreign)", || ctx.niterations_to(o)); }
            }
            8 => { let mut g = self.rng(); let v = *r.pick(&[0usize, 33, 1000]); lib_err("small(variance)", || Poly::<PowerBasis>::small(&ctx, v, &mut g)); }
            _ => {
                let m = ctx.moduli().to_vec();
                let bad = match r.below(4) { 0 => vec![], 1 => [&m[..], &m[..1]].concat(), 2 => vec![m[0] - 1], _ => vec![1u64 << 63] };
                lib_err("Context::new(unusable moduli)", || Context::new(&bad, n));
                lib_err("Context::new(unusable degree)", || Context::new(&m, *r.pick(&[0usize, 1, 3, 7, n + 1, n * 3])));
            }
        }
        check("an operand of a refused call", a);
        "refused"
    }
}

fn contexts(n: usize, base: &[u64], r: u64) -> Vec<Arc<Context>> {
    let mut r = Rng::new(r);
    let mk = |m: &[u64]| lib_ok("Context::new_arc", || Context::new_arc(m, n));
    let top = mk(base);
    let mut v: Vec<Arc<Context>> = (0..base.len()).map(|l| lib_ok("context_at_level", || top.context_at_level(l))).collect();
    let mut extra: Vec<u64> = vec![];
    for k in 0..8 { let b = r.range(16, 62) as u32; if let Some(p) = ntt_prime(b, 2 * n as u64, k % 3) { if !base.contains(&p) && !extra.contains(&p) && extra.len() < base.len().min(4) + 1 { extra.push(p) } } }
    if !extra.is_empty() {
        v.push(mk(&[base, &extra[..1]].concat()));
        v.push(mk(&extra));
        v.push(mk(&[&extra[..1], base].concat()));
        v.push(mk(&[base, &extra].concat()));
    }
    let mut rev = base.to_vec();
    rev.reverse();
    if rev.len() > 1 { v.push(mk(&rev)) }
    v
}

pub fn run(sim: &mut Sim) {
    sim.begin(0);
    let want = Want { min_moduli: 1, max_moduli: 5, max_deg_log: 6, simd: 0, depth: 0, big_t: false };
    let mut r = sim.rng.clone();
    let mut spec = gen_spec(&mut r, want);
    // up to the largest degree, rarely and for a few calls
    let large = r.below(64) == 0;
    if large {
        let lg = r.range(9, 16);
        let ms: Vec<u64> = (0..r.range(1, 2)).filter_map(|k| ntt_prime(r.range(lg + 6, 62) as u32, 2 << lg, k)).collect();
        if ms.len() > 0 && (ms.len() == 1 || ms[0] != ms[1]) { spec.n = 1 << lg; spec.moduli = ms }
    }
    let (n, var, base, cs) = (spec.n, spec.var, spec.moduli.clone(), r.u64());
    sim.log(&format!("degree {n} moduli {base:?}"));
    let make = move |seed: u64| W { n, var, ctxs: contexts(n, &base, cs), es: vec![], seed, draws: 0, checks: 0 };
    let (ent, seed) = (sim.lib_seed(), sim.lib_seed());
    let mk = make.clone();
    let mut node = Node::spawn(ent, move || mk(seed));
    let steps = sim.rng.range(4, if large { 6 } else { 14 }) as u32;
    for i in 1..=steps {
        if !sim.begin(i) { continue }
        if sim.fault("crash", 150) {
            let (ent, seed) = (sim.lib_seed(), sim.lib_seed());
            let saved = node.call(|w| std::mem::take(&mut w.es).into_iter().map(|e| { let c = w.ctxs.iter().position(|c| c == e.v.ctx()); (e.v.kind(), e.v.bytes(), c, e.m) }).collect::<Vec<_>>());
            let mk = make.clone();
            node = Node::spawn(ent, move || {
                let mut w = mk(seed);
                for (k, b, c, m) in saved {
                    let Some(c) = c else { continue };
                    let ctx = w.ctxs[c].clone();
                    let v = match k { 0 => P::B(lib_ok("Poly::from_bytes", || Poly::from_bytes(&b, &ctx))), 1 => P::N(lib_ok("Poly::from_bytes", || Poly::from_bytes(&b, &ctx))), _ => P::S(lib_ok("Poly::from_bytes", || Poly::from_bytes(&b, &ctx))) };
                    ensure!(v.bytes() == b, "wrong-value", "a restored polynomial has other bytes");
                    w.put("restoring after a crash", v, m);
                }
                w
            });
        }
        if sim.fault("generator-fails", 150) {
            // a failing generator leaves nothing behind
            let (s, at) = (sim.lib_seed(), sim.frand(2 * n * spec.moduli.len()) as u64);
            let r = node.try_call(move |w| {
                let mut g = LibRng::failing(s, at);
                let ctx = w.ctxs[0].clone();
                if s % 2 == 0 { let _ = lib("random", || Poly::<Ntt>::random(&ctx, &mut g)); } else { let _ = lib_ok("small", || Poly::<Ntt>::small(&ctx, w.var, &mut g)); }
            });
            match r { Ok(()) | Err(Fail::Rng) => {} Err(f) => crate::node::reraise(f) }
        }
        let hs = sim.rng.u64();
        let (ops, h) = node.call(move |w| {
            let mut r = Rng::new(hs);
            let ops: Vec<&'static str> = (0..if large { 5 } else { 12 }).map(|_| w.op(&mut r)).collect();
            let mut h = 0xcbf29ce484222325;
            for e in &w.es { for row in &e.m { for x in row { h = fnv(h, &x.to_le_bytes()) } } }
            // everything held is still what it was
            let k = r.below(w.es.len().max(1));
            if let Some(e) = w.es.get(k) { check("a polynomial nobody touched", e) }
            (ops, h)
        });
        let k = spec.moduli.len();
        for o in &ops { if *o != "skip" { sim.op(o); sim.state(fnv(0xcbf29ce484222325, format!("{o} {n} {k}").as_bytes())) } }
        sim.log(&format!("{} #{h:016x}", ops.join(",")));
        sim.now += 1000;
    }
}
