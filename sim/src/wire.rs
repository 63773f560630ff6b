//! Damaged, misdirected and crafted bytes: refused, or restored as a well
//! formed object; nothing else in the process suffers.
use crate::bfvx::*;
use crate::core::{Sim, fnv, lib, lib_any};
use crate::misuse::{GOOD, Tn, ek_bytes, good, hc, pt_hash, sibling};
use crate::model::{self, big};
use crate::params::{Spec, Want, gen_spec};
use crate::rt::{LibRng, Rng, heap_reset_stats, heap_stats};
use fhe::bfv::*;
use fhe::mbfv::*;
use fhe_math::rq::{Ntt, NttShoup, Poly, PowerBasis};
use fhe_traits::*;
use num_bigint::BigUint;
use std::sync::Arc;

const FNV: u64 = 0xcbf29ce484222325;

// ---------------------------------------------------------------- wire format

#[derive(Clone, Copy, PartialEq, Debug)]
enum Ty { Rq, Ct, Ksk, Rgsw, Rlk, Gk, Ek, Par, Pk, Sk }

fn sub(t: Ty, f: u32) -> Option<Ty> {
    Some(match (t, f) {
        (Ty::Ct, 1) | (Ty::Ksk, 1) | (Ty::Ksk, 2) => Ty::Rq,
        (Ty::Rgsw, 1) | (Ty::Rgsw, 2) | (Ty::Rlk, 1) | (Ty::Gk, 1) => Ty::Ksk,
        (Ty::Ek, 2) => Ty::Gk,
        (Ty::Pk, 1) => Ty::Ct,
        _ => return None,
    })
}
#[derive(Clone, Debug)]
enum V { Var(u64), Raw(Vec<u8>), Msg(Ty, Vec<(u32, V)>) }
type Msg = Vec<(u32, V)>;

fn put_var(o: &mut Vec<u8>, mut x: u64) { while x > 127 { o.push(x as u8 | 128); x >>= 7 } o.push(x as u8) }
fn get_var(b: &[u8], i: &mut usize) -> Option<u64> {
    let (mut x, mut s) = (0u64, 0);
    loop {
        let c = *b.get(*i)?;
        *i += 1;
        if s < 64 { x |= ((c & 127) as u64) << s }
        s += 7;
        if c < 128 { return Some(x) }
        if s > 70 { return None }
    }
}
fn parse(t: Ty, b: &[u8]) -> Option<Msg> {
    let mut i = 0;
    let mut m = vec![];
    while i < b.len() {
        let k = get_var(b, &mut i)?;
        let f = (k >> 3) as u32;
        match k & 7 {
            0 => m.push((f, V::Var(get_var(b, &mut i)?))),
            2 => {
                let n = get_var(b, &mut i)? as usize;
                let r = b.get(i..i.checked_add(n)?)?;
                i += n;
                m.push((f, match sub(t, f).and_then(|s| parse(s, r).map(|m| V::Msg(s, m))) { Some(v) => v, None => V::Raw(r.to_vec()) }));
            }
            _ => return None,
        }
    }
    Some(m)
}
fn emit(m: &Msg, o: &mut Vec<u8>) {
    for (f, v) in m {
        let mut raw = |b: &[u8]| { put_var(o, (*f as u64) << 3 | 2); put_var(o, b.len() as u64); o.extend_from_slice(b) };
        match v {
            V::Var(x) => { put_var(o, (*f as u64) << 3); put_var(o, *x) }
            V::Raw(b) => raw(b),
            V::Msg(_, m) => { let mut w = vec![]; emit(m, &mut w); raw(&w) }
        }
    }
}

/// All message nodes of a tree, as paths.
fn nodes(m: &Msg, at: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
    out.push(at.clone());
    for (i, (_, v)) in m.iter().enumerate() { if let V::Msg(_, s) = v { at.push(i); nodes(s, at, out); at.pop(); } }
}
fn node<'a>(m: &'a mut Msg, p: &[usize]) -> &'a mut Msg {
    match p.split_first() { None => m, Some((i, r)) => { let V::Msg(_, s) = &mut m[*i].1 else { panic!("path") }; node(s, r) } }
}
fn ty_at(t: Ty, m: &Msg, p: &[usize]) -> Ty { match p.split_first() { None => t, Some((i, r)) => { let V::Msg(t, s) = &m[*i].1 else { panic!("path") }; ty_at(*t, s, r) } } }

fn scalar(r: &mut Rng, cur: u64, sp: &Spec) -> u64 {
    let lm = sp.moduli.len() as u64 - 1;
    match r.below(14) {
        0 => 0,
        1 => 1,
        2 => cur.wrapping_add(1),
        3 => cur.wrapping_sub(1),
        4 => lm,
        5 => lm + 1,
        6 => r.below64(70),
        7 => r.below64(lm + 1),
        8 => 2 * sp.n as u64 - 1 + r.below64(3),
        9 => (2 * r.below64(4 * sp.n as u64) + 1) % (1 << 31),
        10 => u32::MAX as u64 + r.below64(2),
        11 => 1 << r.below(64),
        12 => u64::MAX,
        _ => cur ^ (1 << r.below(32)),
    }
}
/// Set residue `j` of modulus `i` of a serialised polynomial.
fn set_residue(b: &mut [u8], sp: &Spec, i: usize, j: usize, v: u64) {
    let w = |q: u64| 64 - (q - 1).leading_zeros() as usize;
    let start: usize = sp.moduli[..i].iter().map(|q| w(*q) * sp.n / 8).sum::<usize>() * 8 + j * w(sp.moduli[i]);
    for k in 0..w(sp.moduli[i]) {
        let p = start + k;
        if p / 8 >= b.len() { return }
        b[p / 8] = b[p / 8] & !(1 << (p % 8)) | (((v >> k) & 1) as u8) << (p % 8);
    }
}

/// One field-level mutation of a message tree. Returns what was done.
fn craft(r: &mut Rng, ty: Ty, m: &mut Msg, donor: &Msg, sp: &Spec) -> String {
    let mut all = vec![];
    nodes(m, &mut vec![], &mut all);
    all.sort_by_key(Vec::len);
    let cut = (all.len() / 4).max(1);
    let p = if r.pct(45) { all[r.below(cut)].clone() } else { r.pick(&all).clone() };
    let t = ty_at(ty, m, &p);
    let mut dn = vec![];
    nodes(donor, &mut vec![], &mut dn);
    dn.retain(|q| ty_at(ty, donor, q) == t);
    let x = node(m, &p);
    let fields = x.len();
    // a key-switching key with another decomposition base and as many parts as that needs
    if t == Ty::Ksk && r.pct(25) {
        let lb = 1 + r.below64(70);
        let w = sp.moduli[0].next_power_of_two().ilog2() as u64;
        let c = w.div_ceil(lb) as usize;
        for f in [1, 2] {
            let part: Vec<V> = x.iter().filter(|e| e.0 == f).map(|e| e.1.clone()).collect();
            if part.is_empty() { continue }
            x.retain(|e| e.0 != f);
            for i in 0..c { x.push((f, part[i % part.len()].clone())) }
        }
        x.retain(|e| e.0 != 6);
        x.push((6, V::Var(lb)));
        if r.pct(60) { x.retain(|e| e.0 != 4 && e.0 != 5); let l = sp.moduli.len() as u64 - 1; x.push((4, V::Var(l))); x.push((5, V::Var(l))); }
        return format!("{t:?}: base 2^{lb} with {c} parts");
    }
    if t == Ty::Par && r.pct(50) {
        let q: BigUint = sp.moduli.iter().map(|m| big(*m)).product();
        match r.below(6) {
            0 => { x.retain(|e| e.0 != 3 && e.0 != 5); let v = match r.below(6) { 0 => big(0), 1 => big(1), 2 => q, 3 => q - 1u32, 4 => q + 1u32, _ => big(2) }; x.push((5, V::Raw(v.to_bytes_le()))); }
            1 => { x.retain(|e| e.0 != 4); x.push((4, V::Var(*r.pick(&[0, 1, 31, 32, 33, 64, u32::MAX as u64])))); }
            2 => { x.retain(|e| e.0 != 1); x.push((1, V::Var(*r.pick(&[0u64, 1, 2, 4, 7, 8, 16, 24, 32, 1 << 20, 1 << 31, u32::MAX as u64])))); }
            3 => { x.retain(|e| e.0 != 3 && e.0 != 5); x.push((3, V::Var(*r.pick(&[0, 1, 2, sp.moduli[0], sp.moduli[0] - 1, u64::MAX])))); }
            4 => { x.retain(|e| e.0 != 5); let n = r.range(0, 3000); x.push((5, V::Raw(r.bytes(n)))); }
            _ => { let mut o = vec![]; let k = r.below(6); for _ in 0..k { put_var(&mut o, *r.pick(&[0, 1, 2, 3, 97, u64::MAX, 1 << 62, 1 << 63, (1 << 62) - 1, sp.moduli[0], sp.moduli[0] + 2])) } if r.pct(50) { x.retain(|e| e.0 != 2) } x.push((2, V::Raw(o))); }
        }
        return "Par: crafted".into();
    }
    if t == Ty::Sk && r.pct(60) {
        let mut o = vec![];
        for i in 0..(if r.pct(80) { sp.n } else { r.below(3 * sp.n) }) {
            let c = if i % 3 == 0 { *r.pick(&[i64::MIN, i64::MAX, i64::MIN + 1, -1, sp.moduli[0] as i64, -(sp.moduli[0] as i64), 1 << 62]) } else { r.u64() as i64 >> r.below(64) };
            put_var(&mut o, ((c << 1) ^ (c >> 63)) as u64);
        }
        *x = vec![(1, V::Raw(o))];
        return "Sk: crafted".into();
    }
    if fields == 0 { x.push((1 + r.below(5) as u32, V::Var(r.below64(5)))); return format!("{t:?}: field added to an empty message") }
    let i = r.below(fields);
    let f = x[i].0;
    match r.below(10) {
        0 => { x.remove(i); format!("{t:?}: field {f} removed") }
        1 => { let e = x[i].clone(); x.insert(r.below(fields + 1), e); format!("{t:?}: field {f} repeated") }
        2 => { let j = r.below(fields); x.swap(i, j); format!("{t:?}: fields swapped") }
        3 => { let v = if r.pct(50) { V::Var(r.u64() >> r.below(64)) } else { let n = r.below(40); V::Raw(r.bytes(n)) }; x.push((1 + r.below(12) as u32, v)); format!("{t:?}: field added") }
        4 if !dn.is_empty() => { let q = r.pick(&dn).clone(); let mut d = donor.clone(); *x = node(&mut d, &q).clone(); format!("{t:?}: replaced from another object") }
        5 => { let n = r.range(1, 40); let e = x[i].clone(); for _ in 0..n { x.push(e.clone()) } format!("{t:?}: field {f} repeated {n} times") }
        6 => { let n = r.range(1, 300); for _ in 0..n { x.push((f, V::Raw(vec![]))) } format!("{t:?}: {n} empty fields {f}") }
        _ => {
            // absent fields have the value zero
            if r.pct(35) {
                let (lo, hi) = match t { Ty::Rq => (1, 4), Ty::Ct => (3, 3), Ty::Ksk => (4, 6), Ty::Gk => (2, 2), Ty::Ek => (3, 4), Ty::Par => (1, 4), _ => (0, 0) };
                if hi > 0 {
                    let f = r.range(lo, hi) as u32;
                    let cur = x.iter().find_map(|e| match &e.1 { V::Var(v) if e.0 == f => Some(*v), _ => None }).unwrap_or(0);
                    let v = scalar(r, cur, sp);
                    x.retain(|e| e.0 != f);
                    x.push((f, V::Var(v)));
                    return format!("{t:?}: field {f} set from {cur} to {v}");
                }
            }
            match &mut x[i].1 {
                V::Var(v) => { let o = *v; *v = scalar(r, o, sp); format!("{t:?}: field {f} set from {o} to {v}") }
                V::Raw(b) => {
                    if t == Ty::Rq && f == 3 && r.pct(70) {
                        let (i, j) = (r.below(sp.moduli.len()), if r.pct(40) { sp.n - 1 } else { r.below(sp.n) });
                        let q = sp.moduli[i];
                        let v = match r.below(5) { 0 => q, 1 => q - 1, 2 => q + 1, 3 => u64::MAX, _ => r.u64() };
                        set_residue(b, sp, i, j, v);
                        return format!("Rq: residue {j} of modulus {i} set");
                    }
                    let n = b.len();
                    match r.below(6) {
                        0 => b.truncate(r.below(n + 1)),
                        1 => { let k = r.range(1, 40); let e = r.bytes(k); b.extend(e) }
                        2 => b.clear(),
                        3 => { b.resize(if r.pct(50) { 31 } else { 33 }, 7) }
                        4 => { b.resize(32, 9) }
                        _ => for _ in 0..r.range(1, 4) { if n > 0 { let k = r.below(n * 8); b[k / 8] ^= 1 << (k % 8) } }
                    }
                    format!("{t:?}: bytes of field {f} changed from {n} to {}", b.len())
                }
                V::Msg(s, _) => { let s = *s; x[i].1 = match r.below(3) { 0 => V::Msg(s, vec![]), 1 => { let n = r.below(30); V::Raw(r.bytes(n)) } _ => V::Var(r.below64(9)) }; format!("{t:?}: message field {f} replaced") }
            }
        }
    }
}

// -------------------------------------------------------------------- objects

enum Obj { Par(Arc<BfvParameters>), Sk(SecretKey), Pk(PublicKey), Ct(Ciphertext), Rlk(RelinearizationKey), Ek(EvaluationKey), Rgsw(RGSWCiphertext), P(Poly<PowerBasis>), N(Poly<Ntt>), S(Poly<NttShoup>) }
const KINDS: usize = 10;
const NAMES: [&str; KINDS] = ["parameters", "secret key", "public key", "ciphertext", "relinearization key", "evaluation key", "rgsw ciphertext", "power-basis polynomial", "ntt polynomial", "shoup polynomial"];
const TYS: [Ty; KINDS] = [Ty::Par, Ty::Sk, Ty::Pk, Ty::Ct, Ty::Rlk, Ty::Ek, Ty::Rgsw, Ty::Rq, Ty::Rq, Ty::Rq];

fn restore(kind: usize, b: &[u8], par: &Arc<BfvParameters>, level: usize) -> Result<Obj, String> {
    let ctx = par.context_at_level(level).map_err(|e| format!("{e:?}"))?;
    let e = |e: fhe::Error| format!("{e:?}");
    let em = |e: fhe_math::Error| format!("{e:?}");
    Ok(match kind {
        0 => Obj::Par(Arc::new(BfvParameters::try_deserialize(b).map_err(e)?)),
        1 => Obj::Sk(SecretKey::from_bytes(b, par).map_err(e)?),
        2 => Obj::Pk(PublicKey::from_bytes(b, par).map_err(e)?),
        3 => Obj::Ct(Ciphertext::from_bytes(b, par).map_err(e)?),
        4 => Obj::Rlk(RelinearizationKey::from_bytes(b, par).map_err(e)?),
        5 => Obj::Ek(EvaluationKey::from_bytes(b, par).map_err(e)?),
        6 => Obj::Rgsw(RGSWCiphertext::from_bytes(b, par).map_err(e)?),
        7 => Obj::P(Poly::from_bytes(b, ctx).map_err(em)?),
        8 => Obj::N(Poly::from_bytes(b, ctx).map_err(em)?),
        _ => Obj::S(Poly::from_bytes(b, ctx).map_err(em)?),
    })
}
fn store(o: &Obj) -> Vec<u8> {
    match o {
        Obj::Par(p) => p.to_bytes(),
        Obj::Sk(k) => k.to_bytes(),
        Obj::Pk(k) => k.to_bytes(),
        Obj::Ct(c) => c.to_bytes(),
        Obj::Rlk(k) => k.to_bytes(),
        Obj::Ek(k) => ek_bytes(k),
        Obj::Rgsw(g) => g.to_bytes(),
        Obj::P(p) => p.to_bytes(),
        Obj::N(p) => p.to_bytes(),
        Obj::S(p) => p.to_bytes(),
    }
}
fn same(a: &Obj, b: &Obj) -> bool {
    match (a, b) {
        (Obj::Par(x), Obj::Par(y)) => x == y,
        (Obj::Sk(x), Obj::Sk(y)) => x == y,
        (Obj::Pk(x), Obj::Pk(y)) => x == y,
        (Obj::Ct(x), Obj::Ct(y)) => x == y,
        (Obj::Rlk(x), Obj::Rlk(y)) => x == y,
        (Obj::Ek(x), Obj::Ek(y)) => x == y,
        (Obj::Rgsw(x), Obj::Rgsw(y)) => x == y,
        (Obj::P(x), Obj::P(y)) => x == y,
        (Obj::N(x), Obj::N(y)) => x == y,
        (Obj::S(x), Obj::S(y)) => x == y,
        _ => false,
    }
}

/// The record as the tenant stored it: (bytes, level of its context).
fn record(t: &Tn, kind: usize, r: &mut Rng) -> (Vec<u8>, usize) {
    let l = r.below(t.lm() + 1);
    let b = match kind {
        0 => t.par.to_bytes(),
        1 => t.sk.to_bytes(),
        2 => t.pk.to_bytes(),
        3 => t.cts[l][r.below(4)].to_bytes(),
        // also a key-switching key that is well formed but not a relinearization key
        4 if t.rlks.is_empty() || r.pct(15) => {
            let p = <fhe::proto::bfv::RgswCiphertext as prost::Message>::decode(&t.rgsw[l].to_bytes()[..]).unwrap();
            prost::Message::encode_to_vec(&fhe::proto::bfv::RelinearizationKey { ksk: p.ksk0 })
        }
        4 => t.rlks[r.below(t.rlks.len())].2.to_bytes(),
        5 => t.eks[r.below(t.eks.len())].1.to_bytes(),
        6 => t.rgsw[l].to_bytes(),
        7 => t.cts[l][1][0].clone().into_power_basis().to_bytes(),
        8 => t.cts[l][1][1].to_bytes(),
        _ => t.cts[l][1][1].clone().into_power_basis().into_ntt_shoup().to_bytes(),
    };
    (b, l)
}

/// Every residue below its modulus and every polynomial at the stated level.
fn poly_ok(p: &Poly<Ntt>, par: &BfvParameters, level: usize, what: &str) {
    let m = p.ctx().moduli();
    ensure!(m == &par.moduli()[..par.moduli().len() - level], "inconsistent-level", "{what}: a polynomial has {} moduli at level {level} of {}", m.len(), par.moduli().len());
    rows_ok(p.coefficients().outer_iter().map(|r| r.to_vec()), m, what);
    let pb = lib("to_power_basis", || p.to_power_basis());
    rows_ok(pb.coefficients().outer_iter().map(|r| r.to_vec()), m, what);
}
fn rows_ok(rows: impl Iterator<Item = Vec<u64>>, m: &[u64], what: &str) {
    for (row, q) in rows.zip(m) { ensure!(row.iter().all(|x| x < q), "out-of-range", "{what}: a residue is not below its modulus {q}") }
}
fn ct_ok(c: &Ciphertext, par: &BfvParameters, what: &str) {
    ensure!(c.len() >= 2, "too-short", "{what} has {} polynomials", c.len());
    let l = level_of(par, c);
    for p in c.iter() { poly_ok(p, par, l, what) }
}

struct Used { out: Vec<(String, u64)> }
impl Used {
    fn val(&mut self, n: &str, h: u64) { self.out.push((n.into(), h)) }
    fn ct<E: std::fmt::Debug>(&mut self, par: &Arc<BfvParameters>, what: &str, f: impl FnOnce() -> Result<Ciphertext, E>) -> Option<Ciphertext> {
        match lib(what, f) {
            Ok(c) => {
                ct_ok(&c, par, &format!("the result of {what} with a restored object"));
                let b = lib("to_bytes", || c.to_bytes());
                match lib("from_bytes", || Ciphertext::from_bytes(&b, par)) {
                    Ok(d) => ensure!(d.len() == c.len() && d.iter().zip(c.iter()).all(|(x, y)| x == y), "result-bytes", "the result of {what} with a restored object differs from the one restored from its bytes"),
                    Err(e) => violate!("result-bytes", "the result of {what} with a restored object cannot be restored from its own bytes: {e:?}"),
                }
                self.val(what, hc(&c));
                Some(c)
            }
            Err(_) => { self.val(what, 0); None }
        }
    }
    fn pt<E: std::fmt::Debug>(&mut self, what: &str, f: impl FnOnce() -> Result<Plaintext, E>) -> Option<Plaintext> {
        match lib(what, f) {
            Ok(p) => { self.val(what, pt_hash(&p)); Some(p) }
            Err(_) => { self.val(what, 0); None }
        }
    }
}
type R<T> = fhe::Result<T>;

/// Use a restored object in every operation; digests of what came out.
fn use_all(t: &Tn, o: &Obj, seed: u64) -> Vec<(String, u64)> {
    let mut u = Used { out: vec![] };
    let par = &t.par;
    let mut lr = LibRng::new(seed);
    let lm = t.lm();
    match o {
        Obj::Ct(c) => use_ct(t, c, &mut u, &mut lr),
        Obj::Sk(k) => {
            for l in 0..=lm {
                // The mask comes from the system: use the shape only.
                let x = lib("SecretKey::try_encrypt", || -> R<Ciphertext> { k.try_encrypt(&t.pts[l].0, &mut lr) });
                if let Ok(x) = &x { ct_ok(x, par, "a ciphertext made with a restored secret key"); u.pt("SecretKey::try_decrypt", || k.try_decrypt(x)).map(|_| u.out.pop()); }
                u.val("SecretKey::try_encrypt", x.is_ok() as u64);
                u.pt("SecretKey::try_decrypt", || k.try_decrypt(&t.cts[l][0]));
                let n = lib("measure_noise", || unsafe { k.measure_noise(&t.cts[l][2]) });
                u.val("measure_noise", n.unwrap_or(9999) as u64);
                let g = lib("RGSW try_encrypt", || -> R<RGSWCiphertext> { k.try_encrypt(&t.pts[l].0, &mut lr) });
                u.val("RGSW try_encrypt", g.map_or(0, |g| fnv(FNV, &g.to_bytes())));
                let ct = Arc::new(t.cts[l][1].clone());
                u.pt("DecryptionShare", || DecryptionShare::new(k, &ct, &mut lr).and_then(|s| Plaintext::from_shares(vec![s])));
                u.ct(par, "SecretKeySwitchShare", || SecretKeySwitchShare::new(k, &t.sk, ct.clone(), &mut lr).and_then(|s| Ciphertext::from_shares(vec![s])));
                u.ct(par, "PublicKeySwitchShare", || PublicKeySwitchShare::new(k, &t.pk, &ct, &mut lr).and_then(|s| Ciphertext::from_shares(vec![s])));
            }
            // the mask of a public key comes from the system as well
            let pk = lib("PublicKey::new", || PublicKey::new(k, &mut lr));
            u.val("PublicKey::new", 1);
            ensure!(lib("PublicKey::from_bytes", || PublicKey::from_bytes(&pk.to_bytes(), par)).is_ok_and(|x| x == pk), "derived", "a public key made with a restored secret key does not survive storage");
            if lm > 0 {
                let x = lib("RelinearizationKey::new", || RelinearizationKey::new(k, &mut lr));
                u.val("RelinearizationKey::new", x.map_or(0, |k| fnv(FNV, &k.to_bytes())));
                let x = lib("RelinKeyGenerator", || RelinKeyGenerator::new(k, &t.crp, &mut lr).and_then(|g| g.round_1(&mut lr)).and_then(|s| RelinKeyShare::<fhe::mbfv::round::R1Aggregated>::from_shares(vec![s])));
                u.val("RelinKeyGenerator", x.is_ok() as u64);
            }
            let x = lib("EvaluationKeyBuilder", || EvaluationKeyBuilder::new(k).and_then(|mut b| { b.enable_row_rotation()?; b.build(&mut lr) }));
            u.val("EvaluationKeyBuilder", x.map_or(0, |k| fnv(FNV, &ek_bytes(&k))));
        }
        Obj::Pk(k) => {
            for l in 0..=lm {
                u.ct(par, "PublicKey::try_encrypt", || k.try_encrypt(&t.pts[l].0, &mut lr)).map(|c| ensure!(c.len() == 2 && level_of(par, &c) == l, "inconsistent-level", "a restored public key encrypts a plaintext of level {l} to {} polynomials at level {}", c.len(), level_of(par, &c)));
                u.ct(par, "PublicKeySwitchShare", || PublicKeySwitchShare::new(&t.sk, k, &t.cts[l][0], &mut lr).and_then(|s| Ciphertext::from_shares(vec![s])));
            }
        }
        Obj::Rlk(k) => {
            for l in 0..=lm {
                for i in 1..4 {
                    let mut c = t.cts[l][i].clone();
                    let x = lib("relinearizes", || k.relinearizes(&mut c));
                    match x {
                        Ok(()) => { ensure!(c.len() == 2, "relinearizes", "relinearizes with a restored key leaves {} polynomials", c.len()); u.ct(par, "relinearizes", || -> R<_> { Ok(c) }); }
                        Err(_) => { ensure!(c == t.cts[l][i], "trace-left", "relinearizes with a restored key failed and changed its argument"); u.val("relinearizes", 0) }
                    }
                }
                let m = t.mults.iter().find(|m| m.0 == l);
                if let Some((_, m)) = m {
                    let mut m = m.clone();
                    if lib("enable_relinearization", || m.enable_relinearization(k)).is_ok() { u.ct(par, "Multiplicator::multiply", || m.multiply(&t.cts[l][0], &t.cts[l][1])); } else { u.val("enable_relinearization", 0) }
                }
            }
            match lib("Multiplicator::default", || Multiplicator::default(k)) {
                Ok(m) => for l in 0..=lm { u.ct(par, "Multiplicator::multiply", || m.multiply(&t.cts[l][0], &t.cts[l][1])); },
                Err(_) => u.val("Multiplicator::default", 0),
            }
        }
        Obj::Ek(e) => {
            // The levels it states are those of the keys in it.
            let p = <fhe::proto::bfv::EvaluationKey as prost::Message>::decode(&ek_bytes(e)[..]);
            ensure!(p.is_ok(), "derived", "the bytes of a restored evaluation key are not a message");
            let p = p.unwrap();
            for (x, k) in p.gk.iter().filter_map(|g| g.ksk.as_ref().map(|k| (g.exponent, k))) {
                ensure!((k.ciphertext_level, k.ksk_level) == (p.ciphertext_level, p.evaluation_key_level), "inconsistent-level", "a restored evaluation key for levels ({}, {}) has a key of levels ({}, {}) for exponent {x}", p.ciphertext_level, p.evaluation_key_level, k.ciphertext_level, k.ksk_level);
            }
            let n = par.degree();
            let _ = lib("supports_inner_sum", || e.supports_inner_sum());
            for k in 0..=n { let s = lib("supports_column_rotation_by", || e.supports_column_rotation_by(k)); u.val("supports", s as u64) }
            for k in 0..=n.ilog2() as usize + 1 { let s = lib("supports_expansion", || e.supports_expansion(k)); u.val("supports", s as u64) }
            for l in 0..=lm {
                let c = &t.cts[l][1];
                for c in [c, &t.cts[l][2]] {
                    u.ct(par, "rotates_rows", || e.rotates_rows(c));
                    for k in 0..n / 2 { if e.supports_column_rotation_by(k) || k < 2 { u.ct(par, "rotates_columns_by", || e.rotates_columns_by(c, k)); } }
                    u.ct(par, "computes_inner_sum", || e.computes_inner_sum(c));
                }
                for k in 0..=n.ilog2() as usize {
                    match lib("expands", || e.expands(c, 1 << k)) {
                        Ok(v) => { ensure!(v.len() == 1 << k, "expands", "expands gave {} ciphertexts", v.len()); for c in v.into_iter().take(4) { u.ct(par, "expands", || -> R<_> { Ok(c) }); } }
                        Err(_) => u.val("expands", 0),
                    }
                }
            }
        }
        Obj::Rgsw(g) => {
            // an operator: it may refuse by a panic for other levels, not for the right one
            let mut done = 0;
            for l in 0..=lm {
                match lib_any(|| &t.cts[l][1] * g) {
                    Ok(c) => { done += 1; ensure!(level_of(par, &c) == l && c.len() == 2, "inconsistent-level", "the product of a ciphertext at level {l} and a restored RGSW ciphertext is at level {}", level_of(par, &c)); u.ct(par, "ct * rgsw", || -> R<_> { Ok(c) }); }
                    Err(_) => u.val("ct * rgsw", 0),
                }
            }
            ensure!(done >= 1, "unusable", "a restored RGSW ciphertext cannot be multiplied with a ciphertext of any level");
        }
        Obj::P(p) => {
            let c = lib("into_ntt", || p.clone().into_ntt());
            ensure!(lib("into_power_basis", || c.clone().into_power_basis()) == *p, "ntt", "a restored polynomial does not survive NTT and back");
            let s = lib("add", || p + p);
            rows_ok(s.coefficients().outer_iter().map(|r| r.to_vec()), p.ctx().moduli(), "the sum of restored polynomials");
            u.val("add", fnv(FNV, &s.to_bytes()));
            let s = lib("neg", || -p);
            u.val("neg", fnv(FNV, &s.to_bytes()));
        }
        Obj::N(p) => {
            let s = lib("mul", || p * p);
            rows_ok(s.coefficients().outer_iter().map(|r| r.to_vec()), p.ctx().moduli(), "the product of restored polynomials");
            u.val("mul", fnv(FNV, &s.to_bytes()));
            let s = lib("sub", || p - &s);
            u.val("sub", fnv(FNV, &s.to_bytes()));
        }
        Obj::S(p) => {
            let q = lib("into_power_basis", || p.clone().into_power_basis()).into_ntt();
            let s = lib("mul shoup", || &q * p);
            rows_ok(s.coefficients().outer_iter().map(|r| r.to_vec()), p.ctx().moduli(), "the product with a restored polynomial");
            ensure!(s == lib("mul", || &q * &q), "shoup", "a restored Shoup polynomial multiplies differently from its NTT form");
            u.val("mul", fnv(FNV, &s.to_bytes()));
        }
        Obj::Par(p) => use_par(p, &mut u, &mut lr),
    }
    u.out
}

fn use_ct(t: &Tn, c: &Ciphertext, u: &mut Used, lr: &mut LibRng) {
    let par = &t.par;
    let (l, lm) = (level_of(par, c), t.lm());
    let other = &t.cts[l][1];
    // decryption by definition
    let q = modulus_at(par, l);
    let ph = model::phase(&c.iter().map(lift).collect::<Vec<_>>(), &t.s, &q);
    let def = model::decrypt_by_definition(&ph, &q, par.plaintext_big());
    if let Some(p) = u.pt("SecretKey::try_decrypt", || t.sk.try_decrypt(c)) {
        let got = match lib("try_decode", || Vec::<BigUint>::try_decode(&p, encoding(false, l))) { Ok(g) => g, Err(e) => violate!("decode", "the plaintext of a restored ciphertext cannot be decoded: {e:?}") };
        let tb = par.plaintext_big();
        if q > tb * 1024u32 {
            for (i, (g, d)) in got.iter().zip(&def).enumerate() {
                // exact up to ties
                let two = big(2) * &q;
                let frac = (big(2) * &ph[i] * tb + &q) % &two;
                let near = frac < (&two >> 8u32) || frac > &two - (&two >> 8u32);
                ensure!(g == d || near, "decrypt-definition", "coefficient {i} of a restored ciphertext decrypts to {g}, by definition it is {d}");
            }
        }
    }
    let n = lib("measure_noise", || unsafe { t.sk.measure_noise(c) });
    u.val("measure_noise", n.unwrap_or(9999) as u64);
    u.ct(par, "neg", || -> R<_> { Ok(-c) });
    u.ct(par, "add", || -> R<_> { Ok(c + c) });
    u.ct(par, "sub", || -> R<_> { Ok(c - c) });
    u.ct(par, "ct + pt", || -> R<_> { Ok(c + &t.pts[l].0) });
    u.ct(par, "ct - pt", || -> R<_> { Ok(c - &t.pts[l].0) });
    u.ct(par, "ct * pt", || -> R<_> { Ok(c * &t.pts[l].0) });
    if c.len() <= 5 {
        u.ct(par, "ct * ct", || -> R<_> { Ok(c * other) });
        u.ct(par, "ct * itself", || -> R<_> { Ok(c * c) });
    }
    if c.len() == 2 {
        u.ct(par, "add other", || -> R<_> { Ok(other + c) });
        u.ct(par, "ct * rgsw", || -> R<_> { Ok(c * &t.rgsw[l]) });
    }
    u.ct(par, "dot_product_scalar", || dot_product_scalar([c, c, c].into_iter(), [&t.pts[l].0, &t.pts[l].0, &t.pts[l].0].into_iter()));
    for k in &t.rlks {
        let mut x = c.clone();
        match lib("relinearizes", || k.2.relinearizes(&mut x)) {
            Ok(()) => { ensure!(x.len() == 2, "relinearizes", "relinearizes left {} polynomials", x.len()); u.ct(par, "relinearizes", || -> R<_> { Ok(x) }); }
            Err(_) => { ensure!(x == *c, "trace-left", "relinearizes refused a restored ciphertext and changed it"); u.val("relinearizes", 0) }
        }
    }
    for e in &t.eks {
        u.ct(par, "rotates_rows", || e.1.rotates_rows(c));
        u.ct(par, "rotates_columns_by", || e.1.rotates_columns_by(c, 1));
        u.ct(par, "computes_inner_sum", || e.1.computes_inner_sum(c));
        if let Ok(v) = lib("expands", || e.1.expands(c, 2)) { for c in v { u.ct(par, "expands", || -> R<_> { Ok(c) }); } }
    }
    for m in &t.mults {
        u.ct(par, "Multiplicator::multiply", || m.1.multiply(c, other));
        u.ct(par, "Multiplicator::multiply", || m.1.multiply(other, c));
    }
    for to in l..=lm {
        let mut x = c.clone();
        if lib("switch_to_level", || x.switch_to_level(to)).is_ok() { ensure!(level_of(par, &x) == to, "inconsistent-level", "switch_to_level({to}) of a restored ciphertext ends at level {}", level_of(par, &x)); u.ct(par, "switch_to_level", || -> R<_> { Ok(x) }); } else { u.val("switch_to_level", 0) }
    }
    let mut x = c.clone();
    if lib("switch_down", || x.switch_down()).is_ok() { u.ct(par, "switch_down", || -> R<_> { Ok(x) }); }
    let a = Arc::new(c.clone());
    u.pt("DecryptionShare", || DecryptionShare::new(&t.sk, &a, lr).and_then(|s| Plaintext::from_shares(vec![s])));
    u.ct(par, "SecretKeySwitchShare", || SecretKeySwitchShare::new(&t.sk, &t.sk2, a.clone(), lr).and_then(|s| Ciphertext::from_shares(vec![s])));
    u.ct(par, "PublicKeySwitchShare", || PublicKeySwitchShare::new(&t.sk, &t.pk, c, lr).and_then(|s| Ciphertext::from_shares(vec![s])));
}

/// A restored parameter set: keys, encryption at every level, a product.
fn use_par(par: &Arc<BfvParameters>, u: &mut Used, lr: &mut LibRng) {
    let p = &**par;
    let n = p.degree();
    let var = <fhe::proto::bfv::Parameters as prost::Message>::decode(&p.to_bytes()[..]).map(|m| m.variance as usize).unwrap_or(0);
    ensure!(n.is_power_of_two() && n >= 8, "parameters", "restored parameters have degree {n}");
    let m = p.moduli().to_vec();
    ensure!(!m.is_empty() && m.iter().enumerate().all(|(i, q)| q % (2 * n as u64) == 1 && !m[..i].contains(q) && *q < 1 << 62 && model::is_prime(*q)), "parameters", "restored parameters have the moduli {m:?} at degree {n}");
    ensure!((1..=32).contains(&var), "parameters", "restored parameters have variance {var}");
    let t = p.plaintext_big().clone();
    ensure!(t >= big(2) && t < modulus_at(p, 0), "parameters", "restored parameters have plaintext modulus {t}");
    if n > 256 || m.len() > 8 { return }
    let sp = Spec { n, moduli: m, t, var, by_size: None };
    let (ring, bounds) = (sp.ring(), sp.bounds());
    let sk = lib("SecretKey::random", || SecretKey::random(par, lr));
    let pk = lib("PublicKey::new", || PublicKey::new(&sk, lr));
    let mut r = Rng::new(7);
    for l in 0..=par.max_level() {
        if modulus_at(par, l) <= sp.t { continue }
        let v = ring.random(&mut r, false);
        let pt = encode(par, &ring, &PtSpec { val: v.clone(), level: l, form: 0 });
        let c = u.ct(par, "PublicKey::try_encrypt", || pk.try_encrypt(&pt, lr));
        let Some(c) = c else { violate!("parameters", "restored parameters cannot encrypt at level {l}") };
        if bounds.fresh_pk(l) < bounds.cap(l) {
            let d = match lib("try_decrypt", || sk.try_decrypt(&c)) { Ok(d) => decode(&d, &ring, false, l, 2), Err(e) => violate!("parameters", "restored parameters cannot decrypt at level {l}: {e:?}") };
            ensure!(d == v, "parameters", "encryption under restored parameters does not decrypt");
        }
        u.ct(par, "ct * ct", || -> R<_> { Ok(&c * &c) });
        u.out.clear();
    }
    if par.max_level() > 0 { let _ = lib("RelinearizationKey::new", || RelinearizationKey::new(&sk, lr)); }
    let _ = lib("EvaluationKeyBuilder", || EvaluationKeyBuilder::new(&sk).and_then(|mut b| { b.enable_inner_sum()?; b.build(lr) }));
    u.out.clear();
}

// --------------------------------------------------------------------- engine

pub fn run(sim: &mut Sim) {
    sim.begin(0);
    let mut r = sim.rng.clone();
    let spec = gen_spec(&mut r, Want { min_moduli: 1, max_moduli: 3, max_deg_log: if sim.thorough { 5 } else { 4 }, simd: 60, depth: 1, big_t: true });
    let (sb, _, diff) = sibling(&mut r, &spec);
    sim.rng = r;
    sim.log(&format!("second tenant differs in: {diff}"));
    let mut a = Tn::new(sim, spec);
    let mut b = Tn::new(sim, sb);
    let digests = (a.digest(), b.digest());
    // what some correct calls give before anything is damaged
    let mut held: Vec<(bool, &'static str, usize, usize, Option<u64>)> = vec![];
    for _ in 0..6 {
        let (f, op, x, y) = (sim.rng.pct(70), *sim.rng.pick(GOOD), sim.rng.below(8), sim.rng.below(8));
        let v = good(if f { &a } else { &b }, op, x, y, &mut LibRng::new(77));
        held.push((f, op, x, y, v));
    }
    a.scratch = a.cts[0][0].clone();
    b.scratch = b.cts[0][0].clone();
    let steps = sim.rng.range(6, 14) * if sim.thorough { 2 } else { 1 };
    for i in 1..=steps as u32 {
        if !sim.begin(i) { continue }
        sim.now += 1000;
        let mut r = sim.rng.clone();
        let kind = r.weighted(&[10, 6, 6, 18, 16, 16, 12, 4, 4, 4]);
        let (mut bytes, mut level) = record(&a, kind, &mut r);
        let (donor, _) = record(if r.pct(50) { &a } else { &b }, if r.pct(70) { kind } else { r.below(KINDS) }, &mut r);
        let clean = bytes.clone();
        let mut target = kind;
        let mut what = vec![];
        for _ in 0..r.weighted(&[10, 60, 20, 10]) {
            let len = bytes.len();
            // a message field is changed three times out of five
            let mode = r.weighted(&[6, 5, 8, 4, 4, 4, 3, 3, 60]);
            let ok = sim.fault(["truncated", "torn-write", "bit-flips", "zeroed-block", "spliced", "concatenated", "trailing-garbage", "misdirected", "crafted-field"][mode], 960);
            if !ok { continue }
            match mode {
                0 => { let k = match r.below(4) { 0 => 0, 1 => len.saturating_sub(1), _ => r.below(len + 1) }; bytes.truncate(k); what.push(format!("cut to {k}")) }
                1 => { let k = r.below(len.min(donor.len()) + 1); let tail: Vec<u8> = if r.pct(50) { bytes[k..].to_vec() } else { vec![0; len - k] }; bytes = donor[..k].iter().copied().chain(tail).collect(); what.push(format!("torn at {k}")) }
                2 => { for _ in 0..r.range(1, 3) { if len > 0 { let k = if r.pct(50) { r.below(8 * len.min(24)) } else { r.below(8 * len) }; bytes[k / 8] ^= 1 << (k % 8); what.push(format!("bit {k}")) } } }
                3 => { if len > 0 { let k = r.below(len); let e = (k + r.range(1, 64)).min(len); bytes[k..e].fill(0); what.push(format!("zeros {k}..{e}")) } }
                4 => { if len > 0 && !donor.is_empty() { let k = r.below(len); let j = r.below(donor.len()); let n = r.range(1, 80).min(donor.len() - j).min(len - k); bytes[k..k + n].copy_from_slice(&donor[j..j + n]); what.push(format!("splice {n} at {k}")) } }
                5 => { let d = donor.clone(); if r.pct(50) { bytes.extend(d) } else { bytes = d.into_iter().chain(bytes).collect() } what.push("concatenated".into()) }
                6 => { let n = r.range(1, 30); let g = if r.pct(50) { vec![0; n] } else { r.bytes(n) }; bytes.extend(g); what.push("garbage".into()) }
                7 => { if r.pct(50) { target = r.below(KINDS); what.push(format!("read as {}", NAMES[target])) } else { level = r.below(a.lm() + 1); bytes = donor.clone(); what.push("another record".into()) } }
                _ => {
                    let Some(mut m) = parse(TYS[kind], &bytes) else { continue };
                    let d = parse(TYS[kind], &donor).unwrap_or_default();
                    let w = craft(&mut r, TYS[kind], &mut m, &d, &a.spec);
                    bytes.clear();
                    emit(&m, &mut bytes);
                    what.push(w);
                }
            }
        }
        let what = what.join("; ");
        let objsize = a.spec.n * (a.spec.moduli.len() + 4) * 8;
        heap_reset_stats();
        let got = lib(&format!("restoring a {}", NAMES[target]), || restore(target, &bytes, &a.par, level));
        let (max, total) = heap_stats();
        let len = bytes.len();
        // the size of a restored parameter set is its own
        let size = match &got { Ok(Obj::Par(p)) => p.degree() * (p.moduli().len() + 4) * 8, _ if target == 0 => 1 << 14, _ => objsize };
        let parts = a.spec.moduli.len().max(64) + a.spec.n;
        ensure!(max <= (1 << 15) + 64 * len + 32 * size && total <= (1 << 18) + 512 * len + if target == 0 { 64 } else { 8 } * parts * size, "allocation", "restoring a {} from {len} bytes ({what}) requested {max} bytes at once and {total} in total", NAMES[target]);
        sim.op(&format!("{} {}", if got.is_ok() { "restored" } else { "refused" }, NAMES[target]));
        sim.digest(&format!("{} [{what}] -> {}", NAMES[target], match &got { Ok(_) => "restored".to_string(), Err(e) => e.chars().take(60).collect() }), &bytes);
        match &got {
            Err(e) => {
                ensure!(kind == 4 || bytes != clean || target != kind || !what.is_empty(), "refused-undamaged", "an undamaged {} is refused: {e}", NAMES[target]);
                sim.state(fnv(FNV, format!("{target} {}", e.split(|c: char| c.is_ascii_digit()).next().unwrap_or("")).as_bytes()));
            }
            Ok(o) => {
                sim.state(fnv(FNV, format!("{target} ok {}", what.split(|c: char| c.is_ascii_digit()).next().unwrap_or("")).as_bytes()));
                if let Obj::Ct(c) = o { ct_ok(c, &a.par, "a restored ciphertext") }
                match o {
                    Obj::P(p) => rows_ok(p.coefficients().outer_iter().map(|r| r.to_vec()), p.ctx().moduli(), "a restored polynomial"),
                    Obj::N(p) => poly_ok(p, &a.par, level, "a restored polynomial"),
                    Obj::S(p) => rows_ok(p.coefficients().outer_iter().map(|r| r.to_vec()), p.ctx().moduli(), "a restored polynomial"),
                    _ => {}
                }
                let name = NAMES[target];
                let again = lib("to_bytes", || store(o));
                let second = lib("from_bytes", || restore(target, &again, &a.par, level));
                match &second {
                    Ok(x) => {
                        ensure!(same(o, x), "not-storable", "a {name} restored from damaged bytes ({what}) differs from the one restored from its own bytes");
                        ensure!(lib("to_bytes", || store(x)) == again, "not-storable", "a {name} restored from damaged bytes ({what}) is stored differently the second time");
                    }
                    Err(e) => violate!("not-storable", "a {name} restored from damaged bytes ({what}) cannot be restored from its own bytes: {e}"),
                }
                let seed = sim.lib_seed();
                let x = use_all(&a, o, seed);
                let y = use_all(&a, second.as_ref().unwrap(), seed);
                for (p, q) in x.iter().zip(&y) { ensure!(p == q, "restored-twice", "{} gives another result with a {name} restored from damaged bytes ({what}) than with the same {name} stored and restored once more", p.0) }
                for k in &x { sim.op(&k.0) }
            }
        }
        // everything held is as it was and still works
        let (f, op, x, y, v) = held[r.below(held.len())];
        let g = good(if f { &a } else { &b }, op, x, y, &mut LibRng::new(77));
        ensure!(g == v, "held-object-changed", "{op} on held objects gives another result after a damaged {} was restored and used", NAMES[target]);
        a.scratch = a.cts[0][0].clone();
        b.scratch = b.cts[0][0].clone();
        for (t, (p, q)) in [(&digests.0, a.digest()), (&digests.1, b.digest())].into_iter().enumerate() {
            for (x, y) in p.iter().zip(&q) { ensure!(x == y, "held-object-changed", "{} of tenant {t} changed while a damaged {} was restored and used", x.0, NAMES[target]) }
        }
        sim.rng = r;
    }
}
