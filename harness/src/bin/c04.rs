//! C04: curve operations implement the group law
use fawkes_crypto::native::bls12_381::JubJubBLS12_381;
use fawkes_crypto::native::bn256::JubJubBN256;
use fawkes_crypto::native::ecc::{EdwardsPoint, EdwardsPointEx, JubJubParams, MontgomeryPoint};
use fawkes_crypto::native::num::Num;
use fawkes_crypto::core::field::Field;
use fv::ed::*;
use fv::refm::*;
use fv::{ensure, gen, Check, Ctx, Res};
use num::bigint::BigUint;
use std::sync::Arc;

fn to<F: RefField + Field>(p: &Pt<F>) -> EdwardsPoint<F> {
    EdwardsPoint { x: Num(p.x.0), y: Num(p.y.0) }
}
/// projective representative with a chosen Z
fn ext<F: RefField + Field>(c: &mut Ctx, p: &Pt<F>) -> EdwardsPointEx<F> {
    let z = loop {
        let z = E(gen::shaped::<F>(&mut c.r));
        if !z.is_zero() {
            break if c.r.chance(1, 3) { E::one() } else { z };
        }
    };
    EdwardsPointEx { x: Num((p.x * z).0), y: Num((p.y * z).0), t: Num((p.x * p.y * z).0), z: Num(z.0) }
}
/// affine value of an extended point, computed here
fn aff<F: RefField + Field>(p: &EdwardsPointEx<F>) -> Result<Pt<F>, String> {
    let z = E(p.z.0);
    let zi = z.inv().ok_or("result has Z = 0")?;
    let r = Pt { x: E(p.x.0) * zi, y: E(p.y.0) * zi };
    if E(p.t.0) * zi != r.x * r.y {
        return Err("result has T/Z != xy".into());
    }
    Ok(r)
}

fn pair<F: RefField + Field>(c: &mut Ctx, k: &Curve<F>) -> (Pt<F>, Pt<F>, String) {
    let (p, pk) = gen::point(&mut c.r, k);
    let (q, qk) = match c.r.below(7) {
        0 => (p, "same"),
        1 => (k.neg(&p), "negated"),
        2 => (k.add(&p, &k.tor[c.r.below(8)]), "same + torsion"),
        3 => (k.dbl(&p), "doubled"),
        _ => gen::point(&mut c.r, k),
    };
    (p, q, format!("{} {}", pk, qk))
}

fn group<F: RefField + Field, J: JubJubParams<Fr = F>>(c: &mut Ctx, k: &Curve<F>, j: &J) -> Res
where
    J::Fs: RefField,
{
    let (p, q, kind) = pair(c, k);
    c.case(format!("{} {} {}", F::NAME, p.show(), q.show()));
    c.count(&format!("pair: {}", kind), 1);
    c.sample(|| format!("{} {}: {} {}", F::NAME, kind, p.show(), q.show()));
    let what = format!("{} ({}) p={} q={}", F::NAME, kind, p.show(), q.show());
    let sum = k.add(&p, &q);
    let (a, b) = (to(&p), to(&q));
    let (ea, eb) = (ext(c, &p), ext(c, &q));
    ensure!(c, a.add(&b, j) == to(&sum), "affine addition: {}", what);
    ensure!(c, aff(&ea.add(&eb, j))? == sum, "projective addition: {}", what);
    let d = k.dbl(&p);
    ensure!(c, a.double() == to(&d), "affine doubling: {}", what);
    ensure!(c, aff(&ea.double())? == d, "projective doubling: {}", what);
    let d8 = k.dbl(&k.dbl(&d));
    ensure!(c, a.mul_by_cofactor() == to(&d8), "affine cofactor: {}", what);
    ensure!(c, aff(&ea.mul_by_cofactor())? == d8, "projective cofactor: {}", what);
    ensure!(c, aff(&ea.negate())? == k.neg(&p), "negation: {}", what);
    // equality, in every representative
    ensure!(c, (a == b) == (p == q), "affine equality: {}", what);
    ensure!(c, (ea == eb) == (p == q), "projective equality: {}", what);
    ensure!(c, ea == ext(c, &p), "representatives of one point differ: {}", what);
    let m = ext(c, &k.neg(&p));
    ensure!(c, (ea == m) == (k.neg(&p) == p), "point and its negation: {}", what);
    let my = ext(c, &Pt { x: p.x, y: -p.y });
    ensure!(c, (ea == my) == p.y.is_zero(), "point and its reflection: {}", what);
    // zero tests
    ensure!(c, a.is_zero() == k.is_zero(&p) && ea.is_zero() == k.is_zero(&p), "zero test: {}", what);
    ensure!(c, EdwardsPoint::<F>::zero() == to(&k.zero()) && aff(&EdwardsPointEx::<F>::zero())? == k.zero(), "zero()");
    ensure!(c, aff(&ea.add(&ext(c, &k.zero()), j))? == p, "adding the identity: {}", what);
    ensure!(c, aff(&ea.add(&ea.negate(), j))? == k.zero(), "adding the negation: {}", what);
    // conversions
    ensure!(c, aff(&a.into_extended())? == p && ea.into_affine() == a, "affine/extended conversion: {}", what);
    // curve membership
    ensure!(c, a.is_in_curve(j) && ea.is_in_curve(j), "on-curve test refused a point: {}", what);
    let off = match c.r.below(6) {
        0 => Pt { x: p.x + E::one(), y: p.y },
        1 => Pt { x: p.x, y: p.y + E::one() },
        2 => Pt { x: p.y, y: p.x },
        3 => Pt { x: E::zero(), y: E::zero() },
        4 => Pt { x: p.x, y: q.y },
        _ => Pt { x: E(gen::shaped::<F>(&mut c.r)), y: E(gen::shaped::<F>(&mut c.r)) },
    };
    ensure!(c, to(&off).is_in_curve(j) == k.on(&off), "on-curve test on {}: expected {}", off.show(), k.on(&off));
    let eo = ext(c, &off);
    ensure!(c, eo.is_in_curve(j) == k.on(&off), "projective on-curve test on {}", off.show());
    // inconsistent extended coordinates are no points
    let mut bad = ea;
    match c.r.below(3) {
        0 => bad.t = bad.t + Num::one(),
        1 => bad.t = -bad.t - Num::one(),
        _ => { bad.z = Num::zero(); }
    }
    ensure!(c, !bad.is_in_curve(j), "inconsistent extended coordinates accepted: {}", what);
    let z0 = Num::zero();
    ensure!(c, !EdwardsPointEx { x: z0, y: z0, t: z0, z: z0 }.is_in_curve(j), "the all-zero coordinates accepted");
    // extended coordinates that satisfy the quadric but not ZT = XY
    let t2 = E(ea.t.0);
    if !t2.is_zero() {
        let neg_t = EdwardsPointEx { x: ea.x, y: ea.y, t: -ea.t, z: ea.z };
        ensure!(c, !neg_t.is_in_curve(j), "extended point with negated T accepted: {}", what);
    }
    // Montgomery form
    let mont = a.into_montgomery();
    let emont = ea.into_montgomery();
    match k.to_mont(&p) {
        None => { ensure!(c, mont.is_none() && emont.is_none(), "the identity has no Montgomery form"); }
        Some((u, v)) => {
            let e = MontgomeryPoint { x: Num(u.0), y: Num(v.0) };
            ensure!(c, mont == Some(e) && emont == Some(e), "Montgomery form: {}", what);
            ensure!(c, k.mb * v.sq() == u * (u.sq() + k.ma * u + E::one()), "reference Montgomery form off the curve");
            ensure!(c, e.into_affine() == a, "from Montgomery form: {}", what);
            ensure!(c, aff(&e.into_extended())? == p, "from Montgomery form, extended: {}", what);
        }
    }
    Ok(())
}

fn scalars<F: RefField + Field, J: JubJubParams<Fr = F>>(c: &mut Ctx, k: &Curve<F>, j: &J) -> Res
where
    J::Fs: RefField,
{
    let (p, kind) = gen::point(&mut c.r, k);
    let s = match c.r.below(5) {
        0 => BigUint::from(c.r.below(64) as u32),
        1 => &k.l - BigUint::from(1 + c.r.below(64) as u32),
        _ => gen::shaped_big(&mut c.r, &k.l),
    };
    c.case(format!("{} {} {}", F::NAME, p.show(), s));
    c.count(&format!("scalar on {}", kind), 1);
    let e = k.mul(&p, &s);
    let n = Num::<J::Fs>(fb(&s));
    ensure!(c, to(&p).mul(n, j) == to(&e), "{} * {} ({}) in {}", s, p.show(), kind, F::NAME);
    let x = ext(c, &p);
    ensure!(c, aff(&x.mul(n, j))? == e, "projective {} * {} ({}) in {}", s, p.show(), kind, F::NAME);
    Ok(())
}

/// a long walk: the real point is updated by random operations in lock-step
/// with the reference
fn walk<F: RefField + Field, J: JubJubParams<Fr = F>>(c: &mut Ctx, k: &Curve<F>, j: &J) -> Res
where
    J::Fs: RefField,
{
    let (mut p, _) = gen::point(&mut c.r, k);
    let mut e = ext(c, &p);
    let mut hist: Vec<(Pt<F>, EdwardsPointEx<F>)> = vec![(p, e)];
    for step in 0..40 {
        let h = hist[c.r.below(hist.len())];
        let op = c.r.below(6);
        match op {
            0 => { p = k.dbl(&p); e = e.double(); }
            1 => { p = k.neg(&p); e = e.negate(); }
            2 => { p = k.add(&p, &h.0); e = e.add(&h.1, j); }
            3 => { p = k.add(&p, &k.neg(&h.0)); e = e.add(&h.1.negate(), j); }
            4 => { let t = gen::point(&mut c.r, k).0; p = k.add(&t, &p); let et = ext(c, &t); e = et.add(&e, j); }
            _ => { let s = c.r.below(20) as u32; p = k.mul(&p, &BigUint::from(s)); e = e.mul(Num::<J::Fs>::from(s), j); }
        }
        c.note(format!("op {} -> {}", op, p.show()));
        ensure!(c, aff(&e)? == p, "after step {} (op {}) in {}", step, op, F::NAME);
        ensure!(c, e.is_in_curve(j), "walk left the curve at step {}", step);
        ensure!(c, e.is_zero() == k.is_zero(&p), "zero test at step {}", step);
        for (hp, he) in hist.iter().rev().take(3) {
            ensure!(c, (e == *he) == (p == *hp), "equality at step {}", step);
        }
        hist.push((p, e));
    }
    c.case(format!("{} {}", F::NAME, p.show()));
    Ok(())
}

fn main() {
    let bn = Arc::new((bn_curve(), JubJubBN256::new()));
    let bl = Arc::new((bls_curve(), JubJubBLS12_381::new()));
    let mut ck = Check::new("C04", "pairs of points (identity, orders 2/4/8, subgroup, cosets, equal, opposite, differing by torsion), random projective representatives and boundary scalars; every operation compared with affine reference arithmetic; distinct by the points' coordinates");
    macro_rules! s { ($n:expr, $q:expr, $t:expr, $f:ident, $c:expr) => {{
        let c = $c.clone();
        ck = ck.add($n, $q, $t, move |x: &mut Ctx| $f(x, &c.0, &c.1));
    }} }
    s!("group-bn", 40000, 2000000, group, bn);
    s!("group-bls", 40000, 2000000, group, bl);
    s!("scalars-bn", 8000, 400000, scalars, bn);
    s!("scalars-bls", 8000, 400000, scalars, bl);
    s!("walk-bn", 1500, 60000, walk, bn);
    s!("walk-bls", 1500, 60000, walk, bl);
    ck.assume("field arithmetic of the ff/pairing dependency").run()
}
