//! C05: subgroup tests, decompression, hash to curve, parameters
use fawkes_crypto::core::field::Field;
use fawkes_crypto::native::bls12_381::JubJubBLS12_381;
use fawkes_crypto::native::bn256::JubJubBN256;
use fawkes_crypto::native::ecc::{EdwardsPoint, EdwardsPointEx, JubJubParams};
use fawkes_crypto::native::num::Num;
use fv::ed::*;
use fv::refm::*;
use fv::{ensure, gen, Check, Ctx, Res, R};
use num::bigint::BigUint;
use std::sync::Arc;

fn to<F: RefField + Field>(p: &Pt<F>) -> EdwardsPoint<F> {
    EdwardsPoint { x: Num(p.x.0), y: Num(p.y.0) }
}
fn back<F: RefField + Field>(p: &EdwardsPoint<F>) -> Pt<F> {
    Pt { x: E(p.x.0), y: E(p.y.0) }
}

fn subgroup<F: RefField + Field, J: JubJubParams<Fr = F>>(c: &mut Ctx, k: &Curve<F>, j: &J) -> Res {
    // a known member plus every torsion point: member exactly for torsion 0
    let s = if c.r.chance(1, 4) { k.zero() } else { gen::sub_point(&mut c.r, k).0 };
    let i = c.r.below(8);
    let p = k.add(&s, &k.tor[i]);
    let z = loop {
        let z = E(gen::shaped::<F>(&mut c.r));
        if !z.is_zero() { break z; }
    };
    let e = EdwardsPointEx { x: Num((p.x * z).0), y: Num((p.y * z).0), t: Num((p.x * p.y * z).0), z: Num(z.0) };
    c.case(format!("{} {}", F::NAME, p.show()));
    c.count(&format!("coset {}", i), 1);
    ensure!(c, k.in_subgroup(&p) == (i == 0), "reference subgroup test broken");
    ensure!(c, e.is_in_subgroup(j) == (i == 0), "subgroup test on {} (coset {}) in {}", p.show(), i, F::NAME);
    ensure!(c, to(&p).into_extended().is_in_subgroup(j) == (i == 0), "subgroup test on {} (coset {}) in {}", p.show(), i, F::NAME);
    // decompression of the x of each coset element
    let d = EdwardsPoint::subgroup_decompress(Num(p.x.0), j);
    let exp = k.decompress(p.x);
    ensure!(c, d.map(|d| back(&d)) == exp, "decompression of x={} (coset {}) in {}: {:?}", p.x.big(), i, F::NAME, d);
    if i == 0 {
        ensure!(c, d == Some(to(&p)), "decompression of x={} does not return the member", p.x.big());
    }
    Ok(())
}

fn coords<F: RefField + Field, J: JubJubParams<Fr = F>>(c: &mut Ctx, k: &Curve<F>, j: &J) -> Res {
    let v = match c.r.below(4) {
        0 => E(gen::shaped::<F>(&mut c.r)),
        1 => gen::point(&mut c.r, k).0.x,
        2 => gen::point(&mut c.r, k).0.y,
        _ => E(gen::uniform::<F>(&mut c.r)),
    };
    c.case(format!("{} {}", F::NAME, v.big()));
    let d = EdwardsPoint::subgroup_decompress(Num(v.0), j);
    let e = k.decompress(v);
    c.count(if e.is_some() { "x of a member" } else if k.ys_for_x(v).is_some() { "x of non-members only" } else { "x of no point" }, 1);
    ensure!(c, d.map(|d| back(&d)) == e, "decompression of x={} in {}: {:?} expected {:?}", v.big(), F::NAME, d, e.map(|e| e.show()));
    for sign in [false, true].iter() {
        let g = EdwardsPoint::get_for_y(Num(v.0), *sign, j);
        match k.xs_for_y(v) {
            None => { c.count("y of no point", 1); ensure!(c, g.is_none(), "y={} has no point in {}", v.big(), F::NAME); }
            Some(x) => {
                c.count("y of points", 1);
                let x = if x.is_zero() || x.odd() == *sign { x } else { -x };
                ensure!(c, g.map(|g| back(&g)) == Some(Pt { x, y: v }), "point for y={} sign {} in {}: {:?}", v.big(), sign, F::NAME, g);
            }
        }
    }
    Ok(())
}

fn scalar_map<F: RefField + Field, J: JubJubParams<Fr = F>>(c: &mut Ctx, k: &Curve<F>, j: &J) -> Res {
    let t = E(gen::shaped::<F>(&mut c.r));
    let e = match k.from_scalar(t) {
        Some(e) => e,
        None => return Ok(()),
    };
    c.case(format!("{} {}", F::NAME, t.big()));
    c.sample(|| format!("{} {} -> {}", F::NAME, t.big(), e.show()));
    let p = EdwardsPoint::from_scalar(Num(t.0), j);
    ensure!(c, back(&p) == e, "from_scalar({}) in {}: {:?} expected {}", t.big(), F::NAME, p, e.show());
    ensure!(c, k.in_subgroup(&back(&p)), "from_scalar({}) left the subgroup in {}", t.big(), F::NAME);
    ensure!(c, EdwardsPoint::from_scalar_raw(Num(t.0), j.montgomery_a(), j.montgomery_b(), j.montgomery_u()) == p, "from_scalar_raw({})", t.big());
    Ok(())
}

fn params<F: RefField + Field, J: JubJubParams<Fr = F>>(c: &mut Ctx, k: &Curve<F>, j: &J) -> Res
where
    J::Fs: RefField,
{
    ensure!(c, E(j.edwards_d().0) == k.d, "edwards d of {}", F::NAME);
    ensure!(c, E(j.montgomery_a().0) == k.ma && E(j.montgomery_b().0) == k.mb, "Montgomery coefficients of {}", F::NAME);
    ensure!(c, E(j.montgomery_u().0) == k.mu, "Montgomery u of {}", F::NAME);
    ensure!(c, back(j.edwards_g()) == k.g, "generator of {}", F::NAME);
    ensure!(c, k.is_zero(&k.mul(&k.g, &k.l)) && !k.is_zero(&k.g), "order of the generator of {}", F::NAME);
    ensure!(c, fv::refm::tb(&Num::<J::Fs>::minusone().0) + 1u32 == k.l, "group order of {}", F::NAME);
    // 8 l lies in the Hasse interval, so 8 l is the order of the whole curve
    let p = F::p();
    let n = &k.l * 8u32;
    let diff: BigUint = if n > &p + 1u32 { &n - &p - 1u32 } else { &p + 1u32 - &n };
    ensure!(c, &diff * &diff <= &p * 4u32, "curve order of {}", F::NAME);
    let c2 = j.clone();
    ensure!(c, c2.edwards_g() == j.edwards_g() && c2.edwards_d() == j.edwards_d(), "cloned parameters");
    // random points
    let seed = c.r.u64();
    let mut rng = R::new(seed);
    let mut cosets = [0u64; 8];
    let mut odd = 0;
    let n = 64;
    for _ in 0..n {
        let p = back(&EdwardsPoint::rand(&mut rng, j));
        ensure!(c, k.on(&p), "random point {} off the curve in {}", p.show(), F::NAME);
        let t = k.split(&p).1;
        let i = k.tor.iter().position(|x| *x == t).unwrap();
        cosets[i] += 1;
        odd += p.x.odd() as u64;
        c.case(p.show());
    }
    c.count("random points", n);
    // both signs and several cosets occur (chance of failure below 2^-60)
    ensure!(c, odd > 0 && odd < n, "random points always have the same sign in {}", F::NAME);
    ensure!(c, cosets.iter().filter(|x| **x > 0).count() > 1, "random points stay in one coset in {}", F::NAME);
    Ok(())
}

fn main() {
    let bn = Arc::new((bn_curve(), JubJubBN256::new()));
    let bl = Arc::new((bls_curve(), JubJubBLS12_381::new()));
    let mut ck = Check::new("C05", "members shifted by every torsion point, x and y coordinates of points and of nothing, boundary and uniform scalars for the point map, parameter sets; compared with independent reference arithmetic; distinct by coordinate or scalar");
    macro_rules! s { ($n:expr, $q:expr, $t:expr, $f:ident, $c:expr) => {{
        let c = $c.clone();
        ck = ck.add($n, $q, $t, move |x: &mut Ctx| $f(x, &c.0, &c.1));
    }} }
    s!("subgroup-bn", 6000, 300000, subgroup, bn);
    s!("subgroup-bls", 6000, 300000, subgroup, bl);
    s!("coordinates-bn", 8000, 400000, coords, bn);
    s!("coordinates-bls", 8000, 400000, coords, bl);
    s!("scalar-map-bn", 12000, 600000, scalar_map, bn);
    s!("scalar-map-bls", 12000, 600000, scalar_map, bl);
    s!("params-bn", 8, 200, params, bn);
    s!("params-bls", 8, 200, params, bl);
    ck.assume("field arithmetic of the ff/pairing dependency").run()
}
