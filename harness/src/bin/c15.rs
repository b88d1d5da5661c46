//! C15: curve gadgets equal the native curve operations
use ::num::bigint::BigUint;
use ::num::{One, Zero};
use fawkes_crypto::circuit::bool::CBool;
use fawkes_crypto::circuit::ecc::{CEdwardsPoint, CMontgomeryPoint};
use fawkes_crypto::core::signal::Signal;
use fawkes_crypto::native::ecc::{EdwardsPoint, JubJubParams, MontgomeryPoint};
use fawkes_crypto::native::num::Num;
use fv::ed::Pt;
use fv::engine::guard;
use fv::gen;
use fv::moncs::MonCS;
use fv::prog::{int, JF};
use fv::refm::*;
use fv::sig::{bits_of, boo, num};
use fv::{ensure, Check, Ctx, Res};

type M<F> = MonCS<F>;
type P<'a, F> = CEdwardsPoint<'a, M<F>>;
type Q<'a, F> = CMontgomeryPoint<'a, M<F>>;

fn nat<F: JF>(p: &Pt<F>) -> EdwardsPoint<F> { EdwardsPoint { x: Num(p.x.0), y: Num(p.y.0) } }
fn sp<'a, F: JF>(c: &mut Ctx, cs: &'a M<F>, p: &Pt<F>) -> P<'a, F> {
    match c.r.below(4) {
        0 => P::from_const(cs, &nat(p)),
        1 => P::alloc(cs, Some(&nat(p))),
        _ => CEdwardsPoint { x: num(&mut c.r, cs, p.x), y: num(&mut c.r, cs, p.y) },
    }
}
fn sm<'a, F: JF>(c: &mut Ctx, cs: &'a M<F>, p: (E<F>, E<F>)) -> Q<'a, F> {
    match c.r.below(4) {
        0 => Q::from_const(cs, &MontgomeryPoint { x: Num(p.0 .0), y: Num(p.1 .0) }),
        1 => Q::alloc(cs, Some(&MontgomeryPoint { x: Num(p.0 .0), y: Num(p.1 .0) })),
        _ => CMontgomeryPoint { x: num(&mut c.r, cs, p.0), y: num(&mut c.r, cs, p.1) },
    }
}
fn done<F: JF>(c: &mut Ctx, cs: &M<F>, what: &str) -> Res {
    cs.verdict().map_err(|e| format!("{}: {}", what, e))?;
    c.obs(cs.audits());
    Ok(())
}
fn eqp<F: JF>(c: &mut Ctx, cs: &M<F>, o: &P<F>, w: &Pt<F>, what: &str) -> Res {
    cs.audit(&o.x)?;
    cs.audit(&o.y)?;
    let v = o.get_value().map(|v| Pt { x: E(v.x.0), y: E(v.y.0) });
    ensure!(c, v == Some(*w), "{}: gadget gives {:?}, expected {}", what, v.map(|v| v.show()), w.show());
    Ok(())
}
fn eqm<F: JF>(c: &mut Ctx, cs: &M<F>, o: &Q<F>, w: (E<F>, E<F>), what: &str) -> Res {
    cs.audit(&o.x)?;
    cs.audit(&o.y)?;
    let v = o.get_value().map(|v| (E(v.x.0), E(v.y.0)));
    ensure!(c, v == Some(w), "{}: gadget gives another Montgomery point", what);
    Ok(())
}

fn group<F: JF>(c: &mut Ctx) -> Res {
    let cu = F::curve();
    let jj = F::jj();
    let (a, ka) = gen::point(&mut c.r, cu);
    let (b, kb) = match c.r.below(5) { 0 => (a, "same"), 1 => (cu.neg(&a), "negated"), 2 => (cu.add(&a, &cu.tor[c.r.below(8)]), "torsion neighbour"), _ => gen::point(&mut c.r, cu) };
    c.case(format!("{}{}", a.show(), b.show()));
    c.count(&format!("{} + {}", ka, kb), 1);
    let cs = &M::<F>::new();
    let (x, y) = (sp(c, cs, &a), sp(c, cs, &b));
    let what = format!("{} {} point {} and {} {}", F::NAME, ka, a.show(), kb, b.show());
    eqp(c, cs, &x.add(&y, jj), &cu.add(&a, &b), &format!("addition of {}", what))?;
    eqp(c, cs, &y.add(&x, jj), &cu.add(&a, &b), &format!("addition of {}", what))?;
    eqp(c, cs, &x.double(jj), &cu.dbl(&a), &format!("doubling of {}", what))?;
    eqp(c, cs, &x.mul_by_cofactor(jj), &cu.mul(&a, &BigUint::from(8u32)), &format!("cofactor multiple of {}", what))?;
    ensure!(c, nat(&a).add(&nat(&b), jj) == nat(&cu.add(&a, &b)) && nat(&a).double() == nat(&cu.dbl(&a)), "native {}", what);
    x.assert_in_curve(jj);
    done(c, cs, &what)
}

fn montgomery<F: JF>(c: &mut Ctx) -> Res {
    let cu = F::curve();
    let jj = F::jj();
    let a = loop { let p = if c.r.bool() { gen::sub_point(&mut c.r, cu).0 } else { gen::point(&mut c.r, cu).0 }; if !p.x.is_zero() { break p; } };
    // the other operand: distinct x in Montgomery form, (0,0) included
    let b = loop {
        let p = match c.r.below(5) { 0 => cu.tor[4], 1 => cu.dbl(&a), _ => gen::point(&mut c.r, cu).0 };
        if cu.is_zero(&p) || p == a || p == cu.neg(&a) { continue; }
        break p;
    };
    let s = cu.add(&a, &b);
    let (ma, mb) = (cu.to_mont(&a).unwrap(), cu.to_mont(&b).unwrap());
    let what = format!("{} points {} and {}", F::NAME, a.show(), b.show());
    c.case(&what);
    let cs = &M::<F>::new();
    let x = sp(c, cs, &a);
    eqm(c, cs, &x.into_montgomery(), ma, &format!("conversion to Montgomery form of {}", what))?;
    let (p, q) = (sm(c, cs, ma), sm(c, cs, mb));
    eqp(c, cs, &p.into_edwards(), &a, &format!("conversion from Montgomery form of {}", what))?;
    eqp(c, cs, &q.into_edwards(), &b, &format!("conversion from Montgomery form of {}", what))?;
    if let Some(ms) = cu.to_mont(&s) {
        eqm(c, cs, &p.add(&q, jj), ms, &format!("Montgomery addition of {}", what))?;
        eqm(c, cs, &q.add(&p, jj), ms, &format!("Montgomery addition of {}", what))?;
    }
    if let Some(md) = cu.to_mont(&cu.dbl(&a)) {
        eqm(c, cs, &p.double(jj), md, &format!("Montgomery doubling of {}", what))?;
    }
    done(c, cs, &what)
}

fn scalar_bits<F: JF>(c: &mut Ctx) -> Vec<bool> {
    let cu = F::curve();
    let nb = F::nbits();
    let n = match c.r.below(7) { 6 => nb + c.r.range(1, 60), 0 => nb, 1 => cu.l.bits(), 2 => c.r.range(0, 8), 3 => c.r.range(1, nb), 4 => 3 * c.r.range(1, 12) + c.r.below(3), _ => c.r.range(1, 30) };
    if n == 0 { return vec![]; }
    let two = BigUint::one() << n;
    let v = match c.r.below(8) {
        0 => BigUint::zero(),
        1 => BigUint::one(),
        2 => two.clone() - 1u32,
        3 => cu.l.clone() % &two,
        4 => (cu.l.clone() - 1u32) % &two,
        5 => (cu.l.clone() + 1u32 + BigUint::from(c.r.below(3) as u32)) % &two,
        _ => gen::shaped_big(&mut c.r, &two),
    };
    bits_of(&v, n)
}

fn mul<F: JF>(c: &mut Ctx) -> Res {
    let cu = F::curve();
    let jj = F::jj();
    let (a, k) = gen::sub_point(&mut c.r, cu);
    let bits = scalar_bits::<F>(c);
    let v = int(&bits);
    let cs = &M::<F>::new();
    let x = sp(c, cs, &a);
    let sb: Vec<CBool<M<F>>> = match c.r.below(4) {
        0 => bits.iter().map(|b| CBool::from_const(cs, b)).collect(),
        1 => bits.iter().map(|b| CBool::alloc(cs, Some(b))).collect(),
        _ => bits.iter().map(|b| boo(&mut c.r, cs, *b)).collect(),
    };
    let what = format!("{} {} point {} times {} ({} bits, constant base: {})", F::NAME, k, a.show(), v, bits.len(), x.as_const().is_some());
    c.case(&what);
    c.count(&format!("base {} {}", k, if x.as_const().is_some() { "constant" } else { "variable" }), 1);
    let w = cu.mul(&a, &v);
    eqp(c, cs, &x.mul(&sb, jj), &w, &what)?;
    if v < cu.l { ensure!(c, nat(&a).mul(Num(fb::<F::S>(&v)), jj) == nat(&w), "native {}", what); }
    done(c, cs, &what)
}

fn decompress<F: JF>(c: &mut Ctx) -> Res {
    let cu = F::curve();
    let jj = F::jj();
    let (a, k) = gen::sub_point(&mut c.r, cu);
    let cs = &M::<F>::new();
    let x = num(&mut c.r, cs, a.x);
    let what = format!("{} decompression of {} ({})", F::NAME, a.x.big(), k);
    c.case(&what);
    eqp(c, cs, &P::subgroup_decompress(&x, jj), &a, &what)?;
    let q = sp(c, cs, &a);
    q.assert_in_curve(jj);
    q.assert_in_subgroup(jj);
    done(c, cs, &what)?;
    // points that are not valid leave the assertions violated
    let (b, _) = gen::point(&mut c.r, cu);
    let off = Pt { x: b.x + E::one(), y: b.y };
    if !cu.on(&off) {
        let cs = &M::<F>::new();
        let q = sp(c, cs, &off);
        let r = guard(|| q.assert_in_curve(jj));
        ensure!(c, r.is_err() || !cs.satisfied(), "on-curve assertion holds for {}", off.show());
    }
    if !cu.in_subgroup(&b) {
        let cs = &M::<F>::new();
        let q = sp(c, cs, &b);
        let r = guard(|| q.assert_in_subgroup(jj));
        ensure!(c, r.is_err() || !cs.satisfied(), "subgroup assertion holds for {}", b.show());
        let cs = &M::<F>::new();
        if cu.decompress(b.x).is_none() {
            let x = num(&mut c.r, cs, b.x);
            let r = guard(|| P::subgroup_decompress(&x, jj));
            ensure!(c, r.is_err() || !cs.satisfied(), "decompression of {} is satisfied", b.x.big());
        }
    }
    Ok(())
}

fn from_scalar<F: JF>(c: &mut Ctx) -> Res {
    let cu = F::curve();
    let jj = F::jj();
    let t = E(gen::shaped::<F>(&mut c.r));
    let w = match cu.from_scalar(t) { Some(w) => w, None => { c.obs(1); return Ok(()); } };
    let cs = &M::<F>::new();
    let x = num(&mut c.r, cs, t);
    let what = format!("{} point for scalar {}", F::NAME, t.big());
    c.case(&what);
    eqp(c, cs, &P::from_scalar(&x, jj), &w, &what)?;
    ensure!(c, EdwardsPoint::from_scalar(Num(t.0), jj) == nat(&w), "native {}", what);
    done(c, cs, &what)
}

fn main() {
    Check::new("C15", "curve gadgets on the recording constraint system over subgroup, coset, torsion and identity points, all scalar bit lengths 0..full and constant/variable/affine mixes on both curves, every output compared with independent affine arithmetic and the native functions, every constraint evaluated; distinct by operands")
        .add("group-bn", 1500, 60000, group::<BnFr>)
        .add("group-bls", 1000, 40000, group::<BlsFr>)
        .add("montgomery-bn", 1200, 50000, montgomery::<BnFr>)
        .add("montgomery-bls", 800, 30000, montgomery::<BlsFr>)
        .add("mul-bn", 400, 16000, mul::<BnFr>)
        .add("mul-bls", 260, 10000, mul::<BlsFr>)
        .add("decompress-bn", 250, 10000, decompress::<BnFr>)
        .add("decompress-bls", 160, 6000, decompress::<BlsFr>)
        .add("from-scalar-bn", 120, 5000, from_scalar::<BnFr>)
        .add("from-scalar-bls", 80, 3000, from_scalar::<BlsFr>)
        .assume("documented domains: multiplication and Montgomery gadgets take nonzero/distinct/subgroup points as their comments say")
        .run()
}
