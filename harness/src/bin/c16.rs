//! C16: curve gadgets cannot be cheated
use ::num::bigint::BigUint;
use ::num::One;
use fawkes_crypto::circuit::bool::CBool;
use fawkes_crypto::circuit::ecc::{CEdwardsPoint, CMontgomeryPoint};
use fawkes_crypto::core::signal::Signal;
use fawkes_crypto::native::ecc::{EdwardsPoint, MontgomeryPoint};
use fawkes_crypto::native::num::Num;
use fv::adv::{forge, Attack, Want};
use fv::ed::{Curve, Pt};
use fv::gen;
use fv::points::preimages;
use fv::moncs::{Lc, MonCS, R1cs};
use fv::prog::JF;
use fv::rebind::{rebind, Built};
use fv::refm::*;
use fv::sig::{bits_of, num, var};
use fv::{viol, Check, Ctx, Res};

type M<F> = MonCS<F>;
type P<'a, F> = CEdwardsPoint<'a, M<F>>;

fn nat<F: JF>(p: &Pt<F>) -> EdwardsPoint<F> { EdwardsPoint { x: Num(p.x.0), y: Num(p.y.0) } }
fn sv<'a, F: JF>(c: &mut Ctx, cs: &'a M<F>, p: &Pt<F>) -> P<'a, F> {
    if c.r.chance(1, 3) { CEdwardsPoint { x: var(&mut c.r, cs, p.x), y: num(&mut c.r, cs, p.y) } } else { P::alloc(cs, Some(&nat(p))) }
}
fn outs<F: JF>(cs: &M<F>, p: &P<F>) -> Vec<Lc<F>> { vec![cs.lc(&p.x), cs.lc(&p.y)] }

struct Extra<F: JF> { pools: Vec<Vec<E<F>>>, pins: Vec<Vec<(usize, E<F>)>>, goals: Vec<Vec<(usize, E<F>)>>, repairs: usize, tries: usize }
impl<F: JF> Extra<F> { fn new(c: &Ctx) -> Self { Extra { pools: vec![], pins: vec![], goals: vec![], repairs: if c.thorough { 80 } else { 25 }, tries: if c.thorough { 8 } else { 4 } } } }

fn go<F: JF>(c: &mut Ctx, cs: &M<F>, n0: usize, outs: Vec<Lc<F>>, want: Want<F>, x: Extra<F>, what: &str) -> Res {
    let sys = cs.snapshot();
    c.case(what);
    let (s, f) = forge(&mut c.r, &sys, n0, outs, &want, &|a: &mut Attack<F>| {
        a.tries = x.tries;
        a.repairs = x.repairs;
        a.pools = x.pools.clone();
        a.pins = x.pins.clone();
        a.goals.extend(x.goals.clone());
    });
    c.obs(s.searches + s.repairs);
    c.count("completion searches", s.searches);
    c.count("search nodes", s.nodes);
    c.count("local repairs", s.repairs);
    c.count("satisfying assignments judged", s.solutions);
    c.count("of these different from the honest one", s.dishonest);
    match f { Some(m) => viol!("{}: {}", what, m), None => Ok(()) }
}
fn exact<F: JF>(p: &Pt<F>) -> Want<F> { Want::Exact(vec![p.x, p.y]) }

/// goals an attacker would like: the negated point, the torsion neighbours, another point
fn bad_points<F: JF>(c: &mut Ctx, cu: &Curve<F>, p: &Pt<F>) -> Vec<Vec<(usize, E<F>)>> {
    let k = c.r.range(1, 7);
    vec![cu.neg(p), cu.add(p, &cu.tor[k]), cu.zero(), cu.rand_subgroup(&mut c.r)]
        .into_iter().filter(|q| q != p).map(|q| vec![(0, q.x), (1, q.y)]).collect()
}

fn simple<F: JF>(c: &mut Ctx) -> Res {
    let cu = F::curve();
    let jj = F::jj();
    let cs = &M::<F>::new();
    let (a, _) = gen::point(&mut c.r, cu);
    let (b, _) = gen::point(&mut c.r, cu);
    let mut x = Extra::new(c);
    match c.r.below(8) {
        0 => {
            let (p, q) = (sv(c, cs, &a), sv(c, cs, &b));
            let n0 = cs.nvars();
            let w = cu.add(&a, &b);
            x.goals = bad_points(c, cu, &w);
            let o = p.add(&q, jj);
            go(c, cs, n0, outs(cs, &o), exact(&w), x, &format!("addition of {} and {}", a.show(), b.show()))
        }
        1 => {
            let p = sv(c, cs, &a);
            let n0 = cs.nvars();
            let w = cu.dbl(&a);
            x.goals = bad_points(c, cu, &w);
            let o = p.double(jj);
            go(c, cs, n0, outs(cs, &o), exact(&w), x, &format!("doubling of {}", a.show()))
        }
        2 => {
            let p = sv(c, cs, &a);
            let n0 = cs.nvars();
            let w = cu.mul(&a, &BigUint::from(8u32));
            x.goals = bad_points(c, cu, &w);
            let o = p.mul_by_cofactor(jj);
            go(c, cs, n0, outs(cs, &o), exact(&w), x, &format!("cofactor multiple of {}", a.show()))
        }
        3 | 4 => {
            // off the curve
            let q = match c.r.below(5) {
                0 => Pt { x: a.x + E::one(), y: a.y },
                1 => Pt { x: a.y, y: a.x },
                2 => Pt { x: E(gen::shaped::<F>(&mut c.r)), y: E(gen::shaped::<F>(&mut c.r)) },
                3 => Pt { x: E::zero(), y: E::zero() },
                _ => Pt { x: a.x, y: b.y },
            };
            if cu.on(&q) { c.obs(1); return Ok(()); }
            let p = if c.r.bool() { P::alloc(cs, Some(&nat(&q))) } else { CEdwardsPoint { x: var(&mut c.r, cs, q.x), y: var(&mut c.r, cs, q.y) } };
            let n0 = cs.nvars();
            p.assert_in_curve(jj);
            go(c, cs, n0, vec![], Want::Nothing, x, &format!("on-curve assertion for {}", q.show()))
        }
        5 => {
            if a.x.is_zero() { c.obs(1); return Ok(()); }
            let p = sv(c, cs, &a);
            let n0 = cs.nvars();
            let m = cu.to_mont(&a).unwrap();
            let o = p.into_montgomery();
            go(c, cs, n0, vec![cs.lc(&o.x), cs.lc(&o.y)], Want::Exact(vec![m.0, m.1]), x, &format!("Montgomery form of {}", a.show()))
        }
        6 => {
            let a = if cu.is_zero(&a) { cu.g } else { a };
            let m = cu.to_mont(&a).unwrap();
            let p: CMontgomeryPoint<M<F>> = CMontgomeryPoint::alloc(cs, Some(&MontgomeryPoint { x: Num(m.0 .0), y: Num(m.1 .0) }));
            let n0 = cs.nvars();
            let o = p.into_edwards();
            x.goals = bad_points(c, cu, &a);
            go(c, cs, n0, outs(cs, &o), exact(&a), x, &format!("Edwards form of {}", a.show()))
        }
        _ => {
            let a = if a.x.is_zero() { cu.g } else { a };
            let b = if cu.is_zero(&b) || b == a || b == cu.neg(&a) { cu.tor[4] } else { b };
            let (ma, mb) = (cu.to_mont(&a).unwrap(), cu.to_mont(&b).unwrap());
            let al = |m: (E<F>, E<F>)| CMontgomeryPoint::alloc(cs, Some(&MontgomeryPoint { x: Num(m.0 .0), y: Num(m.1 .0) }));
            let (p, q): (CMontgomeryPoint<M<F>>, CMontgomeryPoint<M<F>>) = (al(ma), al(mb));
            let n0 = cs.nvars();
            let (o, w) = if c.r.bool() { (p.add(&q, jj), cu.add(&a, &b)) } else { (p.double(jj), cu.dbl(&a)) };
            let w = match cu.to_mont(&w) { Some(w) => w, None => { c.obs(1); return Ok(()); } };
            go(c, cs, n0, vec![cs.lc(&o.x), cs.lc(&o.y)], Want::Exact(vec![w.0, w.1]), x, &format!("Montgomery operation on {} and {}", a.show(), b.show()))
        }
    }
}

fn subgroup<F: JF>(c: &mut Ctx) -> Res {
    let cu = F::curve();
    let jj = F::jj();
    let s = cu.rand_subgroup(&mut c.r);
    let k = c.r.range(1, 7);
    let coset = cu.add(&s, &cu.tor[k]);
    let q = match c.r.below(9) {
        0..=3 => coset,
        4 => cu.tor[k],
        5 => Pt { x: s.x, y: -s.y },
        6 => Pt { x: s.x + E::one(), y: s.y },
        7 => Pt { x: s.x, y: s.y + E::one() },
        _ => Pt { x: E(gen::shaped::<F>(&mut c.r)), y: E(gen::shaped::<F>(&mut c.r)) },
    };
    if cu.in_subgroup(&q) { c.obs(1); return Ok(()); }
    let mut x = Extra::new(c);
    x.pools = preimages(&mut c.r, cu, &[q, s]);
    c.count("preimage guesses", x.pools.len() as u64);
    let cs = &M::<F>::new();
    // the point signal itself keeps its true (invalid) coordinates; the honest
    // prover's hint is whatever the gadget computes for it
    let p = P::alloc(cs, Some(&nat(&q)));
    let n0 = cs.nvars();
    if fv::engine::guard(|| p.assert_in_subgroup(jj)).is_err() { c.obs(1); return Ok(()); }
    go(c, cs, n0, vec![], Want::Nothing, x, &format!("subgroup assertion for {}", q.show()))
}

fn decompress<F: JF>(c: &mut Ctx) -> Res {
    let cu = F::curve();
    let jj = F::jj();
    let (s, _) = gen::sub_point(&mut c.r, cu);
    let k = c.r.range(1, 7);
    let coset = cu.add(&s, &cu.tor[k]);
    let cs = &M::<F>::new();
    let mut x = Extra::new(c);
    if c.r.bool() {
        let sx = var(&mut c.r, cs, s.x);
        let n0 = cs.nvars();
        let o = P::subgroup_decompress(&sx, jj);
        let other = Pt { x: s.x, y: -s.y };
        x.pools = preimages(&mut c.r, cu, &[other, s, coset]);
        x.goals = vec![vec![(1, -s.y)]];
        go(c, cs, n0, outs(cs, &o), exact(&s), x, &format!("decompression of {}", s.x.big()))
    } else {
        let q = match c.r.below(3) { 0 => E(gen::shaped::<F>(&mut c.r)), _ => coset.x };
        if cu.decompress(q).is_some() { c.obs(1); return Ok(()); }
        let sx = var(&mut c.r, cs, q);
        let n0 = cs.nvars();
        let o = P::subgroup_decompress(&sx, jj);
        let _ = o;
        let mut t = vec![s, coset, Pt { x: coset.x, y: -coset.y }];
        if let Some(y) = cu.ys_for_x(q) { t.push(Pt { x: q, y }); t.push(Pt { x: q, y: -y }); }
        x.pools = preimages(&mut c.r, cu, &t);
        go(c, cs, n0, vec![], Want::Nothing, x, &format!("decompression of {}", q.big()))
    }
}

fn mul<F: JF>(c: &mut Ctx) -> Res {
    let cu = F::curve();
    let jj = F::jj();
    let (a, _) = gen::sub_point(&mut c.r, cu);
    let n = c.r.range(1, 7);
    let v = gen::shaped_big(&mut c.r, &(BigUint::one() << n));
    let cs = &M::<F>::new();
    let cb = c.r.chance(1, 3);
    let p = if cb { P::from_const(cs, &nat(&a)) } else { sv(c, cs, &a) };
    let bits: Vec<CBool<M<F>>> = bits_of(&v, n).iter().map(|b| CBool::alloc(cs, Some(b))).collect();
    let n0 = cs.nvars();
    let w = cu.mul(&a, &v);
    let o = p.mul(&bits, jj);
    let mut x = Extra::new(c);
    x.goals = bad_points(c, cu, &w);
    x.tries = 2;
    go(c, cs, n0, outs(cs, &o), exact(&w), x, &format!("{} times {} ({} bits, constant base {})", a.show(), v, n, cb))
}

fn from_scalar<F: JF>(c: &mut Ctx) -> Res {
    let cu = F::curve();
    let jj = F::jj();
    let t = E(gen::shaped::<F>(&mut c.r));
    let w = match cu.from_scalar(t) { Some(w) => w, None => { c.obs(1); return Ok(()); } };
    let cs = &M::<F>::new();
    let s = if c.r.bool() { fawkes_crypto::circuit::num::CNum::alloc(cs, Some(&Num(t.0))) } else { var(&mut c.r, cs, t) };
    let n0 = cs.nvars();
    let o = P::from_scalar(&s, jj);
    let sys = cs.snapshot();
    // the two root hints, found by their honest values
    let t1 = t + E::one();
    let wv = t1.sq() * cu.mu;
    let g = |x: E<F>| (x.sq() * (x + cu.ma) + x).div(cu.mb);
    let even = |y: E<F>| if y.odd() { -y } else { y };
    let x2 = (-E::one()).div(cu.ma) * (E::one() + wv.inv().unwrap());
    let x3 = x2 * wv;
    let mut x = Extra::new(c);
    x.tries = 1;
    x.repairs = 6;
    for xx in [x2, x3].iter() {
        let gx = g(*xx);
        let root = |v: E<F>| v.sqrt().map(even);
        let h = root(gx).or_else(|| root(gx * cu.mu)).unwrap();
        if let Some(k) = (n0..sys.vals.len()).find(|k| sys.vals[*k] == Some(h)) {
            x.pins.push(vec![(k, -h)]);
            x.pins.push(vec![(k, E::zero())]);
            x.pins.push(vec![(k, even(E(gen::uniform::<F>(&mut c.r))))]);
            x.pins.push(vec![(k, h + E::one() + E::one())]);
        }
    }
    c.count("root hints pinned", x.pins.len() as u64);
    x.goals = vec![vec![(0, -w.x)]];
    go(c, cs, n0, outs(cs, &o), exact(&w), x, &format!("point for scalar {}", t.big()))
}

/// gadgets built with values that invite a shortcut, then held to other values
fn other_values<F: JF>(c: &mut Ctx) -> Res {
    #[derive(Clone)]
    struct V<F: JF> { p: Pt<F>, q: Pt<F>, s: Pt<F>, bits: Vec<bool>, t: E<F> }
    let cu = F::curve();
    let jj = F::jj();
    let kind = match c.r.below(24) { 0 => 8, k => k % 8 };
    let n = c.r.range(1, 6);
    let set = |c: &mut Ctx| -> V<F> {
        let (p, _) = gen::point(&mut c.r, cu);
        let q = match c.r.below(4) { 0 => p, 1 => cu.neg(&p), _ => gen::point(&mut c.r, cu).0 };
        let s = match c.r.below(4) { 0 => cu.zero(), 1 => cu.g, _ => gen::sub_point(&mut c.r, cu).0 };
        let k = c.r.below(4);
        V { p, q, s, bits: (0..n).map(|_| match k { 0 => true, 1 => false, _ => c.r.bool() }).collect(), t: E(gen::shaped::<F>(&mut c.r)) }
    };
    let (a, b) = (set(c), set(c));
    let what = format!("curve gadget {} for {} {} {} {:?} held to {} {} {} {:?}", kind, a.p.show(), a.q.show(), a.s.show(), a.bits, b.p.show(), b.q.show(), b.s.show(), b.bits);
    c.case(&what);
    let f = |v: &V<F>| -> Built<F> {
        let cs = &M::<F>::new();
        let (p, q, s) = (P::alloc(cs, Some(&nat(&v.p))), P::alloc(cs, Some(&nat(&v.q))), P::alloc(cs, Some(&nat(&v.s))));
        let t = fawkes_crypto::circuit::num::CNum::alloc(cs, Some(&Num(v.t.0)));
        let bits: Vec<CBool<M<F>>> = v.bits.iter().map(|b| CBool::alloc(cs, Some(b))).collect();
        let n0 = cs.nvars();
        let held = |ok: bool| if ok { Want::Exact(vec![]) } else { Want::Nothing };
        let skip = || Built { sys: R1cs { vals: vec![], is_input: vec![], cons: vec![] }, n0: 0, outs: vec![], want: Want::Nothing };
        let k = v.bits.iter().enumerate().map(|(i, b)| if *b { 1u32 << i } else { 0 }).sum::<u32>();
        let (outs, want) = match kind {
            0 => { let o = p.add(&q, jj); (outs(cs, &o), exact(&cu.add(&v.p, &v.q))) }
            1 => { let o = p.double(jj); (outs(cs, &o), exact(&cu.dbl(&v.p))) }
            2 => { let o = p.mul_by_cofactor(jj); (outs(cs, &o), exact(&cu.mul(&v.p, &BigUint::from(8u32)))) }
            3 => { let m = CEdwardsPoint { x: p.x.clone(), y: q.y.clone() }; m.assert_in_curve(jj); (vec![], held(cu.on(&Pt { x: v.p.x, y: v.q.y }))) }
            4 => { p.assert_in_subgroup(jj); (vec![], held(cu.in_subgroup(&v.p))) }
            5 => { let o = P::subgroup_decompress(&s.x, jj); (outs(cs, &o), exact(&v.s)) }
            6 => { let o = s.mul(&bits, jj); (outs(cs, &o), exact(&cu.mul(&v.s, &BigUint::from(k)))) }
            7 => match cu.to_mont(&v.p) {
                Some(m) if !v.p.x.is_zero() => { let o = p.into_montgomery(); (vec![cs.lc(&o.x), cs.lc(&o.y)], Want::Exact(vec![m.0, m.1])) }
                _ => return skip(),
            },
            _ => match cu.from_scalar(v.t) { Some(w) => { let o = P::from_scalar(&t, jj); (outs(cs, &o), exact(&w)) } None => return skip() },
        };
        Built { sys: cs.snapshot(), n0, outs, want }
    };
    rebind(c, &what, &a, &b, &f)
}

fn main() {
    Check::new("C16", "recorded constraints of every curve gadget attacked with inputs fixed: completion search with goals (negated, torsion-shifted, identity, foreign point), preimage guesses (all 2^-k multiples plus torsion, off-curve halvings), pinned root hints with flipped parity, bit aliases, local repair and Jacobian kernel; every satisfying assignment found is judged by independent curve arithmetic; distinct by gadget and inputs")
        .add("simple-bn", 1500, 15000, simple::<BnFr>)
        .add("simple-bls", 900, 10000, simple::<BlsFr>)
        .add("subgroup-bn", 200, 2500, subgroup::<BnFr>)
        .add("subgroup-bls", 120, 1500, subgroup::<BlsFr>)
        .add("decompress-bn", 200, 2500, decompress::<BnFr>)
        .add("decompress-bls", 120, 1500, decompress::<BlsFr>)
        .add("mul-bn", 300, 2500, mul::<BnFr>)
        .add("mul-bls", 180, 1500, mul::<BlsFr>)
        .add("from-scalar-bn", 24, 300, from_scalar::<BnFr>)
        .add("from-scalar-bls", 16, 200, from_scalar::<BlsFr>)
        .add("other-values-bn", 600, 10000, other_values::<BnFr>)
        .add("other-values-bls", 300, 6000, other_values::<BlsFr>)
        .assume("forgeries outside the attacks tried are not excluded")
        .run()
}
