//! C17: the EdDSA gadget accepts exactly what the native verifier accepts
use ::num::bigint::BigUint;
use ::num::{One, Zero};
use fawkes_crypto::circuit::eddsaposeidon::c_eddsaposeidon_verify;
use fawkes_crypto::circuit::num::CNum;
use fawkes_crypto::core::signal::Signal;
use fawkes_crypto::native::eddsaposeidon::{eddsaposeidon_sign, eddsaposeidon_verify};
use fawkes_crypto::native::num::Num;
use fv::adv::{forge, Attack, Want};
use fv::engine::guard;
use fv::gen;
use fv::moncs::MonCS;
use fv::points::preimages;
use fv::prog::{JF, POS};
use fv::rebind::{rebind, Built};
use fv::refm::*;
use fv::sig::{num, var};
use fv::{ensure, viol, Check, Ctx, Res};

type M<F> = MonCS<F>;

struct Stmt<F: JF> { s: BigUint, r: E<F>, a: E<F>, m: E<F>, formed: bool, what: &'static str }

fn key<F: JF>(c: &mut Ctx) -> BigUint {
    match c.r.below(4) {
        0 => BigUint::from(c.r.below(10) as u32),
        _ => gen::shaped_big(&mut c.r, &F::curve().l),
    }
}

/// widths 3 and 2 cannot hold the three hashed values
fn params<F: JF>(c: &mut Ctx, cheap: bool) -> usize {
    let ok: Vec<usize> = (0..POS.len()).filter(|i| POS[*i].0 >= 4).collect();
    if cheap { 1 } else { *c.r.pick(&ok) }
}

fn statement<F: JF>(c: &mut Ctx, ps: usize) -> Result<Stmt<F>, String> {
    let cu = F::curve();
    let (pp, rp) = F::pos(ps);
    let sk = key::<F>(c);
    let m = E(gen::shaped::<F>(&mut c.r));
    let a = cu.mul(&cu.g, &sk).x;
    // half of the signatures come from the library, half from the reference
    let (s, r) = if c.r.bool() {
        let (s, r) = eddsaposeidon_sign(Num::<F::S>(fb(&sk)), Num(m.0), pp, F::jj());
        (tb(&s.0), E(r.0))
    } else { cu.sign(rp, &sk, m) };
    let mut st = Stmt { s, r, a, m, formed: true, what: "valid" };
    let l = &cu.l;
    let other = cu.rand_subgroup(&mut c.r);
    let k = c.r.range(1, 7);
    let w = c.r.below(22);
    match w {
        0..=6 => {}
        7 => { st.s = (&st.s + 1u32) % l; st.what = "s+1"; }
        8 => { st.s = (l - &st.s) % l; st.what = "-s"; }
        9 => { st.s = gen::shaped_big(&mut c.r, l); st.what = "other s"; }
        10 => { st.r = other.x; st.what = "other r"; }
        11 => { st.r = -st.r; st.what = "-r"; }
        12 => { st.a = other.x; st.what = "other key"; }
        13 => { st.a = -st.a; st.what = "-key"; }
        14 => { st.m = st.m + E::one(); st.what = "m+1"; }
        15 => { st.m = E(gen::shaped::<F>(&mut c.r)); st.what = "other m"; }
        16 => { st.r = E::zero(); st.what = "identity r"; }
        17 => {
            // identity key: r must be s times the generator
            st.a = E::zero();
            let s = gen::shaped_big(&mut c.r, l);
            st.r = cu.mul(&cu.g, &s).x;
            st.s = if c.r.chance(1, 3) { (&s + 1u32) % l } else { s };
            st.what = "identity key";
        }
        18 => { std::mem::swap(&mut st.r, &mut st.a); st.what = "swapped r and key"; }
        19 => {
            // coset neighbours satisfy the equation up to torsion
            let p = cu.decompress(st.r).ok_or("r not decompressed by the reference")?;
            st.r = cu.add(&p, &cu.tor[k]).x;
            st.formed = cu.decompress(st.r).is_some();
            st.what = "r off the subgroup";
        }
        20 => {
            let p = cu.decompress(st.a).ok_or("key not decompressed by the reference")?;
            st.a = cu.add(&p, &cu.tor[k]).x;
            st.formed = cu.decompress(st.a).is_some();
            st.what = "key off the subgroup";
        }
        _ => {
            // s + j*2^nbits: same low bits, too wide
            let nb = <F::S as RefField>::nbits();
            let j = c.r.range(1, 7);
            st.s = (&st.s + (BigUint::from(j as u32) << nb)) % F::p();
            if (&st.s >> nb).is_zero() { st.s = BigUint::one() << nb; }
            st.formed = false;
            st.what = "too wide s";
        }
    }
    c.count(st.what, 1);
    Ok(st)
}

fn honest<F: JF>(c: &mut Ctx) -> Res {
    let cu = F::curve();
    let ps = params::<F>(c, false);
    let (pp, rp) = F::pos(ps);
    let st = statement::<F>(c, ps)?;
    let wide = st.s >= BigUint::one() << <F::S as RefField>::nbits();
    let exp = !wide && cu.verify(rp, &st.s, st.r, st.a, st.m);
    let show = format!("{}: s={} r={} a={} m={} poseidon {:?} in {}", st.what, st.s, st.r.big(), st.a.big(), st.m.big(), POS[ps], F::NAME);
    c.case(&show);
    if !wide {
        let nat = match guard(|| eddsaposeidon_verify(Num::<F::S>(fb(&st.s)), Num(st.r.0), Num(st.a.0), Num(st.m.0), pp, F::jj())) {
            Ok(x) => x,
            Err(e) => viol!("native verification failed with '{}' on {}", e, show),
        };
        ensure!(c, nat == exp, "native verification says {} but the signature is {} valid: {}", nat, if exp { "" } else { "not" }, show);
    }
    if st.what == "valid" { ensure!(c, exp, "produced signature is not valid: {}", show); }
    let cs = &M::<F>::new();
    let r = &mut c.r;
    let (s_, r_, a_, m_) = (num(r, cs, E(fb(&st.s))), num(r, cs, st.r), num(r, cs, st.a), num(r, cs, st.m));
    let n0 = cs.ncons();
    let out = match guard(|| c_eddsaposeidon_verify(&s_, &r_, &a_, &m_, pp, F::jj())) {
        Ok(o) => o,
        Err(_) if !st.formed => { c.obs(1); c.count("malformed: refused", 1); return Ok(()); }
        Err(e) => viol!("gadget failed with '{}' on {}", e, show),
    };
    let sat = cs.satisfied();
    let bit = out.get_value();
    c.count("constraints recorded", (cs.ncons() - n0) as u64);
    if let Err(e) = cs.audit_bool(&out) { viol!("{} on {}", e, show); }
    if st.formed {
        if let Err(e) = cs.verdict() { viol!("the gadget's constraints do not hold ({}) on {}", e, show); }
        ensure!(c, bit == Some(exp), "gadget says {:?}, native verification {}: {}", bit, exp, show);
    } else {
        ensure!(c, !(sat && bit != Some(false)), "gadget accepts malformed input: {}", show);
        c.count(if sat { "malformed: rejecting" } else { "malformed: unsatisfiable" }, 1);
    }
    Ok(())
}

fn attack<F: JF>(c: &mut Ctx) -> Res {
    let cu = F::curve();
    let ps = params::<F>(c, true);
    let (pp, rp) = F::pos(ps);
    let st = statement::<F>(c, ps)?;
    let wide = st.s >= BigUint::one() << <F::S as RefField>::nbits();
    let exp = !wide && cu.verify(rp, &st.s, st.r, st.a, st.m);
    let show = format!("{}: s={} r={} a={} m={} in {}", st.what, st.s, st.r.big(), st.a.big(), st.m.big(), F::NAME);
    c.case(format!("attack {}", show));
    let cs = &M::<F>::new();
    let r = &mut c.r;
    let (s_, r_, a_, m_) = (var(r, cs, E(fb(&st.s))), var(r, cs, st.r), var(r, cs, st.a), var(r, cs, st.m));
    let n0 = cs.nvars();
    let out = c_eddsaposeidon_verify(&s_, &r_, &a_, &m_, pp, F::jj());
    // guesses for the two hidden points: every 2^-k multiple and torsion shift
    let g = |c: &mut Ctx, x: E<F>| {
        let mut t = vec![];
        if let Some(y) = cu.ys_for_x(x) {
            for y in [y, -y].iter() { t.push(fv::ed::Pt { x, y: *y }); }
        }
        if t.is_empty() { t.push(cu.g); }
        preimages(&mut c.r, cu, &t)
    };
    let (ga, gr) = (g(c, st.a), g(c, st.r));
    let mut pools = vec![];
    for _ in 0..if c.thorough { 40 } else { 6 } {
        let mut p = c.r.pick(&ga).clone();
        p.extend(c.r.pick(&gr).clone());
        pools.push(p);
    }
    // honest for one point, guessed for the other
    for (h, gs, first) in [(st.r, &ga, true), (st.a, &gr, false)].iter() {
        if let Some(q) = cu.decompress(*h) {
            let q = cu.mul(&q, &inv8(&cu.l));
            for _ in 0..if c.thorough { 20 } else { 4 } {
                let mut x = c.r.pick(gs).clone();
                let mut hq = vec![q.x, q.y];
                if *first { x.extend(hq); pools.push(x); } else { hq.extend(x); pools.push(hq); }
            }
        }
    }
    c.count("hint guesses", pools.len() as u64);
    let sys = cs.snapshot();
    let outs = vec![cs.lc(&out.0)];
    let want = Want::Exact(vec![if exp { E::one() } else { E::zero() }]);
    let th = c.thorough;
    let (s, f) = forge(&mut c.r, &sys, n0, outs, &want, &|a: &mut Attack<F>| {
        a.tries = if th { 5 } else { 2 };
        a.repairs = if th { 40 } else { 8 };
        a.kernel_max = if th { 20000 } else { 0 };
        a.goal_pools = th;
        a.pools = pools.clone();
        a.goals.clear();
        a.goals.push(vec![(0, if exp { E::zero() } else { E::one() })]);
    });
    c.obs(s.searches + s.repairs);
    c.count("completion searches", s.searches);
    c.count("search nodes", s.nodes);
    c.count("local repairs", s.repairs);
    c.count("satisfying assignments judged", s.solutions);
    c.count("of these different from the honest one", s.dishonest);
    match f { Some(m) => viol!("signature gadget can be cheated: {}: {}", m, show), None => Ok(()) }
}
fn inv8(l: &BigUint) -> BigUint { modinv(&BigUint::from(8u32), l).unwrap_or_else(BigUint::zero) }

/// the gadget built with one statement, then held to another
fn other_values<F: JF>(c: &mut Ctx) -> Res {
    let cu = F::curve();
    let ps = params::<F>(c, true);
    let (pp, rp) = F::pos(ps);
    let (mut a, b) = (statement::<F>(c, ps)?, statement::<F>(c, ps)?);
    match c.r.below(8) { 0 => a.s = BigUint::zero(), 1 => a.r = E::zero(), 2 => a.a = E::zero(), 3 => a.m = E::zero(), _ => {} }
    if !a.formed || !b.formed { c.obs(1); return Ok(()); }
    let what = format!("signature gadget for a {} statement held to a {} statement s={} r={} a={} m={}", a.what, b.what, b.s, b.r.big(), b.a.big(), b.m.big());
    c.case(&what);
    let f = |v: &Stmt<F>| -> Built<F> {
        let cs = &M::<F>::new();
        let al = |e: E<F>| -> CNum<M<F>> { CNum::alloc(cs, Some(&Num(e.0))) };
        let (s, r, k, m) = (al(E(fb(&v.s))), al(v.r), al(v.a), al(v.m));
        let n0 = cs.nvars();
        let o = c_eddsaposeidon_verify(&s, &r, &k, &m, pp, F::jj());
        let ok = cu.verify(rp, &v.s, v.r, v.a, v.m);
        Built { sys: cs.snapshot(), n0, outs: vec![cs.lc(&o.0)], want: Want::Exact(vec![if ok { E::one() } else { E::zero() }]) }
    };
    rebind(c, &what, &a, &b, &f)
}

fn main() {
    Check::new("C17", "the gadget run on valid signatures (library- and reference-made) and on altered, malformed, identity, negated, swapped and off-subgroup ones, with constant and variable inputs, its output bit and constraint satisfaction compared with an independent EdDSA; its recorded constraints attacked with all preimage guesses for the hidden points and the opposite verdict as goal; distinct by statement")
        .add("attack-bn", 10, 150, attack::<BnFr>)
        .add("attack-bls", 6, 100, attack::<BlsFr>)
        .add("honest-bn", 160, 6000, honest::<BnFr>)
        .add("honest-bls", 110, 4000, honest::<BlsFr>)
        .add("other-values-bn", 16, 400, other_values::<BnFr>)
        .add("other-values-bls", 8, 200, other_values::<BlsFr>)
        .assume("scalars s between the subgroup order and the next power of two are outside the gadget's stated inputs")
        .assume("forgeries outside the attacks tried are not excluded")
        .run()
}
