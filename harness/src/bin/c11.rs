//! C11: a circuit's shape never depends on witness values
use fawkes_crypto::circuit::bitify::*;
use fawkes_crypto::circuit::bool::CBool;
use fawkes_crypto::circuit::ecc::{CEdwardsPoint, CMontgomeryPoint};
use fawkes_crypto::circuit::eddsaposeidon::c_eddsaposeidon_verify;
use fawkes_crypto::circuit::mux::c_mux3;
use fawkes_crypto::circuit::num::CNum;
use fawkes_crypto::circuit::poseidon::*;
use fawkes_crypto::core::cs::{ConstraintSystem, TestCS};
use fawkes_crypto::core::signal::Signal;
use fawkes_crypto::core::sizedvec::SizedVec;
use fawkes_crypto::native::ecc::{EdwardsPoint, MontgomeryPoint};
use fawkes_crypto::native::num::Num;
use fv::engine::guard;
use fv::moncs::MonCS;
use fv::prog::{Profile, Script, JF};
use fv::refm::*;
use fv::{ensure, gen, viol, Check, Ctx, Res};
use typenum::{U3, U4};

fn describe<F: JF>(cs: &MonCS<F>) -> String {
    format!("{} variables, {} public, {} constraints, fingerprint {:x}", cs.nvars() - 1, cs.ninputs(), cs.ncons(), cs.snapshot().shape())
}

fn scripts<F: JF>(c: &mut Ctx) -> Res {
    let p = Profile { len: c.r.range(8, 45), heavy: if c.iter % 5 == 0 { 2 } else { 1 }, inputs: true };
    let s = Script::<F>::random(&mut c.r, p);
    c.note(s.show());
    let mut shape: Option<(String, String)> = None;
    let mut any = false;
    for k in 0..6 {
        // zero, honest and unsatisfying witnesses
        let w: Vec<E<F>> = if k == 0 { vec![E::zero(); s.nwit] } else { s.witness(&mut c.r, k >= 4) };
        if s.eval(&w).is_none() { continue; }
        any = true;
        let cs = &MonCS::<F>::new();
        if let Err(e) = guard(|| { s.run(cs, Some(&w)); }) { viol!("building with values failed: {} in {}", e, s.show()); }
        let d = describe(cs);
        c.count("builds with values", 1);
        match &shape {
            None => shape = Some((d, format!("witness {}", k))),
            Some((o, ok)) => { ensure!(c, *o == d, "shape differs between {} ({}) and witness {} ({}): {}", ok, o, k, d, s.show()); }
        }
    }
    if !any { c.count("outside domain", 1); c.obs(1); return Ok(()); }
    let cs = &MonCS::<F>::new();
    let g = match guard(|| s.run(cs, None)) { Ok(g) => g, Err(e) => viol!("building without values failed: {} in {}", e, s.show()) };
    let d = describe(cs);
    let (o, ok) = shape.unwrap();
    c.count("builds without values", 1);
    ensure!(c, o == d, "shape differs between {} ({}) and the build without values ({}): {}", ok, o, d, s.show());
    cs.integrity()?;
    // nothing invents a value: a signal depending on unassigned variables has none
    for x in g.nums.iter() { cs.audit(x)?; c.obs(1); }
    for x in g.bools.iter() { cs.audit_bool(x)?; c.obs(1); }
    let t = &TestCS::<F>::new();
    if let Err(e) = guard(|| { s.run(t, None); }) { viol!("dry run without values failed: {} in {}", e, s.show()); }
    ensure!(c, t.num_constraints() == cs.ncons(), "dry run counts {} constraints instead of {}", t.num_constraints(), cs.ncons());
    c.case(d);
    Ok(())
}

/// one gadget, with values far outside its honest inputs
#[derive(Clone)]
struct Vals<F: JF> {
    n: Vec<E<F>>,
    b: Vec<bool>,
    p: Vec<(E<F>, E<F>)>,
}

const GADGETS: &[&str] = &[
    "bits", "bits1", "strict", "comp", "mux", "switch", "iszero", "assert_nonzero", "asserts", "poseidon", "salt", "proof", "tree",
    "add", "double", "cofactor", "in_curve", "in_subgroup", "decompress", "to_mont", "mul", "gmul", "from_scalar", "eddsa", "mont_double",
    "mont_add", "from_mont", "vec", "tuple", "point_ops", "div",
];

fn gadget<F: JF, CS: ConstraintSystem<F = F>>(cs: &CS, name: &str, v: Option<&Vals<F>>, seed: u64) {
    // structural choices come from the seed only
    let mut r = fv::R::new(seed);
    let jj = F::jj();
    let n = |i: usize| -> CNum<CS> { CNum::alloc(cs, v.map(|v| Num(v.n[i].0)).as_ref()) };
    let b = |i: usize| -> CBool<CS> { CBool::alloc(cs, v.map(|v| v.b[i]).as_ref()) };
    let pt = |i: usize| -> CEdwardsPoint<CS> { CEdwardsPoint::alloc(cs, v.map(|v| EdwardsPoint { x: Num(v.p[i].0 .0), y: Num(v.p[i].1 .0) }).as_ref()) };
    let pp = &F::pos(r.below(2)).0;
    match name {
        "bits" => { let k = r.range(1, F::nbits()); c_into_bits_le(&n(0), k); }
        "bits1" => { c_into_bits_le(&n(0), 1); c_into_bits_le(&n(0), F::nbits()); }
        "strict" => { c_into_bits_le_strict(&n(0)); }
        "comp" => { let k = r.range(1, 40); let bits: Vec<_> = (0..k).map(|i| b(i % 8)).collect(); c_comp_constant(&bits, Num(gen::shaped::<F>(&mut r))); }
        "mux" => { let t: Vec<Vec<Num<F>>> = (0..r.range(0, 3)).map(|_| (0..8).map(|_| Num(gen::shaped::<F>(&mut r))).collect()).collect(); c_mux3(&[b(0), b(1), b(2)], &t); }
        "switch" => { n(0).switch(&b(0), &n(1)); (n(0) + n(1)).switch(&b(1), &n(2)); n(0).switch(&b(1), &(n(2) - n(3) + Num::one())); b(0).switch(&b(1), &b(2)); }
        "iszero" => { n(0).is_zero(); (n(0) - n(1)).is_zero(); n(0).is_eq(&n(1)); }
        "assert_nonzero" => { n(0).assert_nonzero(); (n(0) - n(1)).assert_nonzero(); }
        "asserts" => { n(0).assert_bit(); n(0).assert_zero(); n(1).assert_const(&Num::one()); n(0).assert_eq(&n(1)); b(0).assert_eq(&b(1)); b(0).assert_true(); b(1).assert_false(); b(0).inputize(); n(0).inputize(); }
        "poseidon" => { let k = r.range(1, pp.t); c_poseidon(&(0..k).map(|i| n(i % 4)).collect::<Vec<_>>(), pp); }
        "salt" => { let k = r.range(1, pp.t - 1); c_poseidon_with_salt(&(0..k).map(|i| n(i % 4)).collect::<Vec<_>>(), b"s", pp); }
        "proof" => {
            let pr = CMerkleProof::<CS, U3> { sibling: (0..3).map(|i| n(i)).collect(), path: (0..3).map(|i| b(i)).collect() };
            c_poseidon_merkle_proof_root(&n(3), &pr, pp);
        }
        "tree" => { let k = r.range(1, 9); c_poseidon_merkle_tree_root(&(0..k).map(|i| n(i % 4)).collect::<Vec<_>>(), pp); }
        "add" => { pt(0).add(&pt(1), jj); let p = pt(0); p.add(&p, jj); }
        "double" => { pt(0).double(jj); }
        "cofactor" => { pt(0).mul_by_cofactor(jj); }
        "in_curve" => { pt(2).assert_in_curve(jj); pt(0).assert_in_curve(jj); }
        "in_subgroup" => { pt(1).assert_in_subgroup(jj); }
        "decompress" => { CEdwardsPoint::subgroup_decompress(&n(0), jj); }
        "to_mont" => { pt(3).into_montgomery(); }
        "mul" => { let k = r.range(1, 20); pt(0).mul(&(0..k).map(|i| b(i % 8)).collect::<Vec<_>>(), jj); }
        "gmul" => { let k = r.range(1, 20); let g = CEdwardsPoint::from_const(cs, &jj_g::<F>()); g.mul(&(0..k).map(|i| b(i % 8)).collect::<Vec<_>>(), jj); }
        "from_scalar" => { CEdwardsPoint::from_scalar(&n(0), jj); }
        "eddsa" => { c_eddsaposeidon_verify(&n(0), &n(1), &n(2), &n(3), &F::pos(1).0, jj); }
        "mont_double" => { let m = v.map(|v| MontgomeryPoint { x: Num(v.n[0].0), y: Num(v.n[1].0) }); CMontgomeryPoint::alloc(cs, m.as_ref()).double(jj); }
        "mont_add" => {
            let m = v.map(|v| MontgomeryPoint { x: Num(v.n[0].0), y: Num(v.n[1].0) });
            let q = v.map(|v| MontgomeryPoint { x: Num(v.n[2].0), y: Num(v.n[3].0) });
            CMontgomeryPoint::alloc(cs, m.as_ref()).add(&CMontgomeryPoint::alloc(cs, q.as_ref()), jj);
        }
        "from_mont" => { let m = v.map(|v| MontgomeryPoint { x: Num(v.n[0].0), y: Num(v.n[1].0) }); CMontgomeryPoint::alloc(cs, m.as_ref()).into_edwards(); }
        "vec" => {
            let a: SizedVec<CNum<CS>, U4> = (0..4).map(|i| n(i)).collect();
            let d: SizedVec<CNum<CS>, U4> = (0..4).map(|i| n(3 - i)).collect();
            a.is_eq(&d); a.assert_eq(&d); a.switch(&b(0), &d); a.inputize(); a.linearize();
        }
        "tuple" => { let a = (n(0), b(0), pt(0)); let d = (n(1), b(1), pt(1)); a.is_eq(&d); a.assert_eq(&d); a.switch(&b(2), &d); a.inputize(); }
        "point_ops" => { let (p, q) = (pt(0), pt(1)); p.is_eq(&q); p.assert_eq(&q); p.switch(&b(0), &q); p.inputize(); }
        "div" => { let x = n(0) / n(4); let _ = x / (n(1) * n(4) + Num::one()); }
        _ => unreachable!(),
    }
}
fn jj_g<F: JF>() -> EdwardsPoint<F> {
    let g = F::curve().g;
    EdwardsPoint { x: Num(g.x.0), y: Num(g.y.0) }
}

fn hostile<F: JF>(c: &mut Ctx) -> Res {
    let name = GADGETS[c.iter % GADGETS.len()];
    let seed = c.r.u64();
    let k = F::curve();
    let mut base: Option<String> = None;
    let mut built = 0;
    for t in 0..6 {
        let mut n: Vec<E<F>> = (0..5).map(|_| E(gen::shaped::<F>(&mut c.r))).collect();
        if t == 0 { for x in n.iter_mut().take(4) { *x = E::zero(); } }
        if t == 1 { n[1] = n[0]; n[3] = n[2]; }
        // documented domains: no division by zero, nonzero points for Montgomery form
        if name == "div" { if n[4].is_zero() || (n[1] * n[4] + E::one()).is_zero() { continue; } }
        if name == "from_scalar" && (n[0] + E::one()).is_zero() { continue; }
        if name == "mont_add" && n[0] == n[2] { continue; }
        if name == "mont_double" && n[1].is_zero() { continue; }
        if name == "from_mont" && ((n[0] + E::one()).is_zero() || (n[1] + E::one()).is_zero()) { continue; }
        if name == "eddsa" {
            // r and a may be anything at all; a third of the time honest
            if t % 3 == 0 { n[1] = gen::sub_point(&mut c.r, k).0.x; n[2] = gen::sub_point(&mut c.r, k).0.x; }
        }
        let b: Vec<bool> = (0..8).map(|_| if t == 0 { false } else { c.r.bool() }).collect();
        let mut p = vec![];
        for i in 0..4 {
            let q = if i == 2 && t > 2 { (E(gen::uniform::<F>(&mut c.r)), E(gen::uniform::<F>(&mut c.r))) } else {
                let q = match name {
                    // documented: subgroup points (nonzero for Montgomery form)
                    "mul" => gen::sub_point(&mut c.r, k).0,
                    "to_mont" => k.rand_subgroup(&mut c.r),
                    _ => gen::point(&mut c.r, k).0,
                };
                (q.x, q.y)
            };
            p.push(q);
        }
        let v = Vals { n, b, p };
        let cs = &MonCS::<F>::new();
        if let Err(e) = guard(|| gadget(cs, name, Some(&v), seed)) {
            viol!("gadget {} failed to build: {} (numbers {:?})", name, e, v.n.iter().map(|x| x.big().to_string()).collect::<Vec<_>>());
        }
        let d = describe(cs);
        built += 1;
        match &base {
            None => base = Some(d),
            Some(o) => { ensure!(c, *o == d, "gadget {} has shape {} or {} depending on the witness", name, o, d); }
        }
    }
    let cs = &MonCS::<F>::new();
    if let Err(e) = guard(|| gadget(cs, name, None, seed)) {
        viol!("gadget {} cannot be built without values: {}", name, e);
    }
    let d = describe(cs);
    if let Some(o) = base {
        ensure!(c, o == d, "gadget {} has shape {} with and {} without values", name, o, d);
    }
    cs.integrity()?;
    c.obs(1);
    c.count(&format!("gadget {}", name), built);
    c.case(format!("{} {}", name, d));
    Ok(())
}

fn main() {
    let g = GADGETS.len();
    Check::new("C11", "random gadget compositions and every gadget alone, each built with several hostile witness assignments (zeros, equal values, boundary values, non-points, unsatisfying values) and without values; recorded variables, public inputs and constraints (coefficients included) are compared; distinct by resulting shape")
        .add("scripts-bn", 500, 20000, scripts::<BnFr>)
        .add("scripts-bls", 300, 12000, scripts::<BlsFr>)
        .add("gadgets-bn", 10 * g, 300 * g, hostile::<BnFr>)
        .add("gadgets-bls", 6 * g, 200 * g, hostile::<BlsFr>)
        .assume("values outside a gadget's documented domain that make the native hint computation divide by zero are excluded")
        .run()
}
