//! C14: Poseidon and Merkle gadgets equal the native functions and cannot be cheated
use fawkes_crypto::circuit::bool::CBool;
use fawkes_crypto::circuit::num::CNum;
use fawkes_crypto::circuit::poseidon::*;
use fawkes_crypto::core::signal::Signal;
use fawkes_crypto::core::sizedvec::SizedVec;
use fawkes_crypto::native::num::Num;
use fawkes_crypto::native::poseidon::{poseidon, poseidon_merkle_proof_root, poseidon_merkle_tree_root, poseidon_with_salt, MerkleProof, PoseidonParams};
use fv::adv::{forge, Attack, Want};
use fv::engine::guard;
use fv::gen;
use fv::moncs::{Lc, MonCS};
use fv::prog::{JF, POS};
use fv::rebind::{rebind, Built};
use fv::refm::*;
use fv::sig::{boo, num, var};
use fv::{ensure, viol, Check, Ctx, Res};
use typenum::{Unsigned, U1, U16, U2, U3, U32, U4, U5, U8};

type M<F> = MonCS<F>;

fn params<F: JF>(c: &mut Ctx) -> (PoseidonParams<F>, RefPoseidon<F>) {
    if c.r.chance(1, 3) {
        let (p, q) = F::pos(c.r.below(POS.len()));
        (p.clone(), q.clone())
    } else {
        let (t, f, p) = (if c.r.chance(1, 6) { c.r.range(8, 18) } else { c.r.range(1, 7) }, c.r.below(10), c.r.below(12));
        (PoseidonParams::new(t, f, p), RefPoseidon::new(t, f, p))
    }
}
/// parameters with at least two inputs, as trees need
fn params2<F: JF>(c: &mut Ctx) -> (PoseidonParams<F>, RefPoseidon<F>) {
    loop { let p = params::<F>(c); if p.0.t >= 2 { return p; } }
}

fn vals<F: JF>(c: &mut Ctx, n: usize) -> Vec<E<F>> {
    let mut v: Vec<F> = vec![];
    for _ in 0..n { let x = if c.r.chance(1, 6) { F::zero() } else { gen::related(&mut c.r, &v) }; v.push(x); }
    v.into_iter().map(E).collect()
}
fn nums<F: JF>(v: &[E<F>]) -> Vec<Num<F>> { v.iter().map(|x| Num(x.0)).collect() }

fn check<F: JF>(c: &mut Ctx, cs: &M<F>, o: &CNum<M<F>>, want: E<F>, what: &str) -> Res {
    cs.audit(o)?;
    ensure!(c, o.get_value() == Some(Num(want.0)), "{}: gadget gives {:?}, specification {}", what, o.get_value().map(|x| E(x.0).big()), want.big());
    cs.verdict().map_err(|e| format!("{}: {}", what, e))?;
    c.obs(cs.audits());
    Ok(())
}

fn hash<F: JF>(c: &mut Ctx) -> Res {
    let (pp, rp) = params::<F>(c);
    let n = c.r.range(1, pp.t);
    let mut v = vals::<F>(c, n);
    // inputs that make the first S-box see 0 or 1
    if let Some(c0) = rp.c.first() {
        for x in v.iter_mut() { match c.r.below(8) { 0 => *x = -*c0, 1 => *x = E::one() - *c0, _ => {} } }
    }
    let cs = &M::<F>::new();
    let s: Vec<_> = v.iter().map(|x| num(&mut c.r, cs, *x)).collect();
    let what = format!("hash of {} inputs with t={} f={} p={}", n, pp.t, pp.f, pp.p);
    c.case(format!("{}{:?}", what, v));
    let o = c_poseidon(&s, &pp);
    check(c, cs, &o, rp.hash(&v), &what)?;
    ensure!(c, poseidon(&nums(&v), &pp).0 == rp.hash(&v).0, "native {}", what);
    if n < pp.t {
        let l = c.r.below(70);
        let salt = c.r.bytes(l);
        let o = c_poseidon_with_salt(&s, &salt, &pp);
        check(c, cs, &o, rp.hash_salt(&v, &salt), &format!("salted {}", what))?;
        ensure!(c, poseidon_with_salt(&nums(&v), &salt, &pp).0 == rp.hash_salt(&v, &salt).0, "native salted {}", what);
    } else {
        ensure!(c, guard(|| c_poseidon_with_salt(&s, b"x", &pp)).is_err(), "salted hash of t inputs accepted");
    }
    // too many and no inputs are refused
    let extra: Vec<_> = (0..pp.t + 1).map(|_| CNum::from_const(cs, &Num::one())).collect();
    ensure!(c, guard(|| c_poseidon(&extra, &pp)).is_err() && guard(|| c_poseidon(&[] as &[CNum<M<F>>], &pp)).is_err(), "{}: wrong number of inputs accepted", what);
    ensure!(c, guard(|| c_poseidon_with_salt(&[] as &[CNum<M<F>>], b"x", &pp)).is_err(), "salted hash without inputs accepted");
    // constant inputs: no variables, constant result
    let cs = &M::<F>::new();
    let s: Vec<_> = v.iter().map(|x| CNum::from_const(cs, &Num(x.0))).collect();
    let o = c_poseidon(&s, &pp);
    ensure!(c, o.as_const() == Some(Num(rp.hash(&v).0)), "hash of constants is not the constant hash: {:?}", o.as_const());
    Ok(())
}

fn tree<F: JF>(c: &mut Ctx) -> Res {
    let big = c.iter % 10 == 9;
    let (pp, rp) = if big { let (t, f, p) = (c.r.range(2, 3), c.r.range(1, 4), c.r.below(4)); (PoseidonParams::new(t, f, p), RefPoseidon::new(t, f, p)) } else { params2::<F>(c) };
    let n = if big { c.r.range(21, 150) } else if c.iter < 40 { 1 + c.iter % 20 } else { c.r.range(1, 20) };
    let v = vals::<F>(c, n);
    let cs = &M::<F>::new();
    let s: Vec<_> = v.iter().map(|x| num(&mut c.r, cs, *x)).collect();
    c.case(format!("{}{:?}", pp.t, v));
    let o = c_poseidon_merkle_tree_root(&s, &pp);
    let w = rp.merkle_levels(&v).last().unwrap()[0];
    check(c, cs, &o, w, &format!("tree of {} leaves", n))?;
    ensure!(c, poseidon_merkle_tree_root(&nums(&v), &pp).0 == w.0, "native tree of {} leaves", n);
    ensure!(c, guard(|| c_poseidon_merkle_tree_root(&[] as &[CNum<M<F>>], &pp)).is_err(), "empty tree accepted");
    Ok(())
}

fn proof_l<F: JF, L: Unsigned>(c: &mut Ctx) -> Res {
    let (pp, rp) = params2::<F>(c);
    let n = L::USIZE;
    let leaf = vals::<F>(c, 1)[0];
    let mut sib = vals::<F>(c, n);
    if c.r.chance(1, 6) { sib[0] = leaf; }
    let path: Vec<bool> = (0..n).map(|_| c.r.bool()).collect();
    let np = MerkleProof::<F, L> { sibling: nums(&sib).into_iter().collect(), path: path.iter().cloned().collect() };
    let want = rp.merkle_root_from_proof(leaf, &sib, &path);
    c.case(format!("{:?}{:?}{:?}", leaf, sib, path));
    ensure!(c, poseidon_merkle_proof_root(Num(leaf.0), &np, &pp).0 == want.0, "native proof of length {}", n);
    let cs = &M::<F>::new();
    let l = num(&mut c.r, cs, leaf);
    let pr: CMerkleProof<M<F>, L> = match c.r.below(3) {
        0 => CMerkleProof::alloc(cs, Some(&np)),
        1 => CMerkleProof::from_const(cs, &np),
        _ => CMerkleProof {
            sibling: sib.iter().map(|x| num(&mut c.r, cs, *x)).collect::<SizedVec<_, L>>(),
            path: path.iter().map(|x| boo(&mut c.r, cs, *x)).collect::<SizedVec<_, L>>(),
        },
    };
    let o = c_poseidon_merkle_proof_root(&l, &pr, &pp);
    check(c, cs, &o, want, &format!("proof of length {}", n))
}
fn proof<F: JF>(c: &mut Ctx) -> Res {
    match c.r.below(8) {
        0 => proof_l::<F, U1>(c),
        1 => proof_l::<F, U2>(c),
        2 => proof_l::<F, U3>(c),
        3 => proof_l::<F, U4>(c),
        4 => proof_l::<F, U5>(c),
        5 => proof_l::<F, U8>(c),
        6 => proof_l::<F, U16>(c),
        _ => proof_l::<F, U32>(c),
    }
}

fn run_attack<F: JF>(c: &mut Ctx, cs: &M<F>, n0: usize, outs: Vec<Lc<F>>, want: Want<F>, what: &str) -> Res {
    let sys = cs.snapshot();
    c.case(format!("{}{:?}", what, sys.vals.last()));
    let th = c.thorough;
    let (s, f) = forge(&mut c.r, &sys, n0, outs, &want, &|a: &mut Attack<F>| { a.repairs = if th { 80 } else { 25 }; a.tries = if th { 8 } else { 4 }; });
    c.obs(s.searches + s.repairs);
    c.count("completion searches", s.searches);
    c.count("local repairs", s.repairs);
    c.count("satisfying assignments judged", s.solutions);
    match f { Some(m) => viol!("{}: {}", what, m), None => Ok(()) }
}

fn attacks<F: JF>(c: &mut Ctx) -> Res {
    let published = c.r.chance(1, 12);
    let i = if published { 2 + c.r.below(2) } else { [0, 1, 4][c.r.below(3)] };
    let (pp, rp) = F::pos(i);
    let cs = &M::<F>::new();
    match c.r.below(5) {
        0 => {
            let n = c.r.range(1, pp.t);
            let v = vals::<F>(c, n);
            let s: Vec<_> = v.iter().map(|x| var(&mut c.r, cs, *x)).collect();
            let n0 = cs.nvars();
            let o = c_poseidon(&s, pp);
            run_attack(c, cs, n0, vec![cs.lc(&o)], Want::Exact(vec![rp.hash(&v)]), &format!("hash of {} inputs", n))
        }
        1 => {
            let n = c.r.range(1, pp.t - 1);
            let v = vals::<F>(c, n);
            let s: Vec<_> = v.iter().map(|x| num(&mut c.r, cs, *x)).collect();
            let n0 = cs.nvars();
            let o = c_poseidon_with_salt(&s, b"salt", pp);
            run_attack(c, cs, n0, vec![cs.lc(&o)], Want::Exact(vec![rp.hash_salt(&v, b"salt")]), &format!("salted hash of {} inputs", n))
        }
        2 => {
            let n = c.r.range(2, 6);
            let v = vals::<F>(c, n);
            let s: Vec<_> = v.iter().map(|x| num(&mut c.r, cs, *x)).collect();
            let n0 = cs.nvars();
            let o = c_poseidon_merkle_tree_root(&s, pp);
            let w = rp.merkle_levels(&v).last().unwrap()[0];
            run_attack(c, cs, n0, vec![cs.lc(&o)], Want::Exact(vec![w]), &format!("tree of {} leaves", n))
        }
        3 => {
            // honest proof, other root
            let leaf = vals::<F>(c, 1)[0];
            let sib = vals::<F>(c, 3);
            let path: Vec<bool> = (0..3).map(|_| c.r.bool()).collect();
            let np = MerkleProof::<F, U3> { sibling: nums(&sib).into_iter().collect(), path: path.iter().cloned().collect() };
            let l = num(&mut c.r, cs, leaf);
            let pr: CMerkleProof<M<F>, U3> = CMerkleProof::alloc(cs, Some(&np));
            let n0 = cs.nvars();
            let o = c_poseidon_merkle_proof_root(&l, &pr, pp);
            run_attack(c, cs, n0, vec![cs.lc(&o)], Want::Exact(vec![rp.merkle_root_from_proof(leaf, &sib, &path)]), "membership proof")
        }
        _ => {
            // path "bits" that are not bits: nothing may satisfy the circuit, whatever
            // the siblings, so any leaf could otherwise be proved to be in any tree
            let leaf = vals::<F>(c, 1)[0];
            let sib = vals::<F>(c, 3);
            let path: Vec<bool> = (0..3).map(|_| c.r.bool()).collect();
            let np = MerkleProof::<F, U3> { sibling: nums(&sib).into_iter().collect(), path: path.iter().cloned().collect() };
            let l = var(&mut c.r, cs, leaf);
            let pr: CMerkleProof<M<F>, U3> = CMerkleProof::alloc(cs, Some(&np));
            let o = c_poseidon_merkle_proof_root(&l, &pr, pp);
            let _ = o;
            let k = c.r.below(3);
            let pv = cs.lc(&pr.path[k].0);
            if pv.len() != 1 { viol!("allocated path bit is no variable"); }
            let mut sys = cs.snapshot();
            let bad = match c.r.below(3) { 0 => E::n(2), 1 => -E::one(), _ => E(gen::uniform::<F>(&mut c.r)) };
            if bad == E::one() || bad.is_zero() { c.obs(1); return Ok(()); }
            // fix only the leaf and the bad path bit
            let lv: Vec<usize> = cs.lc(&l).iter().map(|x| x.0).filter(|x| *x != 0).collect();
            sys.vals[pv[0].0] = Some(bad);
            let honest: Vec<E<F>> = sys.vals.iter().map(|v| v.unwrap()).collect();
            let mut fixed: std::collections::BTreeSet<usize> = lv.into_iter().collect();
            fixed.insert(pv[0].0);
            let mut at = Attack::new(&sys, &honest, fixed);
            at.tries = 4;
            at.repairs = 10;
            c.case(format!("path {}{:?}", k, bad));
            let (s, f) = at.run(&mut c.r, &mut |_| Some("a membership proof with a path bit that is no bit is satisfiable".into()));
            c.obs(s.searches + s.repairs);
            c.count("non-bit path bits tried", 1);
            match f { Some(m) => viol!("path bit {} = {}: {}", k, bad.big(), m), None => Ok(()) }
        }
    }
}

/// gadgets built with values that invite a shortcut, then held to other values
fn other_values<F: JF>(c: &mut Ctx) -> Res {
    let i = [0, 1, 4][c.r.below(3)];
    let (pp, rp) = F::pos(i);
    let kind = c.r.below(4);
    let n = match kind { 0 => c.r.range(1, pp.t), 1 => c.r.range(1, pp.t - 1), 2 => c.r.range(1, 6), _ => 4 };
    let mut set = |c: &mut Ctx| -> (Vec<E<F>>, Vec<bool>) {
        let v = match c.r.below(4) { 0 => vec![E::zero(); n], 1 => { let x = E(gen::shaped::<F>(&mut c.r)); vec![x; n] } _ => vals::<F>(c, n) };
        let k = c.r.below(3);
        (v, (0..3).map(|_| match k { 0 => true, 1 => false, _ => c.r.bool() }).collect())
    };
    let (a, b) = (set(c), set(c));
    c.case(format!("{} {} {:?} {:?}", kind, i, a, b));
    let f = |(v, path): &(Vec<E<F>>, Vec<bool>)| -> Built<F> {
        let cs = &M::<F>::new();
        let s: Vec<CNum<M<F>>> = v.iter().map(|x| CNum::alloc(cs, Some(&Num(x.0)))).collect();
        let pb: Vec<CBool<M<F>>> = path.iter().map(|x| CBool::alloc(cs, Some(x))).collect();
        let n0 = cs.nvars();
        let (o, w) = match kind {
            0 => (c_poseidon(&s, pp), rp.hash(v)),
            1 => (c_poseidon_with_salt(&s, b"other", pp), rp.hash_salt(v, b"other")),
            2 => (c_poseidon_merkle_tree_root(&s, pp), rp.merkle_levels(v).last().unwrap()[0]),
            _ => {
                let pr: CMerkleProof<M<F>, U3> = CMerkleProof { sibling: s[1..].iter().cloned().collect(), path: pb.iter().cloned().collect() };
                (c_poseidon_merkle_proof_root(&s[0], &pr, pp), rp.merkle_root_from_proof(v[0], &v[1..], path))
            }
        };
        Built { sys: cs.snapshot(), n0, outs: vec![cs.lc(&o)], want: Want::Exact(vec![w]) }
    };
    rebind(c, &format!("hash gadget {} for {:?} held to {:?}", kind, a, b), &a, &b, &f)
}

fn main() {
    Check::new("C14", "hash, salted hash, tree and membership gadgets over random and published parameters and constant/variable/affine inputs, compared with an independent Poseidon and the native functions; the recorded constraints are then attacked with the inputs fixed, and with path bits that are not bits; distinct by parameters and inputs")
        .add("hash-bn", 500, 20000, hash::<BnFr>)
        .add("hash-bls", 300, 12000, hash::<BlsFr>)
        .add("tree-bn", 120, 4000, tree::<BnFr>)
        .add("tree-bls", 80, 2500, tree::<BlsFr>)
        .add("proof-bn", 160, 6000, proof::<BnFr>)
        .add("proof-bls", 100, 4000, proof::<BlsFr>)
        .add("attacks-bn", 400, 12000, attacks::<BnFr>)
        .add("attacks-bls", 250, 8000, attacks::<BlsFr>)
        .add("other-values-bn", 300, 8000, other_values::<BnFr>)
        .add("other-values-bls", 150, 4000, other_values::<BlsFr>)
        .assume("forgeries outside the attacks tried are not excluded")
        .run()
}
