//! C24: the generated Solidity verifier gives the native verdict
use bellman::groth16::Proof as BP;
use fawkes_crypto::helpers::groth16::ethereum::generate_sol_data;
use fawkes_crypto::helpers::groth16::prover::Proof;
use fawkes_crypto::helpers::groth16::verifier::{truncate_verifying_key, TruncatedVerifyingKey};
use fv::g16::*;
use fv::gen;
use fv::refm::*;
use fv::sol::{Contract, Machine, Stop};
use fv::wei::{self, key_slots, proof_slots, PC, K, Q2};
use fv::{ensure, viol, Check, Ctx, Res};
use num::bigint::BigUint;
use num::{One, Zero};
use pairing::bn256::{Bn256, G1Affine, G2Affine};
use pairing::CurveAffine;

type En = Bn256;
type F = BnFr;
fn q() -> BigUint { BnFq::p() }
fn rr() -> BigUint { BnFr::p() }

fn unknown(s: &str) -> String { format!("INCONCLUSIVE: the contract uses a construct the interpreter does not know: {}", s) }

struct Code { c: Contract, e: (usize, usize), n: usize }
fn deploy(c: &mut Ctx, k: &TruncatedVerifyingKey<En>) -> Result<Code, String> {
    let n = k.ic.len() - 1;
    let d = k.into_data();
    let src = match fv::engine::guard(|| generate_sol_data(&d)) { Ok(s) => s, Err(e) => return Err(format!("generating the contract for a key with {} inputs fails with '{}'", n, e)) };
    let say = |s: Stop| match s {
        Stop::Unsupported(s) => unknown(&s),
        s => format!("the contract of a key with {} inputs is not valid Solidity: {:?}; key {}", n, s, key_slots::<En>(k).iter().map(|s| s.json()).collect::<Vec<_>>().join(" ")),
    };
    let ct = Contract::parse(&src).map_err(say)?;
    ct.check_types().map_err(say)?;
    let e = ct.entry("verifyProof").map_err(say)?;
    c.count("contracts generated", 1);
    Ok(Code { c: ct, e, n })
}
#[derive(Clone, Debug, PartialEq)]
enum Out { Yes, No, Revert }
fn exec(c: &mut Ctx, k: &Code, p: &[BigUint], x: &[BigUint]) -> Result<Out, String> {
    let np = match k.c.entry_params(k.e) { Ok(v) => v.len(), Err(Stop::Unsupported(s)) => return Err(unknown(&s)), Err(e) => return Err(format!("{:?}", e)) };
    let mut args = vec![p.to_vec()];
    // a contract without public inputs may leave the parameter out
    if np > 1 || k.n > 0 { args.push(x.to_vec()); }
    let mut m = Machine::new(&k.c);
    let r = m.run(k.e, &args);
    c.count("precompile calls", m.precompile_calls);
    c.count("interpreted operations", m.ops);
    match r {
        Ok(v) if v.len() == 1 && v[0].is_one() => Ok(Out::Yes),
        Ok(v) if v.len() == 1 && v[0].is_zero() => Ok(Out::No),
        Ok(v) => Err(format!("verifyProof returns {:?} instead of a truth value", v)),
        Err(Stop::Revert(_)) => Ok(Out::Revert),
        Err(Stop::Unsupported(s)) => Err(unknown(&s)),
        Err(Stop::Gas) => Err(format!("the contract with {} inputs does not terminate within a block's gas", k.n)),
        Err(Stop::Compile(s)) => Err(format!("the contract with {} inputs is not valid Solidity: {}", k.n, s)),
    }
}
fn words(p: &BP<En>) -> Vec<BigUint> { proof_slots::<En>(p).iter().flat_map(|s| s.coords().clone()).collect() }
fn ints(x: &[F]) -> Vec<BigUint> { x.iter().map(tb).collect() }
fn show(v: &[BigUint]) -> String { v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",") }

/// contract against the native verifier (and the known answer)
fn judge(c: &mut Ctx, k: &TruncatedVerifyingKey<En>, code: &Code, p: &BP<En>, x: &[F], exp: Option<bool>, what: &str) -> Res {
    let native = match lib_verdict(k, &Proof(BP { a: p.a, b: p.b, c: p.c }), x) { Ok(Ok(b)) => b, o => viol!("native verification of {} gives {:?}", what, o) };
    if let Some(e) = exp { if e != native { viol!("native verdict of {} is {}", what, native); } }
    let got = exec(c, code, &words(p), &ints(x))?;
    ensure!(c, (got == Out::Yes) == native, "the contract says {:?} and the native verifier {} for {} with {} inputs: proof {} inputs {}", got, native, what, x.len(), show(&words(p)), show(&ints(x)));
    c.count(&format!("{}: {:?}", what, got), 1);
    Ok(())
}
/// encodings that are not canonical or no points at all: never accepted, out-of-range words revert
fn hostile(c: &mut Ctx, code: &Code, p: &BP<En>, x: &[F], rounds: usize) -> Res {
    let (w, xs) = (words(p), ints(x));
    for _ in 0..rounds {
        let (mut v, mut y) = (w.clone(), xs.clone());
        let mut must = true;
        let what = match c.r.below(9) {
            0 | 1 if !y.is_empty() => {
                let i = *c.r.pick(&[0, y.len() - 1, c.iter % y.len()]);
                y[i] = &y[i] + rr() * BigUint::from(c.r.range(1, 4) as u32);
                "input plus a multiple of the group order"
            }
            2 if !y.is_empty() => { let i = c.r.below(y.len()); y[i] = match c.r.below(3) { 0 => rr(), 1 => (BigUint::one() << 256usize) - BigUint::one(), _ => rr() + BigUint::from(c.r.u64()) }; "input not below the group order" }
            3 | 4 => {
                let i = c.r.below(8);
                v[i] = &v[i] + q() * BigUint::from(c.r.range(1, 4) as u32);
                "proof word plus a multiple of the base prime"
            }
            5 => { let i = c.r.below(8); v[i] = match c.r.below(3) { 0 => q(), 1 => (BigUint::one() << 256usize) - BigUint::one(), _ => q() + BigUint::from(c.r.u64()) }; "proof word not below the base prime" }
            6 => {
                must = false;
                let i = c.r.below(8);
                v[i] = (&v[i] + BigUint::one()) % q();
                "proof word changed"
            }
            7 => {
                must = false;
                // a point of the twist outside the subgroup, or the proof's own B shifted by one
                let t: (Q2<BnFq>, Q2<BnFq>) = wei::curve_point(&mut c.r, <En as PC>::b2());
                let mut s = Some(t);
                if c.r.bool() {
                    let b: wei::Pt<Q2<BnFq>> = wei::of_g(&p.b, 32);
                    // cofactor-cleared difference: B plus a point of the order of the cofactor
                    let t = wei::mul(&s, &rr());
                    s = wei::add(&b, &t);
                }
                let k = wei::coords(&s);
                v[2..6].clone_from_slice(&k);
                "B outside the subgroup"
            }
            _ => {
                must = false;
                let (i, j) = (c.r.below(8), c.r.below(8));
                v.swap(i, j);
                "proof words exchanged"
            }
        };
        if v.iter().chain(y.iter()).any(|z| z.bits() > 256) || (v == w && y == xs) { continue; }
        let got = exec(c, code, &v, &y)?;
        // still a proof? only if every element is a valid point
        let mut native = false;
        if !must {
            let a: wei::Pt<E<BnFq>> = if v[0].is_zero() && v[1].is_zero() { None } else { Some((K::of(&v[..1]), K::of(&v[1..2]))) };
            let b: wei::Pt<Q2<BnFq>> = if v[2..6].iter().all(|z| z.is_zero()) { None } else { Some((K::of(&v[2..4]), K::of(&v[4..6]))) };
            let d: wei::Pt<E<BnFq>> = if v[6].is_zero() && v[7].is_zero() { None } else { Some((K::of(&v[6..7]), K::of(&v[7..8]))) };
            let good = wei::valid(&a, <En as PC>::b1(), &rr()) && wei::valid(&b, <En as PC>::b2(), &rr()) && wei::valid(&d, <En as PC>::b1(), &rr());
            if good { c.count("changed words that are still points", 1); native = got == Out::Yes; }
        }
        if must {
            ensure!(c, got == Out::Revert, "the contract says {:?} to a {}: proof {} inputs {}", got, what, show(&v), show(&y));
        } else {
            ensure!(c, native || got != Out::Yes, "the contract accepts a {}: proof {} inputs {}", what, show(&v), show(&y));
        }
        c.count(&format!("{}: {:?}", what, got), 1);
    }
    Ok(())
}

fn logs(c: &mut Ctx) -> Res {
    let n = match c.r.below(8) { 0 => 0, 1 => 1, 2 => c.r.range(8, 20), 3 => c.r.range(5, 9), _ => c.r.range(1, 5) };
    logs_n(c, n)
}
fn logs_n(c: &mut Ctx, n: usize) -> Res {
    let zeros = c.r.chance(1, 3);
    let mut l = Logs::<F>::random(&mut c.r, n, zeros);
    let d = |c: &mut Ctx, e: E<F>| match c.r.below(5) { 0 => e + E::one(), 1 => -e, 2 => E::zero(), 3 => e + e, _ => E(gen::shaped::<F>(&mut c.r)) };
    let k = key_of::<En>(&l);
    let code = deploy(c, &k)?;
    c.case(format!("{} {}", n, l.sum().big()));
    let base = l.clone();
    for t in 0..6 {
        l = base.clone();
        let what = match if t == 0 { 0 } else { c.r.below(9) } {
            0 => "valid proof",
            1 => { l.a = d(c, l.a); "changed A" }
            2 => { l.b = d(c, l.b); "changed B" }
            3 => { l.c = d(c, l.c); "changed C" }
            4 => { std::mem::swap(&mut l.a, &mut l.c); "swapped A and C" }
            5 => { l.a = -l.a; l.b = -l.b; "A and B negated" }
            6 if n > 1 => { let i = c.r.below(n - 1); l.x.swap(i, i + 1); "permuted inputs" }
            // another statement of the same key with its own valid proof
            7 => {
                for x in l.x.iter_mut() { *x = match c.r.below(4) { 0 => E::zero(), 1 => -E::one(), _ => E(gen::shaped::<F>(&mut c.r)) }; }
                l.c = (l.a * l.b - l.alpha * l.beta - l.gamma * l.sum()).div(l.delta);
                "valid proof of other inputs"
            }
            _ if n > 0 => { let i = *c.r.pick(&[0, n - 1, c.iter % n]); l.x[i] = d(c, l.x[i]); "changed input" }
            _ => { l.a = E::zero(); "A at infinity" }
        };
        let p = proof_of::<En>(&l);
        judge(c, &k, &code, &p, &frs(&l.x), Some(l.holds()), what)?;
        if t == 0 || (l.holds() && c.r.chance(1, 2)) { let m = if c.thorough { 9 } else { 4 }; hostile(c, &code, &p, &frs(&l.x), m)?; }
    }
    Ok(())
}

/// many inputs: counters of the contract must not wrap
fn wide(c: &mut Ctx) -> Res {
    let n = [255, 256, 257, 300, 127, 128, 64, 33][c.iter % 8];
    let mut l = Logs::<F>::random(&mut c.r, n, false);
    for x in l.x.iter_mut().take(n - 3) { if c.r.chance(9, 10) { *x = E::n(c.r.below(1 << 16) as u64); } }
    l.c = (l.a * l.b - l.alpha * l.beta - l.gamma * l.sum()).div(l.delta);
    let k = key_of::<En>(&l);
    let code = deploy(c, &k)?;
    c.case(format!("{} {}", n, l.sum().big()));
    judge(c, &k, &code, &proof_of::<En>(&l), &frs(&l.x), Some(true), "valid proof with many inputs")?;
    let p = proof_of::<En>(&l);
    let i = *c.r.pick(&[n - 1, n - 2, n / 2, 0]);
    let mut x = l.clone();
    x.x[i] = x.x[i] + E::one();
    judge(c, &k, &code, &p, &frs(&x.x), Some(x.holds()), "changed input of many")?;
    hostile(c, &code, &p, &frs(&l.x), 2)
}

/// keys with unusually small coordinates, found by walking through multiples of the generator
fn small(c: &mut Ctx) -> Res {
    use pairing::{CurveProjective, Engine};
    let n = c.r.range(0, 3);
    let mut l = Logs::<F>::random(&mut c.r, n, false);
    let start = E::<F>(gen::uniform(&mut c.r));
    let mut p = g2::<En>(start).into_projective();
    let lim = BigUint::one() << 248usize;
    let mut k = start;
    let mut found = vec![];
    for _ in 0..(if c.thorough { 8000 } else { 1600 }) {
        let s = wei::coords::<Q2<BnFq>>(&wei::of_g(&p.into_affine(), 32));
        if (s[0] < lim && s[1] < lim) || (s[2] < lim && s[3] < lim) { found.push(k); if found.len() > 2 { break; } }
        p.add_assign(&<En as Engine>::G2::one());
        k = k + E::one();
    }
    c.obs(1);
    if found.is_empty() { return Ok(()); }
    for f in found {
        match c.r.below(3) { 0 => l.beta = f, 1 => l.gamma = f, _ => l.delta = f }
        l.c = (l.a * l.b - l.alpha * l.beta - l.gamma * l.sum()).div(l.delta);
        let k = key_of::<En>(&l);
        let code = deploy(c, &k)?;
        c.case(format!("{}", f.big()));
        judge(c, &k, &code, &proof_of::<En>(&l), &frs(&l.x), Some(true), "valid proof, key with small coordinates")?;
    }
    Ok(())
}

/// contracts of real circuits
fn real(c: &mut Ctx) -> Res {
    let len = c.r.range(3, 20);
    let s = script::<F>(&mut c.r, len, 0);
    let (w, x) = match witness(&mut c.r, &s, true) { Some(k) => k, None => { c.obs(1); return Ok(()); } };
    let pk = keys::<En>(&s);
    let vk = truncate_verifying_key(&pk.vk);
    let code = deploy(c, &vk)?;
    c.case(s.show());
    let pr = match make_proof::<En>(&s, &w, &pk) { Ok(p) => p, Err(e) => viol!("proving failed with '{}' for {}", e, s.show()) };
    judge(c, &vk, &code, &pr.0, &frs(&x), Some(true), "honest proof of a circuit")?;
    for i in 0..x.len().min(4) {
        let mut y = frs(&x);
        y[i] = gen::shaped(&mut c.r);
        if y[i] != x[i].0 { judge(c, &vk, &code, &pr.0, &y, None, "changed input of a circuit")?; }
    }
    let o = &pr.0;
    judge(c, &vk, &code, &BP { a: o.c, b: o.b, c: o.a }, &frs(&x), None, "A and C exchanged")?;
    judge(c, &vk, &code, &BP { a: G1Affine::zero(), b: G2Affine::zero(), c: G1Affine::zero() }, &frs(&x), None, "all at infinity")?;
    judge(c, &vk, &code, &BP { a: o.a, b: G2Affine::zero(), c: o.c }, &frs(&x), None, "B at infinity")?;
    hostile(c, &code, &pr.0, &frs(&x), 4)
}

fn main() {
    Check::new("C24", "a case is one key whose generated contract is executed word by word (Solidity 0.6 memory, type and wrap-around semantics, alt_bn128 precompiles) on valid, tampered, non-canonical and malformed proofs and inputs; each verdict is compared with the native verifier and with the known logarithms")
        .assume("harness Solidity interpreter and precompile model; pairing library for the pairing product")
        .add("logs", 130, 4000, logs)
        .add("noinputs", 8, 200, |c: &mut Ctx| logs_n(c, 0))
        .add("wide", 8, 64, wide)
        .add("small", 8, 64, small)
        .add("real", 40, 1500, real)
        .run()
}
