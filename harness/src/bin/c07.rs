//! C07: Poseidon hashes and parameters equal their specification
use fawkes_crypto::core::field::Field;
use fawkes_crypto::native::num::Num;
use fawkes_crypto::native::poseidon::{poseidon, poseidon_with_salt, PoseidonParams};
use fv::engine::guard;
use fv::refm::*;
use fv::{ensure, gen, Check, Ctx, Res};
use std::collections::HashMap;

fn check<F: RefField + Field>(c: &mut Ctx, t: usize, f: usize, p: usize, rounds: usize) -> Res {
    let real = PoseidonParams::<F>::new(t, f, p);
    let model = RefPoseidon::<F>::new(t, f, p);
    let what = format!("{} t={} f={} p={}", F::NAME, t, f, p);
    c.count(&format!("{} width {}", F::NAME, t), 1);
    ensure!(c, (real.t, real.f, real.p) == (t, f, p), "recorded sizes: {}", what);
    ensure!(c, real.c.len() == f + p && real.c.iter().zip(model.c.iter()).all(|(a, b)| a.0 == b.0), "round constants: {}", what);
    ensure!(c, real.m.len() == t, "matrix size: {}", what);
    for (a, b) in real.m.iter().zip(model.m.iter()) {
        ensure!(c, a.len() == t && a.iter().zip(b.iter()).all(|(x, y)| x.0 == y.0), "matrix: {}", what);
    }
    let mut seen: HashMap<Vec<u64>, Vec<Vec<u64>>> = HashMap::new();
    for _ in 0..rounds {
        let n = c.r.range(1, t);
        let c0 = model.c.first().cloned().unwrap_or(E::zero());
        // zeros, and inputs that make the first S-box see 0, 1 or -1
        let inp: Vec<F> = (0..n).map(|_| match c.r.below(12) { 0 | 1 | 2 => F::zero(), 3 => (-c0).0, 4 => (E::one() - c0).0, 5 => (-E::one() - c0).0, _ => gen::shaped(&mut c.r) }).collect();
        let nums: Vec<Num<F>> = inp.iter().map(|x| Num(*x)).collect();
        let refs: Vec<E<F>> = inp.iter().map(|x| E(*x)).collect();
        c.case(format!("{} {:?}", what, inp.iter().map(|x| tb(x).to_string()).collect::<Vec<_>>()));
        let h = poseidon(&nums, &real);
        ensure!(c, h.0 == model.hash(&refs).0, "hash of {:?}: {}", refs.iter().map(|x| x.big().to_string()).collect::<Vec<_>>(), what);
        // collisions among inputs that differ as padded states
        let mut pad: Vec<Vec<u64>> = inp.iter().map(|x| gen::repr_words(x)).collect();
        pad.resize(t, gen::repr_words(&F::zero()));
        if f + p > 0 && t <= 8 {
            if let Some(o) = seen.insert(gen::repr_words(&h.0), pad.clone()) {
                ensure!(c, o == pad, "two inputs share a hash: {}", what);
            }
        }
        if n < t && F::nbytes() <= 32 {
            let sl = [0usize, 1, 8, 13, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 256, 1000][c.r.below(16)];
            let seed = if c.r.chance(1, 3) { b"eddsaposeidon".to_vec() } else { c.r.bytes(sl) };
            let h = poseidon_with_salt(&nums, &seed, &real);
            ensure!(c, h.0 == model.hash_salt(&refs, &seed).0, "salted hash with seed {:?}: {}", seed, what);
        }
    }
    // refusals
    let z = |n: usize| vec![Num::<F>::one(); n];
    ensure!(c, guard(|| poseidon(&z(0), &real)).is_err(), "empty input accepted: {}", what);
    let extra = c.r.range(1, 4);
    ensure!(c, guard(|| poseidon(&z(t + extra), &real)).is_err(), "too many inputs accepted: {}", what);
    if F::nbytes() <= 32 {
        ensure!(c, guard(|| poseidon_with_salt(&z(0), b"x", &real)).is_err(), "empty salted input accepted: {}", what);
        ensure!(c, guard(|| poseidon_with_salt(&z(t), b"x", &real)).is_err(), "too many salted inputs accepted: {}", what);
    }
    Ok(())
}

fn random_params<F: RefField + Field>(c: &mut Ctx) -> Res {
    let t = if c.r.chance(1, 4) { c.r.range(10, 24) } else { c.r.range(1, 9) };
    let f = match c.r.below(3) { 0 => 8, 1 => 2 * c.r.below(6), _ => c.r.below(22) };
    let p = if c.r.chance(1, 8) { c.r.range(64, 140) } else if c.r.chance(1, 3) { c.r.range(50, 63) } else { c.r.below(20) };
    check::<F>(c, t, f, p, 4)
}

fn published<F: RefField + Field>(c: &mut Ctx) -> Res {
    let sets = [(2, 8, 53), (3, 8, 53), (4, 8, 54), (5, 8, 56), (6, 8, 57), (9, 8, 57)];
    let (t, f, p) = sets[c.iter % sets.len()];
    check::<F>(c, t, f, p, 12)
}

/// parameters written by hand, so the permutation is checked apart from their generation
fn handmade<F: RefField + Field>(c: &mut Ctx) -> Res {
    let (t, f, p) = (if c.r.chance(1, 8) { c.r.range(7, 20) } else { c.r.range(1, 6) }, c.r.below(10), c.r.below(12));
    let g = |c: &mut Ctx| -> F { match c.r.below(5) { 0 => F::zero(), 1 => F::one(), _ => gen::shaped(&mut c.r) } };
    let cc: Vec<F> = (0..f + p).map(|_| g(c)).collect();
    let mm: Vec<Vec<F>> = (0..t).map(|_| (0..t).map(|_| g(c)).collect()).collect();
    let real = PoseidonParams { c: cc.iter().map(|x| Num(*x)).collect(), m: mm.iter().map(|r| r.iter().map(|x| Num(*x)).collect()).collect(), t, f, p };
    let model = RefPoseidon { c: cc.iter().map(|x| E(*x)).collect(), m: mm.iter().map(|r| r.iter().map(|x| E(*x)).collect()).collect(), t, f, p };
    for _ in 0..4 {
        let n = c.r.range(1, t);
        let inp: Vec<F> = (0..n).map(|_| g(c)).collect();
        c.case(format!("{} {} {} {} {:?}", t, f, p, F::NAME, inp.iter().map(|x| tb(x).to_string()).collect::<Vec<_>>()));
        let h = poseidon(&inp.iter().map(|x| Num(*x)).collect::<Vec<_>>(), &real);
        ensure!(c, h.0 == model.hash(&inp.iter().map(|x| E(*x)).collect::<Vec<_>>()).0, "permutation t={} f={} p={} in {}", t, f, p, F::NAME);
    }
    Ok(())
}

fn main() {
    let mut ck = Check::new("C07", "published and random parameter sets (odd and zero round numbers included) in all six fields, hand-made constants, inputs of every admissible count, salts of many lengths; parameters and hashes compared with an independent implementation; distinct by parameters and input");
    macro_rules! f { ($t:ty, $a:expr, $b:expr, $c:expr) => {
        ck = ck.add($a, 1200, 60000, random_params::<$t>).add($b, 60, 1500, published::<$t>).add($c, 3000, 100000, handmade::<$t>);
    } }
    f!(BnFr, "random-bn-fr", "published-bn-fr", "handmade-bn-fr");
    f!(BnFq, "random-bn-fq", "published-bn-fq", "handmade-bn-fq");
    f!(BnFs, "random-bn-fs", "published-bn-fs", "handmade-bn-fs");
    f!(BlsFr, "random-bls-fr", "published-bls-fr", "handmade-bls-fr");
    f!(BlsFq, "random-bls-fq", "published-bls-fq", "handmade-bls-fq");
    f!(BlsFs, "random-bls-fs", "published-bls-fs", "handmade-bls-fs");
    ck.assume("the specification is the one documented in DESIGN.md (seed string, order of constants, one constant per round)").run()
}
