//! C21: Groth16 verification rejects everything else
use bellman::groth16::Proof as BP;
use fawkes_crypto::helpers::groth16::prover::Proof;
use fawkes_crypto::helpers::groth16::verifier::{truncate_verifying_key, TruncatedVerifyingKey};
use fawkes_crypto::core::cs::Circuit;
use fawkes_crypto::helpers::groth16::Groth16CS;
use fv::g16::*;
use fv::moncs::MonCS;
use fv::gen;
use fv::prog::JF;
use fv::refm::*;
use fv::{ensure, viol, Check, Ctx, Res};
use pairing::bls12_381::Bls12;
use pairing::bn256::Bn256;
use pairing::{CurveAffine, CurveProjective, Engine};

fn list<F: JF>(x: &[F]) -> String { x.iter().map(|e| tb(e).to_string()).collect::<Vec<_>>().join(",") }

/// library verdict against the pairing equation (and `exp` when known)
fn judge<En: Engine>(c: &mut Ctx, k: &TruncatedVerifyingKey<En>, p: &BP<En>, x: &[En::Fr], exp: Option<bool>, what: &str, check_eq: bool) -> Res
where En::Fr: JF {
    let pr = Proof(BP { a: p.a, b: p.b, c: p.c });
    let got = match lib_verdict(k, &pr, x) {
        Ok(Ok(g)) => g,
        Ok(Err(e)) => viol!("verification refuses ({}) a well-formed {} with {} inputs [{}]", e, what, x.len(), list(x)),
        Err(e) => viol!("verification fails with '{}' on {} with {} inputs [{}]", e, what, x.len(), list(x)),
    };
    c.obs(1);
    c.count(&format!("{}: {}", what, if got { "accepted" } else { "rejected" }), 1);
    if let Some(e) = exp {
        if e != got { viol!("verification says {} for {} with inputs [{}]", got, what, list(x)); }
    }
    if check_eq || exp.is_none() {
        let eq = equation::<En>(k, p, x);
        ensure!(c, eq == got, "verification says {} but the pairing equation {} for {} with inputs [{}]", got, if eq { "holds" } else { "does not hold" }, what, list(x));
    }
    Ok(())
}

/// keys and proofs with known logarithms: the expected verdict needs no pairing
fn logs<En: Engine>(c: &mut Ctx) -> Res
where En::Fr: JF {
    let n = match c.r.below(6) { 0 => 0, 1 => 1, 2 => if c.r.chance(1, 8) { *c.r.pick(&[63, 64, 65, 127, 128, 129, 255, 256, 257]) } else { c.r.range(8, 20) }, _ => c.r.range(1, 5) };
    let zeros = c.r.chance(1, 3);
    let mut l = Logs::<En::Fr>::random(&mut c.r, n, zeros);
    let base = l.clone();
    let d = |c: &mut Ctx, e: E<En::Fr>| match c.r.below(5) { 0 => e + E::one(), 1 => -e, 2 => E::zero(), 3 => e + e, _ => E(gen::shaped::<En::Fr>(&mut c.r)) };
    let what = match c.r.below(16) {
        0 | 1 => "valid proof",
        2 => { l.a = d(c, l.a); "changed A" }
        3 => { l.b = d(c, l.b); "changed B" }
        4 => { l.c = d(c, l.c); "changed C" }
        5 => { std::mem::swap(&mut l.a, &mut l.c); "swapped A and C" }
        6 => { l.a = -l.a; l.b = -l.b; "A and B negated" }
        7 => { let k = { let e = E(gen::uniform::<En::Fr>(&mut c.r)); if e.is_zero() { E::one() } else { e } }; l.a = l.a * k; l.b = l.b.div(k); "A and B rescaled" }
        8 | 9 if n > 0 => { let i = *c.r.pick(&[0, n - 1, c.iter % n]); l.x[i] = d(c, l.x[i]); "changed input" }
        10 if n > 1 => { let i = c.r.below(n - 1); l.x.swap(i, i + 1); "permuted inputs" }
        11 => { l.alpha = d(c, l.alpha); "changed alpha" }
        12 => { l.beta = d(c, l.beta); "changed beta" }
        13 => { l.gamma = d(c, l.gamma); "changed gamma" }
        14 => { l.delta = d(c, l.delta); "changed delta" }
        _ => { let i = c.r.below(l.ic.len()); l.ic[i] = d(c, l.ic[i]); "changed input base" }
    };
    let exp = l.holds();
    c.case(format!("{} {} {} {}", what, n, base.a.big(), l.sum().big()));
    let (k, p) = (key_of::<En>(&l), proof_of::<En>(&l));
    let x = frs(&l.x);
    let eq = c.r.chance(1, 4);
    judge::<En>(c, &k, &p, &x, Some(exp), what, eq)?;
    // a number of inputs that does not match the key is an error
    if c.r.chance(1, 3) {
        let pr = Proof(p);
        let mut tries: Vec<Vec<En::Fr>> = vec![];
        let mut y = x.clone();
        y.push(E::<En::Fr>::zero().0);
        tries.push(y.clone());
        y.push(E::<En::Fr>::one().0);
        tries.push(y);
        if n > 0 { tries.push(x[..n - 1].to_vec()); tries.push(vec![]); }
        for y in tries {
            if y.len() == n { continue; }
            let got = lib_verdict(&k, &pr, &y);
            ensure!(c, matches!(got, Ok(Err(_))), "{} inputs for a key of {} give {:?} instead of an error", y.len(), n, got);
            c.count("wrong number of inputs", 1);
        }
        let mut k0 = k.clone();
        k0.ic.clear();
        let got = lib_verdict(&k0, &pr, &[]);
        ensure!(c, matches!(got, Ok(Err(_))), "a key without input bases gives {:?} instead of an error", got);
    }
    Ok(())
}

/// real keys and proofs, tampered with
fn real<En: Engine>(c: &mut Ctx) -> Res
where En::Fr: JF {
    let len = c.r.range(4, 24);
    let s = script::<En::Fr>(&mut c.r, len, 0);
    c.case(s.show());
    let (w, x) = match witness(&mut c.r, &s, true) { Some(k) => k, None => { c.obs(1); return Ok(()); } };
    let p = keys::<En>(&s);
    let vk = truncate_verifying_key(&p.vk);
    let pr = match make_proof::<En>(&s, &w, &p) { Ok(p) => p, Err(e) => viol!("proving failed with '{}' for {}", e, s.show()) };
    let x = frs(&x);
    judge::<En>(c, &vk, &pr.0, &x, Some(true), "honest proof", false)?;
    // every single public input
    for i in 0..x.len() {
        let mut y = x.clone();
        let e = E(y[i]);
        y[i] = match c.r.below(4) { 0 => (-e).0, 1 => E::<En::Fr>::zero().0, 2 => (e + E::one()).0, _ => gen::shaped(&mut c.r) };
        if y[i] == x[i] { continue; }
        judge::<En>(c, &vk, &pr.0, &y, Some(false), "changed public input", false)?;
    }
    if x.len() > 1 {
        let i = c.r.below(x.len() - 1);
        let mut y = x.clone();
        y.swap(i, i + 1);
        if y != x { judge::<En>(c, &vk, &pr.0, &y, Some(false), "permuted public inputs", false)?; }
        y = x.clone();
        y.rotate_left(1);
        if y != x { judge::<En>(c, &vk, &pr.0, &y, Some(false), "rotated public inputs", false)?; }
    }
    // every proof element
    let add1 = |p: En::G1Affine| { let mut q = p.into_projective(); q.add_assign(&En::G1::one()); q.into_affine() };
    let add2 = |p: En::G2Affine| { let mut q = p.into_projective(); q.add_assign(&En::G2::one()); q.into_affine() };
    let neg1 = |mut p: En::G1Affine| { p.negate(); p };
    let neg2 = |mut p: En::G2Affine| { p.negate(); p };
    let o = &pr.0;
    let mut bad = vec![
        ("A moved", BP::<En> { a: add1(o.a), b: o.b, c: o.c }), ("B moved", BP { a: o.a, b: add2(o.b), c: o.c }), ("C moved", BP { a: o.a, b: o.b, c: add1(o.c) }),
        ("A negated", BP { a: neg1(o.a), b: o.b, c: o.c }), ("B negated", BP { a: o.a, b: neg2(o.b), c: o.c }), ("C negated", BP { a: o.a, b: o.b, c: neg1(o.c) }),
        ("A and C exchanged", BP { a: o.c, b: o.b, c: o.a }), ("A at infinity", BP { a: En::G1Affine::zero(), b: o.b, c: o.c }),
        ("B at infinity", BP { a: o.a, b: En::G2Affine::zero(), c: o.c }), ("C at infinity", BP { a: o.a, b: o.b, c: En::G1Affine::zero() }),
        ("all at infinity", BP { a: En::G1Affine::zero(), b: En::G2Affine::zero(), c: En::G1Affine::zero() }),
        ("the key's own points", BP { a: vk.alpha_g1, b: vk.beta_g2, c: o.c }),
        ("the key's own points, C at infinity", BP { a: vk.alpha_g1, b: vk.beta_g2, c: En::G1Affine::zero() }),
    ];
    let keep = if c.thorough { bad.len() } else { 4 };
    for _ in 0..keep {
        let i = c.r.below(bad.len());
        let (what, q) = bad.swap_remove(i);
        if q.a == o.a && q.b == o.b && q.c == o.c { continue; }
        judge::<En>(c, &vk, &q, &x, None, what, false)?;
    }
    let q = BP { a: neg1(o.a), b: neg2(o.b), c: o.c };
    judge::<En>(c, &vk, &q, &x, Some(true), "A and B negated (still valid)", false)?;
    // a key of another setup of the same circuit
    let p2 = keys::<En>(&s);
    let vk2 = truncate_verifying_key(&p2.vk);
    judge::<En>(c, &vk2, &pr.0, &x, Some(false), "key of another setup", false)?;
    let mut mixed = vk.clone();
    match c.r.below(5) { 0 => mixed.alpha_g1 = vk2.alpha_g1, 1 => mixed.beta_g2 = vk2.beta_g2, 2 => mixed.gamma_g2 = vk2.gamma_g2, 3 => mixed.delta_g2 = vk2.delta_g2, _ => { let i = c.r.below(mixed.ic.len()); mixed.ic[i] = vk2.ic[i] } }
    judge::<En>(c, &mixed, &pr.0, &x, None, "key mixed from two setups", false)?;
    // a proof made from a violating assignment
    if let Some((w, y)) = witness(&mut c.r, &s, false) {
        match make_proof::<En>(&s, &w, &p) {
            Err(_) => { c.obs(1); c.count("unsatisfying assignment: prover refuses", 1); }
            Ok(q) => {
                judge::<En>(c, &vk, &q.0, &frs(&y), Some(false), "proof from an unsatisfying assignment", false)?;
                if y.len() == x.len() { judge::<En>(c, &vk, &q.0, &x, Some(false), "the same with the honest inputs", false)?; }
            }
        }
    }
    Ok(())
}

/// a prover that cheats: it runs the real circuit but replaces the value of one variable
struct Cheat<'a, F: JF> { c: &'a SC<F>, at: (bool, usize), to: E<F> }
struct Tamper<'a, En: Engine, CS: bellman::ConstraintSystem<En>> where En::Fr: JF { cs: &'a mut CS, n: [usize; 2], at: (bool, usize), to: E<En::Fr> }
impl<'a, En: Engine, CS: bellman::ConstraintSystem<En>> bellman::ConstraintSystem<En> for Tamper<'a, En, CS> where En::Fr: JF {
    type Root = Self;
    fn alloc<F, A, AR>(&mut self, a: A, f: F) -> Result<bellman::Variable, bellman::SynthesisError>
    where F: FnOnce() -> Result<En::Fr, bellman::SynthesisError>, A: FnOnce() -> AR, AR: Into<String> {
        let hit = self.at == (false, self.n[0]);
        self.n[0] += 1;
        let to = self.to.0;
        self.cs.alloc(a, || if hit { Ok(to) } else { f() })
    }
    fn alloc_input<F, A, AR>(&mut self, a: A, f: F) -> Result<bellman::Variable, bellman::SynthesisError>
    where F: FnOnce() -> Result<En::Fr, bellman::SynthesisError>, A: FnOnce() -> AR, AR: Into<String> {
        let hit = self.at == (true, self.n[1]);
        self.n[1] += 1;
        let to = self.to.0;
        self.cs.alloc_input(a, || if hit { Ok(to) } else { f() })
    }
    fn enforce<A, AR, LA, LB, LC>(&mut self, n: A, a: LA, b: LB, c: LC)
    where A: FnOnce() -> AR, AR: Into<String>, LA: FnOnce(bellman::LinearCombination<En>) -> bellman::LinearCombination<En>,
        LB: FnOnce(bellman::LinearCombination<En>) -> bellman::LinearCombination<En>, LC: FnOnce(bellman::LinearCombination<En>) -> bellman::LinearCombination<En> {
        self.cs.enforce(n, a, b, c)
    }
    fn push_namespace<NR, N>(&mut self, _: N) where NR: Into<String>, N: FnOnce() -> NR {}
    fn pop_namespace(&mut self) {}
    fn get_root(&mut self) -> &mut Self::Root { self }
}
impl<'a, En: Engine> bellman::Circuit<En> for Cheat<'a, En::Fr> where En::Fr: JF {
    fn synthesize<CS: bellman::ConstraintSystem<En>>(self, cs: &mut CS) -> Result<(), bellman::SynthesisError> {
        let mut t = Tamper::<En, CS> { cs, n: [0, 0], at: self.at, to: self.to };
        let g = Groth16CS::<En, &mut Tamper<En, CS>>::new(&mut t);
        self.c.synthesize(&g);
        Ok(())
    }
}
fn cheats<En: Engine>(c: &mut Ctx) -> Res
where En::Fr: JF {
    let len = c.r.range(3, 14);
    let s = script::<En::Fr>(&mut c.r, len, 0);
    let (w, x) = match witness(&mut c.r, &s, true) { Some(k) => k, None => { c.obs(1); return Ok(()); } };
    c.case(s.show());
    let p = keys::<En>(&s);
    let vk = truncate_verifying_key(&p.vk);
    let circ = SC { script: s.clone(), w: Some(w) };
    let m = &MonCS::<En::Fr>::new();
    circ.synthesize(m);
    let sys = m.snapshot();
    let v = match sys.honest() { Some(v) => v, None => { c.obs(1); return Ok(()); } };
    for _ in 0..if c.thorough { 12 } else { 6 } {
        let inputs: Vec<usize> = (1..v.len()).filter(|k| sys.is_input[*k]).collect();
        if v.len() < 2 { c.obs(1); break; }
        let k = if !inputs.is_empty() && c.r.bool() { *c.r.pick(&inputs) } else { c.r.range(1, v.len() - 1) };
        let mut y = v.clone();
        y[k] = match c.r.below(4) { 0 => y[k] + E::one(), 1 => -y[k], 2 => E::zero(), _ => E(gen::shaped(&mut c.r)) };
        if y[k] == v[k] { continue; }
        let broken = sys.first_violated(&y).is_some();
        let input = sys.is_input[k];
        let at = (input, (1..k).filter(|j| sys.is_input[*j] == input).count());
        if input && s.published()[at.1] { ensure!(c, broken, "public input {} can be changed to {} without violating the circuit {}", k, y[k].big(), s.show()); }
        let mut rng = <rand::XorShiftRng as rand::SeedableRng<[u32; 4]>>::from_seed([c.r.u64() as u32, c.r.u64() as u32, 7, c.r.u64() as u32]);
        let q = match fv::engine::guard(|| bellman::groth16::create_random_proof(Cheat { c: &circ, at, to: y[k] }, &p, &mut rng)) {
            Ok(Ok(q)) => q,
            _ => { c.obs(1); c.count("cheating prover stopped", 1); continue; }
        };
        let mut z = x.clone();
        if input { z[at.1] = y[k]; }
        judge::<En>(c, &vk, &q, &frs(&z), Some(!broken), if input { "proof with a forged public input" } else { "proof with a forged private variable" }, false)?;
        if broken && input { judge::<En>(c, &vk, &q, &frs(&x), Some(false), "the same with the honest inputs", false)?; }
    }
    Ok(())
}

fn main() {
    Check::new("C21", "verdicts on keys and proofs with known discrete logarithms (expected verdict computed in the exponent) and on real proofs with every input, proof element, key element and setup altered and on proofs from violating assignments, each compared with the pairing equation evaluated pairing by pairing; distinct by circuit or instance")
        .add("real-bn", 30, 1500, real::<Bn256>)
        .add("real-bls", 16, 900, real::<Bls12>)
        .add("cheats-bn", 24, 1200, cheats::<Bn256>)
        .add("cheats-bls", 12, 600, cheats::<Bls12>)
        .add("logs-bn", 700, 20000, logs::<Bn256>)
        .add("logs-bls", 350, 10000, logs::<Bls12>)
        .run()
}
