//! Small pieces of work that together touch the whole public interface, light
//! enough for an undefined-behaviour interpreter. Each also checks that
//! out-of-range requests are refused.
use crate::engine::guard;
use crate::prog::{Profile, Script, JF};
use crate::refm::*;
use crate::rng::R;
use crate::wei::{self, PC};
use bellman::{ConstraintSystem as BCS, Index as BIndex, LinearCombination, SynthesisError, Variable};
use borsh::{BorshDeserialize, BorshSerialize};
use fawkes_crypto::circuit::bitify::*;
use fawkes_crypto::circuit::bool::CBool;
use fawkes_crypto::circuit::mux::c_mux3;
use fawkes_crypto::circuit::num::CNum;
use fawkes_crypto::circuit::poseidon::*;
use fawkes_crypto::core::cs::{ConstraintSystem, TestCS};
use fawkes_crypto::core::seedbox::SeedboxBlake2;
use fawkes_crypto::core::signal::Signal;
use fawkes_crypto::core::sizedvec::SizedVec;
use fawkes_crypto::helpers::groth16::Groth16CS;
use fawkes_crypto::native::num::Num;
use fawkes_crypto::native::poseidon::*;
use pairing::bls12_381::Bls12;
use pairing::bn256::Bn256;
use pairing::{CurveAffine, CurveProjective, Engine};
use rand::Rng;
use std::marker::PhantomData;
use typenum::{U1, U2, U3, U5};

pub type Out = Result<u64, String>;
macro_rules! must { ($n:expr, $c:expr, $($t:tt)*) => { $n += 1; if !$c { return Err(format!($($t)*)); } } }
macro_rules! refuse { ($n:expr, $e:expr, $($t:tt)*) => { $n += 1; if let Ok(_) = guard(|| { let _ = $e; }) { return Err(format!("{} is not refused", format!($($t)*))); } } }

/// a backend that walks over everything it is given
pub struct Walk<En: Engine> { pub nin: usize, pub naux: usize, pub sum: En::Fr, pub terms: u64, ph: PhantomData<En> }
impl<En: Engine> Walk<En> { pub fn new() -> Self { use ff::Field; Walk { nin: 1, naux: 0, sum: En::Fr::zero(), terms: 0, ph: PhantomData } } }
impl<En: Engine> BCS<En> for Walk<En> {
    type Root = Self;
    fn alloc<F, A, AR>(&mut self, a: A, f: F) -> Result<Variable, SynthesisError>
    where F: FnOnce() -> Result<En::Fr, SynthesisError>, A: FnOnce() -> AR, AR: Into<String> {
        use ff::Field;
        let _: String = a().into();
        if let Ok(v) = f() { self.sum.add_assign(&v); }
        self.naux += 1;
        Ok(Variable::new_unchecked(BIndex::Aux(self.naux - 1)))
    }
    fn alloc_input<F, A, AR>(&mut self, a: A, f: F) -> Result<Variable, SynthesisError>
    where F: FnOnce() -> Result<En::Fr, SynthesisError>, A: FnOnce() -> AR, AR: Into<String> {
        use ff::Field;
        let _: String = a().into();
        if let Ok(v) = f() { self.sum.add_assign(&v); }
        self.nin += 1;
        Ok(Variable::new_unchecked(BIndex::Input(self.nin - 1)))
    }
    fn enforce<A, AR, LA, LB, LC>(&mut self, an: A, a: LA, b: LB, c: LC)
    where A: FnOnce() -> AR, AR: Into<String>, LA: FnOnce(LinearCombination<En>) -> LinearCombination<En>,
        LB: FnOnce(LinearCombination<En>) -> LinearCombination<En>, LC: FnOnce(LinearCombination<En>) -> LinearCombination<En> {
        use ff::Field;
        let _: String = an().into();
        let z = LinearCombination::zero;
        for l in [a(z()), b(z()), c(z())].iter() {
            for (v, k) in l.as_ref() {
                // reads every byte of the reinterpreted terms
                match v.get_unchecked() { BIndex::Input(i) => assert!(i < self.nin), BIndex::Aux(i) => assert!(i < self.naux) }
                self.sum.add_assign(k);
                self.terms += 1;
            }
        }
        // combined with others and grown, as a prover does
        let mut g = z();
        g = g + Variable::new_unchecked(BIndex::Input(0));
        let _ = g + (self.sum, Variable::new_unchecked(BIndex::Input(0)));
    }
    fn push_namespace<NR, N>(&mut self, _: N) where NR: Into<String>, N: FnOnce() -> NR {}
    fn pop_namespace(&mut self) {}
    fn get_root(&mut self) -> &mut Self::Root { self }
}

/// a light circuit on random operations, for interpreters
pub fn mini<'a, F: JF, CS: ConstraintSystem<F = F>>(cs: &'a CS, r: &mut R, with: bool) -> usize {
    let num = |r: &mut R| Num::<F>::from(r.u64() >> r.below(60));
    let mut v: Vec<CNum<'a, CS>> = vec![];
    for _ in 0..3 {
        let x = num(r);
        v.push(CNum::alloc(cs, if with { Some(&x) } else { None }));
    }
    v.push(CNum::from_const(cs, &num(r)));
    v.push(CNum::zero(cs));
    for _ in 0..r.range(6, 16) {
        let (a, b) = (v[r.below(v.len())].clone(), v[r.below(v.len())].clone());
        let x = match r.below(12) {
            0 => a + b, 1 => &a + &b, 2 => a - &b, 3 => &a - b, 4 => a * b, 5 => &a * &b, 6 => -a,
            7 => a * num(r), 8 => num(r) - &b,
            9 => { a.inputize(); a }
            10 => { let mut c = a.clone(); c += &b; c -= num(r); c *= &a; c }
            _ => { let t = a.is_zero(); a.switch(&t, &b) }
        };
        if r.chance(1, 3) { let k = r.below(v.len()); v[k] = x; } else { v.push(x); }
        if v.len() > 6 { v.remove(r.below(4)); }
    }
    let t = v.iter().map(|x| x.lc.iter().count()).sum();
    let s = (v[0].clone(), v[1].clone());
    let d = s.switch(&CBool::from_const(cs, &true), &(v[2].clone(), v[3].clone()));
    d.inputize();
    v.reverse();
    drop(v);
    t
}
/// conversions of single points, without the long subgroup checks
pub fn mini_points<C: PC>(r: &mut R) -> Out where C::Fr: JF {
    let mut n = 0;
    let (g1, g2) = (C::G1Affine::one(), C::G2Affine::one());
    let mut m1 = g1;
    m1.negate();
    let bls = C::ZCASH;
    let p = bellman::groth16::Proof::<C> { a: if bls || r.bool() { C::G1Affine::zero() } else { g1 }, b: C::G2Affine::zero(), c: if bls { C::G1Affine::zero() } else { m1 } };
    let lp = fawkes_crypto::helpers::groth16::prover::Proof(p);
    let d = C::proof_data(&lp);
    let s = serde_json::to_string(&d).map_err(|e| e.to_string())?;
    let d2: fawkes_crypto::helpers::groth16::prover::ProofData<C::Q> = serde_json::from_str(&s).map_err(|e| e.to_string())?;
    must!(n, d == d2, "proof data changes in JSON");
    let q = C::proof_from(&d2);
    must!(n, q.0.a == lp.0.a && q.0.b == lp.0.b && q.0.c == lp.0.c, "proof changes through point data");
    let mut t = q.0.a.into_projective();
    t.add_assign_mixed(&q.0.c);
    // point data of a full proof, never read back here
    let full = fawkes_crypto::helpers::groth16::prover::Proof(bellman::groth16::Proof::<C> { a: g1, b: g2, c: m1 });
    let d = C::proof_data(&full);
    let slots = wei::proof_slots::<C>(&full.0);
    must!(n, serde_json::to_string(&d).map_err(|e| e.to_string())? == wei::proof_json(&slots), "point data of the generators");
    Ok(n)
}
/// one nonzero point of the second group through point data
pub fn mini_g2<C: PC>(_: &mut R) -> Out where C::Fr: JF {
    let mut n = 0;
    let lp = fawkes_crypto::helpers::groth16::prover::Proof(bellman::groth16::Proof::<C> { a: C::G1Affine::zero(), b: C::G2Affine::one(), c: C::G1Affine::zero() });
    let q = C::proof_from(&C::proof_data(&lp));
    must!(n, q.0.b == lp.0.b && q.0.a == lp.0.a, "a point of the second group changes through point data");
    Ok(n)
}
pub fn mini_g1<C: PC>(_: &mut R) -> Out where C::Fr: JF {
    let mut n = 0;
    let lp = fawkes_crypto::helpers::groth16::prover::Proof(bellman::groth16::Proof::<C> { a: C::G1Affine::one(), b: C::G2Affine::zero(), c: C::G1Affine::zero() });
    let q = C::proof_from(&C::proof_data(&lp));
    must!(n, q.0.a == lp.0.a, "a point of the first group changes through point data");
    Ok(n)
}
pub fn mini_bridge<En: Engine>(r: &mut R) -> Out where En::Fr: JF {
    let mut b = Walk::<En>::new();
    let with = r.chance(3, 4);
    {
        let cs = Groth16CS::<En, &mut Walk<En>>::new(&mut b);
        mini::<En::Fr, _>(&cs, r, with);
    }
    Ok(b.terms + 1)
}
pub fn mini_program<F: JF>(r: &mut R) -> Out {
    let cs = TestCS::<F>::new();
    let with = r.chance(3, 4);
    Ok(1 + mini::<F, _>(&cs, r, with) as u64)
}
pub fn mini_vectors<F: JF>(r: &mut R) -> Out { vectors::<F>(r) }

pub fn points<C: PC>(r: &mut R) -> Out where C::Fr: JF {
    let mut n = 0;
    let z1 = C::G1Affine::zero();
    let z2 = C::G2Affine::zero();
    let small = |k: u64| { let mut a = C::G1::zero(); for _ in 0..k { a.add_assign(&C::G1::one()); } a.into_affine() };
    let small2 = |k: u64| { let mut a = C::G2::zero(); for _ in 0..k { a.add_assign(&C::G2::one()); } a.into_affine() };
    let m = r.below(4) as u64;
    let p = bellman::groth16::Proof::<C> { a: if r.chance(1, 3) { z1 } else { small(m + 1) }, b: if r.chance(1, 3) { z2 } else { small2(m + 1) }, c: small(m) };
    let lp = fawkes_crypto::helpers::groth16::prover::Proof(p);
    let d = C::proof_data(&lp);
    let s = serde_json::to_string(&d).map_err(|e| e.to_string())?;
    let d2: fawkes_crypto::helpers::groth16::prover::ProofData<C::Q> = serde_json::from_str(&s).map_err(|e| e.to_string())?;
    must!(n, d == d2, "proof data changes in JSON");
    let q = C::proof_from(&d2);
    must!(n, q.0.a == lp.0.a && q.0.b == lp.0.b && q.0.c == lp.0.c, "proof changes through point data");
    // the converted points are used, not only compared
    let mut t = q.0.a.into_projective();
    t.add_assign_mixed(&lp.0.c);
    t.double();
    let mut u = q.0.b.into_projective();
    u.double();
    let _ = (t.into_affine(), u.into_affine());
    let key = fawkes_crypto::helpers::groth16::verifier::TruncatedVerifyingKey::<C> { alpha_g1: small(2), beta_g2: small2(1), gamma_g2: z2, delta_g2: small2(2), ic: (0..r.below(3) as u64 + 1).map(|i| small(i)).collect() };
    let kd = C::key_data(&key);
    let k2 = C::key_from(&kd);
    must!(n, k2.ic == key.ic && k2.beta_g2 == key.beta_g2 && k2.gamma_g2 == key.gamma_g2, "key changes through point data");
    // malformed point data are refused without reading anything odd
    let mut t = wei::proof_slots::<C>(&lp.0);
    { let c = t[0].coords_mut(); c[0] = &c[0] + 1u32; }
    if t[0].coords()[0] < C::Q::p() && !t[0].is_zero() {
        let j = wei::proof_json(&t);
        // the curve equation is enough to know: y^2 = x^3 + b has no two neighbouring x with one y here
        match serde_json::from_str::<fawkes_crypto::helpers::groth16::prover::ProofData<C::Q>>(&j) {
            Ok(d) => {
                let (x, y) = (E::<C::Q>(fb(&t[0].coords()[0])), E::<C::Q>(fb(&t[0].coords()[1])));
                if y * y != x * x * x + C::b1() { refuse!(n, C::proof_from(&d), "a point off the curve"); }
            }
            Err(e) => return Err(format!("point data in range are refused: {}", e)),
        }
    }
    Ok(n)
}
pub fn bridge<En: Engine>(r: &mut R) -> Out where En::Fr: JF {
    let p = Profile { len: r.range(4, 16), heavy: 0, inputs: true };
    let s = Script::<En::Fr>::random(r, p);
    let w = s.witness(r, false);
    let with = s.eval(&w).is_some() && r.chance(3, 4);
    let mut b = Walk::<En>::new();
    {
        let cs = Groth16CS::<En, &mut Walk<En>>::new(&mut b);
        let _ = s.run(&cs, if with { Some(&w[..]) } else { None });
    }
    Ok(b.terms + 1)
}
pub fn program<F: JF>(r: &mut R) -> Out {
    let p = Profile { len: r.range(5, 20), heavy: 0, inputs: true };
    let s = Script::<F>::random(r, p);
    let w = s.witness(r, false);
    let cs = TestCS::<F>::new();
    let with = s.eval(&w).map(|e| e.sat).unwrap_or(false);
    let g = s.run(&cs, if with { Some(&w[..]) } else { None });
    // linear forms are cloned, walked, combined and dropped in mixed order
    let mut acc = CNum::<TestCS<F>>::zero(&cs);
    let mut kept = vec![];
    for (i, x) in g.nums.iter().enumerate() {
        acc = if i % 2 == 0 { &acc + x } else { acc - x.clone() };
        if i % 3 == 0 { kept.push(acc.clone()); }
        if i % 5 == 4 { kept.swap_remove(0); }
    }
    let t: usize = kept.iter().map(|k| k.lc.iter().count()).sum();
    drop(g);
    drop(acc);
    Ok(t as u64 + 1)
}
pub fn vectors<F: JF>(r: &mut R) -> Out {
    let mut n = 0;
    let v: Vec<Num<F>> = (0..5).map(|_| light(r)).collect();
    let mut s = v.iter().cloned().collect::<SizedVec<Num<F>, U5>>();
    for i in 0..5 { must!(n, s[i] == v[i], "element {} of a vector", i); }
    must!(n, s[1..4].len() == 3 && s[..].len() == 5 && s.iter().count() == 5, "ranges of a vector");
    s[4] = Num::one();
    for x in s.iter_mut() { *x = x.double(); }
    let far = *r.pick(&[5usize, 6, 64, usize::MAX, usize::MAX / 2, usize::MAX / 32 + 1]);
    refuse!(n, s[far], "index {} of a vector of 5", far);
    refuse!(n, { s[far] = Num::one(); }, "writing index {} of a vector of 5", far);
    let past = far.max(6);
    refuse!(n, s[2..past].len(), "range 2..{} of a vector of 5", past);
    refuse!(n, s[past..].len(), "range {}.. of a vector of 5", past);
    let e = SizedVec::<u64, U1>(vec![7], PhantomData);
    refuse!(n, e[1], "index 1 of a vector of 1");
    refuse!(n, v.iter().take(4).cloned().collect::<SizedVec<Num<F>, U5>>(), "a vector of 5 made of 4 elements");
    refuse!(n, v.iter().chain(v.iter()).cloned().collect::<SizedVec<Num<F>, U5>>(), "a vector of 5 made of 10 elements");
    let j = serde_json::to_string(&s).map_err(|e| e.to_string())?;
    must!(n, serde_json::from_str::<SizedVec<Num<F>, U5>>(&j).is_ok(), "a vector does not read back");
    must!(n, serde_json::from_str::<SizedVec<Num<F>, U3>>(&j).is_err(), "a vector of 5 read as one of 3 is not refused");
    let cs = TestCS::<F>::new();
    let c = SizedVec::<CNum<TestCS<F>>, U5>::alloc(&cs, Some(&s));
    refuse!(n, c[far].get_value(), "index {} of a signal vector of 5", far);
    let b = c.is_eq(&c);
    must!(n, b.get_value() == Some(true) && c.linearize().len() == 5, "a vector of signals");
    let d = c.switch(&b, &c.derive_const(&s));
    must!(n, d.get_value().map(|x| x.0 == s.0) == Some(true), "selection of vectors");
    Ok(n)
}
pub fn gadgets<F: JF>(r: &mut R) -> Out {
    let mut n = 0;
    let cs = TestCS::<F>::new();
    let bits = F::NUM_BITS as usize;
    let v = Num::<F>::from(r.u64() & 0xff);
    let x = CNum::<TestCS<F>>::alloc(&cs, Some(&v));
    let b = c_into_bits_le(&x, 8);
    must!(n, c_from_bits_le(&b).get_value() == Some(v), "bits");
    // beyond the stored representation (between the field's width and that, a value decomposes)
    let over = (bits + 63) / 64 * 64 + 1 + r.below(300);
    refuse!(n, c_into_bits_le(&x, over), "decomposition into {} bits of a {} bit field", over, bits);
    refuse!(n, c_into_bits_le(&x.derive_const::<CNum<_>>(&v), over), "constant decomposition into {} bits of a {} bit field", over, bits);
    let t: Vec<Vec<Num<F>>> = (0..2).map(|_| (0..8).map(|_| light(r)).collect()).collect();
    let m = c_mux3(&b[..3], &t);
    must!(n, m.len() == 2 && m[0].get_value().is_some(), "selection");
    refuse!(n, c_mux3(&b[..2], &t), "selection by 2 bits");
    refuse!(n, c_mux3(&b[..4], &t), "selection by 4 bits");
    refuse!(n, c_mux3(&b[..3], &[t[0][..7].to_vec()]), "selection from 7 constants");
    let mut t9 = t[0].clone();
    t9.push(Num::one());
    refuse!(n, c_mux3(&b[..3], &[t[0].clone(), t9]), "selection from 9 constants");
    refuse!(n, c_comp_constant::<TestCS<F>>(&[], v), "comparison of no bits");
    let pp = PoseidonParams::<F>::new(3, 2, 1);
    let xs: Vec<CNum<TestCS<F>>> = (0..4).map(|_| x.clone()).collect();
    let h = c_poseidon(&xs[..2], &pp);
    must!(n, h.get_value() == Some(poseidon(&[v, v], &pp)), "hash");
    refuse!(n, c_poseidon(&xs[..4], &pp), "hash of 4 signals of width 3");
    refuse!(n, c_poseidon::<TestCS<F>>(&[], &pp), "hash of no signals");
    refuse!(n, c_poseidon_with_salt(&xs[..3], b"x", &pp), "salted hash of 3 signals of width 3");
    refuse!(n, c_poseidon_merkle_tree_root::<TestCS<F>>(&[], &pp), "tree of no signals");
    refuse!(n, poseidon(&[v; 4], &pp), "hash of 4 numbers of width 3");
    refuse!(n, poseidon::<F>(&[], &pp), "hash of no numbers");
    refuse!(n, poseidon_with_salt(&[v; 3], b"x", &pp), "salted hash of 3 numbers of width 3");
    refuse!(n, poseidon_merkle_tree_root::<F>(&[], &pp), "tree of no numbers");
    let k = r.range(1, 4);
    let leaves: Vec<Num<F>> = (0..k).map(|i| Num::from(i as u64)).collect();
    must!(n, c_poseidon_merkle_tree_root(&leaves.iter().map(|l| CNum::alloc(&cs, Some(l))).collect::<Vec<_>>(), &pp).get_value() == Some(poseidon_merkle_tree_root(&leaves, &pp)), "tree of {}", k);
    let mp = MerkleProof::<F, U2> { sibling: (0..2).map(|_| light(r)).collect(), path: (0..2).map(|_| r.bool()).collect() };
    let cp = CMerkleProof::alloc(&cs, Some(&mp));
    must!(n, c_poseidon_merkle_proof_root(&x, &cp, &pp).get_value() == Some(poseidon_merkle_proof_root(v, &mp, &pp)), "membership");
    let e = CBool::<TestCS<F>>::alloc(&cs, Some(&true));
    must!(n, e.get_value() == Some(true), "boolean");
    refuse!(n, CNum::<TestCS<F>>::from_const(&cs, &Num::one()) / CNum::from_const(&cs, &Num::zero()), "division by zero");
    Ok(n)
}
pub fn native<F: JF>(r: &mut R) -> Out {
    let mut n = 0;
    let l = r.below(70);
    let b = r.bytes(l);
    let x = Num::<F>::from_binary_be(&b);
    must!(n, Num::<F>::from_binary_be(&x.into_binary_be()) == x, "bytes");
    must!(n, x.iterbit_le().count() >= F::NUM_BITS as usize && x.iterbit_be().count() >= F::NUM_BITS as usize, "bits");
    let s = x.to_string();
    must!(n, s == tb(&x.0).to_string(), "decimal form");
    let y = x.try_to_vec().map_err(|e| e.to_string())?;
    must!(n, Num::<F>::try_from_slice(&y).map(|z| z == x).unwrap_or(false), "borsh form");
    for k in 0..y.len().min(6) { must!(n, Num::<F>::try_from_slice(&y[..y.len() - 1 - k]).is_err(), "short borsh form is not refused"); }
    must!(n, Num::<F>::try_from_slice(&vec![0xff; y.len()]).is_err(), "borsh form not below the prime is not refused");
    let mut g = SeedboxBlake2::new();
    let _: (u32, Num<F>) = (g.gen(), g.gen());
    let mut g = SeedboxBlake2::new_with_salt(&b);
    let mut buf = vec![0u8; r.below(90)];
    g.fill_bytes(&mut buf);
    let _: Num<F> = g.gen();
    let _ = (g.next_u32(), g.next_u64(), Num::<F>::from_seed(&b[..b.len().min(32)]));
    refuse!(n, Num::<F>::one() / Num::zero(), "division by zero");
    must!(n, serde_json::from_str::<Num<F>>(&format!("\"{}\"", F::p())).is_err(), "number not below the prime is not refused");
    Ok(n)
}

/// several threads at once, judged for data races and against the same work done alone
pub fn threads<C: PC>(r: &mut R) -> Out where C::Fr: JF {
    fn piece<C: PC>(k: usize, s: u64) -> Out where C::Fr: JF {
        let mut r = R::new(s);
        match k {
            0 => native::<C::Fr>(&mut r),
            1 => mini_program::<C::Fr>(&mut r),
            2 => mini_points::<C>(&mut r),
            3 => mini_bridge::<C>(&mut r),
            _ => vectors::<C::Fr>(&mut r),
        }
    }
    let same = r.chance(1, 3);
    let (k0, s0) = (r.below(5), r.u64());
    let w: Vec<(usize, u64)> = (0..2 + r.below(2)).map(|_| if same { (k0, s0) } else { (*r.pick(&[k0, 0, 0, 1, 4]), r.u64()) }).collect();
    let h: Vec<_> = w.iter().map(|&(k, s)| std::thread::spawn(move || guard(|| piece::<C>(k, s)))).collect();
    let mut n = 0;
    let got: Vec<_> = h.into_iter().map(|h| h.join()).collect();
    for (&(k, s), g) in w.iter().zip(got) {
        let g = match g { Ok(Ok(g)) => g?, Ok(Err(e)) => return Err(format!("piece {} fails in a thread: {}", k, e)), Err(_) => return Err(format!("piece {} fails in a thread", k)) };
        if !cfg!(miri) || same { let alone = piece::<C>(k, s)?; must!(n, alone == g, "piece {} does something else in a thread", k); }
        n += g;
    }
    Ok(n)
}

pub type Job = (&'static str, fn(&mut R) -> Out);
pub fn jobs() -> Vec<Job> {
    vec![
        ("points_bn", points::<Bn256> as fn(&mut R) -> Out), ("points_bls", points::<Bls12>),
        ("bridge_bn", bridge::<Bn256>), ("bridge_bls", bridge::<Bls12>),
        ("program_bn", program::<BnFr>), ("program_bls", program::<BlsFr>),
        ("vectors_bn", vectors::<BnFr>), ("vectors_bls", vectors::<BlsFr>),
        ("gadgets_bn", gadgets::<BnFr>), ("gadgets_bls", gadgets::<BlsFr>),
        ("native_bn", native::<BnFr>), ("native_bls", native::<BlsFr>),
        ("threads_bn", threads::<Bn256>), ("threads_bls", threads::<Bls12>),
    ]
}
/// the light ones, for interpreters
pub fn mini_jobs() -> Vec<Job> {
    vec![
        ("bridge_bn", mini_bridge::<Bn256> as fn(&mut R) -> Out), ("bridge_bls", mini_bridge::<Bls12>),
        ("program_bn", mini_program::<BnFr>), ("points_bn", mini_points::<Bn256>),
        ("points_bls", mini_points::<Bls12>), ("vectors_bn", vectors::<BnFr>),
        ("native_bls", native::<BlsFr>), ("program_bls", mini_program::<BlsFr>),
        ("vectors_bls", vectors::<BlsFr>), ("native_bn", native::<BnFr>),
        ("threads_bn", threads::<Bn256>), ("threads_bls", threads::<Bls12>),
    ]
}
/// one each of the long ones
pub fn long_jobs() -> Vec<Job> {
    vec![
        ("gadgets_bn", gadgets::<BnFr> as fn(&mut R) -> Out), ("g2_bn", mini_g2::<Bn256>), ("g1_bls", mini_g1::<Bls12>),
        ("g2_bls", mini_g2::<Bls12>), ("gadgets_bls", gadgets::<BlsFr>),
    ]
}
fn light<F: JF>(r: &mut R) -> Num<F> {
    let x = Num::from(r.u64() >> r.below(64));
    match r.below(4) { 0 => -x, 1 => x * Num::from(r.u64()) * Num::from(r.u64()), _ => x }
}
