//! Random circuits through the real Groth16 helpers, and an independent view of
//! keys, proofs and the verification equation.
use crate::engine::guard;
use crate::gen;
use crate::prog::{Op, Profile, Script, JF};
use crate::refm::*;
use crate::rng::R;
use fawkes_crypto::circuit::num::CNum;
use fawkes_crypto::core::cs::{Circuit, ConstraintSystem};
use fawkes_crypto::core::signal::Signal;
use fawkes_crypto::helpers::groth16::prover::{generate_keys, prove, Parameters, Proof};
use fawkes_crypto::helpers::groth16::verifier::{verify, TruncatedVerifyingKey};
use fawkes_crypto::native::num::Num;
use ff::{Field as FfField, PrimeField as FfPrimeField};
use num::bigint::BigUint;
use pairing::{CurveAffine, CurveProjective, Engine};
use std::any::Any;
use std::cell::RefCell;
use std::sync::Arc;

thread_local! { static CUR: RefCell<Option<Box<dyn Any>>> = RefCell::new(None); }

/// a script as a user's circuit
pub struct SC<F: JF> {
    pub script: Arc<Script<F>>,
    pub w: Option<Vec<E<F>>>,
}
impl<F: JF> Default for SC<F> {
    fn default() -> Self {
        CUR.with(|c| {
            let b = c.borrow();
            let s = b.as_ref().expect("script set").downcast_ref::<Arc<Script<F>>>().expect("script of this field").clone();
            SC { script: s, w: None }
        })
    }
}
impl<F: JF> SC<F> {
    /// every private variable has to occur in a constraint (the key generator's own precondition)
    fn touch<CS: ConstraintSystem<F = F>>(cs: &CS, x: &CNum<CS>) {
        if x.as_const().is_none() {
            cs.enforce(x, &CNum::one(cs), x);
        }
    }
}
impl<F: JF> Circuit for SC<F> {
    type F = F;
    fn synthesize<CS: ConstraintSystem<F = F>>(&self, cs: &CS) {
        let g = self.script.run(cs, self.w.as_ref().map(|w| &w[..]));
        for x in g.nums.iter() {
            Self::touch(cs, x);
        }
        for x in g.points.iter() {
            Self::touch(cs, &x.x);
            Self::touch(cs, &x.y);
        }
    }
    fn get_inputs(&self) -> Option<Vec<Num<F>>> {
        self.w.as_ref().map(|w| self.script.eval(w).unwrap().publics.iter().map(|e| Num(e.0)).collect())
    }
}

pub fn set_script<F: JF>(s: &Arc<Script<F>>) {
    let s = s.clone();
    CUR.with(|c| *c.borrow_mut() = Some(Box::new(s)));
}

pub fn keys<En: Engine>(s: &Arc<Script<En::Fr>>) -> Parameters<En>
where En::Fr: JF {
    set_script(s);
    generate_keys::<En, SC<En::Fr>>()
}

/// a script with the wanted number of published values, and satisfying witnesses
pub fn script<F: JF>(r: &mut R, len: usize, heavy: usize) -> Arc<Script<F>> {
    let inputs = r.chance(4, 5);
    let mut s = Script::<F>::random(r, Profile { len, heavy, inputs });
    let extra = match r.below(8) { 0 => 0, 1 => r.range(5, 14), _ => r.range(1, 4) };
    if inputs && extra > 0 {
        let w = s.witness(r, false);
        if let Some(e) = s.eval(&w) {
            for _ in 0..extra {
                s.ops.push(if r.chance(1, 6) && !e.bools.is_empty() { Op::InputizeBool(r.below(e.bools.len())) } else { Op::Inputize(r.below(e.nums.len())) });
            }
        }
    }
    Arc::new(s)
}
/// witness in the circuit's domain; None when ten attempts fail
pub fn witness<F: JF>(r: &mut R, s: &Script<F>, sat: bool) -> Option<(Vec<E<F>>, Vec<E<F>>)> {
    for _ in 0..20 {
        let w = s.witness(r, !sat);
        if let Some(e) = s.eval(&w) {
            if e.sat == sat {
                return Some((w, e.publics));
            }
        }
    }
    None
}
pub fn make_proof<En: Engine>(s: &Arc<Script<En::Fr>>, w: &[E<En::Fr>], p: &Parameters<En>) -> Result<Proof<En>, String>
where En::Fr: JF {
    let c = SC { script: s.clone(), w: Some(w.to_vec()) };
    guard(|| prove::<En, SC<En::Fr>>(&c, p))
}
pub fn frs<F: JF>(v: &[E<F>]) -> Vec<F> { v.iter().map(|e| e.0).collect() }

/// the verdict of the library: Ok(bool) or the refusal
pub fn lib_verdict<En: Engine>(k: &TruncatedVerifyingKey<En>, p: &Proof<En>, x: &[En::Fr]) -> Result<Result<bool, String>, String> {
    guard(|| verify(k, p, x).map_err(|e| format!("{:?}", e)))
}

fn mul_add<G: CurveProjective>(p: &G, k: &BigUint) -> G {
    let mut acc = G::zero();
    for i in (0..k.bits()).rev() {
        acc.double();
        if ((k >> i) & BigUint::from(1u32)) == BigUint::from(1u32) {
            acc.add_assign(p);
        }
    }
    acc
}

/// e(A,B) == e(alpha,beta) e(sum,gamma) e(C,delta), pairing by pairing
pub fn equation<En: Engine>(k: &TruncatedVerifyingKey<En>, p: &bellman::groth16::Proof<En>, x: &[En::Fr]) -> bool {
    let mut acc = k.ic[0].into_projective();
    for (i, v) in x.iter().enumerate() {
        let t = mul_add(&k.ic[i + 1].into_projective(), &tb(v));
        acc.add_assign(&t);
    }
    let l = En::pairing(p.a, p.b);
    let mut r = En::pairing(k.alpha_g1, k.beta_g2);
    let s = En::pairing(acc.into_affine(), k.gamma_g2);
    let t = En::pairing(p.c, k.delta_g2);
    r.mul_assign(&s);
    r.mul_assign(&t);
    l == r
}

/// a key and proof with known discrete logarithms
#[derive(Clone)]
pub struct Logs<F: RefField> {
    pub alpha: E<F>, pub beta: E<F>, pub gamma: E<F>, pub delta: E<F>,
    pub ic: Vec<E<F>>, pub a: E<F>, pub b: E<F>, pub c: E<F>, pub x: Vec<E<F>>,
}
fn nz<F: RefField>(r: &mut R) -> E<F> {
    loop {
        let e = E(gen::shaped::<F>(r));
        if !e.is_zero() { return e; }
    }
}
impl<F: RefField> Logs<F> {
    /// a satisfying instance with n inputs
    pub fn random(r: &mut R, n: usize, zeros: bool) -> Self {
        let z = |r: &mut R| if zeros && r.chance(1, 6) { E::zero() } else { nz(r) };
        let mut l = Logs {
            alpha: z(r), beta: z(r), gamma: z(r), delta: nz(r),
            ic: (0..=n).map(|_| z(r)).collect(), a: z(r), b: z(r), c: E::zero(), x: (0..n).map(|_| E(gen::shaped::<F>(r))).collect(),
        };
        l.c = (l.a * l.b - l.alpha * l.beta - l.gamma * l.sum()).div(l.delta);
        l
    }
    pub fn sum(&self) -> E<F> {
        self.x.iter().zip(self.ic.iter().skip(1)).fold(self.ic[0], |s, (x, i)| s + *x * *i)
    }
    pub fn holds(&self) -> bool {
        self.a * self.b == self.alpha * self.beta + self.gamma * self.sum() + self.delta * self.c
    }
}
pub fn g1<En: Engine>(k: E<En::Fr>) -> En::G1Affine where En::Fr: RefField {
    En::G1Affine::one().mul(k.0.into_repr()).into_affine()
}
pub fn g2<En: Engine>(k: E<En::Fr>) -> En::G2Affine where En::Fr: RefField {
    En::G2Affine::one().mul(k.0.into_repr()).into_affine()
}
pub fn key_of<En: Engine>(l: &Logs<En::Fr>) -> TruncatedVerifyingKey<En> where En::Fr: RefField {
    TruncatedVerifyingKey {
        alpha_g1: g1::<En>(l.alpha), beta_g2: g2::<En>(l.beta), gamma_g2: g2::<En>(l.gamma), delta_g2: g2::<En>(l.delta),
        ic: l.ic.iter().map(|i| g1::<En>(*i)).collect(),
    }
}
pub fn proof_of<En: Engine>(l: &Logs<En::Fr>) -> bellman::groth16::Proof<En> where En::Fr: RefField {
    bellman::groth16::Proof { a: g1::<En>(l.a), b: g2::<En>(l.b), c: g1::<En>(l.c) }
}
