//! Random circuits as data: one script runs on any constraint system (with or
//! without witness values) and, independently, on plain reference values.
use crate::ed::{bls_curve, bn_curve, Curve, Pt};
use crate::gen;
use crate::refm::*;
use crate::rng::R;
use fawkes_crypto::circuit::bitify::*;
use fawkes_crypto::circuit::bool::CBool;
use fawkes_crypto::circuit::ecc::CEdwardsPoint;
use fawkes_crypto::circuit::eddsaposeidon::c_eddsaposeidon_verify;
use fawkes_crypto::circuit::mux::c_mux3;
use fawkes_crypto::circuit::num::CNum;
use fawkes_crypto::circuit::poseidon::*;
use fawkes_crypto::core::cs::ConstraintSystem;
use fawkes_crypto::core::field::Field;
use fawkes_crypto::core::signal::Signal;
use fawkes_crypto::core::sizedvec::SizedVec;
use fawkes_crypto::native::bls12_381::JubJubBLS12_381;
use fawkes_crypto::native::bn256::JubJubBN256;
use fawkes_crypto::native::ecc::{EdwardsPoint, JubJubParams};
use fawkes_crypto::native::num::Num;
use fawkes_crypto::native::poseidon::PoseidonParams;
use num::bigint::BigUint;
use num::One;
use std::sync::OnceLock;
use typenum::U3;

/// a circuit field with its embedded curve, real and reference side
pub trait JF: RefField + Field {
    type S: RefField + Field;
    type J: JubJubParams<Fr = Self, Fs = Self::S> + Sync + Send + 'static;
    fn jj() -> &'static Self::J;
    fn curve() -> &'static Curve<Self>;
    fn pos(i: usize) -> &'static (PoseidonParams<Self>, RefPoseidon<Self>);
}
/// (t, f, p): two cheap sets for structure, and the published ones
pub const POS: [(usize, usize, usize); 6] = [(3, 2, 1), (4, 2, 3), (3, 8, 53), (4, 8, 54), (5, 4, 2), (2, 3, 2)];

macro_rules! jf {
    ($f:ty, $s:ty, $j:ty, $new:expr, $cu:expr) => {
        impl JF for $f {
            type S = $s;
            type J = $j;
            fn jj() -> &'static $j {
                static C: OnceLock<$j> = OnceLock::new();
                C.get_or_init(|| $new)
            }
            fn curve() -> &'static Curve<$f> {
                static C: OnceLock<Curve<$f>> = OnceLock::new();
                C.get_or_init(|| $cu)
            }
            fn pos(i: usize) -> &'static (PoseidonParams<$f>, RefPoseidon<$f>) {
                static C: OnceLock<Vec<(PoseidonParams<$f>, RefPoseidon<$f>)>> = OnceLock::new();
                &C.get_or_init(|| POS.iter().map(|(t, f, p)| (PoseidonParams::new(*t, *f, *p), RefPoseidon::new(*t, *f, *p))).collect())[i]
            }
        }
    };
}
jf!(BnFr, BnFs, JubJubBN256, JubJubBN256::new(), bn_curve());
jf!(BlsFr, BlsFs, JubJubBLS12_381, JubJubBLS12_381::new(), bls_curve());

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Claim {
    Eq,
    Zero,
    Const,
    Bit,
    NonZero,
    IsEq,
    BoolEq,
}

#[derive(Clone, Debug)]
pub enum Op<F: RefField> {
    Const(F),
    Alloc(usize),
    InputVar(usize),
    Add(usize, usize),
    Sub(usize, usize),
    Mul(usize, usize),
    Neg(usize),
    Square(usize),
    AddN(usize, F),
    NSub(F, usize),
    MulN(usize, F),
    DivN(usize, F),
    /// a / (b^2 + u), never dividing by zero
    Div(usize, usize),
    /// constant / (b^2 + u)
    DivC(F, usize),
    Sum(Vec<(usize, F)>),
    BoolWit(usize),
    BoolConst(bool),
    IsZero(usize),
    IsEq(usize, usize),
    Switch(usize, usize, usize),
    BoolNum(usize),
    Strict(usize),
    /// decomposition of a fresh variable holding the low n bits of a
    LowBits(usize, usize),
    FromBits(Vec<usize>),
    Comp(Vec<usize>, F),
    Mux([usize; 3], Vec<Vec<F>>),
    Pos(usize, Vec<usize>),
    PosSalt(usize, Vec<usize>, Vec<u8>),
    Proof(usize, usize, [usize; 3], [usize; 3]),
    Tree(usize, Vec<usize>),
    /// registers a subgroup point derived from a witness: x, y pushed
    Point(usize),
    PAdd(usize, usize),
    PDouble(usize),
    Decomp(usize),
    FromScalar(usize),
    PMul(usize, Vec<usize>),
    GMul(Vec<usize>),
    PTest(usize),
    Eddsa(usize, usize, usize),
    Claim(Claim, usize, usize),
    Inputize(usize),
    InputizeBool(usize),
    InputizePair(usize, usize),
}

#[derive(Clone, Debug)]
pub struct Script<F: RefField> {
    pub ops: Vec<Op<F>>,
    pub nwit: usize,
    /// witnesses that must be zero for the circuit to be satisfied
    pub deltas: Vec<usize>,
}

#[derive(Clone, Copy)]
pub struct Profile {
    pub len: usize,
    /// 0: arithmetic, 1: + gadgets, 2: + curve gadgets
    pub heavy: usize,
    pub inputs: bool,
}

/// reference results
#[derive(Clone, Debug)]
pub struct Eval<F: RefField> {
    pub nums: Vec<E<F>>,
    pub bools: Vec<bool>,
    pub points: Vec<Pt<F>>,
    pub publics: Vec<E<F>>,
    pub sat: bool,
}

/// registers of a run on a constraint system
pub struct Regs<'a, CS: ConstraintSystem> {
    pub nums: Vec<CNum<'a, CS>>,
    pub bools: Vec<CBool<'a, CS>>,
    pub points: Vec<CEdwardsPoint<'a, CS>>,
}

fn wit_point<F: JF>(w: E<F>) -> Pt<F> {
    let c = F::curve();
    let k = BigUint::from(gen::repr_words(&w.0)[0] % 5000);
    c.mul(&c.g, &k)
}
fn low<F: RefField>(x: E<F>, n: usize) -> BigUint {
    x.big() & ((BigUint::one() << n) - 1u32)
}
fn bit_of(x: &BigUint, i: usize) -> bool {
    ((x >> i) & BigUint::one()).is_one()
}

impl<F: JF> Script<F> {
    pub fn random(r: &mut R, p: Profile) -> Self {
        let mut ops: Vec<Op<F>> = vec![];
        let mut nn = 0usize; // numbers
        let mut nb = 0usize; // bools
        let mut np = 0usize;

        let mut nwit = 0usize;
        let mut deltas = vec![];
        let mut heavy_left = 2;
        let mut curve_left = 3;
        let c = |r: &mut R| -> F {
            match r.below(5) {
                0 => F::one(),
                1 => (E::<F>::zero() - E::one()).0,
                2 => F::zero(),
                _ => gen::shaped(r),
            }
        };
        for i in 0..p.len {
            let k = if i < 2 { 1 } else { r.below(if p.heavy == 0 { 26 } else if p.heavy == 1 { 36 } else { 46 }) };
            let a = if nn > 0 { r.below(nn) } else { 0 };
            let b = if nn > 0 { r.below(nn) } else { 0 };
            let bb = |r: &mut R| r.below(nb);
            let op = match k {
                0 => Op::Const(c(r)),
                1 | 2 => { nwit += 1; Op::Alloc(nwit - 1) }
                3 => if p.inputs { nwit += 1; Op::InputVar(nwit - 1) } else { Op::Neg(a) },
                4 | 5 => Op::Add(a, b),
                6 => Op::Sub(a, b),
                7 | 8 => Op::Mul(a, b),
                9 => Op::Neg(a),
                10 => Op::Square(a),
                11 => Op::AddN(a, c(r)),
                12 => Op::NSub(c(r), a),
                13 => Op::MulN(a, c(r)),
                14 => { let mut d = c(r); if d.is_zero() { d = F::one(); } Op::DivN(a, d) }
                15 => Op::Div(a, b),
                16 => Op::DivC(c(r), a),
                17 => { let n = r.range(2, 9); Op::Sum((0..n).map(|_| (r.below(nn), c(r))).collect()) }
                18 => { nwit += 1; Op::BoolWit(nwit - 1) }
                19 => Op::IsZero(a),
                20 => Op::IsEq(a, b),
                21 => if nb > 0 { Op::Switch(bb(r), a, b) } else { Op::BoolConst(r.bool()) },
                22 => if nb > 0 { Op::BoolNum(bb(r)) } else { Op::Sub(a, b) },
                23 | 24 => {
                    nwit += 1;
                    deltas.push(nwit - 1);
                    let kind = *r.pick(&[Claim::Eq, Claim::Zero, Claim::Const, Claim::Bit, Claim::NonZero, Claim::IsEq, Claim::BoolEq]);
                    Op::Claim(kind, a, nwit - 1)
                }
                25 => if p.inputs { match r.below(3) { 0 if nb > 0 => Op::InputizeBool(bb(r)), 1 => Op::InputizePair(a, b), _ => Op::Inputize(a) } } else { Op::Add(a, b) },
                26 => if heavy_left > 0 { heavy_left -= 1; nb += F::nbits() - 1; Op::Strict(a) } else { Op::Mul(a, b) },
                27 | 28 => { let n = r.range(2, 12); nb += n - 1; Op::LowBits(a, n) }
                29 => if nb > 0 { let n = r.range(1, 12); Op::FromBits((0..n).map(|_| r.below(nb)).collect()) } else { nb += 2; Op::LowBits(a, 3) },
                30 => if nb > 0 { let n = r.range(1, 12); let ct = gen::shaped_big(r, &(BigUint::one() << (n + 1))); Op::Comp((0..n).map(|_| r.below(nb)).collect(), fb(&ct)) } else { Op::IsZero(a) },
                31 => if nb > 0 {
                    let rows = r.range(1, 3);
                    let t = (0..rows).map(|_| (0..8).map(|_| c(r)).collect()).collect();
                    nn += rows - 1;
                    Op::Mux([r.below(nb), r.below(nb), r.below(nb)], t)
                } else { Op::IsEq(a, b) },
                32 => { let s = [0, 1, 4, 5][r.below(4)]; let n = r.range(1, POS[s].0); Op::Pos(s, (0..n).map(|_| r.below(nn)).collect()) }
                33 => { let s = [0, 1, 4, 5][r.below(4)]; let n = r.range(1, POS[s].0 - 1); let l = r.below(20); Op::PosSalt(s, (0..n).map(|_| r.below(nn)).collect(), r.bytes(l)) }
                34 => if nb > 0 { Op::Proof(r.below(2), a, [r.below(nn), r.below(nn), r.below(nn)], [r.below(nb), r.below(nb), r.below(nb)]) } else { Op::Mul(a, b) },
                35 => { let n = r.range(1, 6); Op::Tree(r.below(2), (0..n).map(|_| r.below(nn)).collect()) }
                36 | 37 => { nwit += 1; Op::Point(nwit - 1) }
                38 => if np > 0 { Op::PAdd(r.below(np), r.below(np)) } else { nwit += 1; Op::Point(nwit - 1) },
                39 => if np > 0 { Op::PDouble(r.below(np)) } else { nwit += 1; Op::Point(nwit - 1) },
                40 => if np > 0 { Op::Decomp(r.below(np)) } else { nwit += 1; Op::Point(nwit - 1) },
                41 => if curve_left > 0 { curve_left -= 1; Op::FromScalar(a) } else { Op::Mul(a, b) },
                42 => if np > 0 && nb > 0 { let n = r.range(1, 6); Op::PMul(r.below(np), (0..n).map(|_| r.below(nb)).collect()) } else { Op::IsZero(a) },
                43 => if nb > 0 { let n = r.range(1, 14); Op::GMul((0..n).map(|_| r.below(nb)).collect()) } else { Op::IsZero(b) },
                44 => if np > 0 { Op::PTest(r.below(np)) } else { Op::IsZero(b) },
                _ => if curve_left > 1 { curve_left -= 2; nwit += 1; Op::Eddsa(nwit - 1, a, 1) } else { Op::Square(a) },
            };
            match &op {
                Op::Const(..) | Op::Alloc(..) | Op::InputVar(..) | Op::Add(..) | Op::Sub(..) | Op::Mul(..) | Op::Neg(..) | Op::Square(..)
                | Op::AddN(..) | Op::NSub(..) | Op::MulN(..) | Op::DivN(..) | Op::Div(..) | Op::DivC(..) | Op::Sum(..) | Op::Switch(..)
                | Op::BoolNum(..) | Op::FromBits(..) | Op::Mux(..) | Op::Pos(..) | Op::PosSalt(..) | Op::Proof(..) | Op::Tree(..) => nn += 1,
                Op::BoolWit(..) | Op::BoolConst(..) | Op::IsZero(..) | Op::IsEq(..) | Op::Comp(..) | Op::LowBits(..) | Op::Strict(..) | Op::Eddsa(..) => nb += 1,
                Op::Point(..) | Op::PAdd(..) | Op::PDouble(..) | Op::Decomp(..) | Op::FromScalar(..) | Op::PMul(..) | Op::GMul(..) => np += 1,
                _ => {}
            }
            ops.push(op);
        }
        Script { ops, nwit, deltas }
    }

    /// a witness; deltas are zero unless chosen by `break_at`
    pub fn witness(&self, r: &mut R, break_some: bool) -> Vec<E<F>> {
        let mut w: Vec<E<F>> = vec![];
        for i in 0..self.nwit {
            let pool: Vec<F> = w.iter().map(|x| x.0).collect();
            w.push(if self.deltas.contains(&i) { E::zero() } else { E(gen::related(r, &pool)) });
        }
        if break_some && !self.deltas.is_empty() {
            for _ in 0..r.range(1, 2) {
                let d = *r.pick(&self.deltas);
                w[d] = match r.below(4) {
                    0 => E::one(),
                    1 => -E::one(),
                    _ => E(gen::uniform(r)),
                };
            }
        }
        // -1 is outside the domain of the scalar-to-point map only by one value; the
        // map's input is register based, so the evaluation reports it (see `domain`)
        w
    }

    fn nonsq() -> E<F> {
        // u with -u a non-square, so b^2 + u never vanishes (-1 is a square here)
        F::curve().mu
    }

    /// for every public input in order: was it published from a signal (and is therefore bound to it)?
    pub fn published(&self) -> Vec<bool> {
        let mut v = vec![];
        for o in self.ops.iter() {
            match o { Op::InputVar(_) => v.push(false), Op::Inputize(_) | Op::InputizeBool(_) => v.push(true), Op::InputizePair(..) => { v.push(true); v.push(true) } _ => {} }
        }
        v
    }
    pub fn eval(&self, w: &[E<F>]) -> Option<Eval<F>> {
        let cu = F::curve();
        let mut e = Eval { nums: vec![], bools: vec![], points: vec![], publics: vec![], sat: true };
        macro_rules! n { ($i:expr) => { e.nums[*$i] } }
        macro_rules! b { ($i:expr) => { e.bools[*$i] } }
        macro_rules! p { ($i:expr) => { e.points[*$i] } }
        for op in self.ops.iter() {
            match op {
                Op::Const(c) => e.nums.push(E(*c)),
                Op::Alloc(i) => e.nums.push(w[*i]),
                Op::InputVar(i) => { e.nums.push(w[*i]); e.publics.push(w[*i]); }
                Op::Add(a, b) => { let v = n!(a) + n!(b); e.nums.push(v) }
                Op::Sub(a, b) => { let v = n!(a) - n!(b); e.nums.push(v) }
                Op::Mul(a, b) => { let v = n!(a) * n!(b); e.nums.push(v) }
                Op::Neg(a) => { let v = -n!(a); e.nums.push(v) }
                Op::Square(a) => { let v = n!(a).sq(); e.nums.push(v) }
                Op::AddN(a, c) => { let v = n!(a) + E(*c); e.nums.push(v) }
                Op::NSub(c, a) => { let v = E(*c) - n!(a); e.nums.push(v) }
                Op::MulN(a, c) => { let v = n!(a) * E(*c); e.nums.push(v) }
                Op::DivN(a, c) => { let v = n!(a).div(E(*c)); e.nums.push(v) }
                Op::Div(a, b) => { let v = n!(a).div(n!(b).sq() + Self::nonsq()); e.nums.push(v) }
                Op::DivC(c, b) => { let v = E(*c).div(n!(b).sq() + Self::nonsq()); e.nums.push(v) }
                Op::Sum(t) => { let v = t.iter().fold(E::zero(), |s, (i, c)| s + n!(i) * E(*c)); e.nums.push(v) }
                Op::BoolWit(i) => e.bools.push(w[*i].odd()),
                Op::BoolConst(x) => e.bools.push(*x),
                Op::IsZero(a) => { let v = n!(a).is_zero(); e.bools.push(v) }
                Op::IsEq(a, b) => { let v = n!(a) == n!(b); e.bools.push(v) }
                Op::Switch(c, x, y) => { let v = if b!(c) { n!(x) } else { n!(y) }; e.nums.push(v) }
                Op::BoolNum(x) => { let v = if b!(x) { E::one() } else { E::zero() }; e.nums.push(v) }
                Op::Strict(a) => { let v = n!(a).big(); for i in 0..F::nbits() { e.bools.push(bit_of(&v, i)); } }
                Op::LowBits(a, k) => { let v = low(n!(a), *k); for i in 0..*k { e.bools.push(bit_of(&v, i)); } }
                Op::FromBits(v) => { let x = int(&v.iter().map(|i| b!(i)).collect::<Vec<_>>()); e.nums.push(E(fbr::<F>(&x))) }
                Op::Comp(v, ct) => { let x = int(&v.iter().map(|i| b!(i)).collect::<Vec<_>>()); e.bools.push(x > tb(ct)) }
                Op::Mux(s, t) => {
                    let i = b!(&s[0]) as usize + 2 * b!(&s[1]) as usize + 4 * b!(&s[2]) as usize;
                    for row in t { e.nums.push(E(row[i])); }
                }
                Op::Pos(s, v) => { let x = F::pos(*s).1.hash(&v.iter().map(|i| n!(i)).collect::<Vec<_>>()); e.nums.push(x) }
                Op::PosSalt(s, v, salt) => { let x = F::pos(*s).1.hash_salt(&v.iter().map(|i| n!(i)).collect::<Vec<_>>(), salt); e.nums.push(x) }
                Op::Proof(s, leaf, sib, path) => {
                    let x = F::pos(*s).1.merkle_root_from_proof(n!(leaf), &sib.iter().map(|i| n!(i)).collect::<Vec<_>>(), &path.iter().map(|i| b!(i)).collect::<Vec<_>>());
                    e.nums.push(x)
                }
                Op::Tree(s, v) => { let x = F::pos(*s).1.merkle_levels(&v.iter().map(|i| n!(i)).collect::<Vec<_>>()); e.nums.push(x.last().unwrap()[0]) }
                Op::Point(i) => e.points.push(wit_point(w[*i])),
                Op::PAdd(a, b) => { let v = cu.add(&p!(a), &p!(b)); e.points.push(v) }
                Op::PDouble(a) => { let v = cu.dbl(&p!(a)); e.points.push(v) }
                Op::Decomp(a) => { let v = p!(a); e.points.push(v) }
                Op::FromScalar(a) => { let v = cu.from_scalar(n!(a))?; e.points.push(v) }
                Op::PMul(a, v) => { let x = int(&v.iter().map(|i| b!(i)).collect::<Vec<_>>()); let y = cu.mul(&p!(a), &x); e.points.push(y) }
                Op::GMul(v) => { let x = int(&v.iter().map(|i| b!(i)).collect::<Vec<_>>()); let y = cu.mul(&cu.g, &x); e.points.push(y) }
                Op::PTest(_) => {}
                Op::Eddsa(i, m, s) => {
                    let sk = w[*i].big() % &cu.l;
                    let (sg, r) = cu.sign(&F::pos(*s).1, &sk, n!(m));
                    let bad = w[*i].odd();
                    let sg = if bad { (sg + 1u32) % &cu.l } else { sg };
                    let a = cu.mul(&cu.g, &sk).x;
                    let v = cu.verify(&F::pos(*s).1, &sg, r, a, n!(m));
                    e.bools.push(v)
                }
                Op::Claim(kind, _, d) => {
                    let d = w[*d];
                    e.sat &= match kind {
                        Claim::Eq | Claim::Zero | Claim::Const | Claim::IsEq | Claim::BoolEq => d.is_zero(),
                        Claim::Bit => d.is_zero() || d == E::one(),
                        Claim::NonZero => d != E::one(),
                    }
                }
                Op::Inputize(a) => { let v = n!(a); e.publics.push(v) }
                Op::InputizeBool(a) => { let v = if b!(a) { E::one() } else { E::zero() }; e.publics.push(v) }
                Op::InputizePair(a, b) => { let (x, y) = (n!(a), n!(b)); e.publics.push(x); e.publics.push(y) }
            }
        }
        Some(e)
    }

    /// the real thing, on any constraint system. `w` = None builds without values.
    pub fn run<'a, CS: ConstraintSystem<F = F>>(&self, cs: &'a CS, w: Option<&[E<F>]>) -> Regs<'a, CS> {
        let ev = w.map(|w| self.eval(w).expect("witness in domain"));
        let mut g: Regs<'a, CS> = Regs { nums: vec![], bools: vec![], points: vec![] };
        let jj = F::jj();
        let wv = |i: usize| w.map(|w| Num(w[i].0));
        let u = Num(Self::nonsq().0);
        macro_rules! n { ($i:expr) => { &g.nums[*$i] } }
        macro_rules! bs { ($v:expr) => { $v.iter().map(|i| g.bools[*i].clone()).collect::<Vec<_>>() } }
        macro_rules! ns { ($v:expr) => { $v.iter().map(|i| g.nums[*i].clone()).collect::<Vec<_>>() } }
        for op in self.ops.iter() {
            match op {
                Op::Const(c) => g.nums.push(CNum::from_const(cs, &Num(*c))),
                Op::Alloc(i) => g.nums.push(CNum::alloc(cs, wv(*i).as_ref())),
                Op::InputVar(i) => { let v = wv(*i); let ix = cs.alloc_input(v); g.nums.push(CNum::from_var(cs, v, ix)); }
                Op::Add(a, b) => { let x = n!(a) + n!(b); g.nums.push(x) }
                Op::Sub(a, b) => { let x = n!(a) - n!(b); g.nums.push(x) }
                Op::Mul(a, b) => { let x = n!(a) * n!(b); g.nums.push(x) }
                Op::Neg(a) => { let x = -n!(a); g.nums.push(x) }
                Op::Square(a) => { let x = n!(a).square(); g.nums.push(x) }
                Op::AddN(a, c) => { let x = n!(a) + Num(*c); g.nums.push(x) }
                Op::NSub(c, a) => { let x = Num(*c) - n!(a); g.nums.push(x) }
                Op::MulN(a, c) => { let x = Num(*c) * n!(a); g.nums.push(x) }
                Op::DivN(a, c) => { let x = n!(a) / Num(*c); g.nums.push(x) }
                Op::Div(a, b) => { let x = n!(a) / (n!(b).square() + u); g.nums.push(x) }
                Op::DivC(c, b) => { let k: CNum<CS> = n!(b).derive_const(&Num(*c)); let x = k / (n!(b).square() + u); g.nums.push(x) }
                Op::Sum(t) => {
                    let mut s = CNum::zero(cs);
                    for (i, c) in t { s += n!(i) * Num(*c); }
                    g.nums.push(s)
                }
                Op::BoolWit(i) => { let v = w.map(|w| w[*i].odd()); g.bools.push(CBool::alloc(cs, v.as_ref())) }
                Op::BoolConst(x) => g.bools.push(if g.nums.len() % 2 == 0 { CBool::from_const(cs, x) } else if *x { CBool::c_true(cs) } else { CBool::c_false(cs) }),
                Op::IsZero(a) => { let x = n!(a).is_zero(); g.bools.push(x) }
                Op::IsEq(a, b) => { let x = n!(a).is_eq(n!(b)); g.bools.push(x) }
                Op::Switch(c, x, y) => { let x = n!(x).switch(&g.bools[*c], n!(y)); g.nums.push(x) }
                Op::BoolNum(x) => { let x = g.bools[*x].into_num(); g.nums.push(x) }
                Op::Strict(a) => { let x = c_into_bits_le_strict(n!(a)); g.bools.extend(x) }
                Op::LowBits(a, k) => {
                    let v = ev.as_ref().map(|e| Num(fb::<F>(&low(e.nums[*a], *k))));
                    let x: CNum<CS> = n!(a).derive_alloc(v.as_ref());
                    let x = c_into_bits_le(&x, *k);
                    g.bools.extend(x)
                }
                Op::FromBits(v) => { let x = c_from_bits_le(&bs!(v)); g.nums.push(x) }
                Op::Comp(v, ct) => { let x = c_comp_constant(&bs!(v), Num(*ct)); g.bools.push(x) }
                Op::Mux(s, t) => {
                    let t: Vec<Vec<Num<F>>> = t.iter().map(|r| r.iter().map(|x| Num(*x)).collect()).collect();
                    let x = c_mux3(&bs!(s), &t);
                    g.nums.extend(x)
                }
                Op::Pos(s, v) => { let x = c_poseidon(&ns!(v), &F::pos(*s).0); g.nums.push(x) }
                Op::PosSalt(s, v, salt) => { let x = c_poseidon_with_salt(&ns!(v), salt, &F::pos(*s).0); g.nums.push(x) }
                Op::Proof(s, leaf, sib, path) => {
                    let pr = CMerkleProof::<CS, U3> {
                        sibling: ns!(sib).into_iter().collect::<SizedVec<_, U3>>(),
                        path: bs!(path).into_iter().collect::<SizedVec<_, U3>>(),
                    };
                    let x = c_poseidon_merkle_proof_root(n!(leaf), &pr, &F::pos(*s).0);
                    g.nums.push(x)
                }
                Op::Tree(s, v) => { let x = c_poseidon_merkle_tree_root(&ns!(v), &F::pos(*s).0); g.nums.push(x) }
                Op::Point(i) => {
                    let v = w.map(|w| { let p = wit_point(w[*i]); EdwardsPoint { x: Num(p.x.0), y: Num(p.y.0) } });
                    let x = CEdwardsPoint::alloc(cs, v.as_ref());
                    g.points.push(x)
                }
                Op::PAdd(a, b) => { let x = g.points[*a].add(&g.points[*b], jj); g.points.push(x) }
                Op::PDouble(a) => { let x = g.points[*a].double(jj); g.points.push(x) }
                Op::Decomp(a) => { let x = CEdwardsPoint::subgroup_decompress(&g.points[*a].x, jj); g.points.push(x) }
                Op::FromScalar(a) => { let x = CEdwardsPoint::from_scalar(n!(a), jj); g.points.push(x) }
                Op::PMul(a, v) => { let x = g.points[*a].mul(&bs!(v), jj); g.points.push(x) }
                Op::GMul(v) => { let k = CEdwardsPoint::from_const(cs, jj.edwards_g()); let x = k.mul(&bs!(v), jj); g.points.push(x) }
                Op::PTest(a) => { g.points[*a].assert_in_curve(jj); g.points[*a].assert_in_subgroup(jj); }
                Op::Eddsa(i, m, s) => {
                    let v = w.map(|w| {
                        let cu = F::curve();
                        let sk = w[*i].big() % &cu.l;
                        let mv = ev.as_ref().unwrap().nums[*m];
                        let (sg, r) = cu.sign(&F::pos(*s).1, &sk, mv);
                        let sg = if w[*i].odd() { (sg + 1u32) % &cu.l } else { sg };
                        let a = cu.mul(&cu.g, &sk).x;
                        (Num(fb::<F>(&sg)), Num(r.0), Num(a.0))
                    });
                    let sg = CNum::alloc(cs, v.map(|v| v.0).as_ref());
                    let r = CNum::alloc(cs, v.map(|v| v.1).as_ref());
                    let a = CNum::alloc(cs, v.map(|v| v.2).as_ref());
                    let x = c_eddsaposeidon_verify(&sg, &r, &a, n!(m), &F::pos(*s).0, jj);
                    g.bools.push(x)
                }
                Op::Claim(kind, a, d) => {
                    let v = match (&ev, w) {
                        (Some(e), Some(w)) => Some(Num((e.nums[*a] + w[*d]).0)),
                        _ => None,
                    };
                    let copy: CNum<CS> = n!(a).derive_alloc(v.as_ref());
                    match kind {
                        Claim::Eq => copy.assert_eq(n!(a)),
                        Claim::Zero => (n!(a) - &copy).assert_zero(),
                        Claim::Const => (&copy - n!(a) + u).assert_const(&u),
                        Claim::Bit => (&copy - n!(a)).assert_bit(),
                        Claim::NonZero => (n!(a) - &copy + Num::one()).assert_nonzero(),
                        Claim::IsEq => n!(a).is_eq(&copy).assert_true(),
                        Claim::BoolEq => { let b = copy.is_eq(n!(a)); b.assert_eq(&CBool::c_true(cs)) }
                    }
                }
                Op::Inputize(a) => n!(a).inputize(),
                Op::InputizeBool(a) => g.bools[*a].inputize(),
                Op::InputizePair(a, b) => (n!(a).clone(), n!(b).clone()).inputize(),
            }
        }
        g
    }

    pub fn show(&self) -> String {
        let mut s = format!("{:?}", self.ops);
        s.truncate(1500);
        s
    }
}

pub fn int(b: &[bool]) -> BigUint {
    let mut x = BigUint::from(0u32);
    for i in b.iter().rev() {
        x = (x << 1usize) + (*i as u32);
    }
    x
}
