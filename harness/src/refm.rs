//! Independent reference arithmetic. Nothing here goes through `Num`: field
//! moduli are hard coded, integers are `BigUint`, and the circuit-field
//! arithmetic uses the ff/pairing types directly (trusted dependencies).
use ff::{PrimeField, SqrtField};
use num::bigint::BigUint;
use num::{One, Zero};
use std::ops::{Add, Mul, Neg, Sub};

pub type BnFr = pairing::bn256::Fr;
pub type BnFq = pairing::bn256::Fq;
pub type BnFs = fawkes_crypto::native::bn256::Fs;
pub type BlsFr = pairing::bls12_381::Fr;
pub type BlsFq = pairing::bls12_381::Fq;
pub type BlsFs = fawkes_crypto::native::bls12_381::Fs;

pub fn big(s: &str) -> BigUint {
    BigUint::parse_bytes(s.as_bytes(), 10).unwrap()
}

pub trait RefField: PrimeField + SqrtField {
    const NAME: &'static str;
    const P_DEC: &'static str;
    /// bits and bytes of the modulus, independently of ff's constants
    fn p() -> BigUint {
        big(Self::P_DEC)
    }
    fn nbits() -> usize {
        Self::p().bits()
    }
    fn nbytes() -> usize {
        (Self::nbits() + 7) / 8
    }
}

macro_rules! rf {
    ($t:ty, $n:expr, $p:expr) => {
        impl RefField for $t {
            const NAME: &'static str = $n;
            const P_DEC: &'static str = $p;
        }
    };
}
rf!(BnFr, "bn256::Fr", "21888242871839275222246405745257275088548364400416034343698204186575808495617");
rf!(BnFq, "bn256::Fq", "21888242871839275222246405745257275088696311157297823662689037894645226208583");
rf!(BnFs, "bn256::Fs", "2736030358979909402780800718157159386076813972158567259200215660948447373041");
rf!(BlsFr, "bls12_381::Fr", "52435875175126190479447740508185965837690552500527637822603658699938581184513");
rf!(BlsFq, "bls12_381::Fq", "4002409555221667393417789825735904156556882819939007885332058136124031650490837864442687629129015664037894272559787");
rf!(BlsFs, "bls12_381::Fs", "6554484396890773809930967563523245729705921265872317281365359162392183254199");

pub fn limbs_to_big(l: &[u64]) -> BigUint {
    let mut r = BigUint::zero();
    for x in l.iter().rev() {
        r = (r << 64usize) + BigUint::from(*x);
    }
    r
}

pub fn big_to_limbs(b: &BigUint, n: usize) -> Vec<u64> {
    let mask = BigUint::from(u64::MAX);
    let mut v = vec![];
    let mut t = b.clone();
    for _ in 0..n {
        let l = (&t & &mask).to_bytes_le();
        let mut a = [0u8; 8];
        a[..l.len()].copy_from_slice(&l);
        v.push(u64::from_le_bytes(a));
        t = t >> 64usize;
    }
    assert!(t.is_zero());
    v
}

/// field element -> integer, straight from the ff representation
pub fn tb<F: PrimeField>(f: &F) -> BigUint {
    limbs_to_big(f.into_repr().as_ref())
}

/// integer (< p) -> field element
pub fn fb<F: PrimeField>(b: &BigUint) -> F {
    let mut repr = <F as PrimeField>::Repr::default();
    let n = repr.as_ref().len();
    let l = big_to_limbs(b, n);
    repr.as_mut().copy_from_slice(&l);
    F::from_repr(repr).expect("reference value out of field")
}

/// integer (any) -> field element, reduced with the hard-coded modulus
pub fn fbr<F: RefField>(b: &BigUint) -> F {
    fb(&(b % F::p()))
}

pub fn be_bytes(b: &BigUint, n: usize) -> Vec<u8> {
    let v = b.to_bytes_be();
    let v = if b.is_zero() { vec![] } else { v };
    assert!(v.len() <= n);
    let mut r = vec![0u8; n - v.len()];
    r.extend_from_slice(&v);
    r
}

pub fn le_bytes(b: &BigUint, n: usize) -> Vec<u8> {
    let mut v = be_bytes(b, n);
    v.reverse();
    v
}

pub fn modinv(a: &BigUint, p: &BigUint) -> Option<BigUint> {
    if (a % p).is_zero() {
        return None;
    }
    Some(a.modpow(&(p - 2u32), p))
}

pub fn is_square(a: &BigUint, p: &BigUint) -> bool {
    if a.is_zero() {
        return true;
    }
    let e: BigUint = (p - 1u32) >> 1usize;
    a.modpow(&e, p).is_one()
}

/// operator sugar over an ff field (reference side only)
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct E<F: PrimeField>(pub F);

impl<F: PrimeField> Add for E<F> {
    type Output = Self;
    fn add(mut self, o: Self) -> Self {
        self.0.add_assign(&o.0);
        self
    }
}
impl<F: PrimeField> Sub for E<F> {
    type Output = Self;
    fn sub(mut self, o: Self) -> Self {
        self.0.sub_assign(&o.0);
        self
    }
}
impl<F: PrimeField> Mul for E<F> {
    type Output = Self;
    fn mul(mut self, o: Self) -> Self {
        self.0.mul_assign(&o.0);
        self
    }
}
impl<F: PrimeField> Neg for E<F> {
    type Output = Self;
    fn neg(mut self) -> Self {
        self.0.negate();
        self
    }
}
impl<F: PrimeField> E<F> {
    pub fn zero() -> Self {
        E(F::zero())
    }
    pub fn one() -> Self {
        E(F::one())
    }
    pub fn n(x: u64) -> Self {
        E(fb(&BigUint::from(x)))
    }
    pub fn is_zero(&self) -> bool {
        self.0.is_zero()
    }
    pub fn inv(&self) -> Option<Self> {
        self.0.inverse().map(E)
    }
    /// division; panics on zero (reference inputs are checked before)
    pub fn div(&self, o: Self) -> Self {
        *self * o.inv().expect("reference division by zero")
    }
    pub fn sq(&self) -> Self {
        *self * *self
    }
    pub fn big(&self) -> BigUint {
        tb(&self.0)
    }
    pub fn odd(&self) -> bool {
        self.0.into_repr().as_ref()[0] & 1 == 1
    }
}
impl<F: PrimeField + SqrtField> E<F> {
    pub fn sqrt(&self) -> Option<Self> {
        self.0.sqrt().map(E)
    }
}

// ---------------------------------------------------------------------------
// Seedbox, seeds and Poseidon, written from the specification
// ---------------------------------------------------------------------------

/// stream: Blake2s-256 with personalisation "__fawkes" of (counter LE64 || salt
/// digest), read as little-endian u32 words
pub struct RefSeedbox {
    salt: Option<[u8; 32]>,
    ctr: u64,
    words: Vec<u32>,
}
impl RefSeedbox {
    pub fn new(salt: Option<&[u8]>) -> Self {
        RefSeedbox {
            salt: salt.map(|s| {
                let d = crate::blake::blake2s(32, &[], s);
                let mut a = [0u8; 32];
                a.copy_from_slice(&d);
                a
            }),
            ctr: 0,
            words: vec![],
        }
    }
    pub fn u32(&mut self) -> u32 {
        if self.words.is_empty() {
            let mut msg = self.ctr.to_le_bytes().to_vec();
            self.ctr += 1;
            if let Some(s) = self.salt {
                msg.extend_from_slice(&s);
            }
            let d = crate::blake::blake2s(32, b"__fawkes", &msg);
            self.words = d
                .chunks(4)
                .map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]]))
                .collect();
            self.words.reverse();
        }
        self.words.pop().unwrap()
    }
    /// rand 0.4 convention: high word first
    pub fn u64(&mut self) -> u64 {
        let h = self.u32() as u64;
        let l = self.u32() as u64;
        (h << 32) | l
    }
    /// uniform field element by rejection, in Montgomery form (ff_ce's Rand)
    pub fn field<F: RefField>(&mut self) -> F {
        let nl = F::zero().into_repr().as_ref().len();
        let top = 64 * nl - F::nbits();
        loop {
            let mut repr = <F as PrimeField>::Repr::default();
            for l in repr.as_mut().iter_mut() {
                *l = self.u64();
            }
            repr.as_mut()[nl - 1] &= u64::MAX >> top;
            if let Ok(x) = F::from_raw_repr(repr) {
                return x;
            }
        }
    }
}

pub fn from_seed<F: RefField>(blob: &[u8]) -> F {
    let d = crate::blake::blake2s(F::nbytes(), b"__fawkes", blob);
    fbr(&BigUint::from_bytes_be(&d))
}

#[derive(Clone)]
pub struct RefPoseidon<F: RefField> {
    pub c: Vec<E<F>>,
    pub m: Vec<Vec<E<F>>>,
    pub t: usize,
    pub f: usize,
    pub p: usize,
}
impl<F: RefField> RefPoseidon<F> {
    pub fn new(t: usize, f: usize, p: usize) -> Self {
        let salt = format!("fawkes_poseidon(t={},f={},p={})", t, f, p);
        let mut sb = RefSeedbox::new(Some(salt.as_bytes()));
        let c = (0..f + p).map(|_| E(sb.field::<F>())).collect();
        let m = (0..t)
            .map(|_| (0..t).map(|_| E(sb.field::<F>())).collect())
            .collect();
        RefPoseidon { c, m, t, f, p }
    }
    pub fn hash(&self, inputs: &[E<F>]) -> E<F> {
        assert!(!inputs.is_empty() && inputs.len() <= self.t);
        let mut st = inputs.to_vec();
        st.resize(self.t, E::zero());
        let h = self.f / 2;
        for r in 0..self.f + self.p {
            for e in st.iter_mut() {
                *e = *e + self.c[r];
            }
            let full = r < h || r >= h + self.p;
            for j in 0..self.t {
                if full || j == 0 {
                    let x2 = st[j].sq();
                    st[j] = x2 * x2 * st[j];
                }
            }
            let mut ns = vec![E::zero(); self.t];
            for (i, o) in ns.iter_mut().enumerate() {
                for j in 0..self.t {
                    *o = *o + self.m[i][j] * st[j];
                }
            }
            st = ns;
        }
        st[0]
    }
    pub fn hash_salt(&self, inputs: &[E<F>], seed: &[u8]) -> E<F> {
        let mut v = inputs.to_vec();
        v.push(E(from_seed::<F>(seed)));
        assert!(v.len() <= self.t);
        self.hash(&v)
    }
    pub fn merkle_root_from_proof(&self, leaf: E<F>, sib: &[E<F>], path: &[bool]) -> E<F> {
        let mut cur = leaf;
        for i in 0..sib.len() {
            cur = if path[i] {
                self.hash(&[sib[i], cur])
            } else {
                self.hash(&[cur, sib[i]])
            };
        }
        cur
    }
    /// all levels of the tree over the leaves, zero padded to a power of two
    pub fn merkle_levels(&self, leaves: &[E<F>]) -> Vec<Vec<E<F>>> {
        let mut n = 1;
        while n < leaves.len() {
            n *= 2;
        }
        let mut l = leaves.to_vec();
        l.resize(n, E::zero());
        let mut levels = vec![l];
        while levels.last().unwrap().len() > 1 {
            let prev = levels.last().unwrap();
            let next = prev.chunks(2).map(|c| self.hash(&[c[0], c[1]])).collect();
            levels.push(next);
        }
        levels
    }
}
