//! Independent model of the pairing curves: y^2 = x^3 + b over Fq and Fq2, their
//! subgroups, and the documented encodings of points, proofs and keys.
use crate::gen;
use crate::refm::*;
use crate::rng::R;
use fawkes_crypto::core::field::Field as FawkesField;
use fawkes_crypto::helpers::groth16::prover::{Proof, ProofData};
use fawkes_crypto::helpers::groth16::verifier::{TruncatedVerifyingKey, TruncatedVerifyingKeyData};
use num::bigint::BigUint;
use num::{One, Zero};
use pairing::bls12_381::Bls12;
use pairing::bn256::Bn256;
use pairing::{CurveAffine, EncodedPoint, Engine};
use std::fmt::Debug;
use std::io;

pub trait K: Copy + Clone + Debug + PartialEq {
    fn zero() -> Self;
    fn one() -> Self;
    fn add(self, o: Self) -> Self;
    fn sub(self, o: Self) -> Self;
    fn mul(self, o: Self) -> Self;
    fn inv(self) -> Self;
    fn sqrt(self) -> Option<Self>;
    fn random(r: &mut R) -> Self;
    fn neg(self) -> Self { Self::zero().sub(self) }
    fn is_zero(&self) -> bool { *self == Self::zero() }
    /// integer coordinates, most significant component first
    fn ints(&self) -> Vec<BigUint>;
    fn of(v: &[BigUint]) -> Self;
    fn greater(&self, o: &Self) -> bool { self.ints() > o.ints() }
}
impl<F: RefField> K for E<F> {
    fn zero() -> Self { E::zero() }
    fn one() -> Self { E::one() }
    fn add(self, o: Self) -> Self { self + o }
    fn sub(self, o: Self) -> Self { self - o }
    fn mul(self, o: Self) -> Self { self * o }
    fn inv(self) -> Self { E::inv(&self).unwrap() }
    fn sqrt(self) -> Option<Self> { E::sqrt(&self) }
    fn random(r: &mut R) -> Self { E(if r.chance(1, 3) { gen::shaped(r) } else { gen::uniform(r) }) }
    fn ints(&self) -> Vec<BigUint> { vec![self.big()] }
    fn of(v: &[BigUint]) -> Self { E(fbr(&v[0])) }
}
/// re + im*u, u^2 = -1
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Q2<F: RefField> { pub re: E<F>, pub im: E<F> }
impl<F: RefField> K for Q2<F> {
    fn zero() -> Self { Q2 { re: E::zero(), im: E::zero() } }
    fn one() -> Self { Q2 { re: E::one(), im: E::zero() } }
    fn add(self, o: Self) -> Self { Q2 { re: self.re + o.re, im: self.im + o.im } }
    fn sub(self, o: Self) -> Self { Q2 { re: self.re - o.re, im: self.im - o.im } }
    fn mul(self, o: Self) -> Self { Q2 { re: self.re * o.re - self.im * o.im, im: self.re * o.im + self.im * o.re } }
    fn inv(self) -> Self {
        let n = (self.re.sq() + self.im.sq()).inv();
        Q2 { re: self.re * n, im: -self.im * n }
    }
    fn sqrt(self) -> Option<Self> {
        let half = E::<F>::n(2).inv();
        let s = (self.re.sq() + self.im.sq()).sqrt()?;
        for t in &[(self.re + s) * half, (self.re - s) * half] {
            if let Some(x) = t.sqrt() {
                let c = if x.is_zero() {
                    // re = -s: purely imaginary root
                    Q2 { re: E::zero(), im: (-self.re).sqrt()? }
                } else {
                    Q2 { re: x, im: self.im * half * x.inv() }
                };
                if c.mul(c) == self { return Some(c); }
            }
        }
        None
    }
    fn random(r: &mut R) -> Self {
        match r.below(8) {
            0 => Q2 { re: K::random(r), im: E::zero() },
            1 => Q2 { re: E::zero(), im: K::random(r) },
            _ => Q2 { re: K::random(r), im: K::random(r) },
        }
    }
    fn ints(&self) -> Vec<BigUint> { vec![self.im.big(), self.re.big()] }
    fn of(v: &[BigUint]) -> Self { Q2 { im: E(fbr(&v[0])), re: E(fbr(&v[1])) } }
}

/// affine point, None = infinity
pub type Pt<T> = Option<(T, T)>;
pub fn on_curve<T: K>(p: &Pt<T>, b: T) -> bool {
    match p { None => true, Some((x, y)) => y.mul(*y) == x.mul(*x).mul(*x).add(b) }
}
fn dbl<T: K>(p: (T, T, T)) -> (T, T, T) {
    // Jacobian, a = 0
    let (x, y, z) = p;
    if z.is_zero() || y.is_zero() { return (T::one(), T::one(), T::zero()); }
    let a = x.mul(x);
    let b = y.mul(y);
    let c = b.mul(b);
    let t = x.add(b);
    let d = t.mul(t).sub(a).sub(c);
    let d = d.add(d);
    let e = a.add(a).add(a);
    let x3 = e.mul(e).sub(d).sub(d);
    let c8 = { let c2 = c.add(c); let c4 = c2.add(c2); c4.add(c4) };
    let y3 = e.mul(d.sub(x3)).sub(c8);
    let z3 = y.mul(z);
    (x3, y3, z3.add(z3))
}
fn add_j<T: K>(p: (T, T, T), q: (T, T)) -> (T, T, T) {
    let (x1, y1, z1) = p;
    if z1.is_zero() { return (q.0, q.1, T::one()); }
    let zz = z1.mul(z1);
    let u2 = q.0.mul(zz);
    let s2 = q.1.mul(zz).mul(z1);
    if u2 == x1 {
        return if s2 == y1 { dbl(p) } else { (T::one(), T::one(), T::zero()) };
    }
    let h = u2.sub(x1);
    let r = s2.sub(y1);
    let hh = h.mul(h);
    let hhh = hh.mul(h);
    let v = x1.mul(hh);
    let x3 = r.mul(r).sub(hhh).sub(v).sub(v);
    let y3 = r.mul(v.sub(x3)).sub(y1.mul(hhh));
    (x3, y3, z1.mul(h))
}
fn affine<T: K>(p: (T, T, T)) -> Pt<T> {
    if p.2.is_zero() { return None; }
    let i = p.2.inv();
    let ii = i.mul(i);
    Some((p.0.mul(ii), p.1.mul(ii).mul(i)))
}
pub fn mul<T: K>(p: &Pt<T>, k: &BigUint) -> Pt<T> {
    let q = match p { None => return None, Some(q) => *q };
    let mut acc = (T::one(), T::one(), T::zero());
    for i in (0..k.bits()).rev() {
        acc = dbl(acc);
        if !((k >> i) & BigUint::one()).is_zero() { acc = add_j(acc, q); }
    }
    affine(acc)
}
pub fn add<T: K>(p: &Pt<T>, q: &Pt<T>) -> Pt<T> {
    match (p, q) {
        (None, _) => *q,
        (_, None) => *p,
        (Some(a), Some(b)) => affine(add_j((a.0, a.1, T::one()), *b)),
    }
}
pub fn neg<T: K>(p: &Pt<T>) -> Pt<T> { p.map(|(x, y)| (x, y.neg())) }

/// a pairing curve of the library and the operations of the library on it
pub trait PC: Engine + Sized {
    type Q: RefField + FawkesField;
    const NAME: &'static str;
    /// zcash-style flags (bls) or two flag bits (bn)
    const ZCASH: bool;
    fn b1() -> E<Self::Q>;
    fn b2() -> Q2<Self::Q>;
    fn r() -> BigUint;
    fn proof_data(p: &Proof<Self>) -> ProofData<Self::Q>;
    fn proof_from(d: &ProofData<Self::Q>) -> Proof<Self>;
    fn key_data(k: &TruncatedVerifyingKey<Self>) -> TruncatedVerifyingKeyData<Self::Q>;
    fn key_from(d: &TruncatedVerifyingKeyData<Self::Q>) -> TruncatedVerifyingKey<Self>;
    fn proof_write<W: io::Write>(p: &Proof<Self>, w: W) -> io::Result<()>;
    fn proof_read<R: io::Read>(r: R) -> io::Result<Proof<Self>>;
    fn nb() -> usize { Self::Q::nbytes() }
}
macro_rules! pc {
    ($e:ty, $q:ty, $fr:ty, $n:expr, $z:expr, $b1:expr, $b2:expr) => {
        impl PC for $e {
            type Q = $q;
            const NAME: &'static str = $n;
            const ZCASH: bool = $z;
            fn b1() -> E<$q> { E::n($b1) }
            fn b2() -> Q2<$q> { $b2 }
            fn r() -> BigUint { <$fr as RefField>::p() }
            fn proof_data(p: &Proof<Self>) -> ProofData<$q> { p.into_data() }
            fn proof_from(d: &ProofData<$q>) -> Proof<Self> { Proof::<$e>::from_data(d) }
            fn key_data(k: &TruncatedVerifyingKey<Self>) -> TruncatedVerifyingKeyData<$q> { k.into_data() }
            fn key_from(d: &TruncatedVerifyingKeyData<$q>) -> TruncatedVerifyingKey<Self> { TruncatedVerifyingKey::<$e>::from_data(d) }
            fn proof_write<W: io::Write>(p: &Proof<Self>, w: W) -> io::Result<()> { p.write(w) }
            fn proof_read<R: io::Read>(r: R) -> io::Result<Proof<Self>> { Proof::<$e>::read(r) }
        }
    };
}
pc!(Bn256, BnFq, BnFr, "bn256", false, 3, Q2 { re: E::n(3), im: E::zero() }.mul(Q2 { re: E::n(9), im: E::one() }.inv()));
pc!(Bls12, BlsFq, BlsFr, "bls12_381", true, 4, Q2 { re: E::n(4), im: E::n(4) });

// ---- to and from the pairing library's points, through its own uncompressed form
pub fn of_g<A: CurveAffine, T: K>(p: &A, nb: usize) -> Pt<T> {
    if p.is_zero() { return None; }
    let u = p.into_uncompressed();
    let v: Vec<BigUint> = u.as_ref().chunks(nb).map(BigUint::from_bytes_be).collect();
    let h = v.len() / 2;
    Some((T::of(&v[..h]), T::of(&v[h..])))
}
/// None when the pairing library itself cannot represent it
pub fn to_g<A: CurveAffine, T: K>(p: &Pt<T>, nb: usize) -> Option<A> {
    match p {
        None => Some(A::zero()),
        Some((x, y)) => {
            let mut u = A::Uncompressed::empty();
            let mut v = vec![];
            for i in x.ints().iter().chain(y.ints().iter()) { v.extend(be_bytes(i, nb)); }
            u.as_mut().copy_from_slice(&v);
            u.into_affine_unchecked().ok()
        }
    }
}

// ---- validity
pub fn in_subgroup<T: K>(p: &Pt<T>, r: &BigUint) -> bool { mul(p, r).is_none() }
pub fn valid<T: K>(p: &Pt<T>, b: T, r: &BigUint) -> bool { on_curve(p, b) && in_subgroup(p, r) }

// ---- generators of interesting points
pub fn lift<T: K>(x: T, b: T, g: bool) -> Pt<T> {
    let y = x.mul(x).mul(x).add(b).sqrt()?;
    let ny = y.neg();
    Some((x, if y.greater(&ny) == g { y } else { ny }))
}
/// a point of the curve, usually outside the subgroup when there is a cofactor
pub fn curve_point<T: K>(r: &mut R, b: T) -> (T, T) {
    loop {
        let x = T::random(r);
        let g = r.bool();
        if let Some(p) = lift(x, b, g) { return p; }
    }
}

// ---- encodings
/// compressed form of a point as the library writes it
pub fn comp<C: PC, T: K>(p: &Pt<T>) -> Vec<u8> {
    let nb = C::nb();
    let n = T::zero().ints().len();
    match p {
        None => {
            let mut v = vec![0u8; nb * n];
            v[0] |= 1 << 6;
            if C::ZCASH { v[0] |= 1 << 7; }
            v
        }
        Some((x, y)) => {
            let mut v = vec![];
            for i in x.ints() { v.extend(be_bytes(&i, nb)); }
            let g = y.greater(&y.neg());
            if C::ZCASH { v[0] |= 1 << 7; if g { v[0] |= 1 << 5; } } else if g { v[0] |= 1 << 7; }
            v
        }
    }
}
/// decoding of a compressed non-infinite valid point; None = must be refused
pub fn uncomp<C: PC, T: K>(v: &[u8], b: T) -> Pt<T> {
    let nb = C::nb();
    let mut v = v.to_vec();
    let f = v[0];
    let g;
    if C::ZCASH {
        if f & 0x80 == 0 { return None; }
        g = f & 0x20 != 0;
        v[0] &= 0x1f;
    } else {
        g = f & 0x80 != 0;
        v[0] &= 0x3f;
    }
    if f & 0x40 != 0 { return None; }
    let ints: Vec<BigUint> = v.chunks(nb).map(BigUint::from_bytes_be).collect();
    if ints.iter().any(|i| *i >= C::Q::p()) { return None; }
    let p = lift(T::of(&ints), b, g)?;
    if in_subgroup(&Some(p), &C::r()) { Some(p) } else { None }
}
/// coordinates of point data: infinity is all zeros
pub fn coords<T: K>(p: &Pt<T>) -> Vec<BigUint> {
    let z = T::zero();
    let (x, y) = p.unwrap_or((z, z));
    let mut v = x.ints();
    v.extend(y.ints());
    v
}
pub fn json1(c: &[BigUint]) -> String { format!("[\"{}\",\"{}\"]", c[0], c[1]) }
pub fn json2(c: &[BigUint]) -> String { format!("[[\"{}\",\"{}\"],[\"{}\",\"{}\"]]", c[0], c[1], c[2], c[3]) }
pub fn borsh1(c: &[BigUint], nb: usize) -> Vec<u8> { [le_bytes(&c[0], nb), le_bytes(&c[1], nb)].concat() }
/// real part first
pub fn borsh2(c: &[BigUint], nb: usize) -> Vec<u8> {
    [le_bytes(&c[1], nb), le_bytes(&c[0], nb), le_bytes(&c[3], nb), le_bytes(&c[2], nb)].concat()
}

/// a structure of points: G1 and G2 fields in order (proof: a b c; key: alpha beta gamma delta ic*)
#[derive(Clone, Debug)]
pub enum Slot { P1(Vec<BigUint>), P2(Vec<BigUint>) }
impl Slot {
    pub fn json(&self) -> String { match self { Slot::P1(c) => json1(c), Slot::P2(c) => json2(c) } }
    pub fn borsh(&self, nb: usize) -> Vec<u8> { match self { Slot::P1(c) => borsh1(c, nb), Slot::P2(c) => borsh2(c, nb) } }
    pub fn coords(&self) -> &Vec<BigUint> { match self { Slot::P1(c) => c, Slot::P2(c) => c } }
    pub fn coords_mut(&mut self) -> &mut Vec<BigUint> { match self { Slot::P1(c) => c, Slot::P2(c) => c } }
    pub fn is_zero(&self) -> bool { self.coords().iter().all(|c| c.is_zero()) }
    /// valid point data: coordinates in range, on the curve, in the subgroup (or infinity)
    pub fn valid<C: PC>(&self) -> bool {
        if self.coords().iter().any(|c| *c >= C::Q::p()) { return false; }
        if self.is_zero() { return true; }
        match self {
            Slot::P1(c) => valid::<E<C::Q>>(&Some((K::of(&c[..1]), K::of(&c[1..]))), C::b1(), &C::r()),
            Slot::P2(c) => valid::<Q2<C::Q>>(&Some((K::of(&c[..2]), K::of(&c[2..]))), C::b2(), &C::r()),
        }
    }
    pub fn comp<C: PC>(&self) -> Vec<u8> {
        match self {
            Slot::P1(c) => comp::<C, E<C::Q>>(&if self.is_zero() { None } else { Some((K::of(&c[..1]), K::of(&c[1..]))) }),
            Slot::P2(c) => comp::<C, Q2<C::Q>>(&if self.is_zero() { None } else { Some((K::of(&c[..2]), K::of(&c[2..]))) }),
        }
    }
}
pub fn proof_slots<C: PC>(p: &bellman::groth16::Proof<C>) -> Vec<Slot> {
    let n = C::nb();
    vec![Slot::P1(coords::<E<C::Q>>(&of_g(&p.a, n))), Slot::P2(coords::<Q2<C::Q>>(&of_g(&p.b, n))), Slot::P1(coords::<E<C::Q>>(&of_g(&p.c, n)))]
}
pub fn key_slots<C: PC>(k: &TruncatedVerifyingKey<C>) -> Vec<Slot> {
    let n = C::nb();
    let mut v = vec![Slot::P1(coords::<E<C::Q>>(&of_g(&k.alpha_g1, n)))];
    for q in &[k.beta_g2, k.gamma_g2, k.delta_g2] { v.push(Slot::P2(coords::<Q2<C::Q>>(&of_g(q, n)))); }
    for q in k.ic.iter() { v.push(Slot::P1(coords::<E<C::Q>>(&of_g(q, n)))); }
    v
}
pub fn same(a: &[Slot], b: &[Slot]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.coords() == y.coords())
}
pub fn proof_json(s: &[Slot]) -> String { format!("{{\"a\":{},\"b\":{},\"c\":{}}}", s[0].json(), s[1].json(), s[2].json()) }
pub fn key_json(s: &[Slot]) -> String {
    let ic: Vec<String> = s[4..].iter().map(|x| x.json()).collect();
    format!("{{\"alpha_g1\":{},\"beta_g2\":{},\"gamma_g2\":{},\"delta_g2\":{},\"ic\":[{}]}}", s[0].json(), s[1].json(), s[2].json(), s[3].json(), ic.join(","))
}
pub fn proof_borsh(s: &[Slot], nb: usize) -> Vec<u8> { s.iter().flat_map(|x| x.borsh(nb)).collect() }
pub fn key_borsh(s: &[Slot], nb: usize) -> Vec<u8> {
    let mut v: Vec<u8> = s[..4].iter().flat_map(|x| x.borsh(nb)).collect();
    v.extend(&((s.len() - 4) as u32).to_le_bytes());
    for x in s[4..].iter() { v.extend(x.borsh(nb)); }
    v
}
pub fn comp_all<C: PC>(s: &[Slot]) -> Vec<u8> { s.iter().flat_map(|x| x.comp::<C>()).collect() }

// ---- sources and sinks with faults
/// hands out at most `step` bytes per call, sometimes interrupted, failing at `fail`
pub struct Src<'a> { pub d: &'a [u8], pub pos: usize, pub step: usize, pub intr: bool, pub fail: Option<(usize, io::ErrorKind)>, pub once: bool, pub tick: usize }
impl<'a> Src<'a> {
    pub fn new(d: &'a [u8], step: usize) -> Self { Src { d, pos: 0, step, intr: false, fail: None, once: false, tick: 0 } }
}
impl<'a> io::Read for Src<'a> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.tick += 1;
        if self.intr && self.tick % 3 == 1 { return Err(io::ErrorKind::Interrupted.into()); }
        let mut n = b.len().min(self.step).min(self.d.len() - self.pos);
        if let Some((f, k)) = self.fail {
            if self.pos >= f { if self.once { self.fail = None; } return Err(k.into()); }
            n = n.min(f - self.pos);
        }
        b[..n].copy_from_slice(&self.d[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
pub struct Sink { pub d: Vec<u8>, pub step: usize, pub intr: bool, pub fail: Option<(usize, io::ErrorKind)>, pub once: bool, pub tick: usize }
impl Sink { pub fn new(step: usize) -> Self { Sink { d: vec![], step, intr: false, fail: None, once: false, tick: 0 } } }
impl<'a> io::Write for &'a mut Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.tick += 1;
        if self.intr && self.tick % 3 == 1 { return Err(io::ErrorKind::Interrupted.into()); }
        let mut n = b.len().min(self.step);
        if let Some((f, k)) = self.fail {
            if self.d.len() >= f { if self.once { self.fail = None; } return Err(k.into()); }
            n = n.min(f - self.d.len());
        }
        self.d.extend(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}

/// independent decoding of the binary form
pub fn ref_binary<C: PC>(key: bool, b: &[u8]) -> Option<Vec<Slot>> {
    let (n1, n2) = (C::nb(), 2 * C::nb());
    let mut v = vec![];
    let mut p = 0;
    let shape: Vec<bool> = if key { vec![false, true, true, true] } else { vec![false, true, false] };
    for g2 in shape {
        let n = if g2 { n2 } else { n1 };
        if b.len() < p + n { return None; }
        v.push(if g2 { Slot::P2(coords(&Some(uncomp::<C, Q2<C::Q>>(&b[p..p + n], C::b2())?))) } else { Slot::P1(coords(&Some(uncomp::<C, E<C::Q>>(&b[p..p + n], C::b1())?))) });
        p += n;
    }
    if key {
        for ch in b[p..].chunks(n1) {
            if ch.len() < n1 { return None; }
            v.push(Slot::P1(coords(&Some(uncomp::<C, E<C::Q>>(ch, C::b1())?))));
        }
    }
    Some(v)
}

// ---- independent decoding of the other forms
fn jnum(v: &serde_json::Value) -> Option<BigUint> { let s = v.as_str()?; if s.is_empty() || !s.bytes().all(|b| b.is_ascii_digit()) || (s.len() > 1 && s.starts_with('0')) { return None; } BigUint::parse_bytes(s.as_bytes(), 10) }
fn jp1(v: &serde_json::Value) -> Option<Slot> { let a = v.as_array()?; if a.len() != 2 { return None; } Some(Slot::P1(vec![jnum(&a[0])?, jnum(&a[1])?])) }
fn jp2(v: &serde_json::Value) -> Option<Slot> {
    let a = v.as_array()?;
    if a.len() != 2 { return None; }
    let mut c = vec![];
    for x in a { let x = x.as_array()?; if x.len() != 2 { return None; } c.push(jnum(&x[0])?); c.push(jnum(&x[1])?); }
    Some(Slot::P2(c))
}
/// a key or proof from its JSON form
pub fn ref_json(key: bool, s: &str) -> Option<Vec<Slot>> {
    let v: serde_json::Value = serde_json::from_str(s).ok()?;
    let o = v.as_object()?;
    if key {
        if o.len() != 5 { return None; }
        let mut r = vec![jp1(o.get("alpha_g1")?)?, jp2(o.get("beta_g2")?)?, jp2(o.get("gamma_g2")?)?, jp2(o.get("delta_g2")?)?];
        for x in o.get("ic")?.as_array()? { r.push(jp1(x)?); }
        Some(r)
    } else {
        if o.len() != 3 { return None; }
        Some(vec![jp1(o.get("a")?)?, jp2(o.get("b")?)?, jp1(o.get("c")?)?])
    }
}
/// a key or proof from its Borsh form
pub fn ref_borsh(key: bool, b: &[u8], nb: usize) -> Option<Vec<Slot>> {
    let mut p = 0;
    let mut take = |n: usize| -> Option<Vec<BigUint>> { if b.len() < p + n * nb { return None; } let v = b[p..p + n * nb].chunks(nb).map(BigUint::from_bytes_le).collect(); p += n * nb; Some(v) };
    let sw = |v: Vec<BigUint>| vec![v[1].clone(), v[0].clone(), v[3].clone(), v[2].clone()];
    let mut r = vec![Slot::P1(take(2)?), Slot::P2(sw(take(4)?))];
    if key {
        r.push(Slot::P2(sw(take(4)?)));
        r.push(Slot::P2(sw(take(4)?)));
        let rest = &b[p..];
        if rest.len() < 4 { return None; }
        let n = u32::from_le_bytes([rest[0], rest[1], rest[2], rest[3]]) as usize;
        if rest.len() != 4 + n.checked_mul(2 * nb)? { return None; }
        for ch in rest[4..].chunks(2 * nb) { r.push(Slot::P1(ch.chunks(nb).map(BigUint::from_bytes_le).collect())); }
    } else {
        r.push(Slot::P1(take(2)?));
        if p != b.len() { return None; }
    }
    Some(r)
}
pub fn slot1<C: PC>(s: &Slot) -> Option<C::G1Affine> { let c = s.coords(); to_g::<C::G1Affine, E<C::Q>>(&if s.is_zero() { None } else { Some((K::of(&c[..1]), K::of(&c[1..]))) }, C::nb()) }
pub fn slot2<C: PC>(s: &Slot) -> Option<C::G2Affine> { let c = s.coords(); to_g::<C::G2Affine, Q2<C::Q>>(&if s.is_zero() { None } else { Some((K::of(&c[..2]), K::of(&c[2..]))) }, C::nb()) }
pub fn key_of_slots<C: PC>(s: &[Slot]) -> Option<TruncatedVerifyingKey<C>> {
    let mut ic = vec![];
    for x in &s[4..] { ic.push(slot1::<C>(x)?); }
    Some(TruncatedVerifyingKey { alpha_g1: slot1::<C>(&s[0])?, beta_g2: slot2::<C>(&s[1])?, gamma_g2: slot2::<C>(&s[2])?, delta_g2: slot2::<C>(&s[3])?, ic })
}
pub fn proof_of_slots<C: PC>(s: &[Slot]) -> Option<bellman::groth16::Proof<C>> {
    Some(bellman::groth16::Proof { a: slot1::<C>(&s[0])?, b: slot2::<C>(&s[1])?, c: slot1::<C>(&s[2])? })
}
