//! Reference twisted Edwards arithmetic (a = -1), affine, complete formulas,
//! and the reference EdDSA-Poseidon. Independent of the crate under test.
use crate::refm::*;
use crate::rng::R;
use num::bigint::BigUint;
use num::{One, Zero};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Pt<F: RefField> {
    pub x: E<F>,
    pub y: E<F>,
}

#[derive(Clone)]
pub struct Curve<F: RefField> {
    pub d: E<F>,
    pub l: BigUint,
    pub ma: E<F>,
    pub mb: E<F>,
    pub mu: E<F>,
    pub g: Pt<F>,
    /// torsion points k*T, T of order 8
    pub tor: Vec<Pt<F>>,
}

pub fn bn_curve() -> Curve<BnFr> {
    Curve::build(168696, 168700, BnFs::P_DEC, 337401)
}
pub fn bls_curve() -> Curve<BlsFr> {
    Curve::build(10240, 10241, BlsFs::P_DEC, 81929)
}

impl<F: RefField> Curve<F> {
    fn build(dn: u64, dd: u64, l: &str, u: u64) -> Self {
        let d = -E::<F>::n(dn).div(E::n(dd));
        let one = E::<F>::one();
        let ma = (E::n(2) * (one - d)).div(one + d);
        let mb = (-E::n(4)).div(one + d);
        let mut c = Curve {
            d,
            l: big(l),
            ma,
            mb,
            mu: E::n(u),
            g: Pt { x: E::zero(), y: one },
            tor: vec![],
        };
        // d and u must be non-squares for the formulas to be complete
        let p = F::p();
        assert!(!is_square(&d.big(), &p) && !is_square(&c.mu.big(), &p));
        c.g = c.from_scalar(E(from_seed::<F>(b"edwards_g"))).unwrap();
        let mut r = R::new(7);
        loop {
            let q = c.rand_curve_raw(&mut r);
            let t = c.mul(&q, &c.l.clone());
            let t4 = c.dbl(&c.dbl(&t));
            if !c.is_zero(&t4) {
                let mut acc = c.zero();
                for _ in 0..8 {
                    c.tor.push(acc);
                    acc = c.add(&acc, &t);
                }
                assert!(c.is_zero(&acc));
                break;
            }
        }
        assert!(c.in_subgroup(&c.g) && !c.is_zero(&c.g));
        c
    }
    pub fn zero(&self) -> Pt<F> {
        Pt { x: E::zero(), y: E::one() }
    }
    pub fn is_zero(&self, p: &Pt<F>) -> bool {
        *p == self.zero()
    }
    pub fn on(&self, p: &Pt<F>) -> bool {
        let x2 = p.x.sq();
        let y2 = p.y.sq();
        y2 - x2 == E::one() + self.d * x2 * y2
    }
    pub fn neg(&self, p: &Pt<F>) -> Pt<F> {
        Pt { x: -p.x, y: p.y }
    }
    pub fn add(&self, a: &Pt<F>, b: &Pt<F>) -> Pt<F> {
        let k = self.d * a.x * b.x * a.y * b.y;
        Pt {
            x: (a.x * b.y + b.x * a.y).div(E::one() + k),
            y: (a.y * b.y + a.x * b.x).div(E::one() - k),
        }
    }
    pub fn dbl(&self, a: &Pt<F>) -> Pt<F> {
        self.add(a, a)
    }
    /// projective double-and-add (X:Y:Z) with one final inversion
    pub fn mul(&self, a: &Pt<F>, k: &BigUint) -> Pt<F> {
        let mut acc = (E::<F>::zero(), E::<F>::one(), E::<F>::one());
        let base = (a.x, a.y, E::<F>::one());
        for i in (0..k.bits()).rev() {
            acc = self.padd(acc, acc);
            if ((k >> i) & BigUint::one()).is_one() {
                acc = self.padd(acc, base);
            }
        }
        let zi = acc.2.inv().unwrap();
        Pt { x: acc.0 * zi, y: acc.1 * zi }
    }
    fn padd(&self, p: (E<F>, E<F>, E<F>), q: (E<F>, E<F>, E<F>)) -> (E<F>, E<F>, E<F>) {
        // plain fractions: x = X/Z, y = Y/Z
        let zz = p.2 * q.2;
        let zz2 = zz.sq();
        let k = self.d * p.0 * q.0 * p.1 * q.1;
        let xn = p.0 * q.1 + q.0 * p.1;
        let yn = p.1 * q.1 + p.0 * q.0;
        let f = zz2 + k;
        let g = zz2 - k;
        (zz * xn * g, zz * yn * f, f * g)
    }
    pub fn in_subgroup(&self, p: &Pt<F>) -> bool {
        self.on(p) && self.is_zero(&self.mul(p, &self.l))
    }
    pub fn order_small(&self, p: &Pt<F>) -> Option<usize> {
        let mut acc = *p;
        for i in 1..=8 {
            if self.is_zero(&acc) {
                return Some(i);
            }
            acc = self.add(&acc, p);
        }
        None
    }
    /// both points with the given y (x, -x)
    pub fn xs_for_y(&self, y: E<F>) -> Option<E<F>> {
        let y2 = y.sq();
        let den = self.d * y2 + E::one();
        (y2 - E::one()).div(den).sqrt()
    }
    pub fn ys_for_x(&self, x: E<F>) -> Option<E<F>> {
        let x2 = x.sq();
        let den = E::one() - self.d * x2;
        (x2 + E::one()).div(den).sqrt()
    }
    /// the unique subgroup point with this x, if any
    pub fn decompress(&self, x: E<F>) -> Option<Pt<F>> {
        let y = self.ys_for_x(x)?;
        for yy in [y, -y].iter() {
            let p = Pt { x, y: *yy };
            if self.in_subgroup(&p) {
                return Some(p);
            }
        }
        None
    }
    pub fn rand_curve_raw(&self, r: &mut R) -> Pt<F> {
        loop {
            let y = E(crate::gen::uniform::<F>(r));
            if let Some(x) = self.xs_for_y(y) {
                return Pt { x: if r.bool() { x } else { -x }, y };
            }
        }
    }
    pub fn rand_subgroup(&self, r: &mut R) -> Pt<F> {
        let p = self.rand_curve_raw(r);
        self.dbl(&self.dbl(&self.dbl(&p)))
    }
    /// Montgomery coordinates; None for the identity, (0,0) for (0,-1)
    pub fn to_mont(&self, p: &Pt<F>) -> Option<(E<F>, E<F>)> {
        if p.x.is_zero() {
            return if p.y == E::one() { None } else { Some((E::zero(), E::zero())) };
        }
        let u = (E::one() + p.y).div(E::one() - p.y);
        Some((u, u.div(p.x)))
    }
    pub fn from_mont(&self, u: E<F>, v: E<F>) -> Pt<F> {
        if u.is_zero() {
            return Pt { x: E::zero(), y: -E::one() };
        }
        Pt {
            x: u.div(v),
            y: (u - E::one()).div(u + E::one()),
        }
    }
    /// map a scalar (!= -1) to a subgroup point
    pub fn from_scalar(&self, t: E<F>) -> Option<Pt<F>> {
        let t1 = t + E::one();
        if t1.is_zero() {
            return None;
        }
        let w = t1.sq() * self.mu;
        let g = |x: E<F>| (x.sq() * (x + self.ma) + x).div(self.mb);
        let even = |y: E<F>| if y.odd() { -y } else { y };
        let x2 = (-E::one()).div(self.ma) * (E::one() + w.inv().unwrap());
        let (u, v) = match g(x2).sqrt() {
            Some(y) => (x2, even(y)),
            None => {
                let x3 = x2 * w;
                (x3, even(g(x3).sqrt().expect("one of the two candidates is a square")))
            }
        };
        if v.is_zero() {
            return None;
        }
        let p = self.from_mont(u, v);
        let p8 = self.dbl(&self.dbl(&self.dbl(&p)));
        Some(p8)
    }
    /// decompose a curve point into (subgroup part, torsion part)
    pub fn split(&self, p: &Pt<F>) -> (Pt<F>, Pt<F>) {
        // k = 0 mod 8, 1 mod l kills torsion
        let inv8 = modinv(&BigUint::from(8u32), &self.l).unwrap();
        let k = inv8 * 8u32;
        let s = self.mul(p, &k);
        let t = self.add(p, &self.neg(&s));
        (s, t)
    }
    /// (2^-k mod l) * subgroup point
    pub fn div2k(&self, p: &Pt<F>, k: usize) -> Pt<F> {
        let two_k = BigUint::one() << k;
        let e = modinv(&(two_k % &self.l), &self.l).unwrap();
        self.mul(p, &e)
    }

    // EdDSA over Poseidon -----------------------------------------------------
    pub fn hash_r(&self, sk: &BigUint, m: &E<F>) -> BigUint {
        let lb = (self.l.bits() + 7) / 8;
        let mut msg = be_bytes(sk, lb);
        msg.extend_from_slice(&be_bytes(&m.big(), F::nbytes()));
        let d = crate::blake::blake2s(32, b"__fawkes", &msg);
        BigUint::from_bytes_be(&d) % &self.l
    }
    pub fn hash_ram(&self, h: &RefPoseidon<F>, r: E<F>, a: E<F>, m: E<F>) -> BigUint {
        h.hash_salt(&[r, a, m], b"eddsaposeidon").big() % &self.l
    }
    pub fn sign(&self, h: &RefPoseidon<F>, sk: &BigUint, m: E<F>) -> (BigUint, E<F>) {
        let rho = self.hash_r(sk, &m);
        let r = self.mul(&self.g, &rho).x;
        let a = self.mul(&self.g, sk).x;
        ((rho + self.hash_ram(h, r, a, m) * sk) % &self.l, r)
    }
    pub fn verify(&self, h: &RefPoseidon<F>, s: &BigUint, r: E<F>, a: E<F>, m: E<F>) -> bool {
        let (pa, pr) = match (self.decompress(a), self.decompress(r)) {
            (Some(x), Some(y)) => (x, y),
            _ => return false,
        };
        let k = self.hash_ram(h, r, a, m);
        let lhs = self.mul(&self.g, s);
        let rhs = self.add(&self.mul(&pa, &k), &pr);
        lhs == rhs
    }
}

impl<F: RefField> Pt<F> {
    pub fn show(&self) -> String {
        format!("({}, {})", self.x.big(), self.y.big())
    }
}

pub fn zero_big() -> BigUint {
    BigUint::zero()
}
