//! Hostile value generators.
use crate::ed::{Curve, Pt};
use crate::refm::*;
use crate::rng::R;
use ff::PrimeField;
use num::bigint::BigUint;
use num::{One, Zero};

pub fn uniform_big(r: &mut R, p: &BigUint) -> BigUint {
    let n = (p.bits() + 7) / 8 + 8;
    BigUint::from_bytes_be(&r.bytes(n)) % p
}

pub fn uniform<F: RefField>(r: &mut R) -> F {
    fb(&uniform_big(r, &F::p()))
}

/// an integer below p drawn from many boundary shapes
pub fn shaped_big(r: &mut R, p: &BigUint) -> BigUint {
    let bits = p.bits();
    let one = BigUint::one();
    let small = |r: &mut R| -> BigUint {
        match r.below(4) {
            0 => BigUint::from(r.below(4) as u32),
            1 => BigUint::from(r.below(70) as u32),
            2 => BigUint::from(r.below(70000) as u32),
            _ => BigUint::from(r.u64()),
        }
    };
    let v = match r.below(20) {
        0 | 1 | 2 => uniform_big(r, p),
        3 | 4 => small(r),
        5 => p - &one - small(r) % p,
        6 => (&one << r.below(bits)) + small(r),
        7 => {
            let x = &one << r.below(bits);
            let s = small(r) % &x;
            x - s
        }
        8 => ((p - 1u32) >> 1usize) + small(r),
        9 => {
            let x = (p + 1u32) >> 1usize;
            let s = small(r) % &x;
            x - s
        }
        10 => {
            // limbs from a palette
            let n = (bits + 63) / 64;
            let pl = big_to_limbs(p, n);
            let l: Vec<u64> = (0..n)
                .map(|i| match r.below(7) {
                    0 => 0,
                    1 => u64::MAX,
                    2 => pl[i],
                    3 => pl[i].wrapping_sub(1),
                    4 => 1 << 63,
                    5 => 1,
                    _ => r.u64(),
                })
                .collect();
            limbs_to_big(&l)
        }
        11 => {
            // zero bytes at random places
            let n = (bits + 7) / 8;
            let mut b = r.bytes(n);
            for x in b.iter_mut() {
                if r.chance(2, 3) {
                    *x = 0;
                }
            }
            BigUint::from_bytes_be(&b)
        }
        12 => {
            // sparse bits
            let mut x = BigUint::zero();
            for _ in 0..r.range(1, 4) {
                x = x | (&one << r.below(bits));
            }
            x
        }
        13 => {
            // dense bits
            let mut x = (&one << bits) - 1u32;
            for _ in 0..r.range(1, 4) {
                let m = &one << r.below(bits);
                if (&x & &m) == m {
                    x = x - m;
                }
            }
            x
        }
        14 => {
            // short value: leading zero bytes
            let n = r.range(1, (bits + 7) / 8);
            BigUint::from_bytes_be(&r.bytes(n))
        }
        15 => {
            // high bits of p kept, low bits random: close to p from below
            let k = r.range(1, bits - 1);
            let hi = (p >> k) << k;
            let lo = uniform_big(r, &(&one << k));
            let x = hi + lo;
            if &x < p {
                x
            } else {
                p - 1u32
            }
        }
        16 => {
            // alias window: values v with v + p < 2^bits
            let top = &one << bits;
            let w = top - p;
            if w.is_zero() {
                BigUint::zero()
            } else {
                let mut x = uniform_big(r, &w);
                if r.bool() {
                    x = &w - 1u32 - (small(r) % &w);
                }
                x
            }
        }
        17 => {
            let a = modinv(&(small(r) + 1u32), p).unwrap_or_else(BigUint::one);
            a
        }
        18 => {
            let b = uniform_big(r, p);
            (&b * &b) % p
        }
        _ => uniform_big(r, p),
    };
    v % p
}

pub fn shaped<F: RefField>(r: &mut R) -> F {
    fb(&shaped_big(r, &F::p()))
}

/// a value related to earlier ones, to provoke coincidences
pub fn related<F: RefField>(r: &mut R, pool: &[F]) -> F {
    if pool.is_empty() || r.chance(1, 2) {
        return shaped(r);
    }
    let a = E(*r.pick(pool));
    let b = E(*r.pick(pool));
    let e = match r.below(9) {
        0 => a,
        1 => -a,
        2 => a + E::one(),
        3 => a - E::one(),
        4 => a + b,
        5 => a - b,
        6 => a * b,
        7 => a.inv().unwrap_or_else(E::zero),
        _ => a + a,
    };
    e.0
}

/// a curve point of a named kind
pub fn point<F: RefField>(r: &mut R, c: &Curve<F>) -> (Pt<F>, &'static str) {
    match r.below(10) {
        0 => (c.zero(), "identity"),
        1 => (c.tor[4], "order2"),
        2 => (c.tor[if r.bool() { 2 } else { 6 }], "order4"),
        3 => (c.tor[[1, 3, 5, 7][r.below(4)]], "order8"),
        4 | 5 => (c.rand_subgroup(r), "subgroup"),
        6 | 7 => {
            let s = c.rand_subgroup(r);
            let t = c.tor[r.range(1, 7)];
            (c.add(&s, &t), "coset")
        }
        8 => (c.g, "generator"),
        _ => {
            let k = shaped_big(r, &c.l);
            (c.mul(&c.g, &k), "g-multiple")
        }
    }
}

pub fn sub_point<F: RefField>(r: &mut R, c: &Curve<F>) -> (Pt<F>, &'static str) {
    match r.below(8) {
        0 => (c.zero(), "identity"),
        1 => (c.g, "generator"),
        2 => (c.neg(&c.g), "-generator"),
        3 => {
            let k = BigUint::from(r.range(1, 16) as u32);
            (c.mul(&c.g, &k), "small multiple")
        }
        _ => (c.rand_subgroup(r), "subgroup"),
    }
}

pub fn repr_words<F: PrimeField>(f: &F) -> Vec<u64> {
    f.into_repr().as_ref().to_vec()
}
