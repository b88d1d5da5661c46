//! Signals of a wanted value in many guises: constants, variables, public
//! inputs, sums, products, derived booleans.
use crate::gen;
use crate::moncs::MonCS;
use crate::refm::*;
use crate::rng::R;
use fawkes_crypto::circuit::bool::CBool;
use fawkes_crypto::circuit::num::CNum;
use fawkes_crypto::core::cs::ConstraintSystem;
use fawkes_crypto::core::field::Field;
use fawkes_crypto::core::signal::Signal;
use fawkes_crypto::native::num::Num;
use num::bigint::BigUint;
use num::One;

pub fn num<'a, F: RefField + Field>(r: &mut R, cs: &'a MonCS<F>, v: E<F>) -> CNum<'a, MonCS<F>> {
    let al = |v: E<F>| CNum::alloc(cs, Some(&Num(v.0)));
    match r.below(8) {
        0 | 1 => CNum::from_const(cs, &Num(v.0)),
        2 | 3 => al(v),
        4 => {
            let k = E(gen::shaped::<F>(r));
            al(v - k) + Num(k.0)
        }
        5 => {
            let ix = cs.alloc_input(Some(Num(v.0)));
            CNum::from_var(cs, Some(Num(v.0)), ix)
        }
        6 => {
            let (a, s) = (E(gen::shaped::<F>(r)), E(gen::shaped::<F>(r)));
            al(a) * Num(s.0) + al(v - a * s)
        }
        _ => {
            let (a, b) = (E(gen::shaped::<F>(r)), E(gen::shaped::<F>(r)));
            al(a) * al(b) - Num((a * b - v).0)
        }
    }
}

/// never constant
pub fn var<'a, F: RefField + Field>(r: &mut R, cs: &'a MonCS<F>, v: E<F>) -> CNum<'a, MonCS<F>> {
    loop {
        let x = num(r, cs, v);
        if x.as_const().is_none() {
            return x;
        }
    }
}

pub fn boo<'a, F: RefField + Field>(r: &mut R, cs: &'a MonCS<F>, v: bool) -> CBool<'a, MonCS<F>> {
    match r.below(7) {
        0 => CBool::from_const(cs, &v),
        1 => if v { CBool::c_true(cs) } else { CBool::c_false(cs) },
        2 | 3 => CBool::alloc(cs, Some(&v)),
        4 => (Num::one() - CBool::alloc(cs, Some(&!v)).0).into_bool(),
        5 => {
            let x = if v { E::zero() } else { E(gen::shaped::<F>(r)) + E::zero() };
            let x = if !v && x.is_zero() { E::one() } else { x };
            var(r, cs, x).is_zero()
        }
        _ => {
            let x = CNum::alloc(cs, Some(&Num::from(v)));
            x.assert_bit();
            x.into_bool()
        }
    }
}

pub fn bits_of(v: &BigUint, n: usize) -> Vec<bool> {
    (0..n).map(|i| ((v >> i) & BigUint::one()).is_one()).collect()
}
