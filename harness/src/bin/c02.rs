//! C02: conversions into and out of field elements keep the integer value
use fawkes_crypto::core::field::Field;
use fawkes_crypto::native::num::Num;
use fv::engine::guard;
use fv::refm::*;
use fv::{ensure, gen, Check, Ctx, Res};
use num::bigint::{BigInt, BigUint, Sign};
use num::{One, Signed, Zero};

fn v<F: RefField>(n: Num<F>) -> BigUint {
    tb(&n.0)
}

fn ri64(c: &mut Ctx) -> i64 {
    match c.r.below(8) {
        0 => i64::MIN,
        1 => i64::MAX,
        2 => i64::MIN + c.r.below(5) as i64,
        3 => -(c.r.below(5) as i64),
        4 => (c.r.u64() as i32) as i64,
        5 => 1i64 << c.r.below(63),
        6 => -(1i64 << c.r.below(63)),
        _ => c.r.u64() as i64,
    }
}

fn modp(i: &BigInt, p: &BigUint) -> BigUint {
    let pi = BigInt::from_biguint(Sign::Plus, p.clone());
    let mut r = i % &pi;
    if r.is_negative() {
        r = r + pi;
    }
    r.to_biguint().unwrap()
}

/// big integers around multiples of p and of powers of two, far beyond p too
fn wide(c: &mut Ctx, p: &BigUint) -> BigUint {
    let one = BigUint::one();
    match c.r.below(9) {
        0 => gen::shaped_big(&mut c.r, p),
        1 => p * BigUint::from(c.r.below(6) as u32) + gen::shaped_big(&mut c.r, p),
        2 => p * c.r.u64() + BigUint::from(c.r.below(3) as u32),
        3 => p.clone(),
        4 => p + 1u32,
        5 => (&one << (p.bits() + c.r.below(80))) - c.r.below(2),
        6 => {
            let n = c.r.range(0, 150);
            BigUint::from_bytes_be(&c.r.bytes(n))
        }
        7 => p * p - 1u32,
        _ => p * 2u32 - 1u32,
    }
}

fn ints<F: RefField + Field>(c: &mut Ctx) -> Res {
    let p = F::p();
    for _ in 0..20 {
        let i = ri64(c);
        ensure!(c, v(Num::<F>::from(i)) == modp(&BigInt::from(i), &p), "Num::from({}i64) in {}", i, F::NAME);
        let i3 = match c.r.below(4) { 0 => i32::MIN, 1 => i32::MAX, 2 => -(c.r.below(3) as i32), _ => c.r.u64() as i32 };
        ensure!(c, v(Num::<F>::from(i3)) == modp(&BigInt::from(i3), &p), "Num::from({}i32) in {}", i3, F::NAME);
        let u = match c.r.below(3) { 0 => u64::MAX, 1 => c.r.below(3) as u64, _ => c.r.u64() >> c.r.below(64) };
        ensure!(c, v(Num::<F>::from(u)) == BigUint::from(u), "Num::from({}u64) in {}", u, F::NAME);
        let u3 = match c.r.below(3) { 0 => u32::MAX, 1 => c.r.below(3) as u32, _ => c.r.u64() as u32 };
        ensure!(c, v(Num::<F>::from(u3)) == BigUint::from(u3), "Num::from({}u32) in {}", u3, F::NAME);
        let back: u64 = Num::<F>::from(u).into();
        ensure!(c, back == u, "u64 round trip of {} in {}", u, F::NAME);
        c.case(format!("{}{}{}{}{}", F::NAME, i, i3, u, u3));
    }
    for b in [true, false].iter() {
        ensure!(c, v(Num::<F>::from(*b)) == BigUint::from(*b as u32), "Num::from({})", b);
        ensure!(c, Num::<F>::from(*b).into_bool() == *b, "bool round trip");
    }
    let x = gen::shaped_big(&mut c.r, &p);
    let n = Num::<F>(fb(&x));
    if x > BigUint::from(1u32) {
        ensure!(c, guard(|| n.into_bool()).is_err(), "into_bool accepted {} in {}", x, F::NAME);
    }
    let r = guard(|| Into::<u64>::into(n));
    if x.bits() > 64 {
        ensure!(c, r.is_err(), "Into<u64> truncated {} in {}", x, F::NAME);
    } else {
        ensure!(c, r.ok().map(BigUint::from) == Some(x.clone()), "Into<u64> of {} in {}", x, F::NAME);
    }
    for k in [64usize, 65, 100, 128, 192, 250].iter() {
        let y: BigUint = BigUint::one() << *k;
        if y < p {
            let n = Num::<F>(fb(&y));
            ensure!(c, guard(|| Into::<u64>::into(n)).is_err(), "Into<u64> truncated 2^{} in {}", k, F::NAME);
        }
    }
    Ok(())
}

fn bigs<F: RefField + Field>(c: &mut Ctx) -> Res {
    let p = F::p();
    for _ in 0..20 {
        let x = wide(c, &p);
        let red = &x % &p;
        c.case(format!("{} {}", F::NAME, x));
        c.sample(|| format!("{} from integer {}", F::NAME, x));
        ensure!(c, v(Num::<F>::from(x.clone())) == red, "Num::from(BigUint {}) in {}", x, F::NAME);
        for s in [Sign::Plus, Sign::Minus].iter() {
            let i = BigInt::from_biguint(*s, x.clone());
            ensure!(c, v(Num::<F>::from(i.clone())) == modp(&i, &p), "Num::from(BigInt {}) in {}", i, F::NAME);
        }
        // big-endian blobs of any length, leading zeros included
        let mut blob = vec![0u8; c.r.below(4)];
        blob.extend_from_slice(&x.to_bytes_be());
        ensure!(c, v(Num::<F>::from_binary_be(&blob)) == red, "from_binary_be of {:?} in {}", blob, F::NAME);
        let n = Num::<F>(fb(&red));
        let be = n.into_binary_be();
        ensure!(c, be == be_bytes(&red, F::nbytes()), "into_binary_be of {} in {}: {:?}", red, F::NAME, be);
        ensure!(c, Num::<F>::from_binary_be(&be) == n, "binary round trip of {} in {}", red, F::NAME);
        let b: BigUint = n.into();
        ensure!(c, b == red, "Into<BigUint> of {} in {}", red, F::NAME);
        ensure!(c, n.to_string() == red.to_string(), "to_string of {} in {}", red, F::NAME);
        ensure!(c, v(Num::<F>::from(red.to_string().as_str())) == red, "Num::from(\"{}\") in {}", red, F::NAME);
        // bit iterators: full width, value preserving, opposite orders
        let le: Vec<bool> = n.iterbit_le().collect();
        let mut acc = BigUint::zero();
        for (i, bit) in le.iter().enumerate() {
            if *bit { acc = acc + (BigUint::one() << i); }
        }
        ensure!(c, acc == red && le.len() >= F::nbits(), "iterbit_le of {} in {}", red, F::NAME);
        let mut be: Vec<bool> = n.iterbit_be().collect();
        be.reverse();
        ensure!(c, be == le, "iterbit_be is not the reverse of iterbit_le for {} in {}", red, F::NAME);
    }
    ensure!(c, v(Num::<F>::from_binary_be(&[])).is_zero(), "empty blob");
    Ok(())
}

fn cross<F: RefField + Field, G: RefField + Field>(c: &mut Ctx) -> Res {
    for _ in 0..10 {
        let x = gen::shaped_big(&mut c.r, &F::p());
        let x = if c.r.chance(1, 4) { wide(c, &G::p()) % F::p() } else { x };
        let n = Num::<F>(fb(&x));
        c.case(format!("{}->{} {}", F::NAME, G::NAME, x));
        let e = &x % G::p();
        ensure!(c, v(n.into_other::<G>()) == e, "into_other of {} from {} to {}", x, F::NAME, G::NAME);
        ensure!(c, v(Num::<G>::from_other(n)) == e, "from_other of {} from {} to {}", x, F::NAME, G::NAME);
    }
    Ok(())
}

fn seeds<F: RefField + Field>(c: &mut Ctx) -> Res {
    for _ in 0..6 {
        let n = [0, 1, 31, 32, 63, 64, 65, 127, 128, 129, 200, 500][c.r.below(12)];
        let blob = c.r.bytes(n);
        c.case([F::NAME.as_bytes(), &blob].concat());
        let g = v(Num::<F>::from_seed(&blob));
        let e = tb(&from_seed::<F>(&blob));
        ensure!(c, g == e, "from_seed of a {} byte blob in {}: {} instead of {}", n, F::NAME, g, e);
    }
    Ok(())
}

fn main() {
    let mut ck = Check::new("C02", "conversions of boundary and random machine integers, arbitrary-size integers around multiples of p, blobs with leading zeros, strings, bits and cross-field values, compared with BigInt arithmetic; a case is distinct by the converted value and field");
    macro_rules! f { ($t:ty, $a:expr, $b:expr) => {
        ck = ck.add($a, 200, 10000, ints::<$t>).add($b, 200, 10000, bigs::<$t>);
    } }
    f!(BnFr, "ints-bn-fr", "bigs-bn-fr");
    f!(BnFq, "ints-bn-fq", "bigs-bn-fq");
    f!(BnFs, "ints-bn-fs", "bigs-bn-fs");
    f!(BlsFr, "ints-bls-fr", "bigs-bls-fr");
    f!(BlsFq, "ints-bls-fq", "bigs-bls-fq");
    f!(BlsFs, "ints-bls-fs", "bigs-bls-fs");
    ck = ck
        .add("cross-bnfr-bnfs", 100, 5000, cross::<BnFr, BnFs>)
        .add("cross-bnfs-bnfr", 100, 5000, cross::<BnFs, BnFr>)
        .add("cross-bnfq-bnfr", 100, 5000, cross::<BnFq, BnFr>)
        .add("cross-bnfr-bnfq", 100, 5000, cross::<BnFr, BnFq>)
        .add("cross-blsfr-blsfs", 100, 5000, cross::<BlsFr, BlsFs>)
        .add("cross-blsfs-blsfr", 100, 5000, cross::<BlsFs, BlsFr>)
        .add("cross-blsfq-blsfr", 100, 5000, cross::<BlsFq, BlsFr>)
        .add("cross-blsfr-blsfq", 100, 5000, cross::<BlsFr, BlsFq>)
        .add("cross-blsfq-bnfs", 100, 5000, cross::<BlsFq, BnFs>)
        .add("seed-bn-fr", 60, 2000, seeds::<BnFr>)
        .add("seed-bn-fs", 60, 2000, seeds::<BnFs>)
        .add("seed-bn-fq", 60, 2000, seeds::<BnFq>)
        .add("seed-bls-fr", 60, 2000, seeds::<BlsFr>)
        .add("seed-bls-fs", 60, 2000, seeds::<BlsFs>);
    ck.assume("num-bigint and the harness's own Blake2s (checked against RFC 7693 behaviour of the dependency) are correct").run()
}
