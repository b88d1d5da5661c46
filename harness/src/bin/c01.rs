//! C01: field elements behave as integers modulo the prime, in every operator form
use fawkes_crypto::core::field::Field;
use fawkes_crypto::native::num::Num;
use fv::engine::guard;
use fv::refm::*;
use fv::{ensure, gen, viol, Check, Ctx, Res};
use num::bigint::BigUint;
use num::{One, Zero};

fn v<F: RefField>(n: Num<F>) -> BigUint {
    tb(&n.0)
}

fn ops<F: RefField + Field>(c: &mut Ctx) -> Res {
    let p = F::p();
    let mut pool: Vec<F> = vec![];
    for _ in 0..24 {
        let fa = gen::related(&mut c.r, &pool);
        let fb_ = gen::related(&mut c.r, &pool);
        pool.push(fa);
        pool.push(fb_);
        let (a, b) = (Num(fa), Num(fb_));
        let (ia, ib) = (tb(&fa), tb(&fb_));
        c.case(format!("{} {} {}", F::NAME, ia, ib));
        c.sample(|| format!("{}: a={} b={}", F::NAME, ia, ib));
        let add = (&ia + &ib) % &p;
        let sub = (&ia + &p - &ib) % &p;
        let mul = (&ia * &ib) % &p;
        macro_rules! forms {
            ($op:tt, $as:tt, $exp:expr, $n:expr) => {{
                let mut t1 = a; t1 $as b;
                let mut t2 = a; t2 $as &b;
                let got = [a $op b, a $op &b, &a $op b, &a $op &b, t1, t2];
                for (i, g) in got.iter().enumerate() {
                    ensure!(c, v(*g) == $exp, "{} form {} of {} and {} in {} gave {} instead of {}", $n, i, ia, ib, F::NAME, v(*g), $exp);
                }
            }};
        }
        forms!(+, +=, add, "+");
        forms!(-, -=, sub, "-");
        forms!(*, *=, mul, "*");
        if !ib.is_zero() {
            let inv = modinv(&ib, &p).unwrap();
            let q = (&ia * &inv) % &p;
            forms!(/, /=, q, "/");
            ensure!(c, v(b / b).is_one() && v(a / Num::one()) == ia, "{} / itself or 1 in {}", ib, F::NAME);
            ensure!(c, v(b.inverse()) == inv, "inverse of {} in {}: {}", ib, F::NAME, v(b.inverse()));
        }
        let neg = (&p - &ia) % &p;
        ensure!(c, v(-a) == neg && v(-&a) == neg, "negation of {} in {}", ia, F::NAME);
        ensure!(c, v(a.double()) == (&ia + &ia) % &p, "double of {} in {}", ia, F::NAME);
        ensure!(c, v(a.square()) == (&ia * &ia) % &p, "square of {} in {}", ia, F::NAME);
        ensure!(c, a.is_zero() == ia.is_zero(), "is_zero of {}", ia);
        let odd = (&ia % 2u32).is_one();
        ensure!(c, a.is_odd() == odd && a.is_even() == !odd, "parity of {} in {}", ia, F::NAME);
        ensure!(c, (a == b) == (ia == ib) && (a != b) == (ia != ib), "equality of {} and {}", ia, ib);
        ensure!(c, a.into_inner() == fa && Num::new(fa).0 == fa, "wrapping of {}", ia);
        // square roots: exist exactly for squares and square back
        match (a.sqrt(), is_square(&ia, &p)) {
            (Some(s), true) => {
                let is = v(s);
                ensure!(c, (&is * &is) % &p == ia, "sqrt({}) in {} gave {}", ia, F::NAME, is);
            }
            (None, false) => c.obs(1),
            (g, e) => viol!("sqrt({}) in {}: root found {} expected {}", ia, F::NAME, g.is_some(), e),
        }
        let sq = (&ia * &ia) % &p;
        let s = Num::<F>(fb(&sq)).sqrt();
        ensure!(c, s.map(|x| v(x) == ia || v(x) == neg).unwrap_or(false), "sqrt of the square of {} in {}", ia, F::NAME);
        // a few steps of composed arithmetic tracked in integers
        let mut x = a;
        let mut ix = ia.clone();
        for _ in 0..6 {
            match c.r.below(7) {
                0 => { x += b; ix = (ix + &ib) % &p; }
                1 => { x = x - &b; ix = (ix + &p - &ib) % &p; }
                2 => { x = &x * b; ix = (ix * &ib) % &p; }
                3 => { x = x.square() + Num::one(); ix = (&ix * &ix + 1u32) % &p; }
                4 => { x = -x; ix = (&p - ix) % &p; }
                5 => if !ix.is_zero() { x = x.inverse(); ix = modinv(&ix, &p).unwrap(); }
                _ => if !ib.is_zero() { x /= b; ix = (ix * modinv(&ib, &p).unwrap()) % &p; }
            }
            ensure!(c, v(x) == ix, "composed arithmetic in {} starting from {} and {}", F::NAME, ia, ib);
        }
    }
    Ok(())
}

fn consts<F: RefField + Field>(c: &mut Ctx) -> Res {
    let p = F::p();
    ensure!(c, v(Num::<F>::zero()).is_zero(), "zero() in {}", F::NAME);
    ensure!(c, v(Num::<F>::one()).is_one(), "one() in {}", F::NAME);
    ensure!(c, v(Num::<F>::minusone()) == &p - 1u32, "minusone() in {}", F::NAME);
    // the modulus the crate works with, as seen from outside
    ensure!(c, v(Num::<F>::minusone()) + 1u32 == p, "modulus of {}", F::NAME);
    ensure!(c, F::NUM_BITS as usize == F::nbits(), "bit length of {}", F::NAME);
    let a = match c.iter % 4 { 0 => Num::zero(), 1 => Num::one(), _ => Num(gen::shaped::<F>(&mut c.r)) };
    let z = Num::<F>::zero();
    ensure!(c, guard(|| a / z).is_err(), "{} / 0 was not refused in {}", v(a), F::NAME);
    ensure!(c, guard(|| a / &z).is_err() && guard(|| &a / z).is_err() && guard(|| &a / &z).is_err(), "x / 0 not refused");
    ensure!(c, guard(|| { let mut t = a; t /= z; t }).is_err() && guard(|| { let mut t = a; t /= &z; t }).is_err(), "x /= 0 not refused");
    ensure!(c, guard(|| z.inverse()).is_err(), "1 / 0 was not refused in {}", F::NAME);
    ensure!(c, z.sqrt().map(|s| s.is_zero()).unwrap_or(false), "sqrt(0) in {}", F::NAME);
    c.case(F::NAME);
    Ok(())
}

fn main() {
    let mut ck = Check::new("C01", "pairs of field elements drawn from uniform and boundary shapes (0, p-1, powers of two, limb and byte patterns of p, (p+-1)/2, inverses, values related to earlier ones); a case is non-trivial and distinct by its operand values, and every operator form is compared with BigUint arithmetic modulo hard-coded primes");
    macro_rules! f { ($t:ty, $n:expr, $m:expr) => {
        ck = ck.add($n, 400, 20000, ops::<$t>).add($m, 4, 200, consts::<$t>);
    } }
    f!(BnFr, "ops-bn-fr", "consts-bn-fr");
    f!(BnFq, "ops-bn-fq", "consts-bn-fq");
    f!(BnFs, "ops-bn-fs", "consts-bn-fs");
    f!(BlsFr, "ops-bls-fr", "consts-bls-fr");
    f!(BlsFq, "ops-bls-fq", "consts-bls-fq");
    f!(BlsFs, "ops-bls-fs", "consts-bls-fs");
    ck.assume("num-bigint arithmetic is correct").run()
}
