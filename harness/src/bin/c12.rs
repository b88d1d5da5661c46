//! C12: bit, comparison, selection and equality gadgets compute the right answer
use fawkes_crypto::circuit::bitify::*;
use fawkes_crypto::circuit::bool::CBool;
use fawkes_crypto::circuit::mux::c_mux3;
use fawkes_crypto::circuit::num::CNum;
use fawkes_crypto::core::signal::Signal;
use fawkes_crypto::native::num::Num;
use fv::engine::guard;
use fv::gen;
use fv::moncs::MonCS;
use fv::prog::{int, JF};
use fv::refm::*;
use fv::sig::{bits_of, boo, num, var};
use fv::{ensure, Check, Ctx, Res};
use ::num::bigint::BigUint;
use ::num::One;

type M<F> = MonCS<F>;

fn ok<F: JF>(c: &mut Ctx, cs: &M<F>, what: &str) -> Res {
    cs.verdict().map_err(|e| format!("{}: {}", what, e))?;
    c.obs(cs.audits());
    Ok(())
}
fn check_bits<F: JF>(c: &mut Ctx, cs: &M<F>, b: &[CBool<M<F>>], want: &[bool], what: &str) -> Res {
    ensure!(c, b.len() == want.len(), "{}: {} bits instead of {}", what, b.len(), want.len());
    for (i, (x, w)) in b.iter().zip(want).enumerate() {
        cs.audit_bool(x)?;
        ensure!(c, x.get_value() == Some(*w), "{}: bit {} is {:?}, expected {}", what, i, x.get_value(), w);
        if let Some(k) = x.as_const() { ensure!(c, k == *w, "{}: constant bit {}", what, i); }
    }
    Ok(())
}
fn check_num<F: JF>(c: &mut Ctx, cs: &M<F>, x: &CNum<M<F>>, w: E<F>, what: &str) -> Res {
    cs.audit(x)?;
    ensure!(c, x.get_value() == Some(Num(w.0)), "{}: got {:?}, expected {}", what, x.get_value().map(|v| E(v.0).big()), w.big());
    if let Some(k) = x.as_const() { ensure!(c, E(k.0) == w, "{}: constant value", what); }
    Ok(())
}

/// plain decomposition of v into n bits: right when it fits, refused when not
fn decompose<F: JF>(c: &mut Ctx, v: &BigUint, n: usize) -> Res {
    let cs = &M::<F>::new();
    let e = E(fb::<F>(v));
    let x = num(&mut c.r, cs, e);
    let fits = v.bits() <= n;
    let what = format!("decomposition of {} into {} bits (constant: {})", v, n, x.as_const().is_some());
    let b = guard(|| c_into_bits_le(&x, n));
    if fits {
        let b = b.map_err(|e| format!("{}: {}", what, e))?;
        check_bits(c, cs, &b, &bits_of(v, n), &what)?;
        let y = c_from_bits_le(&b);
        check_num(c, cs, &y, e, "recomposition")?;
        ok(c, cs, &what)?;
    } else {
        ensure!(c, b.is_err() || !cs.satisfied(), "{}: accepted", what);
        c.count("too wide values refused", 1);
        cs.integrity()?;
    }
    Ok(())
}

fn small_widths<F: JF>(c: &mut Ctx) -> Res {
    // every value of every width up to 7, and a few too wide
    let w = 1 + c.iter % 7;
    for v in 0..(1u32 << (w + 1)) + 3 {
        for _ in 0..3 { decompose::<F>(c, &BigUint::from(v), w)?; }
    }
    c.case(format!("{}{}", F::NAME, w));
    Ok(())
}

fn wide<F: JF>(c: &mut Ctx) -> Res {
    let n = if c.r.chance(1, 4) { F::nbits() - c.r.below(3) } else { c.r.range(1, F::nbits()) };
    let two = BigUint::one() << n;
    let lim = if two < F::p() { two } else { F::p() };
    let v = match c.r.below(8) {
        0 => tb(&gen::shaped::<F>(&mut c.r)),
        1 => lim.clone() - 1u32,
        2 => lim.clone() % F::p(),
        _ => gen::shaped_big(&mut c.r, &lim),
    };
    c.case(format!("{}{}{}", F::NAME, n, v));
    decompose::<F>(c, &v, n)
}

fn strict<F: JF>(c: &mut Ctx) -> Res {
    let v = E(gen::shaped::<F>(&mut c.r));
    let cs = &M::<F>::new();
    let x = num(&mut c.r, cs, v);
    let what = format!("strict decomposition of {} (constant: {})", v.big(), x.as_const().is_some());
    c.case(&what);
    let b = c_into_bits_le_strict(&x);
    check_bits(c, cs, &b, &bits_of(&v.big(), F::nbits()), &what)?;
    let y = c_from_bits_le(&b);
    check_num(c, cs, &y, v, "recomposition of strict bits")?;
    ok(c, cs, &what)
}

fn recompose<F: JF>(c: &mut Ctx) -> Res {
    let cs = &M::<F>::new();
    let n = c.r.range(1, F::nbits() + 8);
    let bits: Vec<bool> = (0..n).map(|_| c.r.bool()).collect();
    let sb: Vec<_> = bits.iter().map(|b| boo(&mut c.r, cs, *b)).collect();
    c.case(format!("{:?}", bits));
    check_num(c, cs, &c_from_bits_le(&sb), E(fbr::<F>(&int(&bits))), "recomposition")?;
    ok(c, cs, "recomposition")
}

fn comp_one<F: JF>(c: &mut Ctx, v: &BigUint, n: usize, ct: &BigUint) -> Res {
    let cs = &M::<F>::new();
    let bits = bits_of(v, n);
    let sb: Vec<_> = bits.iter().map(|b| boo(&mut c.r, cs, *b)).collect();
    let r = c_comp_constant(&sb, Num(fb::<F>(ct)));
    let what = format!("comparison of {} ({} bits) with {}", v, n, ct);
    check_bits(c, cs, &[r], &[v > ct], &what)?;
    ok(c, cs, &what)
}
fn comp_small<F: JF>(c: &mut Ctx) -> Res {
    // every constant against every value, widths 1..=6
    let mut k = c.iter;
    let mut w = 1;
    while w < 6 && k >= (1 << (w + 2)) { k -= 1 << (w + 2); w += 1; }
    let ct = BigUint::from((k % (1 << (w + 2))) as u32);
    for v in 0..1u32 << w { comp_one::<F>(c, &BigUint::from(v), w, &ct)?; }
    c.case(format!("{}{}{}", F::NAME, w, ct));
    Ok(())
}
fn comp_wide<F: JF>(c: &mut Ctx) -> Res {
    let n = match c.r.below(4) { 0 => F::nbits(), 1 => F::nbits() - 1, _ => c.r.range(1, F::nbits()) };
    let two = BigUint::one() << n;
    let v = if c.r.chance(1, 4) { let x = gen::uniform_big(&mut c.r, &two); if c.r.bool() { two.clone() - 1u32 - (x >> c.r.below(n)) } else { x } } else { gen::shaped_big(&mut c.r, &two) };
    let p = F::p();
    let ct = match c.r.below(7) {
        0 => v.clone(),
        1 => v.clone() + 1u32,
        2 => if v > BigUint::from(0u32) { v.clone() - 1u32 } else { v.clone() },
        3 => { let i = c.r.below(n); let m = BigUint::one() << i; if (&v & &m) == m { v.clone() - m } else { v.clone() + m } }
        4 => p.clone() - 1u32,
        5 => gen::shaped_big(&mut c.r, &two),
        _ => tb(&gen::shaped::<F>(&mut c.r)),
    } % &p;
    c.case(format!("{}{}{}{}", F::NAME, n, v, ct));
    comp_one::<F>(c, &v, n, &ct)
}

fn mux<F: JF>(c: &mut Ctx) -> Res {
    let rows = c.r.below(5);
    let mut pool: Vec<F> = vec![];
    let t: Vec<Vec<F>> = (0..rows).map(|_| (0..8).map(|_| { let x = match c.r.below(4) { 0 => F::zero(), 1 => F::one(), _ => gen::related(&mut c.r, &pool) }; pool.push(x); x }).collect()).collect();
    let tn: Vec<Vec<Num<F>>> = t.iter().map(|r| r.iter().map(|x| Num(*x)).collect()).collect();
    c.case(format!("{:?}", t));
    for i in 0..8usize {
        let cs = &M::<F>::new();
        let s: Vec<_> = (0..3).map(|k| boo(&mut c.r, cs, (i >> k) & 1 == 1)).collect();
        let o = c_mux3(&s, &tn);
        ensure!(c, o.len() == rows, "selection of {} rows gave {}", rows, o.len());
        for (x, row) in o.iter().zip(t.iter()) {
            check_num(c, cs, x, E(row[i]), &format!("selection of entry {} of {:?}", i, row))?;
        }
        ok(c, cs, "selection")?;
    }
    let cs = &M::<F>::new();
    let s: Vec<_> = (0..4).map(|_| boo(&mut c.r, cs, true)).collect();
    ensure!(c, guard(|| c_mux3(&s[..2], &tn)).is_err() && guard(|| c_mux3(&s, &tn)).is_err(), "selection accepts a wrong number of bits");
    let k = if c.r.bool() { 7 } else { 9 };
    let bad = vec![vec![Num(F::one()); k]];
    ensure!(c, guard(|| c_mux3(&s[..3], &bad)).is_err(), "selection accepts a table of {} constants", k);
    Ok(())
}

fn select<F: JF>(c: &mut Ctx) -> Res {
    let cs = &M::<F>::new();
    let a = E(gen::shaped::<F>(&mut c.r));
    let b = E(gen::related::<F>(&mut c.r, &[a.0]));
    let k = c.r.bool();
    let (mut x, mut y) = (num(&mut c.r, cs, a), num(&mut c.r, cs, b));
    // linear combinations of different lengths
    for _ in 0..c.r.below(4) {
        let z = num(&mut c.r, cs, E::zero());
        if c.r.bool() { x += &z; } else { y += &z; }
    }
    let s = boo(&mut c.r, cs, k);
    c.case(format!("{}{}{}", a.big(), b.big(), k));
    let w = if k { a } else { b };
    check_num(c, cs, &x.switch(&s, &y), w, "selection of a number")?;
    check_num(c, cs, &s.if_else(&x, &y), w, "if_else of numbers")?;
    check_num(c, cs, &x.switch(&s, &x), a, "selection between equal signals")?;
    let (p, q) = (c.r.bool(), c.r.bool());
    let (bp, bq) = (boo(&mut c.r, cs, p), boo(&mut c.r, cs, q));
    check_bits(c, cs, &[bp.switch(&s, &bq), s.if_else(&bp, &bq)], &[if k { p } else { q }; 2], "selection of a bit")?;
    check_bits(c, cs, &[bp.is_eq(&bq)], &[p == q], "bit equality")?;
    let (t, f) = (CBool::<M<F>>::c_true(cs), CBool::<M<F>>::c_false(cs));
    ensure!(c, t.as_const() == Some(true) && f.as_const() == Some(false), "constant bits are {:?} and {:?}", t.as_const(), f.as_const());
    check_bits(c, cs, &[t.is_eq(&bp), f.is_eq(&bp)], &[p, !p], "equality with constant bits")?;
    let t = s.if_else(&(x.clone(), bp.clone()), &(y.clone(), bq.clone()));
    check_num(c, cs, &t.0, w, "selection of a pair")?;
    check_bits(c, cs, &[t.1], &[if k { p } else { q }], "selection of a pair")?;
    check_num(c, cs, &bp.into_num(), if p { E::one() } else { E::zero() }, "bit as number")?;
    ok(c, cs, "conditional selection")
}

fn asserts<F: JF>(c: &mut Ctx) -> Res {
    let a = match c.r.below(5) { 0 => E::zero(), 1 => E::one(), _ => E(gen::shaped::<F>(&mut c.r)) };
    let b = match c.r.below(3) { 0 => a, 1 => E(gen::related::<F>(&mut c.r, &[a.0])), _ => E(gen::shaped::<F>(&mut c.r)) };
    let (p, q) = (c.r.bool(), c.r.bool());
    c.case(format!("{}{}", a.big(), b.big()));
    {
        let cs = &M::<F>::new();
        let (x, y) = (num(&mut c.r, cs, a), num(&mut c.r, cs, b));
        check_bits(c, cs, &[x.is_zero(), y.is_zero(), x.is_eq(&y), y.is_eq(&x), x.is_eq(&x)], &[a.is_zero(), b.is_zero(), a == b, a == b, true], "zero and equality tests")?;
        ok(c, cs, "zero and equality tests")?;
    }
    for k in 0..11 {
        let cs = &M::<F>::new();
        let (x, y) = (num(&mut c.r, cs, a), num(&mut c.r, cs, b));
        let (s, t) = (boo(&mut c.r, cs, p), boo(&mut c.r, cs, q));
        if !cs.satisfied() { fv::viol!("operands"); }
        let (name, cond): (&str, bool) = match k {
            0 => ("assert_zero", a.is_zero()),
            1 => ("assert_nonzero", !a.is_zero()),
            2 => ("assert_bit", a.is_zero() || a == E::one()),
            3 => ("assert_eq", a == b),
            4 => ("assert_const", a == b),
            5 => ("bool assert_true", p),
            6 => ("bool assert_false", !p),
            7 => ("bool assert_eq", p == q),
            8 => ("bool assert_const", p == q),
            9 => ("bool assert", true),
            _ => ("into_bool().assert()", a.is_zero() || a == E::one()),
        };
        let r = guard(|| match k {
            0 => x.assert_zero(),
            1 => x.assert_nonzero(),
            2 => x.assert_bit(),
            3 => x.assert_eq(&y),
            4 => x.assert_const(&Num(b.0)),
            5 => s.assert_true(),
            6 => s.assert_false(),
            7 => s.assert_eq(&t),
            8 => s.assert_const(&q),
            9 => s.assert(),
            _ => x.into_bool().assert(),
        });
        let held = r.is_ok() && cs.satisfied();
        ensure!(c, held == cond, "{} on {} and {} / {} and {}: held {}, expected {}", name, a.big(), b.big(), p, q, held, cond);
        cs.integrity()?;
        c.count(if cond { "assertions satisfied" } else { "assertions refused" }, 1);
    }
    Ok(())
}

/// without values the same gadgets build and give no values
fn unvalued<F: JF>(c: &mut Ctx) -> Res {
    let cs = &M::<F>::new();
    let x: CNum<M<F>> = CNum::alloc(cs, None);
    let b: CBool<M<F>> = CBool::alloc(cs, None);
    let n = c.r.range(1, 30);
    c.case(format!("{}", n));
    let bits = c_into_bits_le(&x, n);
    ensure!(c, bits.len() == n && bits.iter().all(|b| b.get_value().is_none()), "value-less decomposition");
    let r = c_comp_constant(&bits, Num(gen::shaped::<F>(&mut c.r)));
    ensure!(c, r.get_value().is_none() || r.as_const().is_some(), "value-less comparison");
    ensure!(c, x.is_zero().get_value().is_none() && x.switch(&b, &(-&x)).get_value().is_none(), "value-less tests");
    let _ = var(&mut c.r, cs, E::one());
    x.assert_nonzero();
    x.assert_bit();
    ok(c, cs, "value-less gadgets")
}

fn main() {
    Check::new("C12", "gadgets run on the recording constraint system with constant, variable, public, affine and product operands; every output bit/number compared with integer arithmetic and every constraint evaluated; all values for widths up to 7 and all (value, constant) pairs up to 6 bits are enumerated, wider ones use boundary-shaped values; distinct by operands")
        .add("small-widths-bn", 14, 140, small_widths::<BnFr>)
        .add("small-widths-bls", 14, 140, small_widths::<BlsFr>)
        .add("wide-bn", 1200, 60000, wide::<BnFr>)
        .add("wide-bls", 800, 40000, wide::<BlsFr>)
        .add("strict-bn", 300, 12000, strict::<BnFr>)
        .add("strict-bls", 200, 8000, strict::<BlsFr>)
        .add("recompose-bn", 200, 8000, recompose::<BnFr>)
        .add("recompose-bls", 150, 6000, recompose::<BlsFr>)
        .add("compare-small-bn", 504, 5040, comp_small::<BnFr>)
        .add("compare-small-bls", 504, 5040, comp_small::<BlsFr>)
        .add("compare-wide-bn", 1200, 50000, comp_wide::<BnFr>)
        .add("compare-wide-bls", 1000, 40000, comp_wide::<BlsFr>)
        .add("mux-bn", 500, 30000, mux::<BnFr>)
        .add("mux-bls", 400, 20000, mux::<BlsFr>)
        .add("select-bn", 3000, 200000, select::<BnFr>)
        .add("select-bls", 2000, 100000, select::<BlsFr>)
        .add("asserts-bn", 3000, 200000, asserts::<BnFr>)
        .add("asserts-bls", 2000, 100000, asserts::<BlsFr>)
        .add("unvalued-bn", 200, 4000, unvalued::<BnFr>)
        .add("unvalued-bls", 200, 4000, unvalued::<BlsFr>)
        .assume("operand widths up to the field's bit length (the gadgets' documented domain)")
        .run()
}
