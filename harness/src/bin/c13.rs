//! C13: bit, comparison, selection and equality gadgets cannot be cheated
use ::num::bigint::BigUint;
use ::num::One;
use fawkes_crypto::circuit::bitify::*;
use fawkes_crypto::circuit::bool::CBool;
use fawkes_crypto::circuit::mux::c_mux3;
use fawkes_crypto::circuit::num::CNum;
use fawkes_crypto::core::signal::Signal;
use fawkes_crypto::native::num::Num;
use fv::adv::{forge, Attack, Stats, Want};
use fv::engine::guard;
use fv::gen;
use fv::moncs::{Lc, MonCS, R1cs};
use fv::prog::JF;
use fv::rebind::{rebind, Built};
use fv::refm::*;
use fv::sig::{bits_of, boo, num, var};
use fv::{viol, Check, Ctx, Res};

type M<F> = MonCS<F>;

fn tally(c: &mut Ctx, s: &Stats) {
    c.obs(s.searches + s.repairs);
    c.count("completion searches", s.searches);
    c.count("search nodes", s.nodes);
    c.count("local repairs", s.repairs);
    c.count("satisfying assignments judged", s.solutions);
    c.count("of these different from the honest one", s.dishonest);
}

fn e01<F: RefField>(b: bool) -> E<F> { if b { E::one() } else { E::zero() } }

fn attack<F: JF>(c: &mut Ctx, cs: &M<F>, n0: usize, outs: Vec<Lc<F>>, want: Want<F>, what: &str) -> Res {
    let sys = cs.snapshot();
    attack_sys(c, &sys, n0, outs, want, what)
}
fn attack_sys<F: JF>(c: &mut Ctx, sys: &R1cs<F>, n0: usize, outs: Vec<Lc<F>>, want: Want<F>, what: &str) -> Res {
    let th = c.thorough;
    c.case(format!("{} {}", what, n0));
    let (st, f) = forge(&mut c.r, sys, n0, outs, &want, &|a: &mut Attack<F>| {
        a.tries = if th { 12 } else { 5 };
        a.repairs = if th { 120 } else { 30 };
    });
    tally(c, &st);
    match f {
        Some(m) => viol!("{}: {}", what, m),
        None => Ok(()),
    }
}

/// a gadget under attack: recorded system, number of statement variables, outputs, expectation
struct Case<F: JF> { sys: R1cs<F>, n0: usize, outs: Vec<Lc<F>>, want: Want<F>, what: String }

fn build<F: JF>(c: &mut Ctx) -> Option<Case<F>> {
    let cs = &M::<F>::new();
    let r = &mut c.r;
    let kind = r.below(20);
    let a = match r.below(6) { 0 => E::zero(), 1 => E::one(), _ => E(gen::shaped::<F>(r)) };
    let b = match r.below(3) { 0 => a, _ => E(gen::related::<F>(r, &[a.0])) };
    let n0;
    let outs: Vec<Lc<F>>;
    let want: Want<F>;
    let what: String;
    match kind {
        0 | 1 => {
            let n = r.range(1, 20);
            let v = gen::shaped_big(r, &(BigUint::one() << n));
            let x = var(r, cs, E(fb(&v)));
            n0 = cs.nvars();
            let o = c_into_bits_le(&x, n);
            outs = o.iter().map(|x| cs.lc(&x.0)).collect();
            want = Want::Exact(bits_of(&v, n).into_iter().map(e01).collect());
            what = format!("decomposition of {} into {} bits", v, n);
        }
        2 => {
            let n = r.range(1, 20);
            let v = (BigUint::one() << n) + gen::shaped_big(r, &(F::p() - (BigUint::one() << n)));
            let x = var(r, cs, E(fb(&v)));
            n0 = cs.nvars();
            c_into_bits_le(&x, n);
            outs = vec![];
            want = Want::Nothing;
            what = format!("decomposition of {} into {} bits", v, n);
        }
        3 | 4 => {
            let n = r.range(1, 16);
            let v = gen::shaped_big(r, &(BigUint::one() << n));
            let ct = match r.below(4) { 0 => v.clone(), 1 => v.clone() + 1u32, 2 => gen::shaped_big(r, &F::p()), _ => gen::shaped_big(r, &(BigUint::one() << (n + 1))) };
            let mut bs: Vec<CBool<M<F>>> = bits_of(&v, n).into_iter().map(|x| boo(r, cs, x)).collect();
            if bs.iter().all(|b| b.as_const().is_some()) { bs[0] = CBool::alloc(cs, Some(&bits_of(&v, 1)[0])); }
            n0 = cs.nvars();
            let o = c_comp_constant(&bs, Num(fb(&ct)));
            outs = vec![cs.lc(&o.0)];
            want = Want::Exact(vec![e01(v > ct)]);
            what = format!("comparison of {} ({} bits) with {}", v, n, ct);
        }
        5 | 6 => {
            let i = r.below(8);
            let t: Vec<Vec<Num<F>>> = (0..2).map(|_| (0..8).map(|_| Num(gen::shaped(r))).collect()).collect();
            let s: Vec<_> = (0..3).map(|k| boo(r, cs, (i >> k) & 1 == 1)).collect();
            n0 = cs.nvars();
            let o = c_mux3(&s, &t);
            outs = o.iter().map(|x| cs.lc(x)).collect();
            want = Want::Exact(t.iter().map(|t| E(t[i].0)).collect());
            what = format!("selection of entry {}", i);
        }
        7 => {
            let k = r.bool();
            let (x, y, s) = (num(r, cs, a), num(r, cs, b), boo(r, cs, k));
            n0 = cs.nvars();
            let o = x.switch(&s, &y);
            outs = vec![cs.lc(&o)];
            want = Want::Exact(vec![if k { a } else { b }]);
            what = format!("conditional selection {} of {} and {}", k, a.big(), b.big());
        }
        8 | 9 => {
            let x = var(r, cs, a);
            n0 = cs.nvars();
            let o = x.is_zero();
            outs = vec![cs.lc(&o.0)];
            want = Want::Exact(vec![e01(a.is_zero())]);
            what = format!("zero test of {}", a.big());
        }
        10 => {
            let (x, y) = (num(r, cs, a), var(r, cs, b));
            n0 = cs.nvars();
            let o = x.is_eq(&y);
            outs = vec![cs.lc(&o.0)];
            want = Want::Exact(vec![e01(a == b)]);
            what = format!("equality test of {} and {}", a.big(), b.big());
        }
        11 => {
            // false assertions
            let (x, y) = (var(r, cs, a), num(r, cs, b));
            n0 = cs.nvars();
            let (n, ok, f): (&str, bool, Box<dyn Fn()>) = match r.below(7) {
                0 => ("assert_zero", a.is_zero(), Box::new(|| x.assert_zero())),
                1 => ("assert_bit", a.is_zero() || a == E::one(), Box::new(|| x.assert_bit())),
                2 => ("assert_nonzero", !a.is_zero(), Box::new(|| x.assert_nonzero())),
                3 => ("assert_eq", a == b, Box::new(|| x.assert_eq(&y))),
                4 => ("assert_const", a == b, Box::new(|| x.assert_const(&Num(b.0)))),
                5 => ("is_eq assert_true", a == b, Box::new(|| x.is_eq(&y).assert_true())),
                _ => ("is_eq assert_false", a != b, Box::new(|| x.is_eq(&y).assert_false())),
            };
            if guard(|| f()).is_err() { return None; }
            if ok { return None; }
            outs = vec![];
            want = Want::Nothing;
            what = format!("{} on {} and {}", n, a.big(), b.big());
        }
        12 => {
            // false assertions on allocated booleans
            let (p, q) = (r.bool(), r.bool());
            let s: CBool<M<F>> = CBool::alloc(cs, Some(&p));
            let t: CBool<M<F>> = CBool::alloc(cs, Some(&q));
            n0 = cs.nvars();
            let (n, ok) = match r.below(5) {
                0 => { s.assert_true(); ("assert_true", p) }
                1 => { s.assert_false(); ("assert_false", !p) }
                2 => { s.assert_eq(&t); ("assert_eq", p == q) }
                3 => { s.assert_const(&q); ("assert_const", p == q) }
                _ => { s.is_eq(&t).assert_true(); ("is_eq", p == q) }
            };
            if ok { return None; }
            outs = vec![];
            want = Want::Nothing;
            what = format!("{} on bits {} and {}", n, p, q);
        }
        13 => {
            // an allocated boolean that is given another value
            let v = match r.below(3) { 0 => E::n(2), 1 => -E::one(), _ => { let x = E(gen::uniform::<F>(r)); if x.is_zero() || x == E::one() { E::n(3) } else { x } } };
            let _ = match r.below(3) {
                0 => CBool::alloc(cs, Some(&true)).0,
                1 => { let x: CNum<M<F>> = CNum::one(cs); x.derive_alloc::<CBool<M<F>>>(Some(&false)).0 }
                _ => <(CBool<M<F>>, CNum<M<F>>)>::alloc(cs, Some(&(true, Num::one()))).0 .0,
            };
            let mut sys = cs.snapshot();
            sys.vals[1] = Some(v);
            c.count("non-bit booleans tried", 1);
            return Some(Case { sys, n0: 2, outs: vec![], want: Want::Nothing, what: format!("allocated boolean holding {}", v.big()) });
        }
        14 => {
            let (x, y) = (var(r, cs, a), var(r, cs, b));
            n0 = cs.nvars();
            let o = [&x * &y, x.square(), &x * &y * &x];
            outs = o.iter().map(|x| cs.lc(x)).collect();
            want = Want::Exact(vec![a * b, a * a, a * b * a]);
            what = format!("products of {} and {}", a.big(), b.big());
        }
        15 => {
            if b.is_zero() { return None; }
            let (x, y) = (num(r, cs, a), var(r, cs, b));
            n0 = cs.nvars();
            let o = [&x / &y, CNum::from_const(cs, &Num(a.0)) / &y];
            outs = o.iter().map(|x| cs.lc(x)).collect();
            want = Want::Exact(vec![a.div(b); 2]);
            what = format!("quotient of {} and {}", a.big(), b.big());
        }
        16 => {
            let (p, q, k) = (r.bool(), r.bool(), r.bool());
            let (x, y, s) = (boo(r, cs, p), boo(r, cs, q), boo(r, cs, k));
            n0 = cs.nvars();
            let o = [x.switch(&s, &y), x.is_eq(&y), s.if_else(&y, &x)];
            outs = o.iter().map(|x| cs.lc(&x.0)).collect();
            want = Want::Exact(vec![e01(if k { p } else { q }), e01(p == q), e01(if k { q } else { p })]);
            what = format!("bit selection and equality {} {} {}", p, q, k);
        }
        17 => {
            // decomposition feeding a comparison
            let n = r.range(2, 12);
            let v = gen::shaped_big(r, &(BigUint::one() << n));
            let ct = gen::shaped_big(r, &(BigUint::one() << n));
            let x = var(r, cs, E(fb(&v)));
            n0 = cs.nvars();
            let o = c_comp_constant(&c_into_bits_le(&x, n), Num(fb(&ct)));
            outs = vec![cs.lc(&o.0)];
            want = Want::Exact(vec![e01(v > ct)]);
            what = format!("bits of {} ({}) compared with {}", v, n, ct);
        }
        18 => {
            // publication: the public input is the signal's value
            let x = num(r, cs, a);
            n0 = cs.nvars();
            x.inputize();
            let k = cs.nvars() - 1;
            outs = vec![vec![(k, E::one())]];
            want = Want::Exact(vec![a]);
            what = format!("publication of {}", a.big());
        }
        _ => {
            let n = r.range(1, 12);
            let v = gen::shaped_big(r, &(BigUint::one() << n));
            let bs: Vec<CBool<M<F>>> = bits_of(&v, n).into_iter().map(|x| boo(r, cs, x)).collect();
            n0 = cs.nvars();
            let x = c_from_bits_le(&bs);
            let o = c_into_bits_le(&x, n);
            outs = o.iter().map(|x| cs.lc(&x.0)).collect();
            want = Want::Exact(bits_of(&v, n).into_iter().map(e01).collect());
            what = format!("recomposition and decomposition of {} ({})", v, n);
        }
    }
    if cs.nvars() == n0 && outs.is_empty() { /* nothing allocated: still judged */ }
    Some(Case { sys: cs.snapshot(), n0, outs, want, what })
}

fn small<F: JF>(c: &mut Ctx) -> Res {
    for _ in 0..4 {
        if let Some(k) = build::<F>(c) { attack_sys(c, &k.sys, k.n0, k.outs, k.want, &k.what)?; } else { c.obs(1); }
    }
    Ok(())
}

/// full-width decompositions: aliases v + p are the classic forgery
fn strict<F: JF>(c: &mut Ctx) -> Res {
    let top = BigUint::one() << F::nbits();
    let w = &top - F::p();
    let v = match c.r.below(4) {
        0 => gen::shaped_big(&mut c.r, &F::p()),
        1 => w.clone() - 1u32 - BigUint::from(c.r.below(5) as u32),
        2 => BigUint::from(c.r.below(5) as u32),
        _ => gen::shaped_big(&mut c.r, &w),
    };
    let cs = &M::<F>::new();
    let x = var(&mut c.r, cs, E(fb(&v)));
    let n0 = cs.nvars();
    let o = c_into_bits_le_strict(&x);
    let outs = o.iter().map(|x| cs.lc(&x.0)).collect();
    attack(c, cs, n0, outs, Want::Exact(bits_of(&v, F::nbits()).into_iter().map(e01).collect()), &format!("strict decomposition of {}", v))
}

/// wide plain decompositions and comparisons of every width
fn wide<F: JF>(c: &mut Ctx) -> Res {
    let n = c.r.range(21, F::nbits() - 1);
    let cs = &M::<F>::new();
    let v = gen::shaped_big(&mut c.r, &(BigUint::one() << n));
    let x = var(&mut c.r, cs, E(fb(&v)));
    let n0 = cs.nvars();
    let b = c_into_bits_le(&x, n);
    let mut outs: Vec<Lc<F>> = b.iter().map(|x| cs.lc(&x.0)).collect();
    let mut want: Vec<E<F>> = bits_of(&v, n).into_iter().map(e01).collect();
    if c.r.bool() {
        let ct = gen::shaped_big(&mut c.r, &(BigUint::one() << n));
        let o = c_comp_constant(&b, Num(fb(&ct)));
        outs.push(cs.lc(&o.0));
        want.push(e01(v > ct));
    }
    attack(c, cs, n0, outs, Want::Exact(want), &format!("decomposition of {} into {} bits", v, n))
}

/// the adversary must be able to find forgeries: every recorded system is
/// weakened by one constraint and attacked (only counted, never a verdict)
fn teeth<F: JF>(c: &mut Ctx) -> Res {
    c.obs(1);
    if let Some(k) = build::<F>(c) {
        if k.sys.cons.is_empty() { return Ok(()); }
        let mut sys = k.sys.clone();
        let lo = sys.cons.len();
        let drop = c.r.below(lo);
        let con = sys.cons.remove(drop);
        // constraints on the statement alone do not concern the gadget
        if ![&con.a, &con.b, &con.c].iter().any(|l| l.iter().any(|(v, _)| *v >= k.n0)) && !matches!(k.want, Want::Nothing) { return Ok(()); }
        let (_, f) = forge(&mut c.r, &sys, k.n0, k.outs, &k.want, &|a: &mut Attack<F>| { a.tries = 5; a.repairs = 30; });
        c.count("weakened systems attacked", 1);
        if f.is_some() { c.count("weakened systems forged", 1); }
        else if std::env::var("TEETH").is_ok() { println!("MISSED {} drop {} of {} n0 {} nv {} {:?}", k.what, drop, lo, k.n0, sys.vals.len(), con.c.len()); }
    }
    Ok(())
}

/// gadgets built with values that invite a shortcut, then held to other values
fn other_values<F: JF>(c: &mut Ctx) -> Res {
    #[derive(Clone, Debug)]
    struct V<F: JF> { x: [E<F>; 3], b: [bool; 6] }
    fn values<F: JF>(c: &mut Ctx) -> V<F> {
        let a = match c.r.below(5) { 0 => E::zero(), 1 => E::one(), _ => E(gen::shaped::<F>(&mut c.r)) };
        let mut o = || match c.r.below(4) { 0 | 1 => a, _ => E(gen::related::<F>(&mut c.r, &[a.0])) };
        let x = [a, o(), o()];
        let k = c.r.below(64);
        let mut b = [false; 6];
        for i in 0..6 { b[i] = match k { 0 => true, 1 => false, _ => c.r.bool() }; }
        V { x, b }
    }
    let (a, b) = (values::<F>(c), values::<F>(c));
    let kind = c.r.below(16);
    let n = c.r.range(1, 6);
    let ct = gen::shaped_big(&mut c.r, &(BigUint::one() << 6));
    let t: Vec<Vec<Num<F>>> = (0..2).map(|_| (0..8).map(|_| Num(gen::shaped(&mut c.r))).collect()).collect();
    c.case(format!("{} {} {:?} {:?}", kind, n, a, b));
    let f = |v: &V<F>| -> Built<F> {
        let cs = &M::<F>::new();
        let [x, y, z] = v.x;
        let al = |e: E<F>| -> CNum<M<F>> { CNum::alloc(cs, Some(&Num(e.0))) };
        let (p, q, w) = (al(x), al(y), al(z));
        let bs: Vec<CBool<M<F>>> = v.b.iter().map(|b| CBool::alloc(cs, Some(b))).collect();
        let low = (0..n).map(|i| if v.b[i] { 1u32 << i } else { 0 }).sum::<u32>();
        let small = al(E::n(low as u64));
        let n0 = cs.nvars();
        let o = |s: &CNum<M<F>>| vec![cs.lc(s)];
        let held = |ok: bool| if ok { Want::Exact(vec![]) } else { Want::Nothing };
        let (outs, want) = match kind {
            0 => { let s = p.switch(&bs[0], &q); (o(&s), Want::Exact(vec![if v.b[0] { x } else { y }])) }
            1 => { let s = p.is_zero(); (o(&s.0), Want::Exact(vec![e01(x.is_zero())])) }
            2 => { let s = p.is_eq(&q); (o(&s.0), Want::Exact(vec![e01(x == y)])) }
            3 => { p.assert_eq(&q); (vec![], held(x == y)) }
            4 => { p.assert_zero(); (vec![], held(x.is_zero())) }
            5 => { p.assert_const(&t[0][0]); (vec![], held(x.0 == t[0][0].0)) }
            6 => { p.assert_nonzero(); (vec![], held(!x.is_zero())) }
            7 => { p.assert_bit(); (vec![], held(x.is_zero() || x == E::one())) }
            8 => { let s = &p * &q + &w; (o(&s), Want::Exact(vec![x * y + z])) }
            9 => { let s = &p / &q; (o(&s), if y.is_zero() { return Built { sys: cs.snapshot(), n0: 0, outs: vec![], want: Want::Nothing } } else { Want::Exact(vec![x.div(y)]) }) }
            10 => { let s = c_into_bits_le(&small, n); (s.iter().map(|b| cs.lc(&b.0)).collect(), Want::Exact((0..n).map(|i| e01(v.b[i])).collect())) }
            11 => { let s = c_comp_constant(&bs[..n], Num(fb(&ct))); (o(&s.0), Want::Exact(vec![e01(BigUint::from(low) > ct)])) }
            12 => { let s = c_mux3(&bs[..3], &t); let i = (0..3).map(|k| if v.b[k] { 1 << k } else { 0 }).sum::<usize>(); (s.iter().map(|x| cs.lc(x)).collect(), Want::Exact(t.iter().map(|t| E(t[i].0)).collect())) }
            13 => { let s = c_from_bits_le(&bs[..n]); (o(&s), Want::Exact(vec![E::n(low as u64)])) }
            14 => { p.inputize(); (vec![vec![(cs.nvars() - 1, E::one())]], Want::Exact(vec![x])) }
            _ => { let s = (p.clone(), bs[0].clone()).is_eq(&(q.clone(), bs[1].clone())); bs[2].assert_eq(&bs[3]); (o(&s.0), if v.b[2] == v.b[3] { Want::Exact(vec![e01(x == y && v.b[0] == v.b[1])]) } else { Want::Nothing }) }
        };
        Built { sys: cs.snapshot(), n0, outs, want }
    };
    rebind(c, &format!("gadget {} for {:?} held to {:?}", kind, a, b), &a, &b, &f)
}

fn main() {
    Check::new("C13", "each gadget's recorded constraints are attacked with the inputs fixed: goal-directed and undirected completion search, local repair from the honest witness, Jacobian-kernel moves, bit aliases; every complete satisfying assignment found is judged by the integer oracle; gadgets built with one set of values are held to another; distinct by gadget and inputs")
        .add("gadgets-bn", 4000, 30000, small::<BnFr>)
        .add("gadgets-bls", 2500, 20000, small::<BlsFr>)
        .add("strict-bn", 100, 600, strict::<BnFr>)
        .add("strict-bls", 60, 400, strict::<BlsFr>)
        .add("wide-bn", 150, 800, wide::<BnFr>)
        .add("wide-bls", 100, 500, wide::<BlsFr>)
        .add("teeth-bn", 400, 4000, teeth::<BnFr>)
        .add("other-values-bn", 6000, 200000, other_values::<BnFr>)
        .add("other-values-bls", 3000, 100000, other_values::<BlsFr>)
        .assume("forgeries outside the attacks tried are not excluded")
        .run()
}
