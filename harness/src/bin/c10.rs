//! C10: signal arithmetic keeps value, linear form and constraints consistent
use fawkes_crypto::circuit::bool::CBool;
use fawkes_crypto::circuit::num::CNum;
use fawkes_crypto::core::cs::ConstraintSystem;
use fawkes_crypto::core::field::Field;
use fawkes_crypto::core::signal::Signal;
use fawkes_crypto::native::num::Num;
use fv::moncs::MonCS;
use fv::prog::{Profile, Script, JF};
use fv::refm::*;
use fv::{ensure, gen, viol, Check, Ctx, Res};
use std::collections::BTreeMap;

type Cs<F> = MonCS<F>;

/// a register: the real signal, its expected value, its expected linear form
struct Reg<'a, F: Field> {
    s: CNum<'a, Cs<F>>,
    v: Option<E<F>>,
    lc: BTreeMap<usize, E<F>>,
}

fn norm<F: RefField>(mut m: BTreeMap<usize, E<F>>) -> BTreeMap<usize, E<F>> {
    m.retain(|_, v| !v.is_zero());
    m
}
fn comb<F: RefField>(a: &BTreeMap<usize, E<F>>, b: &BTreeMap<usize, E<F>>, k: E<F>) -> BTreeMap<usize, E<F>> {
    let mut m = a.clone();
    for (i, v) in b {
        let e = m.entry(*i).or_insert_with(E::zero);
        *e = *e + *v * k;
    }
    norm(m)
}
fn scale<F: RefField>(a: &BTreeMap<usize, E<F>>, k: E<F>) -> BTreeMap<usize, E<F>> {
    norm(a.iter().map(|(i, v)| (*i, *v * k)).collect())
}
fn konst<F: RefField>(k: E<F>) -> BTreeMap<usize, E<F>> {
    norm(vec![(0, k)].into_iter().collect())
}
fn is_const<F: RefField>(m: &BTreeMap<usize, E<F>>) -> Option<E<F>> {
    if m.keys().all(|k| *k == 0) { Some(m.get(&0).cloned().unwrap_or_else(E::zero)) } else { None }
}

fn programs<F: RefField + Field>(c: &mut Ctx) -> Res {
    let cs = &Cs::<F>::new();
    let mut regs: Vec<Reg<F>> = vec![];
    let mut pool: Vec<F> = vec![];
    let missing = c.r.chance(1, 4);
    let n = c.r.range(10, 60);
    let mut kinds = String::new();
    for step in 0..n {
        let op = if regs.len() < 3 { c.r.below(3) } else { c.r.below(20) };
        let (nv0, nc0) = (cs.nvars(), cs.ncons());
        let k = E(match c.r.below(6) { 0 => F::zero(), 1 => F::one(), 2 => (-E::<F>::one()).0, _ => gen::related(&mut c.r, &pool) });
        let kn = Num(k.0);
        let (i, j) = if regs.is_empty() { (0, 0) } else { (c.r.below(regs.len()), if c.r.chance(1, 8) { usize::MAX } else { c.r.below(regs.len()) }) };
        let j = if j == usize::MAX { i } else { j };
        let form = c.r.below(6);
        kinds.push((b'a' + op as u8) as char);
        // forms of a binary operator
        macro_rules! bin { ($a:expr, $b:expr, $o:tt, $oa:tt) => {{
            let (a, b) = ($a, $b);
            match form {
                0 => a.clone() $o b.clone(),
                1 => a.clone() $o b,
                2 => a $o b.clone(),
                3 => a $o b,
                4 => { let mut t = a.clone(); t $oa b.clone(); t }
                _ => { let mut t = a.clone(); t $oa b; t }
            }
        }} }
        macro_rules! rbin { ($k:expr, $b:expr, $o:tt) => {{
            let (k, b) = ($k, $b);
            match form % 4 {
                0 => k $o b.clone(),
                1 => k $o b,
                2 => &k $o b.clone(),
                _ => &k $o b,
            }
        }} }
        // (signal, value, expected linear form if no new variable, free of constraints)
        let (s, v, lc): (CNum<Cs<F>>, Option<E<F>>, Option<BTreeMap<usize, E<F>>>) = match op {
            0 => {
                let s = match c.r.below(4) {
                    0 => CNum::from_const(cs, &kn),
                    1 if k.is_zero() => CNum::zero(cs),
                    1 if k == E::one() => CNum::one(cs),
                    _ if !regs.is_empty() => match c.r.below(3) {
                        0 if k.is_zero() => regs[i].s.derive_zero(),
                        0 if k == E::one() => regs[i].s.derive_one(),
                        _ => regs[i].s.derive_const(&kn),
                    },
                    _ => CNum::from_const(cs, &kn),
                };
                (s, Some(k), Some(konst(k)))
            }
            1 | 2 => {
                let v = if missing && c.r.chance(1, 2) { None } else { Some(k) };
                let nv = v.map(|x| Num(x.0));
                let input = c.r.chance(1, 4);
                let s = if input { let ix = cs.alloc_input(nv); CNum::from_var(cs, nv, ix) } else { CNum::alloc(cs, nv.as_ref()) };
                ensure!(c, cs.nvars() == nv0 + 1 && cs.ncons() == nc0, "allocation made {} variables", cs.nvars() - nv0);
                ensure!(c, cs.lc(&s) == vec![(nv0, E::one())], "allocated signal is not its variable");
                let lc = vec![(nv0, E::one())].into_iter().collect();
                pool.push(k.0);
                regs.push(Reg { s, v, lc });
                continue;
            }
            3 | 4 => { let s = bin!(&regs[i].s, &regs[j].s, +, +=); (s, z(regs[i].v, regs[j].v, |a, b| a + b), Some(comb(&regs[i].lc, &regs[j].lc, E::one()))) }
            5 | 6 => { let s = bin!(&regs[i].s, &regs[j].s, -, -=); (s, z(regs[i].v, regs[j].v, |a, b| a - b), Some(comb(&regs[i].lc, &regs[j].lc, -E::one()))) }
            7 => {
                let s = bin!(&regs[i].s, &kn, +, +=);
                (s, regs[i].v.map(|a| a + k), Some(comb(&regs[i].lc, &konst(k), E::one())))
            }
            8 => {
                let s = bin!(&regs[i].s, &kn, -, -=);
                (s, regs[i].v.map(|a| a - k), Some(comb(&regs[i].lc, &konst(k), -E::one())))
            }
            9 => { let s = bin!(&regs[i].s, &kn, *, *=); (s, if k.is_zero() { Some(k) } else { regs[i].v.map(|a| a * k) }, Some(scale(&regs[i].lc, k))) }
            10 => {
                if k.is_zero() { continue; }
                let s = bin!(&regs[i].s, &kn, /, /=);
                (s, regs[i].v.map(|a| a.div(k)), Some(scale(&regs[i].lc, k.inv().unwrap())))
            }
            11 => { let s = rbin!(kn, &regs[i].s, +); (s, regs[i].v.map(|a| a + k), Some(comb(&konst(k), &regs[i].lc, E::one()))) }
            12 => { let s = rbin!(kn, &regs[i].s, -); (s, regs[i].v.map(|a| k - a), Some(comb(&konst(k), &regs[i].lc, -E::one()))) }
            13 => { let s = rbin!(kn, &regs[i].s, *); (s, if k.is_zero() { Some(k) } else { regs[i].v.map(|a| a * k) }, Some(scale(&regs[i].lc, k))) }
            14 | 15 | 16 => {
                let (s, jj) = if op == 16 { (regs[i].s.square(), i) } else { (bin!(&regs[i].s, &regs[j].s, *, *=), j) };
                let v = z(regs[i].v, regs[jj].v, |a, b| a * b);
                match (is_const(&regs[i].lc), is_const(&regs[jj].lc)) {
                    (Some(a), _) => (s, v, Some(scale(&regs[jj].lc, a))),
                    (_, Some(b)) => (s, v, Some(scale(&regs[i].lc, b))),
                    _ => (s, v, None),
                }
            }
            17 | 18 => {
                // division: the divisor must be non-zero where it is known
                if regs[j].v.map(|x| x.is_zero()).unwrap_or(false) { continue; }
                let kc = is_const(&regs[j].lc);
                if kc.map(|x| x.is_zero()).unwrap_or(false) { continue; }
                let s = bin!(&regs[i].s, &regs[j].s, /, /=);
                let v = z(regs[i].v, regs[j].v, |a, b| a.div(b));
                match kc {
                    Some(b) => (s, v, Some(scale(&regs[i].lc, b.inv().unwrap()))),
                    None => (s, v, None),
                }
            }
            _ => {
                let s = if form % 2 == 0 { -regs[i].s.clone() } else { -&regs[i].s };
                (s, regs[i].v.map(|a| -a), Some(scale(&regs[i].lc, -E::one())))
            }
        };
        c.note(format!("{}: op {} form {} regs {} {} k={} -> {:?}", step, op, form, i, j, k.big(), v.map(|x| x.big().to_string())));
        if let Err(e) = cs.audit(&s) {
            viol!("step {} (op {} form {}): {}", step, op, form, e);
        }
        let got = cs.lc(&s);
        let gm: BTreeMap<usize, E<F>> = got.iter().cloned().collect();
        match &lc {
            Some(l) => {
                ensure!(c, cs.nvars() == nv0 && cs.ncons() == nc0, "linear operation {} form {} allocated {} variables and emitted {} constraints", op, form, cs.nvars() - nv0, cs.ncons() - nc0);
                ensure!(c, gm == *l, "operation {} form {} has the wrong linear form", op, form);
            }
            None => { c.count("non-linear operations", 1); }
        }
        // constants are reported as such, and only constants
        match (s.as_const(), is_const(&gm)) {
            (Some(a), Some(b)) => { ensure!(c, E(a.0) == b, "as_const of operation {} is {} instead of {}", op, E(a.0).big(), b.big()); c.count("constant signals", 1); }
            (None, None) => c.obs(1),
            (a, b) => viol!("operation {} form {}: reported constant {:?}, linear form constant {:?}", op, form, a.map(|x| E(x.0).big().to_string()), b.map(|x| x.big().to_string())),
        }
        match (s.get_value(), v) {
            (Some(a), Some(b)) => { ensure!(c, E(a.0) == b, "operation {} form {} on regs {} {} carries {} instead of {}", op, form, i, j, E(a.0).big(), b.big()); }
            (None, Some(b)) => {
                // every operand had a value, so the result has one
                viol!("operation {} form {} lost its value {}", op, form, b.big());
            }
            _ => c.obs(1),
        }
        // a known constant may stand in for a missing value (audited above)
        let v = v.or(s.get_value().map(|x| E(x.0)));
        if let Some(x) = v { pool.push(x.0); }
        regs.push(Reg { s, v, lc: gm });
    }
    c.case(format!("{} {} {}", F::NAME, kinds, c.iter));
    c.count("signals audited", cs.audits());
    c.count("constraints", cs.ncons() as u64);
    cs.verdict()?;
    c.obs(1);
    // operands were not disturbed by later operations
    for (k, r) in regs.iter().enumerate() {
        let g: BTreeMap<usize, E<F>> = cs.lc(&r.s).into_iter().collect();
        ensure!(c, g == r.lc, "register {} changed after the fact", k);
    }
    Ok(())
}

fn z<F: RefField>(a: Option<E<F>>, b: Option<E<F>>, f: impl Fn(E<F>, E<F>) -> E<F>) -> Option<E<F>> {
    match (a, b) { (Some(a), Some(b)) => Some(f(a, b)), _ => None }
}

/// long linear combinations over many variables, merged in random order
fn wide<F: RefField + Field>(c: &mut Ctx) -> Res {
    let cs = &Cs::<F>::new();
    let n = if c.r.chance(1, 12) { c.r.range(60, 300) } else { c.r.range(2, 60) };
    let vars: Vec<(CNum<Cs<F>>, E<F>)> = (0..n).map(|_| {
        let v = E(gen::shaped::<F>(&mut c.r));
        let nv = Some(Num(v.0));
        (if c.r.chance(1, 3) { let ix = cs.alloc_input(nv); CNum::from_var(cs, nv, ix) } else { CNum::alloc(cs, nv.as_ref()) }, v)
    }).collect();
    let mk = |c: &mut Ctx| {
        let mut s = CNum::zero(cs);
        let mut v = E::zero();
        let mut m: BTreeMap<usize, E<F>> = BTreeMap::new();
        for _ in 0..c.r.below(2 * n) {
            let i = c.r.below(n);
            let k = E(match c.r.below(4) { 0 => F::one(), 1 => (-E::<F>::one()).0, _ => gen::shaped(&mut c.r) });
            if c.r.bool() { s += &vars[i].0 * Num(k.0); v = v + vars[i].1 * k; *m.entry(i).or_insert_with(E::zero) = m.get(&i).cloned().unwrap_or_else(E::zero) + k; }
            else { s -= Num(k.0) * &vars[i].0; v = v - vars[i].1 * k; *m.entry(i).or_insert_with(E::zero) = m.get(&i).cloned().unwrap_or_else(E::zero) - k; }
        }
        (s, v, m)
    };
    let (a, va, ma) = mk(c);
    let (b, vb, mb) = mk(c);
    let back = |m: &BTreeMap<usize, E<F>>| -> BTreeMap<usize, E<F>> { norm(m.iter().map(|(i, v)| (cs.lc(&vars[*i].0)[0].0, *v)).collect()) };
    for (s, v, m, w) in [
        (&a, va, back(&ma), "a"),
        (&b, vb, back(&mb), "b"),
        (&(&a + &b), va + vb, comb(&back(&ma), &back(&mb), E::one()), "a+b"),
        (&(&a - &b), va - vb, comb(&back(&ma), &back(&mb), -E::one()), "a-b"),
        (&(&b - &a), vb - va, comb(&back(&mb), &back(&ma), -E::one()), "b-a"),
        (&(&a - &a), E::zero(), BTreeMap::new(), "a-a"),
        (&((&a + &b) - &b), va, back(&ma), "a+b-b"),
    ].iter() {
        cs.audit(s)?;
        let g: BTreeMap<usize, E<F>> = cs.lc(s).into_iter().collect();
        ensure!(c, g == *m, "linear form of {} over {} variables", w, n);
        ensure!(c, s.get_value().map(|x| E(x.0)) == Some(*v), "value of {} over {} variables", w, n);
        ensure!(c, s.as_const().is_some() == is_const(m).is_some(), "constness of {}", w);
    }
    let p = &a * &b;
    cs.audit(&p)?;
    ensure!(c, p.get_value().map(|x| E(x.0)) == Some(va * vb), "product over {} variables", n);
    cs.verdict()?;
    c.case(format!("{} {} {}", F::NAME, n, c.iter));
    c.count("wide forms", 1);
    Ok(())
}

/// whole gadget programs: every register audited against the reference run
fn gadgets<F: JF>(c: &mut Ctx) -> Res {
    let p = Profile { len: c.r.range(10, 40), heavy: if c.r.chance(1, 6) { 2 } else { 1 }, inputs: true };
    let s = Script::<F>::random(&mut c.r, p);
    let w = s.witness(&mut c.r, false);
    let ev = match s.eval(&w) { Some(e) => e, None => { c.count("outside domain", 1); c.obs(1); return Ok(()) } };
    c.note(s.show());
    let cs = &MonCS::<F>::new();
    let g = s.run(cs, Some(&w));
    c.case(format!("{}{:?}", F::NAME, s.ops.len() + c.iter * 1000));
    for (i, (a, b)) in g.nums.iter().zip(ev.nums.iter()).enumerate() {
        cs.audit(a)?;
        ensure!(c, a.get_value().map(|x| E(x.0)) == Some(*b), "number register {} carries {:?} instead of {}: {}", i, a.get_value().map(|x| E(x.0).big().to_string()), b.big(), s.show());
    }
    for (i, (a, b)) in g.bools.iter().zip(ev.bools.iter()).enumerate() {
        cs.audit_bool(a)?;
        let a: &CBool<_> = a;
        ensure!(c, a.get_value() == Some(*b), "boolean register {}: {}", i, s.show());
    }
    for (a, b) in g.points.iter().zip(ev.points.iter()) {
        cs.audit(&a.x)?;
        cs.audit(&a.y)?;
        ensure!(c, a.get_value().map(|v| (E(v.x.0), E(v.y.0))) == Some((b.x, b.y)), "point register: {}", s.show());
    }
    let pv: Vec<Option<E<F>>> = cs.input_values();
    ensure!(c, pv == ev.publics.iter().map(|x| Some(*x)).collect::<Vec<_>>(), "published values: {}", s.show());
    cs.verdict()?;
    c.count("signals audited", cs.audits());
    c.count("constraints", cs.ncons() as u64);
    Ok(())
}

fn main() {
    Check::new("C10", "random straight-line programs over every operator form (owned, borrowed, assigning) mixing constants, plain numbers, variables, public variables and missing values; after each step the signal's value, merged linear form, constness and the growth of the system are compared with an independent computation; distinct by program")
        .add("programs-bn", 12000, 600000, programs::<BnFr>)
        .add("programs-bls", 6000, 300000, programs::<BlsFr>)
        .add("wide-bn", 3000, 100000, wide::<BnFr>)
        .add("wide-bls", 1500, 50000, wide::<BlsFr>)
        .add("gadgets-bn", 300, 20000, gadgets::<BnFr>)
        .add("gadgets-bls", 300, 20000, gadgets::<BlsFr>)
        .assume("division by a variable holding zero is outside the domain (the native division refuses it)")
        .run()
}
