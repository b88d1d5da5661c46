//! C19: the dry-run constraint system reports exactly what the circuit does
use fawkes_crypto::circuit::num::{CNum, Index};
use fawkes_crypto::core::cs::{ConstraintSystem, TestCS};
use fawkes_crypto::core::signal::Signal;
use fawkes_crypto::native::num::Num;
use fv::engine::guard;
use fv::count::Count;
use fv::moncs::MonCS;
use fv::prog::{Profile, Script, JF};
use fv::refm::*;
use fv::{ensure, gen, viol, Check, Ctx, Res};
use std::cell::RefCell;
use std::collections::HashMap;

fn compare<F: JF>(c: &mut Ctx, t: &TestCS<F>, m: &MonCS<F>, what: &str) -> Res {
    ensure!(c, t.num_constraints() == m.ncons() && Count::count(&t.ncons) == m.ncons(), "{} constraints counted, {} emitted: {}", t.num_constraints(), m.ncons(), what);
    ensure!(c, Count::count(&t.ninputs) == m.ninputs() + 1, "{} public inputs counted (with the constant), {} created: {}", Count::count(&t.ninputs), m.ninputs(), what);
    ensure!(c, Count::count(&t.naux) == m.nvars() - 1 - m.ninputs(), "{} auxiliary variables counted, {} created: {}", Count::count(&t.naux), m.nvars() - 1 - m.ninputs(), what);
    // every variable has its own index and keeps its value
    let i = m.0.borrow();
    let mut exp: HashMap<Index, E<F>> = HashMap::new();
    for (k, id) in i.inputs.iter().enumerate().skip(1) {
        if let Some(v) = i.sys.vals[*id] { exp.insert(Index::Input(k), v); }
    }
    for (k, id) in i.aux.iter().enumerate() {
        if let Some(v) = i.sys.vals[*id] { exp.insert(Index::Aux(k), v); }
    }
    let mut got: HashMap<Index, E<F>> = t.variables.borrow().iter().map(|(k, v)| (*k, E(v.0))).collect();
    got.remove(&Index::Input(0));
    ensure!(c, got == exp, "recorded variables differ: {} recorded, {} created: {}", got.len(), exp.len(), what);
    Ok(())
}

fn scripts<F: JF>(c: &mut Ctx) -> Res {
    let p = Profile { len: c.r.range(6, 40), heavy: if c.iter % 8 == 0 { 2 } else if c.iter % 2 == 0 { 1 } else { 0 }, inputs: true };
    let s = Script::<F>::random(&mut c.r, p);
    let bad = c.r.bool();
    let w = s.witness(&mut c.r, bad);
    let ev = match s.eval(&w) { Some(e) => e, None => { c.obs(1); return Ok(()) } };
    c.note(s.show());
    c.case(format!("{}{}{}", F::NAME, s.show(), bad));
    let m = &MonCS::<F>::new();
    s.run(m, Some(&w));
    m.integrity()?;
    ensure!(c, m.satisfied() == ev.sat, "recorder says satisfied {}, reference {}: {}", m.satisfied(), ev.sat, s.show());
    let t = &TestCS::<F>::new();
    let r = guard(|| { s.run(t, Some(&w)); });
    c.count(if ev.sat { "satisfied runs" } else { "violated runs" }, 1);
    ensure!(c, r.is_ok() == ev.sat, "dry run {} although the constraints are {}: {:?} {}", if r.is_ok() { "passed" } else { "failed" }, if ev.sat { "satisfied" } else { "violated" }, r.err(), s.show());
    if ev.sat {
        compare(c, t, m, &s.show())?;
    } else {
        // it stops at the first violated constraint
        let first = m.0.borrow().unsat[0];
        ensure!(c, t.num_constraints() == first + 1, "dry run stopped at constraint {} instead of {}", t.num_constraints() - 1, first);
    }
    // without values: counts only, and never a failure
    let m = &MonCS::<F>::new();
    s.run(m, None);
    let t = &TestCS::<F>::new();
    if let Err(e) = guard(|| { s.run(t, None); }) { viol!("dry run without values failed: {} {}", e, s.show()); }
    compare(c, t, m, "no values")
}

/// constraints enforced directly, with values missing here and there
fn direct<F: JF>(c: &mut Ctx) -> Res {
    struct Plan<F: JF> { vars: Vec<(bool, Option<E<F>>)>, cons: Vec<[Vec<(usize, E<F>)>; 3]> }
    let n = c.r.range(1, 8);
    let miss = c.r.chance(1, 2);
    let vars: Vec<(bool, Option<E<F>>)> = (0..n).map(|_| (c.r.chance(1, 3), if miss && c.r.chance(1, 3) { None } else { Some(E(gen::shaped::<F>(&mut c.r))) })).collect();
    let mut cons = vec![];
    let mut viol_at = None;
    let val = |lc: &Vec<(usize, E<F>)>| lc.iter().fold(Some(E::<F>::zero()), |s, (i, k)| match (s, if *i == n { Some(E::one()) } else { vars[*i].1 }) { (Some(s), Some(v)) => Some(s + v * *k), _ => None });
    for q in 0..c.r.range(1, 6) {
        let lc = |c: &mut Ctx| -> Vec<(usize, E<F>)> { (0..c.r.range(1, 3)).map(|_| (c.r.below(n + 1), E(gen::shaped::<F>(&mut c.r)))).collect() };
        let (a, b) = (lc(c), lc(c));
        let mut d = lc(c);
        let good = c.r.chance(3, 4);
        if let (Some(x), Some(y), Some(z)) = (val(&a), val(&b), val(&d)) {
            if good { d.push((n, x * y - z)); }
            else { d.push((n, x * y - z + E(gen::uniform::<F>(&mut c.r)))); if c.r.chance(1, 2) { let k = d.len() - 1; d[k].1 = x * y - z + E::one(); } }
            if x * y != val(&d).unwrap() && viol_at.is_none() { viol_at = Some(q); }
        } else if good { d.push((n, E::one())); }
        cons.push([a, b, d]);
    }
    let plan = Plan { vars: vars.clone(), cons };
    fn go<F: JF, CS: ConstraintSystem<F = F>>(cs: &CS, p: &Plan<F>, done: &RefCell<usize>) {
        let v: Vec<CNum<CS>> = p.vars.iter().map(|(i, x)| { let x = x.map(|x| Num(x.0)); let ix = if *i { cs.alloc_input(x) } else { cs.alloc(x) }; CNum::from_var(cs, x, ix) }).collect();
        for c in p.cons.iter() {
            let f = |lc: &Vec<(usize, E<F>)>| { let mut s = CNum::zero(cs); for (i, k) in lc { if *i == v.len() { s += Num(k.0); } else { s += &v[*i] * Num(k.0); } } s };
            cs.enforce(&f(&c[0]), &f(&c[1]), &f(&c[2]));
            *done.borrow_mut() += 1;
        }
    }
    c.case(format!("{:?}", plan.cons));
    let m = &MonCS::<F>::new();
    go(m, &plan, &RefCell::new(0));
    let t = &TestCS::<F>::new();
    let done = RefCell::new(0);
    let r = guard(|| go(t, &plan, &done));
    // a known constant may stand in for a missing value, so only fully valued constraints are certain
    let certain = plan.cons.iter().all(|c| c.iter().all(|l| val(l).is_some()));
    match viol_at {
        Some(q) => {
            c.count("violations planted", 1);
            if certain {
                ensure!(c, r.is_err() && *done.borrow() == q, "violated constraint {} not reported (stopped at {})", q, done.borrow());
            } else {
                ensure!(c, r.is_err(), "violated constraint {} not reported", q);
            }
        }
        None => {
            // missing values that cancel out may or may not leave a known value
            let merged = |lc: &Vec<(usize, E<F>)>| {
                let mut m: std::collections::BTreeMap<usize, E<F>> = Default::default();
                for (i, k) in lc { let e = m.entry(*i).or_insert_with(E::zero); *e = *e + *k; }
                val(&m.into_iter().filter(|(_, k)| !k.is_zero()).collect())
            };
            let decided = |q: &[Vec<(usize, E<F>)>; 3]| match (merged(&q[0]), merged(&q[1]), merged(&q[2])) { (Some(x), Some(y), Some(z)) => x * y == z, _ => true };
            if !plan.cons.iter().all(decided) { c.count("violated only after cancellation", 1); return Ok(()); }
            c.count("satisfied or undetermined", 1);
            ensure!(c, r.is_ok(), "dry run failed on satisfied or undetermined constraints: {:?}", r);
            compare(c, t, m, "direct constraints")?;
        }
    }
    Ok(())
}

/// far more variables, constraints and terms than any gadget makes
fn long<F: JF>(c: &mut Ctx) -> Res {
    let (nv, nc) = (c.r.range(132_000, 140_000), c.r.range(66_000, 70_000));
    let wide = c.r.range(1_100, 5_000);
    let pool: Vec<E<F>> = (0..97).map(|_| E(gen::shaped::<F>(&mut c.r))).collect();
    // at most one constraint is violated, anywhere
    let bad = if c.r.bool() { Some(if c.r.bool() { c.r.below(nc) } else { nc - 1 - c.r.below(200) }) } else { None };
    c.case(format!("{} {} {} {:?} {:?}", nv, nc, wide, bad, pool[0]));
    fn go<F: JF, CS: ConstraintSystem<F = F>>(cs: &CS, nv: usize, nc: usize, wide: usize, pool: &[E<F>], bad: Option<usize>) {
        let vars: Vec<(CNum<CS>, E<F>)> = (0..nv)
            .map(|k| {
                let v = pool[k * 7 % 97] + E::n(k as u64);
                let i = if k % 2 == 0 { cs.alloc(Some(Num(v.0))) } else { cs.alloc_input(Some(Num(v.0))) };
                (CNum::from_var(cs, Some(Num(v.0)), i), v)
            })
            .collect();
        for q in 0..nc {
            let ((a, x), (b, y)) = (&vars[q % nv], &vars[(q * 31 + 5) % nv]);
            let p = *x * *y + if bad == Some(q) { E::one() } else { E::zero() };
            cs.enforce(a, b, &CNum::from_const(cs, &Num(p.0)));
        }
        // one combination of very many variables
        let (mut s, mut e) = (CNum::zero(cs), E::<F>::zero());
        for k in 0..wide {
            let k = (k * 11 + 3) % nv;
            s += &vars[k].0 * Num(pool[k % 97].0);
            e = e + vars[k].1 * pool[k % 97];
        }
        cs.enforce(&s, &CNum::from_const(cs, &Num(E::<F>::one().0)), &CNum::from_const(cs, &Num(e.0)));
    }
    let m = &MonCS::<F>::new();
    go(m, nv, nc, wide, &pool, bad);
    ensure!(c, m.satisfied() == bad.is_none(), "recorder and plan disagree about a circuit of {} constraints", nc);
    let t = &TestCS::<F>::new();
    let r = guard(|| go(t, nv, nc, wide, &pool, bad));
    c.count("constraints in long circuits", nc as u64);
    match bad {
        Some(q) => {
            ensure!(c, r.is_err(), "violated constraint {} of {} not reported", q, nc);
            ensure!(c, t.num_constraints() == q + 1, "dry run stopped at constraint {} instead of {}", t.num_constraints() as i64 - 1, q);
            Ok(())
        }
        None => {
            ensure!(c, r.is_ok(), "dry run failed on a satisfied circuit of {} constraints: {:?}", nc, r);
            compare(c, t, m, "long circuit")
        }
    }
}

fn main() {
    Check::new("C19", "random circuits and directly enforced random constraints, satisfied, violated or with missing values, run in lock-step in the dry-run system and an independent recorder; counters, indices, stored values and the failing constraint are compared; distinct by circuit")
        .add("scripts-bn", 1000, 60000, scripts::<BnFr>)
        .add("scripts-bls", 700, 30000, scripts::<BlsFr>)
        .add("direct-bn", 6000, 300000, direct::<BnFr>)
        .add("direct-bls", 3000, 150000, direct::<BlsFr>)
        .add("long-bn", 4, 60, long::<BnFr>)
        .add("long-bls", 2, 30, long::<BlsFr>)
        .assume("public fields of the dry-run system are its report")
        .run()
}
