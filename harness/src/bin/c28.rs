//! C28: the proving backend receives exactly the circuit that was built
use bellman::{ConstraintSystem as BCS, Index as BIndex, LinearCombination, SynthesisError, Variable};
use fawkes_crypto::circuit::num::{CNum, Index};
use fawkes_crypto::core::cs::{Circuit, ConstraintSystem};
use fawkes_crypto::core::signal::Signal;
use fawkes_crypto::helpers::groth16::prover::{generate_keys, prove};
use fawkes_crypto::helpers::groth16::Groth16CS;
use fawkes_crypto::native::num::Num;
use fv::engine::guard;
use fv::g16;
use fv::count::Count;
use fv::moncs::{Lc, MonCS};
use fv::prog::{Profile, Script, JF};
use fv::refm::*;
use fv::{ensure, gen, viol, Check, Ctx, Res};
use pairing::bls12_381::Bls12;
use pairing::bn256::Bn256;
use pairing::Engine;
use std::collections::BTreeMap;
use std::marker::PhantomData;

type Val<F> = Result<F, String>;
/// a backend that records every call made to it
struct Rec<En: Engine> {
    vars: Vec<(bool, Val<En::Fr>)>,
    index: Vec<(BIndex, usize)>,
    cons: Vec<[Vec<(Variable, En::Fr)>; 3]>,
    nin: usize,
    naux: usize,
    /// like a key generator: never asks for values
    lazy: bool,
    ph: PhantomData<En>,
}
impl<En: Engine> Rec<En> {
    fn new(lazy: bool) -> Self { Rec { vars: vec![], index: vec![], cons: vec![], nin: 1, naux: 0, lazy, ph: PhantomData } }
    fn put(&mut self, input: bool, v: Result<En::Fr, SynthesisError>) -> Variable {
        let i = if input { self.nin += 1; BIndex::Input(self.nin - 1) } else { self.naux += 1; BIndex::Aux(self.naux - 1) };
        self.vars.push((input, v.map_err(|e| format!("{:?}", e))));
        self.index.push((i, self.vars.len()));
        Variable::new_unchecked(i)
    }
}
impl<En: Engine> BCS<En> for Rec<En> {
    type Root = Self;
    fn alloc<F, A, AR>(&mut self, a: A, f: F) -> Result<Variable, SynthesisError>
    where F: FnOnce() -> Result<En::Fr, SynthesisError>, A: FnOnce() -> AR, AR: Into<String> {
        let _: String = a().into();
        let v = if self.lazy { Err(SynthesisError::UnexpectedIdentity) } else { f() };
        Ok(self.put(false, v))
    }
    fn alloc_input<F, A, AR>(&mut self, a: A, f: F) -> Result<Variable, SynthesisError>
    where F: FnOnce() -> Result<En::Fr, SynthesisError>, A: FnOnce() -> AR, AR: Into<String> {
        let _: String = a().into();
        let v = if self.lazy { Err(SynthesisError::UnexpectedIdentity) } else { f() };
        Ok(self.put(true, v))
    }
    fn enforce<A, AR, LA, LB, LC>(&mut self, an: A, a: LA, b: LB, c: LC)
    where A: FnOnce() -> AR, AR: Into<String>, LA: FnOnce(LinearCombination<En>) -> LinearCombination<En>,
        LB: FnOnce(LinearCombination<En>) -> LinearCombination<En>, LC: FnOnce(LinearCombination<En>) -> LinearCombination<En> {
        let _: String = an().into();
        let l = |x: LinearCombination<En>| x.as_ref().to_vec();
        self.cons.push([l(a(LinearCombination::zero())), l(b(LinearCombination::zero())), l(c(LinearCombination::zero()))]);
    }
    fn push_namespace<NR, N>(&mut self, _: N) where NR: Into<String>, N: FnOnce() -> NR {}
    fn pop_namespace(&mut self) {}
    fn get_root(&mut self) -> &mut Self::Root { self }
}

fn norm<F: RefField>(l: Vec<(usize, E<F>)>) -> BTreeMap<usize, E<F>> {
    let mut m = BTreeMap::new();
    for (i, v) in l { let e = m.entry(i).or_insert(E::zero()); *e = *e + v; }
    m.into_iter().filter(|(_, v)| !v.is_zero()).collect()
}
struct Counters(usize, usize, usize);

/// the recorded backend calls against the independent recorder
fn compare<En: Engine>(c: &mut Ctx, rec: &Rec<En>, n: Counters, m: &MonCS<En::Fr>, what: &str) -> Res where En::Fr: JF {
    let i = m.0.borrow();
    let total = i.sys.vals.len() - 1;
    ensure!(c, rec.vars.len() == total, "backend got {} variables, the circuit created {}: {}", rec.vars.len(), total, what);
    for (k, (input, v)) in rec.vars.iter().enumerate() {
        ensure!(c, *input == i.sys.is_input[k + 1], "variable {} is {} for the backend: {}", k, if *input { "public" } else { "private" }, what);
        if rec.lazy { continue; }
        match (v, &i.sys.vals[k + 1]) {
            (Ok(g), Some(e)) => { ensure!(c, E(*g) == *e, "variable {} has value {} in the backend instead of {}: {}", k, tb(g), e.big(), what); }
            (Err(g), None) => { ensure!(c, g == "AssignmentMissing", "a missing value of variable {} is reported as {}: {}", k, g, what); c.count("missing values reported", 1); }
            (g, e) => viol!("variable {} is {:?} for the backend instead of {:?}: {}", k, g.as_ref().map(|x| tb(x).to_string()), e.map(|x| x.big().to_string()), what),
        }
    }
    ensure!(c, rec.cons.len() == i.sys.cons.len(), "backend got {} constraints, the circuit emitted {}: {}", rec.cons.len(), i.sys.cons.len(), what);
    let map: std::collections::HashMap<(bool, usize), usize> = rec.index.iter().map(|(x, p)| match x { BIndex::Input(k) => ((true, *k), *p), BIndex::Aux(k) => ((false, *k), *p) }).collect();
    let look = |v: &Variable| -> Option<usize> { match v.get_unchecked() { BIndex::Input(0) => Some(0), BIndex::Input(k) => map.get(&(true, k)).copied(), BIndex::Aux(k) => map.get(&(false, k)).copied() } };
    let mut terms = 0;
    for (q, (g, e)) in rec.cons.iter().zip(i.sys.cons.iter()).enumerate() {
        let exp: [&Lc<En::Fr>; 3] = [&e.a, &e.b, &e.c];
        for k in 0..3 {
            let mut l = vec![];
            for (v, f) in g[k].iter() {
                match look(v) { Some(p) => l.push((p, E(*f))), None => viol!("constraint {} of the backend names an unknown variable {:?}: {}", q, v.get_unchecked(), what) }
            }
            terms += l.len();
            let (x, y) = (norm(l), norm(exp[k].clone()));
            ensure!(c, x == y, "constraint {} side {} is {:?} for the backend instead of {:?}: {}", q, k, x, y, what);
        }
    }
    c.count("terms compared", terms as u64);
    c.count("constraints compared", rec.cons.len() as u64);
    c.count("variables compared", rec.vars.len() as u64);
    ensure!(c, n.0 == rec.nin && n.1 == rec.naux && n.2 == rec.cons.len(), "counters say {}/{}/{} public, private, constraints; the backend got {}/{}/{}: {}", n.0, n.1, n.2, rec.nin, rec.naux, rec.cons.len(), what);
    Ok(())
}
fn bridge<En: Engine, F: FnOnce(&Groth16CS<En, &mut Rec<En>>) -> Result<(), String>>(rec: &mut Rec<En>, f: F) -> Result<Counters, String> {
    let cs = Groth16CS::<En, &mut Rec<En>>::new(rec);
    f(&cs)?;
    let n = Counters(Count::count(&cs.ninputs), Count::count(&cs.naux), Count::count(&cs.ncons));
    Ok(n)
}

fn scripts<En: Engine>(c: &mut Ctx) -> Res where En::Fr: JF {
    let p = Profile { len: c.r.range(5, 50), heavy: if c.iter % 6 == 0 { 2 } else if c.iter % 2 == 0 { 1 } else { 0 }, inputs: true };
    let s = Script::<En::Fr>::random(&mut c.r, p);
    let bad = c.r.chance(1, 4);
    let w = s.witness(&mut c.r, bad);
    let ev = match s.eval(&w) { Some(e) => e, None => { c.obs(1); return Ok(()) } };
    c.case(s.show());
    c.sample(|| s.show());
    let m = &MonCS::<En::Fr>::new();
    s.run(m, Some(&w));
    m.integrity()?;
    let mut rec = Rec::<En>::new(false);
    let n = bridge(&mut rec, |cs| guard(|| { s.run(cs, Some(&w)); }).map_err(|e| format!("building for the backend failed: {} {}", e, s.show())))?;
    compare(c, &rec, n, m, &s.show())?;
    // the public inputs are the published values, in publication order
    let got: Vec<E<En::Fr>> = rec.vars.iter().filter(|v| v.0).map(|v| E(*v.1.as_ref().unwrap())).collect();
    ensure!(c, got == ev.publics, "public inputs of the backend are {:?} instead of the published {:?}: {}", got, ev.publics, s.show());
    c.count("published values", got.len() as u64);
    // a published value is bound to its signal: no other value satisfies the constraints
    if ev.sat {
        let sys = m.snapshot();
        if let Some(v) = sys.honest() {
            let bound = s.published();
            for (_, k) in (1..v.len()).filter(|k| sys.is_input[*k]).enumerate().filter(|(i, _)| bound[*i]) {
                let mut y = v.clone();
                y[k] = match c.r.below(3) { 0 => y[k] + E::one(), 1 => E(gen::uniform::<En::Fr>(&mut c.r)), _ => if y[k].is_zero() { E::one() } else { E::zero() } };
                if y[k] == v[k] { continue; }
                ensure!(c, sys.first_violated(&y).is_some(), "public input {} may also be {} instead of {}: {}", k, y[k].big(), v[k].big(), s.show());
                c.count("published values found bound", 1);
            }
        }
    }
    // a value-less run, both with a backend that asks for values and one that does not
    let m = &MonCS::<En::Fr>::new();
    s.run(m, None);
    for lazy in &[false, true] {
        let mut rec = Rec::<En>::new(*lazy);
        let n = bridge(&mut rec, |cs| guard(|| { s.run(cs, None); }).map_err(|e| format!("building without values failed: {} {}", e, s.show())))?;
        compare(c, &rec, n, m, &s.show())?;
    }
    Ok(())
}

/// variables and constraints created directly, some values missing
fn direct<En: Engine>(c: &mut Ctx) -> Res where En::Fr: JF {
    #[derive(Clone)]
    enum A<F: RefField> { Var(bool, Option<E<F>>), Con([Vec<(usize, E<F>)>; 3]), Publish(Vec<(usize, E<F>)>) }
    let len = c.r.range(3, 40);
    let mut plan: Vec<A<En::Fr>> = vec![];
    let mut nv = 0usize;
    for _ in 0..len {
        let lc = |c: &mut Ctx, nv: usize| -> Vec<(usize, E<En::Fr>)> { (0..c.r.below(5)).map(|_| (c.r.below(nv + 1), if c.r.chance(1, 8) { E::zero() } else { E(gen::shaped::<En::Fr>(&mut c.r)) })).collect() };
        match c.r.below(6) {
            0 | 1 | 2 => { let v = if c.r.chance(1, 4) { None } else { Some(E(gen::shaped(&mut c.r))) }; plan.push(A::Var(c.r.chance(1, 3), v)); nv += 1; }
            3 => { let l = lc(c, nv); plan.push(A::Publish(l)); }
            _ => { let l = [lc(c, nv), lc(c, nv), lc(c, nv)]; plan.push(A::Con(l)); }
        }
    }
    fn run<'a, F: JF, CS: ConstraintSystem<F = F>>(cs: &'a CS, plan: &[A<F>]) {
        let mut vars: Vec<CNum<'a, CS>> = vec![CNum::from_const(cs, &Num(E::<F>::one().0))];
        let lc = |vars: &Vec<CNum<'a, CS>>, l: &Vec<(usize, E<F>)>| {
            let mut s = CNum::from_const(cs, &Num(E::<F>::zero().0));
            for (i, k) in l { s = s + &vars[*i] * Num(k.0); }
            s
        };
        for a in plan {
            match a {
                A::Var(input, v) => {
                    let v = v.map(|x| Num(x.0));
                    let i: Index = if *input { cs.alloc_input(v) } else { cs.alloc(v) };
                    let x = CNum::from_var(cs, v, i);
                    vars.push(x);
                }
                A::Con(l) => cs.enforce(&lc(&vars, &l[0]), &lc(&vars, &l[1]), &lc(&vars, &l[2])),
                A::Publish(l) => lc(&vars, l).inputize(),
            }
        }
    }
    c.case(plan.iter().map(|p| match p { A::Var(a, b) => format!("v{}{:?}", a, b), A::Con(l) => format!("c{:?}", l), A::Publish(l) => format!("p{:?}", l) }).collect::<String>());
    let m = &MonCS::<En::Fr>::new();
    run(m, &plan);
    // what publication has to report: the value, or nothing when a value it depends on is missing
    {
        let (mut vals, mut k): (Vec<Option<E<En::Fr>>>, usize) = (vec![Some(E::one())], 1);
        let sys = m.snapshot();
        for a in plan.iter() {
            match a {
                A::Var(_, v) => { vals.push(*v); k += 1; }
                A::Con(_) => {}
                A::Publish(l) => {
                    ensure!(c, k < sys.vals.len() && sys.is_input[k], "publication did not create a public variable");
                    let clean = l.iter().all(|(i, e)| e.is_zero() || vals[*i].is_some());
                    let net = norm(l.clone());
                    let missing = net.keys().any(|i| vals[*i].is_none());
                    if missing { ensure!(c, sys.vals[k].is_none(), "a missing value was published as {:?}", sys.vals[k]); c.count("missing values published as missing", 1); }
                    if clean {
                        let e = net.iter().fold(E::zero(), |s, (i, e)| s + vals[*i].unwrap() * *e);
                        ensure!(c, sys.vals[k] == Some(e), "{} was published as {:?}", e.big(), sys.vals[k]);
                    }
                    k += 1;
                }
            }
        }
    }
    let mut rec = Rec::<En>::new(false);
    let n = bridge(&mut rec, |cs| guard(|| run(cs, &plan)).map_err(|e| format!("building for the backend failed: {}", e)))?;
    compare(c, &rec, n, m, "direct")
}

/// a circuit with any subset of its values missing
struct Holes<F: JF> { v: Vec<Option<E<F>>>, publish: Vec<bool> }
impl<F: JF> Circuit for Holes<F> {
    type F = F;
    fn synthesize<CS: ConstraintSystem<F = F>>(&self, cs: &CS) {
        for (v, p) in self.v.iter().zip(self.publish.iter()) {
            let x = CNum::alloc(cs, v.map(|e| Num(e.0)).as_ref());
            cs.enforce(&x, &x, &(&x * &x));
            if *p { x.inputize(); }
        }
    }
    fn get_inputs(&self) -> Option<Vec<Num<F>>> { None }
}
thread_local! { static SHAPE: std::cell::RefCell<Vec<bool>> = Default::default(); }
impl<F: JF> Default for Holes<F> {
    fn default() -> Self { let p = SHAPE.with(|s| s.borrow().clone()); Holes { v: vec![None; p.len()], publish: p } }
}
/// through the real key generator and prover: sizes, and missing values never replaced
fn real<En: Engine>(c: &mut Ctx) -> Res where En::Fr: JF {
    let n = c.r.range(1, 6);
    let publish: Vec<bool> = (0..n).map(|_| c.r.bool()).collect();
    SHAPE.with(|s| *s.borrow_mut() = publish.clone());
    c.case(format!("{:?}", publish));
    let p = match guard(|| generate_keys::<En, Holes<En::Fr>>()) { Ok(p) => p, Err(e) => viol!("key generation failed without values: {}", e) };
    let np = publish.iter().filter(|x| **x).count();
    ensure!(c, p.vk.ic.len() == np + 1, "the key has {} input bases for {} published signals", p.vk.ic.len(), np);
    ensure!(c, p.l.len() == 2 * n, "the key has {} private variables instead of {}", p.l.len(), 2 * n);
    let full: Vec<Option<E<En::Fr>>> = (0..n).map(|_| Some(E(gen::shaped(&mut c.r)))).collect();
    ensure!(c, guard(|| prove(&Holes { v: full.clone(), publish: publish.clone() }, &p)).is_ok(), "proving with all values failed");
    let mut holes = full.clone();
    let k = c.r.below(n);
    holes[k] = None;
    let got = guard(|| prove(&Holes { v: holes, publish: publish.clone() }, &p));
    ensure!(c, got.is_err(), "a proof was made although value {} of {} is missing", k, n);
    c.count("proofs refused for a missing value", 1);
    Ok(())
}
/// whole gadget circuits as users build them
fn user<En: Engine>(c: &mut Ctx) -> Res where En::Fr: JF {
    let len = c.r.range(4, 20);
    let s = g16::script::<En::Fr>(&mut c.r, len, 1 + c.iter % 2);
    let (w, _) = match g16::witness(&mut c.r, &s, true) { Some(k) => k, None => { c.obs(1); return Ok(()); } };
    c.case(s.show());
    let circ = g16::SC { script: s.clone(), w: Some(w) };
    let m = &MonCS::<En::Fr>::new();
    circ.synthesize(m);
    let mut rec = Rec::<En>::new(false);
    let n = bridge(&mut rec, |cs| guard(|| circ.synthesize(cs)))?;
    compare(c, &rec, n, m, &s.show())?;
    let publics: Vec<E<En::Fr>> = rec.vars.iter().filter(|v| v.0).map(|v| E(*v.1.as_ref().unwrap())).collect();
    let exp: Vec<E<En::Fr>> = circ.get_inputs().unwrap().iter().map(|x| E(x.0)).collect();
    ensure!(c, publics == exp, "public inputs in another order: {}", s.show());
    Ok(())
}

/// far more variables, constraints and terms than any gadget makes
fn long<En: Engine>(c: &mut Ctx) -> Res where En::Fr: JF {
    let (nv, nc, wide) = (c.r.range(132_000, 140_000), c.r.range(66_000, 70_000), c.r.range(1_100, 5_000));
    let pool: Vec<E<En::Fr>> = (0..97).map(|_| E(gen::shaped::<En::Fr>(&mut c.r))).collect();
    c.case(format!("{} {} {} {:?}", nv, nc, wide, pool[0]));
    fn go<F: JF, CS: ConstraintSystem<F = F>>(cs: &CS, nv: usize, nc: usize, wide: usize, pool: &[E<F>]) {
        let vars: Vec<CNum<CS>> = (0..nv)
            .map(|k| {
                let v = Num((pool[k * 7 % 97] + E::n(k as u64)).0);
                let i = if k % 2 == 0 { cs.alloc(Some(v)) } else { cs.alloc_input(Some(v)) };
                CNum::from_var(cs, Some(v), i)
            })
            .collect();
        for q in 0..nc {
            let (a, b, d) = (&vars[q % nv], &vars[(q * 31 + 5) % nv], &vars[(q * 17 + 1) % nv]);
            cs.enforce(a, &(b * Num(pool[q % 97].0)), d);
        }
        let mut s = CNum::zero(cs);
        for k in 0..wide {
            let k = (k * 11 + 3) % nv;
            s += &vars[k] * Num(pool[k % 97].0);
        }
        cs.enforce(&s, &vars[nv - 1], &s);
        s.inputize();
    }
    let m = &MonCS::<En::Fr>::new();
    go(m, nv, nc, wide, &pool);
    let mut rec = Rec::<En>::new(false);
    let n = bridge(&mut rec, |cs| guard(|| go(cs, nv, nc, wide, &pool)).map_err(|e| format!("building a long circuit failed: {}", e)))?;
    compare(c, &rec, n, m, "long circuit")
}

fn main() {
    Check::new("C28", "random circuits (gadget scripts, direct variable/constraint sequences, with all, some or no values) bridged into a recording backend that implements the proving library's constraint-system trait; every variable, value, visibility, constraint term and coefficient compared with an independent recorder of the same circuit; distinct by circuit")
        .add("scripts-bn", 250, 12000, scripts::<Bn256>)
        .add("scripts-bls", 200, 9000, scripts::<Bls12>)
        .add("direct-bn", 3000, 200000, direct::<Bn256>)
        .add("direct-bls", 2000, 100000, direct::<Bls12>)
        .add("user-bn", 60, 3000, user::<Bn256>)
        .add("user-bls", 40, 2000, user::<Bls12>)
        .add("real-bn", 24, 600, real::<Bn256>)
        .add("real-bls", 12, 300, real::<Bls12>)
        .add("long-bn", 2, 40, long::<Bn256>)
        .add("long-bls", 1, 20, long::<Bls12>)
        .run()
}
