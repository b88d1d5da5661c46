//! C18: composite signals act on every component, in order
use fawkes_crypto::circuit::bool::CBool;
use fawkes_crypto::circuit::ecc::{CEdwardsPoint, CMontgomeryPoint};
use fawkes_crypto::circuit::num::CNum;
use fawkes_crypto::circuit::poseidon::CMerkleProof;
use fawkes_crypto::core::cs::ConstraintSystem;
use fawkes_crypto::core::signal::Signal;
use fawkes_crypto::core::sizedvec::SizedVec;
use fawkes_crypto::native::ecc::{EdwardsPoint, MontgomeryPoint};
use fawkes_crypto::native::num::Num;
use fawkes_crypto::native::poseidon::MerkleProof;
use fawkes_crypto_derive::Signal;
use fv::adv::{forge, Attack, Want};
use fv::engine::guard;
use fv::gen;
use fv::moncs::MonCS;
use fv::prog::JF;
use fv::refm::*;
use fv::sig::{boo, num};
use fv::{ensure, viol, Check, Ctx, Res};
use std::marker::PhantomData;
use std::vec::IntoIter;
use typenum::*;

type M<F> = MonCS<F>;

/// the harness's own view of a composite: its leaves in declaration order
trait Shape<'a, F: JF>: Signal<'a, M<F>> {
    /// true for a boolean leaf
    fn kinds(out: &mut Vec<bool>);
    fn put(it: &mut IntoIter<CNum<'a, M<F>>>) -> Self;
    fn get(&self, out: &mut Vec<CNum<'a, M<F>>>);
    fn vput(it: &mut IntoIter<E<F>>) -> Self::Value;
    fn vget(v: &Self::Value, out: &mut Vec<E<F>>);
}

impl<'a, F: JF> Shape<'a, F> for CNum<'a, M<F>> {
    fn kinds(out: &mut Vec<bool>) { out.push(false) }
    fn put(it: &mut IntoIter<CNum<'a, M<F>>>) -> Self { it.next().unwrap() }
    fn get(&self, out: &mut Vec<CNum<'a, M<F>>>) { out.push(self.clone()) }
    fn vput(it: &mut IntoIter<E<F>>) -> Num<F> { Num(it.next().unwrap().0) }
    fn vget(v: &Num<F>, out: &mut Vec<E<F>>) { out.push(E(v.0)) }
}
impl<'a, F: JF> Shape<'a, F> for CBool<'a, M<F>> {
    fn kinds(out: &mut Vec<bool>) { out.push(true) }
    fn put(it: &mut IntoIter<CNum<'a, M<F>>>) -> Self { CBool(it.next().unwrap()) }
    fn get(&self, out: &mut Vec<CNum<'a, M<F>>>) { out.push(self.0.clone()) }
    fn vput(it: &mut IntoIter<E<F>>) -> bool { it.next().unwrap() == E::one() }
    fn vget(v: &bool, out: &mut Vec<E<F>>) { out.push(if *v { E::one() } else { E::zero() }) }
}
impl<'a, F: JF, T: Shape<'a, F>, L: Unsigned + Clone> Shape<'a, F> for SizedVec<T, L> {
    fn kinds(out: &mut Vec<bool>) { for _ in 0..L::USIZE { T::kinds(out) } }
    fn put(it: &mut IntoIter<CNum<'a, M<F>>>) -> Self { SizedVec((0..L::USIZE).map(|_| T::put(it)).collect(), PhantomData) }
    fn get(&self, out: &mut Vec<CNum<'a, M<F>>>) { for i in 0..self.0.len() { self.0[i].get(out) } }
    fn vput(it: &mut IntoIter<E<F>>) -> SizedVec<T::Value, L> { SizedVec((0..L::USIZE).map(|_| T::vput(it)).collect(), PhantomData) }
    fn vget(v: &SizedVec<T::Value, L>, out: &mut Vec<E<F>>) { for i in 0..v.0.len() { T::vget(&v.0[i], out) } }
}
macro_rules! fields {
    ($t:ty, $v:ident, [$($g:tt)*], $cons:ident { $($f:tt : $ft:ty),* }) => {
        impl<'a, F: JF, $($g)*> Shape<'a, F> for $t {
            fn kinds(out: &mut Vec<bool>) { $( <$ft as Shape<'a, F>>::kinds(out); )* }
            fn put(it: &mut IntoIter<CNum<'a, M<F>>>) -> Self { $cons { $($f: <$ft as Shape<'a, F>>::put(it)),* } }
            fn get(&self, out: &mut Vec<CNum<'a, M<F>>>) { $( self.$f.get(out); )* }
            fn vput(it: &mut IntoIter<E<F>>) -> Self::Value { $v { $($f: <$ft as Shape<'a, F>>::vput(it)),* } }
            fn vget(v: &Self::Value, out: &mut Vec<E<F>>) { $( <$ft as Shape<'a, F>>::vget(&v.$f, out); )* }
        }
    };
}
fields!(CEdwardsPoint<'a, M<F>>, EdwardsPoint, [], CEdwardsPoint { x: CNum<'a, M<F>>, y: CNum<'a, M<F>> });
fields!(CMontgomeryPoint<'a, M<F>>, MontgomeryPoint, [], CMontgomeryPoint { x: CNum<'a, M<F>>, y: CNum<'a, M<F>> });
fields!(CMerkleProof<'a, M<F>, L>, MerkleProof, [L: Unsigned + Clone], CMerkleProof { sibling: SizedVec<CNum<'a, M<F>>, L>, path: SizedVec<CBool<'a, M<F>>, L> });

// derived structures: named, positional, nested, generic; two fields of equal
// type next to each other so that mix-ups stay type-correct
#[derive(Clone)]
struct NoteV<F: JF> { owner: Num<F>, amount: Num<F>, spent: bool, frozen: bool, at: EdwardsPoint<F>, hist: SizedVec<Num<F>, U3> }
#[derive(Clone, Signal)]
#[Value = "NoteV<CS::F>"]
struct CNote<'a, CS: ConstraintSystem> where CS::F: JF {
    owner: CNum<'a, CS>, amount: CNum<'a, CS>, spent: CBool<'a, CS>, frozen: CBool<'a, CS>, at: CEdwardsPoint<'a, CS>, hist: SizedVec<CNum<'a, CS>, U3>,
}
fields!(CNote<'a, M<F>>, NoteV, [], CNote { owner: CNum<'a, M<F>>, amount: CNum<'a, M<F>>, spent: CBool<'a, M<F>>, frozen: CBool<'a, M<F>>, at: CEdwardsPoint<'a, M<F>>, hist: SizedVec<CNum<'a, M<F>>, U3> });

#[derive(Clone)]
struct PairV<F: JF>(Num<F>, Num<F>, bool);
#[derive(Clone, Signal)]
#[Value = "PairV<CS::F>"]
struct CPair<'a, CS: ConstraintSystem>(CNum<'a, CS>, CNum<'a, CS>, CBool<'a, CS>) where CS::F: JF;
fields!(CPair<'a, M<F>>, PairV, [], CPair { 0: CNum<'a, M<F>>, 1: CNum<'a, M<F>>, 2: CBool<'a, M<F>> });

#[derive(Clone)]
struct RowV<F: JF>(Num<F>, Num<F>, Num<F>, Num<F>, Num<F>, bool, bool, Num<F>, Num<F>, Num<F>);
#[derive(Clone, Signal)]
#[Value = "RowV<CS::F>"]
struct CRow<'a, CS: ConstraintSystem>(CNum<'a, CS>, CNum<'a, CS>, CNum<'a, CS>, CNum<'a, CS>, CNum<'a, CS>, CBool<'a, CS>, CBool<'a, CS>, CNum<'a, CS>, CNum<'a, CS>, CNum<'a, CS>) where CS::F: JF;
fields!(CRow<'a, M<F>>, RowV, [], CRow { 0: CNum<'a, M<F>>, 1: CNum<'a, M<F>>, 2: CNum<'a, M<F>>, 3: CNum<'a, M<F>>, 4: CNum<'a, M<F>>, 5: CBool<'a, M<F>>, 6: CBool<'a, M<F>>, 7: CNum<'a, M<F>>, 8: CNum<'a, M<F>>, 9: CNum<'a, M<F>> });

#[derive(Clone)]
struct WideV<F: JF> { z: Num<F>, a: Num<F>, y: Num<F>, b: Num<F>, x: Num<F>, c: Num<F>, w: Num<F>, d: Num<F>, v: Num<F>, e: bool, u: bool, f: Num<F> }
#[derive(Clone, Signal)]
#[Value = "WideV<CS::F>"]
struct CWide<'a, CS: ConstraintSystem> where CS::F: JF {
    z: CNum<'a, CS>, a: CNum<'a, CS>, y: CNum<'a, CS>, b: CNum<'a, CS>, x: CNum<'a, CS>, c: CNum<'a, CS>, w: CNum<'a, CS>, d: CNum<'a, CS>, v: CNum<'a, CS>, e: CBool<'a, CS>, u: CBool<'a, CS>, f: CNum<'a, CS>,
}
fields!(CWide<'a, M<F>>, WideV, [], CWide { z: CNum<'a, M<F>>, a: CNum<'a, M<F>>, y: CNum<'a, M<F>>, b: CNum<'a, M<F>>, x: CNum<'a, M<F>>, c: CNum<'a, M<F>>, w: CNum<'a, M<F>>, d: CNum<'a, M<F>>, v: CNum<'a, M<F>>, e: CBool<'a, M<F>>, u: CBool<'a, M<F>>, f: CNum<'a, M<F>> });

#[derive(Clone)]
struct OneV<F: JF> { only: Num<F> }
#[derive(Clone, Signal)]
#[Value = "OneV<CS::F>"]
struct COne<'a, CS: ConstraintSystem> where CS::F: JF { only: CNum<'a, CS> }
fields!(COne<'a, M<F>>, OneV, [], COne { only: CNum<'a, M<F>> });

#[derive(Clone)]
struct DeepV<F: JF> { left: NoteV<F>, mid: PairV<F>, right: NoteV<F>, log: SizedVec<(Num<F>, bool), U2>, flag: bool }
#[derive(Clone, Signal)]
#[Value = "DeepV<CS::F>"]
struct CDeep<'a, CS: ConstraintSystem> where CS::F: JF {
    left: CNote<'a, CS>, mid: CPair<'a, CS>, right: CNote<'a, CS>, log: SizedVec<(CNum<'a, CS>, CBool<'a, CS>), U2>, flag: CBool<'a, CS>,
}
fields!(CDeep<'a, M<F>>, DeepV, [], CDeep { left: CNote<'a, M<F>>, mid: CPair<'a, M<F>>, right: CNote<'a, M<F>>, log: SizedVec<(CNum<'a, M<F>>, CBool<'a, M<F>>), U2>, flag: CBool<'a, M<F>> });

macro_rules! tup {
    ($($t:ident $i:tt),*) => {
        impl<'a, F: JF, $($t: Shape<'a, F>),*> Shape<'a, F> for ($($t,)*) {
            fn kinds(out: &mut Vec<bool>) { $( $t::kinds(out); )* }
            fn put(it: &mut IntoIter<CNum<'a, M<F>>>) -> Self { ($($t::put(it),)*) }
            fn get(&self, out: &mut Vec<CNum<'a, M<F>>>) { $( self.$i.get(out); )* }
            fn vput(it: &mut IntoIter<E<F>>) -> Self::Value { ($($t::vput(it),)*) }
            fn vget(v: &Self::Value, out: &mut Vec<E<F>>) { $( $t::vget(&v.$i, out); )* }
        }
    };
}
tup!(A 0);
tup!(A 0, B 1);
tup!(A 0, B 1, C 2);
tup!(A 0, B 1, C 2, D 3);
tup!(A 0, B 1, C 2, D 3, G 4);
tup!(A 0, B 1, C 2, D 3, G 4, H 5);
tup!(A 0, B 1, C 2, D 3, G 4, H 5, I 6);
tup!(A 0, B 1, C 2, D 3, G 4, H 5, I 6, J 7);
tup!(A 0, B 1, C 2, D 3, G 4, H 5, I 6, J 7, K 8);
tup!(A 0, B 1, C 2, D 3, G 4, H 5, I 6, J 7, K 8, L 9);
tup!(A 0, B 1, C 2, D 3, G 4, H 5, I 6, J 7, K 8, L 9, N 10);
tup!(A 0, B 1, C 2, D 3, G 4, H 5, I 6, J 7, K 8, L 9, N 10, O 11);
tup!(A 0, B 1, C 2, D 3, G 4, H 5, I 6, J 7, K 8, L 9, N 10, O 11, P 12);
tup!(A 0, B 1, C 2, D 3, G 4, H 5, I 6, J 7, K 8, L 9, N 10, O 11, P 12, Q 13);
tup!(A 0, B 1, C 2, D 3, G 4, H 5, I 6, J 7, K 8, L 9, N 10, O 11, P 12, Q 13, R 14);
tup!(A 0, B 1, C 2, D 3, G 4, H 5, I 6, J 7, K 8, L 9, N 10, O 11, P 12, Q 13, R 14, S 15);
tup!(A 0, B 1, C 2, D 3, G 4, H 5, I 6, J 7, K 8, L 9, N 10, O 11, P 12, Q 13, R 14, S 15, T 16);

fn values<F: JF>(c: &mut Ctx, kinds: &[bool]) -> Vec<E<F>> {
    let rep = c.r.chance(1, 6);
    let same = E(gen::shaped::<F>(&mut c.r));
    kinds.iter().map(|b| if *b { if c.r.bool() { E::one() } else { E::zero() } } else if rep { same } else { E(gen::shaped::<F>(&mut c.r)) }).collect()
}
/// one leaf changed, or several, or none
fn tweak<F: JF>(c: &mut Ctx, kinds: &[bool], v: &[E<F>]) -> Vec<E<F>> {
    let mut w = v.to_vec();
    let n = match c.r.below(6) { 0 | 1 => 0, 2..=4 => 1, _ => c.r.range(1, v.len()) };
    for _ in 0..n {
        let i = match c.r.below(4) { 0 => 0, 1 => v.len() - 1, _ => c.r.below(v.len()) };
        w[i] = if kinds[i] { E::one() - w[i] } else { match c.r.below(4) { 0 => w[i] + E::one(), 1 => -w[i], 2 => v[(i + 1) % v.len()], _ => E(gen::shaped::<F>(&mut c.r)) } };
    }
    // permutations of equal-kind neighbours
    if c.r.chance(1, 6) && v.len() > 1 {
        let i = c.r.below(v.len() - 1);
        if kinds[i] == kinds[i + 1] { w.swap(i, i + 1); }
    }
    w
}
#[derive(Clone, Copy, PartialEq)]
enum Style { Mixed, Vars, Consts, Holes }
fn leaves<'a, F: JF>(c: &mut Ctx, cs: &'a M<F>, kinds: &[bool], v: &[E<F>], st: Style) -> (Vec<CNum<'a, M<F>>>, Vec<bool>) {
    let mut known = vec![true; v.len()];
    let hole = c.r.below(v.len());
    let out = v.iter().zip(kinds).enumerate().map(|(i, (e, b))| match st {
        Style::Consts => CNum::from_const(cs, &Num(e.0)),
        Style::Holes if i == hole || c.r.chance(1, 4) => {
            known[i] = false;
            if *b { CBool::alloc(cs, None).0 } else { CNum::alloc(cs, None) }
        }
        Style::Vars => if *b { CBool::alloc(cs, Some(&!e.is_zero())).0 } else { CNum::alloc(cs, Some(&Num(e.0))) },
        _ => if *b { boo(&mut c.r, cs, !e.is_zero()).0 } else { num(&mut c.r, cs, *e) },
    }).collect();
    (out, known)
}
fn vals<'a, F: JF, T: Shape<'a, F>>(v: &T::Value) -> Vec<E<F>> { let mut o = vec![]; T::vget(v, &mut o); o }
fn mk<'a, F: JF, T: Shape<'a, F>>(l: &[CNum<'a, M<F>>]) -> T { T::put(&mut l.to_vec().into_iter()) }
fn mkv<'a, F: JF, T: Shape<'a, F>>(v: &[E<F>]) -> T::Value { T::vput(&mut v.to_vec().into_iter()) }
fn parts<'a, F: JF, T: Shape<'a, F>>(x: &T) -> Vec<CNum<'a, M<F>>> { let mut o = vec![]; x.get(&mut o); o }
fn sh<F: JF>(v: &[E<F>]) -> String { v.iter().map(|e| e.big().to_string()).collect::<Vec<_>>().join(",") }

fn run<'a, F: JF, T: Shape<'a, F>>(c: &mut Ctx, cs: &'a M<F>, ref_cs: &'a M<F>, name: &str) -> Res {
    let mut kinds = vec![];
    T::kinds(&mut kinds);
    let n = kinds.len();
    let v: Vec<E<F>> = values(c, &kinds);
    let w = tweak(c, &kinds, &v);
    let st = *c.r.pick(&[Style::Mixed, Style::Mixed, Style::Vars, Style::Consts, Style::Holes]);
    let op = c.r.below(10);
    let opn = ["alloc", "alloc without values", "from_const", "reading", "switch", "assert_const", "assert_eq", "is_eq", "inputize", "linearize"][op];
    c.count(opn, 1);
    let show = format!("{} on {} [{}]", opn, name, sh(&v));
    c.case(&show);
    let res = guard(|| -> Res {
        match op {
            0 | 1 => {
                let val = mkv::<F, T>(&v);
                let given = if op == 0 { Some(&val) } else { None };
                // through the type itself, or derived from another signal
                let x: T = if c.r.bool() { T::alloc(cs, given) } else { CNum::<M<F>>::zero(cs).derive_alloc::<T>(given) };
                // the components alone
                for (e, b) in v.iter().zip(&kinds) {
                    let e = if op == 0 { Some(*e) } else { None };
                    if *b { CBool::alloc(ref_cs, e.map(|e| !e.is_zero()).as_ref()); } else { CNum::alloc(ref_cs, e.map(|e| Num(e.0)).as_ref()); }
                }
                let (a, b) = (cs.snapshot(), ref_cs.snapshot());
                ensure!(c, a.vals == b.vals && a.is_input == b.is_input, "allocated variables [{}] differ from the components' in {}", a.vals[1..].iter().map(|x| x.map(|x| x.big().to_string()).unwrap_or("-".into())).collect::<Vec<_>>().join(","), show);
                let p = parts(&x);
                ensure!(c, p.len() == n, "{} leaves instead of {} in {}", p.len(), n, show);
                for i in 0..n {
                    ensure!(c, cs.lc(&p[i]) == vec![(i + 1, E::one())], "component {} is not variable {} in {}", i, i + 1, show);
                    ensure!(c, p[i].value.map(|x| E(x.0)) == if op == 0 { Some(v[i]) } else { None }, "component {} carries a wrong value in {}", i, show);
                }
                // bits are constrained, numbers are not
                let base: Vec<E<F>> = std::iter::once(E::one()).chain(v.iter().cloned()).collect();
                for i in 0..n {
                    let mut h = base.clone();
                    h[i + 1] = h[i + 1] + E::n(2);
                    ensure!(c, a.first_violated(&h).is_some() == kinds[i], "component {} {} in {}", i, if kinds[i] { "is not held to a bit" } else { "is constrained" }, show);
                }
                if op == 0 { cs.verdict().map_err(|e| format!("{} in {}", e, show))?; }
                ensure!(c, x.get_value().map(|y| vals::<F, T>(&y)) == if op == 0 { Some(v.clone()) } else { None }, "value read back differs in {}", show);
                ensure!(c, x.as_const().is_none(), "variable reported as constant in {}", show);
            }
            2 => {
                let val = mkv::<F, T>(&v);
                let x: T = if c.r.bool() { T::from_const(cs, &val) } else { CNum::<M<F>>::zero(cs).derive_const::<T>(&val) };
                ensure!(c, cs.nvars() == 1 && cs.ncons() == 0, "a constant allocated something in {}", show);
                let p = parts(&x);
                for i in 0..n {
                    ensure!(c, p[i].as_const().map(|q| E(q.0)) == Some(v[i]) && p[i].value.map(|q| E(q.0)) == Some(v[i]), "component {} wrong in {}", i, show);
                }
                ensure!(c, x.as_const().map(|y| vals::<F, T>(&y)) == Some(v.clone()), "constant read back differs in {}", show);
                ensure!(c, x.get_value().map(|y| vals::<F, T>(&y)) == Some(v.clone()), "value read back differs in {}", show);
            }
            3 => {
                let (mut l, known) = leaves(c, cs, &kinds, &v, st);
                if st == Style::Consts && c.r.bool() {
                    // all constant but one
                    let i = c.r.below(n);
                    l[i] = if kinds[i] { CBool::alloc(cs, Some(&!v[i].is_zero())).0 } else { CNum::alloc(cs, Some(&Num(v[i].0))) };
                }
                let x: T = mk(&l);
                let (nv, nc) = (cs.nvars(), cs.ncons());
                let all = known.iter().all(|k| *k);
                let isc = l.iter().all(|q| q.as_const().is_some());
                ensure!(c, x.get_value().map(|y| vals::<F, T>(&y)) == if all { Some(v.clone()) } else { None }, "value read is wrong in {} (known {:?})", show, known);
                ensure!(c, x.as_const().map(|y| vals::<F, T>(&y)) == if isc { Some(v.clone()) } else { None }, "constant detection is wrong in {}", show);
                ensure!(c, x.get_cs() as *const _ == cs as *const _, "another constraint system in {}", show);
                ensure!(c, cs.nvars() == nv && cs.ncons() == nc, "reading allocated something in {}", show);
            }
            4 => {
                let w: Vec<E<F>> = if c.r.chance(1, 4) { w.clone() } else { values(c, &kinds) };
                let (l, k1) = leaves(c, cs, &kinds, &v, st);
                let st2 = *c.r.pick(&[Style::Mixed, Style::Vars, Style::Consts]);
                let (m, _) = leaves(c, cs, &kinds, &w, st2);
                let b = c.r.bool();
                let bit = boo(&mut c.r, cs, b);
                let (x, y): (T, T) = (mk(&l), mk(&m));
                let n0 = cs.nvars();
                let o = if c.r.bool() { x.switch(&bit, &y) } else { bit.if_else(&x, &y) };
                let p = parts(&o);
                let want: Vec<E<F>> = (0..n).map(|i| if b { v[i] } else { w[i] }).collect();
                ensure!(c, p.len() == n, "{} leaves in {}", p.len(), show);
                for i in 0..n {
                    cs.audit(&p[i]).map_err(|e| format!("{} in {}", e, show))?;
                    let got = p[i].value.map(|q| E(q.0));
                    ensure!(c, got == Some(want[i]) || (got.is_none() && !k1[i]), "component {} of the selection ({}) is {:?} instead of {} with alternative [{}] in {}", i, b, got.map(|g| g.big()), want[i].big(), sh(&w), show);
                }
                cs.verdict().map_err(|e| format!("{} in {}", e, show))?;
                if k1.iter().all(|k| *k) && cs.nvars() < 400 {
                    let outs = p.iter().map(|q| cs.lc(q)).collect();
                    let (s, f) = forge(&mut c.r, &cs.snapshot(), n0, outs, &Want::Exact(want), &|a: &mut Attack<F>| { a.tries = 2; a.repairs = 8; });
                    c.obs(s.searches + s.repairs);
                    c.count("attacks", 1);
                    if let Some(m) = f { viol!("{} in {}", m, show); }
                }
            }
            5 | 6 => {
                let (l, known) = leaves(c, cs, &kinds, &v, st);
                let x: T = mk(&l);
                let eq = v == w;
                let full = known.iter().all(|k| *k);
                let (r, m) = if op == 5 {
                    let val = mkv::<F, T>(&w);
                    (guard(|| x.assert_const(&val)), None)
                } else {
                    let st2 = *c.r.pick(&[Style::Mixed, Style::Vars, Style::Consts]);
                    let (m, _) = leaves(c, cs, &kinds, &w, st2);
                    let y: T = mk(&m);
                    (guard(|| if c.r.bool() { x.assert_eq(&y) } else { y.assert_eq(&x) }), Some(m))
                };
                let _ = m;
                let same_known = (0..n).all(|i| !known[i] || v[i] == w[i]);
                // a constant mismatch may be refused on the spot
                if let Err(e) = &r { ensure!(c, !same_known, "equal values refused ({}) in {}", e, show); return Ok(()); }
                cs.integrity().map_err(|e| format!("{} in {}", e, show))?;
                if full {
                    ensure!(c, cs.satisfied() == eq, "assertion {} although values are {} [{}] in {}", if cs.satisfied() { "holds" } else { "fails" }, if eq { "equal" } else { "different" }, sh(&w), show);
                } else {
                    ensure!(c, cs.satisfied() == same_known, "assertion on known components is wrong against [{}] in {}", sh(&w), show);
                }
                c.count(if eq { "equal" } else { "different" }, 1);
            }
            7 => {
                let (l, known) = leaves(c, cs, &kinds, &v, st);
                let st2 = *c.r.pick(&[Style::Mixed, Style::Vars, Style::Consts]);
                let (m, _) = leaves(c, cs, &kinds, &w, st2);
                let (x, y): (T, T) = (mk(&l), mk(&m));
                let n0 = cs.nvars();
                let o = if c.r.bool() { x.is_eq(&y) } else { y.is_eq(&x) };
                cs.audit_bool(&o).map_err(|e| format!("{} in {}", e, show))?;
                cs.verdict().map_err(|e| format!("{} in {}", e, show))?;
                if known.iter().all(|k| *k) {
                    let eq = v == w;
                    ensure!(c, o.get_value() == Some(eq), "equality test says {:?} against [{}] in {}", o.get_value(), sh(&w), show);
                    c.count(if eq { "equal" } else { "different" }, 1);
                    if cs.nvars() < 400 {
                        let want = Want::Exact(vec![if eq { E::one() } else { E::zero() }]);
                        let (s, f) = forge(&mut c.r, &cs.snapshot(), n0, vec![cs.lc(&o.0)], &want, &|a: &mut Attack<F>| { a.tries = 2; a.repairs = 8; a.goals = vec![vec![(0, if eq { E::zero() } else { E::one() })]]; });
                        c.obs(s.searches + s.repairs);
                        c.count("attacks", 1);
                        if let Some(m) = f { viol!("{} against [{}] in {}", m, sh(&w), show); }
                    }
                } else { c.obs(1); }
            }
            8 => {
                let (l, known) = leaves(c, cs, &kinds, &v, st);
                let x: T = mk(&l);
                let (n0, i0) = (cs.nvars(), cs.ninputs());
                x.inputize();
                cs.verdict().map_err(|e| format!("{} in {}", e, show))?;
                ensure!(c, cs.ninputs() - i0 == n, "{} public inputs instead of {} in {}", cs.ninputs() - i0, n, show);
                let iv = cs.input_values()[i0..].to_vec();
                for i in 0..n {
                    ensure!(c, iv[i] == if known[i] { Some(v[i]) } else { None }, "public input {} is not component {} in {}", i, i, show);
                }
                if known.iter().all(|k| *k) && cs.nvars() < 400 {
                    // each public input is tied to its component
                    let outs = (0..n).map(|i| vec![(n0 + i, E::one())]).collect();
                    let (s, f) = forge(&mut c.r, &cs.snapshot(), n0, outs, &Want::Exact(v.clone()), &|a: &mut Attack<F>| { a.tries = 2; a.repairs = 8; });
                    c.obs(s.searches + s.repairs);
                    c.count("attacks", 1);
                    if let Some(m) = f { viol!("{} in {}", m, show); }
                }
            }
            _ => {
                let (l, _) = leaves(c, cs, &kinds, &v, st);
                let x: T = mk(&l);
                let mut pre = vec![CNum::from_const(cs, &Num::<F>::one())];
                let a = x.linearize();
                x.linearize_builder(&mut pre);
                ensure!(c, a.len() == n && pre.len() == n + 1, "{} numbers instead of {} in {}", a.len(), n, show);
                for i in 0..n {
                    ensure!(c, cs.lc(&a[i]) == cs.lc(&l[i]) && cs.lc(&pre[i + 1]) == cs.lc(&l[i]), "flattened component {} differs in {}", i, show);
                    ensure!(c, a[i].value.map(|q| E(q.0)) == l[i].value.map(|q| E(q.0)), "flattened component {} has another value in {}", i, show);
                }
            }
        }
        Ok(())
    });
    match res { Ok(r) => r, Err(e) => viol!("failed with '{}' in {}", e, show) }
}

macro_rules! types {
    ($fname:ident $($n:expr => [$cn:ident, $cb:ident] $t:ty;)*) => {
        fn $fname<F: JF>(c: &mut Ctx) -> Res {
            let total = [$($n),*].len();
            let k = c.iter % total;
            let mut i = 0;
            $( {
                #[allow(unused)] type $cn<'a, F> = CNum<'a, M<F>>;
                #[allow(unused)] type $cb<'a, F> = CBool<'a, M<F>>;
                if i == k {
                    let (cs, r) = (M::<F>::new(), M::<F>::new());
                    return one::<F, $t>(c, &cs, &r, $n);
                }
                i += 1;
            } )*
            let _ = i;
            Ok(())
        }
    };
}
fn one<'a, F: JF, T: Shape<'a, F>>(c: &mut Ctx, cs: &'a M<F>, r: &'a M<F>, n: &str) -> Res { run::<F, T>(c, cs, r, n) }

type P<'a, F> = CEdwardsPoint<'a, M<F>>;
types! { pick
    "num" => [N, B] N<F>;
    "bool" => [N, B] B<F>;
    "point" => [N, B] P<F>;
    "montgomery point" => [N, B] CMontgomeryPoint<M<F>>;
    "merkle proof 1" => [N, B] CMerkleProof<M<F>, U1>;
    "merkle proof 4" => [N, B] CMerkleProof<M<F>, U4>;
    "vec1" => [N, B] SizedVec<N<F>, U1>;
    "vec2" => [N, B] SizedVec<N<F>, U2>;
    "vec3" => [N, B] SizedVec<B<F>, U3>;
    "vec7" => [N, B] SizedVec<N<F>, U7>;
    "vec20" => [N, B] SizedVec<N<F>, U20>;
    "vec70" => [N, B] SizedVec<N<F>, U70>;
    "vec130" => [N, B] SizedVec<B<F>, U130>;
    "vec of pairs" => [N, B] SizedVec<(N<F>, B<F>), U3>;
    "vec of vecs" => [N, B] SizedVec<SizedVec<N<F>, U2>, U3>;
    "vec of points" => [N, B] SizedVec<P<F>, U4>;
    "note" => [N, B] CNote<M<F>>;
    "positional" => [N, B] CPair<M<F>>;
    "positional of ten" => [N, B] CRow<M<F>>;
    "twelve fields" => [N, B] CWide<M<F>>;
    "vec of positional" => [N, B] SizedVec<CPair<M<F>>, U3>;
    "single field" => [N, B] COne<M<F>>;
    "deep" => [N, B] CDeep<M<F>>;
    "vec of notes" => [N, B] SizedVec<CNote<M<F>>, U2>;
    "tuple1" => [N, B] (N<F>,);
    "tuple1 of tuple" => [N, B] ((N<F>, B<F>),);
    "tuple2" => [N, B] (N<F>, N<F>);
    "tuple2 mixed" => [N, B] (SizedVec<B<F>, U2>, P<F>);
    "tuple3" => [N, B] (N<F>, (B<F>, N<F>), N<F>);
    "tuple4" => [N, B] (N<F>, N<F>, B<F>, B<F>);
    "tuple5" => [N, B] (N<F>, N<F>, N<F>, N<F>, N<F>);
    "tuple6" => [N, B] (N<F>, B<F>, N<F>, B<F>, N<F>, B<F>);
    "tuple7" => [N, B] (N<F>, N<F>, N<F>, N<F>, N<F>, P<F>, N<F>);
    "tuple8" => [N, B] (N<F>, N<F>, N<F>, N<F>, N<F>, N<F>, N<F>, N<F>);
    "tuple9" => [N, B] (N<F>, N<F>, N<F>, N<F>, N<F>, N<F>, N<F>, N<F>, B<F>);
    "tuple10" => [N, B] (B<F>, N<F>, N<F>, N<F>, N<F>, N<F>, N<F>, N<F>, N<F>, N<F>);
    "tuple11" => [N, B] (N<F>, N<F>, N<F>, N<F>, N<F>, N<F>, N<F>, N<F>, N<F>, N<F>, N<F>);
    "tuple12" => [N, B] (N<F>, N<F>, N<F>, N<F>, N<F>, N<F>, N<F>, N<F>, N<F>, N<F>, N<F>, N<F>);
    "tuple13" => [N, B] (N<F>, N<F>, N<F>, N<F>, N<F>, B<F>, N<F>, N<F>, N<F>, N<F>, N<F>, N<F>, N<F>);
    "tuple14" => [N, B] (N<F>, N<F>, N<F>, N<F>, N<F>, N<F>, N<F>, N<F>, N<F>, N<F>, N<F>, N<F>, N<F>, N<F>);
    "tuple15" => [N, B] (N<F>, N<F>, N<F>, N<F>, N<F>, N<F>, N<F>, N<F>, N<F>, N<F>, N<F>, N<F>, N<F>, N<F>, N<F>);
    "tuple16" => [N, B] (N<F>, N<F>, N<F>, N<F>, N<F>, N<F>, N<F>, N<F>, N<F>, N<F>, N<F>, N<F>, N<F>, N<F>, N<F>, B<F>);
    "tuple17" => [N, B] (N<F>, N<F>, N<F>, N<F>, N<F>, N<F>, N<F>, N<F>, N<F>, N<F>, N<F>, N<F>, N<F>, N<F>, N<F>, N<F>, N<F>);
    "tuple17 mixed" => [N, B] (N<F>, B<F>, P<F>, N<F>, (N<F>, N<F>), N<F>, N<F>, N<F>, SizedVec<N<F>, U2>, N<F>, N<F>, N<F>, B<F>, B<F>, N<F>, N<F>, P<F>);
    "nest" => [N, B] ((N<F>, (N<F>, (N<F>, B<F>))), SizedVec<(P<F>, SizedVec<B<F>, U2>), U2>, CNote<M<F>>);
}

types! { few
    "bool" => [N, B] B<F>;
    "vec3" => [N, B] SizedVec<N<F>, U3>;
    "tuple4" => [N, B] (N<F>, N<F>, B<F>, B<F>);
    "note" => [N, B] CNote<M<F>>;
    "merkle proof 2" => [N, B] CMerkleProof<M<F>, U2>;
}

fn main() {
    Check::new("C18", "composite types of every tuple size 1..17, vectors, points, proofs and derived structures (named, positional, nested) put through every operation with constant, variable, derived and missing leaves; leaves read and built by the harness's own field-by-field view; variables and public inputs compared with the components' alone, constraint effects judged by satisfaction and adversarial search; distinct by type, operation and values")
        .add("composites-bn", 24000, 600000, pick::<BnFr>)
        .add("composites-bls", 6000, 150000, few::<BlsFr>)
        .assume("forgeries outside the attacks tried are not excluded")
        .run()
}
