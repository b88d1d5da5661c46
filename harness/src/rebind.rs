//! A gadget built with one set of input values has to constrain every other
//! set as well: what it emits is compared for two sets of values, and where it
//! differs the constraints made for the first are attacked with the second.
use crate::adv::{forge, Attack, Want};
use crate::engine::{guard, Ctx, Res};
use crate::moncs::{Con, Lc, R1cs};
use crate::refm::*;
use fawkes_crypto::core::field::Field;

pub struct Built<F: RefField + Field> {
    pub sys: R1cs<F>,
    /// variables below n0 are the inputs
    pub n0: usize,
    pub outs: Vec<Lc<F>>,
    pub want: Want<F>,
}

fn eq<F: RefField + Field>(x: &Con<F>, y: &Con<F>) -> bool { x.a == y.a && x.b == y.b && x.c == y.c }
fn same<F: RefField + Field>(a: &Built<F>, b: &Built<F>) -> bool {
    a.n0 == b.n0
        && a.outs == b.outs
        && a.sys.vals.len() == b.sys.vals.len()
        && a.sys.is_input == b.sys.is_input
        && a.sys.cons.len() == b.sys.cons.len()
        && a.sys.cons.iter().zip(b.sys.cons.iter()).all(|(x, y)| eq(x, y))
}

/// `f` builds the gadget for given values; `a` and `b` are two sets of them
pub fn rebind<F: RefField + Field, V>(c: &mut Ctx, what: &str, a: &V, b: &V, f: &dyn Fn(&V) -> Built<F>) -> Res {
    c.obs(1);
    let (x, y) = match (guard(|| f(a)), guard(|| f(b))) {
        (Ok(x), Ok(y)) => (x, y),
        _ => { c.count("rebuilds refused", 1); return Ok(()); }
    };
    if same(&x, &y) { c.count("rebuilt with other values: same constraints", 1); return Ok(()); }
    c.count("rebuilt with other values: other constraints", 1);
    if x.n0 != y.n0 { return Ok(()); }
    let mut sys = x.sys.clone();
    for k in 0..x.n0 { sys.vals[k] = y.sys.vals[k]; }
    // an assertion that holds for the second set has nothing to refuse
    if let Want::Exact(w) = &y.want { if w.len() != x.outs.len() { return Ok(()); } }
    // up to the first difference the second set's own witness satisfies everything
    let differ = (0..x.sys.cons.len().min(y.sys.cons.len())).find(|i| !eq(&x.sys.cons[*i], &y.sys.cons[*i])).unwrap_or(x.sys.cons.len().min(y.sys.cons.len()));
    let seen: std::collections::BTreeSet<usize> = x.sys.cons[..differ].iter().flat_map(|q| q.a.iter().chain(q.b.iter()).chain(q.c.iter())).map(|t| t.0).filter(|k| *k >= x.n0).collect();
    let pin: Vec<(usize, E<F>)> = seen.iter().filter_map(|k| y.sys.vals.get(*k).cloned().flatten().map(|v| (*k, v))).collect();
    let (st, f) = forge(&mut c.r, &sys, x.n0, x.outs, &y.want, &|a: &mut Attack<F>| { a.tries = 6; a.repairs = if sys.cons.len() > 3000 { 2 } else { 30 }; a.pins = vec![pin.clone()]; });
    c.obs(st.searches + st.repairs);
    match f {
        Some(m) => Err(format!("{}: the constraints made for one set of inputs admit another set: {}", what, m)),
        None => Ok(()),
    }
}
