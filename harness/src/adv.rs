//! Adversarial prover: searches the recorded constraint system for complete
//! satisfying assignments other than the honest one. It only ever reports an
//! assignment that it has re-checked against every recorded constraint, so a
//! report is a concrete forgery.
use crate::moncs::{lc_val, Con, Lc, R1cs};
use crate::refm::{tb, RefField, E};
use crate::rng::R;
use num::bigint::BigUint;
use num::{One, Zero};
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub struct Sys<F: RefField> {
    pub r: R1cs<F>,
    pub honest: Vec<E<F>>,
    occ: Vec<Vec<usize>>,
    vars: Vec<Vec<usize>>,
    boolean: Vec<bool>,
    pow2: HashMap<Vec<u64>, usize>,
}

fn key<F: RefField>(e: &E<F>) -> Vec<u64> {
    crate::gen::repr_words(&e.0)
}

impl<F: RefField> Sys<F> {
    pub fn new(r: R1cs<F>, honest: Vec<E<F>>) -> Self {
        let n = r.vals.len();
        let mut occ = vec![vec![]; n];
        let mut vars = vec![];
        let mut boolean = vec![false; n];
        for (i, c) in r.cons.iter().enumerate() {
            let mut s = BTreeSet::new();
            for lc in [&c.a, &c.b, &c.c].iter() {
                for (k, _) in lc.iter() {
                    if *k != 0 {
                        s.insert(*k);
                    }
                }
            }
            for k in s.iter() {
                occ[*k].push(i);
            }
            if s.len() == 1 {
                let x = *s.iter().next().unwrap();
                let (q2, q1, q0) = quad(c, x, &mut |_| E::zero());
                // roots {0,1}: q0 = 0, q2 = -q1, q2 != 0
                if q0.is_zero() && !q2.is_zero() && (q2 + q1).is_zero() {
                    boolean[x] = true;
                }
            }
            vars.push(s.into_iter().collect());
        }
        let mut pow2 = HashMap::new();
        let mut k = E::<F>::one();
        for i in 0..F::nbits() {
            pow2.insert(key(&k), i);
            k = k + k;
        }
        Sys { r, honest, occ, vars, boolean, pow2 }
    }

    pub fn with_goal(r: &R1cs<F>, honest: &[E<F>], goals: &[(Lc<F>, E<F>)]) -> Self {
        let mut r2 = r.clone();
        for (lc, v) in goals {
            r2.cons.push(Con {
                a: lc.clone(),
                b: vec![(0, E::one())],
                c: if v.is_zero() { vec![] } else { vec![(0, *v)] },
            });
        }
        Sys::new(r2, honest.to_vec())
    }
}

/// coefficients (q2, q1, q0) of A(x)B(x)-C(x) in x, other variables from `g`
fn quad<F: RefField>(c: &Con<F>, x: usize, g: &mut dyn FnMut(usize) -> E<F>) -> (E<F>, E<F>, E<F>) {
    let mut part = |lc: &Lc<F>| {
        let mut k0 = E::zero();
        let mut k1 = E::zero();
        for (k, v) in lc {
            if *k == x {
                k1 = k1 + *v;
            } else if *k == 0 {
                k0 = k0 + *v;
            } else {
                k0 = k0 + g(*k) * *v;
            }
        }
        (k0, k1)
    };
    let (a0, a1) = part(&c.a);
    let (b0, b1) = part(&c.b);
    let (c0, c1) = part(&c.c);
    (a1 * b1, a0 * b1 + a1 * b0 - c1, a0 * b0 - c0)
}

enum Roots<F: RefField> {
    Any,
    Some(Vec<E<F>>),
}

fn roots<F: RefField>(q2: E<F>, q1: E<F>, q0: E<F>) -> Roots<F> {
    if q2.is_zero() {
        if q1.is_zero() {
            return if q0.is_zero() { Roots::Any } else { Roots::Some(vec![]) };
        }
        return Roots::Some(vec![-q0.div(q1)]);
    }
    if q0.is_zero() {
        return Roots::Some(if q1.is_zero() { vec![E::zero()] } else { vec![E::zero(), -q1.div(q2)] });
    }
    let disc = q1.sq() - E::n(4) * q2 * q0;
    match disc.sqrt() {
        None => Roots::Some(vec![]),
        Some(s) => {
            let d = q2 + q2;
            let r1 = (s - q1).div(d);
            let r2 = (-s - q1).div(d);
            Roots::Some(if r1 == r2 { vec![r1] } else { vec![r1, r2] })
        }
    }
}

#[derive(Clone)]
struct State<F: RefField> {
    v: Vec<Option<E<F>>>,
    unk: Vec<usize>,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub searches: u64,
    pub nodes: u64,
    pub solutions: u64,
    pub dishonest: u64,
    pub repairs: u64,
    pub kernel_dim: u64,
}
impl Stats {
    pub fn add(&mut self, o: &Stats) {
        self.searches += o.searches;
        self.nodes += o.nodes;
        self.solutions += o.solutions;
        self.dishonest += o.dishonest;
        self.repairs += o.repairs;
        self.kernel_dim += o.kernel_dim;
    }
}

pub struct Search<'a, F: RefField> {
    pub sys: &'a Sys<F>,
    /// preferred guesses for hint variables, tried in order of undetermined
    /// hints (one list per attempt)
    pub pools: Vec<Vec<E<F>>>,
    pub budget: u64,
    pub stats: Stats,
    nodes: u64,
    numfirst: bool,
}

impl<'a, F: RefField> Search<'a, F> {
    pub fn new(sys: &'a Sys<F>) -> Self {
        Search { sys, pools: vec![], budget: 400, stats: Stats::default(), nodes: 0, numfirst: false }
    }

    fn init(&self, fixed: &[(usize, E<F>)]) -> Option<State<F>> {
        let n = self.sys.r.vals.len();
        let mut st = State {
            v: vec![None; n],
            unk: self.sys.vars.iter().map(|v| v.len()).collect(),
        };
        st.v[0] = Some(E::one());
        let mut q = vec![];
        for (k, e) in fixed {
            if !self.assign(&mut st, *k, *e, &mut q) {
                return None;
            }
        }
        for c in 0..self.sys.r.cons.len() {
            if st.unk[c] <= 1 {
                q.push(c);
            }
        }
        if self.propagate(&mut st, q) {
            Some(st)
        } else {
            None
        }
    }

    fn assign(&self, st: &mut State<F>, x: usize, e: E<F>, q: &mut Vec<usize>) -> bool {
        match st.v[x] {
            Some(o) => o == e,
            None => {
                st.v[x] = Some(e);
                for c in self.sys.occ[x].iter() {
                    st.unk[*c] -= 1;
                    if st.unk[*c] <= 1 {
                        q.push(*c);
                    }
                }
                true
            }
        }
    }

    fn propagate(&self, st: &mut State<F>, mut q: Vec<usize>) -> bool {
        while let Some(c) = q.pop() {
            let con = &self.sys.r.cons[c];
            if st.unk[c] == 0 {
                let f = |lc: &Lc<F>| lc.iter().fold(E::zero(), |s, (k, c)| s + st.v[*k].unwrap() * *c);
                if f(&con.a) * f(&con.b) != f(&con.c) {
                    return false;
                }
            } else if st.unk[c] == 1 {
                let x = *self.sys.vars[c].iter().find(|k| st.v[**k].is_none()).unwrap();
                if self.sys.vars[c].len() == 1 && self.sys.boolean[x] {
                    continue;
                }
                let (q2, q1, q0) = quad(con, x, &mut |k| st.v[k].unwrap());
                match roots(q2, q1, q0) {
                    Roots::Any => {}
                    Roots::Some(r) => match r.len() {
                        0 => return false,
                        1 => {
                            if !self.assign(st, x, r[0], &mut q) {
                                return false;
                            }
                        }
                        _ => {}
                    },
                }
            }
        }
        true
    }

    /// branches offered by a sum of weighted booleans
    fn bit_group(&self, st: &State<F>, c: usize) -> Option<Vec<Vec<(usize, E<F>)>>> {
        let con = &self.sys.r.cons[c];
        let split = |lc: &Lc<F>| {
            let mut k0 = E::zero();
            let mut m: BTreeMap<usize, E<F>> = BTreeMap::new();
            for (k, v) in lc {
                match st.v[*k] {
                    Some(x) => k0 = k0 + x * *v,
                    None => {
                        let e = m.entry(*k).or_insert_with(E::zero);
                        *e = *e + *v;
                    }
                }
            }
            (k0, m)
        };
        let (a0, am) = split(&con.a);
        let (b0, bm) = split(&con.b);
        let (c0, cm) = split(&con.c);
        let mut eqs: Vec<(BTreeMap<usize, E<F>>, E<F>)> = vec![]; // sum = rhs
        let lin = |k: E<F>, m: &BTreeMap<usize, E<F>>, m0: E<F>| {
            let mut r: BTreeMap<usize, E<F>> = m.iter().map(|(i, v)| (*i, *v * k)).collect();
            for (i, v) in cm.iter() {
                let e = r.entry(*i).or_insert_with(E::zero);
                *e = *e - *v;
            }
            r.retain(|_, v| !v.is_zero());
            (r, c0 - k * m0)
        };
        if am.is_empty() {
            eqs.push(lin(a0, &bm, b0));
        } else if bm.is_empty() {
            eqs.push(lin(b0, &am, a0));
        } else if cm.is_empty() && c0.is_zero() {
            eqs.push((am.clone(), -a0));
            eqs.push((bm.clone(), -b0));
        } else {
            return None;
        }
        let mut out = vec![];
        let p = F::p();
        for (m, rhs) in eqs {
            if m.is_empty() || !m.keys().all(|k| self.sys.boolean[*k]) {
                if m.is_empty() {
                    continue;
                }
                return None;
            }
            // find a scale making every coefficient a distinct power of two
            let mut ok = None;
            let first = m.values().next().unwrap().inv().unwrap();
            for s in [first, -first, E::one(), -E::one()].iter() {
                let mut ex: Vec<(usize, usize)> = vec![];
                for (k, v) in m.iter() {
                    match self.sys.pow2.get(&key(&(*v * *s))) {
                        Some(e) => ex.push((*e, *k)),
                        None => break,
                    }
                }
                if ex.len() == m.len() {
                    let d: BTreeSet<usize> = ex.iter().map(|x| x.0).collect();
                    if d.len() == ex.len() {
                        ok = Some((ex, *s));
                        break;
                    }
                }
            }
            let (ex, s) = ok?;
            let k = (rhs * s).big();
            let maxe = ex.iter().map(|x| x.0).max().unwrap();
            let lim = BigUint::one() << (maxe + 1);
            let mut t = k;
            while t < lim {
                let mut rem = t.clone();
                let mut asg = vec![];
                for (e, var) in ex.iter() {
                    let bit = ((&t >> *e) & BigUint::one()).is_one();
                    if bit {
                        rem = rem - (BigUint::one() << *e);
                    }
                    asg.push((*var, if bit { E::one() } else { E::zero() }));
                }
                if rem.is_zero() {
                    out.push(asg);
                }
                t = t + &p;
            }
        }
        Some(out)
    }

    fn shuffle<T>(r: &mut R, v: &mut Vec<T>) {
        for i in (1..v.len()).rev() {
            let j = r.below(i + 1);
            v.swap(i, j);
        }
    }

    /// depth-first search for one completion
    fn dfs(&mut self, r: &mut R, st: State<F>, pool: &[E<F>], mut hint: usize, wild: bool) -> Option<Vec<E<F>>> {
        self.nodes += 1;
        if self.nodes > self.budget {
            return None;
        }
        // two-root and bit-group branches first
        let mut open = false;
        let mut branches: Option<Vec<Vec<(usize, E<F>)>>> = None;
        let ncons = self.sys.r.cons.len();
        for c in 0..ncons {
            if st.unk[c] == 0 {
                continue;
            }
            open = true;
            if st.unk[c] == 1 {
                let x = *self.sys.vars[c].iter().find(|k| st.v[**k].is_none()).unwrap();
                if self.sys.boolean[x] && self.sys.vars[c].len() == 1 {
                    // weakest kind of branch: keep looking for a better one
                    if branches.is_none() {
                        branches = Some(vec![vec![(x, E::zero())], vec![(x, E::one())]]);
                    }
                    continue;
                }
                let (q2, q1, q0) = quad(&self.sys.r.cons[c], x, &mut |k| st.v[k].unwrap());
                if let Roots::Some(rt) = roots(q2, q1, q0) {
                    if self.sys.boolean[x] && branches.is_some() {
                        continue;
                    }
                    let b: Vec<_> = rt.into_iter().map(|e| vec![(x, e)]).collect();
                    branches = Some(b);
                    break;
                }
            }
        }
        if !open {
            let mut out = vec![];
            for (i, x) in st.v.iter().enumerate() {
                out.push(x.unwrap_or(self.sys.honest[i]));
            }
            return Some(out);
        }
        let weak = match &branches {
            None => true,
            Some(b) => b.first().map(|b| self.sys.boolean[b[0].0]).unwrap_or(false),
        };
        if weak {
            let mut group = false;
            for c in 0..ncons {
                if st.unk[c] >= 2
                    && st.unk[c] <= 300
                    && self.sys.vars[c].iter().all(|k| self.sys.boolean[*k] || st.v[*k].is_some())
                {
                    if let Some(b) = self.bit_group(&st, c) {
                        branches = Some(b);
                        group = true;
                        break;
                    }
                }
            }
            // free bits tied to an undetermined number: guess the number first
            if !group && (hint < pool.len() || self.numfirst) {
                let num = |k: usize| !self.sys.boolean[k] && st.v[k].is_none() && self.sys.occ[k].iter().any(|c| st.unk[*c] > 0);
                if (1..st.v.len()).any(num) {
                    branches = None;
                }
            }
        }
        let (mut br, is_hint) = match branches {
            Some(b) => (b, false),
            None => {
                // a hint variable: first undetermined one in an open constraint
                let mut x = None;
                let only_num = (1..st.v.len()).any(|k| !self.sys.boolean[k] && st.v[k].is_none() && self.sys.occ[k].iter().any(|c| st.unk[*c] > 0));
                for k in 1..st.v.len() {
                    if st.v[k].is_none() && !(only_num && self.sys.boolean[k]) && self.sys.occ[k].iter().any(|c| st.unk[*c] > 0) {
                        x = Some(k);
                        break;
                    }
                }
                let x = x?;
                let mut cand: Vec<E<F>> = vec![];
                if hint < pool.len() {
                    cand.push(pool[hint]);
                }
                let h = self.sys.honest[x];
                let mut more = vec![
                    h,
                    E::zero(),
                    E::one(),
                    -h,
                    h + E::one(),
                    h - E::one(),
                    E(crate::gen::shaped::<F>(r)),
                    E(crate::gen::uniform::<F>(r)),
                ];
                if let Some(i) = h.inv() {
                    more.push(i);
                }
                if wild {
                    Self::shuffle(r, &mut more);
                    more.truncate(3);
                } else {
                    more.truncate(2);
                }
                cand.extend(more);
                (cand.into_iter().map(|e| vec![(x, e)]).collect::<Vec<_>>(), true)
            }
        };
        if is_hint {
            hint += 1;
        } else {
            Self::shuffle(r, &mut br);
        }
        for b in br {
            let mut s2 = st.clone();
            let mut q = vec![];
            let mut ok = true;
            for (k, e) in b {
                if !self.assign(&mut s2, k, e, &mut q) {
                    ok = false;
                    break;
                }
            }
            if ok && self.propagate(&mut s2, q) {
                if let Some(s) = self.dfs(r, s2, pool, hint, wild) {
                    return Some(s);
                }
            }
            if self.nodes > self.budget {
                return None;
            }
        }
        None
    }

    /// one randomised completion attempt with the given fixed variables
    pub fn complete(&mut self, r: &mut R, fixed: &[(usize, E<F>)], pool: &[E<F>], wild: bool) -> Option<Vec<E<F>>> {
        self.stats.searches += 1;
        self.nodes = 0;
        self.numfirst = wild && r.bool();
        let st = self.init(fixed)?;
        let res = self.dfs(r, st, pool, 0, wild);
        self.stats.nodes += self.nodes;
        if let Some(s) = &res {
            if self.sys.r.first_violated(s).is_some() {
                return None;
            }
            self.stats.solutions += 1;
            if *s != self.sys.honest {
                self.stats.dishonest += 1;
            }
        }
        res
    }

    /// local repair: start from the honest witness, force a deviation, then fix
    /// violated constraints one variable at a time
    pub fn repair(&mut self, r: &mut R, fixed: &BTreeSet<usize>, steps: usize) -> Option<Vec<E<F>>> {
        let n = self.sys.r.vals.len();
        let free: Vec<usize> = (1..n).filter(|k| !fixed.contains(k)).collect();
        if free.is_empty() {
            return None;
        }
        self.stats.repairs += 1;
        let mut v = self.sys.honest.clone();
        let d = *r.pick(&free);
        let h = v[d];
        v[d] = match r.below(6) {
            0 => E::one() - h,
            1 => -h,
            2 => h + E::one(),
            3 => E::zero(),
            4 => E(crate::gen::uniform::<F>(r)),
            _ => h - E::one(),
        };
        let mut bad: BTreeSet<usize> = self.sys.occ[d]
            .iter()
            .cloned()
            .filter(|c| !self.sys.r.holds(*c, &v))
            .collect();
        let mut last = d;
        let forward = r.chance(2, 3);
        for _ in 0..steps {
            if bad.is_empty() {
                break;
            }
            let c = *bad.iter().next().unwrap();
            let mut cand: Vec<usize> = self.sys.vars[c]
                .iter()
                .cloned()
                .filter(|k| !fixed.contains(k) && *k != last && *k != d)
                .collect();
            if cand.is_empty() {
                return None;
            }
            let x = if forward && r.chance(4, 5) {
                *cand.iter().max().unwrap()
            } else {
                Self::shuffle(r, &mut cand);
                cand[0]
            };
            let (q2, q1, q0) = quad(&self.sys.r.cons[c], x, &mut |k| v[k]);
            let rt = match roots(q2, q1, q0) {
                Roots::Some(rt) if !rt.is_empty() => rt,
                _ => return None,
            };
            v[x] = *r.pick(&rt);
            last = x;
            for k in self.sys.occ[x].iter() {
                if self.sys.r.holds(*k, &v) {
                    bad.remove(k);
                } else {
                    bad.insert(*k);
                }
            }
        }
        if !bad.is_empty() || self.sys.r.first_violated(&v).is_some() {
            return None;
        }
        self.stats.solutions += 1;
        if v != self.sys.honest {
            self.stats.dishonest += 1;
        }
        Some(v)
    }

    /// support of the kernel of the constraint Jacobian at the honest witness,
    /// restricted to the unfixed variables: variables that are not even
    /// locally determined. Returns (free variables, support).
    pub fn kernel(&mut self, fixed: &BTreeSet<usize>) -> (Vec<usize>, BTreeSet<usize>) {
        let n = self.sys.r.vals.len();
        let h = &self.sys.honest;
        // pivot = highest variable of the row: constraints define their newest
        // variable, so the system is nearly triangular and stays sparse
        let mut piv: BTreeMap<usize, BTreeMap<usize, E<F>>> = BTreeMap::new();
        for con in self.sys.r.cons.iter() {
            let mut row: BTreeMap<usize, E<F>> = BTreeMap::new();
            let av = lc_val(&con.a, h);
            let bv = lc_val(&con.b, h);
            for (lc, k) in [(&con.a, bv), (&con.b, av), (&con.c, -E::one())].iter() {
                for (x, c) in lc.iter() {
                    if *x != 0 && !fixed.contains(x) {
                        let e = row.entry(*x).or_insert_with(E::zero);
                        *e = *e + *c * *k;
                    }
                }
            }
            row.retain(|_, v| !v.is_zero());
            while let Some((x, k)) = row.iter().next_back().map(|(x, k)| (*x, *k)) {
                match piv.get(&x) {
                    None => {
                        let inv = k.inv().unwrap();
                        for v in row.values_mut() {
                            *v = *v * inv;
                        }
                        piv.insert(x, row);
                        break;
                    }
                    Some(p) => {
                        for (y, v) in p.iter() {
                            let e = row.entry(*y).or_insert_with(E::zero);
                            *e = *e - *v * k;
                            if e.is_zero() {
                                row.remove(y);
                            }
                        }
                    }
                }
            }
        }
        let free: Vec<usize> = (1..n).filter(|k| !fixed.contains(k) && !piv.contains_key(k)).collect();
        self.stats.kernel_dim = free.len() as u64;
        let mut sup: BTreeSet<usize> = free.iter().cloned().collect();
        for f in free.iter().take(24) {
            let mut v: BTreeMap<usize, E<F>> = BTreeMap::new();
            v.insert(*f, E::one());
            for (p, row) in piv.iter() {
                let mut s = E::zero();
                for (y, k) in row.iter() {
                    if y != p {
                        if let Some(x) = v.get(y) {
                            s = s - *k * *x;
                        }
                    }
                }
                if !s.is_zero() {
                    v.insert(*p, s);
                }
            }
            sup.extend(v.keys());
        }
        (free, sup)
    }
}

pub struct Attack<'a, F: RefField> {
    pub r1cs: &'a R1cs<F>,
    pub honest: &'a [E<F>],
    /// variables whose values are the statement (kept as they are)
    pub fixed: BTreeSet<usize>,
    /// linear combinations that must come out as in the honest run, or satisfy
    /// the judge
    pub outputs: Vec<Lc<F>>,
    /// extra goals: force outputs[i] = value
    pub goals: Vec<Vec<(usize, E<F>)>>,
    /// guesses for the hint variables
    pub pools: Vec<Vec<E<F>>>,
    /// additional assignments to start a search from
    pub pins: Vec<Vec<(usize, E<F>)>>,
    pub tries: usize,
    pub repairs: usize,
    pub kernel_max: usize,
    pub budget: u64,
    /// also try the pools under each goal
    pub goal_pools: bool,
}

impl<'a, F: RefField> Attack<'a, F> {
    pub fn new(r1cs: &'a R1cs<F>, honest: &'a [E<F>], fixed: BTreeSet<usize>) -> Self {
        Attack {
            r1cs,
            honest,
            fixed,
            outputs: vec![],
            goals: vec![],
            pools: vec![],
            pins: vec![],
            tries: 6,
            repairs: 20,
            kernel_max: 6000,
            budget: 300,
            goal_pools: true,
        }
    }

    /// runs every engine; `judge` sees each satisfying assignment found and
    /// returns Some(why) when it breaks the property
    pub fn run(
        &self,
        r: &mut R,
        judge: &mut dyn FnMut(&[E<F>]) -> Option<String>,
    ) -> (Stats, Option<String>) {
        let mut total = Stats::default();
        let fixed: Vec<(usize, E<F>)> = self.fixed.iter().map(|k| (*k, self.honest[*k])).collect();
        let plain = Sys::new(self.r1cs.clone(), self.honest.to_vec());
        macro_rules! see {
            ($s:expr, $how:expr) => {
                if let Some(s) = $s {
                    if let Some(m) = judge(&s) {
                        let diff: Vec<String> = s
                            .iter()
                            .zip(self.honest.iter())
                            .enumerate()
                            .filter(|(_, (a, b))| a != b)
                            .take(8)
                            .map(|(i, (a, _))| format!("w{}={}", i, tb(&a.0)))
                            .collect();
                        return (
                            total,
                            Some(format!("{} [forged witness via {}: {}]", m, $how, diff.join(" "))),
                        );
                    }
                }
            };
        }
        // goal directed
        for g in self.goals.iter() {
            let goals: Vec<(Lc<F>, E<F>)> = g.iter().map(|(o, v)| (self.outputs[*o].clone(), *v)).collect();
            let sys = Sys::with_goal(self.r1cs, self.honest, &goals);
            let mut se = Search::new(&sys);
            se.budget = self.budget;
            for t in 0..self.tries {
                let s = se.complete(r, &fixed, &[], t > 0);
                see!(s, "goal");
            }
            for p in self.pools.iter().filter(|_| self.goal_pools) {
                let s = se.complete(r, &fixed, p, false);
                see!(s, "goal+pool");
            }
            total.add(&se.stats);
        }
        // undirected
        {
            let mut se = Search::new(&plain);
            se.budget = self.budget;
            for t in 0..self.tries {
                let s = se.complete(r, &fixed, &[], t > 0);
                see!(s, "search");
            }
            for p in self.pools.iter() {
                let s = se.complete(r, &fixed, p, false);
                see!(s, "pool");
            }
            for p in self.pins.iter() {
                let mut fx = fixed.clone();
                fx.extend(p.iter().cloned());
                for t in 0..2 {
                    let s = se.complete(r, &fx, &[], t > 0);
                    see!(s, "pinned");
                }
            }
            for _ in 0..self.repairs {
                let s = se.repair(r, &self.fixed, 600);
                see!(s, "repair");
            }
            if self.kernel_max > 0 && plain.r.vals.len() <= self.kernel_max {
                let (free, sup) = se.kernel(&self.fixed);
                for f in free.iter().take(6) {
                    for k in 0..3 {
                        let mut fx: Vec<(usize, E<F>)> = (1..self.honest.len())
                            .filter(|i| !sup.contains(i))
                            .map(|i| (i, self.honest[i]))
                            .collect();
                        let nv = match k {
                            0 => self.honest[*f] + E::one(),
                            1 => E::zero(),
                            _ => E(crate::gen::uniform::<F>(r)),
                        };
                        fx.push((*f, nv));
                        let s = se.complete(r, &fx, &[], k == 2);
                        see!(s, "kernel");
                    }
                }
            }
            total.add(&se.stats);
        }
        (total, None)
    }
}

/// What the outputs of an attacked gadget have to look like.
pub enum Want<F: RefField> {
    /// exactly these values
    Exact(Vec<E<F>>),
    /// no satisfying assignment may exist at all
    Nothing,
}

/// Attack the recorded system with variables 1..n0 as the statement. Returns
/// the forgery found, if any.
pub fn forge<F: RefField>(
    r: &mut R,
    r1cs: &R1cs<F>,
    n0: usize,
    outputs: Vec<Lc<F>>,
    want: &Want<F>,
    tune: &dyn Fn(&mut Attack<F>),
) -> (Stats, Option<String>) {
    let honest: Vec<E<F>> = r1cs.vals.iter().map(|v| v.expect("valued run")).collect();
    let mut at = Attack::new(r1cs, &honest, (1..n0).collect());
    at.outputs = outputs.clone();
    if let Want::Exact(w) = want {
        for _ in 0..2.min(w.len()) {
            let i = r.below(w.len());
            let v = match r.below(4) {
                0 | 1 => E::one() - w[i],
                2 => w[i] + E::one(),
                _ => E(crate::gen::uniform::<F>(r)),
            };
            if v != w[i] {
                at.goals.push(vec![(i, v)]);
            }
        }
    }
    tune(&mut at);
    let mut judge = |s: &[E<F>]| match want {
        Want::Nothing => Some("a statement that must be refused has a satisfying assignment".to_string()),
        Want::Exact(w) => {
            for (i, lc) in outputs.iter().enumerate() {
                let v = lc_val(lc, s);
                if v != w[i] {
                    return Some(format!("output {} can be {} instead of {}", i, v.big(), w[i].big()));
                }
            }
            None
        }
    };
    at.run(r, &mut judge)
}
