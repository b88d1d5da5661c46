//! The monitored constraint system. It implements the crate's own
//! `ConstraintSystem` trait, so the real circuit code runs against it; every
//! allocation and every enforced constraint is recorded, and the declared value
//! of every signal that reaches it is compared with its linear combination.
use crate::refm::E;
use fawkes_crypto::circuit::bool::CBool;
use fawkes_crypto::circuit::num::{CNum, Index};
use fawkes_crypto::core::cs::ConstraintSystem;
use fawkes_crypto::core::field::Field;
use fawkes_crypto::native::num::Num;
use std::cell::RefCell;
use std::collections::BTreeMap;

pub type Lc<F> = Vec<(usize, E<F>)>;

#[derive(Clone, Debug)]
pub struct Con<F: Field> {
    pub a: Lc<F>,
    pub b: Lc<F>,
    pub c: Lc<F>,
}

#[derive(Clone, Debug)]
pub struct R1cs<F: Field> {
    /// variable 0 is the constant one
    pub vals: Vec<Option<E<F>>>,
    pub is_input: Vec<bool>,
    pub cons: Vec<Con<F>>,
}

pub struct Inner<F: Field> {
    pub sys: R1cs<F>,
    pub inputs: Vec<usize>,
    pub aux: Vec<usize>,
    pub errors: Vec<String>,
    pub unsat: Vec<usize>,
    pub audits: u64,
}

pub struct MonCS<F: Field>(pub RefCell<Inner<F>>);

impl<F: Field> Clone for MonCS<F> {
    fn clone(&self) -> Self {
        panic!("signals must not clone the constraint system")
    }
}

pub fn eval<F: Field>(lc: &Lc<F>, v: &[Option<E<F>>]) -> Option<E<F>> {
    let mut s = E::zero();
    for (k, c) in lc {
        s = s + v[*k]? * *c;
    }
    Some(s)
}

impl<F: Field> MonCS<F> {
    pub fn new() -> Self {
        MonCS(RefCell::new(Inner {
            sys: R1cs {
                vals: vec![Some(E::one())],
                is_input: vec![true],
                cons: vec![],
            },
            inputs: vec![0],
            aux: vec![],
            errors: vec![],
            unsat: vec![],
            audits: 0,
        }))
    }
    pub fn nvars(&self) -> usize {
        self.0.borrow().sys.vals.len()
    }
    pub fn ncons(&self) -> usize {
        self.0.borrow().sys.cons.len()
    }
    pub fn ninputs(&self) -> usize {
        self.0.borrow().inputs.len() - 1
    }
    pub fn snapshot(&self) -> R1cs<F> {
        self.0.borrow().sys.clone()
    }
    pub fn input_values(&self) -> Vec<Option<E<F>>> {
        let b = self.0.borrow();
        b.inputs[1..].iter().map(|i| b.sys.vals[*i]).collect()
    }
    /// linear combination over recorded variables, duplicates merged
    pub fn lc(&self, x: &CNum<Self>) -> Lc<F> {
        let b = self.0.borrow();
        let mut m: BTreeMap<usize, E<F>> = BTreeMap::new();
        for (k, v) in x.lc.iter() {
            let id = match k {
                Index::Input(i) => b.inputs.get(*i),
                Index::Aux(i) => b.aux.get(*i),
            };
            let id = match id {
                Some(i) => *i,
                None => panic!("signal refers to unallocated variable {:?}", k),
            };
            let e = m.entry(id).or_insert_with(E::zero);
            *e = *e + E(v.0);
        }
        m.into_iter().filter(|(_, v)| !v.is_zero()).collect()
    }
    /// value carried by the signal == value of its linear combination
    pub fn audit(&self, x: &CNum<Self>) -> Result<(), String> {
        let lc = self.lc(x);
        let mut b = self.0.borrow_mut();
        b.audits += 1;
        let v = eval(&lc, &b.sys.vals);
        match (x.value, v) {
            (Some(a), Some(b)) => {
                if E(a.0) != b {
                    return Err(format!(
                        "signal value {} differs from its linear combination {} ({} terms)",
                        E(a.0).big(),
                        b.big(),
                        lc.len()
                    ));
                }
            }
            (Some(a), None) => {
                return Err(format!(
                    "signal claims value {} although it depends on unassigned variables",
                    E(a.0).big()
                ));
            }
            (None, Some(_)) => {
                // a missing value may have cancelled out; with none missing there is no excuse
                if b.sys.vals.iter().all(|v| v.is_some()) {
                    return Err("signal lost its value although all its variables are assigned".into());
                }
            }
            (None, None) => {}
        }
        Ok(())
    }
    pub fn audit_bool(&self, x: &CBool<Self>) -> Result<(), String> {
        self.audit(&x.0)
    }
    /// errors recorded by the monitor and unsatisfied constraints
    pub fn verdict(&self) -> Result<(), String> {
        let b = self.0.borrow();
        if let Some(e) = b.errors.first() {
            return Err(e.clone());
        }
        if let Some(c) = b.unsat.first() {
            return Err(format!("constraint {} is not satisfied by the assigned values", c));
        }
        Ok(())
    }
    pub fn integrity(&self) -> Result<(), String> {
        let b = self.0.borrow();
        match b.errors.first() {
            Some(e) => Err(e.clone()),
            None => Ok(()),
        }
    }
    pub fn satisfied(&self) -> bool {
        self.0.borrow().unsat.is_empty()
    }
    pub fn audits(&self) -> u64 {
        self.0.borrow().audits
    }
    fn push(&self, v: Option<Num<F>>, input: bool) -> Index {
        let mut b = self.0.borrow_mut();
        let id = b.sys.vals.len();
        b.sys.vals.push(v.map(|x| E(x.0)));
        b.sys.is_input.push(input);
        if input {
            b.inputs.push(id);
            Index::Input(b.inputs.len() - 1)
        } else {
            b.aux.push(id);
            Index::Aux(b.aux.len() - 1)
        }
    }
}

impl<F: Field> ConstraintSystem for MonCS<F> {
    type F = F;
    fn alloc(&self, v: Option<Num<F>>) -> Index {
        self.push(v, false)
    }
    fn alloc_input(&self, v: Option<Num<F>>) -> Index {
        self.push(v, true)
    }
    fn enforce(&self, a: &CNum<Self>, b: &CNum<Self>, c: &CNum<Self>) {
        for (n, x) in [("a", a), ("b", b), ("c", c)].iter() {
            if let Err(e) = self.audit(x) {
                let k = self.ncons();
                self.0.borrow_mut().errors.push(format!("constraint {} side {}: {}", k, n, e));
            }
        }
        let con = Con {
            a: self.lc(a),
            b: self.lc(b),
            c: self.lc(c),
        };
        let mut i = self.0.borrow_mut();
        let id = i.sys.cons.len();
        if let (Some(a), Some(b), Some(c)) = (
            eval(&con.a, &i.sys.vals),
            eval(&con.b, &i.sys.vals),
            eval(&con.c, &i.sys.vals),
        ) {
            if a * b != c {
                i.unsat.push(id);
            }
        }
        i.sys.cons.push(con);
    }
}

impl<F: Field> R1cs<F> {
    pub fn holds(&self, c: usize, v: &[E<F>]) -> bool {
        let f = |lc: &Lc<F>| lc.iter().fold(E::zero(), |s, (k, c)| s + v[*k] * *c);
        let con = &self.cons[c];
        f(&con.a) * f(&con.b) == f(&con.c)
    }
    pub fn first_violated(&self, v: &[E<F>]) -> Option<usize> {
        (0..self.cons.len()).find(|c| !self.holds(*c, v))
    }
    pub fn honest(&self) -> Option<Vec<E<F>>> {
        self.vals.iter().cloned().collect()
    }
    /// structural fingerprint independent of the assignment
    pub fn shape(&self) -> u64 {
        let mut bytes: Vec<u8> = vec![];
        bytes.extend_from_slice(&(self.vals.len() as u64).to_le_bytes());
        for i in &self.is_input {
            bytes.push(*i as u8);
        }
        for c in &self.cons {
            for lc in [&c.a, &c.b, &c.c].iter() {
                bytes.push(0xfe);
                for (k, v) in lc.iter() {
                    bytes.extend_from_slice(&(*k as u64).to_le_bytes());
                    for w in crate::gen::repr_words(&v.0) {
                        bytes.extend_from_slice(&w.to_le_bytes());
                    }
                }
            }
        }
        crate::rng::hash64(&[&bytes])
    }
}

pub fn lc_val<F: Field>(lc: &Lc<F>, v: &[E<F>]) -> E<F> {
    lc.iter().fold(E::zero(), |s, (k, c)| s + v[*k] * *c)
}
