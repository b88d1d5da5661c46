//! C08: Merkle roots and membership proofs agree for every leaf of every tree
use fawkes_crypto::core::field::Field;
use fawkes_crypto::core::sizedvec::SizedVec;
use fawkes_crypto::native::num::Num;
use fawkes_crypto::native::poseidon::{poseidon_merkle_proof_root, poseidon_merkle_tree_root, MerkleProof, PoseidonParams};
use fv::engine::guard;
use fv::refm::*;
use fv::{ensure, gen, viol, Check, Ctx, Res};
use std::sync::Arc;
use typenum::*;

struct Env<F: RefField + Field> {
    sets: Vec<(PoseidonParams<F>, RefPoseidon<F>)>,
}

fn proof_root<F: RefField + Field>(leaf: E<F>, sib: &[E<F>], path: &[bool], pp: &PoseidonParams<F>) -> Option<E<F>> {
    fn go<F: RefField + Field, L: Unsigned>(leaf: E<F>, sib: &[E<F>], path: &[bool], pp: &PoseidonParams<F>) -> E<F> {
        let pr = MerkleProof::<F, L> {
            sibling: sib.iter().map(|x| Num(x.0)).collect::<SizedVec<_, L>>(),
            path: path.iter().cloned().collect::<SizedVec<_, L>>(),
        };
        E(poseidon_merkle_proof_root(Num(leaf.0), &pr, pp).0)
    }
    macro_rules! m { ($($n:expr => $t:ty),*) => { match sib.len() { $($n => Some(go::<F, $t>(leaf, sib, path, pp)),)* _ => None } } }
    m!(0 => U0, 1 => U1, 2 => U2, 3 => U3, 4 => U4, 5 => U5, 6 => U6, 7 => U7, 8 => U8, 9 => U9, 10 => U10, 11 => U11, 12 => U12, 13 => U13, 14 => U14, 16 => U16, 20 => U20, 32 => U32, 33 => U33)
}

fn leaves<F: RefField>(c: &mut Ctx, n: usize) -> Vec<E<F>> {
    let mode = c.r.below(4);
    let mut v: Vec<E<F>> = (0..n).map(|i| match mode {
        0 => E(gen::uniform::<F>(&mut c.r)),
        1 => E::n(i as u64 + 1),
        2 => if c.r.bool() { E::zero() } else { E(gen::shaped::<F>(&mut c.r)) },
        _ => E(gen::shaped::<F>(&mut c.r)),
    }).collect();
    if c.r.chance(1, 3) && n > 1 {
        let (i, j) = (c.r.below(n), c.r.below(n));
        v[i] = v[j];
    }
    v
}

fn tree<F: RefField + Field>(c: &mut Ctx, e: &Env<F>) -> Res {
    // every small number of leaves in turn, then powers of two and neighbours
    let n = if c.iter % 4 != 3 { 1 + c.iter % 70 } else {
        let k = c.r.range(1, if c.thorough { 9 } else { 7 });
        let b = 1usize << k;
        [b - 1, b, b + 1][c.r.below(3)].max(1)
    };
    tree_n(c, e, n)
}
fn big_tree<F: RefField + Field>(c: &mut Ctx, e: &Env<F>) -> Res {
    let n = match c.iter % 8 { 0 => 256, 1 => 257, 2 => 255, 3 => 511, 4 => 512, 5 => 513, 6 => c.r.range(130, 255), _ => if c.iter % 16 == 7 { c.r.range(2049, 4500) } else { c.r.range(514, 1024) } };
    tree_n(c, e, n)
}
fn tree_n<F: RefField + Field>(c: &mut Ctx, e: &Env<F>, n: usize) -> Res {
    let (pp, rp) = &e.sets[c.r.below(e.sets.len())];
    let lv = leaves::<F>(c, n);
    c.count("leaves", n as u64);
    c.count(&format!("height {}", (n as f64).log2().ceil()), 1);
    c.case(format!("{} {} {:?}", F::NAME, n, lv.iter().map(|x| x.big().to_string()).collect::<Vec<_>>()));
    let nums: Vec<Num<F>> = lv.iter().map(|x| Num(x.0)).collect();
    let root = E(poseidon_merkle_tree_root(&nums, pp).0);
    let levels = rp.merkle_levels(&lv);
    ensure!(c, root == levels.last().unwrap()[0], "root over {} leaves in {} is not the specified tree", n, F::NAME);
    // one more zero leaf inside the padding changes nothing
    if n < levels[0].len() {
        let mut m = nums.clone();
        m.push(Num::zero());
        ensure!(c, poseidon_merkle_tree_root(&m, pp).0 == root.0, "explicit zero leaf changes the root of {} leaves", n);
    }
    let h = levels.len() - 1;
    let total = levels[0].len();
    let picks: Vec<usize> = if total <= 16 { (0..total).collect() } else { (0..6).map(|i| if i < 2 { [0, n - 1][i] } else { c.r.below(total) }).collect() };
    for i in picks {
        let sib: Vec<E<F>> = (0..h).map(|k| levels[k][(i >> k) ^ 1]).collect();
        let path: Vec<bool> = (0..h).map(|k| (i >> k) & 1 == 1).collect();
        let leaf = levels[0][i];
        let got = proof_root(leaf, &sib, &path, pp).ok_or("unsupported height")?;
        ensure!(c, got == root, "proof of leaf {} of {} does not give the root in {}", i, n, F::NAME);
        c.count("proofs", 1);
        if h == 0 { continue; }
        // tampered
        let k = c.r.below(h);
        let mut s2 = sib.clone();
        s2[k] = s2[k] + E::one();
        let bad = proof_root(leaf, &s2, &path, pp).unwrap();
        ensure!(c, bad != root, "proof with sibling {} changed still gives the root", k);
        let mut p2 = path.clone();
        p2[k] = !p2[k];
        let bad = proof_root(leaf, &sib, &p2, pp).unwrap();
        // exchanging equal nodes is no change
        let same = levels[k][i >> k] == sib[k];
        ensure!(c, (bad == root) == same, "proof with path bit {} changed (leaf {} of {}): equal nodes {}", k, i, n, same);
        let bad = proof_root(leaf + E::one(), &sib, &path, pp).unwrap();
        ensure!(c, bad != root, "proof of a changed leaf still gives the root");
        // the exact wrong value
        ensure!(c, bad == rp.merkle_root_from_proof(leaf + E::one(), &sib, &path), "root of a changed leaf");
    }
    Ok(())
}

fn free_proof<F: RefField + Field>(c: &mut Ctx, e: &Env<F>) -> Res {
    let h = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 16, 20, 32, 33][c.iter % 15];
    let (pp, rp) = &e.sets[c.r.below(e.sets.len())];
    let mut sib: Vec<E<F>> = leaves(c, h);
    let path: Vec<bool> = (0..h).map(|_| c.r.bool()).collect();
    let leaf = E(gen::shaped::<F>(&mut c.r));
    if h > 0 && c.r.chance(1, 3) {
        sib[0] = leaf;
    }
    c.case(format!("{} {} {:?}", F::NAME, leaf.big(), path));
    let got = proof_root(leaf, &sib, &path, pp).ok_or("height")?;
    ensure!(c, got == rp.merkle_root_from_proof(leaf, &sib, &path), "root of a proof of height {} path {:?} in {}", h, path, F::NAME);
    Ok(())
}

fn empty<F: RefField + Field>(c: &mut Ctx, e: &Env<F>) -> Res {
    if guard(|| poseidon_merkle_tree_root::<F>(&[], &e.sets[0].0)).is_ok() {
        viol!("a tree without leaves has a root");
    }
    c.obs(1);
    Ok(())
}

fn main() {
    fn env<F: RefField + Field>() -> Arc<Env<F>> {
        Arc::new(Env { sets: [(3, 8, 53), (2, 6, 10), (4, 8, 54)].iter().map(|(t, f, p)| (PoseidonParams::new(*t, *f, *p), RefPoseidon::new(*t, *f, *p))).collect() })
    }
    let bn = env::<BnFr>();
    let bl = env::<BlsFr>();
    let mut ck = Check::new("C08", "trees with every leaf count from 1 to 70, around powers of two and up to 4500, leaves with zeros and repetitions; the proof of each leaf (all of them in small trees) and tampered proofs; roots compared with an independent tree; distinct by leaves");
    macro_rules! s { ($n:expr, $q:expr, $t:expr, $f:ident, $c:expr) => {{
        let c = $c.clone();
        ck = ck.add($n, $q, $t, move |x: &mut Ctx| $f(x, &c));
    }} }
    s!("trees-bn", 1120, 14000, tree, bn);
    s!("trees-bls", 1120, 14000, tree, bl);
    s!("large-bn", 16, 160, big_tree, bn);
    s!("large-bls", 8, 80, big_tree, bl);
    s!("proofs-bn", 1500, 40000, free_proof, bn);
    s!("proofs-bls", 1500, 40000, free_proof, bl);
    s!("empty-bn", 1, 1, empty, bn);
    ck.assume("Poseidon itself is monitored by C07").run()
}
