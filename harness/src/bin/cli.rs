//! The command-line programs a user gets from the binding macros: `cli <target> <circuit> <subcommand> ...`
#![allow(unused)]
use fawkes_crypto::circuit::{bool::CBool, ecc::CEdwardsPoint, num::CNum, poseidon::{c_poseidon, c_poseidon_merkle_proof_root, CMerkleProof}};
use fawkes_crypto::core::{cs::ConstraintSystem, field::Field, signal::Signal, sizedvec::SizedVec};
use fawkes_crypto::native::{ecc::{EdwardsPoint, JubJubParams}, num::Num, poseidon::{poseidon, poseidon_merkle_proof_root, MerkleProof, PoseidonParams}};
use fawkes_crypto_derive::Signal;
use serde::{Deserialize, Serialize};
use typenum::{Unsigned, U2, U260, U3};

fn seeded<F: Field>(tag: &str) -> Num<F> {
    let s = std::env::var("FV_SEED").unwrap_or_default();
    let n = Num::from_seed(format!("{} {}", s, tag).as_bytes());
    // boundary values now and then
    match s.bytes().map(|b| b as usize).sum::<usize>() % 5 {
        1 if tag.len() % 2 == 0 => Num::zero(),
        2 if tag.len() % 2 == 1 => Num::from(0u64) - Num::one(),
        _ => n,
    }
}
fn seeded_bool(tag: &str) -> bool { let s = std::env::var("FV_SEED").unwrap_or_default() + tag; s.bytes().fold(7u32, |a, b| a.wrapping_mul(31).wrapping_add(b as u32)) & 4 != 0 }

// ---- circuit a: a Merkle proof, the root is public
#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(bound(serialize = "", deserialize = ""))]
pub struct Member<F: Field> { pub leaf: Num<F>, pub proof: MerkleProof<F, U3> }
#[derive(Clone, Signal)]
#[Value = "Member<CS::F>"]
pub struct CMember<'a, CS: ConstraintSystem> { pub leaf: CNum<'a, CS>, pub proof: CMerkleProof<'a, CS, U3> }
pub fn main_a<'a, CS: ConstraintSystem>(root: &CNum<'a, CS>, s: &CMember<'a, CS>, params: &PoseidonParams<CS::F>) {
    c_poseidon_merkle_proof_root(&s.leaf, &s.proof, params).assert_eq(root);
}
pub fn data_a<F: Field>(params: &PoseidonParams<F>) -> (Num<F>, Member<F>) {
    let m = Member { leaf: seeded("leaf"), proof: MerkleProof { sibling: (0..3).map(|i| seeded(&format!("sibling{}", i))).collect(), path: (0..3).map(|i| seeded_bool(&format!("path{}", i))).collect() } };
    (poseidon_merkle_proof_root(m.leaf, &m.proof, params), m)
}

// ---- circuit b: many public values of several kinds
#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(bound(serialize = "", deserialize = ""))]
pub struct Inner<F: Field> { pub x: Num<F>, pub y: Num<F> }
#[derive(Clone, Signal)]
#[Value = "Inner<CS::F>"]
pub struct CInner<'a, CS: ConstraintSystem> { pub x: CNum<'a, CS>, pub y: CNum<'a, CS> }
#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(bound(serialize = "", deserialize = ""))]
pub struct Many<F: Field> { pub a: Num<F>, pub flag: bool, pub v: SizedVec<Num<F>, U3>, pub n: Inner<F>, pub o: SizedVec<bool, U2> }
#[derive(Clone, Signal)]
#[Value = "Many<CS::F>"]
pub struct CMany<'a, CS: ConstraintSystem> { pub a: CNum<'a, CS>, pub flag: CBool<'a, CS>, pub v: SizedVec<CNum<'a, CS>, U3>, pub n: CInner<'a, CS>, pub o: SizedVec<CBool<'a, CS>, U2> }
#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(bound(serialize = "", deserialize = ""))]
pub struct Few<F: Field> { pub k: Num<F>, pub b: bool }
#[derive(Clone, Signal)]
#[Value = "Few<CS::F>"]
pub struct CFew<'a, CS: ConstraintSystem> { pub k: CNum<'a, CS>, pub b: CBool<'a, CS> }
/// a = k^2, flag = b, v = (k a, k + 3, 0 unless b: 7), n = (a - k, if b a else k), o = (k = 5, not b)
pub fn main_b<'a, CS: ConstraintSystem>(p: &CMany<'a, CS>, s: &CFew<'a, CS>, three: &Num<CS::F>) {
    let cs = s.k.cs;
    (&s.k * &s.k).assert_eq(&p.a);
    s.b.assert_eq(&p.flag);
    (&s.k * &p.a).assert_eq(&p.v[0]);
    (&s.k + *three).assert_eq(&p.v[1]);
    (s.b.clone().into_num() * Num::from(7u64)).assert_eq(&p.v[2]);
    (&p.a - &s.k).assert_eq(&p.n.x);
    p.a.switch(&s.b, &s.k).assert_eq(&p.n.y);
    (&s.k - Num::from(5u64)).is_zero().assert_eq(&p.o[0]);
    (Num::one() - s.b.clone().into_num()).assert_eq(&p.o[1].clone().into_num());
}
pub fn data_b<F: Field>(three: &Num<F>) -> (Many<F>, Few<F>) {
    let k: Num<F> = if seeded_bool("five") { Num::from(5u64) } else { seeded("key") };
    let b = seeded_bool("b");
    let a = k * k;
    (Many { a, flag: b, v: vec![k * a, k + *three, Num::from(if b { 7u64 } else { 0 })].into_iter().collect(), n: Inner { x: a - k, y: if b { a } else { k } }, o: vec![k == Num::from(5u64), !b].into_iter().collect() }, Few { k, b })
}

// ---- circuit c: a public curve point and the hash of its coordinates with a secret
pub type CPtNum<'a, CS> = (CEdwardsPoint<'a, CS>, CNum<'a, CS>);
pub fn main_c<'a, CS: ConstraintSystem>(p: &CPtNum<'a, CS>, s: &CNum<'a, CS>, params: &PoseidonParams<CS::F>) {
    c_poseidon(&[p.0.x.clone(), p.0.y.clone(), s.clone()], params).assert_eq(&p.1);
}
pub fn data_c<F: Field, J: JubJubParams<Fr = F>>(params: &PoseidonParams<F>, j: &J) -> ((EdwardsPoint<F>, Num<F>), Num<F>) {
    let p = EdwardsPoint::from_scalar(seeded("pt"), j);
    let s = seeded("secret");
    ((p, poseidon(&[p.x, p.y, s], params)), s)
}

// ---- circuit d: more public values than a byte counts, the i-th is k + i
pub type CWide<'a, CS> = SizedVec<CNum<'a, CS>, U260>;
pub fn main_d<'a, CS: ConstraintSystem>(p: &CWide<'a, CS>, s: &CNum<'a, CS>, one: &Num<CS::F>) {
    let mut k = s.clone();
    for v in p.iter() { v.assert_eq(&k); k = k + *one; }
}
pub fn data_d<F: Field>() -> (SizedVec<Num<F>, U260>, Num<F>) {
    let k: Num<F> = seeded("wide");
    ((0..260u64).map(|i| k + Num::from(i)).collect(), k)
}

macro_rules! target {
    ($m:ident, $bind:ident, $fr:ty, $jj:ty) => {
        mod $m {
            use super::*;
            type F = $fr;
            lazy_static::lazy_static! { pub static ref POS: PoseidonParams<F> = PoseidonParams::new(3, 8, 53); pub static ref POS4: PoseidonParams<F> = PoseidonParams::new(4, 8, 54); pub static ref THREE: Num<F> = Num::from(3u64); pub static ref ONE: Num<F> = Num::one(); pub static ref JJ: $jj = <$jj>::new(); }
            type PubA = Num<F>; type SecA = Member<F>;
            fn test_a() -> (PubA, SecA) { data_a(&POS) }
            fawkes_crypto::$bind!(a, PubA, CNum, SecA, CMember, POS, main_a, test_a);
            type PubB = Many<F>; type SecB = Few<F>;
            fn test_b() -> (PubB, SecB) { data_b(&THREE) }
            fawkes_crypto::$bind!(b, PubB, CMany, SecB, CFew, THREE, main_b, test_b);
            type PubC = (EdwardsPoint<F>, Num<F>); type SecC = Num<F>;
            fn test_c() -> (PubC, SecC) { data_c(&POS4, &*JJ) }
            fawkes_crypto::$bind!(c, PubC, CPtNum, SecC, CNum, POS4, main_c, test_c);
            type PubD = SizedVec<Num<F>, U260>; type SecD = Num<F>;
            fn test_d() -> (PubD, SecD) { data_d() }
            fawkes_crypto::$bind!(d, PubD, CWide, SecD, CNum, ONE, main_d, test_d);
            pub fn go(circuit: &str) {
                match circuit { "a" => a::cli_main(), "b" => b::cli_main(), "c" => c::cli_main(), "d" => d::cli_main(), _ => panic!("circuit") }
            }
        }
    };
}
target!(eth, groth16_ethereum_bindings, pairing::bn256::Fr, fawkes_crypto::native::bn256::JubJubBN256);
target!(waves, groth16_waves_bindings, pairing::bls12_381::Fr, fawkes_crypto::native::bls12_381::JubJubBLS12_381);
target!(wavesbn, groth16_waves_bindings_bn256, pairing::bn256::Fr, fawkes_crypto::native::bn256::JubJubBN256);
target!(near, groth16_near_bindings, pairing::bn256::Fr, fawkes_crypto::native::bn256::JubJubBN256);

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::env::set_var("FV_SKIP_ARGS", "2");
    match &a[1][..] { "eth" => eth::go(&a[2]), "waves" => waves::go(&a[2]), "wavesbn" => wavesbn::go(&a[2]), "near" => near::go(&a[2]), _ => panic!("target") }
}
