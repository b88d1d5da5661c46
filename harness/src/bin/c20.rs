//! C20: honest Groth16 proofs always verify
use fawkes_crypto::core::cs::Circuit;
use fawkes_crypto::helpers::groth16::verifier::truncate_verifying_key;
use fv::g16::*;
use fv::moncs::MonCS;
use fv::prog::{Op, Script, JF};
use fv::refm::*;
use fv::{ensure, viol, Check, Ctx, Res};
use pairing::bls12_381::Bls12;
use pairing::bn256::Bn256;
use pairing::Engine;
use std::sync::Arc;

fn round<En: Engine>(c: &mut Ctx, len: usize, heavy: usize) -> Res
where En::Fr: JF {
    let s = script::<En::Fr>(&mut c.r, len, heavy);
    round_of::<En>(c, s)
}
/// many public inputs
fn wide<En: Engine>(c: &mut Ctx) -> Res where En::Fr: JF {
    let mut s = (*script::<En::Fr>(&mut c.r, 12, 0)).clone();
    let w = s.witness(&mut c.r, false);
    let n = match s.eval(&w) { Some(e) if !e.nums.is_empty() => e.nums.len(), _ => { c.obs(1); return Ok(()); } };
    let m = *c.r.pick(&[30, 64, 65, 130, 260]);
    for _ in 0..m { let i = c.r.below(n); s.ops.push(Op::Inputize(i)); }
    round_of::<En>(c, Arc::new(s))
}
fn round_of<En: Engine>(c: &mut Ctx, s: Arc<Script<En::Fr>>) -> Res
where En::Fr: JF {
    c.case(s.show());
    let (w, x) = match witness(&mut c.r, &s, true) { Some(k) => k, None => { c.obs(1); return Ok(()); } };
    // what the circuit publishes according to the independent recorder
    let cs = MonCS::<En::Fr>::new();
    let sc = SC { script: s.clone(), w: Some(w.clone()) };
    sc.synthesize(&cs);
    if let Err(e) = cs.verdict() { viol!("satisfying assignment leaves the circuit unsatisfied ({}): {}", e, s.show()); }
    let pubs: Vec<Option<E<En::Fr>>> = cs.input_values();
    ensure!(c, pubs == x.iter().map(|e| Some(*e)).collect::<Vec<_>>(), "published values differ from the computation's: {}", s.show());
    let p = match fv::engine::guard(|| keys::<En>(&s)) {
        Ok(p) => p,
        Err(e) => viol!("key generation failed with '{}' for {}", e, s.show()),
    };
    let vk = truncate_verifying_key(&p.vk);
    ensure!(c, vk.ic.len() == x.len() + 1, "key for {} public inputs although the circuit publishes {}: {}", vk.ic.len() as i64 - 1, x.len(), s.show());
    c.count(&format!("public inputs: {}", x.len().min(9)), 1);
    c.count("constraints proved", cs.ncons() as u64);
    let n = 1 + c.r.below(3);
    let mut ws = vec![(w, x)];
    for _ in 1..n { if let Some(k) = witness(&mut c.r, &s, true) { ws.push(k); } }
    for (w, x) in ws {
        let pr = match make_proof::<En>(&s, &w, &p) { Ok(p) => p, Err(e) => viol!("proving failed with '{}' for {}", e, s.show()) };
        let got = lib_verdict(&vk, &pr, &frs(&x));
        ensure!(c, got == Ok(Ok(true)), "honest proof gives {:?} for inputs [{}] of {}", got, x.iter().map(|e| e.big().to_string()).collect::<Vec<_>>().join(","), s.show());
        ensure!(c, equation::<En>(&vk, &pr.0, &frs(&x)), "honest proof misses the pairing equation: {}", s.show());
        c.count("proofs verified", 1);
    }
    Ok(())
}
fn small<En: Engine>(c: &mut Ctx) -> Res where En::Fr: JF {
    let len = c.r.range(2, 30);
    round::<En>(c, len, 0)
}
fn mid<En: Engine>(c: &mut Ctx) -> Res where En::Fr: JF {
    let len = c.r.range(6, 24);
    round::<En>(c, len, 1)
}
fn big<En: Engine>(c: &mut Ctx) -> Res where En::Fr: JF {
    let len = c.r.range(10, 24);
    round::<En>(c, len, 2)
}

fn main() {
    Check::new("C20", "random circuits (arithmetic, bit, hash, Merkle, curve and signature gadgets; 0 to 260 public inputs, published constants) through key generation, proving with one to three satisfying assignments and verification on both engines; the published values come from an independent evaluation; distinct by circuit")
        .add("curve-bn", 3, 120, big::<Bn256>)
        .add("curve-bls", 2, 80, big::<Bls12>)
        .add("gadgets-bn", 10, 500, mid::<Bn256>)
        .add("gadgets-bls", 6, 300, mid::<Bls12>)
        .add("wide-bn", 6, 200, wide::<Bn256>)
        .add("wide-bls", 3, 100, wide::<Bls12>)
        .add("small-bn", 80, 3000, small::<Bn256>)
        .add("small-bls", 50, 2000, small::<Bls12>)
        .assume("every private variable occurs in a constraint (bellman's key generator refuses others)")
        .run()
}
