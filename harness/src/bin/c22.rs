//! C22: keys and proofs round-trip through every encoding
use bellman::groth16::Proof as BP;
use borsh::{BorshDeserialize, BorshSerialize};
use fawkes_crypto::helpers::groth16::prover::{Proof, ProofData};
use fawkes_crypto::helpers::groth16::verifier::{truncate_verifying_key, TruncatedVerifyingKey, TruncatedVerifyingKeyData};
use fv::engine::guard;
use fv::g16::*;
use fv::gen;
use fv::prog::JF;
use fv::refm::*;
use fv::wei::*;
use fv::{ensure, viol, Check, Ctx, Res};
use pairing::bls12_381::Bls12;
use pairing::bn256::Bn256;
use pairing::{CurveAffine, CurveProjective};
use std::io;

fn okz<T>(what: &str, r: Result<T, String>) -> Result<T, String> { r.map_err(|e| format!("{} failed: {}", what, e)) }
fn hex(v: &[u8]) -> String { v.iter().map(|b| format!("{:02x}", b)).collect() }

fn p1<C: PC>(c: &mut Ctx, inf: bool) -> C::G1Affine where C::Fr: RefField {
    match c.r.below(8) {
        0 if inf => C::G1Affine::zero(),
        1 => C::G1Affine::one(),
        2 => { let mut g = C::G1Affine::one(); g.negate(); g }
        3 => g1::<C>(E::n(c.r.range(1, 9) as u64)),
        4 if C::b1() == E::n(3) => {
            // no cofactor: any curve point, so any shape of coordinate
            let p = curve_point(&mut c.r, C::b1());
            to_g(&Some(p), C::nb()).unwrap()
        }
        _ => loop { let e = gen::uniform::<C::Fr>(&mut c.r); if !E(e).is_zero() { break g1::<C>(E(e)); } },
    }
}
fn p2<C: PC>(c: &mut Ctx, inf: bool) -> C::G2Affine where C::Fr: RefField {
    match c.r.below(8) {
        0 if inf => C::G2Affine::zero(),
        1 => C::G2Affine::one(),
        2 => { let mut g = C::G2Affine::one(); g.negate(); g }
        3 => g2::<C>(E::n(c.r.range(1, 9) as u64)),
        _ => loop { let e = gen::uniform::<C::Fr>(&mut c.r); if !E(e).is_zero() { break g2::<C>(E(e)); } },
    }
}

/// write with any sink behaviour, compare with the documented bytes
fn written<F: Fn(&mut Sink) -> io::Result<()>>(c: &mut Ctx, what: &str, exp: &[u8], f: F) -> Res {
    for mode in 0..5 {
        let mut s = Sink::new(if mode == 0 { usize::MAX } else { c.r.range(1, 40) });
        s.intr = mode == 2;
        if mode >= 3 { s.fail = Some((c.r.below(exp.len()), io::ErrorKind::BrokenPipe)); s.once = mode == 4; }
        let res = okz(what, guard(|| f(&mut s)))?;
        if mode < 3 {
            if let Err(e) = res { viol!("writing {} failed: {}", what, e); }
            ensure!(c, s.d == exp, "{} written as {} instead of {}", what, hex(&s.d), hex(exp));
        } else {
            c.count("failing sinks", 1);
            ensure!(c, matches!(&res, Err(e) if e.kind() == io::ErrorKind::BrokenPipe), "writing {} to a failing sink gives {:?}", what, res);
        }
    }
    Ok(())
}
fn src<'a>(c: &mut Ctx, d: &'a [u8]) -> Src<'a> {
    let mut s = Src::new(d, if c.r.bool() { usize::MAX } else { c.r.range(1, 70) });
    s.intr = c.r.chance(1, 3);
    s
}

fn proof_codec<C: PC>(c: &mut Ctx, p: &BP<C>) -> Result<Vec<Proof<C>>, String> {
    let nb = C::nb();
    let s = proof_slots::<C>(p);
    let pr = Proof(p.clone());
    let mut copies = vec![];
    c.case(format!("{:?}", s));
    c.sample(|| proof_json(&s));
    // binary
    let bytes = comp_all::<C>(&s);
    written(c, "proof", &bytes, |w| C::proof_write(&pr, w))?;
    if s.iter().all(|x| !x.is_zero()) {
        let mut b2 = bytes.clone();
        b2.extend(c.r.bytes(5));
        for d in &[&bytes, &b2] {
            let mut sr = src(c, d);
            let q = match okz("reading a proof", guard(|| C::proof_read(&mut sr)))? { Ok(q) => q, Err(e) => viol!("a written {} proof is refused: {} ({})", C::NAME, e, hex(d)) };
            ensure!(c, q.0 == *p && same(&proof_slots::<C>(&q.0), &s), "{} proof reads back as {:?} instead of {:?}", C::NAME, proof_slots::<C>(&q.0), s);
            ensure!(c, sr.pos == bytes.len(), "reading a {} proof consumed {} bytes of {}", C::NAME, sr.pos, bytes.len());
            copies.push(q);
        }
        c.count("binary proofs", 1);
    } else {
        c.count("proofs with infinity (point data only)", 1);
    }
    // point data
    let d = okz("point data", guard(|| C::proof_data(&pr)))?;
    let q = okz("proof from point data", guard(|| C::proof_from(&d)))?;
    ensure!(c, q.0 == *p && same(&proof_slots::<C>(&q.0), &s), "{} proof comes back from point data as {:?} instead of {:?}", C::NAME, proof_slots::<C>(&q.0), s);
    copies.push(q);
    // JSON
    let js = serde_json::to_string(&d).map_err(|e| e.to_string())?;
    ensure!(c, js == proof_json(&s), "{} proof JSON is {} instead of {}", C::NAME, js, proof_json(&s));
    let d2: ProofData<C::Q> = match fv::json::read(&proof_json(&s)).and_then(|r| r) { Ok(d) => d, Err(e) => viol!("{} proof JSON refused: {}", C::NAME, e) };
    ensure!(c, d2 == d, "{} proof JSON reads back as {:?} instead of {:?}", C::NAME, d2, d);
    let v = serde_json::to_value(&d).map_err(|e| e.to_string())?;
    let d3: ProofData<C::Q> = serde_json::from_value(v).map_err(|e| format!("proof JSON value refused: {}", e))?;
    ensure!(c, d3 == d, "proof JSON value reads back differently");
    let q = okz("proof from JSON data", guard(|| C::proof_from(&d2)))?;
    ensure!(c, q.0 == *p, "{} proof comes back from JSON as {:?}", C::NAME, proof_slots::<C>(&q.0));
    copies.push(q);
    // Borsh
    let exp = proof_borsh(&s, nb);
    let b = d.try_to_vec().map_err(|e| e.to_string())?;
    ensure!(c, b == exp, "{} proof Borsh is {} instead of {}", C::NAME, hex(&b), hex(&exp));
    written(c, "proof Borsh", &exp, |w| { let mut w = w; d.serialize(&mut w) })?;
    let d4 = ProofData::<C::Q>::try_from_slice(&exp).map_err(|e| format!("{} proof Borsh refused: {}", C::NAME, e))?;
    ensure!(c, d4 == d, "{} proof Borsh reads back as {:?} instead of {:?}", C::NAME, d4, d);
    let mut longer = exp.clone();
    longer.extend(c.r.bytes(3));
    let mut rest = &longer[..];
    let d5 = ProofData::<C::Q>::deserialize(&mut rest).map_err(|e| e.to_string())?;
    ensure!(c, d5 == d && rest.len() == 3, "{} proof Borsh consumed {} of {} bytes", C::NAME, longer.len() - rest.len(), exp.len());
    let q = okz("proof from Borsh data", guard(|| C::proof_from(&d4)))?;
    ensure!(c, q.0 == *p, "{} proof comes back from Borsh as {:?}", C::NAME, proof_slots::<C>(&q.0));
    copies.push(q);
    Ok(copies)
}

fn key_eq<C: PC>(a: &TruncatedVerifyingKey<C>, b: &TruncatedVerifyingKey<C>) -> bool {
    a.alpha_g1 == b.alpha_g1 && a.beta_g2 == b.beta_g2 && a.gamma_g2 == b.gamma_g2 && a.delta_g2 == b.delta_g2 && a.ic == b.ic && same(&key_slots::<C>(a), &key_slots::<C>(b))
}
fn key_codec<C: PC>(c: &mut Ctx, k: &TruncatedVerifyingKey<C>) -> Result<Vec<TruncatedVerifyingKey<C>>, String> {
    let nb = C::nb();
    let s = key_slots::<C>(k);
    let n = k.ic.len();
    let mut copies = vec![];
    c.case(format!("{:?}", s));
    let bytes = comp_all::<C>(&s);
    written(c, "key", &bytes, |w| k.write(w))?;
    if s.iter().all(|x| !x.is_zero()) {
        let mut sr = src(c, &bytes);
        let q = match okz("reading a key", guard(|| TruncatedVerifyingKey::<C>::read(&mut sr)))? { Ok(q) => q, Err(e) => viol!("a written {} key with {} bases is refused: {} ({})", C::NAME, n, e, hex(&bytes)) };
        ensure!(c, key_eq::<C>(&q, k), "{} key with {} bases reads back differently", C::NAME, n);
        copies.push(q);
        c.count("binary keys", 1);
    } else {
        c.count("keys with infinity (point data only)", 1);
    }
    let d = okz("key data", guard(|| C::key_data(k)))?;
    let q = okz("key from data", guard(|| C::key_from(&d)))?;
    ensure!(c, key_eq::<C>(&q, k), "{} key with {} bases comes back from point data differently", C::NAME, n);
    copies.push(q);
    let js = serde_json::to_string(&d).map_err(|e| e.to_string())?;
    ensure!(c, js == key_json(&s), "{} key JSON is {} instead of {}", C::NAME, js, key_json(&s));
    let d2: TruncatedVerifyingKeyData<C::Q> = match fv::json::read(&key_json(&s)).and_then(|r| r) { Ok(d) => d, Err(e) => viol!("{} key JSON refused: {}", C::NAME, e) };
    ensure!(c, d2 == d, "{} key JSON reads back differently", C::NAME);
    let q = okz("key from JSON data", guard(|| C::key_from(&d2)))?;
    ensure!(c, key_eq::<C>(&q, k), "{} key comes back from JSON differently", C::NAME);
    copies.push(q);
    let exp = key_borsh(&s, nb);
    let b = d.try_to_vec().map_err(|e| e.to_string())?;
    ensure!(c, b == exp, "{} key Borsh is {} instead of {}", C::NAME, hex(&b), hex(&exp));
    written(c, "key Borsh", &exp, |w| { let mut w = w; d.serialize(&mut w) })?;
    let d3 = TruncatedVerifyingKeyData::<C::Q>::try_from_slice(&exp).map_err(|e| format!("{} key Borsh refused: {}", C::NAME, e))?;
    ensure!(c, d3 == d, "{} key Borsh reads back differently", C::NAME);
    let q = okz("key from Borsh data", guard(|| C::key_from(&d3)))?;
    ensure!(c, key_eq::<C>(&q, k), "{} key comes back from Borsh differently", C::NAME);
    copies.push(q);
    Ok(copies)
}

fn proofs<C: PC>(c: &mut Ctx) -> Res where C::Fr: JF {
    let inf = c.r.chance(1, 3);
    let mut p = BP { a: p1::<C>(c, inf), b: p2::<C>(c, inf), c: p1::<C>(c, inf) };
    if c.r.chance(1, 8) { p.c = p.a; }
    proof_codec::<C>(c, &p)?;
    Ok(())
}
fn keys_rt<C: PC>(c: &mut Ctx) -> Res where C::Fr: JF {
    let inf = c.r.chance(1, 3);
    let n = match c.r.below(8) { 0 => 0, 1 => 1, 2 => if c.r.chance(1, 6) { *c.r.pick(&[127, 128, 129, 255, 256, 257, 300]) } else { c.r.range(20, 90) }, _ => c.r.range(1, 7) };
    let mut k = TruncatedVerifyingKey::<C> {
        alpha_g1: p1::<C>(c, inf), beta_g2: p2::<C>(c, inf), gamma_g2: p2::<C>(c, inf), delta_g2: p2::<C>(c, inf),
        ic: (0..n).map(|_| p1::<C>(c, inf)).collect(),
    };
    if n > 1 && c.r.chance(1, 6) { let x = k.ic[0]; k.ic[n - 1] = x; }
    key_codec::<C>(c, &k)?;
    Ok(())
}
/// verdicts are the same before and after any codec
fn verdicts<C: PC>(c: &mut Ctx) -> Res where C::Fr: JF {
    let n = c.r.below(5);
    let mut l = Logs::<C::Fr>::random(&mut c.r, n, false);
    match c.r.below(4) { 0 => l.c = l.c + E::one(), 1 => l.a = -l.a, _ => {} }
    let (k, p) = (key_of::<C>(&l), proof_of::<C>(&l));
    let x = frs(&l.x);
    let ps = proof_codec::<C>(c, &p)?;
    let ks = key_codec::<C>(c, &k)?;
    let exp = l.holds();
    for _ in 0..3 {
        let (k, p) = (c.r.pick(&ks).clone(), c.r.below(ps.len()));
        let got = lib_verdict(&k, &ps[p], &x);
        ensure!(c, got == Ok(Ok(exp)), "verdict {:?} after decoding, {} before", got, exp);
        c.count(if exp { "accepted after decoding" } else { "rejected after decoding" }, 1);
    }
    Ok(())
}
/// keys and proofs of real circuits
fn real<C: PC>(c: &mut Ctx) -> Res where C::Fr: JF {
    let len = c.r.range(3, 14);
    let s = script::<C::Fr>(&mut c.r, len, 0);
    let (w, x) = match witness(&mut c.r, &s, true) { Some(k) => k, None => { c.obs(1); return Ok(()); } };
    let p = keys::<C>(&s);
    let k = truncate_verifying_key(&p.vk);
    ensure!(c, k.alpha_g1 == p.vk.alpha_g1 && k.beta_g2 == p.vk.beta_g2 && k.gamma_g2 == p.vk.gamma_g2 && k.delta_g2 == p.vk.delta_g2 && k.ic == p.vk.ic, "truncation changes a key point");
    let pr = okz("proving", make_proof::<C>(&s, &w, &p))?;
    let ps = proof_codec::<C>(c, &pr.0)?;
    let ks = key_codec::<C>(c, &k)?;
    let x = frs(&x);
    for p in ps.iter() {
        let k = c.r.pick(&ks).clone();
        let got = lib_verdict(&k, p, &x);
        ensure!(c, got == Ok(Ok(true)), "an honest proof gets {:?} after decoding", got);
    }
    c.count("real proofs", 1);
    let _ = C::G1::zero();
    Ok(())
}

fn main() {
    Check::new("C22", "proofs and keys (random, with infinities and shared points, from real circuits) written and read in the compact binary form (through short, interrupted and failing sources and sinks), as point data, JSON and Borsh, compared byte by byte with independently written encoders and point by point after decoding; distinct by content")
        .add("proofs-bn", 400, 20000, proofs::<Bn256>)
        .add("proofs-bls", 250, 12000, proofs::<Bls12>)
        .add("keys-bn", 250, 12000, keys_rt::<Bn256>)
        .add("keys-bls", 150, 7000, keys_rt::<Bls12>)
        .add("verdicts-bn", 100, 5000, verdicts::<Bn256>)
        .add("verdicts-bls", 60, 3000, verdicts::<Bls12>)
        .add("real-bn", 16, 600, real::<Bn256>)
        .add("real-bls", 8, 300, real::<Bls12>)
        .run()
}
