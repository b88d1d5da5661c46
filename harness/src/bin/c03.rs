//! C03: JSON and Borsh values round-trip, malformed encodings are rejected
use borsh::{BorshDeserialize, BorshSerialize};
use fawkes_crypto::core::field::Field;
use fawkes_crypto::core::sizedvec::SizedVec;
use fawkes_crypto::native::ecc::{EdwardsPoint, MontgomeryPoint};
use fawkes_crypto::native::num::Num;
use fawkes_crypto::native::poseidon::MerkleProof;
use fv::engine::guard;
use fv::refm::*;
use fv::{ensure, gen, viol, Check, Ctx, Res};
use num::bigint::BigUint;
use num::One;
use serde::de::DeserializeOwned;
use serde_json::{json, Value};
use typenum::*;

/// decode; a panic while decoding is a failure of its own
fn dec<T: DeserializeOwned + serde::Serialize>(s: &str) -> Result<Result<T, String>, String> { fv::json::read(s) }

fn over(c: &mut Ctx, p: &BigUint) -> BigUint {
    match c.r.below(7) {
        0 => p.clone(),
        1 => p + 1u32,
        2 => p + gen::shaped_big(&mut c.r, p),
        3 => BigUint::one() << p.bits(),
        4 => (BigUint::one() << ((p.bits() + 63) / 64 * 64)) - 1u32,
        5 => (BigUint::one() << ((p.bits() + 63) / 64 * 64)) + gen::shaped_big(&mut c.r, p),
        _ => p * 2u32 - 1u32,
    }
}

fn num_json<F: RefField + Field>(c: &mut Ctx) -> Res {
    let p = F::p();
    for _ in 0..12 {
        let x = gen::shaped_big(&mut c.r, &p);
        let n = Num::<F>(fb(&x));
        let s = serde_json::to_string(&n).map_err(|e| e.to_string())?;
        c.case(format!("{} {}", F::NAME, x));
        c.sample(|| format!("{} -> {}", F::NAME, s));
        ensure!(c, s == format!("\"{}\"", x), "JSON of {} in {} is {}", x, F::NAME, s);
        match dec::<Num<F>>(&s) {
            Ok(Ok(m)) => { ensure!(c, tb(&m.0) == x, "JSON round trip of {} in {} gave {}", x, F::NAME, tb(&m.0)); }
            e => viol!("JSON of {} in {} not readable: {:?}", x, F::NAME, e.map(|r| r.is_ok())),
        }
        // never below the prime
        let o = over(c, &p);
        match dec::<Num<F>>(&format!("\"{}\"", o)) {
            Ok(Err(_)) => c.obs(1),
            Ok(Ok(m)) => viol!("JSON number {} >= p accepted in {} as {}", o, F::NAME, tb(&m.0)),
            Err(e) => viol!("reading {} in {} crashed: {}", o, F::NAME, e),
        }
        // strings that are not numbers
        let d = x.to_string();
        let pos = c.r.below(d.len() + 1);
        let ch = *c.r.pick(&["a", " ", ".", "-", "e", "x", "\\n", "/", ":", "é"]);
        let bad = format!("\"{}{}{}\"", &d[..pos], ch, &d[pos..]);
        for b in [bad.as_str(), "\"\"", "\"-1\"", "\"0x10\"", "\"NaN\"", "\"1e3\"", "null", "[]", "{}", "true", "[\"1\"]"].iter() {
            match dec::<Num<F>>(b) {
                Ok(Err(_)) => c.obs(1),
                Ok(Ok(m)) => viol!("JSON {} accepted in {} as {}", b, F::NAME, tb(&m.0)),
                Err(e) => viol!("reading {} in {} crashed: {}", b, F::NAME, e),
            }
        }
        // truncated text
        let cut = c.r.below(s.len());
        ensure!(c, matches!(dec::<Num<F>>(&s[..cut]), Ok(Err(_))), "truncated JSON {} accepted", &s[..cut]);
        // accepted alternative spellings must denote the same integer
        if let Ok(Ok(m)) = dec::<Num<F>>(&format!("\"00{}\"", x)) {
            ensure!(c, tb(&m.0) == x, "JSON 00{} read as {}", x, tb(&m.0));
        }
    }
    Ok(())
}

fn num_borsh<F: RefField + Field>(c: &mut Ctx) -> Res {
    let p = F::p();
    let w = F::zero().into_repr().as_ref().len() * 8;
    for _ in 0..12 {
        let x = gen::shaped_big(&mut c.r, &p);
        let n = Num::<F>(fb(&x));
        let mut b = vec![];
        n.serialize(&mut b).map_err(|e| e.to_string())?;
        c.case(format!("borsh {} {}", F::NAME, x));
        ensure!(c, b == le_bytes(&x, w), "Borsh of {} in {} is {:?}", x, F::NAME, b);
        let mut ext = b.clone();
        let nx = c.r.below(40);
        let tail = c.r.bytes(nx);
        ext.extend_from_slice(&tail);
        let mut sl: &[u8] = &ext;
        let back = guard(|| <Num<F> as BorshDeserialize>::deserialize(&mut sl).map_err(|e| e.to_string()));
        match back {
            Ok(Ok(m)) => { ensure!(c, tb(&m.0) == x, "Borsh round trip of {} in {} gave {}", x, F::NAME, tb(&m.0)); }
            e => viol!("Borsh of {} in {} not readable: {:?}", x, F::NAME, e.map(|r| r.is_ok())),
        }
        let mut sl: &[u8] = &ext;
        let _ = <Num<F> as BorshDeserialize>::deserialize(&mut sl);
        ensure!(c, sl == &tail[..], "Borsh reading in {} consumed {} bytes", F::NAME, ext.len() - sl.len());
        ensure!(c, <Num<F>>::try_from_slice(&b).map(|m| tb(&m.0) == x).unwrap_or(false), "try_from_slice");
        let o = over(c, &p);
        if o.bits() <= w * 8 {
            let ob = le_bytes(&o, w);
            match guard(|| <Num<F>>::try_from_slice(&ob).map_err(|e| e.to_string())) {
                Ok(Err(_)) => c.obs(1),
                Ok(Ok(m)) => viol!("Borsh {} >= p accepted in {} as {}", o, F::NAME, tb(&m.0)),
                Err(e) => viol!("Borsh {} in {} crashed: {}", o, F::NAME, e),
            }
        }
        let cut = c.r.below(w);
        match guard(|| <Num<F>>::try_from_slice(&b[..cut]).map_err(|e| e.to_string())) {
            Ok(Err(_)) => c.obs(1),
            Ok(Ok(_)) => viol!("Borsh truncated to {} bytes accepted in {}", cut, F::NAME),
            Err(e) => viol!("Borsh truncated to {} bytes in {} crashed: {}", cut, F::NAME, e),
        }
    }
    Ok(())
}

fn nums<F: RefField>(c: &mut Ctx, n: usize) -> Vec<BigUint> {
    (0..n).map(|_| gen::shaped_big(&mut c.r, &F::p())).collect()
}

fn vecs<F: RefField + Field, L: Unsigned>(c: &mut Ctx) -> Res {
    let n = L::USIZE;
    let xs = nums::<F>(c, n);
    let v: SizedVec<Num<F>, L> = xs.iter().map(|x| Num(fb(x))).collect();
    let s = serde_json::to_string(&v).map_err(|e| e.to_string())?;
    let exp: Vec<String> = xs.iter().map(|x| x.to_string()).collect();
    c.case(format!("{} {:?}", n, exp));
    ensure!(c, serde_json::from_str::<Value>(&s).ok() == Some(json!(exp)), "JSON of a vector of {}: {}", n, s);
    match dec::<SizedVec<Num<F>, L>>(&s) {
        Ok(Ok(m)) => {
            ensure!(c, m.0.len() == n && m.iter().zip(xs.iter()).all(|(a, b)| tb(&a.0) == *b), "round trip of a vector of {}", n);
        }
        e => viol!("vector of {} not readable: {:?}", n, e.map(|r| r.is_ok())),
    }
    if n > 0 {
        // a vector changed in place is written as changed
        let i = c.r.below(n);
        let ys = nums::<F>(c, n);
        let mut w = v.clone();
        w[i] = Num(fb(&ys[i]));
        let mut zs = xs.clone();
        zs[i] = ys[i].clone();
        ensure!(c, w.0.iter().zip(zs.iter()).all(|(a, b)| tb(&a.0) == *b) && tb(&w[i].0) == zs[i], "element {} of a vector of {} set", i, n);
        for (a, y) in w.iter_mut().zip(ys.iter()) { *a = Num(fb(y)); }
        let e: Vec<String> = ys.iter().map(|x| x.to_string()).collect();
        ensure!(c, serde_json::to_value(&w).ok() == Some(json!(e)), "JSON of a changed vector of {}", n);
    }
    for m in 0..n + 4 {
        if m == n {
            continue;
        }
        let bad: Vec<String> = nums::<F>(c, m).iter().map(|x| x.to_string()).collect();
        match dec::<SizedVec<Num<F>, L>>(&json!(bad).to_string()) {
            Ok(Err(_)) => c.obs(1),
            Ok(Ok(_)) => viol!("sequence of {} accepted as vector of {}", m, n),
            Err(e) => viol!("sequence of {} crashed a vector of {}: {}", m, n, e),
        }
        // through a Value as well (sized sequence access)
        let bv = json!(bad);
        ensure!(c, matches!(guard(|| serde_json::from_value::<SizedVec<Num<F>, L>>(bv.clone()).is_err()), Ok(true)), "sequence of {} accepted as vector of {} from a value", m, n);
        let r = guard(|| (0..m).map(|_| Num::<F>::zero()).collect::<SizedVec<Num<F>, L>>());
        ensure!(c, r.is_err(), "collected {} elements into a vector of {}", m, n);
    }
    // an out-of-range element anywhere is refused
    if n > 0 {
        let mut bad = exp.clone();
        let i = c.r.below(n);
        bad[i] = over(c, &F::p()).to_string();
        ensure!(c, matches!(dec::<SizedVec<Num<F>, L>>(&json!(bad).to_string()), Ok(Err(_))), "element {} out of range accepted", i);
    }
    let bs: SizedVec<bool, L> = (0..n).map(|_| c.r.bool()).collect();
    let s = serde_json::to_string(&bs).unwrap();
    ensure!(c, matches!(dec::<SizedVec<bool, L>>(&s), Ok(Ok(ref m)) if m.0 == bs.0), "bool vector round trip");
    let nested: SizedVec<SizedVec<bool, L>, U2> = (0..2).map(|_| bs.clone()).collect();
    let s = serde_json::to_string(&nested).unwrap();
    ensure!(c, matches!(dec::<SizedVec<SizedVec<bool, L>, U2>>(&s), Ok(Ok(ref m)) if m.0.len() == 2 && m[0].0 == bs.0 && m[1].0 == bs.0), "nested vector round trip");
    ensure!(c, matches!(dec::<SizedVec<SizedVec<bool, L>, U3>>(&s), Ok(Err(_))), "nested vector of 2 accepted as 3");
    Ok(())
}

fn structs<F: RefField + Field, L: Unsigned>(c: &mut Ctx) -> Res {
    let n = L::USIZE;
    let xs = nums::<F>(c, n + 2);
    let (x, y) = (&xs[0], &xs[1]);
    c.case(format!("{:?}", xs));
    macro_rules! pt { ($t:ident) => {{
        let p = $t::<F> { x: Num(fb(x)), y: Num(fb(y)) };
        let s = serde_json::to_string(&p).unwrap();
        ensure!(c, serde_json::from_str::<Value>(&s).ok() == Some(json!({"x": x.to_string(), "y": y.to_string()})), "JSON of a point: {}", s);
        match dec::<$t<F>>(&s) {
            Ok(Ok(q)) => { ensure!(c, tb(&q.x.0) == *x && tb(&q.y.0) == *y, "point round trip {}", s); }
            _ => viol!("point {} not readable", s),
        }
        let o = over(c, &F::p());
        for bad in [json!({"x": o.to_string(), "y": y.to_string()}), json!({"x": x.to_string(), "y": o.to_string()}), json!({"x": x.to_string()}), json!({"y": y.to_string()}), json!([x.to_string()])].iter() {
            ensure!(c, matches!(dec::<$t<F>>(&bad.to_string()), Ok(Err(_))), "malformed point {} accepted", bad);
        }
    }} }
    pt!(EdwardsPoint);
    pt!(MontgomeryPoint);
    let pr = MerkleProof::<F, L> {
        sibling: xs[..n].iter().map(|x| Num(fb(x))).collect(),
        path: (0..n).map(|_| c.r.bool()).collect(),
    };
    let s = serde_json::to_string(&pr).unwrap();
    let sib: Vec<String> = xs[..n].iter().map(|x| x.to_string()).collect();
    ensure!(c, serde_json::from_str::<Value>(&s).ok() == Some(json!({"sibling": sib, "path": pr.path.0})), "JSON of a Merkle proof: {}", s);
    match dec::<MerkleProof<F, L>>(&s) {
        Ok(Ok(q)) => {
            ensure!(c, q.sibling.0.len() == n && q.sibling.iter().zip(xs.iter()).all(|(a, b)| tb(&a.0) == *b) && q.path.0 == pr.path.0, "Merkle proof round trip {}", s);
        }
        _ => viol!("Merkle proof {} not readable", s),
    }
    for (ds, dp) in [(1i64, 0i64), (-1, 0), (0, 1), (0, -1), (1, 1), (-1, -1)].iter() {
        let (ns, np) = (n as i64 + ds, n as i64 + dp);
        if ns < 0 || np < 0 { continue; }
        let bad = json!({"sibling": vec!["5"; ns as usize], "path": vec![true; np as usize]});
        match dec::<MerkleProof<F, L>>(&bad.to_string()) {
            Ok(Err(_)) => c.obs(1),
            Ok(Ok(_)) => viol!("Merkle proof with {} siblings and {} path bits accepted as depth {}", ns, np, n),
            Err(e) => viol!("malformed Merkle proof crashed: {}", e),
        }
    }
    for bad in [json!({"sibling": sib}), json!({"path": pr.path.0}), json!({"sibling": sib, "path": vec!["x"; n.max(1)]})].iter() {
        if n == 0 { continue; }
        ensure!(c, matches!(dec::<MerkleProof<F, L>>(&bad.to_string()), Ok(Err(_))), "malformed Merkle proof {} accepted", bad);
    }
    Ok(())
}

fn main() {
    let mut ck = Check::new("C03", "shaped field values, vectors of several lengths, points and Merkle proofs encoded and decoded; encodings mutated (>= p, wrong length at every offset, junk characters, truncation, missing fields); distinct by the encoded value");
    macro_rules! f { ($t:ty, $a:expr, $b:expr) => {
        ck = ck.add($a, 120, 6000, num_json::<$t>).add($b, 120, 6000, num_borsh::<$t>);
    } }
    f!(BnFr, "json-bn-fr", "borsh-bn-fr");
    f!(BnFq, "json-bn-fq", "borsh-bn-fq");
    f!(BnFs, "json-bn-fs", "borsh-bn-fs");
    f!(BlsFr, "json-bls-fr", "borsh-bls-fr");
    f!(BlsFq, "json-bls-fq", "borsh-bls-fq");
    f!(BlsFs, "json-bls-fs", "borsh-bls-fs");
    ck.add("vec0", 10, 100, vecs::<BnFr, U0>)
        .add("vec1", 40, 1000, vecs::<BnFr, U1>)
        .add("vec2", 40, 1000, vecs::<BlsFr, U2>)
        .add("vec3", 40, 1000, vecs::<BnFs, U3>)
        .add("vec8", 40, 1000, vecs::<BlsFq, U8>)
        .add("vec33", 10, 100, vecs::<BnFr, U33>)
        .add("struct0", 10, 100, structs::<BnFr, U0>)
        .add("struct1", 40, 1000, structs::<BnFr, U1>)
        .add("struct4", 40, 1000, structs::<BlsFr, U4>)
        .add("struct32", 20, 300, structs::<BnFr, U32>)
        .run()
}
