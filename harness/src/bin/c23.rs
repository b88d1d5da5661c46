//! C23: malformed keys and proofs are refused by every decoder
use bellman::groth16::Proof as BP;
use borsh::BorshDeserialize;
use fawkes_crypto::helpers::groth16::prover::ProofData;
use fawkes_crypto::helpers::groth16::verifier::{TruncatedVerifyingKey, TruncatedVerifyingKeyData};
use fv::engine::guard;
use fv::g16::*;
use fv::gen;
use fv::prog::JF;
use fv::refm::*;
use fv::wei::*;
use fv::{ensure, viol, Check, Ctx, Res};
use num::bigint::BigUint;
use num::Zero;
use pairing::bls12_381::Bls12;
use pairing::bn256::Bn256;
use std::io;

fn hex(v: &[u8]) -> String { v.iter().map(|b| format!("{:02x}", b)).collect() }
fn cof<C: PC>(g2: bool) -> BigUint {
    // multiples that leave a torsion point of small order
    let s = match (C::ZCASH, g2) {
        (false, _) => return big("21888242871839275222246405745257275088844257914179612981679871602714643921549") / 10069u32,
        (true, false) => return BigUint::parse_bytes(b"396C8C005555E1568C00AAAB0000AAAB", 16).unwrap() / 121u32,
        (true, true) => b"5d543a95414e7f1091d50792876a202cd91de4547085abaa68a205b2e5a7ddfa628f1cb4d9e82ef21537e293a6691ae1616ec6e786f0c70cf1c38e31c7238e5",
    };
    BigUint::parse_bytes(s, 16).unwrap() / 169u32
}

/// valid, non-zero points of the subgroup
fn ok1<C: PC>(c: &mut Ctx) -> Pt<E<C::Q>> where C::Fr: RefField {
    loop { let e = gen::uniform::<C::Fr>(&mut c.r); if !E(e).is_zero() { return of_g(&g1::<C>(E(e)), C::nb()); } }
}
fn ok2<C: PC>(c: &mut Ctx) -> Pt<Q2<C::Q>> where C::Fr: RefField {
    loop { let e = gen::uniform::<C::Fr>(&mut c.r); if !E(e).is_zero() { return of_g(&g2::<C>(E(e)), C::nb()); } }
}
/// a point of the curve that may lie outside the subgroup
fn outside<C: PC, T: K>(c: &mut Ctx, good: &Pt<T>, b: T, g2: bool) -> Pt<T> {
    let p = Some(curve_point(&mut c.r, b));
    match c.r.below(5) {
        0 => p,
        1 => mul(&p, &C::r()),
        2 => add(good, &mul(&p, &C::r())),
        3 if g2 || C::ZCASH => mul(&p, &(C::r() * cof::<C>(g2))),
        3 => p,
        _ => if let Some(q) = lift(T::zero(), b, c.r.bool()) { Some(q) } else { add(good, &p) },
    }
}
/// coordinates of a bad (or, rarely, still good) point in place of a good one
fn spoil<C: PC, T: K>(c: &mut Ctx, good: &Pt<T>, b: T, g2: bool) -> (&'static str, Vec<BigUint>) {
    let (x, y) = good.unwrap();
    let q = C::Q::p();
    let mut v = coords(good);
    let n = v.len();
    let i = c.r.below(n);
    match c.r.below(16) {
        0 | 1 | 2 | 3 => ("curve point outside the subgroup", coords(&outside::<C, T>(c, good, b, g2))),
        4 => { v[i] = (&v[i] + 1u32) % &q; ("one coordinate incremented", v) }
        5 => { v[i] = BigUint::zero(); ("one coordinate zeroed", v) }
        6 => { let j = n / 2 * c.r.below(2); for k in 0..n / 2 { v[j + k] = BigUint::zero(); } ("x or y zeroed", v) }
        7 => { v[i] = &v[i] + &q; ("coordinate plus the prime", v) }
        8 => { v[i] = &v[i] + &q * (c.r.range(2, 5) as u32); ("coordinate plus a multiple of the prime", v) }
        9 => { v[i] = q.clone(); ("coordinate equal to the prime", v) }
        10 => { for k in 0..n { v[k] = q.clone(); } ("all coordinates equal to the prime", v) }
        11 => { let k = T::random(&mut c.r); ("point of another curve", coords(&Some((x, y.add(k))))) }
        12 => { let t = T::random(&mut c.r); let (t2, t3) = (t.mul(t), t.mul(t).mul(t)); ("point of an isomorphic curve", coords(&Some((x.mul(t2), y.mul(t3))))) }
        13 => { v.swap(0, n - 1); ("coordinates exchanged", v) }
        14 => { if n == 4 { v.swap(0, 1); if c.r.bool() { v.swap(2, 3); } } else { v.swap(0, 1); } ("parts exchanged", v) }
        _ => { v[i] = gen::shaped_big(&mut c.r, &q); ("one coordinate replaced", v) }
    }
}
fn spoil_slot<C: PC>(c: &mut Ctx, s: &Slot) -> (&'static str, Slot) {
    match s {
        Slot::P1(v) => { let (w, v) = spoil::<C, E<C::Q>>(c, &Some((K::of(&v[..1]), K::of(&v[1..]))), C::b1(), false); (w, Slot::P1(v)) }
        Slot::P2(v) => { let (w, v) = spoil::<C, Q2<C::Q>>(c, &Some((K::of(&v[..2]), K::of(&v[2..]))), C::b2(), true); (w, Slot::P2(v)) }
    }
}

fn base<C: PC>(c: &mut Ctx, key: bool) -> Vec<Slot> where C::Fr: RefField { let n = c.r.range(0, 5); base_n::<C>(c, key, n) }
fn base_n<C: PC>(c: &mut Ctx, key: bool, n: usize) -> Vec<Slot> where C::Fr: RefField {
    let mut v = vec![Slot::P1(coords(&ok1::<C>(c))), Slot::P2(coords(&ok2::<C>(c)))];
    if key {
        v.push(Slot::P2(coords(&ok2::<C>(c))));
        v.push(Slot::P2(coords(&ok2::<C>(c))));
        for _ in 0..n { v.push(Slot::P1(coords(&ok1::<C>(c)))); }
    } else {
        v.push(Slot::P1(coords(&ok1::<C>(c))));
    }
    v
}
/// decoded structure or refusal
type Dec = Result<Vec<Slot>, String>;
fn data_json<C: PC>(key: bool, s: &str) -> Dec {
    guard(|| -> Dec {
        if key {
            let d: TruncatedVerifyingKeyData<C::Q> = match fv::json::read(s) { Err(e) if e.starts_with("doors disagree") => return Ok(vec![]), r => r?? };
            Ok(key_slots::<C>(&C::key_from(&d)))
        } else {
            let d: ProofData<C::Q> = match fv::json::read(s) { Err(e) if e.starts_with("doors disagree") => return Ok(vec![]), r => r?? };
            Ok(proof_slots::<C>(&C::proof_from(&d).0))
        }
    }).unwrap_or_else(Err)
}
fn data_borsh<C: PC>(key: bool, s: &[u8]) -> Dec {
    guard(|| -> Dec {
        if key {
            let d = TruncatedVerifyingKeyData::<C::Q>::try_from_slice(s).map_err(|e| e.to_string())?;
            Ok(key_slots::<C>(&C::key_from(&d)))
        } else {
            let d = ProofData::<C::Q>::try_from_slice(s).map_err(|e| e.to_string())?;
            Ok(proof_slots::<C>(&C::proof_from(&d).0))
        }
    }).unwrap_or_else(Err)
}
fn binary<C: PC>(key: bool, s: &mut Src) -> io::Result<Vec<Slot>> {
    if key { TruncatedVerifyingKey::<C>::read(s).map(|k| key_slots::<C>(&k)) } else { C::proof_read(s).map(|p| proof_slots::<C>(&p.0)) }
}
fn judge(c: &mut Ctx, what: &str, enc: &str, got: Dec, exp: Option<&[Slot]>, input: &dyn Fn() -> String) -> Res {
    c.count(&format!("{}: {} {}", enc, what, if exp.is_some() { "(valid)" } else { "(invalid)" }), 1);
    match (got, exp) {
        (Ok(g), Some(e)) => { ensure!(c, same(&g, e), "{} decodes to {:?} instead of {:?} ({})", enc, g, e, what); }
        (Ok(g), None) => { c.obs(1); viol!("{} accepted with {}: {} read as {:?}", enc, what, input(), g); }
        (Err(e), Some(_)) => { c.obs(1); viol!("{} refused ({}) although valid ({}): {}", enc, e, what, input()); }
        (Err(_), None) => c.obs(1),
    }
    Ok(())
}

/// point data, JSON and Borsh with every position spoiled in turn
fn data<C: PC>(c: &mut Ctx, key: bool) -> Res where C::Fr: JF {
    let s = base::<C>(c, key);
    let nb = C::nb();
    for i in 0..s.len() {
        if key && s.len() > 6 && i > 4 && i < s.len() - 1 { continue; }
        let mut t = s.clone();
        let what = if c.r.chance(1, 12) {
            for z in t[i].coords_mut() { *z = BigUint::zero(); }
            "infinity"
        } else {
            let (w, z) = spoil_slot::<C>(c, &s[i]);
            t[i] = z;
            w
        };
        let exp: Option<&[Slot]> = if t[i].valid::<C>() { Some(&t) } else { None };
        c.case(format!("{} {} {:?}", what, i, t[i]));
        let js = if key { key_json(&t) } else { proof_json(&t) };
        judge(c, what, if key { "key JSON" } else { "proof JSON" }, data_json::<C>(key, &js), exp, &|| format!("{} position {}: {}", C::NAME, i, js))?;
        if t[i].coords().iter().all(|x| x.bits() <= nb * 8) {
            let b = if key { key_borsh(&t, nb) } else { proof_borsh(&t, nb) };
            judge(c, what, if key { "key Borsh" } else { "proof Borsh" }, data_borsh::<C>(key, &b), exp, &|| format!("{} position {}: {}", C::NAME, i, hex(&b)))?;
        }
    }
    Ok(())
}
/// syntax of JSON and length of Borsh
fn syntax<C: PC>(c: &mut Ctx, key: bool) -> Res where C::Fr: JF {
    let s = base::<C>(c, key);
    let nb = C::nb();
    let js = if key { key_json(&s) } else { proof_json(&s) };
    judge(c, "valid", "JSON", data_json::<C>(key, &js), Some(&s), &|| js.clone())?;
    let toks = ["\"\"", "\"0x1\"", "\"-1\"", "\"1.0\"", "\"1e3\"", "\"abc\"", "null", "[]", "\" 1\"", "{}", "true"];
    // one number replaced by something that is no decimal string
    let nums: Vec<(usize, usize)> = { let b = js.as_bytes(); let mut v = vec![]; let mut i = 0; while i < b.len() { if b[i] == b'"' { let j = i + 1 + js[i + 1..].find('"').unwrap(); if b[i + 1].is_ascii_digit() { v.push((i, j + 1)); } i = j + 1; } else { i += 1; } } v };
    for _ in 0..4 {
        let (a, z) = *c.r.pick(&nums);
        let t = *c.r.pick(&toks);
        let j2 = format!("{}{}{}", &js[..a], t, &js[z..]);
        judge(c, "a coordinate that is no decimal string", "JSON", data_json::<C>(key, &j2), None, &|| j2.clone())?;
        // one coordinate missing or doubled
        let j3 = if js.as_bytes()[z] == b',' { format!("{}{}", &js[..a], &js[z + 1..]) } else { format!("{}{}", &js[..a - 1], &js[z..]) };
        judge(c, "a coordinate missing", "JSON", data_json::<C>(key, &j3), None, &|| j3.clone())?;
        let j4 = format!("{},{}{}", &js[..z], &js[a..z], &js[z..]);
        judge(c, "a coordinate doubled", "JSON", data_json::<C>(key, &j4), None, &|| j4.clone())?;
        let cut = c.r.range(1, js.len() - 1);
        let j5 = js[..cut].to_string();
        judge(c, "truncation", "JSON", data_json::<C>(key, &j5), None, &|| j5.clone())?;
    }
    for f in if key { &["alpha_g1", "beta_g2", "gamma_g2", "delta_g2", "ic"][..] } else { &["a", "b", "c"][..] } {
        let j = js.replace(&format!("\"{}\"", f), "\"zz\"");
        judge(c, "a field missing", "JSON", data_json::<C>(key, &j), None, &|| j.clone())?;
    }
    // a G1 point where a G2 point belongs and the other way round
    if let (Slot::P1(a), Slot::P2(b)) = (&s[0], &s[1]) {
        let j = js.replace(&json2(b), &json1(a));
        judge(c, "a G1 point in a G2 place", "JSON", data_json::<C>(key, &j), None, &|| j.clone())?;
        let j = js.replace(&json1(a), &json2(b));
        judge(c, "a G2 point in a G1 place", "JSON", data_json::<C>(key, &j), None, &|| j.clone())?;
    }
    let b = if key { key_borsh(&s, nb) } else { proof_borsh(&s, nb) };
    judge(c, "valid", "Borsh", data_borsh::<C>(key, &b), Some(&s), &|| hex(&b))?;
    // every truncation
    let step = if c.thorough { 1 } else { 7 };
    let mut k = c.r.below(step);
    while k < b.len() {
        judge(c, "truncation", "Borsh", data_borsh::<C>(key, &b[..k]), None, &|| hex(&b[..k]))?;
        k += step;
    }
    // the last bytes of a point at infinity are zeros: leaving them out is still a truncation
    let mut z = b.clone();
    for x in z.iter_mut().rev().take(2 * nb) { *x = 0; }
    for k in 1..=2 * nb {
        let t = &z[..z.len() - k];
        judge(c, "truncation", "Borsh", data_borsh::<C>(key, t), None, &|| hex(t))?;
    }
    if key {
        let at = b.len() - (s.len() - 4) * 2 * nb - 4;
        for n in &[(s.len() - 4 + 1) as u32, u32::MAX, 1 << 28] {
            let mut d = b.clone();
            d[at..at + 4].copy_from_slice(&n.to_le_bytes());
            judge(c, "more bases announced than present", "Borsh", data_borsh::<C>(key, &d), None, &|| hex(&d))?;
        }
    }
    c.case(js);
    Ok(())
}

fn bin_case<C: PC>(c: &mut Ctx, key: bool, what: &str, b: &[u8]) -> Res {
    let exp = ref_binary::<C>(key, b);
    let mut s = Src::new(b, if c.r.bool() { usize::MAX } else { c.r.range(1, 60) });
    s.intr = c.r.chance(1, 4);
    let got = guard(|| binary::<C>(key, &mut s));
    let got = match got { Ok(r) => r.map_err(|e| e.to_string()), Err(p) => { c.obs(1); viol!("the {} {} decoder crashes ({}) on {}: {}", C::NAME, if key { "key" } else { "proof" }, p, what, hex(b)) } };
    judge(c, what, if key { "binary key" } else { "binary proof" }, got, exp.as_ref().map(|e| &e[..]), &|| format!("{} {}", C::NAME, hex(b)))
}
/// the binary form with every position spoiled in turn
fn bin<C: PC>(c: &mut Ctx, key: bool) -> Res where C::Fr: JF {
    let s = base::<C>(c, key);
    let good = comp_all::<C>(&s);
    c.case(hex(&good));
    bin_case::<C>(c, key, "valid", &good)?;
    let mut at = vec![0];
    for x in s.iter() { let p = at.last().unwrap() + x.comp::<C>().len(); at.push(p); }
    let q = C::Q::p();
    let nb = C::nb();
    for i in 0..s.len() {
        if key && s.len() > 6 && i > 4 && i < s.len() - 1 { continue; }
        for _ in 0..3 {
            let mut b = good.clone();
            let (a, z) = (at[i], at[i + 1]);
            let what = match c.r.below(12) {
                0 | 1 | 2 | 3 => {
                    let v = match &s[i] {
                        Slot::P1(v) => comp::<C, E<C::Q>>(&outside::<C, _>(c, &Some((K::of(&v[..1]), K::of(&v[1..]))), C::b1(), false)),
                        Slot::P2(v) => comp::<C, Q2<C::Q>>(&outside::<C, _>(c, &Some((K::of(&v[..2]), K::of(&v[2..]))), C::b2(), true)),
                    };
                    b[a..z].copy_from_slice(&v);
                    "curve point outside the subgroup"
                }
                4 => {
                    let v = match &s[i] { Slot::P1(_) => comp::<C, E<C::Q>>(&None), Slot::P2(_) => comp::<C, Q2<C::Q>>(&None) };
                    b[a..z].copy_from_slice(&v);
                    if c.r.chance(1, 3) { b[z - 1] ^= 1; }
                    if c.r.chance(1, 4) { b[a] ^= if C::ZCASH { 0x20 } else { 0x80 }; }
                    "infinity"
                }
                5 => { b[a] ^= 1 << c.r.range(5, 7); "flag bit flipped" }
                6 | 7 => {
                    // x + p, when it fits the field width
                    let k = if z - a == nb { 0 } else { c.r.below(2) };
                    let o = a + k * nb;
                    let flags = if k == 0 { if C::ZCASH { b[a] & 0xe0 } else { b[a] & 0xc0 } } else { 0 };
                    b[o] ^= flags;
                    let x = BigUint::from_bytes_be(&b[o..o + nb]);
                    let y = if c.r.chance(1, 4) { q.clone() } else { &x + &q };
                    let room = if k == 0 { if C::ZCASH { 381 } else { 254 } } else { nb * 8 };
                    if y.bits() <= room { b[o..o + nb].copy_from_slice(&be_bytes(&y, nb)); }
                    b[o] |= flags;
                    "coordinate not below the prime"
                }
                8 => { for e in &mut b[a..z] { *e = 0xff; } "all ones" }
                9 => { for e in &mut b[a..z] { *e = 0; } if C::ZCASH && c.r.bool() { b[a] = 0x80; } "all zeros" }
                10 => { let k = c.r.range(a, z - 1); b[k] ^= 1 << c.r.below(8); "bit flipped" }
                _ => { let v = c.r.bytes(z - a); b[a..z].copy_from_slice(&v); if C::ZCASH { b[a] = 0x80 | b[a] & 0x3f; } else { b[a] &= 0xbf; } "random bytes" }
            };
            bin_case::<C>(c, key, what, &b)?;
        }
    }
    Ok(())
}
/// truncated data and failing sources
fn faults<C: PC>(c: &mut Ctx, key: bool) -> Res where C::Fr: JF {
    let s = base::<C>(c, key);
    let good = comp_all::<C>(&s);
    c.case(hex(&good));
    let step = if c.thorough { 1 } else { 5 };
    let mut k = c.r.below(step);
    let name = if key { "key" } else { "proof" };
    let n1 = C::nb();
    while k <= good.len() {
        if k < good.len() {
            let whole = key && k >= 7 * n1 && (k - 7 * n1) % n1 == 0;
            if !whole {
                let mut sr = Src::new(&good[..k], if c.r.bool() { usize::MAX } else { c.r.range(1, 60) });
                sr.intr = c.r.chance(1, 4);
                let got = guard(|| binary::<C>(key, &mut sr));
                ensure!(c, matches!(&got, Ok(Err(_))), "a {} {} cut after {} bytes of {} gives {:?}", C::NAME, name, k, good.len(), got);
                c.count("truncations refused", 1);
            }
        }
        if k < good.len() || key {
            let kind = *c.r.pick(&[io::ErrorKind::ConnectionReset, io::ErrorKind::Other, io::ErrorKind::TimedOut, io::ErrorKind::PermissionDenied]);
            let mut sr = Src::new(&good, if c.r.bool() { usize::MAX } else { c.r.range(1, 60) });
            sr.fail = Some((k, kind));
            sr.once = c.r.chance(1, 3);
            let got = guard(|| binary::<C>(key, &mut sr));
            ensure!(c, matches!(&got, Ok(Err(e)) if e.kind() == kind), "a {} {} from a source failing with {:?} after {} bytes of {} gives {:?}", C::NAME, name, kind, k, good.len(), got);
            c.count("source failures passed on", 1);
        }
        k += if c.r.chance(1, 6) { 1 } else { step };
    }
    Ok(())
}
/// single points of the data types, through both conversions
fn roundabout<C: PC>(c: &mut Ctx) -> Res where C::Fr: JF {
    // whatever point data of a valid structure is accepted contains valid points only
    let k = key_of::<C>(&Logs::random(&mut c.r, 2, true));
    let s = key_slots::<C>(&k);
    for x in s.iter() { ensure!(c, x.valid::<C>(), "a computed point is invalid: {:?}", x); }
    let p = BP::<C> { a: k.alpha_g1, b: k.beta_g2, c: k.ic[0] };
    let s = proof_slots::<C>(&p);
    let mut t = s.clone();
    let i = c.r.below(3);
    if !s[i].is_zero() {
        let (w, z) = spoil_slot::<C>(c, &s[i]);
        t[i] = z;
        let exp: Option<&[Slot]> = if t[i].valid::<C>() { Some(&t) } else { None };
        let js = proof_json(&t);
        judge(c, w, "proof JSON beside infinities", data_json::<C>(false, &js), exp, &|| js.clone())?;
    }
    Ok(())
}

/// two positions spoiled so that the errors cancel in any sum
fn pairs<C: PC>(c: &mut Ctx, key: bool) -> Res where C::Fr: JF {
    let s = base::<C>(c, key);
    let nb = C::nb();
    let mut t = s.clone();
    let g1s: Vec<usize> = (0..s.len()).filter(|i| matches!(s[*i], Slot::P1(_))).collect();
    let g2s: Vec<usize> = (0..s.len()).filter(|i| matches!(s[*i], Slot::P2(_))).collect();
    if g2s.len() > 1 && (c.r.bool() || !C::ZCASH || g1s.len() < 2) {
        let d = mul(&Some(curve_point(&mut c.r, C::b2())), &C::r());
        let i = c.r.below(g2s.len());
        let j = (i + c.r.range(1, g2s.len() - 1)) % g2s.len();
        for (k, d) in &[(g2s[i], d), (g2s[j], neg(&d))] {
            let v = s[*k].coords();
            t[*k] = Slot::P2(coords(&add::<Q2<C::Q>>(&Some((K::of(&v[..2]), K::of(&v[2..]))), d)));
        }
    } else if g1s.len() > 1 && C::ZCASH {
        let d = mul(&Some(curve_point(&mut c.r, C::b1())), &C::r());
        let i = c.r.below(g1s.len());
        let j = (i + c.r.range(1, g1s.len() - 1)) % g1s.len();
        for (k, d) in &[(g1s[i], d), (g1s[j], neg(&d))] {
            let v = s[*k].coords();
            t[*k] = Slot::P1(coords(&add::<E<C::Q>>(&Some((K::of(&v[..1]), K::of(&v[1..]))), d)));
        }
    }
    let exp: Option<&[Slot]> = if t.iter().all(|x| x.valid::<C>()) { Some(&t) } else { None };
    c.case(format!("{:?}", t));
    let what = "cancelling torsion in two positions";
    let js = if key { key_json(&t) } else { proof_json(&t) };
    judge(c, what, "JSON", data_json::<C>(key, &js), exp, &|| js.clone())?;
    let b = if key { key_borsh(&t, nb) } else { proof_borsh(&t, nb) };
    judge(c, what, "Borsh", data_borsh::<C>(key, &b), exp, &|| hex(&b))?;
    let b = comp_all::<C>(&t);
    bin_case::<C>(c, key, what, &b)
}

/// keys with many bases, one of them spoiled far from the start
fn long<C: PC>(c: &mut Ctx, _: bool) -> Res where C::Fr: JF {
    let n = [17, 33, 64, 65, 128, 100, 130, 257][c.iter % 8];
    let s = base_n::<C>(c, true, n);
    let nb = C::nb();
    for round in 0..4 {
        let mut t = s.clone();
        let i = 4 + match round { 0 => n - 1, 1 => c.r.below(n), 2 => n / 2, _ => n - 1 - c.r.below(3) };
        let (what, z) = spoil_slot::<C>(c, &s[i]);
        t[i] = z;
        let exp: Option<&[Slot]> = if t[i].valid::<C>() { Some(&t) } else { None };
        c.case(format!("long {} {:?}", i, t[i]));
        let js = key_json(&t);
        judge(c, what, "long key JSON", data_json::<C>(true, &js), exp, &|| format!("{} position {} of {}: {:?}", C::NAME, i, n, t[i]))?;
        if t[i].coords().iter().all(|x| x.bits() <= nb * 8) {
            judge(c, what, "long key Borsh", data_borsh::<C>(true, &key_borsh(&t, nb)), exp, &|| format!("{} position {} of {}: {:?}", C::NAME, i, n, t[i]))?;
        }
        // a curve point outside the subgroup, where there is one, in the binary form
        let good = comp_all::<C>(&s);
        let mut b = good.clone();
        let a = 7 * nb + (i - 4) * nb;
        let v: &[BigUint] = s[i].coords();
        let o = comp::<C, E<C::Q>>(&outside::<C, _>(c, &Some((K::of(&v[..1]), K::of(&v[1..]))), C::b1(), false));
        if C::ZCASH { b[a..a + nb].copy_from_slice(&o); } else { let k = c.r.range(a + 1, a + nb - 1); b[k] ^= 1 << c.r.below(8); }
        if round < 2 { bin_case::<C>(c, true, "one of many bases replaced", &b)?; }
    }
    Ok(())
}

fn main() {
    let mut k = Check::new("C23", "proofs and keys with each position replaced by off-curve, wrong-subgroup, small-order, out-of-range, infinite, flag-tampered or random points, truncated at every length and read from failing sources, through the binary, point-data, JSON and Borsh decoders of both curves; the verdict and the decoded points compared with an independent decoder and validity test; distinct by content")
        .assume("coordinates equal to the prime or above are generated in every encoding that can hold them");
    macro_rules! both { ($n:expr, $m:expr, $q:expr, $t:expr, $f:ident) => {
        k = k.add(concat!($n, "-bn"), $q, $t, move |c| { let key = c.iter % 2 == 1; $f::<Bn256>(c, key) }).add(concat!($n, "-bls"), $m, $t / 2, move |c| { let key = c.iter % 2 == 1; $f::<Bls12>(c, key) });
    } }
    both!("data", 400, 700, 40000, data);
    both!("syntax", 60, 80, 3000, syntax);
    both!("binary", 400, 600, 40000, bin);
    both!("pairs", 80, 120, 8000, pairs);
    both!("faults", 24, 30, 600, faults);
    both!("long", 4, 8, 200, long);
    k.add("mixed-bn", 300, 10000, roundabout::<Bn256>).add("mixed-bls", 200, 5000, roundabout::<Bls12>).run()
}
