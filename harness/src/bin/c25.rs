//! C25: the command-line bindings end to end, through files
use bellman::groth16::Proof as BP;
use fawkes_crypto::helpers::groth16::verifier::TruncatedVerifyingKey;
use fv::ed::{bls_curve, bn_curve, Curve};
use fv::g16::*;
use fv::gen;
use fv::prog::JF;
use fv::refm::*;
use fv::sol::{Contract, Machine, Stop};
use fv::wei::*;
use fv::{ensure, viol, Check, Ctx, Res};
use num::bigint::BigUint;
use num::One;
use pairing::bls12_381::Bls12;
use pairing::bn256::Bn256;
use pairing::{CurveAffine, CurveProjective};
use serde_json::{json, Value};
use std::fs;
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::Command;

// ---- base64, independently
const B64: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
fn b64e(d: &[u8]) -> String {
    let mut s = String::new();
    for ch in d.chunks(3) {
        let n = (ch[0] as u32) << 16 | (*ch.get(1).unwrap_or(&0) as u32) << 8 | *ch.get(2).unwrap_or(&0) as u32;
        for i in 0..4 { s.push(if i <= ch.len() { B64[(n >> (18 - 6 * i)) as usize & 63] as char } else { '=' }); }
    }
    s
}
fn b64d(s: &str) -> Option<Vec<u8>> {
    let b = s.as_bytes();
    if b.len() % 4 != 0 { return None; }
    let mut r = vec![];
    for ch in b.chunks(4) {
        let pad = ch.iter().filter(|c| **c == b'=').count();
        let mut n = 0u32;
        for c in ch { n = n << 6 | if *c == b'=' { 0 } else { B64.iter().position(|x| x == c)? as u32 }; }
        r.extend(&n.to_be_bytes()[1..4 - pad.min(2)]);
    }
    if b64e(&r) == s { Some(r) } else { None }
}

#[derive(Clone, Copy, PartialEq)]
enum Fmt { Json, Bin, Borsh }
struct Target { name: &'static str, fmt: Fmt }

struct Dir(PathBuf);
impl Dir {
    fn new(c: &mut Ctx) -> Dir {
        let base = std::env::var("TMPDIR").unwrap_or_else(|_| "/tmp".into());
        let p = Path::new(&base).join(format!("fv-c25-{}-{:016x}", std::process::id(), c.r.u64()));
        fs::create_dir_all(&p).unwrap();
        Dir(p)
    }
    fn read(&self, f: &str) -> Option<String> { fs::read_to_string(self.0.join(f)).ok() }
    fn put(&self, f: &str, d: &[u8]) { fs::write(self.0.join(f), d).unwrap() }
}
impl Drop for Dir { fn drop(&mut self) { let _ = fs::remove_dir_all(&self.0); } }

extern "C" {
    fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
    fn signal(n: i32, h: usize) -> usize;
}
struct Ran { ok: bool, out: String, err: String }
impl Ran {
    fn says_true(&self) -> bool { self.out.contains("Verify result is true") }
    fn says_false(&self) -> bool { self.out.contains("Verify result is false") }
}
/// runs one command of the program in the directory; `limit` bounds the size of every file it writes
fn run(c: &mut Ctx, d: &Dir, t: &str, circuit: &str, args: &[String], seed: &str, limit: Option<u64>) -> Result<Ran, String> {
    let exe = std::env::current_exe().unwrap().with_file_name("cli");
    let mut k = Command::new(exe);
    k.arg(t).arg(circuit).args(args).current_dir(&d.0).env("FV_SEED", seed).stdin(std::process::Stdio::null());
    if let Some(l) = limit {
        unsafe { k.pre_exec(move || { signal(25, 1); let v = [l, l]; if setrlimit(1, &v) != 0 { return Err(std::io::Error::last_os_error()); } Ok(()) }); }
    }
    let o = k.output().map_err(|e| format!("INCONCLUSIVE: cannot start the program: {}", e))?;
    c.count(&format!("{} {}", t, args[0]), 1);
    Ok(Ran { ok: o.status.success(), out: String::from_utf8_lossy(&o.stdout).into(), err: String::from_utf8_lossy(&o.stderr).into() })
}

/// the files of one program and the names given to them
#[derive(Clone)]
struct Names { params: String, vk: String, object: String, proof: String, inputs: String, sol: String, style: usize }
impl Names {
    fn new(c: &mut Ctx, t: &Target) -> Names {
        let style = c.r.below(3);
        let x = if t.fmt == Fmt::Json { "json" } else { "txt" };
        let n = |s: &str, c: &mut Ctx| if style == 0 { s.to_string() } else { format!("x{:x}-{}", c.r.below(4096), s) };
        Names { params: n("params.bin", c), vk: n(&format!("verification_key.{}", x), c), object: n("object.json", c), proof: n(&format!("proof.{}", x), c), inputs: n(&format!("inputs.{}", x), c), sol: n("verifier.sol", c), style }
    }
    fn args(&self, cmd: &str) -> Vec<String> {
        let o: Vec<(&str, &str, &String)> = match cmd {
            "prove" => vec![("p", "params", &self.params), ("o", "object", &self.object), ("r", "proof", &self.proof), ("i", "inputs", &self.inputs)],
            "verify" => vec![("v", "vk", &self.vk), ("r", "proof", &self.proof), ("i", "inputs", &self.inputs)],
            "setup" => vec![("p", "params", &self.params), ("v", "vk", &self.vk)],
            "generate-verifier" => vec![("v", "vk", &self.vk), ("s", "solidity", &self.sol)],
            _ => vec![("o", "object", &self.object)],
        };
        let mut r = vec![cmd.to_string()];
        for (s, l, v) in o {
            match self.style { 0 => {} 1 => { r.push(format!("-{}", s)); r.push(v.clone()); } _ => { r.push(format!("--{}", l)); r.push(v.clone()); } }
        }
        r
    }
}

fn enc<C: PC>(f: Fmt, key: bool, s: &[Slot]) -> Vec<u8> {
    match f {
        Fmt::Json => if key { key_json(s) } else { proof_json(s) }.into_bytes(),
        Fmt::Bin => b64e(&comp_all::<C>(s)).into_bytes(),
        Fmt::Borsh => b64e(&if key { key_borsh(s, C::nb()) } else { proof_borsh(s, C::nb()) }).into_bytes(),
    }
}
fn dec<C: PC>(f: Fmt, key: bool, s: &str) -> Option<Vec<Slot>> {
    match f { Fmt::Json => ref_json(key, s), Fmt::Bin => ref_binary::<C>(key, &b64d(s)?), Fmt::Borsh => ref_borsh(key, &b64d(s)?, C::nb()) }
}
fn enc_in(f: Fmt, x: &[BigUint]) -> Vec<u8> {
    match f {
        Fmt::Json => format!("[{}]", x.iter().map(|v| format!("\"{}\"", v)).collect::<Vec<_>>().join(",")).into_bytes(),
        Fmt::Bin => b64e(&x.iter().flat_map(|v| be_bytes(v, 32)).collect::<Vec<_>>()).into_bytes(),
        Fmt::Borsh => { let mut d = (x.len() as u32).to_le_bytes().to_vec(); for v in x { d.extend(le_bytes(v, 32)); } b64e(&d).into_bytes() }
    }
}
fn dec_in(f: Fmt, s: &str) -> Option<Vec<BigUint>> {
    match f {
        Fmt::Json => serde_json::from_str::<Vec<String>>(s).ok()?.iter().map(|v| BigUint::parse_bytes(v.as_bytes(), 10)).collect(),
        Fmt::Bin => { let d = b64d(s)?; if d.len() % 32 != 0 { return None; } Some(d.chunks(32).map(BigUint::from_bytes_be).collect()) }
        Fmt::Borsh => {
            let d = b64d(s)?;
            if d.len() < 4 { return None; }
            let n = u32::from_le_bytes([d[0], d[1], d[2], d[3]]) as usize;
            if d.len() != 4 + 32 * n { return None; }
            Some(d[4..].chunks(32).map(BigUint::from_bytes_le).collect())
        }
    }
}

// ---- independent model of the four circuits
fn js<F: RefField>(e: E<F>) -> Value { json!(e.big().to_string()) }
fn of_js<F: RefField>(v: &Value) -> Option<E<F>> { let b = BigUint::parse_bytes(v.as_str()?.as_bytes(), 10)?; if b >= F::p() { return None; } Some(E(fb(&b))) }
fn b2<F: RefField>(b: bool) -> E<F> { if b { E::one() } else { E::zero() } }
/// (published values in order, satisfied)
fn judge_object<F: JF>(circuit: &str, o: &Value, cu: &Curve<F>) -> Option<(Vec<E<F>>, bool)> {
    let (p, s) = (&o[0], &o[1]);
    match circuit {
        "a" => {
            let root = of_js::<F>(p)?;
            let leaf = of_js(&s["leaf"])?;
            let sib: Option<Vec<E<F>>> = s["proof"]["sibling"].as_array()?.iter().map(of_js).collect();
            let path: Option<Vec<bool>> = s["proof"]["path"].as_array()?.iter().map(|b| b.as_bool()).collect();
            let (sib, path) = (sib?, path?);
            if sib.len() != 3 || path.len() != 3 { return None; }
            Some((vec![root], RefPoseidon::<F>::new(3, 8, 53).merkle_root_from_proof(leaf, &sib, &path) == root))
        }
        "b" => {
            let (a, flag) = (of_js::<F>(&p["a"])?, p["flag"].as_bool()?);
            let v: Option<Vec<E<F>>> = p["v"].as_array()?.iter().map(of_js).collect();
            let o: Option<Vec<bool>> = p["o"].as_array()?.iter().map(|b| b.as_bool()).collect();
            let (v, o) = (v?, o?);
            if v.len() != 3 || o.len() != 2 { return None; }
            let (x, y, k, b) = (of_js::<F>(&p["n"]["x"])?, of_js::<F>(&p["n"]["y"])?, of_js::<F>(&s["k"])?, s["b"].as_bool()?);
            let sat = k.sq() == a && flag == b && v[0] == k * a && v[1] == k + E::n(3) && v[2] == if b { E::n(7) } else { E::zero() } && x == a - k && y == if b { a } else { k } && o[0] == (k == E::n(5)) && o[1] != b;
            Some((vec![a, b2(flag), v[0], v[1], v[2], x, y, b2(o[0]), b2(o[1])], sat))
        }
        "d" => {
            let v: Option<Vec<E<F>>> = p.as_array()?.iter().map(of_js).collect();
            let (v, k) = (v?, of_js::<F>(s)?);
            if v.len() != 260 { return None; }
            let sat = v.iter().enumerate().all(|(i, x)| *x == k + E::n(i as u64));
            Some((v, sat))
        }
        _ => {
            let (x, y, h, sec) = (of_js::<F>(&p[0]["x"])?, of_js::<F>(&p[0]["y"])?, of_js::<F>(&p[1])?, of_js::<F>(s)?);
            let _ = cu;
            Some((vec![x, y, h], RefPoseidon::<F>::new(4, 8, 54).hash(&[x, y, sec]) == h))
        }
    }
}
/// an object of the harness's own making, satisfied or not
fn object<F: JF>(c: &mut Ctx, circuit: &str, cu: &Curve<F>, good: bool) -> Value {
    let sh = |c: &mut Ctx| -> E<F> { E(if c.r.bool() { gen::shaped(&mut c.r) } else { gen::uniform(&mut c.r) }) };
    match circuit {
        "a" => {
            let leaf = sh(c);
            let sib: Vec<E<F>> = (0..3).map(|_| sh(c)).collect();
            let path: Vec<bool> = (0..3).map(|_| c.r.bool()).collect();
            let mut root = RefPoseidon::<F>::new(3, 8, 53).merkle_root_from_proof(leaf, &sib, &path);
            if !good { root = root + E::one(); }
            json!([js(root), {"leaf": js(leaf), "proof": {"sibling": sib.into_iter().map(js).collect::<Vec<_>>(), "path": path}}])
        }
        "b" => {
            let (k, b) = (if c.r.chance(1, 4) { E::n(5) } else { sh(c) }, c.r.bool());
            let a = k.sq();
            let mut nums = vec![a, k * a, k + E::n(3), if b { E::n(7) } else { E::zero() }, a - k, if b { a } else { k }];
            let mut bools = vec![b, k == E::n(5), !b];
            if !good { let i = c.r.below(9); if i < 6 { nums[i] = nums[i] + E::one(); } else { bools[i - 6] = !bools[i - 6]; } }
            json!([{"a": js(nums[0]), "flag": bools[0], "v": [js(nums[1]), js(nums[2]), js(nums[3])], "n": {"x": js(nums[4]), "y": js(nums[5])}, "o": [bools[1], bools[2]]}, {"k": js(k), "b": b}])
        }
        "d" => {
            let k = sh(c);
            let mut v: Vec<E<F>> = (0..260).map(|i| k + E::n(i)).collect();
            if !good { let i = *c.r.pick(&[0, 1, 254, 255, 256, 258, 259]); v[i] = v[i] + E::one(); }
            json!([v.into_iter().map(js).collect::<Vec<_>>(), js(k)])
        }
        _ => {
            let p = cu.rand_subgroup(&mut c.r);
            let s = sh(c);
            let mut h = RefPoseidon::<F>::new(4, 8, 54).hash(&[p.x, p.y, s]);
            if !good { h = h - E::one(); }
            json!([[{"x": js(p.x), "y": js(p.y)}, js(h)], js(s)])
        }
    }
}

struct World<'a, C: PC> { t: &'a Target, circuit: &'static str, d: Dir, n: Names, key: Vec<Slot>, _p: std::marker::PhantomData<C> }
impl<'a, C: PC> World<'a, C> where C::Fr: JF {
    fn cmd(&self, c: &mut Ctx, cmd: &str, seed: &str) -> Result<Ran, String> { run(c, &self.d, self.t.name, self.circuit, &self.n.args(cmd), seed, None) }
    fn accepted(&self, c: &mut Ctx) -> Result<Ran, String> { self.cmd(c, "verify", "") }
    fn with_junk(&self, c: &mut Ctx, f: &str) { if c.r.bool() { let n = c.r.range(1, 400_000); self.d.put(f, &vec![b'7'; n]); } }
    fn set(&self, key: &[Slot], proof: &[Slot], x: &[BigUint]) {
        self.d.put(&self.n.vk, &enc::<C>(self.t.fmt, true, key));
        self.d.put(&self.n.proof, &enc::<C>(self.t.fmt, false, proof));
        self.d.put(&self.n.inputs, &enc_in(self.t.fmt, x));
    }
    fn setup(&mut self, c: &mut Ctx) -> Res {
        let (params, vk) = (self.n.params.clone(), self.n.vk.clone());
        self.with_junk(c, &params);
        self.with_junk(c, &vk);
        let r = self.cmd(c, "setup", "")?;
        ensure!(c, r.ok, "{} setup fails: {}", self.t.name, r.err);
        let text = match self.d.read(&vk) { Some(t) => t, None => viol!("{} setup wrote no verifying key", self.t.name) };
        self.key = match dec::<C>(self.t.fmt, true, &text) { Some(k) => k, None => viol!("the verifying key of {} is not in the documented form: {}", self.t.name, text) };
        ensure!(c, self.key.iter().all(|s| s.valid::<C>()), "the verifying key of {} has invalid points: {}", self.t.name, text);
        let raw = fs::read(self.d.0.join(&params)).map_err(|e| format!("{} setup wrote no parameters: {}", self.t.name, e))?;
        let p = match bellman::groth16::Parameters::<C>::read(&raw[..], true) { Ok(p) => p, Err(e) => viol!("the parameters file of {} is malformed: {}", self.t.name, e) };
        let mut again = vec![];
        p.write(&mut again).unwrap();
        ensure!(c, again == raw, "the parameters file of {} has {} bytes instead of {}", self.t.name, raw.len(), again.len());
        let v = &p.vk;
        let k = key_slots::<C>(&TruncatedVerifyingKey { alpha_g1: v.alpha_g1, beta_g2: v.beta_g2, gamma_g2: v.gamma_g2, delta_g2: v.delta_g2, ic: v.ic.clone() });
        ensure!(c, same(&k, &self.key), "the verifying key file of {} is not the key of the parameters: {}", self.t.name, text);
        Ok(())
    }
    /// proves the object file; None when the program refuses
    fn prove(&self, c: &mut Ctx) -> Result<Option<(Vec<Slot>, Vec<BigUint>)>, String> {
        self.with_junk(c, &self.n.proof);
        self.with_junk(c, &self.n.inputs);
        let before = (self.d.read(&self.n.proof), self.d.read(&self.n.inputs));
        let r = self.cmd(c, "prove", "")?;
        if !r.ok { return Ok(None); }
        let (pt, it) = (self.d.read(&self.n.proof), self.d.read(&self.n.inputs));
        if (&pt, &it) == (&before.0, &before.1) { viol!("{} prove reports success and writes nothing", self.t.name); }
        let p = match pt.as_ref().and_then(|s| dec::<C>(self.t.fmt, false, s)) { Some(p) => p, None => viol!("the proof file of {} is not in the documented form: {:?}", self.t.name, pt) };
        let x = match it.as_ref().and_then(|s| dec_in(self.t.fmt, s)) { Some(p) => p, None => viol!("the inputs file of {} is not in the documented form: {:?}", self.t.name, it) };
        c.obs(2);
        Ok(Some((p, x)))
    }
    fn equation(&self, key: &[Slot], p: &[Slot], x: &[BigUint]) -> bool {
        if !key.iter().chain(p).all(|s| s.valid::<C>()) || x.iter().any(|v| *v >= C::r()) || x.len() + 5 != key.len() { return false; }
        if self.t.fmt == Fmt::Bin && key.iter().chain(p).any(|s| s.is_zero()) { return false; }
        equation::<C>(&key_of_slots::<C>(key).unwrap(), &proof_of_slots::<C>(p).unwrap(), &x.iter().map(|v| fb::<C::Fr>(v)).collect::<Vec<_>>())
    }
    /// the verdict of the program on these files, against the independent one
    fn verdict(&self, c: &mut Ctx, key: &[Slot], p: &[Slot], x: &[BigUint], what: &str) -> Res {
        self.set(key, p, x);
        let exp = self.equation(key, p, x);
        let r = self.accepted(c)?;
        ensure!(c, r.says_true() == exp, "{} verify says '{}' and not {} for {}: key {} proof {} inputs {:?}", self.t.name, (r.out.trim().to_string() + " " + r.err.lines().next().unwrap_or("")).trim(), exp, what, key_json(key), proof_json(p), x);
        if exp { ensure!(c, r.ok && !r.says_false(), "{} verify accepts and fails at once: {}", self.t.name, r.err); }
        c.count(&format!("verify, {}: {}", what, if exp { "accepted" } else if r.ok { "false" } else { "refused" }), 1);
        Ok(())
    }
}

fn circuit_of(c: &mut Ctx) -> &'static str { if c.iter % 8 == 3 { return "d"; } *c.r.pick(&["b", "b", "b", "a", "c"]) }
fn world<'a, C: PC>(c: &mut Ctx, t: &'a Target) -> Result<World<'a, C>, String> where C::Fr: JF {
    let circuit = circuit_of(c);
    let n = Names::new(c, t);
    let d = Dir::new(c);
    let mut w = World::<C> { t, circuit, d, n, key: vec![], _p: Default::default() };
    w.setup(c)?;
    Ok(w)
}

fn e2e<C: PC>(c: &mut Ctx, t: &Target, cu: &Curve<C::Fr>) -> Res where C::Fr: JF {
    let w = world::<C>(c, t)?;
    let mut good: Vec<(Vec<Slot>, Vec<BigUint>)> = vec![];
    for round in 0..3 {
        // the program's own test data first, then objects of our own
        let text = if round == 0 {
            w.with_junk(c, &w.n.object);
            let seed = format!("{:x}", c.r.u64());
            let r = w.cmd(c, "generate-test-data", &seed)?;
            ensure!(c, r.ok, "{} generate-test-data fails: {}", t.name, r.err);
            w.d.read(&w.n.object).unwrap_or_default()
        } else {
            let o = object::<C::Fr>(c, w.circuit, cu, true);
            let s = if c.r.bool() { o.to_string() } else { serde_json::to_string_pretty(&o).unwrap() };
            w.d.put(&w.n.object, s.as_bytes());
            s
        };
        c.case(format!("{} {} {}", t.name, w.circuit, text));
        let o: Value = match serde_json::from_str(&text) { Ok(v) => v, Err(e) => viol!("the object file of {} is not JSON ({}): {}", t.name, e, text) };
        let (x, sat) = match judge_object::<C::Fr>(w.circuit, &o, cu) { Some(v) => v, None => viol!("the object file of {} is not in the documented form: {}", t.name, text) };
        ensure!(c, sat, "the test data of {} does not satisfy the circuit: {}", t.name, text);
        let xs: Vec<BigUint> = x.iter().map(|e| e.big()).collect();
        let (p, got) = match w.prove(c)? { Some(v) => v, None => viol!("{} refuses to prove a satisfied object: {}", t.name, text) };
        ensure!(c, got == xs, "{} prove writes the inputs {:?} instead of {:?}", t.name, got, xs);
        ensure!(c, w.key.len() == xs.len() + 5, "{} key has {} bases for {} inputs", t.name, w.key.len() - 4, xs.len());
        ensure!(c, w.equation(&w.key, &p, &xs), "the proof file of {} does not satisfy the pairing equation for {}", t.name, text);
        // the program's own files, as written
        if round == 0 || c.r.bool() {
            let r = w.accepted(c)?;
            ensure!(c, r.ok && r.says_true() && !r.says_false(), "{} verify says '{}' for its own files ({}); object {}", t.name, r.out.trim(), r.err, text);
            c.count("verify, own files: accepted", 1);
        }
        // the object file is an input and stays as it was
        ensure!(c, w.d.read(&w.n.object).as_deref() == Some(&text[..]), "{} prove changed the object file", t.name);
        good.push((p, xs));
    }
    if t.fmt == Fmt::Json { contract::<C>(c, &w, &good)?; }
    // independently encoded, and re-randomised into another valid proof
    let (p, x) = good[c.r.below(3)].clone();
    w.verdict(c, &w.key, &p, &x, "independently encoded files")?;
    let k: E<C::Fr> = loop { let e = E(gen::uniform::<C::Fr>(&mut c.r)); if !e.is_zero() { break e; } };
    let bp = proof_of_slots::<C>(&p).unwrap();
    let again = BP::<C> { a: bp.a.mul(k.0).into_affine(), b: bp.b.mul(E::<C::Fr>::one().div(k).0).into_affine(), c: bp.c };
    w.verdict(c, &w.key, &proof_slots::<C>(&again), &x, "a re-randomised proof")?;
    // tampering
    let n = if c.thorough { 40 } else { 12 };
    for _ in 0..n {
        let i = c.r.below(3);
        let (mut p, mut x) = good[i].clone();
        let mut key = w.key.clone();
        let what = match c.r.below(12) {
            0 => { let j = c.r.below(x.len()); x[j] = (&x[j] + 1u32) % C::r(); "a changed input" }
            1 => { let j = c.r.below(x.len()); x[j] = gen::shaped_big(&mut c.r, &C::r()); "a shaped input" }
            2 => { let j = c.r.below(x.len()); x[j] = &x[j] + C::r(); if x[j].bits() > 256 { continue; } "an input beyond the field" }
            3 => { if c.r.bool() { x.pop(); "an input missing" } else { x.push(BigUint::from(c.r.below(2))); "an extra input" } }
            4 => { let (a, b) = (c.r.below(x.len()), c.r.below(x.len())); x.swap(a, b); "swapped inputs" }
            5 => { x = good[(i + 1) % 3].1.clone(); "another statement's inputs" }
            6 => { let j = c.r.below(3); p[j] = good[(i + 1) % 3].0[j].clone(); "a slot of another proof" }
            7 => { p.swap(0, 2); "swapped proof points" }
            8 => { let j = c.r.below(3); let q = p[j].coords().len(); let h = q / 2; for v in p[j].coords_mut()[h..].iter_mut() { *v = (C::Q::p() - &*v) % C::Q::p(); } "a negated proof point" }
            9 => { let j = c.r.below(3); if t.fmt == Fmt::Bin { continue; } let q = p[j].coords().len(); let h = c.r.below(q); let v = &mut p[j].coords_mut()[h]; *v = (&*v + BigUint::one()) % C::Q::p(); "a proof point off the curve" }
            10 => { let j = c.r.below(4); key[j] = match key[j] { Slot::P1(_) => { let e = E(gen::uniform::<C::Fr>(&mut c.r)); Slot::P1(coords::<E<C::Q>>(&of_g(&g1::<C>(e), C::nb()))) } _ => { let e = E(gen::uniform::<C::Fr>(&mut c.r)); Slot::P2(coords::<Q2<C::Q>>(&of_g(&g2::<C>(e), C::nb()))) } }; "a changed key point" }
            _ => { let (a, b) = (4 + c.r.below(key.len() - 4), 4 + c.r.below(key.len() - 4)); key.swap(a, b); "swapped key bases" }
        };
        w.verdict(c, &key, &p, &x, what)?;
    }
    // damaged files
    for _ in 0..(if c.thorough { 16 } else { 5 }) {
        let (p, x) = good[c.r.below(3)].clone();
        w.set(&w.key, &p, &x);
        let f = c.r.pick(&[&w.n.vk, &w.n.proof, &w.n.inputs]).to_string();
        let mut b = fs::read(w.d.0.join(&f)).unwrap();
        let what = match c.r.below(4) {
            0 => { let n = c.r.below(b.len()); b.truncate(n); "a truncated file" }
            1 => { fs::remove_file(w.d.0.join(&f)).unwrap(); "a missing file" }
            2 => { b = c.r.bytes(40); "a file of junk" }
            _ => { b = vec![]; "an empty file" }
        };
        if what != "a missing file" { w.d.put(&f, &b); }
        // a truncation that leaves a complete structure is not a damaged file
        let txt = String::from_utf8_lossy(&b).to_string();
        let key = if f == w.n.vk { dec::<C>(t.fmt, true, &txt) } else { Some(w.key.clone()) };
        let pf = if f == w.n.proof { dec::<C>(t.fmt, false, &txt) } else { Some(p.clone()) };
        let xs = if f == w.n.inputs { dec_in(t.fmt, &txt) } else { Some(x.clone()) };
        let still = what != "a missing file" && match (key, pf, xs) { (Some(k), Some(p), Some(x)) => w.equation(&k, &p, &x), _ => false };
        let r = w.accepted(c)?;
        ensure!(c, r.says_true() == still, "{} verify says '{}' with {} ({})", t.name, r.out.trim(), what, f);
        ensure!(c, r.says_false() || !r.ok || still, "{} verify with {} ends well without an answer: '{}'", t.name, what, r.out.trim());
        c.count(&format!("verify, {}: {}", what, if still { "accepted" } else if r.ok { "false" } else { "refused" }), 1);
    }
    Ok(())
}

fn contract<C: PC>(c: &mut Ctx, w: &World<C>, good: &[(Vec<Slot>, Vec<BigUint>)]) -> Res where C::Fr: JF {
    w.d.put(&w.n.vk, &enc::<C>(w.t.fmt, true, &w.key));
    w.with_junk(c, &w.n.sol);
    let r = w.cmd(c, "generate-verifier", "")?;
    ensure!(c, r.ok, "generate-verifier fails: {}", r.err);
    let src = w.d.read(&w.n.sol).unwrap_or_default();
    let say = |s: Stop| match s { Stop::Unsupported(s) => format!("INCONCLUSIVE: the contract uses a construct the interpreter does not know: {}", s), s => format!("the contract written by generate-verifier is not valid Solidity: {:?}; {} bytes", s, src.len()) };
    let ct = Contract::parse(&src).map_err(say)?;
    ct.check_types().map_err(say)?;
    let e = ct.entry("verifyProof").map_err(say)?;
    for (i, (p, x)) in good.iter().enumerate() {
        for bad in 0..3 {
            let (mut ws, mut xs): (Vec<BigUint>, _) = (p.iter().flat_map(|s| s.coords().clone()).collect(), x.clone());
            match bad { 1 => { let j = c.r.below(xs.len()); xs[j] = (&xs[j] + 1u32) % C::r(); } 2 => ws = good[(i + 1) % good.len()].0.iter().flat_map(|s| s.coords().clone()).collect(), _ => {} }
            let exp = bad == 0 || (bad == 2 && w.equation(&w.key, &good[(i + 1) % good.len()].0, x));
            let got = match Machine::new(&ct).run(e, &[ws, xs.clone()]) {
                Ok(v) => v.len() == 1 && v[0].is_one(),
                Err(Stop::Revert(_)) => false,
                Err(s) => return Err(say(s)),
            };
            ensure!(c, got == exp, "the contract written by generate-verifier says {} for {} of the program's proofs", got, if bad == 0 { "one" } else { "a tampered one" });
            c.count("contract executions", 1);
        }
    }
    Ok(())
}

/// wrong objects, wrong keys
fn wrong<C: PC>(c: &mut Ctx, t: &Target, cu: &Curve<C::Fr>) -> Res where C::Fr: JF {
    let mut w = world::<C>(c, t)?;
    for _ in 0..(if c.thorough { 10 } else { 3 }) {
        // an object that does not satisfy the circuit
        let o = object::<C::Fr>(c, w.circuit, cu, false);
        c.case(format!("{} {} {}", t.name, w.circuit, o));
        w.d.put(&w.n.object, o.to_string().as_bytes());
        w.d.put(&w.n.vk, &enc::<C>(t.fmt, true, &w.key));
        if let Some((p, x)) = w.prove(c)? {
            let exp: Vec<BigUint> = judge_object::<C::Fr>(w.circuit, &o, cu).unwrap().0.iter().map(|e| e.big()).collect();
            ensure!(c, x == exp, "{} prove writes the inputs {:?} instead of {:?}", t.name, x, exp);
            let r = w.accepted(c)?;
            ensure!(c, !r.says_true(), "{} verify accepts the proof of a false statement: {}", t.name, o);
            w.verdict(c, &w.key, &p, &x, "an unsatisfied object")?;
        } else { c.count("unsatisfied objects refused", 1); }
        // an object that is none
        let mut o = object::<C::Fr>(c, w.circuit, cu, true);
        let big = json!((C::r() + BigUint::from(c.r.below(3))).to_string());
        match (w.circuit, c.r.below(5)) {
            (_, 0) => o = json!([o[0]]),
            (_, 1) => o = json!([o[0], o[1], o[1]]),
            ("a", 2) => o[0] = big,
            ("a", 3) => { o[1]["proof"]["sibling"].as_array_mut().unwrap().pop(); }
            ("a", _) => { o[1].as_object_mut().unwrap().remove("leaf"); }
            ("b", 2) => o[0]["v"][c.r.below(3)] = big,
            ("b", 3) => { let x = o[0]["o"][0].clone(); o[0]["o"].as_array_mut().unwrap().push(x); }
            ("b", _) => o[1]["b"] = json!(2),
            ("d", 2) => o[0][c.r.below(260)] = big,
            ("d", 3) => { o[0].as_array_mut().unwrap().pop(); }
            ("d", _) => { let x = o[0][0].clone(); o[0].as_array_mut().unwrap().push(x); }
            (_, 2) => o[0][0]["x"] = big,
            (_, 3) => o[1] = json!("twelve"),
            (_, _) => o[0] = json!([o[0][1], o[0][0]]),
        }
        w.d.put(&w.n.object, o.to_string().as_bytes());
        let got = w.prove(c)?;
        ensure!(c, got.is_none(), "{} proves a malformed object: {}", t.name, o);
    }
    // another setup: keys do not mix
    let o = object::<C::Fr>(c, w.circuit, cu, true);
    w.d.put(&w.n.object, o.to_string().as_bytes());
    let (p, x) = match w.prove(c)? { Some(v) => v, None => viol!("{} refuses to prove a satisfied object: {}", t.name, o) };
    let old = w.key.clone();
    w.setup(c)?;
    ensure!(c, old.iter().zip(w.key.iter()).all(|(a, b)| a.coords() != b.coords()), "{}: two setups share key points", t.name);
    w.verdict(c, &w.key, &p, &x, "the key of another setup")?;
    w.verdict(c, &old, &p, &x, "the key of the first setup")?;
    let (p2, x2) = match w.prove(c)? { Some(v) => v, None => viol!("{} refuses to prove a satisfied object: {}", t.name, o) };
    ensure!(c, x2 == x, "{}: the inputs changed with the setup", t.name);
    w.verdict(c, &old, &p2, &x2, "the key of another setup")?;
    w.verdict(c, &w.key, &p2, &x2, "the key of the second setup")?;
    Ok(())
}

/// files that cannot be written completely: no success is reported
fn faults<C: PC>(c: &mut Ctx, t: &Target, cu: &Curve<C::Fr>) -> Res where C::Fr: JF {
    let w = world::<C>(c, t)?;
    let o = object::<C::Fr>(c, w.circuit, cu, true);
    w.d.put(&w.n.object, o.to_string().as_bytes());
    let cmds: &[&str] = if t.fmt == Fmt::Json { &["setup", "prove", "generate-test-data", "generate-verifier"] } else { &["setup", "prove", "generate-test-data"] };
    for cmd in cmds {
        let outs: Vec<String> = match *cmd { "setup" => vec![w.n.params.clone(), w.n.vk.clone()], "prove" => vec![w.n.proof.clone(), w.n.inputs.clone()], "generate-verifier" => vec![w.n.sol.clone()], _ => vec![w.n.object.clone()] };
        // how long the files are when nothing fails
        let r = w.cmd(c, cmd, "1")?;
        ensure!(c, r.ok, "{} {} fails: {}", t.name, cmd, r.err);
        let max = outs.iter().map(|f| fs::metadata(w.d.0.join(f)).map(|m| m.len()).unwrap_or(0)).max().unwrap();
        for i in 0..3 {
            let lim = match i { 0 => 0, 1 => max / 2 + c.r.below(8) as u64, _ => 1 + c.r.below(max as usize / 2) as u64 };
            // sizes vary by a few digits between runs, so stay well below
            if lim > max * 9 / 10 { continue; }
            let keep: Vec<_> = [&w.n.params, &w.n.vk, &w.n.object].iter().map(|f| fs::read(w.d.0.join(f)).ok()).collect();
            for f in &outs { let _ = fs::remove_file(w.d.0.join(f)); }
            let r = run(c, &w.d, t.name, w.circuit, &w.n.args(cmd), "1", Some(lim))?;
            for (f, d) in [&w.n.params, &w.n.vk, &w.n.object].iter().zip(keep) { if let Some(d) = d { w.d.put(f, &d); } }
            ensure!(c, !r.ok, "{} {} reports success ('{}') although its output file could only take {} of {} bytes", t.name, cmd, r.out.trim(), lim, max);
            c.count("file size faults", 1);
        }
        // a place that cannot be written
        let mut n = w.n.clone();
        n.style = 2;
        match *cmd { "setup" => if c.r.bool() { n.params = "no/such/dir".into() } else { n.vk = "no/such/dir".into() }, "prove" => if c.r.bool() { n.proof = "no/such/dir".into() } else { n.inputs = "no/such/dir".into() }, "generate-verifier" => n.sol = "no/such/dir".into(), _ => n.object = "no/such/dir".into() }
        let r = run(c, &w.d, t.name, w.circuit, &n.args(cmd), "1", None)?;
        ensure!(c, !r.ok, "{} {} reports success without writing a file", t.name, cmd);
    }
    c.case(format!("{} {} {}", t.name, w.circuit, o));
    Ok(())
}

const ETH: Target = Target { name: "eth", fmt: Fmt::Json };
const WAVES: Target = Target { name: "waves", fmt: Fmt::Bin };
const WAVESBN: Target = Target { name: "wavesbn", fmt: Fmt::Bin };
const NEAR: Target = Target { name: "near", fmt: Fmt::Borsh };

fn main() {
    Check::new("C25", "whole command-line sessions of the four generated programs (four circuits, default, short and long options, existing output files), each file decoded independently, with tampered, damaged and unwritable files; distinct by program and object")
        .add("eth", 8, 300, |c: &mut Ctx| e2e::<Bn256>(c, &ETH, &bn_curve()))
        .add("waves", 8, 300, |c: &mut Ctx| e2e::<Bls12>(c, &WAVES, &bls_curve()))
        .add("waves-bn256", 8, 300, |c: &mut Ctx| e2e::<Bn256>(c, &WAVESBN, &bn_curve()))
        .add("near", 8, 300, |c: &mut Ctx| e2e::<Bn256>(c, &NEAR, &bn_curve()))
        .add("wrong", 12, 300, |c: &mut Ctx| match c.iter % 4 { 0 => wrong::<Bn256>(c, &ETH, &bn_curve()), 1 => wrong::<Bls12>(c, &WAVES, &bls_curve()), 2 => wrong::<Bn256>(c, &WAVESBN, &bn_curve()), _ => wrong::<Bn256>(c, &NEAR, &bn_curve()) })
        .add("faults", 8, 160, |c: &mut Ctx| match c.iter % 4 { 0 => faults::<Bn256>(c, &ETH, &bn_curve()), 1 => faults::<Bls12>(c, &WAVES, &bls_curve()), 2 => faults::<Bn256>(c, &WAVESBN, &bn_curve()), _ => faults::<Bn256>(c, &NEAR, &bn_curve()) })
        .assume("a stand-in for clap 3 beta parses the arguments: the real crate is not available offline")
        .run()
}
