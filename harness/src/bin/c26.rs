//! C26: keys and proofs use fresh, unpredictable randomness
//!
//! The kernel entry points behind the random source are interposed, so that a
//! thread can be served recorded, pinned, short or failing entropy.
use bellman::groth16::Parameters;
use fawkes_crypto::circuit::num::CNum;
use fawkes_crypto::core::cs::{Circuit, ConstraintSystem};
use fawkes_crypto::core::osrng::OsRng;
use fawkes_crypto::core::signal::Signal;
use fawkes_crypto::helpers::groth16::prover::{generate_keys, prove, Proof};
use fawkes_crypto::native::num::Num;
use fv::engine::guard;
use fv::prog::JF;
use fv::{ensure, viol, Check, Ctx, Res};
use pairing::bls12_381::Bls12;
use pairing::bn256::Bn256;
use pairing::{CurveAffine, CurveProjective, EncodedPoint, Engine};
use rand::Rng;
use std::cell::Cell;
use std::collections::{HashMap, HashSet};
use std::sync::Mutex;

// ------------------------------------------------------------- entropy hook
pub struct Tape {
    /// bytes served so far to this thread
    served: u64,
    calls: u64,
    /// the window [from, from + pin.len()) of the tape has these bytes
    from: u64,
    pin: Vec<u8>,
    /// at most this many bytes per call, 0 for no limit
    short: usize,
    /// every n-th call is interrupted, 0 for never
    intr: u64,
    /// calls fail from this one on
    fail: Option<u64>,
}
impl Tape { fn new() -> Self { Tape { served: 0, calls: 0, from: 0, pin: vec![], short: 0, intr: 0, fail: None } } }
thread_local! { static TAPE: Cell<*mut Tape> = const { Cell::new(std::ptr::null_mut()) }; }

extern "C" { fn __errno_location() -> *mut i32; fn fork() -> i32; fn pipe(p: *mut i32) -> i32; fn read(f: i32, b: *mut u8, n: usize) -> isize; fn write(f: i32, b: *const u8, n: usize) -> isize; fn _exit(c: i32) -> !; fn waitpid(p: i32, s: *mut i32, o: i32) -> i32; fn close(f: i32) -> i32; }

#[cfg(target_arch = "x86_64")]
unsafe fn raw(n: i64, a: [i64; 6]) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a[0], in("rsi") a[1], in("rdx") a[2], in("r10") a[3], in("r8") a[4], in("r9") a[5], lateout("rcx") _, lateout("r11") _);
    r
}
unsafe fn ret(r: i64) -> i64 { if r < 0 && r > -4096 { *__errno_location() = -r as i32; -1 } else { r } }
unsafe fn entropy(buf: *mut u8, len: usize, flags: i64) -> i64 {
    let t = TAPE.with(|t| t.get());
    if t.is_null() { return ret(raw(318, [buf as i64, len as i64, flags, 0, 0, 0])); }
    let t = &mut *t;
    if len == 0 { return 0; }
    t.calls += 1;
    if let Some(f) = t.fail { if t.calls > f { return ret(-5); } }
    if t.intr > 0 && t.calls % t.intr == 0 { return ret(-4); }
    let n = if t.short > 0 { len.min(t.short) } else { len };
    let r = raw(318, [buf as i64, n as i64, flags, 0, 0, 0]);
    if r > 0 {
        for i in 0..r as u64 {
            let p = t.served + i;
            if p >= t.from && p - t.from < t.pin.len() as u64 { *buf.add(i as usize) = t.pin[(p - t.from) as usize]; }
        }
        t.served += r as u64;
    }
    ret(r)
}
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == 318 { return entropy(a as *mut u8, b as usize, c); }
    ret(raw(n, [a, b, c, d, e, f]))
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize { entropy(buf, len, flags as i64) as isize }

fn with<T>(t: &mut Tape, f: impl FnOnce() -> T) -> Result<T, String> {
    TAPE.with(|c| c.set(t));
    let r = guard(f);
    TAPE.with(|c| c.set(std::ptr::null_mut()));
    r
}

// ------------------------------------------------------------------ circuits
/// x1 * ... * xn = y with y public
pub struct Prod<F: JF>(Option<Vec<Num<F>>>, usize);
impl<F: JF> Default for Prod<F> { fn default() -> Self { Prod(None, SIZE.with(|s| s.get())) } }
thread_local! { static SIZE: Cell<usize> = const { Cell::new(2) }; }
impl<F: JF> Circuit for Prod<F> {
    type F = F;
    fn synthesize<CS: ConstraintSystem<F = F>>(&self, cs: &CS) {
        let y = CNum::alloc(cs, self.0.as_ref().map(|v| v.iter().fold(Num::one(), |a, b| a * *b)).as_ref());
        y.inputize();
        let mut acc: CNum<CS> = CNum::one(cs);
        for i in 0..self.1 { acc = acc * CNum::alloc(cs, self.0.as_ref().map(|v| &v[i])); }
        (acc - y).assert_zero();
    }
    fn get_inputs(&self) -> Option<Vec<Num<F>>> { self.0.as_ref().map(|v| vec![v.iter().fold(Num::one(), |a, b| a * *b)]) }
}
fn stmt<F: JF>(c: &mut Ctx, n: usize) -> Prod<F> { Prod(Some((0..n).map(|_| Num(fv::gen::uniform(&mut c.r))).collect()), n) }
fn keys<En: Engine>(n: usize) -> Parameters<En> where En::Fr: JF { SIZE.with(|s| s.set(n)); generate_keys::<En, Prod<En::Fr>>() }

fn bytes<G: CurveAffine>(p: &G) -> Vec<u8> { p.into_compressed().as_ref().to_vec() }
fn key_parts<En: Engine>(k: &Parameters<En>) -> Vec<(String, Vec<u8>)> {
    let mut v = vec![
        ("alpha_g1".to_string(), bytes(&k.vk.alpha_g1)), ("beta_g1".into(), bytes(&k.vk.beta_g1)), ("beta_g2".into(), bytes(&k.vk.beta_g2)),
        ("gamma_g2".into(), bytes(&k.vk.gamma_g2)), ("delta_g1".into(), bytes(&k.vk.delta_g1)), ("delta_g2".into(), bytes(&k.vk.delta_g2)),
    ];
    let mut push = |n: &str, i: usize, b: Vec<u8>, z: bool| if !z { v.push((format!("{}{}", n, i), b)) };
    for (i, p) in k.vk.ic.iter().enumerate() { push("ic", i, bytes(p), p.is_zero()); }
    for (i, p) in k.h.iter().enumerate() { push("h", i, bytes(p), p.is_zero()); }
    for (i, p) in k.l.iter().enumerate() { push("l", i, bytes(p), p.is_zero()); }
    for (i, p) in k.a.iter().enumerate() { push("a", i, bytes(p), p.is_zero()); }
    for (i, p) in k.b_g1.iter().enumerate() { push("b_g1_", i, bytes(p), p.is_zero()); }
    for (i, p) in k.b_g2.iter().enumerate() { push("b_g2_", i, bytes(p), p.is_zero()); }
    v
}
fn proof_parts<En: Engine>(p: &Proof<En>) -> Vec<(String, Vec<u8>)> {
    vec![("A".into(), bytes(&p.0.a)), ("B".into(), bytes(&p.0.b)), ("C".into(), bytes(&p.0.c))]
}

/// every randomised component ever seen by this process: component of which run
static SEEN: Mutex<Option<HashMap<Vec<u8>, String>>> = Mutex::new(None);
fn fresh(c: &mut Ctx, parts: &[(String, Vec<u8>)], who: &str) -> Res {
    // a component may occur several times inside one key; across keys and proofs never
    let mut mine: HashSet<&Vec<u8>> = HashSet::new();
    let mut g = SEEN.lock().unwrap();
    let m = g.get_or_insert_with(HashMap::new);
    for (n, b) in parts {
        c.obs(1);
        if !mine.insert(b) { continue; }
        if let Some(o) = m.insert(b.clone(), format!("{} {}", who, n)) {
            viol!("{} of {} is the same point as {}", n, who, o);
        }
    }
    c.count("randomised components recorded", mine.len() as u64);
    Ok(())
}
fn small_multiple<G: CurveAffine>(p: &G, q: &G, n: usize) -> bool {
    let mut m = q.into_projective();
    let mut np = *p;
    np.negate();
    for _ in 0..n {
        let a = m.into_affine();
        if a == *p || a == np { return true; }
        m.add_assign_mixed(q);
    }
    false
}
fn minus<G: CurveAffine>(p: &G, q: &G) -> G { let mut a = p.into_projective(); let mut b = *q; b.negate(); a.add_assign_mixed(&b); a.into_affine() }

/// the parts of one key are unrelated to each other and to the fixed generators
fn unrelated<En: Engine>(c: &mut Ctx, k: &Parameters<En>, n: usize) -> Res {
    let g1 = [("alpha_g1", k.vk.alpha_g1), ("beta_g1", k.vk.beta_g1), ("delta_g1", k.vk.delta_g1), ("the fixed generator", En::G1Affine::one())];
    for i in 0..4 { for j in 0..4 { if i != j {
        ensure!(c, !small_multiple(&g1[i].1, &g1[j].1, n), "{} is a small multiple of {}", g1[i].0, g1[j].0);
    } } }
    let g2 = [("beta_g2", k.vk.beta_g2), ("gamma_g2", k.vk.gamma_g2), ("delta_g2", k.vk.delta_g2), ("the fixed generator", En::G2Affine::one())];
    for i in 0..4 { for j in 0..4 { if i != j {
        ensure!(c, !small_multiple(&g2[i].1, &g2[j].1, n), "{} is a small multiple of {}", g2[i].0, g2[j].0);
    } } }
    for (p, _) in [(k.vk.alpha_g1, 0), (k.vk.beta_g1, 0), (k.vk.delta_g1, 0)].iter() { ensure!(c, !p.is_zero(), "a key element is zero"); }
    // products of logarithms: alpha gamma = beta delta, alpha delta = beta gamma, ...
    let (ag, bd) = (En::pairing(k.vk.alpha_g1, k.vk.gamma_g2), En::pairing(k.vk.beta_g1, k.vk.delta_g2));
    let (ad, bg) = (En::pairing(k.vk.alpha_g1, k.vk.delta_g2), En::pairing(k.vk.beta_g1, k.vk.gamma_g2));
    let (dg, ab) = (En::pairing(k.vk.delta_g1, k.vk.gamma_g2), En::pairing(k.vk.alpha_g1, k.vk.beta_g2));
    let v = [ag, bd, ad, bg, dg, ab];
    for i in 0..6 { for j in 0..i { ensure!(c, v[i] != v[j], "the secrets of a key are related"); } }
    Ok(())
}
/// the two blinding values of proofs of one statement are unrelated
fn blinding<En: Engine>(c: &mut Ctx, k: &Parameters<En>, p: &Proof<En>, q: &Proof<En>, n: usize) -> Res {
    let (da, db) = (minus(&p.0.a, &q.0.a), minus(&p.0.b, &q.0.b));
    ensure!(c, !da.is_zero() && !db.is_zero() && p.0.c != q.0.c, "two proofs of one statement share an element");
    ensure!(c, !small_multiple(&da, &k.vk.delta_g1, n), "the blinding values of two proofs differ by a small number (A)");
    ensure!(c, !small_multiple(&db, &k.vk.delta_g2, n / 4), "the blinding values of two proofs differ by a small number (B)");
    let (x, y) = (En::pairing(da, k.vk.delta_g2), En::pairing(k.vk.delta_g1, db));
    let mut nd = da;
    nd.negate();
    ensure!(c, x != y && En::pairing(nd, k.vk.delta_g2) != y, "the two blinding values of a proof are related");
    Ok(())
}

fn setup<En: Engine>(c: &mut Ctx) -> Res where En::Fr: JF {
    let n = c.r.range(1, 4);
    let k = keys::<En>(n);
    c.case(bytes(&k.vk.alpha_g1));
    fresh(c, &key_parts(&k), &format!("key {} ({})", c.iter, std::any::type_name::<En>()))?;
    let m = if c.thorough { 512 } else { 96 };
    unrelated(c, &k, m)?;
    let s = stmt::<En::Fr>(c, n);
    let mut last: Option<Proof<En>> = None;
    for i in 0..(if c.thorough { 40 } else { 8 }) {
        let p = prove::<En, _>(&s, &k);
        fresh(c, &proof_parts(&p), &format!("proof {} of key {}", i, c.iter))?;
        if let Some(l) = &last { if i < 4 { blinding(c, &k, &p, l, m * 4)?; } }
        last = Some(p);
    }
    Ok(())
}

/// a few pinned bytes of operating-system entropy never decide a component
fn pinned<En: Engine>(c: &mut Ctx) -> Res where En::Fr: JF {
    let n = 2;
    let k = keys::<En>(n);
    let s = stmt::<En::Fr>(c, n);
    // all windows a proof can read from, then those of a key
    let from = (c.iter as u64 * 4) % 144;
    let pin = c.r.bytes(8);
    let mut seen: Vec<Vec<(String, Vec<u8>)>> = vec![];
    for _ in 0..3 {
        let mut t = Tape { from, pin: pin.clone(), ..Tape::new() };
        match with(&mut t, || prove::<En, _>(&s, &k)) {
            Ok(p) => seen.push(proof_parts(&p)),
            Err(e) => viol!("proving fails with '{}'", e),
        }
        c.count("entropy bytes served to proofs", t.served);
        c.count("pinned entropy bytes", t.served.saturating_sub(from).min(8));
    }
    for i in 0..seen.len() { for j in 0..i { for (a, b) in seen[i].iter().zip(&seen[j]) {
        ensure!(c, a.1 != b.1, "proof element {} is decided by 8 bytes of entropy (bytes {}..{})", a.0, from, from + 8);
    } } }
    let from = (c.iter as u64 * 4) % 512;
    let pin = c.r.bytes(8);
    let mut seen: Vec<Vec<(String, Vec<u8>)>> = vec![];
    for _ in 0..2 {
        let mut t = Tape { from, pin: pin.clone(), ..Tape::new() };
        match with(&mut t, || keys::<En>(n)) {
            Ok(k) => seen.push(key_parts(&k)),
            Err(e) => viol!("key generation fails with '{}'", e),
        }
        c.count("entropy bytes served to keys", t.served);
    }
    c.case(format!("{} {:?}", from, pin));
    for (a, b) in seen[0].iter().zip(&seen[1]) {
        ensure!(c, a.1 != b.1, "key element {} is decided by 8 bytes of entropy (bytes {}..{})", a.0, from, from + 8);
    }
    Ok(())
}

/// the source itself: uniform, independent words however it is read
fn words(c: &mut Ctx) -> Res {
    let n = if c.thorough { 1 << 20 } else { 1 << 17 };
    let mut g = OsRng::new();
    let mode = c.iter % 5;
    let mut w: Vec<u32> = Vec::with_capacity(n);
    let mut t = Tape::new();
    match mode {
        3 => t.short = c.r.range(1, 3),
        4 => { t.intr = c.r.range(2, 5) as u64; t.short = c.r.range(0, 7); }
        _ => {}
    }
    let r = with(&mut t, || match mode {
        0 | 3 => for _ in 0..n { w.push(g.next_u32()); },
        1 => for _ in 0..n / 2 { let x = g.next_u64(); w.push(x as u32); w.push((x >> 32) as u32); },
        2 => {
            let mut b = vec![0u8; 4096 + 4];
            while w.len() < n { g.fill_bytes(&mut b); for x in b.chunks(4) { w.push(u32::from_le_bytes([x[0], x[1], x[2], x[3]])); } }
        }
        _ => while w.len() < n {
            // a new instance every few words
            g = OsRng::new();
            for _ in 0..6 { w.push(g.next_u32()); }
        },
    });
    if let Err(e) = r { viol!("the random source fails with '{}' under short or interrupted reads", e); }
    c.count("random words", w.len() as u64);
    c.count("entropy calls", t.calls);
    c.case(format!("{:?}", &w[..8]));
    let m = w.len() as f64;
    let dev = |x: u64, p: f64| ((x as f64) - m * p).abs() / (m * p * (1.0 - p)).sqrt();
    for b in 0..32 {
        let k = w.iter().filter(|x| (**x >> b) & 1 == 1).count() as u64;
        ensure!(c, dev(k, 0.5) < 9.0, "bit {} of the random words is set {} times in {} (mode {})", b, k, w.len(), mode);
        for lag in &[1usize, 2, 3, 4, 6, 8, 16, 64] {
            let k = w.iter().zip(w.iter().skip(*lag)).filter(|(x, y)| ((**x ^ **y) >> b) & 1 == 1).count() as u64;
            ensure!(c, dev(k, 0.5) < 9.0, "bit {} of random words {} apart differs {} times in {}", b, lag, k, w.len());
        }
        for b2 in 0..b {
            let k = w.iter().filter(|x| ((**x >> b) ^ (**x >> b2)) & 1 == 1).count() as u64;
            ensure!(c, dev(k, 0.5) < 9.0, "bits {} and {} of the random words differ {} times in {}", b, b2, k, w.len());
        }
    }
    for s in 0..4 {
        let mut h = [0u64; 256];
        for x in w.iter() { h[((x >> (8 * s)) & 255) as usize] += 1; }
        for (v, k) in h.iter().enumerate() { ensure!(c, dev(*k, 1.0 / 256.0) < 9.5, "byte value {} occurs {} times in {} at position {}", v, k, w.len(), s); }
    }
    // no window of four words is ever repeated, within or across threads
    let mut hs: HashSet<[u32; 4]> = HashSet::with_capacity(w.len());
    for x in w.windows(4) { if !hs.insert([x[0], x[1], x[2], x[3]]) { viol!("the random words {:08x} {:08x} {:08x} {:08x} occur twice", x[0], x[1], x[2], x[3]); } }
    c.obs(w.len() as u64);
    let mut g = WINDOWS.lock().unwrap();
    let m = g.get_or_insert_with(HashSet::new);
    for x in w.chunks_exact(4).take(1 << 15) { if !m.insert([x[0], x[1], x[2], x[3]]) { viol!("random words of two readers are equal"); } }
    Ok(())
}
static WINDOWS: Mutex<Option<HashSet<[u32; 4]>>> = Mutex::new(None);

/// no bit of a window of random words is a linear function of the other bits: the windows
/// (with a constant appended) span the whole space over two elements
fn relations(c: &mut Ctx) -> Res {
    const W: usize = 1024;
    let mode = c.iter % 8;
    let mut g = OsRng::new();
    let mut rows: Vec<Option<[u64; W / 64 + 1]>> = vec![None; W + 1];
    let mut rank = 0;
    let mut n = 0;
    while n < W + 200 {
        if mode >= 4 { g = OsRng::new(); }
        let mut v = [0u64; W / 64 + 1];
        match mode % 4 {
            0 => for x in v.iter_mut().take(W / 64) { *x = g.next_u64(); },
            1 => for x in v.iter_mut().take(W / 64) { let a = g.next_u32() as u64; *x = a << 32 | g.next_u32() as u64; },
            2 => {
                // pieces of several lengths, each filled by one call
                let mut b = [0u8; W / 8];
                let l = [W / 8, 7, 32, 5, 64][c.iter / 8 % 5];
                for x in b.chunks_mut(l) { g.fill_bytes(x); }
                for (i, x) in v.iter_mut().take(W / 64).enumerate() { let mut t = [0u8; 8]; t.copy_from_slice(&b[8 * i..8 * i + 8]); *x = u64::from_le_bytes(t); }
            }
            _ => for i in 0..W / 64 { v[i] = if i % 3 == 1 { let a = g.next_u32() as u64; a << 32 | g.next_u32() as u64 } else { g.gen() }; },
        }
        v[W / 64] = 1;
        n += 1;
        for b in 0..=W {
            if v[b / 64] >> (b % 64) & 1 == 0 { continue; }
            match &rows[b] {
                Some(r) => for (x, y) in v.iter_mut().zip(r.iter()) { *x ^= *y; },
                None => { rows[b] = Some(v); rank += 1; break; }
            }
        }
        if rank == W + 1 { break; }
    }
    c.case(format!("{:?}", rows[0]));
    c.count("windows tested for linear relations", n as u64);
    ensure!(c, rank == W + 1, "{} windows of {} random bits obey {} linear relations (mode {})", n, W, W + 1 - rank, mode);
    Ok(())
}

/// many instances: the state behind each one has real entropy
fn instances(c: &mut Ctx) -> Res {
    let n = if c.thorough { 2_000_000 } else { 200_000 };
    let mut s: HashSet<[u64; 2]> = HashSet::with_capacity(n);
    for _ in 0..n {
        let mut g = OsRng::new();
        let v = [g.next_u64(), g.next_u64()];
        if !s.insert(v) { viol!("two random sources give the same words {:016x} {:016x}", v[0], v[1]); }
    }
    c.obs(n as u64);
    c.case(format!("{:?}", s.iter().next()));
    c.count("random source instances", n as u64);
    Ok(())
}

/// a failing entropy source is refused, never replaced by predictable words
fn faults(c: &mut Ctx) -> Res {
    let after = c.r.below(40) as u64;
    let mut t = Tape { fail: Some(after), ..Tape::new() };
    let mut w: Vec<u32> = vec![];
    let mut refused = 0;
    let mut g = OsRng::new();
    for _ in 0..120 {
        match with(&mut t, || g.next_u32()) { Ok(x) => w.push(x), Err(_) => refused += 1 }
    }
    c.case(format!("{}", after));
    c.count("refusals under entropy failure", refused);
    c.count("words before or despite entropy failure", w.len() as u64);
    if t.calls > after && refused == 0 && t.served == 0 { c.count("other entropy source in use", 1); }
    // more than a few repeated or zero words among at most 120 are no accident (chance below 1e-17)
    let d: HashSet<u32> = w.iter().cloned().collect();
    ensure!(c, w.len() - d.len() < 3 && w.iter().filter(|x| **x == 0).count() < 3, "with a failing entropy source the random words repeat: {:08x?}", &w[w.len().saturating_sub(12)..]);
    let k = keys::<Bn256>(2);
    let s = stmt(c, 2);
    let mut parts: Vec<Vec<(String, Vec<u8>)>> = vec![];
    for _ in 0..2 {
        let mut t = Tape { fail: Some(c.r.below(6) as u64), ..Tape::new() };
        match with(&mut t, || prove::<Bn256, _>(&s, &k)) { Ok(p) => parts.push(proof_parts(&p)), Err(_) => c.count("proofs refused under entropy failure", 1) }
    }
    c.obs(1);
    if parts.len() == 2 { for (a, b) in parts[0].iter().zip(&parts[1]) { ensure!(c, a.1 != b.1, "proof element {} repeats when the entropy source fails", a.0); } }
    Ok(())
}

/// random field elements are uniform below the prime
fn elements<F: fv::refm::RefField + fawkes_crypto::core::field::Field>(c: &mut Ctx) -> Res {
    use num::ToPrimitive;
    let n = if c.thorough { 200_000 } else { 20_000 };
    let p = F::p();
    let bits = p.bits();
    let (mut hi, mut lo, mut bit) = ([0u64; 16], [0u64; 16], vec![0u64; bits]);
    let mut seen = HashSet::new();
    let mut g = OsRng::new();
    for _ in 0..n {
        let x: Num<F> = g.gen();
        let v = fv::refm::tb(&x.0);
        hi[((&v << 4usize) / &p).to_usize().unwrap().min(15)] += 1;
        lo[(&v % 16u32).to_usize().unwrap()] += 1;
        let d = v.to_bytes_le();
        for (i, b) in bit.iter_mut().enumerate().take(bits - 1) { *b += ((d.get(i / 8).cloned().unwrap_or(0) >> (i % 8)) & 1) as u64; }
        if !seen.insert(d) { viol!("the same random field element is drawn twice: {}", v); }
    }
    let m = n as f64;
    let dev = |x: u64, p: f64| ((x as f64) - m * p).abs() / (m * p * (1.0 - p)).sqrt();
    for i in 0..16 {
        ensure!(c, dev(hi[i], 1.0 / 16.0) < 9.5, "{} of {} random field elements lie in sixteenth {} of the field", hi[i], n, i);
        ensure!(c, dev(lo[i], 1.0 / 16.0) < 9.5, "{} of {} random field elements end in {}", lo[i], n, i);
    }
    // all but the top bits are balanced
    for i in 0..bits - 12 { ensure!(c, dev(bit[i], 0.5) < 9.5, "bit {} is set in {} of {} random field elements", i, bit[i], n); }
    c.case(format!("{:?}", lo));
    c.count("random field elements", n as u64);
    Ok(())
}

// ---------------------------------------------------------------- processes
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
fn child() {
    let mut g = OsRng::new();
    let mut out = vec![];
    for i in 0..64 { out.push(format!("word{} {:08x}{:08x}{:08x}{:08x}", i, g.next_u32(), g.next_u32(), g.next_u32(), g.next_u32())); }
    let k = keys::<Bn256>(2);
    for (n, b) in key_parts(&k) { out.push(format!("key.{} {}", n, hex(&b))); }
    let s = Prod::<fv::refm::BnFr>(Some(vec![Num::from(3u64), Num::from(5u64)]), 2);
    for (n, b) in proof_parts(&prove::<Bn256, _>(&s, &k)) { out.push(format!("proof.{} {}", n, hex(&b))); }
    let k = keys::<Bls12>(2);
    for (n, b) in key_parts(&k) { out.push(format!("bls key.{} {}", n, hex(&b))); }
    for l in out { println!("@ {}", l); }
}
/// single-threaded process that forks after using the random source
fn forker() {
    let mut g = OsRng::new();
    let _ = g.next_u64();
    let kids = 4;
    let mut all: Vec<Vec<u8>> = vec![];
    for _ in 0..kids {
        unsafe {
            let mut p = [0i32; 2];
            if pipe(p.as_mut_ptr()) != 0 { std::process::exit(3); }
            let pid = fork();
            if pid < 0 { std::process::exit(3); }
            if pid == 0 {
                let mut b = [0u8; 96];
                for i in 0..12 { let w = if i < 6 { g.next_u64() } else { OsRng::new().next_u64() }; b[8 * i..8 * i + 8].copy_from_slice(&w.to_le_bytes()); }
                write(p[1], b.as_ptr(), 96);
                _exit(0);
            }
            close(p[1]);
            let mut b = [0u8; 96];
            let mut k = 0;
            while k < 96 { let r = read(p[0], b.as_mut_ptr().add(k), 96 - k); if r <= 0 { std::process::exit(3); } k += r as usize; }
            close(p[0]);
            let mut st = 0;
            waitpid(pid, &mut st, 0);
            all.push(b.to_vec());
        }
    }
    let mut b = vec![];
    for i in 0..12 { let w = if i < 6 { g.next_u64() } else { OsRng::new().next_u64() }; b.extend(&w.to_le_bytes()); }
    all.push(b);
    for x in all { println!("@ {}", hex(&x)); }
}
fn spawn(mode: &str) -> Result<String, String> {
    let e = std::env::current_exe().map_err(|e| e.to_string())?;
    let o = std::process::Command::new(e).arg(mode).output().map_err(|e| e.to_string())?;
    if !o.status.success() { return Err(format!("INCONCLUSIVE: child process ended with {:?}: {}", o.status, String::from_utf8_lossy(&o.stderr).chars().take(300).collect::<String>())); }
    // bellman prints a line of its own
    Ok(String::from_utf8_lossy(&o.stdout).lines().filter(|l| l.starts_with("@ ")).map(|l| l[2..].to_string()).collect::<Vec<_>>().join("\n"))
}
static CHILDREN: Mutex<Option<HashMap<String, usize>>> = Mutex::new(None);
fn processes(c: &mut Ctx) -> Res {
    let s = spawn("child")?;
    let mut g = CHILDREN.lock().unwrap();
    let m = g.get_or_insert_with(HashMap::new);
    c.case(&s);
    let mut mine = HashSet::new();
    for l in s.lines() {
        let mut it = l.rsplitn(2, ' ');
        let (v, n) = (it.next().unwrap().to_string(), it.next().unwrap_or("").to_string());
        if !mine.insert(v.clone()) { continue; }
        if let Some(o) = m.insert(v, c.iter) { viol!("{} is the same in processes {} and {}", n, o, c.iter); }
        c.obs(1);
    }
    c.count("processes", 1);
    Ok(())
}
fn forks(c: &mut Ctx) -> Res {
    let s = spawn("fork")?;
    let v: Vec<&str> = s.lines().collect();
    let mut seen = HashSet::new();
    for (i, l) in v.iter().enumerate() {
        for k in 0..6 {
            let w = &l[32 * k..32 * k + 32];
            ensure!(c, seen.insert(w), "process {} of a fork reads random words already read by another", i);
        }
    }
    c.case(&s);
    c.count("forked processes", v.len() as u64);
    Ok(())
}

fn main() {
    match std::env::args().nth(1).as_deref() { Some("child") => return child(), Some("fork") => return forker(), _ => {} }
    Check::new("C26", "a case is one key generation with repeated proofs, one reader of the random source, one process or one fork; every randomised component is recorded and compared with all others, secrets and blinding values are tested for relations with pairings, and the kernel entropy interface is interposed to pin, shorten, interrupt or fail reads")
        .assume("statistical thresholds beyond 9 standard deviations; the kernel's entropy itself is trusted")
        .add("setup_bn", 40, 800, setup::<Bn256>)
        .add("setup_bls", 12, 200, setup::<Bls12>)
        .add("pinned_bn", 128, 1280, pinned::<Bn256>)
        .add("pinned_bls", 16, 256, pinned::<Bls12>)
        .add("words", 15, 60, words)
        .add("relations", 40, 400, relations)
        .add("instances", 4, 16, instances)
        .add("elements_bn_fr", 1, 4, elements::<fv::refm::BnFr>)
        .add("elements_bn_fs", 1, 4, elements::<fv::refm::BnFs>)
        .add("elements_bn_fq", 1, 4, elements::<fv::refm::BnFq>)
        .add("elements_bls_fr", 1, 4, elements::<fv::refm::BlsFr>)
        .add("elements_bls_fs", 1, 4, elements::<fv::refm::BlsFs>)
        .add("elements_bls_fq", 1, 4, elements::<fv::refm::BlsFq>)
        .add("faults", 20, 400, faults)
        .add("processes", 12, 100, processes)
        .add("forks", 8, 60, forks)
        .run()
}
