//! C06: EdDSA signatures verify exactly when they are valid
use fawkes_crypto::core::field::Field;
use fawkes_crypto::native::bls12_381::JubJubBLS12_381;
use fawkes_crypto::native::bn256::JubJubBN256;
use fawkes_crypto::native::ecc::JubJubParams;
use fawkes_crypto::native::eddsaposeidon::{eddsaposeidon_sign, eddsaposeidon_verify};
use fawkes_crypto::native::num::Num;
use fawkes_crypto::native::poseidon::PoseidonParams;
use fv::ed::*;
use fv::engine::guard;
use fv::refm::*;
use fv::{ensure, gen, viol, Check, Ctx, Res};
use num::bigint::BigUint;
use num::Zero;
use std::collections::HashMap;
use std::sync::Arc;

struct Env<F: RefField + Field, J> {
    k: Curve<F>,
    j: J,
    params: Vec<(PoseidonParams<F>, RefPoseidon<F>)>,
}

fn env<F: RefField + Field, J>(k: Curve<F>, j: J) -> Arc<Env<F, J>> {
    let sets = [(4, 8, 54), (5, 8, 56), (4, 6, 20)];
    let params = sets.iter().map(|(t, f, p)| (PoseidonParams::new(*t, *f, *p), RefPoseidon::new(*t, *f, *p))).collect();
    Arc::new(Env { k, j, params })
}

fn verify<F: RefField + Field, J: JubJubParams<Fr = F>>(
    c: &mut Ctx, e: &Env<F, J>, ps: usize, s: &BigUint, r: E<F>, a: E<F>, m: E<F>, what: &str,
) -> Result<bool, String>
where J::Fs: RefField {
    let (pp, rp) = &e.params[ps];
    let exp = e.k.verify(rp, s, r, a, m);
    let got = match guard(|| eddsaposeidon_verify(Num::<J::Fs>(fb(s)), Num(r.0), Num(a.0), Num(m.0), pp, &e.j)) {
        Ok(g) => g,
        Err(m) => viol!("verification failed with '{}' on {}", m, what),
    };
    c.obs(1);
    c.count(&format!("{}: {}", what, if exp { "valid" } else { "invalid" }), 1);
    if got != exp {
        viol!("{}: verify says {} but the signature is {}: s={} r={} a={} m={} in {}", what, got, if exp { "valid" } else { "invalid" },
            s, r.big(), a.big(), m.big(), F::NAME);
    }
    Ok(got)
}

fn key<F: RefField>(c: &mut Ctx, k: &Curve<F>) -> BigUint {
    match c.r.below(4) {
        0 => BigUint::from(c.r.below(10) as u32),
        _ => gen::shaped_big(&mut c.r, &k.l),
    }
}

fn sig<F: RefField + Field, J: JubJubParams<Fr = F>>(c: &mut Ctx, e: &Env<F, J>) -> Res
where J::Fs: RefField {
    let ps = c.r.below(e.params.len());
    let (pp, rp) = &e.params[ps];
    let k = &e.k;
    let sk = key(c, k);
    let m = E(gen::shaped::<F>(&mut c.r));
    let a = k.mul(&k.g, &sk).x;
    c.case(format!("{} {} {} {}", F::NAME, ps, sk, m.big()));
    let sign = |sk: &BigUint, m: E<F>| {
        let (s, r) = eddsaposeidon_sign(Num::<J::Fs>(fb(sk)), Num(m.0), pp, &e.j);
        (tb(&s.0), E(r.0))
    };
    let (s, r) = sign(&sk, m);
    let (es, er) = k.sign(rp, &sk, m);
    c.sample(|| format!("{} sk={} m={} -> s={} r={}", F::NAME, sk, m.big(), s, r.big()));
    ensure!(c, sign(&sk, m) == (s.clone(), r), "signing is not deterministic for sk={} m={}", sk, m.big());
    if !verify(c, e, ps, &s, r, a, m, "honest signature")? {
        viol!("the signature of m={} by sk={} does not verify in {}", m.big(), sk, F::NAME);
    }
    ensure!(c, (s.clone(), r) == (es, er), "signature of m={} by sk={} in {} is not the specified one", m.big(), sk, F::NAME);
    // any alteration
    let one = E::<F>::one();
    let s1 = (&s + 1u32) % &k.l;
    verify(c, e, ps, &s1, r, a, m, "s+1")?;
    verify(c, e, ps, &((&k.l - &s) % &k.l), r, a, m, "-s")?;
    let so = gen::shaped_big(&mut c.r, &k.l);
    verify(c, e, ps, &so, r, a, m, "other s")?;
    verify(c, e, ps, &s, r, a, m + one, "m+1")?;
    verify(c, e, ps, &s, r, a, -m, "-m")?;
    verify(c, e, ps, &s, -r, a, m, "-r")?;
    verify(c, e, ps, &s, r, -a, m, "-a")?;
    verify(c, e, ps, &s, -r, -a, m, "-r and -a")?;
    verify(c, e, ps, &((&k.l - &s) % &k.l), -r, -a, m, "-s, -r and -a")?;
    verify(c, e, ps, &s, a, r, m, "r and a exchanged")?;
    verify(c, e, ps, &s, m, a, r, "r and m exchanged")?;
    verify(c, e, ps, &s, r, m, a, "a and m exchanged")?;
    let sk2 = if c.r.bool() { (&sk + 1u32) % &k.l } else { gen::shaped_big(&mut c.r, &k.l) };
    let a2 = k.mul(&k.g, &sk2).x;
    verify(c, e, ps, &s, r, a2, m, "key of another signer")?;
    let (s2, r2) = sign(&sk, m + one);
    verify(c, e, ps, &s2, r, a, m, "s of another message")?;
    verify(c, e, ps, &s, r2, a, m, "r of another message")?;
    verify(c, e, ps, &s2, r2, a, m, "signature of another message")?;
    if ps > 0 {
        verify(c, e, 0, &s, r, a, m, "other hash parameters")?;
    }
    // torsion: the x of cosets of the true points, and of low-order points
    let pa = k.mul(&k.g, &sk);
    let pr = k.decompress(r).ok_or("r is no member")?;
    let i = c.r.range(1, 7);
    verify(c, e, ps, &s, r, k.add(&pa, &k.tor[i]).x, m, "key shifted by torsion")?;
    verify(c, e, ps, &s, k.add(&pr, &k.tor[i]).x, a, m, "r shifted by torsion")?;
    verify(c, e, ps, &s, r, k.tor[i].x, m, "low-order key")?;
    verify(c, e, ps, &s, k.tor[i].x, a, m, "low-order r")?;
    verify(c, e, ps, &BigUint::zero(), E::zero(), E::zero(), m, "all zero")?;
    verify(c, e, ps, &s, E::zero(), a, m, "r zero")?;
    verify(c, e, ps, &s, r, E::zero(), m, "a zero")?;
    // coordinates of nothing
    let x = E(gen::shaped::<F>(&mut c.r));
    verify(c, e, ps, &s, x, a, m, "arbitrary r")?;
    verify(c, e, ps, &s, r, x, m, "arbitrary a")?;
    // nonce bookkeeping: the commitment must differ for every other (key, message)
    let mut seen: HashMap<Vec<u64>, (BigUint, BigUint)> = HashMap::new();
    for q in 0..10 {
        let mut b = m.big();
        let mut kk = sk.clone();
        match q {
            0 => {}
            // single-bit differences anywhere in the message or the key
            1 | 2 | 3 | 4 => b = flip(c, &b, &F::p()),
            5 | 6 | 7 | 8 => kk = flip(c, &kk, &k.l),
            _ => { b = gen::shaped_big(&mut c.r, &F::p()); kk = key(c, k); }
        }
        let (_, r) = sign(&kk, E(fb(&b)));
        if let Some((ok, om)) = seen.insert(gen::repr_words(&r.0), (kk.clone(), b.clone())) {
            ensure!(c, (ok == kk) && (om == b), "nonce commitment shared by (key {}, message {}) and (key {}, message {}) in {}", ok, om, kk, b, F::NAME);
        }
        c.obs(1);
    }
    Ok(())
}

fn flip(c: &mut Ctx, x: &BigUint, p: &BigUint) -> BigUint {
    loop {
        let bit = BigUint::from(1u32) << c.r.below(p.bits());
        let y = x ^ bit;
        if &y < p {
            return y;
        }
    }
}

/// signatures made by the reference signer with freely chosen nonces are valid too
fn foreign<F: RefField + Field, J: JubJubParams<Fr = F>>(c: &mut Ctx, e: &Env<F, J>) -> Res
where J::Fs: RefField {
    let ps = c.r.below(e.params.len());
    let rp = &e.params[ps].1;
    let k = &e.k;
    let (sk, rho) = (key(c, k), key(c, k));
    let m = E(gen::shaped::<F>(&mut c.r));
    let a = k.mul(&k.g, &sk).x;
    let r = k.mul(&k.g, &rho).x;
    let h = k.hash_ram(rp, r, a, m);
    let s = (&rho + &h * &sk) % &k.l;
    c.case(format!("{} {} {} {}", F::NAME, sk, rho, m.big()));
    if !verify(c, e, ps, &s, r, a, m, "foreign signature")? {
        viol!("valid foreign signature refused");
    }
    // cofactor games: valid only when the cofactored equation is used
    let i = c.r.range(1, 7);
    let rt = k.add(&k.mul(&k.g, &rho), &k.tor[i]).x;
    let ht = k.hash_ram(rp, rt, a, m);
    let st = (&rho + &ht * &sk) % &k.l;
    verify(c, e, ps, &st, rt, a, m, "signature on torsion-shifted r")?;
    let at = k.add(&k.mul(&k.g, &sk), &k.tor[i]).x;
    let ht = k.hash_ram(rp, r, at, m);
    let st = (&rho + &ht * &sk) % &k.l;
    verify(c, e, ps, &st, r, at, m, "signature on torsion-shifted key")?;
    // signature of the negated equation (x coordinates only compare up to sign of y)
    let st = (&k.l * 2u32 - &rho - (&h * &sk) % &k.l) % &k.l;
    verify(c, e, ps, &st, r, a, m, "negated equation")?;
    let st = (&rho + &k.l - (&h * &sk) % &k.l) % &k.l;
    verify(c, e, ps, &st, r, a, m, "subtracted equation")?;
    // -R and -A with matching s for the hash of the altered coordinates
    let h2 = k.hash_ram(rp, -r, a, m);
    let st = (&k.l - &rho + (&h2 * &sk)) % &k.l;
    if !verify(c, e, ps, &st, -r, a, m, "signature with negated nonce")? {
        viol!("valid signature with negated nonce refused");
    }
    Ok(())
}

fn main() {
    let bn = env(bn_curve(), JubJubBN256::new());
    let bl = env(bls_curve(), JubJubBLS12_381::new());
    let mut ck = Check::new("C06", "boundary and random keys and messages over three hash parameter sets and both curves; about thirty alterations of each signature, torsion shifts, non-points, foreign signatures; verdicts and signatures compared with an independent EdDSA; distinct by key, message and parameters");
    macro_rules! s { ($n:expr, $q:expr, $t:expr, $f:ident, $c:expr) => {{
        let c = $c.clone();
        ck = ck.add($n, $q, $t, move |x: &mut Ctx| $f(x, &c));
    }} }
    s!("signatures-bn", 160, 12000, sig, bn);
    s!("signatures-bls", 160, 12000, sig, bl);
    s!("foreign-bn", 500, 30000, foreign, bn);
    s!("foreign-bls", 500, 30000, foreign, bl);
    ck.assume("Poseidon is modelled by the harness's own implementation").run()
}
