//! C09: the seeded generator is the specified Blake2s counter stream
use fawkes_crypto::core::seedbox::SeedboxBlake2;
use fawkes_crypto::native::num::Num;
use fv::refm::*;
use fv::{ensure, Check, Ctx, Res};
use rand::Rng;
use std::collections::HashSet;

fn salt(c: &mut Ctx) -> Option<Vec<u8>> {
    match c.r.below(6) {
        0 => None,
        1 => Some(vec![]),
        _ => {
            let n = [1, 8, 31, 32, 33, 64, 65, 128, 300][c.r.below(9)];
            Some(c.r.bytes(n))
        }
    }
}
fn mk(s: &Option<Vec<u8>>) -> SeedboxBlake2 {
    match s {
        None => SeedboxBlake2::new(),
        Some(x) => SeedboxBlake2::new_with_salt(x),
    }
}

fn mixed(c: &mut Ctx) -> Res {
    let s = salt(c);
    let mut real = mk(&s);
    let mut model = RefSeedbox::new(s.as_ref().map(|x| &x[..]));
    c.case(format!("{:?} {}", s, c.iter));
    let steps = if c.iter % 20 == 0 { 4000 } else { 60 };
    for k in 0..steps {
        match c.r.below(6) {
            0 | 1 => { ensure!(c, real.next_u32() == model.u32(), "32-bit word at step {} with salt {:?}", k, s); }
            2 => { ensure!(c, real.next_u64() == model.u64(), "64-bit word at step {} with salt {:?}", k, s); }
            3 => {
                let n = c.r.below(40);
                let mut b = vec![0u8; n];
                real.fill_bytes(&mut b);
                // rand 0.4: a 64-bit word per started chunk of eight bytes, little-endian
                let mut e = vec![];
                while e.len() < n {
                    let w = model.u64().to_le_bytes();
                    let m = (n - e.len()).min(8);
                    e.extend_from_slice(&w[..m]);
                }
                ensure!(c, b == e, "{} bytes at step {} with salt {:?}: {:?} {:?}", n, k, s, b, e);
            }
            4 => { ensure!(c, real.gen::<Num<BnFr>>().0 == model.field::<BnFr>(), "field element at step {} with salt {:?}", k, s); }
            _ => { ensure!(c, real.gen::<Num<BlsFq>>().0 == model.field::<BlsFq>(), "wide field element at step {} with salt {:?}", k, s); }
        }
    }
    Ok(())
}

fn words(r: &mut SeedboxBlake2, n: usize) -> Vec<u32> {
    (0..n).map(|_| r.next_u32()).collect()
}

fn distinct(c: &mut Ctx) -> Res {
    let a = salt(c);
    let mut b = salt(c);
    if c.r.chance(1, 2) {
        // near miss: one bit, one byte longer, trailing zero
        let mut x = a.clone().unwrap_or_default();
        match c.r.below(3) {
            0 => x.push(0),
            1 => { if !x.is_empty() { let i = c.r.below(x.len()); x[i] ^= 1 << c.r.below(8); } else { x.push(1) } }
            _ => { x.pop(); }
        }
        b = Some(x);
    }
    c.case(format!("{:?}{:?}", a, b));
    let wa = words(&mut mk(&a), 40);
    ensure!(c, wa == words(&mut mk(&a), 40), "same salt {:?} gave different streams", a);
    if a != b {
        let wb = words(&mut mk(&b), 40);
        ensure!(c, wa[..8] != wb[..8] && wa[8..16] != wb[8..16], "salts {:?} and {:?} gave equal blocks", a, b);
    }
    Ok(())
}

fn long(c: &mut Ctx) -> Res {
    let s = salt(c);
    let n = if c.thorough { 400_000 } else { 70_000 };
    let mut real = mk(&s);
    let mut model = RefSeedbox::new(s.as_ref().map(|x| &x[..]));
    let mut seen = HashSet::new();
    c.case(format!("long {:?}", s));
    for i in 0..n {
        let mut block = [0u32; 8];
        for w in block.iter_mut() {
            *w = real.next_u32();
        }
        let mut e = [0u32; 8];
        for w in e.iter_mut() { *w = model.u32(); }
        ensure!(c, block == e, "block {} differs with salt {:?}", i, s);
        ensure!(c, seen.insert(block), "block {} repeats with salt {:?}", i, s);
    }
    Ok(())
}

/// far into one stream: counter carries past every byte that can be reached
fn deep(c: &mut Ctx) -> Res {
    let s = salt(c);
    let n: u64 = (1 << 24) + 300;
    let mut real = mk(&s);
    let mut model = RefSeedbox::new(s.as_ref().map(|x| &x[..]));
    c.case(format!("deep {:?}", s));
    for i in 0..n {
        for w in 0..8 {
            let (a, b) = (real.next_u32(), model.u32());
            if a != b { fv::viol!("word {} of block {} differs with salt {:?}", w, i, s); }
        }
    }
    c.count("deep stream blocks", n);
    c.obs(n);
    Ok(())
}

fn main() {
    Check::new("C09", "read patterns mixing 32/64-bit words, byte buffers and field elements over random, empty, missing and near-equal salts, compared word by word with an independent Blake2s counter stream; distinct by salt and pattern")
        .add("mixed-reads", 6000, 200000, mixed)
        .add("salts", 8000, 200000, distinct)
        .add("long-streams", 7, 32, long)
        .add("deep-stream", 1, 4, deep)
        .assume("the harness's Blake2s implementation (RFC 7693)")
        .run()
}
