//! guesses an attacker would use for hidden curve points
use crate::ed::{Curve, Pt};
use crate::refm::{RefField, E};
use crate::rng::R;

/// one step back through the gadget's doubling formulas, on the curve or not
pub fn halve<F: RefField>(cu: &Curve<F>, p: &Pt<F>) -> Vec<Pt<F>> {
    let one = E::<F>::one();
    let two = one + one;
    let mut vs = vec![];
    if p.x.is_zero() {
        vs.push(E::zero());
    } else if let Some(s) = (one - cu.d * p.x.sq()).sqrt() {
        let den = cu.d * p.x;
        vs.push((one + s).div(den));
        vs.push((one - s).div(den));
    }
    let mut out = vec![];
    for v in vs {
        let u = p.y * (one - cu.d * v.sq());
        if let (Some(s), Some(t)) = ((u + two * v).sqrt(), (u - two * v).sqrt()) {
            for t in [t, -t].iter() {
                out.push(Pt { x: (s + *t).div(two), y: (s - *t).div(two) });
            }
        }
    }
    out
}
/// guesses for the preimage hint of the subgroup gadgets
pub fn preimages<F: RefField>(r: &mut R, cu: &Curve<F>, targets: &[Pt<F>]) -> Vec<Vec<E<F>>> {
    let mut out = vec![];
    for t in targets {
        if cu.on(t) {
            let (s, tor) = cu.split(t);
            for k in 0..5 {
                let h = cu.div2k(&s, k);
                for i in 0..8 {
                    let q = cu.add(&h, &cu.tor[i]);
                    let mut d = q;
                    for _ in 0..k { d = cu.dbl(&d); }
                    // exact preimages for k doublings, and a few that miss by torsion
                    if d == *t || (cu.is_zero(&tor) && k == 3) || r.chance(1, 8) { out.push(vec![q.x, q.y]); }
                }
            }
        }
        // off-curve preimages
        let mut layer = vec![*t];
        for _ in 0..4 {
            let mut next = vec![];
            for p in layer.iter() { next.extend(halve(cu, p)); }
            next.truncate(8);
            for p in next.iter().take(3) { out.push(vec![p.x, p.y]); out.push(vec![-p.x, -p.y]); }
            layer = next;
        }
    }
    out
}
