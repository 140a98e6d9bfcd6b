use crate::engine::{Ex, Probe};
use crate::refm::*;
use crate::world::*;
use crate::{ensure, same};
use ndarray::{Array1, ArrayView1};
use num_bigint::{BigInt, BigUint};
use num_traits::{One, Signed, ToPrimitive, Zero};
use onion_pir::verif::*;
use std::sync::Arc;

fn rests(x: &BigUint, ms: &[u64]) -> Vec<u64> {
    ms.iter().map(|m| (x % *m).to_u64().unwrap()).collect()
}

/// floor(2*a + 1 / 2b)-style rounding helpers on integers
fn floor_div(a: &BigInt, b: &BigInt) -> BigInt {
    let q = a / b;
    if (a % b).is_negative() {
        q - 1
    } else {
        q
    }
}

/// Every integer the property allows for x scaled by num/den: nearest integer
/// of the centred value, either neighbour within 2^-60 of a tie, either
/// centring within 2^-60*Q of Q/2.
fn allowed(x: &BigUint, q: &BigUint, num: &BigUint, den: &BigUint) -> Vec<BigInt> {
    let (qi, ni, di) = (BigInt::from(q.clone()), BigInt::from(num.clone()), BigInt::from(den.clone()));
    let c = centred(x, q);
    let mut cs = vec![c.clone()];
    // | |c| - Q/2 | <= Q * 2^-60
    let dist: BigInt = BigInt::abs(&(BigInt::abs(&c) * 2 - &qi));
    if (&dist << 60usize) <= &qi * 2 {
        cs.push(if c.is_negative() { &c + &qi } else { &c - &qi });
    }
    let mut out = vec![];
    for c in cs {
        // y = c*num/den ; lo = floor(y + 1/2 - 2^-60), hi = floor(y + 1/2 + 2^-60)
        let two60 = BigInt::one() << 60usize;
        let base = &c * &ni * &two60 * 2 + &di * &two60;
        let d = &di * &two60 * 2;
        let lo = floor_div(&(&base - &di * 2), &d);
        let hi = floor_div(&(&base + &di * 2), &d);
        let mut k = lo;
        while k <= hi {
            if !out.contains(&k) {
                out.push(k.clone());
            }
            k += 1;
        }
    }
    out
}

fn residue(k: &BigInt, m: u64) -> u64 {
    let mi = BigInt::from(m);
    (((k % &mi) + &mi) % &mi).to_u64().unwrap()
}

fn check(x: &BigUint, from: &[u64], to: &[u64], num: &BigUint, den: &BigUint, got: &[u64], what: &str) -> Result<(), String> {
    let q = product(from);
    for (g, m) in got.iter().zip(to) {
        ensure!(g < m, "{}: residue {} mod {} not canonical (x={})", what, g, m, x);
    }
    let al = allowed(x, &q, num, den);
    let ok = al
        .iter()
        .any(|k| to.iter().zip(got).all(|(m, g)| residue(k, *m) == *g));
    ensure!(
        ok,
        "{}: {} over {:?} scaled by {}/{} into {:?} gives {:?}, nearest integer is {:?}",
        what, x, from, num, den, to, got, al
    );
    Ok(())
}

/// Project / lift
fn bijection(ms: &Vec<u64>, pr: &mut Probe) -> Result<(), String> {
    let c = RnsContext::new(ms);
    let q = product(ms);
    same!(*c.modulus(), q, "product of {:?}", ms);
    let mut one = |x: &BigUint| -> Result<(), String> {
        let r = c.project(x);
        pr.tn(2);
        pr.dstates += 1;
        same!(r, rests(x, ms), "project({}) over {:?}", x, ms);
        let l = c.lift(ArrayView1::from(&r));
        ensure!(l == *x, "lift(project({})) over {:?} = {}", x, ms, l);
        pr.outcome(&r);
        Ok(())
    };
    if q < BigUint::from(200_000u64) {
        let mut x = BigUint::zero();
        while x < q {
            one(&x)?;
            x += 1u32;
        }
    } else {
        for x in lattice_big(&q, ms) {
            one(&x)?;
        }
    }
    // residue vectors (uniqueness): all {0,1,q_i-1} combinations
    for pat in all_vectors(ms.len().min(6), &[0, 1, 2]) {
        let r: Vec<u64> = ms
            .iter()
            .enumerate()
            .map(|(i, m)| [0, 1, m - 1][pat[i % pat.len()] as usize])
            .collect();
        let l = c.lift(ArrayView1::from(&r));
        pr.t();
        ensure!(l < q && rests(&l, ms) == r, "lift({:?}) over {:?} = {}", r, ms, l);
    }
    Ok(())
}

fn lattice_big(q: &BigUint, ms: &[u64]) -> Vec<BigUint> {
    let mut v: Vec<BigUint> = vec![];
    for i in 0..4u32 {
        v.push(BigUint::from(i));
        v.push(q - 1u32 - i);
        v.push((q >> 1usize) + i);
        v.push((q >> 1usize) - i);
        v.push(q / 3u32 + i);
    }
    for k in (0..q.bits()).step_by(7) {
        v.push(BigUint::one() << k);
        v.push((BigUint::one() << k) - 1u32);
        v.push(q - (BigUint::one() << k));
    }
    for i in 0..ms.len() {
        let mut r = vec![0; ms.len()];
        for x in [1, ms[i] / 2, ms[i] - 1] {
            r[i] = x;
            v.push(crt(&r, ms));
            v.push(q - crt(&r, ms));
        }
        let mut r: Vec<u64> = ms.iter().map(|m| m - 1).collect();
        r[i] = 0;
        v.push(crt(&r, ms));
    }
    for s in 0..8 {
        let r: Vec<u64> = ms.iter().map(|m| stream(1, *m, s * 31 + m % 97)[0]).collect();
        v.push(crt(&r, ms));
    }
    v.retain(|x| x < q);
    v.sort();
    v.dedup();
    v
}

/// inputs on both sides of every rounding decision we can name
fn flips(q: &BigUint, num: &BigUint, den: &BigUint, ms: &[u64], dense: bool) -> Vec<BigUint> {
    let mut v = lattice_big(q, ms);
    if num.is_zero() {
        return v;
    }
    // half-integers: x = (2k+1) den / (2 num)
    let kmax = (q * num) / den + 1u32;
    let mut ks: Vec<BigUint> = (0..6u32).map(BigUint::from).collect();
    for b in (0..kmax.bits()).step_by(if dense { 3 } else { 9 }) {
        ks.push(BigUint::one() << b);
    }
    for i in 0..4u32 {
        if kmax > BigUint::from(i) {
            ks.push(&kmax - i);
            ks.push((&kmax >> 1usize) + i);
        }
    }
    for k in ks {
        let x = ((&k * 2u32 + 1u32) * den) / (num * 2u32);
        for d in 0..3u32 {
            v.push(&x + d);
            if x >= BigUint::from(d) {
                v.push(&x - d);
                // mirrored: negative values
                if q > &x {
                    v.push(q - &x + d);
                    v.push(q - &x - d.min(1));
                }
            }
        }
    }
    v.retain(|x| x < q);
    v.sort();
    v.dedup();
    v
}

#[derive(Clone, Debug)]
struct Case {
    from: Vec<u64>,
    to: Vec<u64>,
    num: BigUint,
    den: BigUint,
}

fn id(c: &Case) -> String {
    format!("{:?}-to-{:?}-by-{}/{}", c.from, c.to, c.num, c.den)
}

fn scaler(c: &Case, dense: bool, pr: &mut Probe) -> Result<(), String> {
    let from = Arc::new(RnsContext::new(&c.from));
    let to = Arc::new(RnsContext::new(&c.to));
    let s = RnsScaler::new(&from, &to, ScalingFactor::new(c.num.clone(), c.den.clone()));
    let q = product(&c.from);
    let mut one = |x: &BigUint| -> Result<(), String> {
        let r = rests(x, &c.from);
        let mut out = Array1::<u64>::zeros(c.to.len());
        s.scale(ArrayView1::from(&r), out.view_mut(), 0);
        pr.t();
        pr.dstates += 1;
        let full = out.to_vec();
        check(x, &c.from, &c.to, &c.num, &c.den, &full, "rns")?;
        pr.outcome(&full);
        // partial outputs agree with the full one
        for st in 1..c.to.len() {
            for len in 1..=(c.to.len() - st) {
                let mut part = Array1::<u64>::zeros(len);
                s.scale(ArrayView1::from(&r), part.view_mut(), st);
                pr.t();
                ensure!(part.to_vec() == full[st..st + len], "partial output {}..{} of {}", st, st + len, x);
            }
        }
        Ok(())
    };
    if q < BigUint::from(40_000u64) {
        let mut x = BigUint::zero();
        while x < q {
            one(&x)?;
            x += 1u32;
        }
    } else {
        for x in flips(&q, &c.num, &c.den, &c.from, dense) {
            one(&x)?;
        }
    }
    Ok(())
}

fn poly(c: &Case, n: usize, dense: bool, pr: &mut Probe) -> Result<(), String> {
    let (fc, tc) = (ctx(&c.from, n), ctx(&c.to, n));
    let s = RqScaler::new(&fc, &tc, ScalingFactor::new(c.num.clone(), c.den.clone()));
    let q = product(&c.from);
    let xs: Vec<BigUint> = if q < BigUint::from(20_000u64) {
        (0..q.to_u64().unwrap()).map(BigUint::from).collect()
    } else {
        flips(&q, &c.num, &c.den, &c.from, dense)
    };
    for ch in xs.chunks(n) {
        let mut p = Poly::try_from_bigint(&fc, ch);
        let keep = p.clone();
        let r = rq_scale(&s, &p);
        pr.tn(2);
        pr.dstates += ch.len() as u64;
        ensure!(p == keep, "scaling changed its input");
        ensure!(r.context == tc, "context of the scaled polynomial");
        same!(r.representation, Representation::PowerBasis, "representation");
        let rr = residues(&r);
        let z = BigUint::zero();
        for j in 0..n {
            let got: Vec<u64> = rr.iter().map(|row| row[j]).collect();
            check(ch.get(j).unwrap_or(&z), &c.from, &c.to, &c.num, &c.den, &got, "poly")?;
            pr.outcome(&got);
        }
        p.change_representation(Representation::Ntt);
        let rn = rq_scale(&s, &p);
        same!(rn.representation, Representation::Ntt, "representation of the scaled polynomial");
        ensure!(residues(&rn) == rr, "scaling differs between representations for {:?}", ch);
    }
    Ok(())
}

pub fn run(ex: &Arc<Ex>) {
    let th = ex.thorough;
    let b = |x: u64| BigUint::from(x);
    let p62 = primes(8, &[62; 9]);
    let mixed = primes(8, &[62, 20, 45, 10, 30]);
    let mut bases: Vec<Vec<u64>> = vec![
        vec![2],
        vec![3],
        vec![2, 3],
        vec![3, 2],
        vec![3, 5, 7],
        vec![7, 5, 3, 2],
        vec![17, 97],
        vec![97, 17],
        vec![251, 257],
        vec![11, 13, 17, 19],
        vec![17, 97, 113],
        vec![p62[0]],
        p62[..3].to_vec(),
        p62.clone(),
        mixed.clone(),
        vec![mixed[3], p62[1]],
    ];
    bases.push(p62[..7].iter().rev().cloned().collect());
    bases.push(primes(8, &[11; 12]));
    bases.push(primes(8, &[62; 16]));
    bases.push((10..=40).step_by(2).map(|b| primes(8, &[b])[0]).collect());
    if th {
        bases.push(primes(8, &[62; 32]));
    }
    ex.group("project-lift", &bases, |c| format!("{:?}", c), bijection);

    // residue scaler, exhaustive on tiny moduli
    let from_small: Vec<Vec<u64>> = vec![vec![3], vec![7], vec![2, 3], vec![3, 5], vec![5, 3], vec![5, 7, 11], vec![13, 3, 7], vec![17, 97], vec![2, 3, 5, 7]];
    let to_small: Vec<Vec<u64>> = vec![vec![2], vec![5], vec![3, 5], vec![5, 3], vec![7, 3], vec![11, 13, 17], vec![17, 97], vec![5, 7, 11, 13], vec![p62[0], 3]];
    let mut v = vec![];
    for f in &from_small {
        let q = product(f);
        let fs: Vec<(BigUint, BigUint)> = vec![
            (b(1), b(1)), (b(4), b(4)), (q.clone(), q.clone()), (b(0), b(1)), (b(1), b(2)), (b(1), b(3)), (b(2), b(3)), (b(3), b(2)),
            (b(5), b(1)), (b(7), b(4)), (b(1), b(10)), (b(2), q.clone()), (b(3), q.clone()), (b(17), q.clone()), (q.clone(), b(3)),
            (b(1), q.clone()), (q.clone(), b(1)), (&q + 1u32, q.clone()), (q.clone(), &q + 1u32),
        ];
        for t in &to_small {
            for (n, d) in &fs {
                v.push(Case { from: f.clone(), to: t.clone(), num: n.clone(), den: d.clone() });
            }
        }
    }
    ex.group("rns-scale-exhaustive", &v, id, |c, pr| scaler(c, th, pr));

    // large moduli, boundary lattice around every named rounding decision
    let mut w = vec![];
    let from_big: Vec<Vec<u64>> = vec![
        vec![p62[0]], p62[..2].to_vec(), p62[..3].to_vec(), p62[..5].to_vec(), mixed.clone(), vec![17, p62[0]], vec![p62[3], 97, 113], p62.clone(), primes(8, &[62; 16]), primes(8, &[61, 20, 60, 25, 59, 30, 58, 35, 57, 40]),
    ];
    let to_big: Vec<Vec<u64>> = vec![
        vec![p62[0]], vec![17], p62[..3].to_vec(), p62[..6].to_vec(), p62[2..5].to_vec(), vec![p62[1], p62[0]], mixed[..2].to_vec(), vec![97, p62[0], p62[1]],
    ];
    for f in &from_big {
        let q = product(f);
        let mut fs: Vec<(BigUint, BigUint)> = vec![
            (b(1), b(1)), (q.clone(), q.clone()), (b(97), q.clone()), (b(1785857), q.clone()), (b(17), q.clone()), (b(1), b(2)), (b(2), b(3)), (b(1000003), b(7)),
            (b((1 << 61) - 1), q.clone()), (b(1), b(p62[0])), (product(&p62[..2]), q.clone()), (b(1), q.clone()),
        ];
        {
            fs.push((q.clone(), b(97)));
            fs.push((&q * &q - 1u32, q.clone()));
            fs.push((b(3), &q + 2u32));
            fs.push((&q - 1u32, q.clone()));
        }
        for t in &to_big {
            for (n, d) in &fs {
                w.push(Case { from: f.clone(), to: t.clone(), num: n.clone(), den: d.clone() });
            }
        }
    }
    ex.group("rns-scale-boundaries", &w, id, |c, pr| scaler(c, th, pr));

    // polynomials: exhaustive small rings, then the shapes BFV uses
    let mut x = vec![];
    for f in [vec![17u64], vec![97], vec![17, 97], vec![113, 17], vec![97, 113]] {
        let q = product(&f);
        for t in [vec![17u64], vec![97, 17], vec![17, 113], vec![17, 97, 113], vec![193, 97], vec![113, 97, 17], vec![p62[0]]] {
            for (n, d) in [(b(1), b(1)), (q.clone(), q.clone()), (b(17), q.clone()), (b(5), b(3)), (b(1), b(17)), (b(1), b(2))] {
                x.push(Case { from: f.clone(), to: t.clone(), num: n, den: d });
            }
        }
    }
    for f in &from_big {
        let q = product(f);
        for t in &to_big {
            for (n, d) in [(b(1), b(1)), (b(97), q.clone()), (b(1785857), q.clone()), (b(97), product(&p62[..2]))] {
                x.push(Case { from: f.clone(), to: t.clone(), num: n, den: d });
            }
        }
    }
    ex.group("poly-scale", &x, id, |c, pr| poly(c, 8, th, pr));
    let mut y = vec![];
    for n in ex.pick(&[16usize, 64, 128, 1024][..], &[16, 32, 64, 128, 256, 512, 1024, 2048, 4096][..]) {
        let ps = primes(*n, &[62, 61, 50, 62, 60, 40, 62]);
        for (f, t) in [(0..3usize, 0..6usize), (0..6, 0..3), (0..3, 3..7), (0..2, 0..1), (1..5, 0..2), (0..1, 0..1)] {
            let f: Vec<u64> = ps[f].to_vec();
            let t: Vec<u64> = ps[t].to_vec();
            let q = product(&f);
            for (num, den) in [(b(1), b(1)), (b(65537), q.clone()), (b(65537), product(&ps[..2])), (b(5), b(3))] {
                y.push((*n, Case { from: f.clone(), to: t.clone(), num, den }));
            }
        }
    }
    ex.group("poly-scale-large", &y, |c| format!("n{}-{}", c.0, id(&c.1)), |c, pr| poly(&c.1, c.0, true, pr));
}
