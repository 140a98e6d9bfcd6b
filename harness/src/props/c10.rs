use crate::engine::{guard, Ex, Probe};
use crate::refm::*;
use crate::world::*;
use crate::{ensure, same};
use onion_pir::verif::*;
use std::sync::Arc;

fn op(p: u64, n: usize) -> NttOperator {
    NttOperator::new(&Modulus::new(p), n)
}

fn fwd(o: &NttOperator, v: &[u64]) -> Vec<u64> {
    let mut a = v.to_vec();
    o.forward(&mut a);
    a
}
fn bwd(o: &NttOperator, v: &[u64]) -> Vec<u64> {
    let mut a = v.to_vec();
    o.backward(&mut a);
    a
}

fn roundtrip(o: &NttOperator, p: u64, v: &[u64], pr: &mut Probe) -> Result<Vec<u64>, String> {
    let f = fwd(o, v);
    pr.tn(4);
    ensure!(f.iter().all(|x| *x < p), "forward({:?}) mod {} not canonical: {:?}", v, p, f);
    let b = bwd(o, &f);
    ensure!(b == v, "backward(forward({:?})) mod {} = {:?}", v, p, b);
    let g = bwd(o, v);
    ensure!(g.iter().all(|x| *x < p), "backward({:?}) mod {} not canonical: {:?}", v, p, g);
    let h = fwd(o, &g);
    ensure!(h == v, "forward(backward({:?})) mod {} = {:?}", v, p, h);
    Ok(f)
}

fn conv(o: &NttOperator, p: u64, a: &[u64], b: &[u64], pr: &mut Probe) -> Result<(), String> {
    let (fa, fb) = (fwd(o, a), fwd(o, b));
    let c: Vec<u64> = fa.iter().zip(&fb).map(|(x, y)| mulmod(*x, *y, p)).collect();
    let r = bwd(o, &c);
    pr.tn(3);
    pr.dstates += 1;
    let w = negmul(a, b, p);
    ensure!(r == w, "product of {:?} and {:?} mod {}: {:?}, expected {:?}", a, b, p, r, w);
    Ok(())
}

fn vectors(n: usize, p: u64) -> Vec<Vec<u64>> {
    let mut out = vec![vec![0; n], vec![1; n], vec![p - 1; n], vec![p / 2; n]];
    for i in 0..n {
        for x in [1, p / 2 + 1, p - 1] {
            let mut v = vec![0; n];
            v[i] = x;
            out.push(v);
        }
        let mut v = vec![p - 1; n];
        v[i] = 0;
        out.push(v);
    }
    // blocks and stripes of saturated values at every power-of-two period
    let mut w = 1;
    while w < n {
        out.push((0..n).map(|i| if (i / w) % 2 == 0 { p - 1 } else { 0 }).collect());
        out.push((0..n).map(|i| if (i / w) % 2 == 0 { 1 } else { p - 1 }).collect());
        w *= 2;
    }
    for s in 0..8 {
        out.push(stream(n, p, s));
    }
    out
}

fn case(c: &(usize, u64, usize), pr: &mut Probe) -> Result<(), String> {
    let (n, p, depth) = *c;
    let o = op(p, n);
    // construction is a function of its arguments only
    let o2 = op(p, n);
    let vs = vectors(n, p);
    for v in &vs {
        pr.dstates += 1;
        let f = roundtrip(&o, p, v, pr)?;
        ensure!(f == fwd(&o2, v), "two transforms for the same modulus disagree on {:?}", v);
        pr.outcome(&f);
    }
    if n == 8 {
        let alpha: Vec<u64> = if depth > 0 { vec![0, 1, p / 2, p - 1] } else { vec![0, 1, p - 1] };
        for v in all_vectors(8, &alpha) {
            pr.dstates += 1;
            roundtrip(&o, p, &v, pr)?;
        }
    }
    // all vectors with two non-zero entries over the whole field
    if p < 120 && n <= 16 {
        for i in 0..n {
            for j in 0..i {
                for x in 1..p {
                    for y in 1..p {
                        let mut v = vec![0; n];
                        v[i] = x;
                        v[j] = y;
                        pr.dstates += 1;
                        roundtrip(&o, p, &v, pr)?;
                    }
                }
            }
        }
    }
    // convolution is bilinear: basis pairs with extreme coefficients decide it,
    // saturated vectors exercise the lazy reductions
    let lim = if depth > 0 { 32 } else { 16 };
    if n <= lim {
        for a in &vs {
            for b in &vs {
                conv(&o, p, a, b, pr)?;
            }
        }
    } else if n <= 256 {
        for a in vs.iter().rev().take(24) {
            for b in vs.iter().rev().take(24) {
                conv(&o, p, a, b, pr)?;
            }
        }
        for i in (0..n).step_by(n / 8 - 1) {
            for j in (0..n).step_by(n / 8 - 1) {
                let (mut a, mut b) = (vec![0; n], vec![0; n]);
                a[i] = p - 1;
                b[j] = p - 1;
                conv(&o, p, &a, &b, pr)?;
            }
        }
    } else {
        conv(&o, p, &vs[2], &vs[2], pr)?;
        conv(&o, p, &stream(n, p, 1), &stream(n, p, 2), pr)?;
    }
    Ok(())
}

/// evaluation semantics: outputs are the values at the odd powers of one
/// primitive 2n-th root, each exactly once
fn roots(c: &(usize, u64, usize), pr: &mut Probe) -> Result<(), String> {
    let (n, p, _) = *c;
    let o = op(p, n);
    let mut x = vec![0; n];
    x[1] = 1;
    let pts = fwd(&o, &x); // the evaluation points themselves
    pr.t();
    let mut seen = std::collections::HashSet::new();
    for r in &pts {
        ensure!(powmod(*r, n as u64, p) == p - 1, "evaluation point {} is not a primitive 2n-th root mod {}", r, p);
        ensure!(seen.insert(*r), "evaluation point {} repeated mod {}", r, p);
    }
    for s in 0..4u64 {
        let v = if s == 0 { vec![p - 1; n] } else { stream(n, p, 40 + s) };
        let f = fwd(&o, &v);
        pr.t();
        pr.dstates += 1;
        for (i, r) in pts.iter().enumerate() {
            let mut acc = 0u64;
            for c in v.iter().rev() {
                acc = ((mulmod(acc, *r, p) as u128 + *c as u128) % p as u128) as u64;
            }
            ensure!(acc == f[i], "slot {} of the transform mod {} is {}, evaluation at {} gives {}", i, p, f[i], r, acc);
        }
    }
    Ok(())
}

fn refusal(c: &(usize, u64), pr: &mut Probe) -> Result<(), String> {
    let (n, p) = *c;
    // Modulus itself requires p >= 2 and below 2^62
    let ok = n >= 8 && n.is_power_of_two() && is_prime_ref(p) && (p - 1) % (2 * n as u64) == 0;
    let m = Modulus::new(p);
    let got = guard(|| NttOperator::new(&m, n)).is_ok();
    pr.t();
    pr.dstates += 1;
    pr.rejected += !got as u64;
    ensure!(got == ok, "size {} modulus {}: accepted={}, supported={}", n, p, got, ok);
    if ok {
        let o = op(p, n);
        roundtrip(&o, p, &vec![p - 1; n], pr)?;
        for l in [0, 1, n - 1, n + 1, 2 * n] {
            let r = guard(|| {
                // an accepted short vector stays inside the buffer
                let mut v = vec![0u64; 4 * n];
                o.forward(&mut v[..l]);
            });
            ensure!(r.is_err(), "forward accepts {} values for size {}", l, n);
            let r = guard(|| {
                // an accepted short vector stays inside the buffer
                let mut v = vec![0u64; 4 * n];
                o.backward(&mut v[..l]);
            });
            ensure!(r.is_err(), "backward accepts {} values for size {}", l, n);
            pr.tn(2);
            pr.rejected += 2;
        }
    }
    Ok(())
}

pub fn run(ex: &Arc<Ex>) {
    let th = ex.thorough;
    let d = th as usize;
    let mut v: Vec<(usize, u64, usize)> = vec![];
    let mut n = 8;
    while n <= 256 {
        // all supported small primes
        let lim = ex.pick(if n <= 16 { 2000 } else { 6000 }, 20000) as u64;
        let mut p = 2 * n as u64 + 1;
        while p < lim {
            if is_prime_ref(p) {
                v.push((n, p, d));
            }
            p += 2 * n as u64;
        }
        for bits in [14usize, 20, 31, 32, 33, 45, 50, 59, 60, 61, 62] {
            let b = 1u64 << bits;
            let hi = prime_below(bits, 2 * n as u64, b);
            let lo = prime_above(bits, 2 * n as u64);
            for p in [hi, lo, hi.and_then(|h| prime_below(bits, 2 * n as u64, h))].iter().flatten() {
                v.push((n, *p, d));
            }
        }
        n *= 2;
    }
    for n in ex.pick(vec![512usize, 1024, 2048, 4096, 8192, 32768], vec![512, 1024, 2048, 4096, 8192, 16384, 32768, 65536]) {
        for bits in [20usize, 50, 61, 62] {
            if let Some(p) = prime_below(bits, 2 * n as u64, 1 << bits) {
                if n <= 4096 || bits == 62 {
                    v.push((n, p, 0));
                }
            }
        }
    }
    let small: Vec<_> = v.iter().filter(|c| c.0 <= 512).cloned().collect();
    let large: Vec<_> = v.iter().filter(|c| c.0 > 512).cloned().collect();
    ex.group("transform", &small, |c| format!("n{}p{}", c.0, c.1), case);
    ex.group("transform-large", &large, |c| format!("n{}p{}", c.0, c.1), big);
    let r: Vec<_> = v.iter().filter(|c| c.0 <= 1024).cloned().collect();
    ex.group("evaluation-points", &r, |c| format!("n{}p{}", c.0, c.1), roots);
    // every prime of the range, and the largest ones of the widest sizes
    let mut w = vec![];
    for n in [8usize, 16, 64, 256] {
        let lim = (n as u64) << ex.pick(17, 20);
        let mut p = 2 * n as u64 + 1;
        while p < lim {
            if is_prime_ref(p) {
                w.push((n, p));
            }
            p += 2 * n as u64;
        }
        for bits in [33usize, 50, 61, 62] {
            let mut b = 1u64 << bits;
            for _ in 0..ex.pick(500, 5000) {
                b = prime_below(bits, 2 * n as u64, b).unwrap();
                w.push((n, b));
            }
        }
    }
    ex.group("every-prime", &w, |c| format!("n{}p{}", c.0, c.1), prime);
    // operators of several sizes for one modulus, in every order; the modulus is
    // one that no other case uses
    let mut w: Vec<(u64, Vec<usize>)> = vec![];
    let sizes = ex.pick(vec![8usize, 16, 64, 128, 1024], vec![8, 16, 32, 64, 128, 256, 512, 1024, 4096]);
    let mut last = 1u64 << 58;
    for a in &sizes {
        for b in &sizes {
            for c in sizes.iter().map(Some).chain([None]) {
                last = prime_below(58, 8192, last).unwrap();
                w.push((last, [Some(a), Some(b), c].iter().flatten().map(|x| **x).collect()));
            }
        }
    }
    ex.group("several-sizes", &w, |c| format!("p{}n{:?}", c.0, c.1), several);
    let mut w = vec![];
    for n in (0..=70).chain([128, 100, 96, 256]) {
        for p in (2u64..ex.pick(1200, 8000)).chain([65537, 65536, 4611686018427387761, (1 << 62) - 1, 1 << 61]) {
            w.push((n as usize, p));
        }
    }
    ex.group("refusal", &w, |c| format!("n{}p{}", c.0, c.1), refusal);
}

fn several(c: &(u64, Vec<usize>), pr: &mut Probe) -> Result<(), String> {
    let p = c.0;
    let mut ops: Vec<(usize, NttOperator)> = vec![];
    for n in &c.1 {
        ops.push((*n, op(p, *n)));
        for (n, o) in &ops {
            let n = *n;
            pr.dstates += 1;
            for v in [stream(n, p, 3), vec![p - 1; n]] {
                roundtrip(o, p, &v, pr).map_err(|e| format!("operators of sizes {:?}: {}", c.1, e))?;
            }
            for i in [1, n / 2, n - 1] {
                let mut b = vec![0; n];
                b[i] = p - 1;
                conv(o, p, &stream(n, p, 77), &b, pr).map_err(|e| format!("operators of sizes {:?}: {}", c.1, e))?;
            }
        }
    }
    Ok(())
}

fn big(c: &(usize, u64, usize), pr: &mut Probe) -> Result<(), String> {
    let (n, p, _) = *c;
    let o = op(p, n);
    let mut vs = vec![vec![p - 1; n], vec![1; n]];
    let mut w = 1;
    while w < n {
        vs.push((0..n).map(|i| if (i / w) % 2 == 0 { p - 1 } else { 0 }).collect());
        w *= 2;
    }
    for i in [0, 1, n / 2, n - 1] {
        let mut v = vec![0; n];
        v[i] = p - 1;
        vs.push(v);
    }
    for s in 0..4 {
        vs.push(stream(n, p, s));
    }
    for v in &vs {
        pr.dstates += 1;
        let f = roundtrip(&o, p, v, pr)?;
        pr.outcome(&f);
    }
    // products with monomials: negacyclic shift, no schoolbook needed
    let a = stream(n, p, 77);
    for i in [0, 1, 2, n / 2, n - 1] {
        let mut b = vec![0; n];
        b[i] = p - 1;
        conv(&o, p, &a, &b, pr)?;
    }
    Ok(())
}

/// every supported prime of a range: constructed, exact and multiplicative
fn prime(c: &(usize, u64), pr: &mut Probe) -> Result<(), String> {
    let (n, p) = *c;
    let o = op(p, n);
    let vs = [stream(n, p, 1), (0..n as u64).map(|i| if i % 3 == 0 { p - 1 } else { i }).collect::<Vec<_>>(), vec![p - 1; n]];
    for v in &vs {
        pr.dstates += 1;
        roundtrip(&o, p, v, pr)?;
    }
    conv(&o, p, &vs[0], &vs[1], pr)
}
