use crate::engine::{Ex, Probe};
use crate::refm::*;
use crate::world::*;
use crate::{ensure, same};
use onion_pir::verif::*;
use std::sync::Arc;

fn simd(p: &Arc<BfvParameters>, v: &[u64], level: usize) -> Plaintext {
    Plaintext::new(p, &v.to_vec(), level, Encoding::SIMD)
}

fn decode(mut d: Plaintext) -> Vec<u64> {
    d.set_encoding(Encoding::SIMD);
    d.decode()
}

/// slots after X -> X^(3^k): both rows rotate left by k
fn rotate(v: &[u64], k: usize) -> Vec<u64> {
    let r = v.len() / 2;
    (0..v.len())
        .map(|i| {
            let (row, col) = (i / r, i % r);
            v[row * r + (col + k) % r]
        })
        .collect()
}

fn swap(v: &[u64]) -> Vec<u64> {
    let r = v.len() / 2;
    [&v[r..], &v[..r]].concat()
}

fn with_values(p: &Arc<BfvParameters>, v: Vec<u64>) -> Vec<u64> {
    let mut d = pt(p, &v, 0);
    d.set_encoding(Encoding::SIMD);
    d.decode()
}

/// plaintext side: bijection, ring homomorphism, automorphisms
fn plain(c: &(Cfg, usize), pr: &mut Probe) -> Result<(), String> {
    let (cfg, depth) = c;
    let (n, t) = (cfg.n, cfg.t);
    let p = cfg.build();
    let mut vs = messages(n, t, n <= 16);
    if n == 8 {
        vs.extend(all_vectors(8, if *depth > 0 { &[0, 1, 2, 3] } else { &[0, 1, 5] }));
    }
    let enc: Vec<Vec<u64>> = vs.iter().map(|v| simd(&p, v, 0).values.to_vec()).collect();
    for (v, e) in vs.iter().zip(&enc) {
        pr.tn(2);
        pr.dstates += 1;
        ensure!(e.iter().all(|x| *x < t), "encoding of {:?} not reduced: {:?}", v, e);
        let d = simd(&p, v, 0).decode();
        ensure!(d == *v, "decode(encode({:?})) = {:?}", v, d);
        // automorphisms (own substitution on the encoded polynomial)
        let mut k3 = 1usize;
        for k in 0..n / 2 {
            let got = with_values(&p, subst(e, k3, t));
            pr.t();
            ensure!(got == rotate(v, k), "X^(3^{}) on {:?} gives slots {:?}", k, v, got);
            k3 = k3 * 3 % (2 * n);
        }
        let got = with_values(&p, subst(e, 2 * n - 1, t));
        pr.t();
        ensure!(got == swap(v), "X^(2N-1) on {:?} gives slots {:?}", v, got);
        pr.outcome(&d);
    }
    // slot-wise ring structure over all pairs of the message alphabet
    let m = messages(n, t, false);
    let step = if n > 16 && *depth == 0 { 5 } else { 1 };
    for a in m.iter().step_by(step) {
        let ea = simd(&p, a, 0).values.to_vec();
        for b in m.iter().step_by(step) {
            let eb = simd(&p, b, 0).values.to_vec();
            pr.tn(2);
            pr.dstates += 1;
            let s = with_values(&p, addv(&ea, &eb, t));
            ensure!(s == addv(a, b, t), "slots of sum {:?}+{:?} = {:?}", a, b, s);
            let s = with_values(&p, negmul(&ea, &eb, t));
            let w: Vec<u64> = a.iter().zip(b).map(|(x, y)| mulmod(*x, *y, t)).collect();
            ensure!(s == w, "slots of product {:?}*{:?} = {:?}", a, b, s);
        }
    }
    Ok(())
}

/// ciphertext side: through encryption, homomorphic operations and Galois keys
fn cipher(c: &(Cfg, Env, usize), pr: &mut Probe) -> Result<(), String> {
    let (cfg, env, level) = c;
    let (n, t) = (cfg.n, cfg.t);
    let level = *level;
    let p = cfg.build();
    env.set(cfg.var);
    let sk = Key::Mixed.sk(&p);
    let vs: Vec<Vec<u64>> = {
        let mut v: Vec<Vec<u64>> = (0..n)
            .map(|i| {
                let mut m = vec![0; n];
                m[i] = t - 1;
                m
            })
            .collect();
        v.push((1..=n as u64).collect());
        v.push(vec![t - 1; n]);
        v.push(stream(n, t, 3));
        v
    };
    let cts: Vec<BfvCipherText> = vs.iter().map(|v| sk.encrypt(&simd(&p, v, level))).collect();
    let rlk = RelinearizationKey::new(&sk, level);
    for (v, ct) in vs.iter().zip(&cts) {
        pr.tn(2);
        pr.dstates += 1;
        same!(decode(sk.decrypt(ct)), *v, "SIMD roundtrip through encryption at level {}", level);
    }
    let had = |a: &[u64], b: &[u64]| -> Vec<u64> { a.iter().zip(b).map(|(x, y)| mulmod(*x, *y, t)).collect() };
    for i in 0..vs.len() {
        for j in 0..vs.len() {
            pr.tn(5);
            pr.dstates += 1;
            let (a, b) = (&vs[i], &vs[j]);
            same!(decode(sk.decrypt(&(&cts[i] + &cts[j]))), addv(a, b, t), "ct+ct slots {} {}", i, j);
            same!(decode(sk.decrypt(&(&cts[i] - &cts[j]))), subv(a, b, t), "ct-ct slots {} {}", i, j);
            same!(decode(sk.decrypt(&(&cts[i] * &simd(&p, b, level)))), had(a, b), "ct*pt slots {} {}", i, j);
            same!(decode(sk.decrypt(&(&cts[i] * &cts[j]))), had(a, b), "ct*ct slots {} {}", i, j);
            same!(
                decode(sk.decrypt(&multiply_with_strategy(&cts[i], &cts[j], &rlk))),
                had(a, b),
                "relinearized slots {} {}",
                i,
                j
            );
        }
    }
    let mut k3 = 1usize;
    for k in 0..=n / 2 {
        let (e, rot): (usize, Option<usize>) = if k == n / 2 { (2 * n - 1, None) } else { (k3, Some(k)) };
        let gk = GaliosKey::new(&sk, &Substitution::new(&p.q_ctxs[level], e), level);
        for (v, ct) in vs.iter().zip(&cts) {
            pr.t();
            pr.dstates += 1;
            let w = match rot {
                Some(k) => rotate(v, k),
                None => swap(v),
            };
            same!(decode(sk.decrypt(&gk.relinearize(ct))), w, "Galois X^{} slots", e);
            pr.outcome(&w);
        }
        k3 = k3 * 3 % (2 * n);
    }
    Ok(())
}

/// degrees used in practice: slot values at the ends of both rows, dense
/// vectors, the rotations by powers of two and the extreme ones
fn plain_large(c: &(Cfg, bool), pr: &mut Probe) -> Result<(), String> {
    let cfg = &c.0;
    let (n, t) = (cfg.n, cfg.t);
    let p = cfg.build();
    let unit = |i: usize| -> Vec<u64> { (0..n).map(|j| if i == j { t - 1 } else { 0 }).collect() };
    let mut vs = vec![
        stream(n, t, 1),
        vec![t - 1; n],
        (1..=n as u64).map(|i| i % t).collect(),
        unit(0),
        unit(n / 2 - 1),
        unit(n / 2),
        unit(n - 1),
    ];
    if c.1 && n <= 512 {
        vs.extend((0..n).map(unit));
    }
    let mut ks: Vec<usize> = vec![0, 3, n / 2 - 1, n / 4 + 1];
    let mut k = 1;
    while k < n / 2 {
        ks.push(k);
        k *= 2;
    }
    for v in &vs {
        let e = simd(&p, v, 0).values.to_vec();
        pr.tn(2);
        pr.dstates += 1;
        ensure!(e.iter().all(|x| *x < t), "encoding not reduced");
        ensure!(simd(&p, v, 0).decode() == *v, "decode(encode(..)) of a vector of {} slots", n);
        for k in &ks {
            let e3 = (0..*k).fold(1usize, |a, _| a * 3 % (2 * n));
            pr.t();
            ensure!(with_values(&p, subst(&e, e3, t)) == rotate(v, *k), "X^(3^{}) does not rotate by {}", k, k);
        }
        pr.t();
        ensure!(with_values(&p, subst(&e, 2 * n - 1, t)) == swap(v), "X^(2N-1) does not swap the rows");
        pr.outcome(&e);
    }
    if n <= 1024 {
        let (a, b) = (stream(n, t, 5), stream(n, t, 6));
        let prod = negmul(&simd(&p, &a, 0).values, &simd(&p, &b, 0).values, t);
        let w: Vec<u64> = a.iter().zip(&b).map(|(x, y)| mulmod(*x, *y, t)).collect();
        pr.t();
        ensure!(with_values(&p, prod) == w, "slots of a product");
    }
    Ok(())
}

fn cipher_large(c: &(Cfg, usize), pr: &mut Probe) -> Result<(), String> {
    let (cfg, level) = c;
    let (n, t) = (cfg.n, cfg.t);
    let level = *level;
    let p = cfg.build();
    Env::Max.set(cfg.var);
    let sk = Key::Mixed.sk(&p);
    let (a, b) = (stream(n, t, 7), stream(n, t, 8));
    let (ca, cb) = (sk.encrypt(&simd(&p, &a, level)), sk.encrypt(&simd(&p, &b, level)));
    let rlk = RelinearizationKey::new(&sk, level);
    let had: Vec<u64> = a.iter().zip(&b).map(|(x, y)| mulmod(*x, *y, t)).collect();
    let d = |c: &BfvCipherText| decode(sk.decrypt(c));
    pr.tn(7);
    pr.dstates += 7;
    ensure!(d(&ca) == a, "SIMD roundtrip through encryption");
    ensure!(d(&(&ca + &cb)) == addv(&a, &b, t), "ct+ct slots");
    ensure!(d(&(&ca - &cb)) == subv(&a, &b, t), "ct-ct slots");
    ensure!(d(&(&ca * &simd(&p, &b, level))) == had, "ct*pt slots");
    ensure!(d(&(&ca * &cb)) == had, "ct*ct slots");
    ensure!(d(&multiply_with_strategy(&ca, &cb, &rlk)) == had, "relinearized slots");
    for k in [1usize, 2, n / 2 - 1] {
        let e3 = (0..k).fold(1usize, |a, _| a * 3 % (2 * n));
        let gk = GaliosKey::new(&sk, &Substitution::new(&p.q_ctxs[level], e3), level);
        pr.t();
        ensure!(d(&gk.relinearize(&ca)) == rotate(&a, k), "Galois rotation by {}", k);
    }
    let gk = GaliosKey::new(&sk, &Substitution::new(&p.q_ctxs[level], 2 * n - 1), level);
    ensure!(d(&gk.relinearize(&ca)) == swap(&a), "Galois row swap");
    Ok(())
}

pub fn run(ex: &Arc<Ex>) {
    let th = ex.thorough;
    let d = th as usize;
    let mut v: Vec<(Cfg, usize)> = vec![];
    for t in [17u64, 97, 113, 193, 241, 257, 337, 353, 1153] {
        v.push((Cfg::bits(8, t, &[62], 10), d));
    }
    v.push((Cfg::bits(8, primes(8, &[61])[0], &[62], 10), d));
    for t in [97u64, 193, 257, 65537] {
        v.push((Cfg::bits(16, t, &[62], 10), d));
    }
    for t in [193u64, 257, 65537] {
        v.push((Cfg::bits(32, t, &[62], 10), d));
    }
    v.push((Cfg::bits(64, 257, &[62], 10), d));
    for bits in [20usize, 30, 32, 33, 40, 50, 60] {
        v.push((Cfg::bits(8, prime_below(bits, 16, 1 << bits).unwrap(), &[62], 10), d));
        v.push((Cfg::bits(16, prime_below(bits, 32, 1 << bits).unwrap(), &[62], 10), d));
    }
    if th {
        for n in [128usize, 256] {
            v.push((Cfg::bits(n, 65537, &[62], 10), 0));
        }
    }
    let large: &[usize] = ex.pick(&[64, 128, 256, 512, 1024, 2048, 4096, 8192, 32768], &[64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768]);
    let mut l = vec![];
    for n in large {
        l.push((Cfg::bits(*n, 786433, &[62], 10), th));
        l.push((Cfg::bits(*n, prime_below(45, 2 * *n as u64, 1 << 45).unwrap(), &[62], 10), th));
    }
    ex.group("plaintext-large", &l, |c| c.0.id(), plain_large);
    let mut l = vec![];
    for n in ex.pick(&[32usize, 128, 1024, 4096][..], &[32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384][..]) {
        for level in 0..2 {
            l.push((Cfg::bits(*n, 65537, &[62, 61, 60], 10), level));
        }
    }
    ex.group("ciphertext-large", &l, |c| format!("{}-l{}", c.0.id(), c.1), cipher_large);
    ex.group("plaintext", &v, |c| c.0.id(), plain);
    let mut w = vec![];
    for cfg in [
        Cfg::bits(8, 97, &[62, 62, 62], 10),
        Cfg::bits(8, 1153, &[50, 60, 55], 3),
        Cfg::bits(16, 65537, &[62, 60, 61], 10),
        Cfg::bits(8, 193, &[33, 40, 47, 54, 61, 62], 10),
        Cfg::bits(8, prime_below(33, 16, 1 << 33).unwrap(), &[62, 55, 50, 62], 16),
    ] {
        for env in ENVS {
            for level in 0..(cfg.moduli.len() - 1).min(if cfg.t > 1 << 20 { 2 } else { 3 }) {
                if cfg.n == 16 && !th && env != Env::Max {
                    continue;
                }
                w.push((cfg.clone(), env, level));
            }
        }
    }
    if th {
        for n in [32usize, 64] {
            for level in 0..2 {
                w.push((Cfg::bits(n, 257, &[62, 62, 62], 10), Env::Max, level));
            }
        }
    }
    ex.group("ciphertext", &w, |c| format!("{}-{:?}-l{}", c.0.id(), c.1, c.2), cipher);
}
