use crate::engine::{guard, Ex, Probe};
use crate::refm::*;
use crate::world::*;
use crate::{ensure, same};
use num_bigint::BigUint;
use onion_pir::verif::*;
use std::sync::Arc;

fn polys(c: &Arc<RqContext>, n: usize) -> Vec<Vec<BigUint>> {
    let q = product(&c.moduli_64);
    let z = BigUint::from(0u32);
    let mut out = vec![];
    for i in 0..n {
        let mut v = vec![z.clone(); n];
        v[i] = &q - 1u32 - i as u64;
        out.push(v);
    }
    out.push((0..n).map(|i| BigUint::from(i as u64 + 1)).collect());
    out.push((0..n).map(|i| &q - 1u32 - i as u64).collect());
    out.push(stream(n, u64::MAX, 5).iter().map(|x| (BigUint::from(*x) * *x) % &q).collect());
    out
}

/// exponent alphabet: every odd class, in several representatives
fn exps(n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).map(|i| 2 * i + 1).collect();
    v.extend((0..n).map(|i| 2 * n + 2 * i + 1));
    v.extend([2 * n * 5 + 3, 2 * n * 1000 + 2 * n - 1, (1usize << 40) + 5, (1 << 32) + 3, usize::MAX, usize::MAX - 2 * n + 4 - 2, (1 << 63) + 1]);
    v
}

fn ring(c: &(Vec<u64>, usize), pr: &mut Probe) -> Result<(), String> {
    let (ms, n) = c;
    let n = *n;
    let cx = ctx(ms, n);
    let q = product(ms);
    let ps = polys(&cx, n);
    for k in exps(n) {
        let sub = Substitution::new(&cx, k);
        for v in &ps {
            let p = Poly::try_from_bigint(&cx, v);
            let want = big_subst(v, k, &q);
            let r = p.substitute(&sub);
            pr.tn(2);
            pr.dstates += 1;
            same!(r.representation, Representation::PowerBasis, "representation of the image");
            ensure!(read(&r) == want, "X->X^{} on {:?}: {:?}, expected {:?}", k, v, read(&r), want);
            let mut pn = p.clone();
            pn.change_representation(Representation::Ntt);
            let rn = pn.substitute(&sub);
            same!(rn.representation, Representation::Ntt, "representation of the image");
            let got = read(&rn);
            ensure!(got == want, "X->X^{} in evaluation form on {:?}: {:?}, expected {:?}", k, v, got, want);
            ensure!(rn.context == cx && r.context == cx, "context of the image");
            pr.outcome(&want);
        }
    }
    // composition
    if n <= 16 {
        let v = ps.last().unwrap();
        let mut p = Poly::try_from_bigint(&cx, v);
        for rep in 0..2 {
            if rep == 1 {
                p.change_representation(Representation::Ntt);
            }
            for a in (1..2 * n).step_by(2) {
                let pa = p.substitute(&Substitution::new(&cx, a));
                for b in (1..2 * n).step_by(2) {
                    let pab = pa.substitute(&Substitution::new(&cx, b));
                    let pc = p.substitute(&Substitution::new(&cx, a * b % (2 * n)));
                    pr.tn(2);
                    ensure!(pab == pc, "X^{} then X^{} differs from X^{}", a, b, a * b);
                }
            }
        }
    }
    for k in 0..4 * n {
        if k % 2 == 0 {
            ensure!(guard(|| Substitution::new(&cx, k)).is_err(), "even exponent {} accepted (degree {})", k, n);
            pr.rejected += 1;
            pr.t();
        }
    }
    Ok(())
}

/// degrees used in practice: every exponent class of small index, the
/// expansion's N/2^i + 1, inverses and representatives above 2N
fn ring_large(c: &(Vec<u64>, usize, usize), pr: &mut Probe) -> Result<(), String> {
    let (ms, n) = (&c.0, c.1);
    let cx = ctx(ms, n);
    let q = product(ms);
    let z = BigUint::from(0u32);
    let mut ps: Vec<Vec<BigUint>> = vec![stream(n, u64::MAX, 5).iter().map(|x| (BigUint::from(*x) * *x) % &q).collect()];
    for i in [0, 1, n / 2, n - 1] {
        ps.push((0..n).map(|j| if j == i { &q - 1u32 } else { z.clone() }).collect());
    }
    let mut ks = vec![1, 3, 5, 7, 9, 25, 27, n - 1, n + 1, 2 * n - 1, 2 * n - 3, 2 * n + 1, 2 * n + 3, 4 * n - 1, (1 << 40) + 5];
    let mut k = n;
    while k > 1 {
        ks.push(k + 1);
        ks.push(2 * n - k + 1);
        k /= 2;
    }
    if c.2 > 0 {
        ks.extend((0..n).map(|i| 2 * i + 1));
    }
    let polys: Vec<(Poly, Poly)> = ps
        .iter()
        .map(|v| {
            let p = Poly::try_from_bigint(&cx, v);
            let mut pn = p.clone();
            pn.change_representation(Representation::Ntt);
            (p, pn)
        })
        .collect();
    for k in ks {
        let sub = Substitution::new(&cx, k);
        for (i, v) in ps.iter().enumerate() {
            let (p, pn) = &polys[i];
            let want = big_subst(v, k, &q);
            pr.tn(2);
            pr.dstates += 1;
            ensure!(read(&p.substitute(&sub)) == want, "X->X^{} on polynomial {} of degree {}", k, i, n);
            ensure!(read(&pn.substitute(&sub)) == want, "X->X^{} in evaluation form on polynomial {} of degree {}", k, i, n);
        }
    }
    Ok(())
}

fn galois_large(c: &G, pr: &mut Probe) -> Result<(), String> {
    let (n, t) = (c.cfg.n, c.cfg.t);
    let p = c.cfg.build();
    c.env.set(c.cfg.var);
    let sk = c.key.sk(&p);
    let ms = [stream(n, t, 2), vec![t - 1; n]];
    for k in [3usize, n + 1, n / 2 + 1, 2 * n - 1, 2 * n + 5] {
        let gk = GaliosKey::new(&sk, &Substitution::new(&p.q_ctxs[c.level], k), c.level);
        for (i, m) in ms.iter().enumerate() {
            let r = gk.relinearize(&sk.encrypt(&pt(&p, m, c.level)));
            pr.tn(2);
            pr.dstates += 1;
            same!(r.level, c.level, "level after Galois");
            ensure!(sk.decrypt(&r).values.to_vec() == subst(m, k, t), "Galois X^{} at level {} on message {}", k, c.level, i);
        }
    }
    Ok(())
}

#[derive(Clone, Debug)]
struct G {
    cfg: Cfg,
    env: Env,
    key: Key,
    level: usize,
}

fn galois(c: &G, pr: &mut Probe) -> Result<(), String> {
    let (n, t) = (c.cfg.n, c.cfg.t);
    let p = c.cfg.build();
    c.env.set(c.cfg.var);
    let sk = c.key.sk(&p);
    let q = c.cfg.q(c.level);
    let lm = c.cfg.level_moduli(c.level);
    let bound = ks_bound(&lm, n, c.cfg.var);
    // decryption is only promised while switching noise + fresh noise fits
    let budget = (&bound + 2 * c.cfg.var as u64 + 1u32) * (2 * t) < q;
    let mut ms: Vec<Vec<u64>> = (0..n)
        .map(|i| {
            let mut m = vec![0; n];
            m[i] = t - 1;
            m
        })
        .collect();
    ms.push((0..n as u64).map(|i| (i + 1) % t).collect());
    ms.push(stream(n, t, 2));
    let cts: Vec<BfvCipherText> = ms.iter().map(|m| sk.encrypt(&pt(&p, m, c.level))).collect();
    for k in exps(n).into_iter().take(if n > 16 { n } else { 2 * n }) {
        let gk = GaliosKey::new(&sk, &Substitution::new(&p.q_ctxs[c.level], k), c.level);
        for (m, ct) in ms.iter().zip(&cts) {
            let r = gk.relinearize(ct);
            pr.t();
            pr.dstates += 1;
            same!(r.level, c.level, "level after Galois");
            same!(r.cts.len(), 2, "components after Galois");
            let want = big_subst(&phase(&ct.cts, &sk.coeffs), k, &q);
            let got = phase(&r.cts, &sk.coeffs);
            if c.env == Env::Zero {
                ensure!(got == want, "noise-free Galois X^{} at level {} on {:?}: phase differs", k, c.level, m);
            } else if budget {
                let e = max_err(&got, &want, &q);
                ensure!(e <= bound, "Galois X^{} at level {}: error {} exceeds {}", k, c.level, e, bound);
            }
            if budget || c.env == Env::Zero {
                let d = sk.decrypt(&r).values.to_vec();
                ensure!(d == subst(m, k, t), "Galois X^{} at level {} on {:?} decrypts to {:?}", k, c.level, m, d);
                pr.outcome(&d);
            }
        }
    }
    Ok(())
}

pub fn run(ex: &Arc<Ex>) {
    let th = ex.thorough;
    let mut v: Vec<(Vec<u64>, usize)> = vec![
        (vec![17], 8),
        (vec![97, 113], 8),
        (primes(8, &[62, 62, 62]), 8),
        (primes(8, &[20, 40, 62]), 8),
        (primes(8, &[62; 9]), 8),
        (primes(8, &[62, 50, 40, 30, 20, 15]), 8),
        (primes(16, &[62, 30]), 16),
        (primes(16, &[12, 31, 32, 33, 61]), 16),
        (primes(32, &[62, 61]), 32),
        (primes(64, &[62]), 64),
    ];
    if th {
        v.push((primes(128, &[62, 50]), 128));
        v.push((primes(256, &[62]), 256));
    }
    let mut l = vec![];
    for n in ex.pick(&[128usize, 256, 512, 1024, 2048, 4096, 8192, 32768][..], &[128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536][..]) {
        l.push((primes(*n, &[62, 50]), *n, (th && *n <= 1024) as usize));
        if th || *n <= 8192 {
            l.push((primes(*n, &[30, 62, 61, 45, 55]), *n, 0));
        }
    }
    ex.group("ring-large", &l, |c| format!("n{}-{:?}", c.1, c.0), ring_large);
    let mut l = vec![];
    for n in ex.pick(&[128usize, 512, 1024, 4096][..], &[128, 256, 512, 1024, 2048, 4096, 8192, 16384][..]) {
        for (env, key, level) in [(Env::Max, Key::Mixed, 0), (Env::Prng(4), Key::MaxAll, 1)] {
            l.push(G { cfg: Cfg::bits(*n, 786433, &[60, 62, 50], 10), env, key, level });
            l.push(G { cfg: Cfg::bits(*n, 65537, &[40, 62, 45, 55, 50, 61], 3), env, key, level });
        }
    }
    ex.group("galois-large", &l, |c| format!("{}-{:?}-{:?}-l{}", c.cfg.id(), c.env, c.key, c.level), galois_large);
    ex.group("ring", &v, |c| format!("n{}-{:?}", c.1, c.0), ring);
    let mut g = vec![];
    for cfg in [
        Cfg::bits(8, 97, &[62, 62, 62], 10),
        Cfg::bits(8, 17, &[40, 45, 50], 1),
        Cfg::bits(8, 1153, &[62, 50, 62, 50], 16),
        Cfg::bits(8, 113, &[30; 8], 7),
        Cfg::bits(8, 97, &[45; 18], 10),
        Cfg::bits(8, 193, &[28, 33, 38, 43, 48, 53, 58], 5),
        Cfg::bits(8, 257, &[58, 51, 44, 37, 30], 13),
        Cfg::bits(8, prime_below(40, 16, 1 << 40).unwrap(), &[62, 61, 60], 2),
        Cfg::bits(16, 65537, &[62, 61], 10),
        Cfg::bits(32, 257, &[62, 62], 10),
    ] {
        for env in ENVS {
            for key in KEYS {
                for level in 0..cfg.moduli.len() {
                    let sel = th || cfg.n == 8 && (key == Key::Mixed || env == Env::Zero) || cfg.n > 8 && key == Key::Mixed && env == Env::Zero || cfg.n == 16 && env == Env::Max && key == Key::MaxAll;
                    if sel {
                        g.push(G { cfg: cfg.clone(), env, key, level });
                    }
                }
            }
        }
    }
    ex.group("galois", &g, |c| format!("{}-{:?}-{:?}-l{}", c.cfg.id(), c.env, c.key, c.level), galois);
}
