use crate::engine::{Ex, Probe};
use crate::refm::*;
use crate::world::*;
use crate::{ensure, same};
use num_bigint::{BigInt, BigUint};
use num_traits::{One, Zero};
use onion_pir::verif::*;
use std::sync::Arc;

/// own reading: bit length of the largest centred coefficient of phase - floor(Q*m/t)
fn noise(ph: &[BigUint], m: &[u64], q: &BigUint, t: u64) -> usize {
    max_err(ph, &scaled(m, q, t), q).bits() as usize
}

fn add_signed(x: &BigUint, e: &BigInt, q: &BigUint) -> BigUint {
    let qi = BigInt::from(q.clone());
    let r = (BigInt::from(x.clone()) + e) % &qi;
    ((r + &qi) % &qi).to_biguint().unwrap()
}

#[derive(Clone, Debug)]
struct Case {
    cfg: Cfg,
    key: Key,
    level: usize,
    comps: usize,
    dense: bool,
}

/// magnitudes 0 .. decryption threshold
fn magnitudes(q: &BigUint, t: u64, dense: bool, degree: usize) -> Vec<BigUint> {
    let th: BigUint = (q / t) >> 1usize;
    // the t/Q scaling resolves halves up to a relative 2^-58
    let slack: BigUint = ((q / t) >> 58usize) + 2u32;
    let mut v = vec![BigUint::zero()];
    if th <= slack {
        return v;
    }
    let top = &th - &slack;
    if top < BigUint::from(2000u32) && dense {
        let mut x = BigUint::one();
        while x <= top {
            v.push(x.clone());
            x += 1u32;
        }
        return v;
    }
    let step = match (dense, degree) {
        (true, _) => 1,
        (_, n) if n > 1024 => 29,
        _ if top.bits() > 300 => 11,
        _ => 3,
    };
    for k in (0..top.bits()).step_by(step) {
        let b = BigUint::one() << k;
        v.push(&b - 1u32);
        v.push(b.clone());
        v.push(&b + 1u32);
    }
    let b = BigUint::one() << (top.bits() - 1);
    v.extend([b.clone(), &b - 1u32]);
    v.push(&top >> 1usize);
    v.push(&top - 1u32);
    v.push(top.clone());
    v.retain(|x| *x <= top);
    v.sort();
    v.dedup();
    v
}

fn inject(c: &Case, pr: &mut Probe) -> Result<(), String> {
    let (n, t) = (c.cfg.n, c.cfg.t);
    let p = c.cfg.build();
    let sk = c.key.sk(&p);
    let s = sk.coeffs.to_vec();
    let q = c.cfg.q(c.level);
    let cx = p.q_ctxs[c.level].clone();
    let lm = c.cfg.level_moduli(c.level);
    // masks of all components but the first; contribution to the phase, own arithmetic
    let tail: Vec<Poly> = (1..c.comps)
        .map(|k| {
            let v: Vec<BigUint> = from_residues(&lm.iter().map(|m| stream(n, *m, k as u64 * 13 + m % 101)).collect::<Vec<_>>(), &lm);
            poly_ntt_big(&cx, &v)
        })
        .collect();
    let zero = Poly::zero(&cx, Representation::Ntt);
    let mut all = vec![zero];
    all.extend(tail.iter().cloned());
    let contrib = phase(&all, &s);
    let mut msgs = vec![vec![0; n], vec![t - 1; n], vec![t / 2; n], stream(n, t, 2)];
    let mut mono = vec![0; n];
    mono[n - 1] = t / 2 + 1;
    msgs.push(mono);
    if n >= 1024 {
        msgs.drain(..3);
    }
    let mags = magnitudes(&q, t, c.dense, n);
    let positions: Vec<usize> = if c.dense { (0..n).collect() } else { vec![0, 1, n - 1] };
    for m in &msgs {
        let ideal = scaled(m, &q, t);
        for mag in &mags {
            for sign in [1i32, -1] {
                // single coefficient at every position, all coefficients, mixed
                let mut pats: Vec<Vec<BigInt>> = vec![];
                let e = BigInt::from(mag.clone()) * sign;
                for j in &positions {
                    let mut v = vec![BigInt::zero(); n];
                    v[*j] = e.clone();
                    pats.push(v);
                }
                pats.push(vec![e.clone(); n]);
                pats.push((0..n).map(|j| if j % 2 == 0 { e.clone() } else { -e.clone() }).collect());
                pats.push((0..n).map(|j| &e / BigInt::from(1u64 << (j % 60))).collect());
                // the two signs just apart, either one being the larger
                let less = BigInt::from(if mag.is_zero() { mag.clone() } else { mag - 1u32 }) * sign;
                pats.push((0..n).map(|j| if j == n / 2 { e.clone() } else { -less.clone() }).collect());
                for pat in pats {
                    let ph: Vec<BigUint> = ideal.iter().zip(&pat).map(|(x, e)| add_signed(x, e, &q)).collect();
                    let c0 = big_sub(&ph, &contrib, &q);
                    let mut cts = vec![poly_ntt_big(&cx, &c0)];
                    cts.extend(tail.iter().cloned());
                    let ct = BfvCipherText { params: p.clone(), cts, level: c.level };
                    let d = sk.decrypt(&ct);
                    pr.tn(2);
                    pr.dstates += 1;
                    ensure!(d.values.to_vec() == *m, "{:?} with error {:?} at level {} ({} components) decrypts to {:?}", m, pat, c.level, c.comps, d.values);
                    same!(d.level, c.level, "level");
                    let got = sk.measure_noise(&ct);
                    let want = pat.iter().map(|e| e.magnitude().bits() as usize).max().unwrap();
                    same!(got, want, "noise of {:?} with error {:?} at level {} ({} components)", m, pat, c.level, c.comps);
                    pr.outcome(&got);
                }
                if mag.is_zero() {
                    break;
                }
            }
        }
    }
    Ok(())
}

/// ciphertexts that were computed
fn computed(c: &(Cfg, Env, Key, usize), pr: &mut Probe) -> Result<(), String> {
    let (cfg, env, key, level) = c;
    let (n, t, level) = (cfg.n, cfg.t, *level);
    let p = cfg.build();
    env.set(cfg.var);
    let sk = key.sk(&p);
    let s = sk.coeffs.to_vec();
    let q = cfg.q(level);
    let cx = p.q_ctxs[level].clone();
    let ms = [stream(n, t, 1), vec![t - 1; n], (0..n as u64).map(|i| i % t).collect::<Vec<_>>()];
    let f: Vec<BfvCipherText> = ms.iter().map(|m| sk.encrypt(&pt(&p, m, level))).collect();
    let rlk = RelinearizationKey::new(&sk, level);
    let mut pool: Vec<(String, BfvCipherText)> = vec![];
    for (i, x) in f.iter().enumerate() {
        pool.push((format!("fresh{}", i), x.clone()));
        for (j, y) in f.iter().enumerate() {
            pool.push((format!("{}+{}", i, j), x + y));
            pool.push((format!("{}-{}", i, j), x - y));
            pool.push((format!("{}*{}", i, j), x * y));
            pool.push((format!("relin {}*{}", i, j), multiply_with_strategy(x, y, &rlk)));
            pool.push((format!("{}*{}+{}", i, j, j), &(x * y) + y));
            pool.push((format!("{}-{}*{}", i, i, j), x - &(x * y)));
            pool.push((format!("({}*{})*{}", i, j, i), &(x * y) * x));
        }
        pool.push((format!("{}*pt", i), x * &pt(&p, &ms[1], level)));
        if cfg.moduli.len() > 1 {
            let gk = GaliosKey::new(&sk, &Substitution::new(&cx, 3), level);
            pool.push((format!("galois {}", i), gk.relinearize(x)));
        }
        let rg = RgswCt::encrypt(&sk, &pt(&p, &ms[2], level));
        pool.push((format!("rgsw {}", i), ct_of(&p, RgswCt::external_product(&rg, x), level)));
    }
    for (name, ct) in &pool {
        let ph = phase(&ct.cts, &s);
        // skip what sits on a rounding boundary: the decoded value is not unique there
        let eps: BigUint = ((&q / t) >> 50usize) + 2u32;
        let ambiguous = ph.iter().any(|x| {
            let y: BigUint = x * t;
            let d = (y * 2u32 + &q) % (&q * 2u32);
            let d = d.clone().min(&q * 2u32 - d);
            d < &eps * (4 * t)
        });
        if ambiguous {
            continue;
        }
        let m = ideal_decrypt(&ph, &q, t);
        let want = noise(&ph, &m, &q, t);
        let got = sk.measure_noise(ct);
        pr.t();
        pr.dstates += 1;
        same!(got, want, "noise of {} at level {}", name, level);
        pr.outcome(&got);
    }
    Ok(())
}

pub fn run(ex: &Arc<Ex>) {
    let th = ex.thorough;
    let cfgs = vec![
        Cfg::raw(8, 17, &[97, 113, 193], 2),
        Cfg::bits(8, 17, &[20, 15], 1),
        Cfg::bits(8, 97, &[62, 62, 62], 10),
        Cfg::bits(8, 1153, &[30, 62, 20], 10),
        Cfg::bits(8, primes(8, &[40])[0], &[50, 50], 16),
        Cfg::bits(16, 65537, &[40, 50, 60, 62], 3),
        Cfg::bits(64, 257, &[50, 50], 10),
    ];
    // more shapes: many moduli, one modulus, plaintext moduli of every size
    let mut wide = vec![
        Cfg::bits(8, 97, &[62; 8], 10),
        Cfg::bits(8, 1153, &[30, 40, 50, 60, 62, 20], 5),
        Cfg::bits(8, 17, &[62, 20, 62, 20, 62, 20, 62], 1),
        Cfg::bits(8, 97, &[20; 12], 3),
        Cfg::bits(8, 97, &[62; 16], 2),
        Cfg::bits(8, 17, &[62], 10),
        Cfg::bits(8, 17, &[30], 10),
        Cfg::bits(8, primes(8, &[60])[0], &[62, 62, 62], 10),
        Cfg::bits(128, 257, &[60, 60, 60], 10),
        Cfg::bits(256, 7681, &[50, 55, 60], 10),
        Cfg::bits(1024, 12289, &[60, 60], 10),
    ];
    for b in (5..=58).step_by(if th { 1 } else { 3 }) {
        if b != 6 {
            wide.push(Cfg::bits(8, primes(8, &[b])[0], &[60, 62], 10));
        }
    }
    {
        wide.push(Cfg::bits(4096, 65537, &[60, 60, 60], 10));
    }
    let mut v = vec![];
    for cfg in &cfgs {
        for key in KEYS {
            for level in 0..cfg.moduli.len() {
                for comps in [2, 3] {
                    let sel = th || key == Key::Mixed || (key == Key::MaxAll && level == 0);
                    if sel && !(cfg.n == 64 && key != Key::Mixed) {
                        v.push(Case { cfg: cfg.clone(), key, level, comps, dense: th && cfg.n <= 16 || cfg.moduli[0] < 200 });
                    }
                }
            }
        }
    }
    for cfg in &wide {
        for level in 0..cfg.moduli.len() {
            let (k, last) = (cfg.moduli.len(), cfg.moduli.len() - 1);
            if k > 8 && !th && ![0, 1, k / 2, last].contains(&level) || cfg.n >= 1024 && !th && level > 0 {
                continue;
            }
            for comps in [2, 3] {
                v.push(Case { cfg: cfg.clone(), key: Key::Mixed, level, comps, dense: th && cfg.n <= 16 });
            }
        }
    }
    v.sort_by_key(|c| std::cmp::Reverse(c.cfg.n));
    ex.group("injected", &v, |c| format!("{}-{:?}-l{}-c{}", c.cfg.id(), c.key, c.level, c.comps), inject);
    let mut v = vec![];
    for cfg in cfgs[2..].iter().chain(wide.iter().filter(|c| c.moduli.len() <= 8 && (c.n <= 256 || th))) {
        for env in ENVS {
            for key in KEYS {
                for level in 0..cfg.moduli.len() {
                    if th || (key == Key::Mixed && cfg.n < 64 && (cfg.moduli.len() < 5 || level % 3 == 0)) || key == Key::Tern && env == Env::Max {
                        v.push((cfg.clone(), env, key, level));
                    }
                }
            }
        }
    }
    ex.group("computed", &v, |c| format!("{}-{:?}-{:?}-l{}", c.0.id(), c.1, c.2, c.3), computed);
}
