use crate::engine::{Ex, Probe};
use crate::refm::*;
use crate::world::*;
use crate::ensure;
use num_bigint::BigUint;
use onion_pir::verif::*;
use std::sync::Arc;

#[derive(Clone, Debug)]
struct Case {
    cfg: Cfg,
    env: Env,
    key: Key,
    ct_level: usize,
    ksk_level: usize,
}

/// polynomials over Z_Q given by residues: extremes in every modulus
pub fn inputs(ms: &[u64], n: usize, full: bool) -> Vec<Vec<BigUint>> {
    let q = product(ms);
    let z = BigUint::from(0u32);
    let mut out = vec![vec![z.clone(); n]];
    let mut vals: Vec<BigUint> = vec![BigUint::from(1u32), &q - 1u32, &q >> 1usize];
    for i in 0..ms.len() {
        // residue vectors 0..0,(q_i - 1),0..0 and their complements
        let mut r = vec![0; ms.len()];
        r[i] = ms[i] - 1;
        vals.push(crt(&r, ms));
        let mut r: Vec<u64> = ms.iter().map(|m| m - 1).collect();
        r[i] = 0;
        vals.push(crt(&r, ms));
    }
    for v in &vals {
        for i in 0..n {
            if !full && i != 0 && i != n - 1 && i != n / 2 {
                continue;
            }
            let mut p = vec![z.clone(); n];
            p[i] = v.clone();
            out.push(p);
        }
        out.push(vec![v.clone(); n]);
    }
    for s in 0..3 {
        let parts: Vec<Vec<u64>> = ms.iter().enumerate().map(|(i, m)| stream(n, *m, s * 17 + i as u64)).collect();
        out.push(from_residues(&parts, ms));
    }
    out
}

fn sources(ms: &[u64], n: usize) -> Vec<Vec<BigUint>> {
    let q = product(ms);
    let z = BigUint::from(0u32);
    let mut out = vec![];
    let mut e = vec![z.clone(); n];
    e[0] = BigUint::from(1u32);
    out.push(e.clone());
    e[0] = z.clone();
    e[n - 1] = &q - 1u32;
    out.push(e);
    out.push((0..n).map(|i| big_of_i64(7 - 3 * i as i64, &q)).collect());
    let parts: Vec<Vec<u64>> = ms.iter().enumerate().map(|(i, m)| stream(n, *m, 99 + i as u64)).collect();
    out.push(from_residues(&parts, ms));
    out.push(vec![z; n]);
    out
}

fn case(c: &Case, full: bool, pr: &mut Probe) -> Result<(), String> {
    let n = c.cfg.n;
    let p = c.cfg.build();
    c.env.set(c.cfg.var);
    let sk = c.key.sk(&p);
    let cms = c.cfg.level_moduli(c.ct_level);
    let kms = c.cfg.level_moduli(c.ksk_level);
    let q = product(&cms);
    let bound = ks_bound(&cms, n, c.cfg.var);
    let ct_ctx = p.q_ctxs[c.ct_level].clone();
    let k_ctx = p.q_ctxs[c.ksk_level].clone();
    let ins = inputs(&cms, n, full);
    for f in sources(&kms, n) {
        let from = poly_ntt_big(&k_ctx, &f);
        let ksk = Ksk::new(&sk, &from, c.ct_level, c.ksk_level);
        pr.t();
        for x in &ins {
            let poly = Poly::try_from_bigint(&ct_ctx, x);
            let (b, a) = ksk.key_switch(&poly);
            pr.t();
            pr.dstates += 1;
            ensure!(b.context == ct_ctx && a.context == ct_ctx, "context of the switched pair");
            let got = phase(&[b, a], &sk.coeffs);
            let fq: Vec<BigUint> = f.iter().map(|v| v % &q).collect();
            let want = big_negmul(x, &fq, &q);
            if c.env == Env::Zero {
                ensure!(got == want, "without noise: phase of switched {:?} times source {:?} is {:?}, expected {:?}", x, f, got, want);
            } else {
                let e = max_err(&got, &want, &q);
                ensure!(e <= bound, "error {} of switching {:?} (source {:?}) exceeds {}", e, x, f, bound);
            }
            pr.outcome(&want);
        }
    }
    // plaintext source
    if c.ct_level == c.ksk_level {
        let m: Vec<u64> = (0..n as u64).map(|i| (i + 3) % c.cfg.t).collect();
        let ksk = Ksk::new_with_pt(&sk, &pt(&p, &m, c.ct_level), c.ct_level, c.ksk_level);
        let f = scaled(&m, &q, c.cfg.t);
        for x in ins.iter().step_by(3) {
            let (b, a) = ksk.key_switch(&Poly::try_from_bigint(&ct_ctx, x));
            pr.tn(2);
            let got = phase(&[b, a], &sk.coeffs);
            let want = big_negmul(x, &f, &q);
            let e = max_err(&got, &want, &q);
            let lim = if c.env == Env::Zero { BigUint::from(0u32) } else { bound.clone() };
            ensure!(e <= lim, "plaintext source: error {} exceeds {}", e, lim);
        }
    }
    Ok(())
}

/// degrees used in practice, by residues
fn large(c: &Case, pr: &mut Probe) -> Result<(), String> {
    let n = c.cfg.n;
    let p = c.cfg.build();
    c.env.set(c.cfg.var);
    let sk = c.key.sk(&p);
    let cms = c.cfg.level_moduli(c.ct_level);
    let kms = c.cfg.level_moduli(c.ksk_level);
    let q = product(&cms);
    let bound = ks_bound(&cms, n, c.cfg.var);
    let ct_ctx = p.q_ctxs[c.ct_level].clone();
    let f: Vec<Vec<u64>> = kms.iter().enumerate().map(|(i, m)| stream(n, *m, 7 + i as u64)).collect();
    let ksk = Ksk::new(&sk, &poly_ntt_big(&p.q_ctxs[c.ksk_level], &from_residues(&f, &kms)), c.ct_level, c.ksk_level);
    for kind in 0..3 {
        let x: Vec<Vec<u64>> = cms
            .iter()
            .enumerate()
            .map(|(i, m)| match kind {
                0 => stream(n, *m, 70 + i as u64),
                1 => vec![m - 1; n],
                _ => (0..n).map(|j| if j == n - 1 { m / 2 } else { 0 }).collect(),
            })
            .collect();
        let (b, a) = ksk.key_switch(&Poly::try_from_bigint(&ct_ctx, &from_residues(&x, &cms)));
        pr.t();
        pr.dstates += 1;
        let want: Vec<Vec<u64>> = cms.iter().enumerate().map(|(i, m)| negmul(&x[i], &f[i], *m)).collect();
        let e = max_err(&phase(&[b, a], &sk.coeffs), &from_residues(&want, &cms), &q);
        let lim = if c.env == Env::Zero { BigUint::from(0u32) } else { bound.clone() };
        ensure!(e <= lim, "error {} of switching input {} exceeds {}", e, kind, lim);
        pr.outcome(&want);
    }
    Ok(())
}

pub fn run(ex: &Arc<Ex>) {
    let th = ex.thorough;
    let mut v = vec![];
    for cfg in [
        Cfg::bits(8, 97, &[62, 62, 62], 10),
        Cfg::bits(8, 17, &[20, 30, 62, 45], 1),
        Cfg::bits(8, 97, &[62], 16),
        Cfg::bits(8, 193, &[62, 30], 16),
        Cfg::bits(8, 257, &[25, 26, 27, 28, 29, 30, 31], 3),
        Cfg::bits(8, 113, &[62; 10], 10),
        Cfg::bits(8, 241, &[58, 51, 44, 37, 30], 13),
        Cfg::bits(16, 65537, &[60, 61, 62], 10),
        Cfg::bits(32, 257, &[62, 40], 10),
    ] {
        for env in ENVS {
            for key in KEYS {
                for ct_level in 0..cfg.moduli.len() {
                    for ksk_level in 0..=ct_level {
                        let sel = th
                            || (env == Env::Zero && key == Key::Tern)
                            || (env == Env::Max && key == Key::MaxAll)
                            || (env == Env::Zero && key == Key::Mixed && cfg.n == 8)
                            || (env == Env::Prng(7) && key == Key::Mixed && cfg.n == 8);
                        if sel {
                            v.push(Case { cfg: cfg.clone(), env, key, ct_level, ksk_level });
                        }
                    }
                }
            }
        }
    }
    // every variance, extreme errors: the bound scales with it
    for var in 1..=16 {
        for (env, key) in [(Env::Max, Key::MaxAll), (Env::Min, Key::AltMax), (Env::Alt, Key::Mixed)] {
            v.push(Case { cfg: Cfg::bits(8, 97, &[40, 62, 50], var), env, key, ct_level: 0, ksk_level: 0 });
        }
    }
    // long chains
    for cfg in [Cfg::bits(8, 113, &[40; 18], 10), Cfg::bits(8, 97, &[62; 21], 16)] {
        let k = cfg.moduli.len();
        for (env, key) in [(Env::Zero, Key::Tern), (Env::Max, Key::MaxAll)] {
            for (ct_level, ksk_level) in [(0, 0), (1, 0), (1, 1), (k / 2, 1), (k - 1, 0), (k - 1, k - 1)] {
                if th || ct_level != 1 || ksk_level != 1 {
                    v.push(Case { cfg: cfg.clone(), env, key, ct_level, ksk_level });
                }
            }
        }
    }
    let mut l = vec![];
    for n in ex.pick(&[64usize, 128, 256, 512, 1024, 2048, 4096][..], &[64, 128, 256, 512, 1024, 2048, 4096, 8192][..]) {
        for env in [Env::Zero, Env::Max, Env::Prng(2)] {
            for (sizes, ct_level, ksk_level) in [(&[62usize, 62, 62][..], 0, 0), (&[40, 62, 50, 61, 45], 2, 0), (&[60, 55], 0, 0), (&[62; 8], 0, 0)] {
                l.push(Case { cfg: Cfg::bits(*n, 65537, sizes, 10), env, key: Key::Mixed, ct_level, ksk_level });
            }
        }
    }
    ex.group(
        "key-switch-large",
        &l,
        |c| format!("{}-{:?}-{:?}-ct{}-ksk{}", c.cfg.id(), c.env, c.key, c.ct_level, c.ksk_level),
        large,
    );
    ex.group(
        "key-switch",
        &v,
        |c| format!("{}-{:?}-{:?}-ct{}-ksk{}", c.cfg.id(), c.env, c.key, c.ct_level, c.ksk_level),
        |c, pr| case(c, th || c.cfg.n == 8, pr),
    );
}
