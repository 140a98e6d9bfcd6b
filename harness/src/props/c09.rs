use crate::engine::{Ex, Probe};
use crate::refm::*;
use crate::world::*;
use crate::{ensure, same};
use num_bigint::BigUint;
use onion_pir::verif::*;
use std::sync::Arc;

#[derive(Clone, Debug)]
struct Case {
    cfg: Cfg,
    env: Env,
    key: Key,
    level: usize,
    /// number of different multipliers / messages
    small: bool,
}

fn multipliers(n: usize, t: u64, small: bool) -> Vec<Vec<u64>> {
    let mut v = vec![vec![0; n]];
    for i in 0..n {
        if small && i > 1 && i + 1 < n {
            continue;
        }
        for x in [1, t - 1] {
            let mut m = vec![0; n];
            m[i] = x;
            v.push(m);
        }
    }
    v.push((0..n as u64).map(|i| (i + 1) % t).collect());
    v.push(vec![t - 1; n]);
    v
}

/// RGSW assembled the way the server does it: RLWE encryptions of the gadget
/// multiples of u, second half through an RGSW encryption of the key.
fn assemble(p: &Arc<BfvParameters>, sk: &SecretKey, sk_rgsw: &RgswCt, u: &[u64], level: usize) -> RgswCt {
    let c = p.q_ctxs[level].clone();
    let ms = c.moduli_64.clone();
    let lower: Vec<BfvCipherText> = (0..ms.len())
        .map(|i| {
            let mut e = vec![0; ms.len()];
            e[i] = 1;
            let g = crt(&e, &ms);
            let q = product(&ms);
            let v: Vec<BigUint> = u.iter().map(|x| (&g * *x) % &q).collect();
            sk.encrypt_poly(&poly_ntt_big(&c, &v))
        })
        .collect();
    let upper: Vec<BfvCipherText> = lower
        .iter()
        .map(|ct| ct_of(p, RgswCt::external_product(sk_rgsw, ct), level))
        .collect();
    let k1 = Ksk::try_from_decomposed_rlwes(p, &lower);
    let k0 = Ksk::try_from_decomposed_rlwes(p, &upper);
    RgswCt::try_from_ksks(&k0, &k1)
}

fn case(c: &Case, pr: &mut Probe) -> Result<(), String> {
    let (n, t) = (c.cfg.n, c.cfg.t);
    let p = c.cfg.build();
    c.env.set(c.cfg.var);
    let sk = c.key.sk(&p);
    let cx = p.q_ctxs[c.level].clone();
    let q = c.cfg.q(c.level);
    let lm = c.cfg.level_moduli(c.level);
    let exact = c.env == Env::Zero;
    let ks = ks_bound(&lm, n, c.cfg.var);
    let msgs = multipliers(n, t, c.small);
    let cts: Vec<BfvCipherText> = msgs.iter().map(|m| sk.encrypt(&pt(&p, m, c.level))).collect();
    let skp: Vec<i64> = sk.coeffs.to_vec();
    let sk_rgsw = {
        let mut s = Poly::try_from_vec_i64(&cx, &skp);
        s.change_representation(Representation::Ntt);
        RgswCt::encrypt_poly(&sk, &s)
    };
    let skmax = skp.iter().map(|x| x.unsigned_abs()).max().unwrap().max(1);
    let v2 = 2 * c.cfg.var as u64;
    let nn = n as u64;
    for u in multipliers(n, t, c.small) {
        let ub: Vec<BigUint> = u.iter().map(|x| BigUint::from(*x)).collect();
        let umax = u.iter().max().unwrap().max(&1);
        let direct = RgswCt::encrypt(&sk, &pt(&p, &u, c.level));
        let bypoly = RgswCt::encrypt_poly(&sk, &poly_ntt_u64(&cx, &u));
        let asm = assemble(&p, &sk, &sk_rgsw, &u, c.level);
        pr.tn(3);
        // worst-case noise of a row of each kind, hence of the product
        let row_direct = BigUint::from(v2);
        let row_asm = &ks * 2u32 + BigUint::from(v2 * nn * skmax);
        for (name, rg, row) in [("encrypt", &direct, &row_direct), ("encrypt_poly", &bypoly, &row_direct), ("assembled", &asm, &row_asm)] {
            let gain: BigUint = lm.iter().map(|m| BigUint::from(m - 1) * nn * row * 2u32).sum();
            let prod = &gain + BigUint::from(nn * umax * (v2 + 1)) + nn * umax;
            let budget = &prod * (2 * t) < q;
            for (m, ct) in msgs.iter().zip(&cts) {
                let (c0, c1) = RgswCt::external_product(rg, ct);
                pr.t();
                pr.dstates += 1;
                ensure!(c0.context == cx && c1.context == cx, "context of the product");
                let got = phase(&[c0.clone(), c1.clone()], &skp);
                let want = big_negmul(&phase(&ct.cts, &skp), &ub, &q);
                if exact {
                    ensure!(got == want, "{}: noise-free product {:?} * {:?} has a wrong phase", name, u, m);
                } else if budget {
                    let e = max_err(&got, &want, &q);
                    ensure!(e <= gain, "{}: error {} of {:?} * {:?} exceeds {}", name, e, u, m, gain);
                }
                if budget {
                    let d = sk.decrypt(&ct_of(&p, (c0, c1), c.level)).values.to_vec();
                    let w = negmul(&u, m, t);
                    ensure!(d == w, "{}: {:?} * {:?} at level {} decrypts to {:?}, expected {:?}", name, u, m, c.level, d, w);
                    pr.outcome(&w);
                }
            }
        }
    }
    // a product of products: second external product on the result
    if exact {
        let m0 = &msgs[msgs.len() - 2];
        let ct0 = &cts[msgs.len() - 2];
        for u in multipliers(n, t, true) {
            let a = RgswCt::encrypt(&sk, &pt(&p, &u, c.level));
            let b = assemble(&p, &sk, &sk_rgsw, m0, c.level);
            let x = ct_of(&p, RgswCt::external_product(&a, ct0), c.level);
            let y = ct_of(&p, RgswCt::external_product(&b, &x), c.level);
            pr.tn(2);
            let ub: Vec<BigUint> = u.iter().map(|x| BigUint::from(*x)).collect();
            let mb: Vec<BigUint> = m0.iter().map(|x| BigUint::from(*x)).collect();
            let want = big_negmul(&big_negmul(&phase(&ct0.cts, &skp), &ub, &q), &mb, &q);
            same!(phase(&y.cts, &skp), want, "chained external products");
        }
    }
    Ok(())
}

/// degrees used in practice
fn large(c: &Case, pr: &mut Probe) -> Result<(), String> {
    let (n, t) = (c.cfg.n, c.cfg.t);
    let p = c.cfg.build();
    c.env.set(c.cfg.var);
    let sk = c.key.sk(&p);
    let cx = p.q_ctxs[c.level].clone();
    let sk_rgsw = {
        let mut s = Poly::try_from_vec_i64(&cx, &sk.coeffs);
        s.change_representation(Representation::Ntt);
        RgswCt::encrypt_poly(&sk, &s)
    };
    let mut mono = vec![0; n];
    mono[n - 1] = 1;
    let us = [mono, (0..n).map(|i| (i == 0) as u64).collect(), stream(n, t, 3), vec![0; n]];
    for (i, u) in us.iter().enumerate() {
        let m = stream(n, t, 40 + i as u64);
        let ct = sk.encrypt(&pt(&p, &m, c.level));
        let want = negmul(u, &m, t);
        let direct = RgswCt::encrypt(&sk, &pt(&p, u, c.level));
        let asm = assemble(&p, &sk, &sk_rgsw, u, c.level);
        for (name, rg) in [("encrypt", &direct), ("assembled", &asm)] {
            pr.tn(2);
            pr.dstates += 1;
            let x = ct_of(&p, RgswCt::external_product(rg, &ct), c.level);
            ensure!(sk.decrypt(&x).values.to_vec() == want, "{}: product with multiplier {}", name, i);
        }
        pr.outcome(&want);
    }
    Ok(())
}

pub fn run(ex: &Arc<Ex>) {
    let th = ex.thorough;
    let mut v = vec![];
    for cfg in [
        Cfg::bits(8, 97, &[62, 62, 62], 10),
        Cfg::bits(8, 17, &[50, 60, 55, 62], 3),
        Cfg::bits(8, 1153, &[40, 40, 40, 40, 40], 16),
        Cfg::bits(8, 193, &[62, 20], 1),
        Cfg::bits(8, 113, &[30; 9], 7),
        Cfg::bits(8, 241, &[58, 51, 44, 37, 30], 13),
        Cfg::bits(8, 257, &[25, 31, 37, 43, 49, 55, 61], 5),
        Cfg::bits(8, prime_below(33, 16, 1 << 33).unwrap(), &[62, 62, 62, 62], 10),
        Cfg::bits(16, 65537, &[62, 61, 62], 10),
        Cfg::bits(32, 257, &[62, 62, 62], 10),
    ] {
        for env in ENVS {
            for key in KEYS {
                for level in 0..cfg.moduli.len() {
                    let sel = th
                        || (env == Env::Zero && key == Key::Mixed)
                        || (env == Env::Max && key == Key::MaxAll)
                        || (env == Env::Prng(7) && key == Key::Tern && cfg.n == 8)
                        || (env == Env::Zero && cfg.n == 8 && level == 0);
                    if sel {
                        v.push(Case { cfg: cfg.clone(), env, key, level, small: cfg.n > 8 && !th || cfg.n > 16 });
                    }
                }
            }
        }
    }
    // long chains
    for cfg in [Cfg::bits(8, 113, &[40; 18], 10), Cfg::bits(8, 97, &[62; 21], 16)] {
        for (env, key) in [(Env::Zero, Key::Tern), (Env::Max, Key::MaxAll)] {
            for level in [0, 1, cfg.moduli.len() - 3] {
                v.push(Case { cfg: cfg.clone(), env, key, level, small: true });
            }
        }
    }
    let mut l = vec![];
    for n in ex.pick(&[64usize, 128, 256, 512, 1024, 2048, 4096][..], &[64, 128, 256, 512, 1024, 2048, 4096, 8192][..]) {
        for env in [Env::Zero, Env::Max, Env::Prng(2)] {
            for (sizes, level) in [(&[62usize, 62, 62, 62][..], 0), (&[40, 62, 50, 61, 45, 55, 62], 1)] {
                l.push(Case { cfg: Cfg::bits(*n, 65537, sizes, 10), env, key: Key::Mixed, level, small: true });
            }
        }
    }
    ex.group(
        "external-product-large",
        &l,
        |c| format!("{}-{:?}-{:?}-l{}", c.cfg.id(), c.env, c.key, c.level),
        large,
    );
    ex.group(
        "external-product",
        &v,
        |c| format!("{}-{:?}-{:?}-l{}", c.cfg.id(), c.env, c.key, c.level),
        case,
    );
}
