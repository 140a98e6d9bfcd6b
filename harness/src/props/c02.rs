use crate::engine::{Ex, Probe};
use crate::refm::*;
use crate::world::*;
use crate::{ensure, same};
use num_bigint::BigUint;
use onion_pir::verif::*;
use std::sync::Arc;

#[derive(Clone, Debug)]
struct Case {
    cfg: Cfg,
    env: Env,
    key: Key,
    /// slice (k, of) of the vector alphabet, to spread the work
    part: (usize, usize),
}

/// Packed vectors for the scaled form (payload = any residue polynomial).
fn payloads(q: &BigUint, garner: &[BigUint], n: usize) -> Vec<Vec<BigUint>> {
    let mut out = vec![];
    let mut vals: Vec<BigUint> = vec![BigUint::from(1u32), q - 1u32, q >> 1usize];
    vals.extend(garner.iter().cloned());
    for v in &vals {
        for i in 0..n {
            let mut p = vec![BigUint::from(0u32); n];
            p[i] = v.clone();
            out.push(p);
        }
        out.push(vec![v.clone(); n]);
        out.push((0..n).map(|i| (v * (i as u64 + 1)) % q).collect());
    }
    out
}

fn case(c: &Case, thorough: bool, pr: &mut Probe) -> Result<(), String> {
    let (n, t) = (c.cfg.n, c.cfg.t);
    let p = c.cfg.build();
    let q = c.cfg.q(0);
    c.env.set(c.cfg.var);
    let sk = c.key.sk(&p);
    let s = sk.coeffs.to_vec();
    let ev = PirEvaluation::build(&sk, &p);
    let exact = c.env == Env::Zero;
    let bound = BigUint::from(2 * c.cfg.var as u64)
        + BigUint::from(n as u64) * ks_bound(&c.cfg.moduli, n, c.cfg.var);
    let one = |payload: &[BigUint], ct: BfvCipherText, m: Option<&[u64]>, pr: &mut Probe| {
        let out = ev.unpack(ct);
        pr.t();
        same!(out.len(), n, "number of expanded ciphertexts");
        for (j, o) in out.iter().enumerate() {
            pr.dstates += 1;
            same!(o.cts.len(), 2, "components of output {}", j);
            same!(o.level, 0, "level of output {}", j);
            let ph = phase(&o.cts, &s);
            let mut want = vec![BigUint::from(0u32); n];
            want[j] = BigUint::from(0u32);
            want[0] = payload[j].clone();
            if exact {
                ensure!(ph == want, "output {} without noise: phase {:?}, expected constant {:?}", j, ph, want[0]);
            } else {
                let e = max_err(&ph, &want, &q);
                ensure!(e <= bound, "output {}: error {} exceeds {}", j, e, bound);
            }
            if let Some(m) = m {
                let d = sk.decrypt(o).values.to_vec();
                let mut w = vec![0u64; n];
                w[0] = m[j];
                ensure!(d == w, "output {} of packed {:?} decrypts to {:?}", j, m, d);
                pr.outcome(&(n, t, d));
            }
        }
        Ok(())
    };
    // messages with plaintext scaling
    let msgs = messages(n, t, n <= 8 || (thorough && n <= 16));
    for (i, m) in msgs.iter().enumerate() {
        if i % c.part.1 != c.part.0 {
            continue;
        }
        let ct = sk.encrypt(&pt(&p, m, 0));
        one(&scaled(m, &q, t), ct, Some(m), pr)?;
    }
    // scaled payloads (RGSW rows)
    let garner: Vec<BigUint> = (0..c.cfg.moduli.len())
        .map(|i| {
            let mut e = vec![0; c.cfg.moduli.len()];
            e[i] = 1;
            crt(&e, &c.cfg.moduli)
        })
        .collect();
    for (i, v) in payloads(&q, &garner, n).into_iter().enumerate() {
        if i % c.part.1 != c.part.0 {
            continue;
        }
        let ct = sk.encrypt_poly(&poly_ntt_big(&p.q_ctxs[0], &v));
        one(&v, ct, None, pr)?;
    }
    Ok(())
}

pub fn run(ex: &Arc<Ex>) {
    use Env::*;
    let mut v = vec![];
    let cfgs: Vec<(Cfg, usize)> = vec![
        (Cfg::bits(8, 97, &[62, 62, 62], 10), 0),
        (Cfg::bits(8, 17, &[40, 50, 45], 1), 0),
        (Cfg::bits(8, 1153, &[62, 61], 3), 0),
        (Cfg::bits(8, 113, &[30; 8], 7), 0),
        (Cfg::bits(8, 113, &[40; 18], 10), 1),
        (Cfg::bits(8, 193, &[28, 33, 38, 43, 48, 53, 58], 5), 0),
        (Cfg::bits(8, 257, &[58, 51, 44, 37, 30], 13), 0),
        (Cfg::bits(8, prime_below(45, 16, 1 << 45).unwrap(), &[62, 60, 61, 59], 10), 0),
        (Cfg::bits(16, 65537, &[60, 50, 62], 16), 1),
        (Cfg::bits(16, 97, &[31, 40, 29, 50, 36, 45], 7), 1),
        (Cfg::bits(32, 193, &[55, 62], 10), 2),
        (Cfg::bits(64, 1785857, &[62, 62, 62], 10), 3),
    ];
    let th = ex.thorough;
    for (cfg, size) in &cfgs {
        let envs: &[Env] = if th { &ENVS } else { if *size < 2 { &[Zero, Max, Prng(3)] } else { &[Zero, Max] } };
        let keys: &[Key] = if th {
            &KEYS
        } else if *size < 2 {
            &[Key::Tern, Key::MaxAll, Key::Mixed]
        } else {
            &[Key::Mixed]
        };
        for env in envs {
            for key in keys {
                if *size == 3 && !(th && *key == Key::Mixed || *env == Zero) {
                    continue;
                }
                let parts = 1 << (2 * size);
                for k in 0..parts {
                    // the quick tier takes every fourth vector at degree 64
                    if *size == 3 && !th && k % 4 != 0 {
                        continue;
                    }
                    v.push(Case {
                        cfg: cfg.clone(),
                        env: *env,
                        key: *key,
                        part: (k, parts),
                    });
                }
            }
        }
    }
    let big: &[usize] = ex.pick(&[128, 256, 512, 1024, 2048], &[128, 256, 512, 1024, 2048, 4096]);
    for n in big {
        for (env, key, sizes) in [
            (Zero, Key::Tern, &[62usize, 62, 62][..]),
            (Max, Key::Mixed, &[60, 62][..]),
            (Prng(5), Key::MaxAll, &[40, 50, 45, 55][..]),
        ] {
            if *n > 1024 && env != Zero {
                continue;
            }
            v.push(Case {
                cfg: Cfg::bits(*n, 65537, sizes, 10),
                env,
                key,
                part: (0, 1),
            });
        }
    }
    ex.group(
        "expansion",
        &v,
        |c| format!("{}-{:?}-{:?}-{}of{}", c.cfg.id(), c.env, c.key, c.part.0, c.part.1),
        |c, pr| {
            if c.cfg.n >= 128 {
                return big_case(c, pr);
            }
            case(c, th, pr)
        },
    );
}

/// one dense vector at production-like sizes
fn big_case(c: &Case, pr: &mut Probe) -> Result<(), String> {
    let (n, t) = (c.cfg.n, c.cfg.t);
    let p = c.cfg.build();
    c.env.set(c.cfg.var);
    let sk = c.key.sk(&p);
    let ev = PirEvaluation::build(&sk, &p);
    let m: Vec<u64> = (0..n as u64).map(|i| (i * 257 + 5) % t).collect();
    let out = ev.unpack(sk.encrypt(&pt(&p, &m, 0)));
    pr.t();
    same!(out.len(), n, "number of expanded ciphertexts");
    for j in 0..n {
        pr.dstates += 1;
        let mut w = vec![0u64; n];
        w[0] = m[j];
        same!(sk.decrypt(&out[j]).values.to_vec(), w, "output {}", j);
    }
    Ok(())
}
