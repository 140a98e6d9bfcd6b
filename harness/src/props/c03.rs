use crate::engine::{Ex, Probe};
use crate::refm::prime_below;
use crate::world::*;
use crate::{ensure, same};
use onion_pir::verif::*;
use std::sync::Arc;

#[derive(Clone, Debug)]
struct Case {
    cfg: Cfg,
    env: Env,
    key: Key,
    msgs: usize,
}

fn case(c: &Case, pr: &mut Probe) -> Result<(), String> {
    let (n, t) = (c.cfg.n, c.cfg.t);
    let p = c.cfg.build();
    let sk = c.key.sk(&p);
    c.env.set(c.cfg.var);
    // a polynomial given by its leading coefficients only
    if c.msgs == 0 && c.cfg.q(0) > num_bigint::BigUint::from(2 * t) * (2 * c.cfg.var as u64 + 1) {
        for len in 0..n {
            let short = vec![t - 1; len];
            let mut full = short.clone();
            full.resize(n, 0);
            pr.tn(2);
            pr.dstates += 1;
            same!(sk.decrypt(&sk.encrypt(&pt(&p, &short, 0))).values.to_vec(), full, "polynomial with {} coefficients", len);
        }
    }
    let msgs = match c.msgs {
        0 => messages(n, t, n <= 16),
        1 => all_vectors(n, &[0, t - 1]),
        2 => all_vectors(n, &[0, 1, t - 1]),
        // every residue in every position (rotated ramps)
        _ => (0..t)
            .map(|b| (0..n as u64).map(|i| (b + i * (t / 3 + 1)) % t).collect())
            .collect(),
    };
    for level in 0..c.cfg.moduli.len() {
        let q = c.cfg.q(level);
        // worst case fresh noise e plus the rounding of the scaled plaintext
        // must stay below Q/(2t), else nothing is promised
        let e = if c.env == Env::Zero { 0 } else { 2 * c.cfg.var as u64 };
        if q <= num_bigint::BigUint::from(2 * t) * (e + 1) {
            continue;
        }
        let ctx = p.q_ctxs[level].clone();
        for m in &msgs {
            let ptx = pt(&p, m, level);
            ensure!(ptx.decode() == *m, "decoding the encoded polynomial {:?} at level {}: {:?}", m, level, ptx.decode());
            let poly = ptx.to_poly();
            ensure!(poly.context == ctx, "to_poly context at level {}", level);
            let want = scaled(m, &q, t);
            let got = read(&poly);
            ensure!(
                got == want,
                "scaled plaintext of {:?} at level {}: {:?}, expected floor(Q*m/t) = {:?}",
                m,
                level,
                got,
                want
            );
            let ct = sk.encrypt(&ptx);
            pr.tn(3);
            pr.dstates += 1;
            same!(ct.level, level, "ciphertext level");
            same!(ct.cts.len(), 2, "ciphertext components");
            if c.env == Env::Zero {
                ensure!(
                    phase(&ct.cts, &sk.coeffs) == want,
                    "noise-free phase differs from floor(Q*m/t) for {:?} at level {}",
                    m,
                    level
                );
            }
            ensure!(
                read(&sk.decrypt_trial(&ct.cts[0], &ct.cts[1])) == phase(&ct.cts, &sk.coeffs),
                "phase of the encryption of {:?} at level {}",
                m,
                level
            );
            let d = sk.decrypt(&ct);
            same!(d.level, level, "plaintext level");
            ensure!(
                d.values.to_vec() == *m,
                "decrypt(encrypt({:?})) at level {} = {:?}",
                m,
                level,
                d.values
            );
            pr.outcome(&(t, m));
            // a polynomial encrypted directly
            let ct2 = sk.encrypt_poly(&poly);
            pr.tn(2);
            same!(ct2.level, level, "level of encrypt_poly");
            same!(sk.decrypt(&ct2).values.to_vec(), *m, "encrypt_poly at level {}", level);
        }
    }
    Ok(())
}

pub fn cfgs() -> Vec<Cfg> {
    let p62 = primes(8, &[62])[0];
    let p30 = primes(8, &[30])[0];
    vec![
        Cfg::bits(8, 17, &[20], 1),
        Cfg::bits(8, 97, &[62], 10),
        Cfg::bits(8, 97, &[62, 62, 62], 10),
        Cfg::bits(8, 113, &[30, 40, 50, 62], 16),
        Cfg::bits(8, 193, &[62, 50, 40, 30], 3),
        Cfg::bits(8, 1153, &[45, 45], 16),
        Cfg::bits(8, 257, &[62, 62, 62, 62, 62, 62, 62, 62], 10),
        // small first modulus: q_0 barely above t
        Cfg::raw(8, 1009, &[1153, p62], 2),
        Cfg::raw(8, 1009, &[1201, p30, p62], 10),
        Cfg::raw(8, 1153, &[1201, p62, p30], 1),
        Cfg::raw(8, 97, &[113, p30], 1),
        Cfg::raw(8, 17, &[97, 113, 193, 241, 257, 337, 353, 401, 433], 1),
        // large plaintext moduli
        Cfg::raw(8, primes(8, &[40])[0], &[p62, primes(8, &[61])[0]], 10),
        Cfg::raw(8, primes(8, &[59])[0], &[p62, primes(8, &[60])[0], primes(8, &[61])[0]], 4),
        Cfg::bits(16, 65537, &[50, 60, 62], 10),
        Cfg::bits(32, 257, &[33, 44, 55], 10),
        Cfg::bits(64, 1785857, &[62, 62], 10),
    ]
}

pub fn run(ex: &Arc<Ex>) {
    use Env::*;
    let th = ex.thorough;
    let mut v = vec![];
    for (i, cfg) in cfgs().into_iter().enumerate() {
        let envs: Vec<Env> = if th || cfg.n == 8 {
            let mut e = ENVS.to_vec();
            if th {
                e.extend((100..116).map(Prng));
            }
            e
        } else {
            vec![Zero, Max, Prng(2)]
        };
        let keys: Vec<Key> = if th { KEYS.to_vec() } else { vec![KEYS[i % 6], Key::Mixed] };
        for env in envs {
            for key in &keys {
                v.push(Case { cfg: cfg.clone(), env, key: *key, msgs: 0 });
            }
        }
        if cfg.n == 8 {
            v.push(Case {
                cfg: cfg.clone(),
                env: Max,
                key: Key::Tern,
                msgs: if th { 2 } else { 1 },
            });
            if cfg.t < 2000 {
                for env in [Max, Min] {
                    v.push(Case { cfg: cfg.clone(), env, key: Key::MaxAll, msgs: 3 });
                }
            }
        }
    }
    // every variance, with its own extreme errors and keys
    for var in 1..=16usize {
        for env in [Max, Min, Alt, Prng(9)] {
            v.push(Case {
                cfg: Cfg::bits(8, 97, &[35, 40, 62], var),
                env,
                key: Key::AltMax,
                msgs: 1,
            });
        }
    }
    // every plaintext size from 5 bits up, next to moduli barely above it and full-size ones
    for bits in 5..=60usize {
        let t = match prime_below(bits, 16, 1 << bits) {
            Some(t) => t,
            None => continue,
        };
        for sizes in [[62usize, 61, 62], [bits.max(8) + 1, 61, 62], [62, 61, bits.max(8) + 2]] {
            for env in [Zero, Max] {
                v.push(Case {
                    cfg: Cfg::bits(8, t, &sizes, 4),
                    env,
                    key: Key::Mixed,
                    msgs: 0,
                });
            }
        }
    }
    // chains of up to 16 moduli: many levels
    for k in [5usize, 6, 7, 10, 12, 16] {
        let sizes: Vec<usize> = (0..k).map(|i| [30, 62, 45, 55, 37][i % 5]).collect();
        for env in [Zero, Max, Prng(k as u64)] {
            v.push(Case {
                cfg: Cfg::bits(8, 193, &sizes, 10),
                env,
                key: Key::MaxAll,
                msgs: 0,
            });
        }
    }
    let ns: &[usize] = ex.pick(&[128, 256, 512, 1024, 2048, 4096, 8192, 32768], &[128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768]);
    for n in ns {
        for env in [Max, Prng(1)] {
            v.push(Case {
                cfg: Cfg::bits(*n, 65537, &[62, 55, 50], 10),
                env,
                key: Key::Mixed,
                msgs: 3 + 9,
            });
            v.push(Case {
                cfg: Cfg::bits(*n, 786433, &[40, 62, 45, 61, 50], 16),
                env,
                key: Key::MaxAll,
                msgs: 3 + 9,
            });
        }
    }
    ex.group(
        "roundtrip",
        &v,
        |c| format!("{}-{:?}-{:?}-m{}", c.cfg.id(), c.env, c.key, c.msgs),
        |c, pr| {
            if c.msgs > 3 {
                return big(c, pr);
            }
            case(c, pr)
        },
    );
}

fn big(c: &Case, pr: &mut Probe) -> Result<(), String> {
    let (n, t) = (c.cfg.n, c.cfg.t);
    let p = c.cfg.build();
    let sk = c.key.sk(&p);
    c.env.set(c.cfg.var);
    let msgs = [
        stream(n, t, 0),
        stream(n, t, 1),
        vec![t - 1; n],
        (0..n as u64).map(|i| i % t).collect(),
        (0..n).map(|i| ((i == n - 1) as u64) * (t / 2 + 1)).collect(),
    ];
    for level in 0..c.cfg.moduli.len() {
        let q = c.cfg.q(level);
        for (k, m) in msgs.iter().enumerate() {
            let ptx = pt(&p, m, level);
            ensure!(read(&ptx.to_poly()) == scaled(m, &q, t), "scaled plaintext of message {} at level {}", k, level);
            let ct = sk.encrypt(&ptx);
            pr.tn(3);
            pr.dstates += 1;
            same!(ct.level, level, "ciphertext level");
            let d = sk.decrypt(&ct);
            same!(d.level, level, "plaintext level");
            ensure!(d.values.to_vec() == *m, "message {} at level {}", k, level);
        }
    }
    Ok(())
}
