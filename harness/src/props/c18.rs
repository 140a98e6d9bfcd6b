use crate::engine::{Ex, Probe};
use crate::refm::*;
use crate::world::stream;
use crate::{ensure, same};
use onion_pir::verif::*;
use rand::ctl::{self, Mode, Pattern};
use std::collections::HashSet;
use std::sync::Arc;

/// Secret key matrix, read off through decryption alone: decrypt(e_i, b) is
/// decrypt(0, b) shifted by the key entry.
pub fn recover(sk: &PvwSk, p: &PvwParams) -> Result<Vec<Vec<u64>>, String> {
    let q = p.q;
    let dec = |a: Vec<u64>, b: u64| sk.decrypt(p, &PvwCiphertext { a, b: vec![b; p.ell] });
    let base: Vec<Vec<u64>> = (0..q).map(|b| dec(vec![0; p.n], b)).collect();
    // the largest b decrypting to 1
    let edge = |f: &dyn Fn(u64) -> u64| -> Option<u64> {
        // unique b with f(b)=1, f(b+1)=0
        let mut r = None;
        for b in 0..q {
            if f(b) == 1 && f((b + 1) % q) == 0 {
                if r.is_some() {
                    return None;
                }
                r = Some(b);
            }
        }
        r
    };
    let mut s = vec![vec![0; p.n]; p.ell];
    let e0: Vec<u64> = (0..p.ell)
        .map(|l| edge(&|b| base[b as usize][l]).ok_or(format!("slot {} does not decode to one interval of ones", l)))
        .collect::<Result<_, _>>()?;
    for i in 0..p.n {
        let mut a = vec![0; p.n];
        a[i] = 1;
        let tab: Vec<Vec<u64>> = (0..q).map(|b| dec(a.clone(), b)).collect();
        for l in 0..p.ell {
            let e = edge(&|b| tab[b as usize][l]).ok_or(format!("slot {} does not decode to one interval of ones", l))?;
            s[l][i] = (e + q - e0[l]) % q;
        }
    }
    Ok(s)
}

/// what a value of the phase has to decode to; None at the thresholds
fn spec(x: u64, q: u64) -> Option<u64> {
    let d0 = x.min(q - x);
    let h = q / 2;
    let d1 = (x + q - h) % q;
    let d1 = d1.min(q - d1);
    if 2 * d0 < h {
        Some(0)
    } else if 2 * d1 < h {
        Some(1)
    } else {
        None
    }
}

/// decryption as a function: every mask and payload of a small ring
fn decoding(c: &(usize, usize, u64, u64), pr: &mut Probe) -> Result<(), String> {
    let (n, ell, q, seed) = *c;
    let p = PvwParams { n, ell, m: 1, q, variance: 1 };
    ctl::set(Mode::Prng, seed);
    let sk = PvwSk::gen_sk(&p);
    let s = recover(&sk, &p)?;
    let mut masks: Vec<Vec<u64>> = vec![vec![]];
    if (q as f64).powi(n as i32) * q as f64 <= 3e6 {
        for _ in 0..n {
            masks = masks.iter().flat_map(|m| (0..q).map(move |x| { let mut w = m.clone(); w.push(x); w })).collect();
        }
    } else {
        masks = vec![vec![0; n], vec![1; n], vec![q - 1; n], vec![q / 2; n]];
        for i in 0..n {
            let mut m = vec![0; n];
            m[i] = q - 1;
            masks.push(m);
        }
        for k in 0..12 {
            masks.push(stream(n, q, k));
        }
    }
    for a in &masks {
        for b in 0..q {
            // slots see different payloads
            let bs: Vec<u64> = (0..ell as u64).map(|l| (b + l * (q / 3)) % q).collect();
            let d = sk.decrypt(&p, &PvwCiphertext { a: a.clone(), b: bs.clone() });
            pr.t();
            pr.dstates += 1;
            same!(d.len(), ell, "decrypted slots");
            for l in 0..ell {
                let mut x = bs[l];
                for i in 0..n {
                    x = (x + q - mulmod(s[l][i], a[i], q)) % q;
                }
                if let Some(w) = spec(x, q) {
                    ensure!(d[l] == w, "phase {} of slot {} (q={}) decodes to {}", x, l, q, d[l]);
                }
                ensure!(d[l] < 2, "decoded value {}", d[l]);
            }
        }
    }
    Ok(())
}

fn messages(ell: usize) -> Vec<Vec<u64>> {
    (0..1u64 << ell).map(|x| (0..ell).map(|i| (x >> i) & 1).collect()).collect()
}

#[derive(Clone, Debug)]
struct RtCase {
    n: usize,
    ell: usize,
    m: usize,
    q: u64,
    variance: usize,
    /// environment of key generation
    env: usize,
}

fn pk_env(c: &RtCase) {
    let pat = |p| Mode::Pattern { variance: c.variance, pattern: p };
    match c.env {
        0 => ctl::set(Mode::Prng, 3),
        1 => ctl::set(pat(Pattern::Max), 3),
        2 => ctl::set(pat(Pattern::Min), 3),
        3 => ctl::set(pat(Pattern::Zero), 3),
        _ => ctl::set(pat(Pattern::Alt), 3),
    }
}

/// every message under every row selection
fn round_trip(c: &RtCase, pr: &mut Probe) -> Result<(), String> {
    let p = PvwParams { n: c.n, ell: c.ell, m: c.m, q: c.q, variance: c.variance };
    let q = c.q;
    assert!(2 * ((c.m * 2 * c.variance) as u64) < q / 2, "harness: noise budget");
    ctl::set(Mode::Prng, 17 + c.env as u64);
    let sk = PvwSk::gen_sk(&p);
    let s = if q < 1 << 17 && c.n <= 4 { Some(recover(&sk, &p)?) } else { None };
    pk_env(c);
    let pk = sk.gen_pk(&p);
    pr.tn(2);
    let mut sels: Vec<Vec<u64>> = vec![];
    let hi = [0u64, u64::MAX];
    if c.m <= 6 {
        for x in 0..1u64 << c.m {
            sels.push((0..c.m).map(|i| hi[((x >> i) & 1) as usize]).collect());
        }
    } else {
        sels.push(vec![u64::MAX; c.m]);
        sels.push(vec![0; c.m]);
        for i in 0..c.m.min(64) {
            let mut w = vec![0; c.m];
            w[i] = u64::MAX;
            sels.push(w);
        }
        for k in 0..8 {
            sels.push(stream(c.m, 2, k).iter().map(|b| hi[*b as usize]).collect());
        }
    }
    let bound = (c.m * 2 * c.variance) as u64;
    let mut distinct = HashSet::new();
    let mut worst = 0;
    for m in messages(c.ell) {
        for (k, w) in sels.iter().enumerate() {
            ctl::set(Mode::Script { words: w.clone(), default: u64::MAX }, 1);
            let ct = pk.encrypt(&p, m.clone());
            pr.t();
            pr.dstates += 1;
            same!((ct.a.len(), ct.b.len()), (c.n, c.ell), "shape of the ciphertext");
            ensure!(ct.a.iter().chain(&ct.b).all(|x| *x < q), "non-canonical ciphertext");
            let d = sk.decrypt(&p, &ct);
            ensure!(d == m, "{:?} decrypts to {:?} with selection {}", m, d, k);
            pr.outcome(&(m.clone(), ct.b.clone()));
            if let Some(s) = &s {
                for l in 0..c.ell {
                    let mut x = (ct.b[l] + q - (q / 2) * m[l] % q) % q;
                    for i in 0..c.n {
                        x = (x + q - mulmod(s[l][i], ct.a[i], q)) % q;
                    }
                    let e = x.min(q - x);
                    worst = worst.max(e);
                    ensure!(e <= bound, "error {} of slot {} exceeds {}", e, l, bound);
                    ensure!(c.env != 3 || e == 0, "error {} although every sampled error is zero", e);
                }
            }
            distinct.insert((ct.a, ct.b));
        }
        // ordinary randomness
        for seed in 0..4 {
            ctl::set(Mode::Prng, seed + 1000);
            let ct = pk.encrypt(&p, m.clone());
            pr.t();
            same!(sk.decrypt(&p, &ct), m, "decryption");
            distinct.insert((ct.a, ct.b));
        }
    }
    if c.env == 0 {
        ensure!(distinct.len() > messages(c.ell).len(), "encryption is not randomized");
    }
    pr.outcome(&worst);
    Ok(())
}

/// several keys: the right key decrypts, whatever else exists
fn default_params(seed: &u64, pr: &mut Probe) -> Result<(), String> {
    let p = PvwParams::default();
    ctl::set(Mode::Prng, *seed);
    let sk = PvwSk::gen_sk(&p);
    let pk = sk.gen_pk(&p);
    pr.tn(2);
    for m in messages(p.ell) {
        let ct = pk.encrypt(&p, m.clone());
        pr.tn(2);
        pr.dstates += 1;
        same!((ct.a.len(), ct.b.len()), (p.n, p.ell), "shape of the ciphertext");
        same!(sk.decrypt(&p, &ct), m, "default parameters");
    }
    Ok(())
}

pub fn run(ex: &Arc<Ex>) {
    let th = ex.thorough;
    let mut v = vec![];
    // every modulus (prime or not, all residues mod 4) up to a bound
    for q in 2..=ex.pick(160u64, 1200) {
        v.push((1, 2, q, 9));
    }
    for q in [17u64, 19, 23, 29, 31, 97, 103, 113] {
        for (n, ell) in [(1, 1), (1, 3), (2, 1), (2, 2)] {
            for seed in 1..=ex.pick(2, 4) {
                v.push((n, ell, q, seed));
            }
        }
    }
    for q in [251u64, 257, 1024, 1151, 1153, 7681, 7683] {
        v.push((1, 1, q, 5));
        v.push((4, 2, q, 6));
    }
    if th {
        v.push((3, 2, 65537, 7));
        v.push((450, 4, 257, 8));
    }
    ex.group("decoding", &v, |c| format!("{:?}", c), decoding);

    // round trips at the edge of the noise budget
    let mut v = vec![];
    for q in [9u64, 10, 11, 12, 13, 17, 19, 23, 29, 31, 34, 97, 99, 103, 257, 263, 1024, 1151, 1153, 12289, 65537, 65539, 786433, 4611686018427387847] {
        for variance in 1..=16usize {
            // 2 * (m * 2 * variance) < floor(q/2)
            let mmax = (q / 2).saturating_sub(1) / (4 * variance as u64);
            if mmax == 0 {
                continue;
            }
            let mut ms = vec![1, 2, 3, 5];
            ms.push(mmax.min(ex.pick(60, 400)));
            ms.retain(|m| *m <= mmax);
            ms.sort();
            ms.dedup();
            for m in ms {
                for (n, ell) in [(1usize, 1usize), (2, 3), (5, 2)] {
                    if q > 13000 && n < 5 && !th {
                        continue;
                    }
                    if !th && ![1, 2, 3, 8, 10, 16].contains(&variance) {
                        continue;
                    }
                    for env in 0..5 {
                        v.push(RtCase { n, ell, m: m as usize, q, variance, env });
                    }
                }
            }
        }
    }
    ex.group("round-trip", &v, |c| format!("{:?}", c), round_trip);
    let seeds: Vec<u64> = (1..=ex.pick(4, 16)).collect();
    ex.group("default-params", &seeds, |s| format!("seed{}", s), default_params);
}
