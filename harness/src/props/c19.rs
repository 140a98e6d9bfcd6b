use crate::engine::{guard, Ex, Probe};
use crate::refm::*;
use crate::world::*;
use crate::{ensure, same};
use num_bigint::BigUint;
use onion_pir::verif::*;
use std::collections::HashMap;
use std::sync::Arc;

/// number of primes = 1 mod 2n of `bits` bits, counted up to `cap`
fn count(bits: usize, n: usize, cap: usize) -> usize {
    let mut b = 1u64 << bits;
    let mut c = 0;
    while c < cap {
        match prime_below(bits, 2 * n as u64, b) {
            Some(p) => {
                c += 1;
                b = p;
            }
            None => break,
        }
    }
    c
}

fn generate(c: &(usize, Vec<usize>), pr: &mut Probe) -> Result<(), String> {
    let (n, sizes) = c;
    let got = BfvParameters::generate_moduli(sizes, *n);
    pr.t();
    pr.dstates += 1;
    let mut need: HashMap<usize, usize> = HashMap::new();
    sizes.iter().for_each(|s| *need.entry(*s).or_default() += 1);
    let possible = need.iter().all(|(s, k)| count(*s, *n, *k) >= *k);
    match &got {
        None => ensure!(!possible, "degree {} sizes {:?}: no moduli although there are enough primes", n, sizes),
        Some(ms) => {
            ensure!(possible, "degree {} sizes {:?}: {:?}", n, sizes, ms);
            same!(ms.len(), sizes.len(), "degree {} sizes {:?}: number of moduli", n, sizes);
            for (m, s) in ms.iter().zip(sizes) {
                ensure!(is_prime_ref(*m), "degree {} sizes {:?}: {} is not prime", n, sizes, m);
                ensure!((64 - m.leading_zeros()) as usize == *s, "degree {} sizes {:?}: {} does not have {} bits", n, sizes, m, s);
                ensure!(m % (2 * *n as u64) == 1, "degree {} sizes {:?}: {} is not 1 mod 2N", n, sizes, m);
            }
            for i in 0..ms.len() {
                ensure!(!ms[..i].contains(&ms[i]), "degree {} sizes {:?}: {} twice", n, sizes, ms[i]);
            }
        }
    }
    pr.outcome(&got);
    Ok(())
}

fn levels(c: &Cfg, pr: &mut Probe) -> Result<(), String> {
    let p = c.build();
    check_params(&p, c, pr)
}

fn check_params(p: &Arc<BfvParameters>, c: &Cfg, pr: &mut Probe) -> Result<(), String> {
    let k = c.moduli.len();
    let (n, t) = (c.n, c.t);
    pr.t();
    pr.dstates += 1;
    same!(p.degree, n, "degree");
    same!(p.plaintext_modulus_u64, t, "plaintext modulus");
    same!(p.variance, c.var, "variance");
    same!(p.ciphertext_moduli, c.moduli, "ciphertext moduli");
    same!(p.q_ctxs.len(), k, "levels");
    same!(p.e_ctxs.len(), k, "extension contexts");
    for l in 0..k {
        let x = &p.q_ctxs[l];
        let lm = c.level_moduli(l);
        let q = c.q(l);
        same!(x.moduli_64, lm, "moduli of level {}", l);
        same!(x.degree, n, "degree of level {}", l);
        same!(*x.rns.modulus(), q, "modulus of level {}", l);
        for (a, b) in x.moduli.iter().zip(&lm) {
            same!(a.modulus(), *b, "modulus object of level {}", l);
        }
        match &x.next_ctx {
            Some(nx) => {
                ensure!(l + 1 < k, "last level has a next context");
                ensure!(*nx == p.q_ctxs[l + 1], "context of level {} is not chained to the next one", l);
            }
            None => ensure!(l + 1 == k, "level {} is not chained", l),
        }
        same!(p.ctx_level(x), Some(l), "ctx_level of level {}", l);
        same!(p.ctx_level(&ctx(&lm, n)), Some(l), "ctx_level of a separately built context of level {}", l);
        pr.tn(2);
        for l2 in 0..k {
            let it = x.switch_iterations(&p.q_ctxs[l2]);
            same!(it, if l2 >= l { Some(l2 - l) } else { None }, "steps from level {} to {}", l, l2);
        }
        // extension basis: the level's moduli first, then further distinct
        // NTT primes, large enough to hold sums of products of centred values
        let e = &p.e_ctxs[l];
        same!(e.degree, n, "extension degree");
        ensure!(e.moduli_64.starts_with(&lm), "extension basis of level {} does not start with the level's moduli", l);
        for i in 0..e.moduli_64.len() {
            let m = e.moduli_64[i];
            ensure!(is_prime_ref(m) && m % (2 * n as u64) == 1 && m < 1 << 62, "extension modulus {}", m);
            ensure!(!e.moduli_64[..i].contains(&m), "extension modulus {} twice at level {}", m, l);
        }
        let eq = product(&e.moduli_64);
        ensure!(eq > &q * &q * (4 * n as u64), "extension basis of level {} too small: {} bits for Q of {} bits", l, eq.bits(), q.bits());
        same!(p.ctx_level(e), None, "ctx_level of the extension context");
        // plaintext scale: floor(Q*m/t) for every single message value, one batch of N at a time
        let mut ms: Vec<u64> = if t <= 1 << 12 {
            (0..t).collect()
        } else {
            let mut v = vec![0, 1, 2, 3, t / 3, t / 2, t / 2 + 1, t - 2, t - 1];
            v.extend(stream(55, t, 3));
            v
        };
        while ms.len() % n != 0 {
            ms.push(1);
        }
        for ch in ms.chunks(n) {
            let got = read(&pt(p, ch, l).to_poly());
            pr.t();
            pr.dstates += n as u64;
            let want = scaled(ch, &q, t);
            ensure!(got == want, "scaled plaintext of {:?} at level {}: {:?}", ch, l, got);
            pr.outcome(&got);
        }
    }
    // contexts that are no level
    let mut foreign: Vec<Vec<u64>> = vec![];
    for i in 0..k {
        for j in 0..k {
            if i != j && !(i == 0 && j == 0) {
                let mut v: Vec<u64> = c.moduli.clone();
                v.swap(i, j);
                foreign.push(v);
            }
        }
        foreign.push(vec![c.moduli[i]]);
    }
    let mut more = c.moduli.clone();
    more.push(primes(n, &[35])[0]);
    if !c.moduli.contains(&more[k]) {
        foreign.push(more);
    }
    for f in foreign {
        let want = (0..k).find(|l| c.level_moduli(*l) == f);
        same!(p.ctx_level(&ctx(&f, n)), want, "ctx_level of {:?}", f);
        pr.t();
    }
    // same moduli, other degree
    if c.moduli.iter().all(|m| (m - 1) % (4 * n as u64) == 0) {
        same!(p.ctx_level(&ctx(&c.moduli, 2 * n)), None, "ctx_level of another degree");
        pr.t();
    }
    // the level of an encryption
    let sk = Key::Tern.sk(p);
    for l in 0..k {
        let ct = sk.encrypt(&pt(p, &[1], l));
        same!(ct.level, l, "level of an encryption");
        same!(ct.cts[0].context.moduli_64, c.level_moduli(l), "moduli of an encryption at level {}", l);
        pr.t();
    }
    Ok(())
}

pub fn run(ex: &Arc<Ex>) {
    let th = ex.thorough;
    let mut v: Vec<(usize, Vec<usize>)> = vec![];
    for n in [8usize, 16, 32, 64, 256, 1024, 2048, 4096, 8192, 16384] {
        v.push((n, vec![]));
        for a in 10..=62 {
            v.push((n, vec![a]));
            v.push((n, vec![a; 2]));
            v.push((n, vec![a; 5]));
            for b in 10..=62 {
                if th || (a + b) % 7 == 0 && n <= 1024 {
                    v.push((n, vec![a, b]));
                    v.push((n, vec![a, b, a]));
                }
            }
        }
        // run every small size dry
        for a in 10..=16 {
            let have = count(a, n, 400);
            for k in [have.saturating_sub(1), have, have + 1] {
                if have < 400 {
                    v.push((n, vec![a; k]));
                    let mut mixed = vec![];
                    for i in 0..k {
                        mixed.push(a);
                        if i % 2 == 0 {
                            mixed.push(40);
                        }
                    }
                    v.push((n, mixed));
                }
            }
        }
    }
    // all lists of up to 4 small sizes
    for n in [8usize, 32, 128, 256, 512] {
        let al = [10usize, 11, 12, 13];
        for a in al {
            for b in al {
                for c in al {
                    v.push((n, vec![a, b, c]));
                    for d in al {
                        v.push((n, vec![a, b, c, d]));
                    }
                }
            }
        }
    }
    let ch: Vec<Vec<(usize, Vec<usize>)>> = v.chunks(50).map(|c| c.to_vec()).collect();
    ex.group("generate", &ch, |c| format!("n{}-{:?}..", c[0].0, &c[0].1[..c[0].1.len().min(4)]), |c, pr| c.iter().try_for_each(|x| generate(x, pr)));
    let bad: Vec<Vec<usize>> = vec![vec![9], vec![63], vec![0], vec![64], vec![20, 9], vec![62, 63], vec![5, 30]];
    ex.group("generate-refused", &bad, |c| format!("{:?}", c), |c, pr| {
        ensure!(!matches!(guard(|| BfvParameters::generate_moduli(c, 8)), Ok(Some(_))), "sizes {:?} accepted", c);
        pr.t();
        pr.rejected += 1;
        Ok(())
    });

    let mut v = vec![];
    for sizes in [
        vec![62usize],
        vec![62; 2],
        vec![62; 3],
        vec![62; 6],
        vec![20],
        vec![20, 62],
        vec![62, 20],
        vec![30, 40, 50, 60],
        vec![60, 50, 40, 30],
        vec![31; 7],
        vec![61, 62, 61, 62],
        vec![25, 25, 25],
        vec![62; 10],
    ] {
        for (n, t) in [(8usize, 17u64), (8, 97), (8, 1153), (8, 65537), (16, 97), (32, 193), (64, 257), (64, 1153), (128, 65537)] {
            if th || n <= 16 || sizes.len() <= 3 {
                v.push(Cfg::bits(n, t, &sizes, 1 + (n + t as usize + sizes.len()) % 16));
            }
        }
    }
    v.push(Cfg::raw(8, 17, &[97, 113, 193, 241, 257], 3));
    v.push(Cfg::raw(8, 97, &[113, 193], 3));
    v.push(Cfg::raw(8, 97, &[193, 113, 241], 3));
    v.push(Cfg::bits(8, primes(8, &[60])[0], &[61, 61, 61], 10));
    v.push(Cfg::bits(8, primes(8, &[50])[0], &[62, 51], 10));
    if th {
        v.push(Cfg::bits(1024, 12289, &[62, 50, 40], 10));
        v.push(Cfg::bits(4096, 40961, &[62, 62, 62], 10));
    }
    ex.group("levels", &v, |c| c.id(), levels);

    let mut d = vec![];
    for n in [8usize, 16, 32, 64] {
        for k in 1..=ex.pick(5, 9) {
            d.push((k, n));
        }
    }
    ex.group("default", &d, |c| format!("k{}-n{}", c.0, c.1), |c, pr| {
        let p = Arc::new(BfvParameters::default(c.0, c.1, bd()));
        same!(p.ciphertext_moduli.len(), c.0, "moduli of the default parameters");
        for (i, m) in p.ciphertext_moduli.iter().enumerate() {
            ensure!(is_prime_ref(*m) && m % (2 * c.1 as u64) == 1 && m.leading_zeros() == 2, "default modulus {}", m);
            ensure!(!p.ciphertext_moduli[..i].contains(m), "default modulus {} twice", m);
        }
        let cfg = Cfg { n: c.1, t: p.plaintext_modulus_u64, moduli: p.ciphertext_moduli.clone(), var: p.variance };
        ensure!(is_prime_ref(cfg.t) && cfg.t % (2 * c.1 as u64) == 1, "default plaintext modulus {}", cfg.t);
        ensure!((1..=16).contains(&cfg.var), "default variance");
        let _: BigUint = cfg.q(0);
        check_params(&p, &cfg, pr)
    });
}
