use crate::engine::{guard, Ex, Probe};
use crate::refm::*;
use crate::world::*;
use crate::{ensure, same};
use num_bigint::BigUint;
use num_traits::{One, ToPrimitive, Zero};
use onion_pir::verif::*;
use std::sync::Arc;

/// round(x / q) of the representative in [0,Q), into the smaller ring
fn round_div(x: &BigUint, q: u64) -> BigUint {
    (x * 2u32 + q) / (BigUint::from(q) * 2u32)
}

fn chain_ref(x: &BigUint, ms: &[u64], steps: usize) -> BigUint {
    let mut v = x.clone();
    for s in 0..steps {
        let len = ms.len() - s;
        v = round_div(&v, ms[len - 1]) % product(&ms[..len - 1]);
    }
    v
}

fn values(ms: &[u64], dense: bool) -> Vec<BigUint> {
    let q = product(ms);
    if q <= BigUint::from(200_000u64) {
        return (0..q.to_u64().unwrap()).map(BigUint::from).collect();
    }
    let mut v = vec![];
    let step = if dense { 1 } else { 5 };
    let last = BigUint::from(ms[ms.len() - 1]);
    let half = &last >> 1usize;
    let top = &q / &last;
    let mut ks: Vec<BigUint> = vec![];
    for k in (0..top.bits()).step_by(step) {
        ks.push(BigUint::one() << k);
        ks.push(&top - (BigUint::one() << k).min(top.clone()));
    }
    for i in 0..6u32 {
        ks.push(BigUint::from(i));
        if top > BigUint::from(i) {
            ks.push(&top - 1u32 - i);
            ks.push((&top >> 1usize) + i);
        }
    }
    // both sides of every rounding threshold
    for k in ks {
        let base = &k * &last;
        for d in 0..3u32 {
            v.push(&base + d);
            v.push(&base + &half + d);
            v.push((&base + &half).max(BigUint::from(3u32)) - d);
            v.push((&base + &last).max(BigUint::from(3u32)) - 1u32 - d.min(1));
        }
    }
    for i in 0..ms.len() {
        for x in [1, ms[i] / 2, ms[i] / 2 + 1, ms[i] - 1] {
            let mut r = vec![0; ms.len()];
            r[i] = x;
            v.push(crt(&r, ms));
            let mut r: Vec<u64> = ms.iter().map(|m| m - 1).collect();
            r[i] = x;
            v.push(crt(&r, ms));
        }
    }
    for s in 0..16 {
        let r: Vec<u64> = ms.iter().map(|m| stream(1, *m, s * 7 + m % 89)[0]).collect();
        v.push(crt(&r, ms));
    }
    v.retain(|x| *x < q);
    v.sort();
    v.dedup();
    v
}

fn case(c: &(Vec<u64>, usize), dense: bool, pr: &mut Probe) -> Result<(), String> {
    let (ms, n) = c;
    let n = *n;
    // the context chain
    let top = ctx(ms, n);
    let mut chain = vec![top.clone()];
    while let Some(nx) = chain.last().unwrap().next_ctx.clone() {
        chain.push(nx);
    }
    same!(chain.len(), ms.len(), "contexts in the chain");
    let mut vals = values(ms, dense);
    while vals.len() % n != 0 {
        vals.push(BigUint::zero());
    }
    for ch in vals.chunks(n) {
        let mut p = Poly::try_from_bigint(&top, ch);
        for s in 1..ms.len() {
            p.mod_switch_down_next();
            pr.t();
            pr.dstates += n as u64;
            ensure!(p.context == chain[s], "context after {} steps", s);
            ensure!(p.context.moduli_64 == ms[..ms.len() - s], "moduli after {} steps", s);
            let rr = residues(&p);
            same!(rr.len(), ms.len() - s, "residue rows after {} steps", s);
            for (i, row) in rr.iter().enumerate() {
                ensure!(row.iter().all(|x| *x < ms[i]), "non-canonical residue mod {} after {} steps", ms[i], s);
            }
            let got = read(&p);
            let want: Vec<BigUint> = ch.iter().map(|x| chain_ref(x, ms, s)).collect();
            ensure!(got == want, "{:?} over {:?} after {} steps: {:?}, expected {:?}", ch, ms, s, got, want);
            pr.outcome(&got);
        }
        ensure!(guard(|| { let mut z = p.clone(); z.mod_switch_down_next() }).is_err(), "switch below the last modulus accepted");
        pr.rejected += 1;
        // direct switch to every context below
        for s in 0..ms.len() {
            let mut p = Poly::try_from_bigint(&top, ch);
            p.mod_switch_to(&chain[s]);
            pr.t();
            ensure!(p.context == chain[s], "context after mod_switch_to {}", s);
            let want: Vec<BigUint> = ch.iter().map(|x| chain_ref(x, ms, s)).collect();
            ensure!(read(&p) == want, "mod_switch_to level {} of {:?}", s, ch);
        }
    }
    Ok(())
}

fn refuse(c: &(Vec<u64>, usize), pr: &mut Probe) -> Result<(), String> {
    let (ms, n) = c;
    let top = ctx(ms, *n);
    let mut chain = vec![top.clone()];
    while let Some(nx) = chain.last().unwrap().next_ctx.clone() {
        chain.push(nx);
    }
    // a prime of no modulus of the chain
    let fresh = (33..60).map(|b| primes(*n, &[b])[0]).find(|p| !ms.contains(p)).unwrap();
    let other_mod = ctx(&[ms[0], fresh], *n);
    let rev: Vec<u64> = ms.iter().rev().cloned().collect();
    let mut strangers = vec![other_mod];
    if ms.iter().all(|m| (m - 1) % (4 * *n as u64) == 0) {
        strangers.push(ctx(ms, 2 * *n));
    }
    if ms.len() > 1 {
        strangers.push(ctx(&rev, *n));
        strangers.push(ctx(&ms[1..], *n));
    }
    for i in 0..chain.len() {
        for j in 0..chain.len() {
            let want = if j >= i { Some(j - i) } else { None };
            same!(chain[i].switch_iterations(&chain[j]), want, "switch_iterations {} -> {}", i, j);
            // a separately built equal context counts as the same ring
            let twin = ctx(&ms[..ms.len() - j], *n);
            same!(chain[i].switch_iterations(&twin), want, "switch_iterations {} -> twin of {}", i, j);
            pr.tn(2);
            pr.dstates += 1;
            let r = guard(|| {
                let mut p = Poly::try_from_vec_u64(&chain[i], &[1, 2, 3]);
                p.mod_switch_to(&chain[j]);
                p
            });
            ensure!(r.is_ok() == want.is_some(), "mod_switch_to {} -> {} accepted={}", i, j, r.is_ok());
            pr.rejected += r.is_err() as u64;
            // evaluation form is refused whenever there is something to do
            let r = guard(|| {
                let mut p = poly_ntt_u64(&chain[i], &[1, 2, 3]);
                p.mod_switch_to(&chain[j]);
                p
            });
            ensure!(r.is_ok() == (i == j), "evaluation form switch {} -> {} accepted={}", i, j, r.is_ok());
            pr.rejected += r.is_err() as u64;
        }
        for s in &strangers {
            if chain.iter().any(|c| c == s) {
                continue;
            }
            same!(chain[i].switch_iterations(s), None, "switch_iterations to a foreign ring {:?}", s.moduli_64);
            let r = guard(|| {
                let mut p = Poly::try_from_vec_u64(&chain[i], &[1]);
                p.mod_switch_to(s);
            });
            ensure!(r.is_err(), "switch to a foreign ring {:?} accepted", s.moduli_64);
            pr.tn(2);
            pr.rejected += 1;
        }
        let r = guard(|| {
            let mut p = poly_ntt_u64(&chain[i], &[1]);
            p.mod_switch_down_next();
        });
        ensure!(r.is_err(), "mod_switch_down_next accepts evaluation form");
        pr.rejected += 1;
    }
    Ok(())
}

pub fn run(ex: &Arc<Ex>) {
    let th = ex.thorough;
    let mut v: Vec<(Vec<u64>, usize)> = vec![];
    // every ordered pair / triple of small NTT primes
    let small = [17u64, 97, 113, 193, 241];
    for a in small {
        v.push((vec![a], 8));
        for b in small {
            if a != b {
                v.push((vec![a, b], 8));
                for c in [17u64, 97, 113] {
                    if c != a && c != b && (th || a * b * c <= 200_000) {
                        v.push((vec![a, b, c], 8));
                    }
                }
            }
        }
    }
    for sizes in [
        vec![62usize, 62],
        vec![62, 62, 62, 62],
        vec![20, 62],
        vec![62, 20],
        vec![10, 30, 50, 62],
        vec![62, 50, 30, 10],
        vec![61, 62, 60],
        vec![30, 30, 30, 30, 30, 30],
        vec![62; 8],
        vec![62; 16],
        vec![10, 12, 14, 16, 18, 20, 22, 24, 26, 28, 30, 32],
        vec![40, 38, 36, 34, 32, 30, 28, 26, 24, 22],
        vec![31, 32, 33],
        vec![33, 32, 31],
        vec![62, 10, 62, 10, 62],
        vec![10, 62, 10, 62],
    ] {
        v.push((primes(8, &sizes), 8));
        let big: Vec<usize> = sizes.iter().map(|s| (*s).max(20)).collect();
        v.push((primes(64, &big), 64));
        v.push((primes(1024, &big), 1024));
        if sizes.len() == 3 {
            v.push((primes(16384, &big), 16384));
        }
        if th {
            for n in [16usize, 32, 128, 256, 512, 2048, 4096] {
                v.push((primes(n, &big), n));
            }
        }
    }
    // every modulus of every size as the one that is dropped or kept
    for bits in 9..=62usize {
        if let (Some(h), Some(l)) = (prime_below(bits, 16, 1 << bits), prime_above(bits, 16)) {
            let p = primes(8, &[62, 61, 45])[..].to_vec();
            for x in [h, l] {
                if !p.contains(&x) {
                    v.push((vec![p[0], x], 8));
                    v.push((vec![x, p[0]], 8));
                    v.push((vec![p[2], x, p[1]], 8));
                }
            }
        }
    }
    v.push((vec![17, primes(8, &[62])[0]], 8));
    v.push((vec![primes(8, &[62])[0], 17, 97], 8));
    v.push((primes(16, &[62, 40, 62]), 16));
    ex.group("switch", &v, |c| format!("n{}-{:?}", c.1, c.0), |c, pr| case(c, th, pr));
    ex.group("refusal", &v, |c| format!("n{}-{:?}", c.1, c.0), refuse);
}
