use crate::engine::{Ex, Probe};
use crate::refm::*;
use crate::{ensure, same};
use num_bigint::BigUint;
use onion_pir::verif::Modulus;
use std::sync::Arc;

/// boundary values below `p`
pub fn lattice(p: u64, dense: bool) -> Vec<u64> {
    let mut v: Vec<u64> = vec![
        0,
        1,
        2,
        3,
        p / 2,
        p / 3,
        2 * (p / 3),
        0x5555_5555_5555_5555 % p,
        0xAAAA_AAAA_AAAA_AAAA % p,
        0x9E37_79B9_7F4A_7C15 % p,
        0xD1B5_4A32_D192_ED03 % p,
    ];
    for d in 1..=3u64 {
        v.push(p.wrapping_sub(d));
        v.push((p / 2).wrapping_add(d));
        v.push((p / 2).wrapping_sub(d));
    }
    let s = (p as f64).sqrt() as u64;
    v.extend([s.saturating_sub(1), s, s + 1]);
    for k in 0..64 {
        if !dense && k % 4 != 3 && k != 32 && k != 31 {
            continue;
        }
        let b = 1u64 << k;
        v.extend([b - 1, b, b + 1]);
    }
    v.retain(|x| *x < p);
    v.sort();
    v.dedup();
    v
}

/// boundary values of the whole u64 range, relative to p
fn lattice_u64(p: u64) -> Vec<u64> {
    let mut v = vec![u64::MAX, u64::MAX - 1, 0, 1];
    for k in 0..64 {
        let b = 1u64 << k;
        v.extend([b - 1, b, b.wrapping_add(1)]);
    }
    let kmax = u64::MAX / p;
    let mut ks = lattice(kmax.max(2), false);
    ks.extend([kmax, kmax.saturating_sub(1)]);
    for k in ks {
        if k > kmax {
            continue;
        }
        let m = k * p;
        for d in 0..=2u64 {
            v.push(m.saturating_sub(d));
            v.push(m.saturating_add(d));
        }
        v.push(m.saturating_add(p / 2));
    }
    v.sort();
    v.dedup();
    v
}

/// boundary values of [0, p*2^64 + 2^63)
fn lattice_u128(p: u64) -> Vec<u128> {
    let top = ((p as u128) << 64) + (1u128 << 63) - 1;
    let mut v: Vec<u128> = lattice_u64(p).into_iter().map(|x| x as u128).collect();
    let l = lattice(p, false);
    for a in &l {
        for b in &l {
            v.push(*a as u128 * *b as u128);
        }
    }
    let mut ks: Vec<u128> = l.iter().map(|x| *x as u128).collect();
    ks.extend(lattice(u64::MAX, false).iter().map(|x| *x as u128));
    ks.push(top / p as u128);
    for k in ks {
        let m = k * p as u128;
        for d in 0..=2u128 {
            v.push(m.saturating_sub(d));
            v.push(m + d);
        }
    }
    for k in 0..127 {
        let b = 1u128 << k;
        v.extend([b - 1, b, b + 1]);
    }
    v.push(top);
    v.push((p as u128) << 64);
    v.retain(|x| *x <= top);
    v.sort();
    v.dedup();
    v
}

fn check_pairs(m: &Modulus, p: u64, xs: &[u64], pr: &mut Probe) -> Result<(), String> {
    for &b in xs {
        let bs = m.shoup(b);
        same!(m.neg(b), (p - b) % p, "neg {} mod {}", b, p);
        for &a in xs {
            let s = ((a as u128 + b as u128) % p as u128) as u64;
            same!(m.add(a, b), s, "{}+{} mod {}", a, b, p);
            let d = ((a as u128 + (p - b) as u128) % p as u128) as u64;
            same!(m.sub(a, b), d, "{}-{} mod {}", a, b, p);
            let pr_ = mulmod(a, b, p);
            same!(m.mul(a, b), pr_, "{}*{} mod {}", a, b, p);
            same!(m.mul_shoup(a, b, bs), pr_, "shoup {}*{} mod {}", a, b, p);
            let l = m.lazy_mul_shoup(a, b, bs);
            ensure!(
                l < 2 * p && l % p == pr_,
                "lazy shoup {}*{} mod {} = {}",
                a,
                b,
                p,
                l
            );
        }
        pr.dstates += xs.len() as u64;
        pr.tn(5 * xs.len() as u64);
        pr.outcome(&(p, m.mul(b, b)));
    }
    Ok(())
}

fn check_pow_inv(
    m: &Modulus,
    p: u64,
    xs: &[u64],
    rs: &[u64],
    prime: bool,
    pr: &mut Probe,
) -> Result<(), String> {
    for &a in xs {
        for &r in rs {
            same!(m.pow(a, r), powmod(a, r, p), "{}^{} mod {}", a, r, p);
            pr.t();
        }
        if prime && a != 0 {
            let i = m.inv(a);
            ensure!(i < p && mulmod(i, a, p) == 1 % p, "inv {} mod {} = {}", a, p, i);
            pr.t();
        }
    }
    if prime {
        let nz: Vec<u64> = xs.iter().copied().filter(|x| *x != 0).collect();
        let iv = m.inv_vec(&nz);
        ensure!(
            iv.len() == nz.len() && iv.iter().zip(&nz).all(|(i, a)| mulmod(*i, *a, p) == 1 % p && *i < p),
            "inv_vec mod {}",
            p
        );
    }
    pr.dstates += (xs.len() * rs.len()) as u64;
    Ok(())
}

fn check_reduce(m: &Modulus, p: u64, wide: bool, pr: &mut Probe) -> Result<(), String> {
    let xs = lattice_u64(p);
    for &a in &xs {
        same!(m.reduce(a), a % p, "reduce {} mod {}", a, p);
        let l = m.lazy_reduce_ct(a);
        ensure!(l < 2 * p && l % p == a % p, "lazy reduce {} mod {} = {}", a, p, l);
    }
    same!(
        m.reduce_vec_u64(&xs),
        xs.iter().map(|a| a % p).collect::<Vec<_>>(),
        "reduce_vec_u64 mod {}",
        p
    );
    // precomputed-operand multiplication accepts any 64-bit left operand
    for &b in &lattice(p, false) {
        let bs = m.shoup(b);
        for &a in &xs {
            same!(m.mul_shoup(a, b, bs), mulmod(a, b, p), "shoup wide {}*{} mod {}", a, b, p);
        }
        same!(
            m.scalar_mul_vec(&xs, b),
            xs.iter().map(|a| mulmod(*a, b, p)).collect::<Vec<_>>(),
            "scalar_mul_vec by {} mod {}",
            b,
            p
        );
        pr.tn(2 * xs.len() as u64);
    }
    // signed
    let mut is: Vec<i64> = vec![i64::MIN, i64::MIN + 1, i64::MAX, i64::MAX - 1, 0, 1, -1];
    for &x in &xs {
        if x <= i64::MAX as u64 {
            is.push(x as i64);
            is.push(-(x as i64));
        }
    }
    let got = m.reduce_vec_i64(&is);
    for (g, i) in got.iter().zip(&is) {
        let e = ((*i as i128) % p as i128 + p as i128) % p as i128;
        ensure!(*g as i128 == e, "reduce_i64 {} mod {}: got {} expected {}", i, p, g, e);
    }
    same!(got.len(), is.len(), "reduce_vec_i64 length");
    // correction step
    let mut cs = vec![0, 1, p - 1, p, p + 1, 2 * p - 1];
    for &x in &lattice(p, false) {
        cs.push(x);
        cs.push(x + p);
    }
    for c in cs {
        if c < 2 * p {
            same!(Modulus::reduce_ct(c, p), c % p, "reduce_ct {} mod {}", c, p);
        }
    }
    let mut n = 2 * xs.len() + is.len();
    if wide {
        let ws = lattice_u128(p);
        for &a in &ws {
            let e = (a % p as u128) as u64;
            same!(m.reduce_u128(a), e, "reduce_u128 {} mod {}", a, p);
            let l = m.lazy_reduce_u128(a);
            ensure!(l < 2 * p && l % p == e, "lazy_reduce_u128 {} mod {} = {}", a, p, l);
        }
        n += 2 * ws.len();
        let bigs: Vec<BigUint> = ws
            .iter()
            .step_by(17)
            .flat_map(|a| [BigUint::from(*a), (BigUint::from(*a) << 200usize) + *a])
            .collect();
        let got = m.reduce_vec_biguint(&bigs);
        same!(got.len(), bigs.len(), "reduce_vec_biguint length");
        for (g, b) in got.iter().zip(&bigs) {
            same!(BigUint::from(*g), b % p, "reduce_biguint {} mod {}", b, p);
            same!(m.reduce_biguint(b), *g, "reduce_biguint scalar/vector {} mod {}", b, p);
        }
        n += 2 * bigs.len();
    }
    pr.dstates += n as u64;
    pr.tn(n as u64);
    Ok(())
}

fn check_vecs(m: &Modulus, p: u64, pr: &mut Probe) -> Result<(), String> {
    let l = lattice(p, false);
    for len in (0..=40).chain([63, 64, 65, 127, 128, 129, 255, 256, 1000, 1024, 4096, 4097]) {
        for off in [0usize, 1, 5] {
            let a: Vec<u64> = (0..len).map(|i| l[(i + off) % l.len()]).collect();
            let b: Vec<u64> = (0..len).map(|i| l[(i * 3 + 2 * off + 1) % l.len()]).collect();
            let mut x = a.clone();
            m.add_vec(&mut x, &b);
            same!(x, addv(&a, &b, p), "add_vec mod {}", p);
            let mut x = a.clone();
            m.sub_vec(&mut x, &b);
            same!(x, subv(&a, &b, p), "sub_vec mod {}", p);
            let mut x = a.clone();
            m.mul_vec(&mut x, &b);
            let e: Vec<u64> = a.iter().zip(&b).map(|(x, y)| mulmod(*x, *y, p)).collect();
            same!(x, e, "mul_vec mod {}", p);
            let e: Vec<u64> = a.iter().map(|x| (p - x) % p).collect();
            same!(m.neg_vec(&a), e, "neg_vec mod {}", p);
            let sh = m.shoup_vec(&b);
            same!(sh.len(), b.len(), "shoup_vec length");
            for ((x, y), s) in a.iter().zip(&b).zip(&sh) {
                same!(m.mul_shoup(*x, *y, *s), mulmod(*x, *y, p), "shoup_vec mod {}", p);
            }
            pr.tn(5);
            pr.dstates += 1;
        }
    }
    same!(m.modulus(), p, "modulus()");
    same!(m.bits(), 64 - p.leading_zeros() as u64, "bits of {}", p);
    for size in [0usize, 1, 2, 7, 64, 257, 4096] {
        let v = m.random_vec(size, &mut rand::thread_rng());
        ensure!(v.len() == size && v.iter().all(|x| *x < p), "random_vec({}) mod {}", size, p);
        ensure!(m.random(&mut rand::thread_rng()) < p, "random mod {}", p);
    }
    Ok(())
}

pub fn big_moduli(thorough: bool) -> Vec<u64> {
    let mut v = vec![1153, 65537, 1785857, 4611686018326724609, 4611686018309947393, (1 << 62) - 1];
    for bits in 3..=62usize {
        let lo = 1u64 << (bits - 1);
        let hi = 1u64 << bits;
        v.extend(prime_below(bits, 2, hi));
        v.extend(prime_above(bits, 2));
        v.extend([lo + 1, hi - 1]);
        if thorough {
            v.extend([lo, hi - 2, lo + lo / 2, lo + lo / 2 + 1, lo + lo / 3]);
            v.extend(prime_below(bits, 2, lo + lo / 2));
            v.extend(prime_below(bits, 2, lo + lo / 4));
        }
    }
    v.retain(|p| *p >= 2 && p >> 62 == 0);
    v.sort();
    v.dedup();
    v
}

pub fn run(ex: &Arc<Ex>) {
    // every operand pair, every exponent, for every small modulus
    let small: Vec<u64> = (2..=ex.pick(300, 700)).collect();
    ex.group("small-moduli-all-operands", &small, |p| format!("p={}", p), |&p, pr| {
        let m = Modulus::new(p);
        let all: Vec<u64> = (0..p).collect();
        check_pairs(&m, p, &all, pr)?;
        check_pow_inv(&m, p, &all, &all, is_prime_ref(p), pr)?;
        for a in 0..2 * p {
            same!(Modulus::reduce_ct(a, p), a % p, "reduce_ct {} mod {}", a, p);
        }
        for a in 0..(p * p + 2 * p) {
            same!(m.reduce(a), a % p, "reduce {} mod {}", a, p);
            same!(m.reduce_u128(a as u128), a % p, "reduce_u128 {} mod {}", a, p);
        }
        pr.dstates += p * p + 4 * p;
        pr.tn(2 * (p * p + 2 * p));
        check_reduce(&m, p, true, pr)?;
        check_vecs(&m, p, pr)
    });
    let thorough = ex.thorough;
    let big = big_moduli(true);
    ex.group("boundary-lattice", &big, |p| format!("p={}", p), |&p, pr| {
        let m = Modulus::new(p);
        let l = lattice(p, true);
        check_pairs(&m, p, &l, pr)?;
        let ls = lattice(p, false);
        let rs = lattice(p, true);
        check_pow_inv(&m, p, &ls, &rs, is_prime_ref(p), pr)?;
        check_reduce(&m, p, true, pr)?;
        check_vecs(&m, p, pr)
    });
    {
        // complete multiplication/reduction tables of mid-size moduli
        let mid: Vec<u64> = ex.pick(vec![1009, 1024, 1153, 2039], vec![1009, 1024, 1153, 2039, 2047, 4093, 8191, 12289, 16384, 65537]);
        ex.group("mid-moduli-all-pairs", &mid, |p| format!("p={}", p), |&p, pr| {
            let m = Modulus::new(p);
            let all: Vec<u64> = (0..p).collect();
            check_pairs(&m, p, &all, pr)
        });
    }
}
