use crate::engine::{guard, Ex, Probe};
use crate::refm::*;
use crate::{ensure, same};
use num_bigint::BigUint;
use num_traits::{One, Zero};
use onion_pir::verif::utils::*;
use std::sync::Arc;

fn boundary_u64() -> Vec<u64> {
    let mut v = vec![0u64, 1, 2, 3, u64::MAX, u64::MAX - 1];
    for k in 0..64 {
        let b = 1u64 << k;
        v.extend([b, b - 1, b.wrapping_add(1), !b, b | 1 << 63, 0x5555_5555_5555_5555 >> k, 0xAAAA_AAAA_AAAA_AAAA >> k, u64::MAX << k]);
    }
    v.sort();
    v.dedup();
    v
}

fn digits(m: u64, parent: usize, pr: &mut Probe) -> Result<(), String> {
    let bits = bit_vector(parent, m);
    pr.t();
    pr.dstates += 1;
    same!(bits.len(), parent, "bit count of {} in {} bits", m, parent);
    for (i, b) in bits.iter().enumerate() {
        let want = i < 64 && (m >> i) & 1 == 1;
        ensure!(*b == want, "bit {} of {} is {}", i, m, b);
    }
    for d in 1..=parent.min(64) {
        let ds = decompose_bits(m, parent, d);
        pr.t();
        same!(ds.len(), (parent + d - 1) / d, "digit count of {} ({} bits, digits of {})", m, parent, d);
        for (i, x) in ds.iter().enumerate() {
            // digit i is bits [i*d, (i+1)*d), cut at the parent size
            let want = if i * d >= 64 {
                0
            } else {
                let sh = m >> (i * d);
                if d >= 64 { sh } else { sh & ((1u64 << d) - 1) }
            };
            same!(*x, want, "digit {} of {} ({} bits, digits of {})", i, m, parent, d);
        }
    }
    pr.outcome(&bits);
    Ok(())
}

fn u256_big(w: [u64; 4]) -> BigUint {
    w.iter().rev().fold(BigUint::zero(), |a, x| (a << 64usize) + *x)
}

fn big_u256(v: &BigUint) -> [u64; 4] {
    let d = v.to_u64_digits();
    let mut r = [0u64; 4];
    for (i, x) in d.iter().enumerate() {
        r[i] = *x;
    }
    r
}

fn wide(a: &[u64; 4], others: &[[u64; 4]], pr: &mut Probe) -> Result<(), String> {
    let m = BigUint::one() << 256usize;
    let x = u256_big(*a);
    let ua = U256::from(*a);
    same!(<[u64; 4]>::from(ua), *a, "words of {:x?}", a);
    let two: [u128; 2] = ua.into();
    same!(two, [a[0] as u128 | (a[1] as u128) << 64, a[2] as u128 | (a[3] as u128) << 64], "double words of {:x?}", a);
    same!(<[u64; 4]>::from(U256::from(two)), *a, "from double words {:x?}", a);
    if a[2] == 0 && a[3] == 0 {
        same!(u128::from(&ua), two[0], "128-bit value of {:x?}", a);
    }
    same!(ua.msb(), a[3] >> 63, "msb of {:x?}", a);
    same!(<[u64; 4]>::from(!ua), big_u256(&(&m - 1u32 - &x)), "complement of {:x?}", a);
    pr.tn(5);
    for s in 0..256usize {
        same!(<[u64; 4]>::from(ua >> s), big_u256(&(&x >> s)), "{:x?} >> {}", a, s);
        let mut c = ua;
        c >>= s;
        same!(<[u64; 4]>::from(c), big_u256(&(&x >> s)), "{:x?} >>= {}", a, s);
        pr.tn(2);
    }
    for b in others {
        let y = u256_big(*b);
        let mut c = ua;
        c.wrapping_add_assign(U256::from(*b));
        let mut want = &x + &y;
        if want >= m {
            want -= &m;
        }
        let w = big_u256(&want);
        same!(<[u64; 4]>::from(c), w, "{:x?} + {:x?}", a, b);
        let mut c = ua;
        c.wrapping_sub_assign(U256::from(*b));
        let want = if x >= y { &x - &y } else { &x + &m - &y };
        same!(<[u64; 4]>::from(c), big_u256(&want), "{:x?} - {:x?}", a, b);
        pr.tn(2);
        pr.dstates += 1;
        pr.outcome(&w);
    }
    Ok(())
}

pub fn run(ex: &Arc<Ex>) {
    let th = ex.thorough;
    // digits: every value below 2^12 (2^16), boundary values up to 64 bits, every parent size
    let mut items: Vec<(u64, usize)> = vec![];
    let lim = ex.pick(1u64 << 11, 1 << 16);
    for m in 0..lim {
        let need = (64 - m.leading_zeros() as usize).max(1);
        items.push((m, need));
        items.push((m, need + 3));
    }
    for m in boundary_u64() {
        let need = (64 - m.leading_zeros() as usize).max(1);
        for p in [need, need + 1, 64, 80] {
            if p >= need {
                items.push((m, p));
            }
        }
    }
    let chunks: Vec<Vec<(u64, usize)>> = items.chunks(512).map(|c| c.to_vec()).collect();
    ex.group(
        "digits",
        &chunks,
        |c| format!("{}:{}..{}:{}", c[0].0, c[0].1, c[c.len() - 1].0, c[c.len() - 1].1),
        |c, pr| c.iter().try_for_each(|(m, p)| digits(*m, *p, pr)),
    );

    // logarithm / ceiling division
    let lim = ex.pick(1usize << 12, 1 << 14);
    let blocks: Vec<usize> = (0..64).collect();
    ex.group("log-div", &blocks, |b| format!("b{}", b), |b, pr| {
        for v in 1..lim as u64 {
            if v as usize % 64 != *b {
                continue;
            }
            same!(ilog2(v), (63 - v.leading_zeros()) as usize, "ilog2({})", v);
            same!(ilog2(v as usize), (63 - v.leading_zeros()) as usize, "ilog2({})", v);
            same!(ilog2(v as u32), (63 - v.leading_zeros()) as usize, "ilog2({}u32)", v);
            pr.tn(3);
            for d in 1..200usize {
                let want = v as usize / d + (v as usize % d != 0) as usize;
                same!(div_ceil(v as usize, d), want, "div_ceil({},{})", v, d);
                same!(div_ceil(v, d as u64), want as u64, "div_ceil({},{})", v, d);
                pr.tn(2);
                pr.dstates += 1;
            }
            same!(div_ceil(0u64, v), 0, "div_ceil(0,{})", v);
        }
        for v in boundary_u64() {
            if v == 0 || v as usize % 64 != *b {
                continue;
            }
            same!(ilog2(v), (63 - v.leading_zeros()) as usize, "ilog2({})", v);
            let u = (v as u128) << 32 | 5;
            same!(ilog2(u), (127 - u.leading_zeros()) as usize, "ilog2({})", u);
            for d in [1u64, 2, 3, 62, 1 << 20, 1 << 40, v] {
                if v.checked_add(d - 1).is_some() {
                    same!(div_ceil(v, d), v / d + (v % d != 0) as u64, "div_ceil({},{})", v, d);
                }
            }
            pr.tn(9);
        }
        ensure!(guard(|| div_ceil(5u64, 0)).is_err(), "division by zero accepted");
        Ok(())
    });

    // inverses: every pair below a bound; boundary pairs up to 64 bits
    let lim = ex.pick(400u64, 1500);
    let qs: Vec<u64> = (2..lim).collect();
    ex.group("inverse-all", &qs, |q| format!("q{}", q), |q, pr| {
        for v in 0..2 * q + 2 {
            let want = (1..*q).find(|i| mulmod(v % q, *i, *q) == 1);
            let got = mod_inverse(v, *q);
            pr.t();
            pr.dstates += 1;
            same!(got, want, "inverse of {} mod {}", v, q);
            pr.outcome(&got);
        }
        Ok(())
    });
    let mut qs: Vec<u64> = vec![];
    for b in [10usize, 13, 20, 31, 32, 33, 50, 61, 62] {
        qs.push(prime_below(b, 16, 1 << b).unwrap());
    }
    qs.extend([u64::MAX, u64::MAX - 1, u64::MAX - 58, 1 << 63, (1 << 62) - 1, 6_469_693_230]);
    ex.group("inverse-large", &qs, |q| format!("q{}", q), |q, pr| {
        let mut vs = boundary_u64();
        vs.extend([q / 2, q / 3, q - 1, q - 2]);
        for v in vs {
            let got = mod_inverse(v, *q);
            let g = {
                let (mut a, mut b) = (*q, v % q);
                while b != 0 {
                    let t = a % b;
                    a = b;
                    b = t;
                }
                a
            };
            pr.t();
            pr.dstates += 1;
            match got {
                Some(i) => ensure!(g == 1 && i < *q && mulmod(v % q, i, *q) == 1, "inverse of {} mod {}: {}", v, q, i),
                None => ensure!(g != 1, "no inverse of {} mod {} although coprime", v, q),
            }
        }
        Ok(())
    });

    // primality: sieve up to a bound, pseudoprimes, all neighbours of powers of two
    let lim = ex.pick(1usize << 20, 1 << 23);
    let mut sieve = vec![true; lim];
    sieve[0] = false;
    sieve[1] = false;
    let mut i = 2;
    while i * i < lim {
        if sieve[i] {
            let mut j = i * i;
            while j < lim {
                sieve[j] = false;
                j += i;
            }
        }
        i += 1;
    }
    let blocks: Vec<usize> = (0..lim / 4096).collect();
    ex.group("prime-sieve", &blocks, |b| format!("{}k", b * 4), |b, pr| {
        for p in b * 4096..(b + 1) * 4096 {
            ensure!(is_prime(p as u64) == sieve[p], "is_prime({}) = {}", p, !sieve[p]);
            ensure!(is_prime_ref(p as u64) == sieve[p], "reference model wrong at {}", p);
            pr.t();
            pr.dstates += 1;
        }
        Ok(())
    });
    // base-2 strong pseudoprimes, Carmichael numbers, strong pseudoprimes to several bases, squares
    // and products of close primes up to 64 bits
    let mut hard: Vec<u64> = vec![
        2047, 3277, 4033, 4681, 8321, 15841, 29341, 42799, 49141, 52633, 65281, 74665, 80581, 85489,
        88357, 90751, 1373653, 25326001, 3215031751, 2152302898747, 3474749660383, 341550071728321,
        3825123056546413051, 318665857834031151, 561, 1105, 1729, 2465, 2821, 6601, 8911, 10585,
        46657, 52633, 62745, 63973, 75361, 101101, 115921, 126217, 162401, 172081, 188461, 252601,
        5459, 5777, 10877, 16109, 18971, 22499, 24569, 25199, 40309, 58519, 75077, 97439, 100127,
        989, 3239, 5777, 10877, 27971, 29681, 30739, 31631, 39059, 72389, 73919, 75077,
        18446744073709551557, 18446744073709551533, 18446744065119617029, 4611686018427387847,
        9223372036854775783, 4611686014132420609,
    ];
    for k in 2..64 {
        let b = 1u64 << k;
        for d in 0..40 {
            hard.push(b.wrapping_add(d));
            hard.push(b - 1 - (d % b));
        }
    }
    let ps: Vec<u64> = (10..=31).filter_map(|b| prime_below(b, 2, 1 << b)).collect();
    for a in &ps {
        for b in &ps {
            hard.push(a * b);
        }
    }
    hard.sort();
    hard.dedup();
    let ch: Vec<Vec<u64>> = hard.chunks(128).map(|c| c.to_vec()).collect();
    ex.group("prime-hard", &ch, |c| format!("{}..", c[0]), |c, pr| {
        for p in c {
            ensure!(is_prime(*p) == is_prime_ref(*p), "is_prime({}) = {}", p, is_prime(*p));
            pr.t();
            pr.dstates += 1;
        }
        Ok(())
    });

    // prime generation
    let mut gens: Vec<(usize, u64, u64)> = vec![];
    for b in 0..=70usize {
        for step in [2u64, 3, 4, 5, 6, 7, 10, 12, 16, 30, 64, 96, 1000, 1 << 11, 1 << 14, 1 << 20] {
            if b < 64 {
                gens.push((b, step, if b == 0 { 1 } else { 1u64 << b }));
            } else {
                gens.push((b, step, u64::MAX));
            }
        }
    }
    // every bound of a small size
    let every: Vec<(usize, u64)> = vec![(10, 2), (10, 3), (10, 4), (10, 5), (10, 6), (10, 7), (10, 9), (10, 100), (11, 3), (10, 16), (10, 32), (10, 128), (10, 256), (11, 16), (12, 64), (13, 1024)];
    for (b, step) in every {
        let lo = 1u64 << (b - 1);
        for bound in lo - 3..=(1u64 << b) {
            if th || b == 10 || bound % 3 == 0 {
                gens.push((b, step, bound));
            }
        }
    }
    // successive bounds: the chain of primes used as moduli
    for b in [14usize, 20, 30, 40, 50, 60, 61, 62] {
        for n in [8u64, 64, 1024, 4096] {
            let mut bound = 1u64 << b;
            for _ in 0..ex.pick(6, 20) {
                gens.push((b, 2 * n, bound));
                match prime_below(b, 2 * n, bound) {
                    Some(p) => {
                        gens.push((b, 2 * n, p + 1));
                        bound = p;
                    }
                    None => break,
                }
            }
        }
    }
    gens.sort();
    gens.dedup();
    let ch: Vec<Vec<(usize, u64, u64)>> = gens.chunks(64).map(|c| c.to_vec()).collect();
    ex.group("prime-gen", &ch, |c| format!("{:?}..", c[0]), |c, pr| {
        for (b, step, bound) in c {
            if !(10..=62).contains(b) {
                same!(generate_prime(*b, *step, *bound), None, "generate_prime of {} bits", b);
                pr.rejected += 1;
                continue;
            }
            let got = generate_prime(*b, *step, *bound);
            let want = prime_below(*b, *step, *bound);
            pr.t();
            pr.dstates += 1;
            same!(got, want, "generate_prime({},{},{})", b, step, bound);
            pr.outcome(&got);
        }
        Ok(())
    });

    // 256-bit words: all four-word combinations of boundary words
    let w = ex.pick(vec![0u64, 1, 1 << 63, u64::MAX], vec![0u64, 1, 1 << 63, u64::MAX, 0x0123_4567_89AB_CDEF, u64::MAX - 1]);
    let mut all = vec![];
    for a in &w {
        for b in &w {
            for c in &w {
                for d in &w {
                    all.push([*a, *b, *c, *d]);
                }
            }
        }
    }
    for k in 0..256 {
        let mut x = [0u64; 4];
        x[k / 64] = 1 << (k % 64);
        all.push(x);
    }
    all.push([0x0123456789abcdef, 0xfedcba9876543210, 0xdeadbeefcafebabe, 0x0f1e2d3c4b5a6978]);
    all.push([0x9E3779B97F4A7C15, 0xD1B54A32D192ED03, 0xBF58476D1CE4E5B9, 0x94D049BB133111EB]);
    ex.group("u256", &all, |a| format!("{:x?}", a), |a, pr| wide(a, &all, pr));
    same_zero(ex);
}

fn same_zero(ex: &Arc<Ex>) {
    ex.group("u256-zero", &[()], |_| "zero".into(), |_, pr| {
        same!(<[u64; 4]>::from(U256::zero()), [0u64; 4], "zero");
        pr.t();
        Ok(())
    });
}
