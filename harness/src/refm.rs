//! Reference models: deliberately naive.

use num_bigint::{BigInt, BigUint};
use num_traits::{One, Zero};

pub fn is_prime_ref(n: u64) -> bool {
    // deterministic Miller-Rabin for 64-bit integers
    if n < 2 {
        return false;
    }
    for p in [2u64, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37] {
        if n % p == 0 {
            return n == p;
        }
    }
    let (mut d, mut s) = (n - 1, 0);
    while d % 2 == 0 {
        d /= 2;
        s += 1;
    }
    'w: for a in [2u64, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37] {
        let mut x = powmod(a, d, n);
        if x == 1 || x == n - 1 {
            continue;
        }
        for _ in 0..s - 1 {
            x = mulmod(x, x, n);
            if x == n - 1 {
                continue 'w;
            }
        }
        return false;
    }
    true
}

pub fn mulmod(a: u64, b: u64, m: u64) -> u64 {
    ((a as u128 * b as u128) % m as u128) as u64
}

pub fn powmod(a: u64, mut e: u64, m: u64) -> u64 {
    let mut r = 1 % m;
    let mut b = a % m;
    while e > 0 {
        if e & 1 == 1 {
            r = mulmod(r, b, m);
        }
        b = mulmod(b, b, m);
        e >>= 1;
    }
    r
}

/// largest prime of `bits` bits, < bound, = 1 mod step
pub fn prime_below(bits: usize, step: u64, bound: u64) -> Option<u64> {
    let lo = 1u64 << (bits - 1);
    let mut c = bound.checked_sub(1)?;
    while c >= lo && c % step != 1 {
        c -= 1;
    }
    while c >= lo {
        if is_prime_ref(c) {
            return Some(c);
        }
        if c < step {
            return None;
        }
        c -= step;
    }
    None
}

/// smallest prime of `bits` bits = 1 mod step
pub fn prime_above(bits: usize, step: u64) -> Option<u64> {
    let lo = 1u64 << (bits - 1);
    let hi = 1u64 << bits;
    let mut c = lo;
    while c % step != 1 {
        c += 1;
    }
    while c < hi {
        if is_prime_ref(c) {
            return Some(c);
        }
        c += step;
    }
    None
}

pub fn negmul(a: &[u64], b: &[u64], t: u64) -> Vec<u64> {
    let n = a.len();
    if n < 32 || t >> 62 > 0 {
        return negmul_plain(a, b, t);
    }
    // the same sums, reduced lazily: both parts stay below 2^127 + 2^124
    let k = (1u128 << 127) / t as u128 * t as u128;
    let mut pos = vec![0u128; n];
    let mut neg = vec![0u128; n];
    let add = |r: &mut u128, v: u128| {
        *r += v;
        if *r >> 127 > 0 {
            *r -= k;
        }
    };
    let b: Vec<u64> = b.iter().map(|x| x % t).collect();
    for i in 0..n {
        let x = (a[i] % t) as u128;
        if x == 0 {
            continue;
        }
        for (r, y) in pos[i..].iter_mut().zip(&b[..n - i]) {
            add(r, x * *y as u128);
        }
        for (r, y) in neg[..i].iter_mut().zip(&b[n - i..]) {
            add(r, x * *y as u128);
        }
    }
    let t = t as u128;
    pos.iter().zip(&neg).map(|(p, m)| ((p % t + t - m % t) % t) as u64).collect()
}

fn negmul_plain(a: &[u64], b: &[u64], t: u64) -> Vec<u64> {
    let n = a.len();
    let mut r = vec![0u64; n];
    for i in 0..n {
        if a[i] == 0 {
            continue;
        }
        for j in 0..n {
            if b[j] == 0 {
                continue;
            }
            let v = mulmod(a[i], b[j], t);
            let k = (i + j) % n;
            if i + j < n {
                r[k] = ((r[k] as u128 + v as u128) % t as u128) as u64;
            } else {
                r[k] = ((r[k] as u128 + (t - v) as u128) % t as u128) as u64;
            }
        }
    }
    r
}

pub fn addv(a: &[u64], b: &[u64], t: u64) -> Vec<u64> {
    a.iter()
        .zip(b)
        .map(|(x, y)| ((*x as u128 + *y as u128) % t as u128) as u64)
        .collect()
}

pub fn subv(a: &[u64], b: &[u64], t: u64) -> Vec<u64> {
    a.iter()
        .zip(b)
        .map(|(x, y)| ((*x as u128 + (t - y % t) as u128) % t as u128) as u64)
        .collect()
}

/// p(X) -> p(X^k) mod X^n + 1
pub fn subst(a: &[u64], k: usize, t: u64) -> Vec<u64> {
    let n = a.len();
    let mut r = vec![0u64; n];
    for j in 0..n {
        let e = (j * (k % (2 * n))) % (2 * n);
        if e < n {
            r[e] = (r[e] + a[j]) % t;
        } else {
            r[e - n] = (r[e - n] + (t - a[j] % t) % t) % t;
        }
    }
    r
}

pub fn product(ms: &[u64]) -> BigUint {
    ms.iter().fold(BigUint::one(), |a, m| a * *m)
}

/// own CRT (prime moduli)
pub fn crt(rests: &[u64], ms: &[u64]) -> BigUint {
    let q = product(ms);
    let mut r = BigUint::zero();
    for (x, m) in rests.iter().zip(ms) {
        let star = &q / *m;
        let sm = u64::try_from(&star % *m).unwrap();
        let inv = powmod(sm, m - 2, *m);
        r += star * mulmod(*x % m, inv, *m);
    }
    r % q
}

pub fn big_negmul(a: &[BigUint], b: &[BigUint], q: &BigUint) -> Vec<BigUint> {
    let n = a.len();
    let mut pos = vec![BigUint::zero(); n];
    let mut neg = vec![BigUint::zero(); n];
    for i in 0..n {
        if a[i].is_zero() {
            continue;
        }
        for j in 0..n {
            if b[j].is_zero() {
                continue;
            }
            let v = &a[i] * &b[j];
            if i + j < n {
                pos[i + j] += v;
            } else {
                neg[i + j - n] += v;
            }
        }
    }
    (0..n)
        .map(|i| ((&pos[i] % q) + q - (&neg[i] % q)) % q)
        .collect()
}

pub fn big_add(a: &[BigUint], b: &[BigUint], q: &BigUint) -> Vec<BigUint> {
    a.iter().zip(b).map(|(x, y)| (x + y) % q).collect()
}

pub fn big_sub(a: &[BigUint], b: &[BigUint], q: &BigUint) -> Vec<BigUint> {
    a.iter().zip(b).map(|(x, y)| (x % q + q - y % q) % q).collect()
}

pub fn big_neg(a: &[BigUint], q: &BigUint) -> Vec<BigUint> {
    a.iter().map(|x| (q - x % q) % q).collect()
}

pub fn big_subst(a: &[BigUint], k: usize, q: &BigUint) -> Vec<BigUint> {
    let n = a.len();
    let mut r = vec![BigUint::zero(); n];
    for j in 0..n {
        let e = (j * (k % (2 * n))) % (2 * n);
        if e < n {
            r[e] = (&r[e] + &a[j]) % q;
        } else {
            r[e - n] = (&r[e - n] + q - (&a[j] % q)) % q;
        }
    }
    r
}

/// signed integer mod q
pub fn big_of_i64(v: i64, q: &BigUint) -> BigUint {
    let qi = BigInt::from(q.clone());
    let r = ((BigInt::from(v) % &qi) + &qi) % &qi;
    r.to_biguint().unwrap()
}

/// centred magnitude
pub fn cmag(x: &BigUint, q: &BigUint) -> BigUint {
    let o = q - x;
    if *x < o {
        x.clone()
    } else {
        o
    }
}

/// centred signed value of a residue
pub fn centred(x: &BigUint, q: &BigUint) -> BigInt {
    let half = q >> 1usize;
    if *x > half {
        BigInt::from(x.clone()) - BigInt::from(q.clone())
    } else {
        BigInt::from(x.clone())
    }
}
