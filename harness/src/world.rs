//! Shared vocabulary of the BFV-level checks: parameter sets, environment
//! policies (what the code under test is answered when it asks for
//! randomness), secret keys, and reading ciphertexts with our own arithmetic.

use crate::refm::*;
use num_bigint::BigUint;
use onion_pir::verif::*;
use rand::ctl::{self, Mode, Pattern};
use std::sync::Arc;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Env {
    Zero,
    Max,
    Min,
    Alt,
    Prng(u64),
}

impl Env {
    pub fn set(&self, variance: usize) {
        let pat = |p| Mode::Pattern {
            variance,
            pattern: p,
        };
        match self {
            Env::Zero => ctl::set(pat(Pattern::Zero), 11),
            Env::Max => ctl::set(pat(Pattern::Max), 12),
            Env::Min => ctl::set(pat(Pattern::Min), 13),
            Env::Alt => ctl::set(pat(Pattern::Alt), 14),
            Env::Prng(s) => ctl::set(Mode::Prng, *s),
        }
    }
}

pub const ENVS: [Env; 5] = [Env::Zero, Env::Max, Env::Min, Env::Alt, Env::Prng(7)];

/// Parameter-set descriptor.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Cfg {
    pub n: usize,
    pub t: u64,
    pub moduli: Vec<u64>,
    pub var: usize,
}

impl Cfg {
    /// moduli given by bit sizes: largest primes of that size, distinct
    pub fn bits(n: usize, t: u64, sizes: &[usize], var: usize) -> Cfg {
        Cfg {
            n,
            t,
            moduli: primes(n, sizes),
            var,
        }
    }
    pub fn raw(n: usize, t: u64, moduli: &[u64], var: usize) -> Cfg {
        Cfg {
            n,
            t,
            moduli: moduli.to_vec(),
            var,
        }
    }
    pub fn id(&self) -> String {
        let b: Vec<String> = self
            .moduli
            .iter()
            .map(|m| {
                if *m < 100_000 {
                    format!("{}", m)
                } else {
                    format!("{}b{:x}", 64 - m.leading_zeros(), m & 0xfff)
                }
            })
            .collect();
        format!("n{}t{}q{}v{}", self.n, self.t, b.join("."), self.var)
    }
    pub fn build(&self) -> Arc<BfvParameters> {
        Arc::new(BfvParameters::new(
            self.n,
            self.t,
            self.moduli.clone(),
            self.var,
            bd(),
        ))
    }
    pub fn level_moduli(&self, level: usize) -> Vec<u64> {
        self.moduli[..self.moduli.len() - level].to_vec()
    }
    pub fn q(&self, level: usize) -> BigUint {
        product(&self.level_moduli(level))
    }
}

pub fn bd() -> BitDecomposition {
    BitDecomposition { base: 4, l: 8 }
}

/// distinct primes = 1 mod 2n of the given sizes (own search)
pub fn primes(n: usize, sizes: &[usize]) -> Vec<u64> {
    let mut v: Vec<u64> = vec![];
    for s in sizes {
        let mut b = 1u64 << s;
        loop {
            let p = prime_below(*s, 2 * n as u64, b).expect("no prime of this size");
            if !v.contains(&p) {
                v.push(p);
                break;
            }
            b = p;
        }
    }
    v
}

pub fn ctx(moduli: &[u64], n: usize) -> Arc<RqContext> {
    Arc::new(RqContext::new(moduli.to_vec(), n, bd()))
}

/// Secret keys: every shape the sampler can produce that the algebra can tell apart.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Key {
    One,
    X,
    Tern,
    MaxAll,
    AltMax,
    Mixed,
}

pub const KEYS: [Key; 6] = [
    Key::One,
    Key::X,
    Key::Tern,
    Key::MaxAll,
    Key::AltMax,
    Key::Mixed,
];

impl Key {
    pub fn coeffs(&self, n: usize, var: usize) -> Vec<i64> {
        let m = 2 * var as i64;
        (0..n)
            .map(|i| match self {
                Key::One => (i == 0) as i64,
                Key::X => (i == 1) as i64,
                Key::Tern => [1, -1, 0, -1, 1, 1, 0, 0, -1, 0, 1][(i * i + i) % 11],
                Key::MaxAll => m,
                Key::AltMax => {
                    if i % 2 == 0 {
                        m
                    } else {
                        -m
                    }
                }
                Key::Mixed => ((i as i64 * 7 + 3) % (2 * m + 1)) - m,
            })
            .collect()
    }
    pub fn sk(&self, p: &Arc<BfvParameters>) -> SecretKey {
        SecretKey::new(self.coeffs(p.degree, p.variance), p)
    }
}

/// residues of a polynomial, coefficient form: [modulus][coefficient]
pub fn residues(p: &Poly) -> Vec<Vec<u64>> {
    let mut q = p.clone();
    if q.representation != Representation::PowerBasis {
        q.change_representation(Representation::PowerBasis);
    }
    q.coefficients().outer_iter().map(|r| r.to_vec()).collect()
}

/// coefficients as integers in [0,Q), own CRT
pub fn read(p: &Poly) -> Vec<BigUint> {
    from_residues(&residues(p), &p.context.moduli_64)
}

pub fn from_residues(rs: &[Vec<u64>], ms: &[u64]) -> Vec<BigUint> {
    let n = rs[0].len();
    let q = product(ms);
    let g: Vec<BigUint> = (0..ms.len())
        .map(|i| {
            let mut e = vec![0u64; ms.len()];
            e[i] = 1;
            crt(&e, ms)
        })
        .collect();
    (0..n)
        .map(|j| {
            let mut s = BigUint::from(0u32);
            for i in 0..ms.len() {
                s += &g[i] * rs[i][j];
            }
            s % &q
        })
        .collect()
}

/// negacyclic product modulo the product of the moduli, one modulus at a time
pub fn big_negmul_rns(a: &[BigUint], b: &[BigUint], ms: &[u64]) -> Vec<BigUint> {
    let r = |v: &[BigUint], m: u64| -> Vec<u64> { v.iter().map(|x| u64::try_from(x % m).unwrap()).collect() };
    from_residues(&ms.iter().map(|m| negmul(&r(a, *m), &r(b, *m), *m)).collect::<Vec<_>>(), ms)
}

pub fn key_residue(s: &[i64], m: u64) -> Vec<u64> {
    s.iter()
        .map(|x| (*x as i128).rem_euclid(m as i128) as u64)
        .collect()
}

/// phase = sum_i c_i * s^i, own schoolbook arithmetic
pub fn phase(cts: &[Poly], s: &[i64]) -> Vec<BigUint> {
    let ms = cts[0].context.moduli_64.clone();
    let rs: Vec<Vec<Vec<u64>>> = cts.iter().map(residues).collect();
    let mut out = vec![];
    for (i, m) in ms.iter().enumerate() {
        let sk = key_residue(s, *m);
        let mut acc = rs[0][i].clone();
        let mut pw = sk.clone();
        for c in rs.iter().skip(1) {
            acc = addv(&acc, &negmul(&c[i], &pw, *m), *m);
            pw = negmul(&pw, &sk, *m);
        }
        out.push(acc);
    }
    from_residues(&out, &ms)
}

/// floor(Q*m/t)
pub fn scaled(m: &[u64], q: &BigUint, t: u64) -> Vec<BigUint> {
    m.iter().map(|x| (q * *x) / t).collect()
}

/// what an ideal decryptor returns for a phase: round(t*x/Q) mod t
pub fn ideal_decrypt(ph: &[BigUint], q: &BigUint, t: u64) -> Vec<u64> {
    ph.iter()
        .map(|x| {
            let r: BigUint = ((x * t * 2u32) + q) / (q * 2u32);
            u64::try_from(r % t).unwrap()
        })
        .collect()
}

pub fn max_err(a: &[BigUint], b: &[BigUint], q: &BigUint) -> BigUint {
    big_sub(a, b, q)
        .iter()
        .map(|x| cmag(x, q))
        .max()
        .unwrap_or_default()
}

/// sum over the moduli of N*(q_i-1)*2*variance
pub fn ks_bound(ms: &[u64], n: usize, var: usize) -> BigUint {
    ms.iter()
        .map(|m| BigUint::from(*m - 1) * (n as u64) * (2 * var as u64))
        .sum()
}

pub fn poly_ntt_u64(c: &Arc<RqContext>, v: &[u64]) -> Poly {
    let mut p = Poly::try_from_vec_u64(c, v);
    p.change_representation(Representation::Ntt);
    p
}

pub fn poly_ntt_big(c: &Arc<RqContext>, v: &[BigUint]) -> Poly {
    let mut p = Poly::try_from_bigint(c, v);
    p.change_representation(Representation::Ntt);
    p
}

/// deterministic full-range vector (fixed stream, part of the case identity)
pub fn stream(n: usize, bound: u64, salt: u64) -> Vec<u64> {
    let mut x = salt.wrapping_mul(0x9E3779B97F4A7C15).wrapping_add(0x1234567);
    (0..n)
        .map(|_| {
            x = x.wrapping_add(0x9E3779B97F4A7C15);
            let mut z = x;
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
            (z ^ (z >> 31)) % bound
        })
        .collect()
}

/// message alphabet: zero, constants, monomials at every position, pairs,
/// saturated vectors, full-range streams
pub fn messages(n: usize, t: u64, pairs: bool) -> Vec<Vec<u64>> {
    let vals = {
        let mut v = vec![1, 2, t / 2, t / 2 + 1, t - 2, t - 1];
        v.sort();
        v.dedup();
        v
    };
    let mut out = vec![vec![0; n]];
    for v in &vals {
        out.push(vec![*v; n]);
    }
    for i in 0..n {
        for v in &vals {
            let mut m = vec![0; n];
            m[i] = *v;
            out.push(m);
        }
    }
    if pairs {
        for i in 0..n {
            for j in i + 1..n {
                for (a, b) in [(1, t - 1), (t - 1, t - 1), (t / 2, t / 2 + 1)] {
                    let mut m = vec![0; n];
                    m[i] = a;
                    m[j] = b;
                    out.push(m);
                }
            }
        }
    }
    out.push((0..n as u64).map(|i| (i + 1) % t).collect());
    out.push((0..n as u64).map(|i| (t - 1) - i % t).collect());
    out.push((0..n as u64).map(|i| if i % 2 == 0 { t - 1 } else { 0 }).collect());
    for s in 0..4 {
        out.push(stream(n, t, s));
    }
    out
}

/// all vectors over an alphabet
pub fn all_vectors(n: usize, alpha: &[u64]) -> Vec<Vec<u64>> {
    let mut out = vec![vec![]];
    for _ in 0..n {
        let mut nx = Vec::with_capacity(out.len() * alpha.len());
        for v in &out {
            for a in alpha {
                let mut w = v.clone();
                w.push(*a);
                nx.push(w);
            }
        }
        out = nx;
    }
    out
}

pub fn pt(p: &Arc<BfvParameters>, v: &[u64], level: usize) -> Plaintext {
    Plaintext::new(p, &v.to_vec(), level, Encoding::Poly)
}

pub fn ct_of(p: &Arc<BfvParameters>, pair: (Poly, Poly), level: usize) -> BfvCipherText {
    BfvCipherText {
        params: p.clone(),
        cts: vec![pair.0, pair.1],
        level,
    }
}
