use crate::engine::{guard, Ex, Probe};
use crate::influence::{analyse, Obs};
use crate::world::*;
use crate::{ensure, same};
use num_bigint::BigUint;
use onion_pir::verif::utils::sample_vec_cbd;
use onion_pir::verif::*;
use rand::{CryptoRng, Error, RngCore};
use std::sync::Arc;

/// a generator whose output is a given bit string (then zeros)
pub struct Bits {
    pub w: Vec<u64>,
    pub pos: usize,
}

impl Bits {
    pub fn new(w: Vec<u64>) -> Bits {
        Bits { w, pos: 0 }
    }
    fn take(&mut self, n: usize) -> u64 {
        let (k, o) = (self.pos / 64, self.pos % 64);
        let at = |i| self.w.get(i).copied().unwrap_or(0);
        let r = at(k) >> o | if o > 0 { at(k + 1) << (64 - o) } else { 0 };
        self.pos += n;
        if n < 64 {
            r & ((1 << n) - 1)
        } else {
            r
        }
    }
}

impl RngCore for Bits {
    fn next_u32(&mut self) -> u32 {
        self.take(32) as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.take(64)
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for x in d {
            *x = self.take(8) as u8;
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
impl CryptoRng for Bits {}

/// (coefficient, +1/-1) of every stream bit
type Infl = Vec<Option<(usize, i64)>>;

fn influence(v: usize, len: usize, base: &[u64], pr: &mut Probe) -> Result<(Infl, usize), String> {
    let mut r = Bits::new(base.to_vec());
    let zero = sample_vec_cbd(len, v, &mut r);
    let used = r.pos;
    same!(zero.len(), len, "number of samples");
    let mut map = vec![None; used];
    for k in 0..used {
        let mut w = base.to_vec();
        w.resize(used / 64 + 1, 0);
        let was = (w[k / 64] >> (k % 64)) & 1 == 1;
        w[k / 64] ^= 1 << (k % 64);
        let o = sample_vec_cbd(len, v, &mut Bits::new(w));
        pr.t();
        pr.dstates += 1;
        let ch: Vec<(usize, i64)> = o.iter().zip(&zero).enumerate().filter(|(_, (a, b))| a != b).map(|(i, (a, b))| (i, a - b)).collect();
        ensure!(ch.len() <= 1, "variance {} length {}: random bit {} decides several coefficients {:?}", v, len, k, ch);
        if let Some((i, d)) = ch.first() {
            ensure!(d.abs() == 1, "variance {} length {}: bit {} changes coefficient {} by {}", v, len, k, i, d);
            map[k] = Some((*i, if was { -d } else { *d }));
        }
    }
    Ok((map, used))
}

fn eval(map: &Infl, w: &[u64], len: usize) -> Vec<i64> {
    let mut o = vec![0; len];
    for (k, m) in map.iter().enumerate() {
        if let Some((i, s)) = m {
            if (w.get(k / 64).copied().unwrap_or(0) >> (k % 64)) & 1 == 1 {
                o[*i] += s;
            }
        }
    }
    o
}

fn sampler(c: &(usize, usize), pr: &mut Probe) -> Result<(), String> {
    let (v, len) = *c;
    let (map, used) = influence(v, len, &[], pr)?;
    for i in 0..len {
        let p = map.iter().flatten().filter(|(j, s)| *j == i && *s == 1).count();
        let m = map.iter().flatten().filter(|(j, s)| *j == i && *s == -1).count();
        ensure!(p == 2 * v && m == 2 * v, "variance {} length {}: coefficient {} = sum of {} bits - sum of {} bits", v, len, i, p, m);
    }
    let words = used / 64 + 1;
    // the same map from other starting points, and as a sum everywhere
    let mut bases: Vec<Vec<u64>> = vec![vec![u64::MAX; words], vec![0x5555_5555_5555_5555; words], vec![0xFFFF_0000_FFFF_0000; words]];
    for s in 0..6 {
        bases.push(stream(words, u64::MAX, s * 31 + v as u64));
    }
    for (i, b) in bases.iter().enumerate() {
        let o = sample_vec_cbd(len, v, &mut Bits::new(b.clone()));
        pr.t();
        let want = eval(&map, b, len);
        same!(o, want, "variance {} length {} on stream {}", v, len, i);
        pr.outcome(&o);
        if len <= 9 && i < 4 {
            let (m2, _) = influence(v, len, b, pr)?;
            ensure!(m2 == map, "variance {} length {}: role of the bits depends on the other bits", v, len);
        }
    }
    Ok(())
}

fn all_streams(c: &(usize, usize), pr: &mut Probe) -> Result<(), String> {
    let (v, len) = *c;
    let nb = 4 * v * len;
    let (map, used) = influence(v, len, &[], pr)?;
    // enumerate all values of the bits that matter
    let pos: Vec<usize> = (0..used).filter(|k| map[*k].is_some()).collect();
    same!(pos.len(), nb, "bits that matter");
    for x in 0..1u64 << nb {
        let mut w = vec![0u64; used / 64 + 1];
        for (i, p) in pos.iter().enumerate() {
            w[p / 64] |= ((x >> i) & 1) << (p % 64);
        }
        let o = sample_vec_cbd(len, v, &mut Bits::new(w.clone()));
        pr.t();
        pr.dstates += 1;
        same!(o, eval(&map, &w, len), "variance {} length {} on stream {:x?}", v, len, w);
    }
    Ok(())
}

fn small(c: &(Vec<u64>, usize, usize), pr: &mut Probe) -> Result<(), String> {
    let (ms, n, v) = c;
    let cx = ctx(ms, *n);
    let (map, used) = influence(*v, *n, &[], pr)?;
    let words = used / 64 + 1;
    let mut streams = vec![vec![0; words], vec![u64::MAX; words]];
    for k in 0..used {
        let mut w = vec![0; words];
        w[k / 64] |= 1 << (k % 64);
        streams.push(w);
    }
    for s in 0..8 {
        streams.push(stream(words, u64::MAX, s + 77));
    }
    // all positive, all negative
    for sgn in [1, -1] {
        let mut w = vec![0u64; words];
        for (k, m) in map.iter().enumerate() {
            if m.map_or(false, |(_, s)| s == sgn) {
                w[k / 64] |= 1 << (k % 64);
            }
        }
        streams.push(w);
    }
    for w in &streams {
        let want = eval(&map, w, *n);
        for rep in [Representation::PowerBasis, Representation::Ntt] {
            let p = Poly::random_small(&cx, rep.clone(), *v, &mut Bits::new(w.clone()));
            pr.t();
            pr.dstates += 1;
            ensure!(p.representation == rep, "representation");
            ensure!(p.context == cx, "context");
            let rs = residues(&p);
            for (i, m) in ms.iter().enumerate() {
                same!(rs[i], key_residue(&want, *m), "small polynomial mod {} for variance {}", m, v);
            }
        }
    }
    Ok(())
}

fn keygen(c: &Cfg, pr: &mut Probe) -> Result<(), String> {
    let p = c.build();
    for seed in [1u64, 2] {
        // two keys generated in a row: no bit may be used twice
        analyse(
            seed,
            2 * c.var,
            0,
            || {
                let a = SecretKey::generate(&p);
                let b = SecretKey::generate(&p);
                ensure!(a.coeffs.len() == c.n, "key has {} coefficients", a.coeffs.len());
                Ok(Obs { masks: vec![], errs: vec![a.coeffs.to_vec(), b.coeffs.to_vec()] })
            },
            pr,
        )?;
    }
    // a key given by its coefficients keeps them
    for k in KEYS {
        let s = k.sk(&p);
        same!(s.coeffs.to_vec(), k.coeffs(c.n, c.var), "coefficients of SecretKey::new");
    }
    Ok(())
}

/// the error of an encryption, at every level
fn enc_err(c: &Cfg, pr: &mut Probe) -> Result<(), String> {
    let p = c.build();
    let sk = Key::Mixed.sk(&p);
    for level in 0..c.moduli.len() {
        let q = c.q(level);
        analyse(
            5 + level as u64,
            2 * c.var,
            0,
            || {
                let ct = sk.encrypt(&pt(&p, &[], level));
                let ph = phase(&ct.cts, &sk.coeffs);
                Ok(Obs { masks: vec![], errs: vec![small_ints(&ph, &q)?] })
            },
            pr,
        )?;
    }
    Ok(())
}

/// centred integers, which have to be small
pub fn small_ints(v: &[BigUint], q: &BigUint) -> Result<Vec<i64>, String> {
    v.iter()
        .map(|x| {
            let c = crate::refm::centred(x, q);
            match i64::try_from(&c) {
                Ok(x) if x.abs() < 1 << 20 => Ok(x),
                _ => Err(format!("sample carries an error of {} bits", c.bits())),
            }
        })
        .collect()
}

pub fn run(ex: &Arc<Ex>) {
    let th = ex.thorough;
    let mut v = vec![];
    for var in 1..=16 {
        for len in 0..=ex.pick(17, 40) {
            v.push((var, len));
        }
        for len in ex.pick(vec![32, 64, 100], vec![64, 100, 128, 256, 333]) {
            v.push((var, len));
        }
    }
    ex.group("sampler", &v, |c| format!("v{}-len{}", c.0, c.1), sampler);
    // the degrees used in practice
    let mut v = vec![];
    for var in 1..=16 {
        v.push((var, 1024));
        if th || [1, 5, 10, 16].contains(&var) {
            v.push((var, 2048));
        }
        if th || [2, 10, 13].contains(&var) {
            v.push((var, 4096));
        }
        if th && [3, 10, 16].contains(&var) {
            v.push((var, 8192));
        }
    }
    v.reverse();
    ex.group("sampler-large", &v, |c| format!("v{}-len{}", c.0, c.1), sampler);
    let v: Vec<(usize, usize)> = if th {
        vec![(1, 1), (1, 2), (1, 3), (1, 4), (1, 5), (2, 1), (2, 2), (3, 1), (4, 1), (5, 1)]
    } else {
        vec![(1, 1), (1, 2), (1, 3), (1, 4), (2, 1), (2, 2), (3, 1), (4, 1)]
    };
    ex.group("all-streams", &v, |c| format!("v{}-len{}", c.0, c.1), all_streams);
    let bad = [0usize, 17, 18, 20, 31, 32, 33, 64, 1 << 20, usize::MAX];
    ex.group("refused-variance", &bad, |v| format!("v{}", v), |v, pr| {
        let r = guard(|| sample_vec_cbd(8, *v, &mut Bits::new(vec![])));
        ensure!(r.is_err(), "variance {} accepted", v);
        let cx = ctx(&[97, 193], 8);
        let r = guard(|| Poly::random_small(&cx, Representation::Ntt, *v, &mut Bits::new(vec![])));
        ensure!(r.is_err(), "variance {} accepted for polynomials", v);
        pr.tn(2);
        pr.rejected += 2;
        Ok(())
    });
    let mut v = vec![];
    for var in 1..=16 {
        v.push((vec![97u64, 113, 193], 8, var));
        v.push((primes(16, &[62, 20, 40]), 16, var));
        if th {
            v.push((primes(64, &[62, 30, 50, 62]), 64, var));
        }
    }
    ex.group("random-small", &v, |c| format!("n{}-v{}-k{}", c.1, c.2, c.0.len()), small);
    let mut v = vec![];
    for var in 1..=16 {
        v.push(Cfg::bits(8, 17, &[30, 40], var));
        v.push(Cfg::bits(16, 97, &[62, 50, 20], var));
    }
    v.push(Cfg::bits(64, 257, &[50, 50], 10));
    ex.group("key", &v, |c| c.id(), keygen);
    ex.group("encryption-error", &v[..if th { v.len() } else { 8 }], |c| c.id(), enc_err);
}
