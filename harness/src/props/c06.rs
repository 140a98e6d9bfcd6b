use crate::engine::{Ex, Probe};
use crate::refm::*;
use crate::world::*;
use crate::{ensure, same};
use num_bigint::{BigInt, BigUint};
use onion_pir::verif::*;
use std::sync::Arc;

#[derive(Clone, Debug)]
struct Case {
    cfg: Cfg,
    env: Env,
    key: Key,
    level: usize,
    /// only the tensor product (no key switching budget at this level)
    tensor_only: bool,
    full: bool,
}

fn alphabet(n: usize, t: u64, full: bool) -> Vec<Vec<u64>> {
    let mut v = vec![vec![0; n], vec![1; n], vec![t - 1; n]];
    let vals: &[u64] = if full { &[1, t / 2, t - 1] } else { &[t - 1] };
    for i in 0..n {
        for x in vals {
            let mut m = vec![0; n];
            m[i] = *x;
            v.push(m);
        }
    }
    v.push((0..n as u64).map(|i| (i * i + 1) % t).collect());
    v.push((0..n as u64).map(|i| if i % 2 == 0 { t / 2 } else { t / 2 + 1 }).collect());
    v.push(stream(n, t, 1));
    v
}

fn case(c: &Case, pr: &mut Probe) -> Result<(), String> {
    let (n, t) = (c.cfg.n, c.cfg.t);
    let p = c.cfg.build();
    c.env.set(c.cfg.var);
    let sk = c.key.sk(&p);
    let ms = alphabet(n, t, c.full);
    let cts: Vec<BfvCipherText> = ms.iter().map(|m| sk.encrypt(&pt(&p, m, c.level))).collect();
    let rlk = if c.tensor_only { None } else { Some(RelinearizationKey::new(&sk, c.level)) };
    for i in 0..ms.len() {
        for j in 0..ms.len() {
            let want = negmul(&ms[i], &ms[j], t);
            pr.dstates += 1;
            pr.tn(2);
            let x = &cts[i] * &cts[j];
            same!(x.cts.len(), 3, "components of the tensor product");
            same!(x.level, c.level, "level of the tensor product");
            let d = sk.decrypt(&x);
            ensure!(
                d.values.to_vec() == want,
                "tensor product {:?} * {:?} at level {} decrypts to {:?}, expected {:?}",
                ms[i], ms[j], c.level, d.values, want
            );
            same!(d.level, c.level, "plaintext level");
            pr.outcome(&want);
            if let Some(rlk) = &rlk {
                pr.tn(2);
                let r = multiply_with_strategy(&cts[i], &cts[j], rlk);
                same!(r.cts.len(), 2, "components after relinearization");
                same!(r.level, c.level, "level after relinearization");
                let d = sk.decrypt(&r).values.to_vec();
                ensure!(
                    d == want,
                    "relinearized product {:?} * {:?} at level {} decrypts to {:?}, expected {:?}",
                    ms[i], ms[j], c.level, d, want
                );
                if i % 5 == 0 && j % 3 == 0 {
                    // relinearizing the tensor product by hand, in both representations
                    let mut q = x.cts[2].clone();
                    if (i + j) % 2 == 0 {
                        q.change_representation(Representation::PowerBasis);
                    }
                    let (r0, r1) = rlk.relinearize_poly(&q);
                    let ct = ct_of(&p, (&x.cts[0] + &r0, &x.cts[1] + &r1), c.level);
                    pr.tn(2);
                    same!(sk.decrypt(&ct).values.to_vec(), want, "tensor product relinearized separately");
                }
            }
        }
    }
    // squaring the same ciphertext object, and chained products
    for i in (0..ms.len()).step_by(3) {
        let sq = negmul(&ms[i], &ms[i], t);
        let x = &cts[i] * &cts[i];
        pr.tn(2);
        same!(sk.decrypt(&x).values.to_vec(), sq, "square of {:?}", ms[i]);
        if c.level == 0 && c.cfg.moduli.len() > 2 {
            for j in (0..ms.len()).step_by(4) {
                let w = negmul(&sq, &ms[j], t);
                pr.tn(2);
                let y = &x * &cts[j];
                same!(sk.decrypt(&y).values.to_vec(), w, "three-fold tensor product");
                if let Some(rlk) = &rlk {
                    let y = multiply_with_strategy(&multiply_with_strategy(&cts[i], &cts[i], rlk), &cts[j], rlk);
                    same!(sk.decrypt(&y).values.to_vec(), w, "three-fold relinearized product");
                }
            }
        }
    }
    Ok(())
}

#[derive(Clone, Debug)]
struct XCase {
    cfg: Cfg,
    key: Key,
    level: usize,
}

/// Ciphertexts with chosen masks at the extremes of the modulus: the tensor
/// product reaches its largest possible coefficients.
fn extremes(c: &XCase, pr: &mut Probe) -> Result<(), String> {
    let (n, t) = (c.cfg.n, c.cfg.t);
    let p = c.cfg.build();
    let s = c.key.coeffs(n, c.cfg.var);
    let sk = SecretKey::new(s.clone(), &p);
    let ms = c.cfg.level_moduli(c.level);
    let q = c.cfg.q(c.level);
    let ctx = p.q_ctxs[c.level].clone();
    let h = &q / 2u32; // largest centred value
    let lo = &q - &h; // smallest centred value
    let zero = BigUint::from(0u32);
    let masks: Vec<Vec<BigUint>> = vec![
        vec![h.clone(); n],
        vec![lo.clone(); n],
        (0..n).map(|i| if i % 2 == 0 { h.clone() } else { lo.clone() }).collect(),
        (0..n).map(|i| if i == 0 { h.clone() } else { lo.clone() }).collect(),
        (0..n).map(|i| if i < n / 2 { h.clone() } else { lo.clone() }).collect(),
        (0..n).map(|i| if i == n - 1 { lo.clone() } else { zero.clone() }).collect(),
        vec![zero.clone(); n],
        vec![&q - 1u32; n],
    ];
    let mut cts = vec![];
    for (k, a) in masks.iter().enumerate() {
        let m: Vec<u64> = match k % 3 {
            0 => vec![t - 1; n],
            1 => stream(n, t, k as u64),
            _ => (0..n as u64).map(|i| if i == 0 { 1 } else { 0 }).collect(),
        };
        // c0 = floor(Q m / t) + e - a s
        let sc = scaled(&m, &q, t);
        let mut rows = vec![];
        for x in &ms {
            let ar: Vec<u64> = a.iter().map(|v| u64::try_from(v % *x).unwrap()).collect();
            let pr = negmul(&ar, &key_residue(&s, *x), *x);
            let sr: Vec<u64> = sc.iter().enumerate().map(|(i, v)| u64::try_from((v + (i % 2) as u32) % *x).unwrap()).collect();
            rows.push(subv(&sr, &pr, *x));
        }
        let c0 = poly_ntt_big(&ctx, &from_residues(&rows, &ms));
        let c1 = poly_ntt_big(&ctx, a);
        let ct = ct_of(&p, (c0, c1), c.level);
        same!(sk.decrypt(&ct).values.to_vec(), m, "extreme ciphertext {}", k);
        cts.push((ct, m));
    }
    for (i, (x, mx)) in cts.iter().enumerate() {
        for (j, (y, my)) in cts.iter().enumerate() {
            let w = negmul(mx, my, t);
            let z = x * y;
            pr.tn(2);
            pr.dstates += 1;
            let d = sk.decrypt(&z).values.to_vec();
            ensure!(d == w, "product of the ciphertexts with masks {} and {}: {:?} * {:?} decrypts to {:?}, expected {:?}", i, j, mx, my, d, w);
            pr.outcome(&w);
        }
    }
    Ok(())
}

fn int_negmul(a: &[BigInt], b: &[BigInt]) -> Vec<BigInt> {
    let n = a.len();
    let mut r = vec![BigInt::from(0); n];
    for i in 0..n {
        for j in 0..n {
            let v = &a[i] * &b[j];
            if i + j < n {
                r[i + j] += v;
            } else {
                r[i + j - n] -= v;
            }
        }
    }
    r
}

fn floor_div(a: &BigInt, b: &BigInt) -> BigInt {
    let q = a / b;
    if &q * b > *a {
        q - 1
    } else {
        q
    }
}

/// the textbook product: exact integer tensor of the centred components,
/// scaled by t/Q and rounded; its phase under s
fn textbook(x: &BfvCipherText, y: &BfvCipherText, s: &[i64], q: &BigUint, t: u64) -> Vec<BigUint> {
    let qi = BigInt::from(q.clone());
    let lift = |c: &BfvCipherText| -> Vec<Vec<BigInt>> {
        c.cts.iter().map(|p| read(p).iter().map(|v| centred(v, q)).collect()).collect()
    };
    let (a, b) = (lift(x), lift(y));
    let n = s.len();
    let sk: Vec<BigInt> = s.iter().map(|v| BigInt::from(*v)).collect();
    let mut acc = vec![BigInt::from(0); n];
    let mut pw: Vec<BigInt> = (0..n).map(|i| BigInt::from((i == 0) as i32)).collect();
    for k in 0..a.len() + b.len() - 1 {
        let mut c = vec![BigInt::from(0); n];
        for i in 0..a.len() {
            if k >= i && k - i < b.len() {
                for (d, v) in c.iter_mut().zip(int_negmul(&a[i], &b[k - i])) {
                    *d += v;
                }
            }
        }
        let c: Vec<BigInt> = c.iter().map(|v| floor_div(&(v * t * 2 + &qi), &(&qi * 2))).collect();
        for (d, v) in acc.iter_mut().zip(int_negmul(&c, &pw)) {
            *d += v;
        }
        pw = int_negmul(&pw, &sk);
    }
    acc.iter()
        .map(|v| {
            let r = v - floor_div(v, &qi) * &qi;
            r.to_biguint().unwrap()
        })
        .collect()
}

#[derive(Clone, Debug)]
struct TCase {
    cfg: Cfg,
    env: Env,
    key: Key,
    level: usize,
}

/// Parameters whose budget is nearly used up: whenever four times the noise
/// of the textbook product (and the worst case of the key switch) still fits,
/// the product has to decrypt.
fn tight(c: &TCase, pr: &mut Probe) -> Result<(), String> {
    let (n, t) = (c.cfg.n, c.cfg.t);
    let p = c.cfg.build();
    c.env.set(c.cfg.var);
    let sk = c.key.sk(&p);
    let s = sk.coeffs.to_vec();
    let q = c.cfg.q(c.level);
    let ms = c.cfg.level_moduli(c.level);
    let limit = &q / (2 * t);
    let s1: u64 = s.iter().map(|x| x.unsigned_abs()).sum();
    let slack = BigUint::from(8 * (1 + s1 + s1 * s1));
    let msgs = [
        vec![1; n],
        vec![t - 1; n],
        vec![t / 2; n],
        (0..n).map(|i| ((i == n - 1) as u64) * (t - 1)).collect(),
        stream(n, t, 1),
        stream(n, t, 2),
    ];
    // fresh encryptions have to decrypt in the first place
    if BigUint::from(2 * c.cfg.var as u64 + 1) >= limit {
        return Ok(());
    }
    let cts: Vec<BfvCipherText> = msgs.iter().map(|m| sk.encrypt(&pt(&p, m, c.level))).collect();
    let rlk = if c.cfg.moduli.len() > 1 { Some(RelinearizationKey::new(&sk, c.level)) } else { None };
    let ks = ks_bound(&ms, n, c.cfg.var);
    for i in 0..msgs.len() {
        for j in 0..msgs.len() {
            let want = negmul(&msgs[i], &msgs[j], t);
            let ideal = textbook(&cts[i], &cts[j], &s, &q, t);
            let err = max_err(&ideal, &scaled(&want, &q, t), &q) * 4u32 + &slack;
            if err >= limit {
                continue;
            }
            pr.tn(2);
            pr.dstates += 1;
            let d = sk.decrypt(&(&cts[i] * &cts[j])).values.to_vec();
            ensure!(
                d == want,
                "tensor product {:?} * {:?} decrypts to {:?}, expected {:?} (textbook noise is far below the limit)",
                msgs[i], msgs[j], d, want
            );
            pr.outcome(&want);
            if let Some(rlk) = &rlk {
                if &err + &ks >= limit {
                    continue;
                }
                pr.tn(2);
                pr.dstates += 1;
                let d = sk.decrypt(&multiply_with_strategy(&cts[i], &cts[j], rlk)).values.to_vec();
                ensure!(d == want, "relinearized product {:?} * {:?} decrypts to {:?}, expected {:?}", msgs[i], msgs[j], d, want);
            }
        }
    }
    Ok(())
}

/// operands that have something in common: everything made from one
/// ciphertext, all ordered pairs
fn related(c: &Case, pr: &mut Probe) -> Result<(), String> {
    let (n, t) = (c.cfg.n, c.cfg.t);
    let p = c.cfg.build();
    c.env.set(c.cfg.var);
    let sk = c.key.sk(&p);
    let q = c.cfg.q(c.level);
    let ctx = p.q_ctxs[c.level].clone();
    let (m, m2) = (stream(n, t, 1), stream(n, t, 2));
    let x = sk.encrypt(&pt(&p, &m, c.level));
    let y = sk.encrypt(&pt(&p, &m2, c.level));
    let sc = pt(&p, &m2, c.level).to_poly();
    let one: Vec<u64> = (0..n).map(|i| (i == 0) as u64).collect();
    let mut mono = vec![0; n];
    mono[1] = 1;
    let zero = Poly::zero(&ctx, Representation::Ntt);
    let neg = |v: &[u64]| subv(&vec![0; n], v, t);
    let pool: Vec<(&str, BfvCipherText, Vec<u64>)> = vec![
        ("x", x.clone(), m.clone()),
        ("another encryption", sk.encrypt(&pt(&p, &m, c.level)), m.clone()),
        ("x + poly", &x + &sc, addv(&m, &m2, t)),
        ("x + 1", &x + &pt(&p, &one, c.level).to_poly(), addv(&m, &one, t)),
        ("x + x", &x + &x, addv(&m, &m, t)),
        ("-x", &x * &(&q - 1u32), neg(&m)),
        ("x - x", &x - &x, vec![0; n]),
        ("X x", &x * &poly_ntt_u64(&ctx, &mono), negmul(&m, &mono, t)),
        ("x + y", &x + &y, addv(&m, &m2, t)),
        ("y", y.clone(), m2.clone()),
        // no mask at all
        ("transparent", ct_of(&p, (sc.clone(), zero.clone()), c.level), m2.clone()),
        ("transparent zero", ct_of(&p, (zero.clone(), zero.clone()), c.level), vec![0; n]),
        ("x without the message", &x - &ct_of(&p, (pt(&p, &m, c.level).to_poly(), zero.clone()), c.level), vec![0; n]),
    ];
    for (k, c, m) in &pool {
        same!(sk.decrypt(c).values.to_vec(), *m, "{}", k);
    }
    let rlk = if c.tensor_only { None } else { Some(RelinearizationKey::new(&sk, c.level)) };
    for (i, a, ma) in &pool {
        for (j, b, mb) in &pool {
            let want = negmul(ma, mb, t);
            pr.tn(4);
            pr.dstates += 1;
            let z = a * b;
            same!(z.cts.len(), 3, "components of the tensor product");
            ensure!(sk.decrypt(&z).values.to_vec() == want, "tensor product of '{}' and '{}'", i, j);
            if let Some(rlk) = &rlk {
                let z = multiply_with_strategy(a, b, rlk);
                same!(z.cts.len(), 2, "components after relinearization");
                ensure!(sk.decrypt(&z).values.to_vec() == want, "relinearized product of '{}' and '{}'", i, j);
            }
            pr.outcome(&want);
        }
    }
    Ok(())
}

/// degrees used in practice
fn large(c: &Case, pr: &mut Probe) -> Result<(), String> {
    let (n, t) = (c.cfg.n, c.cfg.t);
    let p = c.cfg.build();
    c.env.set(c.cfg.var);
    let sk = c.key.sk(&p);
    let mut mono = vec![0; n];
    mono[n - 1] = t - 1;
    let ms = [stream(n, t, 1), vec![t - 1; n], mono];
    let cts: Vec<BfvCipherText> = ms.iter().map(|m| sk.encrypt(&pt(&p, m, c.level))).collect();
    let rlk = RelinearizationKey::new(&sk, c.level);
    for (i, j) in [(0, 0), (0, 1), (2, 0), (1, 1), (2, 2)] {
        let want = negmul(&ms[i], &ms[j], t);
        pr.tn(4);
        pr.dstates += 2;
        let x = &cts[i] * &cts[j];
        same!(x.cts.len(), 3, "components of the tensor product");
        ensure!(sk.decrypt(&x).values.to_vec() == want, "tensor product of messages {} and {}", i, j);
        if c.tensor_only {
            continue;
        }
        let r = multiply_with_strategy(&cts[i], &cts[j], &rlk);
        same!(r.cts.len(), 2, "components after relinearization");
        ensure!(sk.decrypt(&r).values.to_vec() == want, "relinearized product of messages {} and {}", i, j);
    }
    Ok(())
}

pub fn run(ex: &Arc<Ex>) {
    use Env::*;
    let mut l = vec![];
    for n in ex.pick(&[128usize, 256, 512, 1024, 2048, 4096][..], &[128, 256, 512, 1024, 2048, 4096, 8192][..]) {
        for (sizes, t, level) in [
            (&[62usize, 62, 62][..], 65537u64, 0),
            (&[60, 50, 62, 40], 12289 * (*n <= 2048) as u64 + 786433 * (*n > 2048) as u64, 1),
            (&[45, 62, 50, 62, 55], 786433, 0),
        ] {
            for env in [Max, Prng(4)] {
                l.push(Case { cfg: Cfg::bits(*n, t, sizes, 10), env, key: Key::Mixed, level, tensor_only: false, full: false });
            }
        }
    }
    ex.group("large-degree", &l, |c| format!("{}-{:?}-l{}", c.cfg.id(), c.env, c.level), large);
    let mut tc = vec![];
    for bits in 16..=62usize {
        for (sizes, t) in [
            (vec![bits], 17u64),
            (vec![bits.max(18), bits], 97),
            (vec![bits, 20], 113),
            (vec![bits, bits, bits], 1153),
            (vec![62, bits], 65537),
        ] {
            let sizes: Vec<usize> = sizes.iter().map(|b| if t == 65537 { (*b).max(18) } else { *b }).collect();
            let cfg = Cfg::bits(8, t, &sizes, 1 + bits % 16);
            for level in 0..sizes.len() {
                for env in ex.pick(&[Zero, Max, Prng(1)][..], &[Zero, Max, Min, Alt, Prng(1), Prng(2), Prng(3)][..]) {
                    for key in ex.pick(&[Key::Tern, Key::MaxAll][..], &KEYS[..]) {
                        tc.push(TCase { cfg: cfg.clone(), env: *env, key: *key, level });
                    }
                }
            }
        }
    }
    // plaintext moduli of every size
    for tb in 5..=45usize {
        if let Some(t) = prime_below(tb, 16, 1 << tb) {
            for sizes in [vec![62usize, 62, 62], vec![tb.max(8) + 2, 62, 60], vec![62, 61, 60, 59]] {
                for key in [Key::Tern, Key::MaxAll] {
                    tc.push(TCase { cfg: Cfg::bits(8, t, &sizes, 3), env: Max, key, level: 0 });
                    tc.push(TCase { cfg: Cfg::bits(8, t, &sizes, 3), env: Prng(tb as u64), key, level: 1 });
                }
            }
        }
    }
    ex.group("tight-budget", &tc, |c| format!("{}-{:?}-{:?}-l{}", c.cfg.id(), c.env, c.key, c.level), tight);
    let mut x = vec![];
    // every total size modulo 62 of the chain, for one to four moduli
    for top in 0..62usize {
        let sizes: Vec<Vec<usize>> = vec![
            vec![31 + (top + 1) / 2 % 32],
            vec![62, 11 + top % 51],
            vec![11 + top % 51, 62],
            vec![20 + top % 43, 62 - top % 43],
            vec![62, 62, 11 + top % 51],
            vec![12 + top % 50, 40, 62 - (top * 7) % 50],
            vec![30, 31 + top % 31, 62, 29 + (top * 5) % 33],
        ];
        for s in sizes {
            for n in [8usize, 32] {
                if n == 32 && top % ex.pick(4, 1) != 0 {
                    continue;
                }
                let s: Vec<usize> = s.iter().map(|b| (*b).max(if n == 32 { 14 } else { 11 })).collect();
                // no more primes of a size than exist
                let mut cfg = Cfg { n, t: if n == 8 { 17 } else { 193 }, moduli: vec![], var: 2 };
                cfg.moduli = primes(n, &s);
                for level in 0..s.len() {
                    for key in [Key::One, Key::X, Key::Tern] {
                        // noise of a product with extreme masks: about 4 t N^2 |s|
                        if cfg.q(level).bits() < 34 {
                            continue;
                        }
                        x.push(XCase { cfg: cfg.clone(), key, level });
                    }
                }
            }
        }
    }
    ex.group("extreme-masks", &x, |c| format!("{}-{:?}-l{}", c.cfg.id(), c.key, c.level), extremes);
    let th = ex.thorough;
    let mut v = vec![];
    let cfgs = [
        // (cfg, levels with key switching, levels with tensor only)
        (Cfg::bits(8, 97, &[62, 62, 62], 10), vec![0, 1], vec![2]),
        (Cfg::bits(8, 17, &[40, 62, 50], 3), vec![0], vec![1]),
        (Cfg::bits(8, 1153, &[62, 45, 50], 16), vec![0], vec![1, 2]),
        (Cfg::bits(8, 257, &[45, 46, 47, 48, 49], 10), vec![0, 1, 2, 3], vec![]),
        (Cfg::bits(8, 193, &[62, 62], 1), vec![0], vec![1]),
        (Cfg::bits(8, 113, &[62; 8], 10), vec![0, 3, 6], vec![7]),
        (Cfg::bits(8, 113, &[45; 18], 10), vec![0, 15], vec![]),
        (Cfg::bits(16, 65537, &[60, 61, 62], 10), vec![0, 1], vec![]),
        (Cfg::bits(32, 257, &[62, 62, 62], 10), vec![0, 1], vec![2]),
        (Cfg::bits(8, 17, &[62, 40, 20], 10), vec![0], vec![1]),
        (Cfg::bits(64, 257, &[61, 40, 18], 3), vec![0], vec![]),
        (Cfg::bits(16, 97, &[20, 40, 62], 3), vec![0], vec![]),
    ];
    for (i, (cfg, ks, tensor)) in cfgs.iter().enumerate() {
        let big = cfg.n > 8;
        let envs: Vec<Env> = if th { ENVS.to_vec() } else if big { vec![Max] } else { vec![Zero, Max, Prng(5)] };
        let keys: Vec<Key> = if th { KEYS.to_vec() } else { vec![[Key::Mixed, Key::MaxAll][i % 2]] };
        for env in &envs {
            for key in &keys {
                for l in ks {
                    v.push(Case { cfg: cfg.clone(), env: *env, key: *key, level: *l, tensor_only: false, full: !big });
                }
                for l in tensor {
                    v.push(Case { cfg: cfg.clone(), env: *env, key: *key, level: *l, tensor_only: true, full: !big });
                }
            }
        }
    }
    ex.group("related-operands", &v, |c| format!("{}-{:?}-{:?}-l{}", c.cfg.id(), c.env, c.key, c.level), related);
    if th {
        v.push(Case { cfg: Cfg::bits(64, 1785857, &[62; 4], 10), env: Max, key: Key::Mixed, level: 0, tensor_only: false, full: false });
    }
    ex.group(
        "products",
        &v,
        |c| format!("{}-{:?}-{:?}-l{}", c.cfg.id(), c.env, c.key, c.level),
        case,
    );
}
