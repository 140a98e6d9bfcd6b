use crate::engine::{Ex, Probe};
use crate::refm::*;
use crate::world::*;
use crate::{ensure, same};
use num_bigint::BigUint;
use onion_pir::verif::*;
use std::sync::Arc;

/// One operation on the accumulator (A and B are the fixed pool ciphertexts,
/// R the value before the last operation).
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Op {
    AddA,
    AddR,
    AddSelf,
    RAdd,
    SubB,
    SubSelf,
    BSub,
    RSub,
    AddPoly,
    MulPt,
    MulPtZero,
    MulPoly,
    MulScalar,
    MulMinusOne,
    MulA,
    BMul,
    MulSelf,
    MulR,
    MwsB,
    MwsSelf,
    MwsR,
    BMws,
    Gal3,
    GalNeg,
    Inner,
    Rgsw,
    RgswMono,
}
use Op::*;

const OPS: [Op; 27] = [
    AddA, AddR, AddSelf, RAdd, SubB, SubSelf, BSub, RSub, AddPoly, MulPt, MulPtZero, MulPoly, MulScalar,
    MulMinusOne, MulA, BMul, MulSelf, MulR, MwsB, MwsSelf, MwsR, BMws, Gal3, GalNeg, Inner, Rgsw, RgswMono,
];

#[derive(Clone)]
struct V {
    ct: BfvCipherText,
    m: Vec<u64>,
    /// multiplicative depth used
    depth: usize,
}

struct W {
    p: Arc<BfvParameters>,
    sk: SecretKey,
    t: u64,
    level: usize,
    a: V,
    b: V,
    pt_m: Vec<u64>,
    poly_m: Vec<u64>,
    rg_m: Vec<u64>,
    rlk: RelinearizationKey,
    g3: GaliosKey,
    gn: GaliosKey,
    rg: RgswCt,
    rgm: RgswCt,
    max_depth: usize,
}

impl W {
    fn new(cfg: &Cfg, env: Env, key: Key, level: usize, max_depth: usize) -> W {
        let p = cfg.build();
        env.set(cfg.var);
        let sk = key.sk(&p);
        let (n, t) = (cfg.n, cfg.t);
        let fresh = |m: Vec<u64>| V {
            ct: sk.encrypt(&pt(&p, &m, level)),
            m,
            depth: 0,
        };
        let a = fresh((0..n as u64).map(|i| (i * i + 2) % t).collect());
        let b = fresh((0..n as u64).map(|i| t - 1 - (5 * i) % t).collect());
        let mut pt_m = stream(n, t, 4);
        pt_m[0] = t - 1;
        let mut poly_m = vec![0; n];
        poly_m[1] = t - 1;
        poly_m[n - 1] = t / 2;
        let mut rg_m = vec![0; n];
        rg_m[0] = 1;
        rg_m[2] = t - 1;
        let c = p.q_ctxs[level].clone();
        let rlk = RelinearizationKey::new(&sk, level);
        let g3 = GaliosKey::new(&sk, &Substitution::new(&c, 3), level);
        let gn = GaliosKey::new(&sk, &Substitution::new(&c, 2 * n - 1), level);
        let rg = RgswCt::encrypt(&sk, &pt(&p, &rg_m, level));
        let mut mono = vec![0; n];
        mono[n - 1] = 1;
        let rgm = RgswCt::encrypt_poly(&sk, &poly_ntt_u64(&c, &mono));
        W { p, sk, t, level, a, b, pt_m, poly_m, rg_m, rlk, g3, gn, rg, rgm, max_depth }
    }

    /// None: operation does not apply (component count, budget)
    fn step(&self, op: Op, acc: &V, prev: &V) -> Option<V> {
        let t = self.t;
        let n = acc.m.len();
        let c = &self.p.q_ctxs[self.level];
        let two = acc.ct.cts.len() == 2;
        let lin = |ct: BfvCipherText, m: Vec<u64>, o: &V| V { ct, m, depth: acc.depth.max(o.depth) };
        let mul = |ct: BfvCipherText, m: Vec<u64>, o: &V| V { ct, m, depth: acc.depth.max(o.depth) + 1 };
        let can_mul = |o: &V| acc.depth.max(o.depth) < self.max_depth && acc.ct.cts.len() + o.ct.cts.len() <= 6;
        Some(match op {
            AddA => lin(&acc.ct + &self.a.ct, addv(&acc.m, &self.a.m, t), &self.a),
            AddR => lin(&acc.ct + &prev.ct, addv(&acc.m, &prev.m, t), prev),
            RAdd => lin(&prev.ct + &acc.ct, addv(&prev.m, &acc.m, t), prev),
            AddSelf => lin(&acc.ct + &acc.ct, addv(&acc.m, &acc.m, t), acc),
            SubB => lin(&acc.ct - &self.b.ct, subv(&acc.m, &self.b.m, t), &self.b),
            SubSelf => lin(&acc.ct - &acc.ct, vec![0; n], acc),
            BSub => lin(&self.b.ct - &acc.ct, subv(&self.b.m, &acc.m, t), &self.b),
            RSub => lin(&prev.ct - &acc.ct, subv(&prev.m, &acc.m, t), prev),
            AddPoly => lin(
                &acc.ct + &pt(&self.p, &self.pt_m, self.level).to_poly(),
                addv(&acc.m, &self.pt_m, t),
                acc,
            ),
            MulPt => lin(
                &acc.ct * &pt(&self.p, &self.pt_m, self.level),
                negmul(&acc.m, &self.pt_m, t),
                acc,
            ),
            MulPtZero => lin(&acc.ct * &pt(&self.p, &vec![0; n], self.level), vec![0; n], acc),
            MulPoly => lin(&acc.ct * &poly_ntt_u64(c, &self.poly_m), negmul(&acc.m, &self.poly_m, t), acc),
            MulScalar => {
                let k = 3 * t + 5;
                lin(
                    &acc.ct * &BigUint::from(k),
                    acc.m.iter().map(|x| mulmod(*x, k % t, t)).collect(),
                    acc,
                )
            }
            MulMinusOne => {
                let q = product(&c.moduli_64);
                lin(&acc.ct * &(q - 1u32), subv(&vec![0; n], &acc.m, t), acc)
            }
            MulA if can_mul(&self.a) => mul(&acc.ct * &self.a.ct, negmul(&acc.m, &self.a.m, t), &self.a),
            BMul if can_mul(&self.b) => mul(&self.b.ct * &acc.ct, negmul(&acc.m, &self.b.m, t), &self.b),
            MulSelf if can_mul(acc) => mul(&acc.ct * &acc.ct, negmul(&acc.m, &acc.m, t), acc),
            MulR if can_mul(prev) => mul(&acc.ct * &prev.ct, negmul(&acc.m, &prev.m, t), prev),
            MwsB if two && can_mul(&self.b) => mul(
                multiply_with_strategy(&acc.ct, &self.b.ct, &self.rlk),
                negmul(&acc.m, &self.b.m, t),
                &self.b,
            ),
            MwsSelf if two && can_mul(acc) => mul(
                multiply_with_strategy(&acc.ct, &acc.ct, &self.rlk),
                negmul(&acc.m, &acc.m, t),
                acc,
            ),
            MwsR if two && prev.ct.cts.len() == 2 && can_mul(prev) => mul(
                multiply_with_strategy(&acc.ct, &prev.ct, &self.rlk),
                negmul(&acc.m, &prev.m, t),
                prev,
            ),
            BMws if two && can_mul(&self.b) => mul(
                multiply_with_strategy(&self.b.ct, &acc.ct, &self.rlk),
                negmul(&acc.m, &self.b.m, t),
                &self.b,
            ),
            Gal3 if two => lin(self.g3.relinearize(&acc.ct), subst(&acc.m, 3, t), acc),
            GalNeg if two => lin(self.gn.relinearize(&acc.ct), subst(&acc.m, 2 * n - 1, t), acc),
            Inner => {
                let cts = vec![acc.ct.clone(), self.b.ct.clone(), prev.ct.clone()];
                let mut x2 = vec![0; n];
                x2[2] = 1;
                let ws = [self.poly_m.clone(), x2, self.pt_m.clone()];
                let polys = ws.iter().map(|w| poly_ntt_u64(c, w)).collect();
                let mut m = negmul(&acc.m, &ws[0], t);
                m = addv(&m, &negmul(&self.b.m, &ws[1], t), t);
                m = addv(&m, &negmul(&prev.m, &ws[2], t), t);
                V {
                    ct: omr_inner_product(&cts, &polys),
                    m,
                    depth: acc.depth.max(prev.depth),
                }
            }
            Rgsw if two => lin(
                ct_of(&self.p, RgswCt::external_product(&self.rg, &acc.ct), self.level),
                negmul(&acc.m, &self.rg_m, t),
                acc,
            ),
            RgswMono if two => {
                let mut mono = vec![0; n];
                mono[n - 1] = 1;
                lin(
                    ct_of(&self.p, RgswCt::external_product(&self.rgm, &acc.ct), self.level),
                    negmul(&acc.m, &mono, t),
                    acc,
                )
            }
            _ => return None,
        })
    }

    fn check(&self, v: &V, hist: &[Op]) -> Result<(), String> {
        same!(v.ct.level, self.level, "level after {:?}", hist);
        ensure!(Arc::ptr_eq(&v.ct.params, &self.p) || v.ct.params == self.p, "parameters after {:?}", hist);
        for c in &v.ct.cts {
            ensure!(c.context == self.p.q_ctxs[self.level], "context of a component after {:?}", hist);
            same!(c.representation, Representation::Ntt, "representation after {:?}", hist);
        }
        let d = self.sk.decrypt(&v.ct);
        same!(d.level, self.level, "plaintext level after {:?}", hist);
        ensure!(
            d.values.to_vec() == v.m,
            "after {:?} the ciphertext decrypts to {:?}, the plaintext ring gives {:?}",
            hist,
            d.values,
            v.m
        );
        Ok(())
    }

    fn dfs(&self, acc: &V, prev: &V, hist: &mut Vec<Op>, bound: usize, pr: &mut Probe) -> Result<(), String> {
        if hist.len() == bound {
            return Ok(());
        }
        for op in OPS {
            if let Some(v) = self.step(op, acc, prev) {
                hist.push(op);
                pr.t();
                self.check(&v, hist)?;
                pr.state(&(self.level, self.t, &v.m, v.ct.cts.len(), v.depth, &acc.m));
                pr.outcome(&v.m);
                self.dfs(&v, acc, hist, bound, pr)?;
                hist.pop();
            }
        }
        Ok(())
    }
}

#[derive(Clone, Debug)]
struct Case {
    cfg: Cfg,
    env: Env,
    key: Key,
    level: usize,
    max_mul: usize,
    first: Vec<Op>,
    bound: usize,
}

fn case(c: &Case, pr: &mut Probe) -> Result<(), String> {
    let w = W::new(&c.cfg, c.env, c.key, c.level, c.max_mul);
    let mut hist = vec![];
    let (mut acc, mut prev) = (w.a.clone(), w.b.clone());
    w.check(&acc, &hist)?;
    w.check(&prev, &hist)?;
    for op in &c.first {
        match w.step(*op, &acc, &prev) {
            Some(v) => {
                hist.push(*op);
                pr.t();
                w.check(&v, &hist)?;
                prev = acc;
                acc = v;
            }
            None => return Ok(()),
        }
    }
    w.dfs(&acc, &prev, &mut hist, c.bound, pr)?;
    // the pool ciphertexts survived every history
    w.check(&w.a, &hist)?;
    w.check(&w.b, &hist)
}

#[derive(Clone, Debug)]
struct ScCase {
    cfg: Cfg,
    env: Env,
    key: Key,
    level: usize,
}

/// scalars of every magnitude the noise budget admits: around every modulus,
/// every power of two, word boundaries, and their negatives modulo Q
fn scalars(c: &ScCase, pr: &mut Probe) -> Result<(), String> {
    let (n, t) = (c.cfg.n, c.cfg.t);
    let p = c.cfg.build();
    c.env.set(c.cfg.var);
    let sk = c.key.sk(&p);
    let q = c.cfg.q(c.level);
    let mut ks: Vec<BigUint> = vec![];
    let mut around = |x: &BigUint| {
        for d in 0..3u32 {
            ks.push(x + d);
            if *x > BigUint::from(d) {
                ks.push(x - d);
            }
        }
    };
    for i in 0..q.bits() + 3 {
        around(&(BigUint::from(1u32) << i));
    }
    for m in &c.cfg.moduli {
        for f in [1u64, 2, 3, 1000, 65537] {
            around(&(BigUint::from(*m) * f));
        }
    }
    for f in 0..4u32 {
        around(&(&q * f));
        for m in &c.cfg.moduli {
            around(&(&q * f + *m));
        }
    }
    ks.sort();
    ks.dedup();
    let limit = &q / (4 * t) / (2 * c.cfg.var as u64 + 2 * t);
    for (i, m) in [stream(n, t, 3), vec![t - 1; n], (0..n as u64).map(|i| i % t).collect()].iter().enumerate() {
        let ct = sk.encrypt(&pt(&p, m, c.level));
        for k in &ks {
            let r = k % &q;
            let neg = &r * 2u32 > q;
            let mag = if neg { &q - &r } else { r.clone() };
            if mag > limit {
                continue;
            }
            let mt = u64::try_from(&mag % t).unwrap();
            let mt = if neg { (t - mt) % t } else { mt };
            let w: Vec<u64> = m.iter().map(|x| mulmod(*x, mt, t)).collect();
            let y = &ct * k;
            pr.tn(2);
            pr.dstates += 1;
            same!(y.level, c.level, "level after scaling by {}", k);
            same!(y.cts.len(), 2, "components after scaling by {}", k);
            let d = sk.decrypt(&y).values.to_vec();
            ensure!(d == w, "message {} ({:?}) times the scalar {} decrypts to {:?}, expected {:?}", i, m, k, d, w);
            pr.outcome(&w);
        }
    }
    Ok(())
}

/// inner products of every length: dense weights and the extreme residues
/// (mask and weights equal to -1 in every evaluation point of every modulus)
fn inner(c: &(Cfg, Env, usize, usize), pr: &mut Probe) -> Result<(), String> {
    let (cfg, env, level, max) = (&c.0, c.1, c.2, c.3);
    let (n, t) = (cfg.n, cfg.t);
    let p = cfg.build();
    env.set(cfg.var);
    let sk = Key::Mixed.sk(&p);
    let ctx = p.q_ctxs[level].clone();
    let q = cfg.q(level);
    let minus: Vec<BigUint> = (0..n).map(|i| if i == 0 { &q - 1u32 } else { BigUint::from(0u32) }).collect();
    let minus = poly_ntt_big(&ctx, &minus);
    let key = {
        let mut k = Poly::try_from_vec_i64(&ctx, &sk.coeffs);
        k.change_representation(Representation::Ntt);
        k
    };
    for kind in 0..3usize {
        let (mut cts, mut ws, mut want): (Vec<BfvCipherText>, Vec<Poly>, Vec<u64>) = (vec![], vec![], vec![0; n]);
        for len in 1..=max {
            let m = stream(n, t, (kind * 1000 + len) as u64);
            let dense = stream(n, t, (kind * 1000 + 500 + len) as u64);
            let neg: Vec<u64> = (0..n).map(|i| if i == 0 { t - 1 } else { 0 }).collect();
            let extreme = kind == 0 || (kind == 1 && len % 3 == 0);
            cts.push(if extreme {
                // (scaled(m) + s, -1)
                ct_of(&p, (&pt(&p, &m, level).to_poly() + &key, minus.clone()), level)
            } else {
                sk.encrypt(&pt(&p, &m, level))
            });
            let w = if extreme { &neg } else { &dense };
            ws.push(if extreme { minus.clone() } else { poly_ntt_u64(&ctx, w) });
            want = addv(&want, &negmul(&m, w, t), t);
            let r = omr_inner_product(&cts, &ws);
            pr.tn(2);
            pr.dstates += 1;
            same!(r.level, level, "level of an inner product");
            ensure!(
                sk.decrypt(&r).values.to_vec() == want,
                "inner product of {} ciphertexts (kind {}) decrypts wrongly",
                len,
                kind
            );
            pr.outcome(&want);
        }
    }
    Ok(())
}

pub fn run(ex: &Arc<Ex>) {
    let th = ex.thorough;
    let mut ip = vec![];
    for (cfg, max) in [
        (Cfg::bits(8, 97, &[62, 62], 10), 70),
        (Cfg::bits(8, 17, &[62, 61, 60, 59, 58], 3), 70),
        (Cfg::bits(8, 1153, &[30, 50, 40], 16), 40),
        (Cfg::bits(16, 65537, &[60, 62, 62], 10), 40),
        (Cfg::bits(8, 113, &[62; 9], 10), 40),
        (Cfg::bits(256, 7681, &[62, 62], 10), 40),
    ] {
        for env in [Env::Max, Env::Prng(3)] {
            for level in 0..cfg.moduli.len() - 1 {
                ip.push((cfg.clone(), env, level, if th { 300 } else { max }));
            }
        }
    }
    ex.group("inner-products", &ip, |c| format!("{}-{:?}-l{}-{}", c.0.id(), c.1, c.2, c.3), inner);
    let mut sc = vec![];
    for sizes in [vec![62usize, 62], vec![50, 30], vec![30, 50], vec![62, 20, 45], vec![20, 62, 40], vec![40, 41, 42, 43], vec![62; 6], vec![25, 62]] {
        for (n, t) in [(8usize, 17u64), (8, 1009), (16, 97)] {
            let cfg = Cfg::bits(n, t, &sizes, 3);
            for level in 0..sizes.len() {
                for (env, key) in [(Env::Max, Key::MaxAll), (Env::Prng(6), Key::Mixed)] {
                    sc.push(ScCase { cfg: cfg.clone(), env, key, level });
                }
            }
        }
    }
    ex.group("scalars", &sc, |c| format!("{}-{:?}-{:?}-l{}", c.cfg.id(), c.env, c.key, c.level), scalars);
    let mut v = vec![];
    let mut push = |cfg: &Cfg, env, key, level, max_mul, bound, split: usize| {
        for a in OPS {
            if split == 1 {
                v.push(Case { cfg: cfg.clone(), env, key, level, max_mul, first: vec![a], bound });
            } else {
                for b in OPS {
                    v.push(Case { cfg: cfg.clone(), env, key, level, max_mul, first: vec![a, b], bound });
                }
            }
        }
    };
    let a = Cfg::bits(8, 97, &[62, 62, 62], 10);
    let b = Cfg::bits(8, 17, &[50, 55, 60, 62], 3);
    let c = Cfg::bits(16, 65537, &[62, 61, 62, 60], 10);
    push(&a, Env::Max, Key::Tern, 0, 3, 4, 1);
    push(&a, Env::Prng(1), Key::Mixed, 1, 1, 2, 1);
    push(&b, Env::Alt, Key::Mixed, 1, 2, 3, 1);
    push(&c, Env::Min, Key::Tern, 0, 2, 2, 1);
    push(&c, Env::Prng(4), Key::MaxAll, 1, 1, 2, 1);
    // every pair of operations under every shape of moduli chain
    let t20 = prime_below(20, 16, 1 << 20).unwrap();
    for (cfg, levels) in [
        (Cfg::bits(8, 17, &[62; 6], 10), vec![0, 2, 4]),
        (Cfg::bits(8, 97, &[30, 40, 50, 62], 3), vec![0, 1, 2]),
        (Cfg::bits(8, 193, &[62, 50, 40, 30], 16), vec![0, 1, 2]),
        (Cfg::bits(8, 97, &[62, 40, 20], 1), vec![0, 1]),
        (Cfg::bits(8, t20, &[62, 62, 62], 10), vec![0, 1]),
        (Cfg::bits(16, 97, &[45, 46, 47, 48, 49], 10), vec![0, 1, 2, 3]),
        (Cfg::bits(64, 257, &[62, 62, 62], 10), vec![0]),
    ] {
        for l in levels {
            push(&cfg, Env::Max, Key::Tern, l, 1, 2, 1);
            push(&cfg, Env::Prng(2), Key::Mixed, l, 1, 2, 1);
        }
    }
    push(&b, Env::Prng(8), Key::AltMax, 0, 2, 4, 1);
    push(&Cfg::bits(8, 113, &[40, 38, 36, 34, 32, 30, 28, 26, 24], 5), Env::Prng(3), Key::MaxAll, 0, 2, 3, 1);
    for (n, bound) in [(128usize, 2), (1024, 1), (4096, 1)] {
        push(&Cfg::bits(n, 65537, &[60, 62, 61], 10), Env::Max, Key::Mixed, 0, 1, bound, 1);
    }
    push(&Cfg::bits(2048, 12289, &[55, 50, 60, 45], 10), Env::Prng(3), Key::MaxAll, 1, 1, 1, 1);
    if th {
        push(&a, Env::Prng(2), Key::Mixed, 0, 3, 5, 2);
        push(&c, Env::Prng(2), Key::AltMax, 1, 2, 4, 2);
        push(&Cfg::bits(256, 65537, &[60, 62, 61], 10), Env::Max, Key::Mixed, 0, 1, 2, 1);
        push(&a, Env::Max, Key::Tern, 0, 3, 4, 2);
        push(&b, Env::Prng(8), Key::AltMax, 0, 2, 4, 2);
        push(&c, Env::Max, Key::Mixed, 0, 2, 3, 1);
    }
    ex.group(
        "histories",
        &v,
        |c| format!("{}-{:?}-{:?}-l{}-m{}-d{}-{:?}", c.cfg.id(), c.env, c.key, c.level, c.max_mul, c.bound, c.first),
        case,
    );
}
