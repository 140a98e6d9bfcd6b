use super::c16::small_ints;
use super::c18;
use crate::engine::{Ex, Probe};
use crate::influence::{analyse, Obs};
use crate::refm::*;
use crate::world::*;
use crate::{ensure, same};
use num_bigint::BigUint;
use onion_pir::verif::*;
use rand::ctl::{self, Mode};
use std::collections::{BTreeMap, HashSet};
use std::sync::Arc;

/// Everything that hands out RLWE samples.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Enc(usize),
    EncPoly(usize),
    /// (input level, key level)
    Ksk(usize, usize),
    KskPt(usize),
    Rgsw(usize),
    RgswPoly(usize),
    Galois(usize, usize),
    Relin(usize),
}

fn gadget(ms: &[u64]) -> Vec<BigUint> {
    (0..ms.len())
        .map(|i| {
            let mut e = vec![0; ms.len()];
            e[i] = 1;
            crt(&e, ms)
        })
        .collect()
}

fn key_big(s: &[i64], q: &BigUint) -> Vec<BigUint> {
    s.iter().map(|x| big_of_i64(*x, q)).collect()
}

/// a polynomial restricted to the first k moduli
fn head(p: &Poly, k: usize) -> Vec<Vec<u64>> {
    residues(p)[..k].to_vec()
}

struct Sample {
    /// the mask over all the moduli it has, in evaluation form (as handed out)
    mask: Vec<u64>,
    /// the same in coefficient form
    coef: Vec<u64>,
    err: Vec<i64>,
}

/// (b, a) = (payload + e - a*s, a): read e
fn sample(b: &Poly, a: &Poly, payload: &[BigUint], s: &[i64], ms: &[u64]) -> Result<Sample, String> {
    let k = ms.len();
    let q = product(ms);
    let (rb, ra) = (head(b, k), head(a, k));
    for (i, m) in ms.iter().enumerate() {
        ensure!(ra[i].iter().chain(&rb[i]).all(|x| x < m), "non-canonical residue mod {}", m);
    }
    let mut ph = vec![];
    for (i, m) in ms.iter().enumerate() {
        ph.push(addv(&rb[i], &negmul(&ra[i], &key_residue(s, *m), *m), *m));
    }
    let ph = from_residues(&ph, ms);
    let err = small_ints(&big_sub(&ph, payload, &q), &q)?;
    let mut ev = a.clone();
    if ev.representation != Representation::Ntt {
        ev.change_representation(Representation::Ntt);
    }
    let mask = ev.coefficients().iter().copied().collect();
    let coef = residues(a).concat();
    Ok(Sample { mask, coef, err })
}

fn rows(k: &Ksk, from: &[BigUint], s: &[i64], ct_moduli: &[u64], out: &mut Vec<Sample>) -> Result<(), String> {
    let q = product(ct_moduli);
    same!(k.c0.len(), ct_moduli.len(), "rows of the key");
    same!(k.c1.len(), ct_moduli.len(), "rows of the key");
    for (i, g) in gadget(ct_moduli).iter().enumerate() {
        let payload: Vec<BigUint> = from.iter().map(|x| (x * g) % &q).collect();
        out.push(sample(&k.c0[i], &k.c1[i], &payload, s, ct_moduli)?);
    }
    Ok(())
}

struct W<'a> {
    cfg: &'a Cfg,
    p: Arc<BfvParameters>,
    sk: SecretKey,
    msg: Vec<u64>,
}

fn perform(w: &W, op: Op) -> Result<Vec<Sample>, String> {
    let s = w.sk.coeffs.to_vec();
    let p = &w.p;
    let mut out = vec![];
    match op {
        Op::Enc(l) => {
            let ct = w.sk.encrypt(&pt(p, &w.msg, l));
            same!(ct.cts.len(), 2, "components");
            let payload = scaled(&w.msg, &w.cfg.q(l), w.cfg.t);
            out.push(sample(&ct.cts[0], &ct.cts[1], &payload, &s, &w.cfg.level_moduli(l))?);
        }
        Op::EncPoly(l) => {
            let payload: Vec<BigUint> = w.msg.iter().map(|x| BigUint::from(*x) * 7919u32 % w.cfg.q(l)).collect();
            let ct = w.sk.encrypt_poly(&poly_ntt_big(&p.q_ctxs[l], &payload));
            same!(ct.cts.len(), 2, "components");
            out.push(sample(&ct.cts[0], &ct.cts[1], &payload, &s, &w.cfg.level_moduli(l))?);
        }
        Op::Ksk(ct, kl) => {
            let from: Vec<BigUint> = w.msg.iter().map(|x| BigUint::from(*x) + 3u32).collect();
            let k = Ksk::new(&w.sk, &poly_ntt_big(&p.q_ctxs[kl], &from), ct, kl);
            for r in &k.c1 {
                ensure!(r.context == p.q_ctxs[kl], "key row at the wrong level");
            }
            rows(&k, &from, &s, &w.cfg.level_moduli(ct), &mut out)?;
        }
        Op::KskPt(l) => {
            let k = Ksk::new_with_pt(&w.sk, &pt(p, &w.msg, l), l, l);
            rows(&k, &scaled(&w.msg, &w.cfg.q(l), w.cfg.t), &s, &w.cfg.level_moduli(l), &mut out)?;
        }
        Op::Rgsw(l) | Op::RgswPoly(l) => {
            let q = w.cfg.q(l);
            let m: Vec<BigUint> = w.msg.iter().map(|x| BigUint::from(*x)).collect();
            let rg = if op == Op::Rgsw(l) {
                RgswCt::encrypt(&w.sk, &pt(p, &w.msg, l))
            } else {
                RgswCt::encrypt_poly(&w.sk, &poly_ntt_u64(&p.q_ctxs[l], &w.msg))
            };
            let sm = big_negmul_rns(&key_big(&s, &q), &m, &w.cfg.level_moduli(l));
            rows(&rg.ksk0, &sm, &s, &w.cfg.level_moduli(l), &mut out)?;
            rows(&rg.ksk1, &m, &s, &w.cfg.level_moduli(l), &mut out)?;
        }
        Op::Galois(e, l) => {
            let ms = w.cfg.level_moduli(l);
            let q = w.cfg.q(l);
            let c = p.q_ctxs[l].clone();
            let gk = GaliosKey::new(&w.sk, &Substitution::new(&c, e), l);
            let from = big_subst(&key_big(&s, &q), e, &q);
            // the i-th gadget constant selects the i-th row
            for g in gadget(&ms) {
                let ct = BfvCipherText {
                    params: p.clone(),
                    cts: vec![Poly::zero(&c, Representation::Ntt), poly_ntt_big(&c, &[g.clone()])],
                    level: l,
                };
                let r = gk.relinearize(&ct);
                let payload: Vec<BigUint> = from.iter().map(|x| (x * &g) % &q).collect();
                out.push(sample(&r.cts[0], &r.cts[1], &payload, &s, &ms)?);
            }
        }
        Op::Relin(l) => {
            let ms = w.cfg.level_moduli(l);
            let q = w.cfg.q(l);
            let c = p.q_ctxs[l].clone();
            let rk = RelinearizationKey::new(&w.sk, l);
            let sb = key_big(&s, &q);
            let from = big_negmul_rns(&sb, &sb, &ms);
            for g in gadget(&ms) {
                let (c0, c1) = rk.relinearize_poly(&poly_ntt_big(&c, &[g.clone()]));
                let payload: Vec<BigUint> = from.iter().map(|x| (x * &g) % &q).collect();
                out.push(sample(&c0, &c1, &payload, &s, &ms)?);
            }
        }
    }
    Ok(out)
}

fn history(w: &W, ops: &[Op]) -> Result<Obs, String> {
    let mut o = Obs { masks: vec![], errs: vec![] };
    for op in ops {
        for s in perform(w, *op).map_err(|e| format!("{:?}: {}", op, e))? {
            o.masks.push(s.mask);
            o.errs.push(s.err);
        }
    }
    Ok(o)
}

fn ops_for(c: &Cfg) -> Vec<Op> {
    let k = c.moduli.len();
    let mut v = vec![];
    for l in 0..k {
        v.push(Op::Enc(l));
        v.push(Op::EncPoly(l));
        v.push(Op::KskPt(l));
        v.push(Op::Rgsw(l));
        v.push(Op::RgswPoly(l));
        v.push(Op::Relin(l));
        if k > 1 {
            v.push(Op::Galois(3, l));
            v.push(Op::Galois(c.n + 1, l));
        }
        for kl in 0..=l {
            v.push(Op::Ksk(l, kl));
        }
    }
    v
}

fn worlds<'a>(c: &'a Cfg) -> Vec<W<'a>> {
    let p = c.build();
    let (n, t) = (c.n, c.t);
    let msgs = [vec![0; n], vec![t - 1; n], stream(n, t, 5)];
    let mut v = vec![];
    for k in [Key::Mixed, Key::MaxAll, Key::One] {
        for m in &msgs {
            v.push(W { cfg: c, p: p.clone(), sk: k.sk(&p), msg: m.clone() });
        }
    }
    v
}

/// the masks seen so far have to look uniform: per modulus, and jointly over
/// neighbouring coefficients and over moduli
fn uniform(variants: &[Vec<u64>], ms: &[u64], n: usize) -> Result<(), String> {
    let k = ms.len();
    let total = variants.len() * n;
    if total < 4000 {
        return Ok(());
    }
    let b = |x: u64, m: u64| (x as u128 * 8 / m as u128) as usize;
    let check = |h: &[usize], what: String| -> Result<(), String> {
        let mean = h.iter().sum::<usize>() / h.len();
        let (lo, hi) = (h.iter().min().unwrap(), h.iter().max().unwrap());
        ensure!(*lo * 4 >= mean && *hi <= 4 * mean, "{}: bucket counts between {} and {} around {}", what, lo, hi, mean);
        Ok(())
    };
    for i in 0..k {
        let row = |v: &Vec<u64>, j: usize| v[i * n + j];
        if (ms[i] as usize) < total / 40 {
            let mut h = vec![0; ms[i] as usize];
            variants.iter().for_each(|v| (0..n).for_each(|j| h[row(v, j) as usize] += 1));
            check(&h, format!("mask residues mod {}", ms[i]))?;
        }
        let mut h = vec![0; 64];
        variants.iter().for_each(|v| (0..n).for_each(|j| h[8 * b(row(v, j), ms[i]) + b(row(v, (j + 1) % n), ms[i])] += 1));
        check(&h, format!("neighbouring mask coefficients mod {}", ms[i]))?;
        for i2 in 0..i {
            let mut h = vec![0; 64];
            variants.iter().for_each(|v| (0..n).for_each(|j| h[8 * b(row(v, j), ms[i]) + b(v[i2 * n + j], ms[i2])] += 1));
            check(&h, format!("mask residues mod {} and mod {}", ms[i], ms[i2]))?;
            // small moduli: the value itself may not repeat across moduli
            let eq = variants.iter().map(|v| (0..n).filter(|j| row(v, *j) % ms[i2] == v[i2 * n + *j]).count()).sum::<usize>();
            ensure!(eq < total / 4, "mask residues mod {} repeat those mod {}", ms[i], ms[i2]);
        }
    }
    Ok(())
}

fn single(c: &(Cfg, Op), all_worlds: bool, pr: &mut Probe) -> Result<(), String> {
    let (cfg, op) = c;
    let ws = worlds(cfg);
    let per = 2 * cfg.var;
    let mut first: Option<Obs> = None;
    let mut vars: Vec<Vec<u64>> = vec![];
    for (i, w) in ws.iter().enumerate() {
        if i == 2 || all_worlds {
            let m = analyse(1, per, 200, || history(w, &[*op]), pr)?;
            vars.extend(m.variants);
        }
        // masks and errors are decided by the environment alone
        ctl::set(Mode::Prng, 1);
        let o = history(w, &[*op])?;
        pr.t();
        match &first {
            None => first = Some(o),
            Some(f) => {
                ensure!(f.masks == o.masks, "{:?}: mask depends on the message or the key", op);
                ensure!(f.errs == o.errs, "{:?}: error depends on the message or the key", op);
            }
        }
    }
    let ms = match op {
        Op::Ksk(_, kl) => cfg.level_moduli(*kl),
        Op::Enc(l) | Op::EncPoly(l) | Op::KskPt(l) | Op::Rgsw(l) | Op::RgswPoly(l) | Op::Relin(l) | Op::Galois(_, l) => cfg.level_moduli(*l),
    };
    let mut s = 100;
    while s < 160 || vars.len() * cfg.n < 6000 {
        ctl::set(Mode::Prng, s);
        s += 1;
        vars.extend(history(&ws[0], &[*op])?.masks);
        pr.t();
    }
    for v in &vars {
        same!(v.len(), ms.len() * cfg.n, "size of the mask");
    }
    uniform(&vars, &ms, cfg.n)?;
    Ok(())
}

/// the degrees used in practice, over an enumerated set of environments: no
/// stretch of an error, and no residue of a mask, is handed out twice (within
/// a polynomial, between rows or between calls; forwards, backwards or
/// negated), and every position of an error takes values of either sign and of
/// the configured variance
fn large(c: &(Cfg, Op), pr: &mut Probe) -> Result<(), String> {
    let (cfg, op) = c;
    let (n, p) = (cfg.n, cfg.build());
    let w = W { cfg, p: p.clone(), sk: Key::Mixed.sk(&p), msg: stream(n, cfg.t, 5) };
    const L: usize = 48;
    let envs = if matches!(op, Op::Enc(_) | Op::EncPoly(_) | Op::Ksk(1, _)) { 24 } else { 12 };
    let mut windows: HashSet<u64> = HashSet::new();
    let mut values: BTreeMap<u64, HashSet<u64>> = BTreeMap::new();
    let mut signs: Vec<(Vec<bool>, Vec<bool>)> = vec![];
    let mut sq = vec![(0i64, 0i64, 0i64); 8];
    let h = |w: &mut dyn Iterator<Item = i64>| w.fold(0xcbf2_9ce4_8422_2325u64, |a, x| (a ^ (x + 1000) as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(23));
    for e in 0..envs {
        ctl::set(Mode::Prng, 9000 + e as u64);
        let o = perform(&w, *op)?;
        pr.t();
        signs.resize(o.len(), (vec![false; n], vec![false; n]));
        for (r, x) in o.iter().enumerate() {
            same!(x.err.len(), n, "coefficients of the error");
            for (j, v) in x.err.iter().enumerate() {
                ensure!(v.unsigned_abs() as usize <= 2 * cfg.var, "{:?}: error {} at position {}", op, v, j);
                signs[r].0[j] |= *v > 0;
                signs[r].1[j] |= *v < 0;
                let q = &mut sq[j * 8 / n];
                *q = (q.0 + 1, q.1 + v, q.2 + v * v);
            }
            for w in x.err.windows(L) {
                let ks = [
                    h(&mut w.iter().copied()),
                    h(&mut w.iter().rev().copied()),
                    h(&mut w.iter().map(|x| -x)),
                    h(&mut w.iter().rev().map(|x| -x)),
                ];
                ensure!(ks.iter().all(|k| !windows.contains(k)), "{:?}: {} consecutive errors of row {} repeat earlier ones: {:?}", op, L, r, w);
                windows.insert(ks[0]);
            }
            for (i, m) in cfg.moduli.iter().take(x.mask.len() / n).enumerate() {
                if *m >> 59 > 0 {
                    let s = values.entry(*m).or_default();
                    for (j, v) in x.mask[i * n..(i + 1) * n].iter().enumerate() {
                        ensure!(s.insert(*v), "{:?}: mask residue {} mod {} of row {} position {} was handed out before", op, v, m, r, j);
                    }
                }
            }
            pr.dstates += 1;
        }
    }
    for j in 0..n {
        // at least 24 values, each zero with a probability below 0.4
        ensure!(signs.iter().any(|s| s.0[j] || s.1[j]), "{:?}: errors at position {} are zero in {} environments", op, j, envs);
    }
    for (r, s) in signs.iter().enumerate() {
        let zero = (0..n).filter(|j| !s.0[*j] && !s.1[*j]).count();
        ensure!(zero * 100 <= n, "{:?}: errors at {} of {} positions of row {} are zero in {} environments", op, zero, n, r, envs);
        let one_sided = (0..n).filter(|j| s.0[*j] != s.1[*j]).count();
        ensure!(one_sided * 10 <= n, "{:?}: {} of {} positions of row {} only take one sign", op, one_sided, n, r);
    }
    for (i, (k, s, q)) in sq.iter().enumerate() {
        let (k, s, q) = (*k as f64, *s as f64, *q as f64);
        let v = cfg.var as f64;
        ensure!((s / k).abs() < 6.5 * (v / k).sqrt(), "{:?}: mean error {} in eighth {}", op, s / k, i);
        ensure!((q / k / v - 1.0).abs() < 12.0 / k.sqrt(), "{:?}: error variance {} in eighth {}, expected {}", op, q / k, i, v);
    }
    Ok(())
}

/// fine-grained: every eighth of every modulus gets its share of the mask
/// coefficients, at every position modulo eight, jointly with every other
/// modulus, with the neighbouring coefficient and with the mask handed out
/// before, over an enumerated set of environments (moduli for which reducing a
/// word would favour one eighth), in evaluation and in coefficient form
fn shares(c: &(Cfg, Op), pr: &mut Probe) -> Result<(), String> {
    let (cfg, op) = c;
    let (n, ws) = (cfg.n, worlds(cfg));
    let bucket = |x: u64, i: usize| ((x as u128 * 8 / cfg.moduli[i] as u128) as usize).min(7);
    // (form, what, modulus) -> counts
    let mut h: BTreeMap<(usize, String, usize), Vec<usize>> = BTreeMap::new();
    let mut total = 0;
    let mut s = 0;
    let mut last: Vec<Vec<u64>> = vec![];
    let mut prev: Vec<Vec<Vec<usize>>> = vec![];
    while total < 130_000 {
        ctl::set(Mode::Prng, 5000 + s);
        s += 1;
        let o = perform(&ws[s as usize % ws.len()], *op)?;
        pr.t();
        for m in &o {
            let k = m.mask.len() / n;
            let b: Vec<Vec<Vec<usize>>> =
                [&m.mask, &m.coef].iter().map(|v| (0..k).map(|i| (0..n).map(|j| bucket(v[i * n + j], i)).collect()).collect()).collect();
            for f in 0..2 {
                for i in 0..k {
                    let mut tables: Vec<(String, Box<dyn Fn(usize) -> usize + '_>, usize)> = vec![
                        ("".into(), Box::new(|_| 0), 1),
                        (" and position".into(), Box::new(|j| j * 8 / n), 8),
                        (" and next coefficient".into(), Box::new(|j| b[f][i][(j + 1) % n]), 8),
                    ];
                    tables.push((" and mirrored coefficient".into(), Box::new(|j| b[f][i][n - 1 - j]), 8));
                    tables.push((" and coefficient of the other half".into(), Box::new(|j| b[f][i][(j + n / 2) % n]), 8));
                    for i2 in 0..i {
                        let (b, f) = (&b, f);
                        tables.push((format!(" and residue mod {}", cfg.moduli[i2]), Box::new(move |j| b[f][i2][j]), 8));
                    }
                    if prev.len() == 2 && prev[f].len() > i {
                        tables.push((" and previous mask".into(), Box::new(|j| prev[f][i][j]), 8));
                    }
                    for (what, g, w) in &tables {
                        let e = h.entry((f, what.clone(), i)).or_insert_with(|| vec![0; 8 * w]);
                        for j in 0..n {
                            e[8 * g(j) + b[f][i][j]] += 1;
                        }
                    }
                }
            }
            prev = b;
            total += n;
        }
        last = o.into_iter().map(|x| x.mask).collect();
    }
    for m in &last {
        for (i, q) in cfg.moduli.iter().enumerate().take(m.len() / n) {
            // no value (of a large modulus) twice in one mask
            let mut v = m[i * n..(i + 1) * n].to_vec();
            v.sort();
            v.dedup();
            ensure!(*q < 1 << 40 || v.len() == n, "{:?}: a mask has only {} different residues mod {}", op, v.len(), q);
        }
    }
    for ((f, what, i), h) in &h {
        let all = h.iter().sum::<usize>();
        let mean = all as f64 / h.len() as f64;
        let tol = 10.0 * mean.sqrt();
        for (b, x) in h.iter().enumerate() {
            ensure!(
                (*x as f64 - mean).abs() <= tol,
                "{:?}: mask mod {} ({} form): {} of {} in value{} bucket {}, expected about {}",
                op, cfg.moduli[*i], ["evaluation", "coefficient"][*f], x, all, what, b, mean
            );
        }
    }
    pr.dstates += s;
    Ok(())
}

/// the prime = 1 mod 2n next below x
fn near(n: usize, x: u128) -> u64 {
    let step = 2 * n as u64;
    let mut p = (x as u64 - 1) / step * step + 1;
    while !is_prime_ref(p) {
        p -= step;
    }
    p
}

fn pairs(c: &(Cfg, Op, Op), pr: &mut Probe) -> Result<(), String> {
    let (cfg, a, b) = c;
    let ws = worlds(cfg);
    analyse(3, 2 * cfg.var, 200, || history(&ws[2], &[*a, *b]), pr)?;
    Ok(())
}

/// long histories: no mask ever comes back
fn long(c: &(Cfg, Vec<Op>, Env), pr: &mut Probe) -> Result<(), String> {
    let (cfg, ops, env) = c;
    let ws = worlds(cfg);
    env.set(cfg.var);
    let mut seen = HashSet::new();
    let mut rows = HashSet::new();
    for _ in 0..4 {
        let o = history(&ws[0], ops)?;
        pr.tn(ops.len() as u64);
        pr.dstates += 1;
        for m in &o.masks {
            // a mask of one modulus may be a prefix of none other
            let key = m[..cfg.n].to_vec();
            ensure!(seen.insert(key), "a mask is used twice in the history {:?}", ops);
            for r in m.chunks(cfg.n) {
                ensure!(r.iter().any(|x| *x != 0), "zero mask residue");
                ensure!(rows.insert(r.to_vec()), "a mask residue row repeats in the history {:?}", ops);
            }
        }
        if matches!(env, Env::Prng(_)) {
            for (i, e) in o.errs.iter().enumerate() {
                ensure!(e.iter().any(|x| *x != 0), "sample {} has no error", i);
            }
        }
    }
    Ok(())
}

/// the keys a client hands to the server
fn evaluation(c: &Cfg, pr: &mut Probe) -> Result<(), String> {
    let p = c.build();
    let sk = Key::Mixed.sk(&p);
    let s = sk.coeffs.to_vec();
    let q = c.q(0);
    let n = c.n;
    let k = c.moduli.len();
    let lg = n.trailing_zeros() as usize;
    ctl::set(Mode::Prng, 900);
    let ct = sk.encrypt(&pt(&p, &stream(n, c.t, 1), 0));
    let run = || -> Result<(Vec<Vec<u64>>, Vec<Vec<u64>>), String> {
        let ev = PirEvaluation::build(&sk, &p);
        let un = ev.unpack(ct.clone());
        let mut sm = vec![];
        let sb = key_big(&s, &q);
        let s2 = big_negmul(&sb, &sb, &q);
        rows(&ev.sk_rgsw().ksk0, &s2, &s, &c.moduli, &mut sm)?;
        rows(&ev.sk_rgsw().ksk1, &sb, &s, &c.moduli, &mut sm)?;
        let r = sm.into_iter().map(|x| x.mask.into_iter().chain(x.err.into_iter().map(|e| e as u64)).collect()).collect();
        Ok((r, un.iter().map(|x| x.cts.iter().flat_map(|p| residues(p).concat()).collect()).collect()))
    };
    ctl::set(Mode::Prng, 901);
    ctl::record();
    let base = run()?;
    let log = ctl::take_log();
    let mut matter = 0;
    for (d, a) in log.iter().enumerate() {
        for b in 0..8 * a.len() {
            ctl::set(Mode::Tweak { draw: d as u64, bit: b }, 901);
            let o = run()?;
            pr.t();
            pr.dstates += 1;
            let in_rgsw = o.0.iter().zip(&base.0).filter(|(x, y)| x != y).count();
            let in_gk = o.1 != base.1;
            ensure!(in_rgsw <= 1, "answer {} bit {} decides {} rows of the key encryption", d, b, in_rgsw);
            ensure!(!(in_rgsw == 1 && in_gk), "answer {} bit {} decides a Galois key and the key encryption", d, b);
            matter += (in_rgsw == 1 || in_gk) as usize;
        }
    }
    // log2(N) Galois keys and one RGSW ciphertext, of k rows each; every row its own mask seed and error
    let need = (lg + 2) * k * (200 + n * 4 * c.var);
    ensure!(matter >= need, "only {} random bits influence the evaluation keys, {} needed for fresh rows", matter, need);
    Ok(())
}

fn pvw(c: &(PvwParams, u64), pr: &mut Probe) -> Result<(), String> {
    let (prm, seed) = c;
    let q = prm.q;
    ctl::set(Mode::Prng, *seed);
    let sk = PvwSk::gen_sk(prm);
    let s = c18::recover(&sk, prm)?;
    // an encryption that selects every row
    let sel = [u64::MAX, 0, 1 << 63, 1];
    let msg = vec![0u64; prm.ell];
    let enc_all = |pk: &PvwPk| -> PvwCiphertext {
        let mut best = None;
        for d in sel {
            ctl::set(Mode::Script { words: vec![], default: d }, 1);
            let ct = pk.encrypt(prm, msg.clone());
            if ct.a.iter().any(|x| *x != 0) {
                best = Some(ct);
                break;
            }
        }
        best.unwrap_or(PvwCiphertext { a: vec![0; prm.n], b: vec![0; prm.ell] })
    };
    let err_of = |ct: &PvwCiphertext| -> Vec<i64> {
        (0..prm.ell)
            .map(|l| {
                let mut x = ct.b[l];
                for i in 0..prm.n {
                    x = (x + q - mulmod(s[l][i], ct.a[i], q)) % q;
                }
                if x > q / 2 { x as i64 - q as i64 } else { x as i64 }
            })
            .collect()
    };
    // public key rows: the sum over all rows shows every bit of randomness
    let gen = |mode: Mode| {
        ctl::set(mode, *seed + 50);
        ctl::record();
        let pk = sk.gen_pk(prm);
        let log = ctl::take_log();
        (pk, log)
    };
    let (pk0, log) = gen(Mode::Prng);
    let ct0 = enc_all(&pk0);
    let e0 = err_of(&ct0);
    let mut plus = vec![0usize; prm.ell];
    let mut minus = vec![0usize; prm.ell];
    let mut sum = vec![0i64; prm.ell];
    let mut coord_bits = vec![0usize; prm.n];
    let mut mask_draws = HashSet::new();
    for (d, a) in log.iter().enumerate() {
        for b in 0..8 * a.len() {
            let (pk, _) = gen(Mode::Tweak { draw: d as u64, bit: b });
            let ct = enc_all(&pk);
            let e = err_of(&ct);
            pr.t();
            pr.dstates += 1;
            let was = (a[b / 8] >> (b % 8)) & 1 == 1;
            let he: Vec<usize> = (0..prm.ell).filter(|l| e[*l] != e0[*l]).collect();
            let hm: Vec<usize> = (0..prm.n).filter(|i| ct.a[*i] != ct0.a[*i]).collect();
            ensure!(he.len() <= 1, "public key: answer {} bit {} decides several errors {:?}", d, b, he);
            ensure!(hm.len() <= 1, "public key: answer {} bit {} decides several mask coordinates {:?}", d, b, hm);
            ensure!(he.is_empty() || hm.is_empty(), "public key: answer {} bit {} decides mask and error", d, b);
            if let Some(l) = he.first() {
                let delta = e[*l] - e0[*l];
                ensure!(delta.abs() == 1, "public key: answer {} bit {} changes the error of slot {} by {}", d, b, l, delta);
                if (delta == 1) != was {
                    plus[*l] += 1;
                    sum[*l] += was as i64;
                } else {
                    minus[*l] += 1;
                    sum[*l] -= was as i64;
                }
            }
            if let Some(i) = hm.first() {
                coord_bits[*i] += 1;
                mask_draws.insert(d);
            }
        }
    }
    for l in 0..prm.ell {
        same!((plus[l], minus[l]), (2 * prm.variance * prm.m, 2 * prm.variance * prm.m), "public key: bits counted in the errors of slot {}", l);
        same!(e0[l], sum[l], "public key: total error of slot {}", l);
    }
    let need = (64 - q.leading_zeros()) as usize - 2;
    for (i, b) in coord_bits.iter().enumerate() {
        ensure!(*b >= need * prm.m, "public key: mask coordinate {} of {} rows depends on {} random bits only", i, prm.m, b);
    }
    // encryption randomness: one selector per row
    ctl::set(Mode::Prng, *seed + 70);
    ctl::record();
    let c0 = pk0.encrypt(prm, msg.clone());
    let log = ctl::take_log();
    let mut deltas = HashSet::new();
    for (d, a) in log.iter().enumerate() {
        for b in 0..8 * a.len() {
            ctl::set(Mode::Tweak { draw: d as u64, bit: b }, *seed + 70);
            let ct = pk0.encrypt(prm, msg.clone());
            pr.t();
            if ct.a != c0.a || ct.b != c0.b {
                deltas.insert((ct.a.clone(), ct.b.clone()));
            }
        }
    }
    ensure!(deltas.len() >= prm.m, "encryption: {} rows, only {} independent selections", prm.m, deltas.len());
    Ok(())
}

pub fn run(ex: &Arc<Ex>) {
    let th = ex.thorough;
    let mut v = vec![];
    let cfgs = vec![
        Cfg::raw(8, 17, &[97, 113, 193], 2),
        Cfg::bits(8, 97, &[62, 40, 50], 10),
        Cfg::bits(8, 17, &[20, 62], 1),
        Cfg::bits(16, 97, &[30, 30], 5),
        Cfg::bits(8, 17, &[50], 16),
    ];
    for c in &cfgs {
        for op in ops_for(c) {
            v.push((c.clone(), op));
        }
    }
    ex.group("single", &v, |c| format!("{}-{:?}", c.0.id(), c.1), |c, pr| single(c, th, pr));
    let c = &cfgs[2];
    let mut v = vec![];
    for a in ops_for(c) {
        for b in ops_for(c) {
            v.push((c.clone(), a, b));
        }
    }
    if th {
        let c = &cfgs[1];
        for a in ops_for(c) {
            for b in [Op::Enc(0), Op::Rgsw(1), Op::Galois(3, 0), Op::Ksk(1, 0), Op::Relin(2)] {
                v.push((c.clone(), a, b));
            }
        }
    }
    ex.group("pairs", &v, |c| format!("{}-{:?}-{:?}", c.0.id(), c.1, c.2), pairs);
    let c = Cfg::bits(8, 97, &[62, 40], 10);
    let alpha = [Op::Enc(0), Op::EncPoly(1), Op::Ksk(0, 0), Op::Rgsw(0), Op::Galois(3, 0), Op::Relin(1)];
    let mut v = vec![];
    for a in alpha {
        for b in alpha {
            for d in alpha {
                for env in [Env::Prng(3), Env::Prng(4), Env::Prng(5)] {
                    v.push((c.clone(), vec![a, b, d], env));
                    if th {
                        for e in alpha {
                            v.push((c.clone(), vec![a, b, d, e], env));
                        }
                    }
                }
            }
        }
    }
    ex.group("histories", &v, |c| format!("{}-{:?}-{:?}", c.0.id(), c.1, c.2), long);
    let w = 1u128 << 64;
    let mut v = vec![];
    for n in ex.pick(vec![64usize, 256], vec![16, 64, 256, 1024]) {
        let t = near(n, 1 << 14);
        // 2^64 / 4.125, / 4.5, / 4.875, 2^32 / 1.125, 2^32 / 2.125
        let ms = [near(n, w * 1000 / 4125), near(n, w * 1000 / 4500), near(n, w * 1000 / 4875), near(n, (1 << 32) * 1000 / 1125), near(n, (1u128 << 32) * 1000 / 2125)];
        let c = Cfg::raw(n, t, &ms, 10);
        for op in [Op::Enc(0), Op::EncPoly(1), Op::Ksk(0, 0), Op::Ksk(1, 0), Op::KskPt(0), Op::Rgsw(0), Op::RgswPoly(1), Op::Relin(0), Op::Galois(3, 0)] {
            v.push((c.clone(), op));
        }
    }
    ex.group("shares", &v, |c| format!("{}-{:?}", c.0.id(), c.1), shares);
    let mut v = vec![];
    for n in ex.pick(vec![1024usize, 4096, 8192], vec![512, 1024, 2048, 4096, 8192, 16384, 32768]) {
        for (sizes, var) in [(&[62usize, 50, 60][..], 10), (&[40, 62], 1), (&[60, 61, 62], 16)] {
            if !th && n > 1024 && var != 10 {
                continue;
            }
            let c = Cfg::bits(n, 65537, sizes, var);
            for op in [Op::Enc(0), Op::EncPoly(1), Op::Ksk(0, 0), Op::Ksk(1, 0), Op::KskPt(0), Op::Rgsw(0), Op::RgswPoly(0), Op::Relin(0), Op::Galois(3, 0)] {
                if th || n < 8192 || matches!(op, Op::Enc(_) | Op::EncPoly(_) | Op::Ksk(1, 0)) {
                    v.push((c.clone(), op));
                }
            }
        }
    }
    v.reverse();
    ex.group("large", &v, |c| format!("{}-{:?}", c.0.id(), c.1), large);
    let mut v = vec![Cfg::bits(8, 17, &[50, 60], 2)];
    if th {
        v.push(Cfg::bits(8, 97, &[62, 62, 40], 10));
        v.push(Cfg::bits(16, 97, &[62, 62], 3));
    }
    ex.group("evaluation-keys", &v, |c| c.id(), evaluation);
    let mut v = vec![];
    for (n, ell, m, q, variance) in [(1, 1, 1, 257, 1), (2, 2, 3, 257, 2), (3, 1, 2, 1153, 10), (2, 3, 2, 65537, 16), (1, 4, 4, 12289, 3)] {
        for seed in [1, 2] {
            v.push((PvwParams { n, ell, m, q, variance }, seed));
        }
    }
    ex.group("pvw", &v, |c| format!("{:?}-{}", c.0, c.1), pvw);
}
