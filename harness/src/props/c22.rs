use super::c01::query;
use crate::engine::{guard, Ex, Probe};
use crate::refm::*;
use crate::world::*;
use crate::ensure;
use num_bigint::BigUint;
use onion_pir::verif::*;
use std::sync::Arc;

/// Parameter sets that differ in one respect each.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum P {
    A,
    /// built separately from the same description: compatible with A
    Twin,
    /// other plaintext modulus
    T,
    /// other ciphertext moduli
    Q,
    /// same moduli, other order
    Order,
    /// other degree
    N,
    /// one modulus more
    More,
    /// one modulus less
    Less,
}
const PS: [P; 8] = [P::A, P::Twin, P::T, P::Q, P::Order, P::N, P::More, P::Less];

fn cfg_of(p: P) -> Cfg {
    // all moduli are 1 mod 32, so that they serve both degrees
    let m = primes(16, &[62, 50, 60, 55]);
    let (n, t, ms) = match p {
        P::A | P::Twin => (8, 97, vec![m[0], m[1], m[2]]),
        P::T => (8, 193, vec![m[0], m[1], m[2]]),
        P::Q => (8, 97, vec![m[0], m[3], m[2]]),
        P::Order => (8, 97, vec![m[1], m[0], m[2]]),
        P::N => (16, 97, vec![m[0], m[1], m[2]]),
        P::More => (8, 97, vec![m[0], m[1], m[2], m[3]]),
        P::Less => (8, 97, vec![m[0], m[1]]),
    };
    Cfg::raw(n, t, &ms, 3)
}

fn same_class(a: P, b: P) -> bool {
    let f = |x| if x == P::Twin { P::A } else { x };
    f(a) == f(b)
}

struct World {
    p: P,
    cfg: Cfg,
    params: Arc<BfvParameters>,
    sk: SecretKey,
    msg: Vec<u64>,
}

fn world(p: P) -> World {
    let cfg = cfg_of(p);
    let params = cfg.build();
    let sk = Key::Tern.sk(&params);
    let msg = stream(cfg.n, cfg.t, 3);
    World { p, cfg, params, sk, msg }
}

impl World {
    fn levels(&self) -> usize {
        self.cfg.moduli.len()
    }
    fn ct(&self, level: usize, comps: usize) -> BfvCipherText {
        let c = self.sk.encrypt(&pt(&self.params, &self.msg, level));
        match comps {
            2 => c,
            1 => BfvCipherText { cts: vec![c.cts[0].clone()], ..c },
            3 => &c * &c,
            _ => &(&c * &c) * &c,
        }
    }
}

fn expect<T>(what: String, ok: bool, r: Result<T, String>, pr: &mut Probe) -> Result<Option<T>, String> {
    pr.t();
    pr.dstates += 1;
    pr.outcome(&(ok, what.split(' ').next().map(|s| s.to_string())));
    match r {
        Ok(v) => {
            ensure!(ok, "{}: accepted", what);
            Ok(Some(v))
        }
        Err(e) => {
            ensure!(!ok, "{}: refused ({})", what, e);
            pr.rejected += 1;
            Ok(None)
        }
    }
}

/// Operands of the same ring but of different parameter sets: the operation
/// needs nothing but the ring, so neither answer is required.
fn expect_ring<T>(what: String, fits: bool, same_params: bool, r: Result<T, String>, pr: &mut Probe) -> Result<Option<T>, String> {
    if fits && !same_params {
        pr.t();
        return Ok(r.ok());
    }
    expect(what, fits, r, pr)
}

/// ciphertext x ciphertext, ciphertext x plaintext
fn ct_pairs(c: &(P, P), pr: &mut Probe) -> Result<(), String> {
    let (a, b) = (world(c.0), world(c.1));
    let fit = same_class(c.0, c.1);
    for la in 0..a.levels() {
        for lb in 0..b.levels() {
            for ca in [2, 3] {
                for cb in [2, 3] {
                    let (x, y) = (a.ct(la, ca), b.ct(lb, cb));
                    let ok = fit && la == lb;
                    let what = |o: &str| format!("{} of {:?} level {} ({} components) and {:?} level {} ({} components)", o, c.0, la, ca, c.1, lb, cb);
                    expect(what("sum"), ok, guard(|| &x + &y), pr)?;
                    expect(what("difference"), ok, guard(|| &x - &y), pr)?;
                    expect(what("product"), ok, guard(|| &x * &y), pr)?;
                    for (rw, rn) in [(&a, "left"), (&b, "right")] {
                        for lr in 0..rw.levels() {
                            let rlk = RelinearizationKey::new(&rw.sk, lr);
                            let ok = ok && lr == la && ca == 2 && cb == 2;
                            expect(
                                format!("{} with the {} operand's relinearization key of level {}", what("multiply_with_strategy"), rn, lr),
                                ok,
                                guard(|| multiply_with_strategy(&x, &y, &rlk)),
                                pr,
                            )?;
                        }
                    }
                }
            }
            for ca in [2, 3] {
                let x = a.ct(la, ca);
                let y = pt(&b.params, &b.msg, lb);
                expect(format!("plaintext-product of {:?} level {} and {:?} level {}", c.0, la, c.1, lb), fit && la == lb, guard(|| &x * &y), pr)?;
            }
        }
    }
    // a relinearization key of foreign parameters
    for l in 0..a.levels().min(b.levels()) {
        let rlk = RelinearizationKey::new(&b.sk, l);
        let x = a.ct(l, 2);
        expect(format!("multiply_with_strategy of {:?} with a key of {:?} level {}", c.0, c.1, l), fit, guard(|| multiply_with_strategy(&x, &x, &rlk)), pr)?;
    }
    Ok(())
}

/// everything that consumes a ciphertext and a key of (possibly) other parameters
fn key_pairs(c: &(P, P), pr: &mut Probe) -> Result<(), String> {
    let (a, b) = (world(c.0), world(c.1));
    let sp = same_class(c.0, c.1);
    let ring = |l1: usize, l2: usize| a.cfg.n == b.cfg.n && a.cfg.level_moduli(l1) == b.cfg.level_moduli(l2);
    for la in 0..a.levels() {
        for lb in 0..b.levels() {
            for comps in [1usize, 2, 3] {
                let x = a.ct(la, comps);
                let d = |o: &str| format!("{} of a {:?} ciphertext level {} ({} components) with a {:?} key of level {}", o, c.0, la, comps, c.1, lb);
                let gk = GaliosKey::new(&b.sk, &Substitution::new(&b.params.q_ctxs[lb], 3), lb);
                expect_ring(d("galois"), ring(la, lb) && la == lb && comps == 2, sp, guard(|| gk.relinearize(&x)), pr)?;
                let rg = RgswCt::encrypt(&b.sk, &pt(&b.params, &b.msg, lb));
                expect_ring(d("external-product"), ring(la, lb) && comps == 2, sp, guard(|| RgswCt::external_product(&rg, &x)), pr)?;
            }
            // key switching
            let from = poly_ntt_u64(&b.params.q_ctxs[lb], &b.msg);
            let k = Ksk::new(&b.sk, &from, lb, lb);
            let mut poly = Poly::try_from_vec_u64(&a.params.q_ctxs[la], &a.msg);
            expect_ring(format!("key-switch of a {:?} level {} polynomial with a {:?} level {} key", c.0, la, c.1, lb), ring(la, lb), sp, guard(|| k.key_switch(&poly)), pr)?;
            poly.change_representation(Representation::Ntt);
            expect(format!("key-switch of a {:?} level {} polynomial in evaluation form", c.0, la), false, guard(|| k.key_switch(&poly)), pr)?;
            // assembling a key from encryptions
            let x = b.ct(lb, 2);
            expect(
                format!("key-assembly for {:?} from {:?} encryptions", c.0, c.1),
                same_class(c.0, c.1),
                guard(|| Ksk::try_from_decomposed_rlwes(&a.params, &vec![x.clone(); b.levels() - lb])),
                pr,
            )?;
        }
        // encrypting a polynomial: its ring has to be one of the key's levels
        let poly = poly_ntt_u64(&a.params.q_ctxs[la], &a.msg);
        let is_level = (0..b.levels()).any(|lb| ring(la, lb));
        if let Some(ct) = expect_ring(format!("encryption under a {:?} key of a {:?} level {} polynomial", c.1, c.0, la), is_level, sp, guard(|| b.sk.encrypt_poly(&poly)), pr)? {
            ensure!(ct.cts[0].context == poly.context, "encryption in another ring");
        }
        expect_ring(format!("rgsw-encryption under a {:?} key of a {:?} level {} polynomial", c.1, c.0, la), is_level, sp, guard(|| RgswCt::encrypt_poly(&b.sk, &poly)), pr)?;
        expect(
            format!("rgsw-encryption under a {:?} key of a {:?} level {} plaintext", c.1, c.0, la),
            same_class(c.0, c.1),
            guard(|| RgswCt::encrypt(&b.sk, &pt(&a.params, &a.msg, la))),
            pr,
        )?;
        let mut pb = poly.clone();
        pb.change_representation(Representation::PowerBasis);
        expect(format!("rgsw-encryption of a {:?} polynomial in coefficient form", c.0), false, guard(|| RgswCt::encrypt_poly(&a.sk, &pb)), pr)?;
        expect(format!("encryption of a {:?} polynomial in coefficient form", c.0), false, guard(|| a.sk.encrypt_poly(&pb)), pr)?;
        // decryption with a key whose ring of that level is another one
        if a.cfg.n == b.cfg.n || !ring(la, la.min(b.levels() - 1)) {
            let x = a.ct(la, 2);
            let ok = la < b.levels() && ring(la, la);
            expect_ring(format!("decryption of a {:?} level {} ciphertext with a {:?} key", c.0, la, c.1), ok, sp, guard(|| b.sk.decrypt(&x)), pr)?;
            expect_ring(format!("noise measurement of a {:?} level {} ciphertext with a {:?} key", c.0, la, c.1), ok, sp, guard(|| b.sk.measure_noise(&x)), pr)?;
        }
    }
    // a key with fewer moduli than the polynomials it is meant for
    for ctl in 0..b.levels() {
        for kl in 0..b.levels() {
            let from = poly_ntt_u64(&b.params.q_ctxs[kl], &b.msg);
            let poly = Poly::try_from_vec_u64(&b.params.q_ctxs[ctl], &b.msg);
            expect(
                format!("key-switch with input level {} and key level {}", ctl, kl),
                kl <= ctl,
                guard(|| Ksk::new(&b.sk, &from, ctl, kl).key_switch(&poly)),
                pr,
            )?;
        }
    }
    Ok(())
}

/// rings for polynomial arithmetic
fn rings() -> Vec<(usize, Vec<u64>)> {
    let m = primes(16, &[62, 50, 60]);
    let mut v = vec![];
    for n in [8, 16] {
        v.push((n, vec![m[0]]));
        v.push((n, vec![m[1]]));
        v.push((n, vec![m[2]]));
        for i in 0..3 {
            for j in 0..3 {
                if i != j {
                    v.push((n, vec![m[i], m[j]]));
                    let k = 3 - i - j;
                    v.push((n, vec![m[i], m[j], m[k]]));
                }
            }
        }
    }
    v
}

fn poly_pairs(c: &((usize, Vec<u64>), (usize, Vec<u64>)), pr: &mut Probe) -> Result<(), String> {
    let ((n1, m1), (n2, m2)) = c;
    let (x1, x2) = (ctx(m1, *n1), ctx(m2, *n2));
    let va: Vec<u64> = stream(*n1, 1 << 40, 1);
    let vb: Vec<u64> = stream(*n2, 1 << 40, 2);
    let fits = n1 == n2 && m2.starts_with(m1);
    for r1 in [Representation::Ntt, Representation::PowerBasis] {
        for r2 in [Representation::Ntt, Representation::PowerBasis] {
            let mut a = Poly::try_from_vec_u64(&x1, &va);
            let mut b = Poly::try_from_vec_u64(&x2, &vb);
            a.change_representation(r1.clone());
            b.change_representation(r2.clone());
            let ok = fits && r1 == Representation::Ntt && r2 == Representation::Ntt;
            let d = |o: &str| format!("{} of polynomials over {:?} (N={}, {:?}) and {:?} (N={}, {:?})", o, m1, n1, r1, m2, n2, r2);
            let q = product(m1);
            let (ba, bb): (Vec<BigUint>, Vec<BigUint>) = (va.iter().map(|x| x % &q).collect(), vb.iter().map(|x| x % &q).collect());
            let assign = |f: &dyn Fn(&mut Poly)| {
                guard(|| {
                    let mut z = a.clone();
                    f(&mut z);
                    z
                })
            };
            let runs: Vec<(&str, Result<Poly, String>)> = vec![
                ("sum", guard(|| &a + &b)),
                ("sum-assign", assign(&|z| *z += &b)),
                ("difference", guard(|| &a - &b)),
                ("difference-assign", assign(&|z| *z -= &b)),
                ("product", guard(|| &a * &b)),
                ("product-assign", assign(&|z| *z *= &b)),
            ];
            for (name, r) in runs {
                if let Some(z) = expect(d(name), ok, r, pr)? {
                    let want = match &name[..3] {
                        "sum" => big_add(&ba, &bb, &q),
                        "dif" => big_sub(&ba, &bb, &q),
                        _ => big_negmul(&ba, &bb, &q),
                    };
                    ensure!(z.context == x1, "{}: result in another ring", d(name));
                    ensure!(read(&z) == want, "{}: wrong value", d(name));
                }
            }
        }
        // ciphertext with polynomial
        if m1.len() > 1 {
            let mut b = Poly::try_from_vec_u64(&x2, &vb);
            b.change_representation(r1.clone());
            let cfg = Cfg::raw(*n1, 97, m1, 3);
            let p = cfg.build();
            let sk = Key::Tern.sk(&p);
            for comps in [2, 3] {
                let mut ct = sk.encrypt(&pt(&p, &[1, 2], 0));
                if comps == 3 {
                    ct = &ct * &ct;
                }
                let ok = c.0 == c.1 && r1 == Representation::Ntt;
                let d = |o: &str| format!("{} of a ciphertext over {:?} (N={}) and a polynomial over {:?} (N={}, {:?})", o, m1, n1, m2, n2, r1);
                expect(d("sum"), ok, guard(|| &ct + &b), pr)?;
                expect(d("product"), ok, guard(|| &ct * &b), pr)?;
                expect(d("inner-product"), ok, guard(|| omr_inner_product(&vec![ct.clone()], &vec![b.clone()])), pr)?;
            }
            // scaling: from the scaler's own ring only
            let to = ctx(&m1[..1], *n1);
            let sc = RqScaler::new(&x1, &to, ScalingFactor::new(BigUint::from(97u32), product(m1)));
            let mut b = Poly::try_from_vec_u64(&x2, &vb);
            b.change_representation(r1.clone());
            expect(format!("scaling of a polynomial over {:?} (N={}) with a scaler from {:?} (N={})", m2, n2, m1, n1), c.0 == c.1, guard(|| rq_scale(&sc, &b)), pr)?;
        }
        // scalar multiplication needs evaluation form
        let mut a = Poly::try_from_vec_u64(&x1, &va);
        a.change_representation(r1.clone());
        expect(format!("scalar product in {:?} form", r1), r1 == Representation::Ntt, guard(|| &a * &BigUint::from(5u32)), pr)?;
        // word view
        expect(format!("word view over {} moduli", m1.len()), m1.len() == 1, guard(|| Vec::<u64>::from(&Poly::try_from_vec_u64(&x1, &va))), pr)?;
    }
    expect(
        format!("scaler between N={} and N={}", n1, n2),
        n1 == n2,
        guard(|| RqScaler::new(&x1, &x2, ScalingFactor::new(BigUint::from(1u32), BigUint::from(1u32)))),
        pr,
    )?;
    Ok(())
}

/// inner products and server queries of the wrong length
fn lengths(c: &usize, pr: &mut Probe) -> Result<(), String> {
    let k = *c;
    let cfg = Cfg::bits(8, 17, &vec![60; k], 3);
    let p = cfg.build();
    let sk = Key::Tern.sk(&p);
    let cts: Vec<BfvCipherText> = (0..5).map(|i| sk.encrypt(&pt(&p, &[i, 1], 0))).collect();
    let polys: Vec<Poly> = (0..5).map(|i| poly_ntt_u64(&p.q_ctxs[0], &[i, 2])).collect();
    for i in 1..=5 {
        for j in 0..=5 {
            expect(format!("inner-product of {} ciphertexts and {} polynomials", i, j), i == j, guard(|| omr_inner_product(&cts[..i].to_vec(), &polys[..j].to_vec())), pr)?;
        }
    }
    if k > 1 {
        let ev = PirEvaluation::build(&sk, &p);
        let db: Vec<Plaintext> = (0..4).map(|i| pt(&p, &[i], 0)).collect();
        let srv = PirServer::new(2, 2, &db, &p);
        let q = query(&p, &sk, 2, 2, &[1, 0], 4);
        for len in 0..=k + 3 {
            let mut v = q.clone();
            while v.len() < len {
                v.push(q[q.len() - 1].clone());
            }
            v.truncate(len);
            expect(format!("query of {} ciphertexts for {} moduli", len, k), len == k + 1, guard(|| srv.decode(v, &ev, &p)), pr)?;
        }
    }
    expect("plaintext without encoding".into(), false, guard(|| Plaintext::new(&p, &vec![1; 8], 0, Encoding::None)), pr)?;
    expect("decoding without encoding".into(), false, guard(|| sk.decrypt(&cts[0]).decode()), pr)?;
    for l in 0..k + 3 {
        expect(format!("plaintext level {} of {}", l, k), l < k, guard(|| sk.encrypt(&pt(&p, &[1], l))), pr)?;
    }
    for e in 0..40usize {
        expect(format!("substitution exponent {}", e), e % 2 == 1, guard(|| Substitution::new(&p.q_ctxs[0], e)), pr)?;
    }
    Ok(())
}

pub fn run(ex: &Arc<Ex>) {
    let mut v = vec![];
    for a in PS {
        for b in PS {
            v.push((a, b));
        }
    }
    ex.group("ciphertexts", &v, |c| format!("{:?}-{:?}", c.0, c.1), ct_pairs);
    ex.group("keys", &v, |c| format!("{:?}-{:?}", c.0, c.1), key_pairs);
    let r = rings();
    let mut v = vec![];
    for a in &r {
        for b in &r {
            v.push((a.clone(), b.clone()));
        }
    }
    let sh = |c: &(usize, Vec<u64>)| format!("n{}q{}", c.0, c.1.iter().map(|m| format!("{}", 64 - m.leading_zeros())).collect::<Vec<_>>().join("."));
    ex.group("polynomials", &v, |c| format!("{}-{}", sh(&c.0), sh(&c.1)), poly_pairs);
    ex.group("lengths", &[1usize, 2, 3, 4], |c| format!("k{}", c), lengths);
}
