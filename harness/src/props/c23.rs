//! Evaluation is a pure function of its operands. Every history runs in a
//! process of its own, so that whatever state a process, a thread or a
//! parameter set may keep starts out empty.

use super::c01::{digits, query};
use crate::engine::{h64, Ex, Probe};
use crate::ensure;
use crate::refm::*;
use crate::world::*;
use num_bigint::BigUint;
use onion_pir::verif::*;
use rand::ctl::{self, Mode};
use std::collections::HashMap;
use std::sync::{mpsc, Arc, Barrier, Mutex};

/// parameter sets: each agrees with A in everything but one respect
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum W {
    A,
    /// other moduli, same number and degree
    Q,
    /// same moduli, other degree
    N,
    /// other plaintext modulus
    T,
    /// the moduli of A in another order
    O,
    /// the moduli of A and one more
    M,
    /// the moduli of A, a much larger degree (and so another plaintext modulus)
    B,
}
const WS: [W; 7] = [W::A, W::Q, W::N, W::T, W::O, W::M, W::B];

fn cfg_of(w: W) -> Cfg {
    let m = primes(128, &[62, 61, 60, 62, 61]);
    let (n, t, ms) = match w {
        W::A => (8, 97, vec![m[0], m[1], m[2]]),
        W::Q => (8, 97, vec![m[3], m[4], m[2]]),
        W::N => (16, 97, vec![m[0], m[1], m[2]]),
        W::T => (8, 193, vec![m[0], m[1], m[2]]),
        W::O => (8, 97, vec![m[2], m[0], m[1]]),
        W::M => (8, 97, vec![m[0], m[1], m[2], m[3]]),
        W::B => (128, 769, vec![m[0], m[1], m[2]]),
    };
    Cfg::raw(n, t, &ms, 10)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Op {
    Dec,
    Simd,
    Add,
    MulPt,
    MulPoly,
    MulCt,
    Mws,
    Galois(usize),
    Switch,
    Ext,
    Unpack,
    Pir(usize, usize, usize),
    Down,
    Subst(usize),
    Ring,
    Scale,
    Noise,
    Inner,
    Mask,
    Pvw,
    Moduli,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
struct L {
    op: Op,
    w: W,
    /// 0, 1: the secret key; 2: key 0 with other operands; 3: key 0 with
    /// operands that differ from those of 0 in the last coefficient only
    key: usize,
    level: usize,
}

impl L {
    fn id(&self) -> String {
        format!("{:?}.{:?}.k{}.l{}", self.op, self.w, self.key, self.level).replace(' ', "")
    }
}

struct Wd {
    /// key 1 is the one at position 0
    swapped: bool,
    cfg: Cfg,
    p: Arc<BfvParameters>,
    sk: Vec<SecretKey>,
}

/// what a history shares: one instance of every parameter set
struct Worlds(HashMap<W, Wd>);

fn worlds(ws: &[W]) -> Worlds {
    let mut m = HashMap::new();
    for w in ws {
        m.entry(*w).or_insert_with(|| {
            let cfg = cfg_of(*w);
            let p = cfg.build();
            let sk = vec![Key::Tern.sk(&p), Key::Mixed.sk(&p)];
            Wd { swapped: false, cfg, p, sk }
        });
    }
    Worlds(m)
}

fn hp(p: &Poly) -> u64 {
    let c: Vec<u64> = p.coefficients().iter().cloned().collect();
    h64(&(c, format!("{:?}", p.representation), &p.context.moduli_64, p.context.degree))
}

fn hc(c: &BfvCipherText) -> u64 {
    h64(&(c.cts.iter().map(hp).collect::<Vec<_>>(), c.level))
}

fn hk(k: &SecretKey) -> u64 {
    h64(&k.coeffs.to_vec())
}

/// (operands, result)
type Dig = (u64, u64);

/// answers the environment has given so far
fn draws() -> (u64, u64) {
    let s = ctl::stats();
    (s.0, s.1)
}

/// run twice; no randomness, operands untouched, same result
fn pure<R>(
    what: &str,
    pr: &mut Probe,
    snap: &dyn Fn() -> u64,
    f: &dyn Fn() -> R,
    dig: &dyn Fn(&R) -> u64,
) -> Result<(R, Dig), String> {
    let s0 = snap();
    let d0 = draws();
    let r = f();
    let r2 = f();
    pr.tn(2);
    let d1 = draws();
    ensure!(d0 == d1, "{} draws randomness ({:?} -> {:?})", what, d0, d1);
    ensure!(snap() == s0, "{} changes its operands", what);
    let d = dig(&r);
    ensure!(dig(&r2) == d, "{}: the same call gives two results", what);
    Ok((r, (s0, d)))
}

fn exec(l: &L, ws: &Worlds, pr: &mut Probe) -> Result<Dig, String> {
    let w = &ws.0[&l.w];
    let (n, t, p) = (w.cfg.n, w.cfg.t, &w.p);
    let sk = &w.sk[((l.key == 1) != w.swapped) as usize];
    let lv = l.level;
    ctl::set(Mode::Prng, h64(l));
    let mut m1 = stream(n, t, 1 + (l.key % 3) as u64);
    if l.key == 3 {
        m1[n - 1] = (m1[n - 1] + 1) % t;
    }
    let m2: Vec<u64> = stream(n, t, 20 + (l.key == 2) as u64).iter().enumerate().map(|(i, x)| if i % 3 == 1 { 0 } else { *x }).collect();
    let q = w.cfg.q(lv);
    let cx = &p.q_ctxs[lv];
    let id = l.id();
    let chk = |c: &BfvCipherText, want: &[u64]| -> Result<(), String> {
        let d = ideal_decrypt(&phase(&c.cts, &sk.coeffs.to_vec()), &q, t);
        ensure!(d == want, "{}: decrypts to {:?}, expected {:?}", id, d, want);
        ensure!(c.level == lv, "{}: level {}", id, c.level);
        Ok(())
    };
    let dg = match l.op {
        Op::Dec => {
            let c = sk.encrypt(&pt(p, &m1, lv));
            chk(&c, &m1)?;
            let (r, d) = pure(&id, pr, &|| h64(&(hc(&c), hk(sk))), &|| sk.decrypt(&c), &|r| h64(&(r.values.to_vec(), r.level)))?;
            ensure!(r.values.to_vec() == m1, "{}: {:?}, expected {:?}", id, r.values, m1);
            d
        }
        Op::Simd => {
            let x = Plaintext::new(p, &m1, lv, Encoding::SIMD);
            let y = Plaintext::new(p, &m2, lv, Encoding::SIMD);
            let mut z = pt(p, &negmul(&x.values, &y.values, t), lv);
            z.set_encoding(Encoding::SIMD);
            let (r, d) = pure(
                &id,
                pr,
                &|| h64(&(x.values.to_vec(), z.values.to_vec())),
                &|| (Plaintext::new(p, &m1, lv, Encoding::SIMD).values.to_vec(), x.decode(), z.decode(), hp(&x.to_poly())),
                &|r| h64(r),
            )?;
            ensure!(r.0 == x.values.to_vec() && r.1 == m1, "{}: SIMD round trip gives {:?}, expected {:?}", id, r.1, m1);
            let want: Vec<u64> = m1.iter().zip(&m2).map(|(a, b)| a * b % t).collect();
            ensure!(r.2 == want, "{}: SIMD product {:?}, expected {:?}", id, r.2, want);
            d
        }
        Op::Add => {
            let (a, b) = (sk.encrypt(&pt(p, &m1, lv)), sk.encrypt(&pt(p, &m2, lv)));
            let s = pt(p, &m2, lv).to_poly();
            let (r, d) = pure(&id, pr, &|| h64(&(hc(&a), hc(&b), hp(&s))), &|| (&a + &b, &a - &b, &a + &s), &|r| h64(&(hc(&r.0), hc(&r.1), hc(&r.2))))?;
            chk(&r.0, &addv(&m1, &m2, t))?;
            chk(&r.1, &subv(&m1, &m2, t))?;
            chk(&r.2, &addv(&m1, &m2, t))?;
            d
        }
        Op::MulPt => {
            let a = sk.encrypt(&pt(p, &m1, lv));
            let b = pt(p, &m2, lv);
            let (r, d) = pure(&id, pr, &|| h64(&(hc(&a), b.values.to_vec())), &|| &a * &b, &hc)?;
            chk(&r, &negmul(&m1, &m2, t))?;
            d
        }
        Op::MulPoly => {
            let a = sk.encrypt(&pt(p, &m1, lv));
            let b = poly_ntt_u64(cx, &m2);
            let s = BigUint::from(5u32);
            let (r, d) = pure(&id, pr, &|| h64(&(hc(&a), hp(&b))), &|| (&a * &b, &a * &s), &|r| h64(&(hc(&r.0), hc(&r.1))))?;
            chk(&r.0, &negmul(&m1, &m2, t))?;
            chk(&r.1, &m1.iter().map(|x| x * 5 % t).collect::<Vec<_>>())?;
            d
        }
        Op::MulCt => {
            let (a, b) = (sk.encrypt(&pt(p, &m1, lv)), sk.encrypt(&pt(p, &m2, lv)));
            let (r, d) = pure(&id, pr, &|| h64(&(hc(&a), hc(&b))), &|| &a * &b, &hc)?;
            chk(&r, &negmul(&m1, &m2, t))?;
            d
        }
        Op::Mws => {
            let (a, b) = (sk.encrypt(&pt(p, &m1, lv)), sk.encrypt(&pt(p, &m2, lv)));
            let rlk = RelinearizationKey::new(sk, lv);
            let c2 = Poly::try_from_vec_u64(cx, &m1);
            let (r, d) = pure(
                &id,
                pr,
                &|| {
                    let k = rlk.relinearize_poly(&c2);
                    h64(&(hc(&a), hc(&b), hp(&k.0), hp(&k.1)))
                },
                &|| multiply_with_strategy(&a, &b, &rlk),
                &hc,
            )?;
            chk(&r, &negmul(&m1, &m2, t))?;
            d
        }
        Op::Galois(k) => {
            let k = if k == 0 { 2 * n - 1 } else { k };
            let a = sk.encrypt(&pt(p, &m1, lv));
            let gk = GaliosKey::new(sk, &Substitution::new(cx, k), lv);
            let probe = sk.encrypt(&pt(p, &m2, lv));
            let (r, d) = pure(&id, pr, &|| h64(&(hc(&a), hc(&gk.relinearize(&probe)))), &|| gk.relinearize(&a), &hc)?;
            chk(&r, &subst(&m1, k, t))?;
            d
        }
        Op::Switch => {
            let f = poly_ntt_u64(cx, &m2);
            let k = Ksk::new(sk, &f, lv, lv);
            let big: Vec<BigUint> = stream(n, u64::MAX, 9).iter().map(|x| (BigUint::from(*x) * *x * 77u32) % &q).collect();
            let c = Poly::try_from_bigint(cx, &big);
            let e = Poly::try_from_vec_u64(cx, &m1);
            let (r, d) = pure(
                &id,
                pr,
                &|| {
                    let z = k.key_switch(&e);
                    h64(&(hp(&c), hp(&z.0), hp(&z.1)))
                },
                &|| k.key_switch(&c),
                &|r| h64(&(hp(&r.0), hp(&r.1))),
            )?;
            let got = phase(&[r.0, r.1], &sk.coeffs.to_vec());
            let want = big_negmul(&big, &m2.iter().map(|x| BigUint::from(*x)).collect::<Vec<_>>(), &q);
            let e = max_err(&got, &want, &q);
            ensure!(e <= ks_bound(&w.cfg.level_moduli(lv), n, w.cfg.var), "{}: error {}", id, e);
            d
        }
        Op::Ext => {
            let a = sk.encrypt(&pt(p, &m1, lv));
            let g = RgswCt::encrypt(sk, &pt(p, &m2, lv));
            let probe = sk.encrypt(&pt(p, &m2, lv));
            let (r, d) = pure(
                &id,
                pr,
                &|| {
                    let z = RgswCt::external_product(&g, &probe);
                    h64(&(hc(&a), hp(&z.0), hp(&z.1)))
                },
                &|| ct_of(p, RgswCt::external_product(&g, &a), lv),
                &hc,
            )?;
            chk(&r, &negmul(&m1, &m2, t))?;
            d
        }
        Op::Unpack => {
            let ev = PirEvaluation::build(sk, p);
            let a = sk.encrypt(&pt(p, &m1, 0));
            let probe = sk.encrypt(&pt(p, &m2, 0));
            let (r, d) = pure(
                &id,
                pr,
                &|| h64(&(hc(&a), ev.unpack(probe.clone()).iter().map(hc).collect::<Vec<_>>())),
                &|| ev.unpack(a.clone()),
                &|r| h64(&r.iter().map(hc).collect::<Vec<_>>()),
            )?;
            ensure!(r.len() == n, "{}: {} ciphertexts", id, r.len());
            for (i, c) in r.iter().enumerate() {
                let mut want = vec![0; n];
                want[0] = m1[i];
                chk(c, &want)?;
            }
            d
        }
        Op::Pir(first, dim, nd) => {
            let ev = PirEvaluation::build(sk, p);
            let rows = first * dim.pow(nd as u32 - 1);
            let entries: Vec<Vec<u64>> = (0..rows).map(|i| stream(n, t, 100 + i as u64 + 50 * l.key as u64)).collect();
            let db: Vec<Plaintext> = entries.iter().map(|e| pt(p, e, 0)).collect();
            let srv = PirServer::new(first, dim, &db, p);
            let mut out = (0, 0);
            for i in [rows - 1, rows / 2, 0] {
                let qs = query(p, sk, first, dim, &digits(i, first, dim, nd), rows);
                let (r, d) = pure(
                    &id,
                    pr,
                    &|| h64(&(qs.iter().map(hc).collect::<Vec<_>>(), ev.unpack(qs[0].clone()).iter().map(hc).collect::<Vec<_>>())),
                    &|| srv.decode(qs.clone(), &ev, p),
                    &|r| h64(&r.iter().map(hc).collect::<Vec<_>>()),
                )?;
                ensure!(r.len() == 1, "{}: {} responses", id, r.len());
                chk(&r[0], &entries[i])?;
                out = h64(&(out, d)).pair(out, d);
            }
            // another client of the same server, then the first again
            let other = &w.sk[if std::ptr::eq(sk, &w.sk[0]) { 1 } else { 0 }];
            let ev2 = PirEvaluation::build(other, p);
            for (s, e, i) in [(other, &ev2, 0), (sk, &ev, rows - 1), (other, &ev2, rows - 1)] {
                let r = srv.decode(query(p, s, first, dim, &digits(i, first, dim, nd), rows), e, p);
                pr.t();
                ensure!(r.len() == 1, "{}: {} responses", id, r.len());
                let d = ideal_decrypt(&phase(&r[0].cts, &s.coeffs.to_vec()), &q, t);
                ensure!(d == entries[i], "{}: two clients in turn: {:?}, expected {:?}", id, d, entries[i]);
            }
            out
        }
        Op::Down => {
            let big: Vec<BigUint> = stream(n, u64::MAX, 9).iter().map(|x| (BigUint::from(*x) * *x * 77u32) % &q).collect();
            let a = Poly::try_from_bigint(cx, &big);
            let last = *w.cfg.level_moduli(lv).last().unwrap();
            let (r, d) = pure(
                &id,
                pr,
                &|| hp(&a),
                &|| {
                    let mut b = a.clone();
                    b.mod_switch_down_next();
                    b
                },
                &hp,
            )?;
            let nq = &q / last;
            let want: Vec<BigUint> = big.iter().map(|x| ((x * 2u32 + last) / (BigUint::from(last) * 2u32)) % &nq).collect();
            ensure!(read(&r) == want, "{}: switched to {:?}, expected {:?}", id, read(&r), want);
            d
        }
        Op::Subst(k) => {
            let a = poly_ntt_u64(cx, &m1);
            let b = Poly::try_from_vec_u64(cx, &m1);
            let k = if k == 0 { 2 * n - 1 } else { k };
            let s = Substitution::new(cx, k);
            let (r, d) = pure(&id, pr, &|| h64(&(hp(&a), hp(&b))), &|| (a.substitute(&s), b.substitute(&s)), &|r| h64(&(hp(&r.0), hp(&r.1))))?;
            let want = big_subst(&m1.iter().map(|x| BigUint::from(*x)).collect::<Vec<_>>(), k, &q);
            ensure!(read(&r.0) == want && read(&r.1) == want, "{}: wrong substitution", id);
            d
        }
        Op::Ring => {
            let a = poly_ntt_u64(cx, &m1);
            let b = poly_ntt_u64(cx, &m2);
            let (r, d) = pure(
                &id,
                pr,
                &|| h64(&(hp(&a), hp(&b))),
                &|| {
                    let mut x = &a * &b;
                    x.change_representation(Representation::PowerBasis);
                    let mut y = &a - &b;
                    y.change_representation(Representation::PowerBasis);
                    (x, y, -&a)
                },
                &|r| h64(&(hp(&r.0), hp(&r.1), hp(&r.2))),
            )?;
            let (v1, v2): (Vec<BigUint>, Vec<BigUint>) = (m1.iter().map(|x| (*x).into()).collect(), m2.iter().map(|x| (*x).into()).collect());
            ensure!(Vec::<BigUint>::from(&r.0) == big_negmul(&v1, &v2, &q), "{}: wrong product", id);
            ensure!(Vec::<BigUint>::from(&r.1) == big_sub(&v1, &v2, &q), "{}: wrong difference", id);
            ensure!(read(&r.2) == big_neg(&v1, &q), "{}: wrong negation", id);
            d
        }
        Op::Scale => {
            // t/Q into a plaintext-sized ring, the way decryption uses it
            let to = ctx(&w.cfg.level_moduli(lv)[..1], n);
            let s = RqScaler::new(cx, &to, ScalingFactor::new(BigUint::from(t), q.clone()));
            let big: Vec<BigUint> = (0..n as u64).map(|i| (&q * (2 * i + 1)) / (2 * n as u64) / 2u32).collect();
            let a = Poly::try_from_bigint(cx, &big);
            let (r, d) = pure(&id, pr, &|| hp(&a), &|| rq_scale(&s, &a), &hp)?;
            let got = read(&r);
            for (x, g) in big.iter().zip(&got) {
                let lo = (x * t * 2u32 + &q) / (&q * 2u32);
                ensure!(*g == lo || *g == &lo + 1u32 || g + 1u32 == lo, "{}: scaled {} to {}, expected {}", id, x, g, lo);
            }
            d
        }
        Op::Noise => {
            let c = sk.encrypt(&pt(p, &m1, lv));
            let (r, d) = pure(&id, pr, &|| h64(&(hc(&c), hk(sk))), &|| sk.measure_noise(&c), &|r| *r as u64)?;
            let e = max_err(&phase(&c.cts, &sk.coeffs.to_vec()), &scaled(&m1, &q, t), &q);
            ensure!(r as u64 == e.bits(), "{}: noise {} bits, measured {}", id, e.bits(), r);
            d
        }
        Op::Inner => {
            let a = vec![sk.encrypt(&pt(p, &m1, lv)), sk.encrypt(&pt(p, &m2, lv))];
            let b = vec![poly_ntt_u64(cx, &m2), poly_ntt_u64(cx, &m1)];
            let (r, d) = pure(
                &id,
                pr,
                &|| h64(&(a.iter().map(hc).collect::<Vec<_>>(), b.iter().map(hp).collect::<Vec<_>>())),
                &|| omr_inner_product(&a, &b),
                &hc,
            )?;
            let x = negmul(&m1, &m2, t);
            chk(&r, &addv(&x, &x, t))?;
            d
        }
        Op::Mask => {
            let mut seeds = vec![[0u8; 32], [255u8; 32]];
            for i in 0..32 {
                let mut s = [0u8; 32];
                s[i] = 1 << (i % 8);
                seeds.push(s);
            }
            let (r, d) = pure(
                &id,
                pr,
                &|| 0,
                &|| {
                    seeds
                        .iter()
                        .flat_map(|s| [Representation::Ntt, Representation::PowerBasis].map(|r| Poly::random_from_seed(cx, r, *s)))
                        .collect::<Vec<_>>()
                },
                &|r| h64(&r.iter().map(hp).collect::<Vec<_>>()),
            )?;
            for i in 0..r.len() {
                for j in 0..i {
                    if i / 2 != j / 2 {
                        ensure!(r[i].coefficients() != r[j].coefficients(), "{}: two seeds give the same polynomial", id);
                    }
                }
            }
            d
        }
        Op::Pvw => {
            let pp = PvwParams { n: n + lv, ell: 2 + lv, m: 20, q: w.cfg.moduli[0] >> 40 | 1, variance: 2 };
            // any odd q carries the scheme; the reference needs none of it
            let psk = PvwSk::gen_sk(&pp);
            let pk = psk.gen_pk(&pp);
            let m: Vec<u64> = (0..pp.ell as u64).map(|i| (i + 1) % 2).collect();
            let c = pk.encrypt(&pp, m.clone());
            let (r, d) = pure(&id, pr, &|| h64(&(&c.a, &c.b)), &|| psk.decrypt(&pp, &c), &|r| h64(r))?;
            ensure!(r == m, "{}: {:?}, expected {:?}", id, r, m);
            d
        }
        Op::Moduli => {
            let sizes = vec![40, 50, 40, 62 - lv];
            let (r, d) = pure(&id, pr, &|| 0, &|| BfvParameters::generate_moduli(&sizes, n), &|r| h64(r))?;
            let r = r.ok_or(format!("{}: no moduli", id))?;
            for (m, s) in r.iter().zip(&sizes) {
                ensure!(is_prime_ref(*m) && 64 - m.leading_zeros() as usize == *s && m % (2 * n as u64) == 1, "{}: modulus {}", id, m);
            }
            d
        }
    };
    pr.outcome(&dg);
    Ok(dg)
}

trait PairExt {
    fn pair(self, a: Dig, b: Dig) -> Dig;
}
impl PairExt for u64 {
    fn pair(self, a: Dig, b: Dig) -> Dig {
        (h64(&(a.0, b.0)), h64(&(a.1, b.1)))
    }
}

/// a history: letters and the thread each runs on
#[derive(Clone, Debug)]
struct Hist {
    steps: Vec<(L, usize)>,
    rebuild: Rebuild,
}

/// what a step makes for itself and drops at its end
#[derive(Clone, Copy, Debug, PartialEq)]
enum Rebuild {
    Nothing,
    /// the keys; they take the place of the previous step's
    Keys,
    /// parameters and keys
    All,
}

impl Hist {
    fn id(&self) -> String {
        match self.rebuild {
            Rebuild::Nothing => "",
            Rebuild::Keys => "rekeyed-",
            Rebuild::All => "rebuilt-",
        }
        .to_string() + &self.steps.iter().map(|(l, t)| format!("{}@{}", l.id(), t)).collect::<Vec<_>>().join("-")
    }
}

enum Cmd {
    Run(L, Rebuild, Option<Arc<Worlds>>, mpsc::Sender<(Result<Dig, String>, u64)>),
}

/// run a history in this process
fn play(h: &Hist) -> Result<(Vec<Dig>, u64), String> {
    let ws = if h.rebuild != Rebuild::Nothing { None } else { Some(Arc::new(worlds(&h.steps.iter().map(|(l, _)| l.w).collect::<Vec<_>>()))) };
    let nt = h.steps.iter().map(|(_, t)| t + 1).max().unwrap();
    let mut out = vec![];
    let mut calls = 0;
    let chans: Vec<mpsc::Sender<Cmd>> = (0..nt)
        .map(|_| {
            let (tx, rx) = mpsc::channel::<Cmd>();
            std::thread::Builder::new()
                .stack_size(32 << 20)
                .spawn(move || {
                    let mut own = Worlds(HashMap::new());
                    while let Ok(Cmd::Run(l, rebuild, ws, back)) = rx.recv() {
                        let mut pr = Probe::default();
                        if rebuild == Rebuild::Keys {
                            let wd = own.0.entry(l.w).or_insert_with(|| worlds(&[l.w]).0.remove(&l.w).unwrap());
                            wd.swapped = l.key == 1;
                            for (i, k) in [Key::Tern, Key::Mixed].iter().enumerate() {
                                wd.sk[(i == 1) as usize ^ wd.swapped as usize] = k.sk(&wd.p);
                            }
                        }
                        let r = match crate::engine::guard(|| match &ws {
                            Some(ws) => exec(&l, ws, &mut pr),
                            None if rebuild == Rebuild::Keys => exec(&l, &own, &mut pr),
                            None => exec(&l, &worlds(&[l.w]), &mut pr),
                        }) {
                            Ok(r) => r,
                            Err(e) => Err(format!("{}: panicked: {}", l.id(), e)),
                        };
                        let _ = back.send((r, pr.transitions));
                    }
                })
                .unwrap();
            tx
        })
        .collect();
    for (i, (l, t)) in h.steps.iter().enumerate() {
        let (tx, rx) = mpsc::channel();
        chans[*t].send(Cmd::Run(*l, h.rebuild, ws.clone(), tx)).unwrap();
        let (r, n) = rx.recv().map_err(|_| format!("step {}: no answer", i))?;
        calls += n;
        out.push(r.map_err(|e| format!("step {} of {}: {}", i + 1, h.id(), e))?);
    }
    Ok((out, calls))
}

/// (letter, operands) -> (result, history that first gave it)
type Table = Mutex<HashMap<(L, u64), (u64, String)>>;

fn child(h: &Hist, alpha: &[L], thorough: bool, pr: &mut Probe, table: &Table) -> Result<(), String> {
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let mut cmd = std::process::Command::new(exe);
    let steps: Vec<String> = h.steps.iter().map(|(l, t)| format!("{}@{}", alpha.iter().position(|a| a == l).unwrap(), t)).collect();
    cmd.env("ONION_MC_CHILD", format!("{}{}", match h.rebuild {
        Rebuild::Nothing => "",
        Rebuild::Keys => "K",
        Rebuild::All => "R",
    }, steps.join(","))).arg("C23");
    if thorough {
        cmd.args(["--tier", "thorough"]);
    }
    let o = cmd.output().map_err(|e| e.to_string())?;
    let txt = String::from_utf8_lossy(&o.stdout).to_string();
    let line = txt.lines().find(|l| l.starts_with("HIST ") || l.starts_with("FAIL "));
    let line = line.ok_or_else(|| format!("history {} ended with {:?}", h.id(), o.status))?;
    if let Some(m) = line.strip_prefix("FAIL ") {
        return Err(m.to_string());
    }
    let v: Vec<u64> = line[5..].split(' ').map(|x| x.parse().unwrap()).collect();
    pr.tn(v[0]);
    for (i, (l, _)) in h.steps.iter().enumerate() {
        let (ops, res) = (v[1 + 2 * i], v[2 + 2 * i]);
        pr.outcome(&res);
        let mut t = table.lock().unwrap();
        let e = t.entry((*l, ops)).or_insert((res, h.id()));
        ensure!(e.0 == res, "{} on the same operands gives another result in history {} than in {}", l.id(), h.id(), e.1);
    }
    pr.dstates += 1;
    Ok(())
}

/// in the child: answer on stdout and leave
fn answer(h: &Hist) -> ! {
    match play(h) {
        Ok((d, n)) => {
            let mut s = format!("HIST {}", n);
            for (a, b) in d {
                s += &format!(" {} {}", a, b);
            }
            println!("{}", s);
        }
        Err(e) => println!("FAIL {}", e.replace('\n', " ")),
    }
    std::process::exit(0)
}

fn histories(ex: &Arc<Ex>, group: &str, v: &[(String, Hist)], alpha: &[L], table: &Table) {
    if ex.only.is_some() && group != "single" {
        // replay: the results every operation gives on its own
        if let Some((_, h)) = v.iter().find(|(n, _)| ex.only.as_deref() == Some(&format!("{}/{}", group, n))) {
            let mut pr = Probe::default();
            for (l, _) in &h.steps {
                let _ = child(&Hist { steps: vec![(*l, 0)], rebuild: Rebuild::Nothing }, alpha, ex.thorough, &mut pr, table);
            }
        }
    }
    ex.group(group, v, |h| h.0.clone(), |h, pr| child(&h.1, alpha, ex.thorough, pr, table));
}

fn named(v: Vec<Hist>) -> Vec<(String, Hist)> {
    v.into_iter().map(|h| (h.id(), h)).collect()
}

fn letters(w: W, full: bool) -> Vec<L> {
    let k = cfg_of(w).moduli.len();
    let mut v = vec![];
    let mut put = |op, key, level| v.push(L { op, w, key, level });
    use Op::*;
    if w == W::B {
        for op in [Dec, Simd, Ring, Subst(3), MulPt, MulCt, Galois(3), Mask] {
            put(op, 0, 0);
        }
        return v;
    }
    // levels at which the operation has noise budget
    for lv in 0..k {
        let full_lv = full || lv == 0;
        for op in [Dec, Noise, Add, MulPt, MulPoly, Inner] {
            if full_lv || op == Dec {
                put(op, 0, lv);
            }
        }
        if full_lv {
            for op in [Simd, Ring, Subst(3), Mask] {
                put(op, 0, lv);
            }
        }
        if lv + 1 < k {
            if full_lv || lv == 1 {
                for op in [MulCt, Mws, Galois(3), Switch, Ext, Down, Scale] {
                    put(op, 0, lv);
                }
            }
            if full {
                put(Galois(0), 0, lv);
                put(Subst(0), 0, lv);
            }
        }
    }
    for op in [Unpack, Pir(2, 2, 2), Pvw, Moduli] {
        put(op, 0, 0);
    }
    put(Pir(3, 2, 2), 0, 0);
    // another key of the same parameters
    for op in [Dec, Mws, Galois(3), Ext, Unpack, Pir(2, 2, 2)] {
        put(op, 1, 0);
    }
    // other operands under the same key
    if w == W::A || full {
        for op in [Dec, Noise, Simd, Add, MulPt, MulPoly, MulCt, Mws, Galois(3), Switch, Ext, Inner, Unpack, Down, Subst(3), Ring, Pir(2, 2, 2)] {
            put(op, 2, 0);
            put(op, 3, 0);
        }
    }
    if full {
        put(Pir(4, 3, 2), 0, 0);
        put(Pir(2, 2, 3), 0, 0);
        put(Pvw, 0, 1);
        put(Moduli, 0, 1);
        put(Noise, 1, 0);
        put(Switch, 1, 0);
    }
    v
}

/// several threads at once on the same operands
fn concurrent(c: &(L, L), pr: &mut Probe) -> Result<(), String> {
    let ws = worlds(&[c.0.w, c.1.w]);
    let mut want = vec![];
    for l in [c.0, c.1] {
        want.push(exec(&l, &ws, pr)?);
    }
    let barrier = Barrier::new(4);
    let res: Mutex<Vec<Result<u64, String>>> = Mutex::new(vec![]);
    std::thread::scope(|s| {
        for i in 0..4usize {
            let (ws, want, barrier, res, l) = (&ws, &want, &barrier, &res, [c.0, c.1][i % 2]);
            s.spawn(move || {
                let mut p = Probe::default();
                barrier.wait();
                let mut r = Ok(());
                for _ in 0..3 {
                    r = match crate::engine::guard(|| exec(&l, ws, &mut p)) {
                        Ok(Ok(d)) if d.0 == want[i % 2].0 && d.1 != want[i % 2].1 => Err(format!("{} gives another result when run concurrently", l.id())),
                        Ok(Ok(_)) => Ok(()),
                        Ok(Err(e)) => Err(e),
                        Err(e) => Err(e),
                    };
                    if r.is_err() {
                        break;
                    }
                }
                res.lock().unwrap().push(r.map(|_| p.transitions));
            });
        }
    });
    for r in res.into_inner().unwrap() {
        pr.tn(r?);
    }
    pr.dstates += 1;
    Ok(())
}

/// the same call again and again
fn repeated(c: &(L, usize), pr: &mut Probe) -> Result<(), String> {
    let ws = worlds(&[c.0.w]);
    let first = exec(&c.0, &ws, pr)?;
    for i in 0..c.1 {
        let d = exec(&c.0, &ws, pr)?;
        ensure!(d.0 != first.0 || d.1 == first.1, "{}: repetition {} gives another result", c.0.id(), i + 2);
    }
    pr.dstates += c.1 as u64;
    Ok(())
}

pub fn run(ex: &Arc<Ex>) {
    let th = ex.thorough;
    let table: Table = Mutex::new(HashMap::new());
    let alpha: Vec<L> = WS.iter().flat_map(|w| letters(*w, th)).collect();
    if let Ok(steps) = std::env::var("ONION_MC_CHILD") {
        let rebuild = match steps.chars().next() {
            Some('R') => Rebuild::All,
            Some('K') => Rebuild::Keys,
            _ => Rebuild::Nothing,
        };
        let steps = steps
            .trim_start_matches(['R', 'K'])
            .split(',')
            .map(|s| {
                let (i, t) = s.split_once('@').unwrap();
                (alpha[i.parse::<usize>().unwrap()], t.parse().unwrap())
            })
            .collect();
        answer(&Hist { steps, rebuild });
    }
    let mut v = vec![];
    for l in &alpha {
        v.push(Hist { steps: vec![(*l, 0)], rebuild: Rebuild::Nothing });
    }
    histories(ex, "single", &named(v), &alpha, &table);
    // all ordered pairs that have an operation or a parameter set in common,
    // on one thread and handed over between two
    let mut v = vec![];
    for a in &alpha {
        for b in &alpha {
            let kind = |o: Op| std::mem::discriminant(&o);
            let related = kind(a.op) == kind(b.op) || a.w == W::A && b.w == W::A || th && a.w == b.w;
            if a == b || !related {
                continue;
            }
            v.push(Hist { steps: vec![(*a, 0), (*b, 0)], rebuild: Rebuild::Nothing });
            if th || kind(a.op) == kind(b.op) && (a.w == W::A || b.w == W::A) {
                v.push(Hist { steps: vec![(*a, 0), (*b, 1)], rebuild: Rebuild::Nothing });
            }
        }
    }
    histories(ex, "pairs", &named(v), &alpha, &table);
    // parameters and keys that do not outlive the step, so that what comes
    // next may lie where they were
    let mut v = vec![];
    for a in &alpha {
        for b in &alpha {
            let kind = |o: Op| std::mem::discriminant(&o);
            if kind(a.op) == kind(b.op) && (th || a.w == W::A || b.w == W::A) {
                v.push(Hist { steps: vec![(*a, 0), (*b, 0)], rebuild: Rebuild::All });
                if a.w == b.w && (th || a.key != b.key) {
                    v.push(Hist { steps: vec![(*a, 0), (*b, 0)], rebuild: Rebuild::Keys });
                }
            }
        }
    }
    histories(ex, "rebuilt", &named(v), &alpha, &table);
    // every operation after everything else, forwards and backwards, and
    // parameter sets interleaved
    let mut v = vec![];
    for r in 0..WS.len() {
        let mut ws = WS.to_vec();
        ws.rotate_left(r);
        let seq: Vec<(L, usize)> = ws.iter().flat_map(|w| letters(*w, th)).map(|l| (l, 0)).collect();
        let mut rev = seq.clone();
        rev.reverse();
        let mut mix: Vec<(L, usize)> = vec![];
        let per: Vec<Vec<L>> = ws.iter().map(|w| letters(*w, th)).collect();
        for i in 0..per.iter().map(|p| p.len()).max().unwrap() {
            for p in &per {
                if let Some(l) = p.get(i) {
                    mix.push((*l, i % 2));
                }
            }
        }
        v.push((format!("forward-{}", r), Hist { steps: seq, rebuild: Rebuild::Nothing }));
        v.push((format!("backward-{}", r), Hist { steps: rev, rebuild: Rebuild::Nothing }));
        v.push((format!("mixed-{}", r), Hist { steps: mix, rebuild: Rebuild::Nothing }));
    }
    histories(ex, "tours", &v, &alpha, &table);
    if th {
        // all triples a b c over the cheap letters of three parameter sets
        let mut v = vec![];
        use Op::*;
        let small: Vec<L> = [W::A, W::Q, W::N, W::T]
            .iter()
            .flat_map(|w| letters(*w, false))
            .filter(|l| l.key == 0 && matches!(l.op, Dec | MulCt | Mws | Galois(_) | Ext | Down | Simd | Scale) && (l.level == 0 || l.op == Dec && l.level == 1))
            .collect();
        let kind = |o: Op| std::mem::discriminant(&o);
        for a in &small {
            for b in &small {
                for c in &small {
                    if a != b && b != c && (kind(a.op) == kind(c.op) || a.w == c.w && kind(b.op) == kind(c.op)) {
                        v.push(Hist { steps: vec![(*a, 0), (*b, 1), (*c, 0)], rebuild: Rebuild::Nothing });
                    }
                }
            }
        }
        histories(ex, "triples", &named(v), &alpha, &table);
    }
    let mut v = vec![];
    for (i, a) in alpha.iter().enumerate() {
        for b in &alpha[i..] {
            let kind = |o: Op| std::mem::discriminant(&o);
            if kind(a.op) == kind(b.op) && (a.w == W::A || th) {
                v.push((*a, *b));
            }
        }
    }
    {
        ex.group("concurrent", &v, |c| format!("{}-{}", c.0.id(), c.1.id()), concurrent);
        let v: Vec<(L, usize)> = alpha
            .iter()
            .filter(|l| l.w == W::A)
            .map(|l| (*l, if matches!(l.op, Op::Pir(..) | Op::Unpack) { ex.pick(10, 100) } else { ex.pick(70, 600) }))
            .collect();
        ex.group("repeated", &v, |c| c.0.id(), repeated);
    }
}
