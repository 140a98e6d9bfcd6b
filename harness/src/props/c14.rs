use crate::engine::{guard, Ex, Probe};
use crate::refm::*;
use crate::world::*;
use crate::{ensure, same};
use num_bigint::{BigInt, BigUint};
use num_traits::{One, ToPrimitive, Zero};
use onion_pir::verif::*;
use std::sync::Arc;

type C = (Vec<u64>, usize);

fn lift(p: &Poly) -> Vec<BigUint> {
    let mut q = p.clone();
    q.change_representation(Representation::PowerBasis);
    Vec::<BigUint>::from(&q)
}

/// constructors and reading back
fn build(c: &C, pr: &mut Probe) -> Result<(), String> {
    let (ms, n) = c;
    let n = *n;
    let cx = ctx(ms, n);
    let q = product(ms);
    let pad = |v: Vec<BigUint>| {
        let mut v = v;
        v.resize(n, BigUint::zero());
        v
    };
    let u_vals: Vec<u64> = {
        let mut v = vec![0, 1, u64::MAX, u64::MAX - 1, 1 << 63, (1 << 62) - 1, 1 << 32];
        for m in ms {
            v.extend([m - 1, *m, m + 1, m * 2, m / 2, u64::MAX / m * m, u64::MAX / m * m - 1]);
        }
        v
    };
    let i_vals: Vec<i64> = {
        let mut v = vec![0i64, 1, -1, i64::MAX, i64::MIN, i64::MIN + 1, 20, -20];
        for m in ms {
            let m = *m as i64;
            v.extend([m, -m, m - 1, 1 - m, m + 1, -m - 1, m / 2, -(m / 2), 2 * m.min(1 << 61), -2 * m.min(1 << 61)]);
        }
        v
    };
    let b_vals: Vec<BigUint> = {
        let mut v = vec![BigUint::zero(), BigUint::one(), &q - 1u32, q.clone(), &q + 1u32, &q * &q + 5u32, &q >> 1usize, BigUint::one() << 500usize];
        for m in ms {
            v.push(BigUint::from(*m));
            v.push(&q - *m);
        }
        v
    };
    let mut check = |p: Poly, want: Vec<BigUint>, what: &str| -> Result<(), String> {
        pr.tn(3);
        pr.dstates += 1;
        same!(p.representation, Representation::PowerBasis, "{}: representation", what);
        ensure!(p.context == cx, "{}: context", what);
        for (i, r) in residues(&p).iter().enumerate() {
            ensure!(r.iter().all(|x| *x < ms[i]), "{}: non-canonical residues {:?} mod {}", what, r, ms[i]);
        }
        ensure!(read(&p) == want, "{}: {:?}, expected {:?}", what, read(&p), want);
        ensure!(Vec::<BigUint>::from(&p) == want, "{}: reading back gives {:?}, expected {:?}", what, Vec::<BigUint>::from(&p), want);
        if ms.len() == 1 {
            let v = Vec::<u64>::from(&p);
            let w: Vec<u64> = want.iter().map(|x| x.to_u64().unwrap()).collect();
            ensure!(v == w, "{}: reading back as words gives {:?}", what, v);
        }
        // representation changes
        let mut e = p.clone();
        e.change_representation(Representation::Ntt);
        same!(e.representation, Representation::Ntt, "{}: representation", what);
        let e2 = e.clone();
        e.change_representation(Representation::Ntt);
        ensure!(e == e2, "{}: changing to the own representation changed the polynomial", what);
        e.change_representation(Representation::PowerBasis);
        ensure!(e == p, "{}: representation roundtrip", what);
        e.change_representation(Representation::PowerBasis);
        ensure!(e == p, "{}: changing to the own representation changed the polynomial", what);
        pr.outcome(&want);
        Ok(())
    };
    for len in 0..=n {
        for off in 0..3 {
            let v: Vec<u64> = (0..len).map(|i| u_vals[(i + off * 5) % u_vals.len()]).collect();
            check(Poly::try_from_vec_u64(&cx, &v), pad(v.iter().map(|x| BigUint::from(*x) % &q).collect()), &format!("u64 {:?}", v))?;
            let v: Vec<i64> = (0..len).map(|i| i_vals[(i + off * 7) % i_vals.len()]).collect();
            check(Poly::try_from_vec_i64(&cx, &v), pad(v.iter().map(|x| big_of_i64(*x, &q)).collect()), &format!("i64 {:?}", v))?;
            let v: Vec<BigUint> = (0..len).map(|i| b_vals[(i + off * 3) % b_vals.len()].clone()).collect();
            check(Poly::try_from_bigint(&cx, &v), pad(v.iter().map(|x| x % &q).collect()), &format!("big {:?}", v))?;
        }
    }
    for (k, x) in u_vals.iter().enumerate() {
        let mut v = vec![0; n];
        v[k % n] = *x;
        check(Poly::try_from_vec_u64(&cx, &v), v.iter().map(|x| BigUint::from(*x) % &q).collect(), &format!("u64 {:?}", v))?;
    }
    for (k, x) in i_vals.iter().enumerate() {
        let mut v = vec![0; n];
        v[k % n] = *x;
        check(Poly::try_from_vec_i64(&cx, &v), v.iter().map(|x| big_of_i64(*x, &q)).collect(), &format!("i64 {:?}", v))?;
    }
    for r in [Representation::PowerBasis, Representation::Ntt] {
        let z = Poly::zero(&cx, r.clone());
        same!(z.representation, r, "zero");
        ensure!(read(&z).iter().all(|x| x.is_zero()), "zero polynomial is not zero");
    }
    Env::Prng(11).set(10);
    // random polynomials: residues of every modulus, all of them reachable, in
    // the requested representation; the lift is the element they represent
    for r in [Representation::PowerBasis, Representation::Ntt] {
        let mut seen: Vec<std::collections::BTreeSet<u64>> = vec![Default::default(); ms.len()];
        for round in 0..24 {
            let p = Poly::random(&cx, &mut rand::thread_rng(), r.clone());
            let d = Poly::random_from_seed(&cx, r.clone(), [round as u8; 32]);
            for p in [p, d] {
                same!(p.representation, r, "representation of a random polynomial");
                ensure!(p.context == cx, "context of a random polynomial");
                same!(p.coefficients().dim(), (ms.len(), n), "shape of a random polynomial");
                for (i, row) in p.coefficients().outer_iter().enumerate() {
                    ensure!(row.iter().all(|x| *x < ms[i]), "random residues {:?} mod {}", row, ms[i]);
                    seen[i].extend(row.iter());
                }
                pr.tn(2);
                pr.dstates += 1;
                let v = lift(&p);
                ensure!(v == read(&p), "lift of a random polynomial {:?}: {:?}", read(&p), v);
                let mut e = Poly::try_from_bigint(&cx, &v);
                e.change_representation(r.clone());
                ensure!(e == p, "a random polynomial rebuilt from its coefficients");
            }
        }
        for (i, m) in ms.iter().enumerate() {
            // 48n draws: a sampler over [0, m) reaches both halves and many values
            let want = (*m as usize / 4).min(8 * n);
            ensure!(
                seen[i].len() >= want && seen[i].iter().any(|x| *x < m / 2) && seen[i].iter().any(|x| *x > m / 2),
                "{} different residues mod {} in {} random ones",
                seen[i].len(),
                m,
                96 * n
            );
        }
    }
    ensure!(guard(|| Poly::try_from_vec_u64(&cx, &vec![1; n + 1])).is_err(), "more coefficients than the degree accepted");
    if ms.len() > 1 {
        let p = Poly::try_from_vec_u64(&cx, &[1]);
        ensure!(guard(|| Vec::<u64>::from(&p)).is_err(), "word view of a multi-modulus polynomial accepted");
    }
    Ok(())
}

fn operands(ms: &[u64], n: usize, full: bool) -> Vec<Vec<BigUint>> {
    let q = product(ms);
    let mut out = super::c08::inputs(ms, n, full);
    out.push((0..n).map(|i| BigUint::from(i as u64)).collect());
    out.push((0..n).map(|i| if i % 2 == 0 { &q - 1u32 } else { BigUint::one() }).collect());
    out
}

/// ring operations over all operand pairs
fn ops(c: &C, full: bool, pr: &mut Probe) -> Result<(), String> {
    let (ms, n) = c;
    let n = *n;
    let cx = ctx(ms, n);
    let q = product(ms);
    let os = operands(ms, n, full);
    let ps: Vec<Poly> = os.iter().map(|v| poly_ntt_big(&cx, v)).collect();
    let canon = |p: &Poly| p.coefficients().outer_iter().zip(ms).all(|(r, m)| r.iter().all(|x| x < m));
    for (a, pa) in os.iter().zip(&ps) {
        // unary
        let neg = -pa;
        pr.t();
        ensure!(canon(&neg), "negation not canonical");
        ensure!(lift(&neg) == big_neg(a, &q), "-({:?}) = {:?}", a, lift(&neg));
        let cf = Poly::try_from_bigint(&cx, a);
        let negc = -&cf;
        same!(negc.representation, Representation::PowerBasis, "representation of a negation");
        ensure!(lift(&negc) == big_neg(a, &q), "-({:?}) in coefficient form", a);
        for s in [BigUint::zero(), BigUint::one(), &q - 1u32, q.clone(), &q * &q + 7u32, BigUint::from(ms[0])] {
            let r = pa * &s;
            let mut r2 = pa.clone();
            r2 *= &s;
            pr.tn(2);
            let w: Vec<BigUint> = a.iter().map(|x| (x * &s) % &q).collect();
            ensure!(lift(&r) == w && r == r2, "{:?} * scalar {} = {:?}, expected {:?}", a, s, lift(&r), w);
        }
        for (b, pb) in os.iter().zip(&ps) {
            pr.tn(6);
            pr.dstates += 1;
            let s = pa + pb;
            let d = pa - pb;
            let m = pa * pb;
            ensure!(canon(&s) && canon(&d) && canon(&m), "non-canonical residues from {:?}, {:?}", a, b);
            let w = big_add(a, b, &q);
            ensure!(read(&s) == w, "{:?} + {:?} = {:?}", a, b, read(&s));
            let w2 = big_sub(a, b, &q);
            ensure!(read(&d) == w2, "{:?} - {:?} = {:?}", a, b, read(&d));
            let w3 = big_negmul(a, b, &q);
            ensure!(read(&m) == w3, "{:?} * {:?} = {:?}, expected {:?}", a, b, read(&m), w3);
            pr.outcome(&w3);
            let mut x = pa.clone();
            x += pb;
            ensure!(x == s, "+= differs from +");
            let mut x = pa.clone();
            x -= pb;
            ensure!(x == d, "-= differs from -");
            let mut x = pa.clone();
            x *= pb;
            ensure!(x == m, "*= differs from *");
        }
    }
    Ok(())
}

/// histories of operations and representation changes, depth-bounded
fn history(c: &C, depth: usize, pr: &mut Probe) -> Result<(), String> {
    let (ms, n) = c;
    let n = *n;
    let cx = ctx(ms, n);
    let q = product(ms);
    let a: Vec<BigUint> = super::c08::inputs(ms, n, false).pop().unwrap();
    let b: Vec<BigUint> = (0..n).map(|i| big_of_i64(3 - 2 * i as i64, &q)).collect();
    let (pa, pb) = (poly_ntt_big(&cx, &a), poly_ntt_big(&cx, &b));
    fn go(
        x: &Poly,
        m: &Vec<BigUint>,
        env: (&Arc<RqContext>, &BigUint, &Poly, &Vec<BigUint>, &Poly, &Vec<BigUint>),
        hist: &mut Vec<u8>,
        depth: usize,
        pr: &mut Probe,
    ) -> Result<(), String> {
        if depth == 0 {
            return Ok(());
        }
        let (cx, q, pa, a, pb, b) = env;
        let ntt = x.representation == Representation::Ntt;
        for op in 0..10u8 {
            let (y, w): (Poly, Vec<BigUint>) = match op {
                0 => {
                    let mut y = x.clone();
                    y.change_representation(if ntt { Representation::PowerBasis } else { Representation::Ntt });
                    (y, m.clone())
                }
                1 => (-x, big_neg(m, q)),
                2 if ntt => (x + pa, big_add(m, a, q)),
                3 if ntt => (x - pb, big_sub(m, b, q)),
                4 if ntt => (pb - x, big_sub(b, m, q)),
                5 if ntt => (x * pb, big_negmul(m, b, q)),
                6 if ntt => (x * x, big_negmul(m, m, q)),
                7 if ntt => (x * &(q - 2u32), m.iter().map(|v| (v * (q - 2u32)) % q).collect()),
                8 => (x.substitute(&Substitution::new(cx, 5)), big_subst(m, 5, q)),
                9 if ntt => (pa * x, big_negmul(m, a, q)),
                _ => continue,
            };
            hist.push(op);
            pr.t();
            ensure!(read(&y) == w, "history {:?}: {:?}, expected {:?}", hist, read(&y), w);
            pr.state(&w);
            go(&y, &w, env, hist, depth - 1, pr)?;
            hist.pop();
        }
        Ok(())
    }
    go(&pa, &a, (&cx, &q, &pa, &a, &pb, &b), &mut vec![], depth, pr)
}

fn inverse(c: &C, pr: &mut Probe) -> Result<(), String> {
    let (ms, n) = c;
    let n = *n;
    let cx = ctx(ms, n);
    let one: Vec<BigUint> = (0..n).map(|i| BigUint::from((i == 0) as u32)).collect();
    for v in operands(ms, n, true) {
        let p = poly_ntt_big(&cx, &v);
        // invertible iff no zero in evaluation form
        if p.coefficients().iter().any(|x| *x == 0) {
            continue;
        }
        let i = p.inverse();
        pr.t();
        pr.dstates += 1;
        same!(i.representation, Representation::Ntt, "representation of the inverse");
        ensure!(big_negmul(&read(&i), &v, &product(ms)) == one, "inverse of {:?}", v);
    }
    let _ = BigInt::zero();
    Ok(())
}

/// degrees used in practice, checked residue by residue
fn large(c: &C, pr: &mut Probe) -> Result<(), String> {
    let (ms, n) = c;
    let n = *n;
    let cx = ctx(ms, n);
    let res = |salt: u64| -> Vec<Vec<u64>> { ms.iter().enumerate().map(|(i, m)| stream(n, *m, salt + i as u64)).collect() };
    let top: Vec<Vec<u64>> = ms.iter().map(|m| vec![m - 1; n]).collect();
    let mono: Vec<Vec<u64>> = ms.iter().map(|m| (0..n).map(|j| if j == n - 1 { m - 1 } else { 0 }).collect()).collect();
    let vals = [res(1), res(100), top, mono];
    let mk = |r: &Vec<Vec<u64>>| from_residues(r, ms);
    let ps: Vec<Poly> = vals.iter().map(|r| poly_ntt_big(&cx, &mk(r))).collect();
    for (i, r) in vals.iter().enumerate() {
        pr.tn(4);
        pr.dstates += 1;
        ensure!(residues(&ps[i]) == *r, "construction and representation change of polynomial {}", i);
        ensure!(lift(&ps[i]) == mk(r), "reading back polynomial {}", i);
        let neg: Vec<Vec<u64>> = r.iter().zip(ms).map(|(v, m)| v.iter().map(|x| (m - x) % m).collect()).collect();
        ensure!(residues(&-&ps[i]) == neg, "negation of polynomial {}", i);
        let k = product(ms) - 12345u32;
        let w: Vec<Vec<u64>> = r
            .iter()
            .zip(ms)
            .map(|(v, m)| {
                let km = (&k % *m).to_u64().unwrap();
                v.iter().map(|x| mulmod(*x, km, *m)).collect()
            })
            .collect();
        ensure!(residues(&(&ps[i] * &k)) == w, "scalar multiple of polynomial {}", i);
        if !ps[i].coefficients().iter().any(|x| *x == 0) {
            let one = &ps[i] * &ps[i].inverse();
            ensure!(residues(&one).iter().all(|r| r.iter().enumerate().all(|(j, x)| *x == (j == 0) as u64)), "inverse of polynomial {}", i);
        }
        for (j, s) in vals.iter().enumerate() {
            let f = |op: &dyn Fn(&[u64], &[u64], u64) -> Vec<u64>| -> Vec<Vec<u64>> { (0..ms.len()).map(|k| op(&r[k], &s[k], ms[k])).collect() };
            pr.tn(3);
            pr.dstates += 1;
            ensure!(residues(&(&ps[i] + &ps[j])) == f(&|a, b, m| addv(a, b, m)), "sum of polynomials {} and {}", i, j);
            ensure!(residues(&(&ps[i] - &ps[j])) == f(&|a, b, m| subv(a, b, m)), "difference of polynomials {} and {}", i, j);
            if n <= 1024 || j == 3 {
                ensure!(residues(&(&ps[i] * &ps[j])) == f(&|a, b, m| negmul(a, b, m)), "product of polynomials {} and {}", i, j);
            }
        }
        pr.outcome(&r[0]);
    }
    let iv: Vec<i64> = stream(n, u64::MAX, 9).iter().map(|x| *x as i64).collect();
    let uv = stream(n, u64::MAX, 10);
    for len in [0, 1, n / 2, n - 1, n] {
        let pi = Poly::try_from_vec_i64(&cx, &iv[..len]);
        let pu = Poly::try_from_vec_u64(&cx, &uv[..len]);
        pr.tn(2);
        let (ri, ru) = (residues(&pi), residues(&pu));
        for (k, m) in ms.iter().enumerate() {
            for j in 0..n {
                let (wi, wu) = if j < len { ((iv[j] as i128).rem_euclid(*m as i128) as u64, uv[j] % m) } else { (0, 0) };
                ensure!(ri[k][j] == wi && ru[k][j] == wu, "coefficient {} of a polynomial built from {} integers", j, len);
            }
        }
    }
    Ok(())
}

pub fn run(ex: &Arc<Ex>) {
    let th = ex.thorough;
    let p62 = primes(8, &[62])[0];
    let mut v: Vec<C> = vec![
        (vec![17], 8),
        (vec![97, 17], 8),
        (vec![p62], 8),
        (vec![17, p62], 8),
        (primes(8, &[62, 62, 62]), 8),
        (primes(8, &[10, 20, 40, 62]), 8),
        (primes(8, &[62, 61, 31, 32, 33]), 8),
        (primes(16, &[62, 30]), 16),
        (primes(32, &[62, 62]), 32),
        (primes(64, &[62]), 64),
    ];
    v.push((primes(8, &[62; 9]), 8));
    v.push((primes(16, &[62; 4]), 16));
    v.push((primes(8, &[62, 50, 40, 30, 20, 15]), 8));
    v.push((primes(8, &[12, 18, 24, 30, 36, 42, 48, 54, 60]), 8));
    for bits in [9usize, 16, 31, 32, 33, 48, 59, 60, 61] {
        v.push((primes(8, &[bits]), 8));
        v.push((primes(8, &[62, bits]), 8));
    }
    if th {
        for bits in 9..=61 {
            v.push((primes(8, &[bits]), 8));
            v.push((primes(8, &[bits, 62]), 8));
        }
    }
    let id = |c: &C| format!("n{}-{:?}", c.1, c.0);
    ex.group("construct", &v, id, build);
    ex.group("operators", &v, id, |c, pr| ops(c, c.1 <= 8 || th && c.1 <= 16, pr));
    let h: Vec<C> = v.iter().filter(|c| c.1 == 8 && c.0.len() <= 3).cloned().collect();
    ex.group("histories", &h, id, |c, pr| history(c, if th { 5 } else { 4 }, pr));
    ex.group("inverse", &v, id, inverse);
    let mut l = vec![];
    for n in ex.pick(&[64usize, 128, 256, 512, 1024, 2048, 4096, 32768][..], &[64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536][..]) {
        if th || *n <= 4096 {
            l.push((primes(*n, &[62, 62, 62]), *n));
            l.push((primes(*n, &[20, 62, 31, 33, 50, 40]), *n));
        }
        l.push((primes(*n, &[61]), *n));
    }
    ex.group("large", &l, id, large);
}
