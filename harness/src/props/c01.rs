use crate::engine::{Ex, Probe};
use crate::refm::prime_below;
use crate::world::*;
use crate::{ensure, same};
use onion_pir::verif::*;
use std::sync::Arc;

#[derive(Clone, Debug)]
struct Case {
    cfg: Cfg,
    first: usize,
    dim: usize,
    nd: usize,
    env: Env,
    key: Key,
    db: usize,
    /// restrict the enumeration of indices to the boundary of the hypercube
    corners: bool,
    only: Option<usize>,
}

/// every shape whose packed query fits n coefficients
pub fn shapes(n: usize, max_db: usize) -> Vec<(usize, usize, usize)> {
    let mut v = vec![];
    for first in 1..=n {
        v.push((first, 2, 1));
        // inner dimensions of length one
        for nd in 2..=3 {
            if first + nd - 1 <= n {
                v.push((first, 1, nd));
            }
        }
        for dim in 2..=n {
            let mut nd = 2;
            while first + (nd - 1) * dim <= n {
                if first * dim.pow(nd as u32 - 1) <= max_db {
                    v.push((first, dim, nd));
                }
                nd += 1;
            }
        }
    }
    v
}

/// database alphabets
fn db_entry(kind: usize, i: usize, len: usize, n: usize, t: u64) -> Vec<u64> {
    match kind {
        // all entries distinct, every coefficient in use
        0 => (0..n as u64)
            .map(|j| (i as u64 * 31 + j * 7 + 1 + (i as u64 * j)) % t)
            .collect(),
        // saturated entries
        1 => vec![t - 1; n],
        // one entry in three non-zero, monomials with extreme coefficients
        2 => {
            let mut v = vec![0; n];
            if i % 3 != 1 {
                v[i % n] = if i % 2 == 0 { t - 1 } else { t / 2 + 1 };
            }
            v
        }
        // zero and saturated entries side by side, in both phases
        4 | 5 => vec![if (i + kind) % 2 == 0 { t - 1 } else { 0 }; n],
        // only the first or only the last entry is not zero
        6 => vec![if i == 0 { t - 1 } else { 0 }; n],
        7 => vec![if i + 1 == len { t - 1 } else { 0 }; n],
        // equal entries in every row but the last, and sparse high coefficients
        8 => vec![if i + 1 == len { t / 2 } else { 1 }; n],
        // neighbouring entries that differ in one coefficient only
        10 => {
            let mut v: Vec<u64> = (0..n as u64).map(|j| (j * j + 3 * j + 1) % t).collect();
            if i % 2 == 1 {
                let k = (i / 2) % n;
                v[k] = (v[k] + 1 + (i / 2 / n) as u64) % t;
            }
            v
        }
        // shifts of one monomial, neighbours shifted by every distance
        11 => {
            let mut v = vec![0; n];
            v[(i * (i + 1) / 2) % n] = t - 2;
            v
        }
        // permutations of the same coefficients
        12 => {
            let mut v: Vec<u64> = (0..n as u64).map(|j| (2 * j + 1) % t).collect();
            v.rotate_left(i % n);
            v.swap(i % n, (i / 2 + 1) % n);
            v
        }
        // every entry cancels the one before
        13 => (0..n as u64)
            .map(|j| {
                let x = (5 * j + 1 + (i / 2) as u64 * (j + 1)) % t;
                if i % 2 == 0 { x } else { (t - x) % t }
            })
            .collect(),
        // digits of the index, so that every wrong entry is distinguishable
        _ => {
            let mut v = vec![0; n];
            let mut k = i;
            for x in v.iter_mut() {
                *x = k as u64 % t;
                k /= t as usize;
            }
            v[n - 1] = (len as u64 - i as u64) % t;
            v
        }
    }
}

pub fn query(
    p: &Arc<BfvParameters>,
    sk: &SecretKey,
    first: usize,
    dim: usize,
    dims: &[usize],
    rows: usize,
) -> Vec<BfvCipherText> {
    let enc = PirClient::new(first, dim).encode(dims.to_vec(), rows, p, sk);
    let mut cts = vec![sk.encrypt(&pt(p, &enc, 0))];
    for g in p.q_ctxs[0].rns.garner.iter() {
        let mut q = Poly::try_from_vec_u64(&p.q_ctxs[0], &enc[first..]);
        q.change_representation(Representation::Ntt);
        q *= g;
        cts.push(sk.encrypt_poly(&q));
    }
    cts
}

pub fn digits(mut i: usize, first: usize, dim: usize, nd: usize) -> Vec<usize> {
    let mut v = vec![i % first];
    i /= first;
    for _ in 1..nd {
        v.push(i % dim);
        i /= dim;
    }
    v
}

fn case(c: &Case, pr: &mut Probe) -> Result<(), String> {
    let p = c.cfg.build();
    let rows = c.first * c.dim.pow(c.nd as u32 - 1);
    let entries: Vec<Vec<u64>> = (0..rows)
        .map(|i| db_entry(c.db, i, rows, c.cfg.n, c.cfg.t))
        .collect();
    let levels = c.cfg.moduli.len();
    let mut entries = entries;
    let db: Vec<Plaintext> = (0..rows)
        .map(|i| match (c.db, i % 4) {
            // what is stored is the polynomial, however the entry was made
            (9, 1) | (9, 3) => {
                let e = Plaintext::new(&p, &entries[i], i % levels, Encoding::SIMD);
                entries[i] = e.values.to_vec();
                e
            }
            (9, 2) => {
                let mut e = pt(&p, &entries[i], levels - 1);
                e.set_encoding(Encoding::None);
                e
            }
            _ => pt(&p, &entries[i], 0),
        })
        .collect();
    c.env.set(c.cfg.var);
    let sk = c.key.sk(&p);
    let ev = PirEvaluation::build(&sk, &p);
    let server = PirServer::new(c.first, c.dim, &db, &p);
    for i in 0..rows {
        let dims = digits(i, c.first, c.dim, c.nd);
        if c.only.map_or(false, |o| o != i) {
            continue;
        }
        if c.corners {
            let edge = |x: usize, l: usize| x == 0 || x + 1 == l;
            if !(edge(dims[0], c.first) && dims[1..].iter().all(|d| edge(*d, c.dim))) {
                continue;
            }
        }
        let q = query(&p, &sk, c.first, c.dim, &dims, rows);
        let res = server.decode(q, &ev, &p);
        pr.t();
        pr.state(&(c.cfg.id(), c.first, c.dim, c.nd, c.db, i));
        same!(res.len(), 1, "number of response ciphertexts for index {:?}", dims);
        let got = sk.decrypt(&res[0]).values.to_vec();
        ensure!(
            got == entries[i],
            "index {:?} (row {}) of a {} x {}^{} database: got {:?}, stored {:?}",
            dims,
            i,
            c.first,
            c.dim,
            c.nd - 1,
            got,
            entries[i]
        );
        pr.outcome(&(c.cfg.t, got));
    }
    Ok(())
}

pub fn run(ex: &Arc<Ex>) {
    let a8 = Cfg::bits(8, 97, &[62, 62, 62], 10);
    let b8 = Cfg::bits(8, 17, &[50, 62, 55, 60], 3);
    let c8 = Cfg::bits(8, 1153, &[62, 62, 62, 62], 16);
    // many small moduli, in ascending and descending order; a wide plaintext modulus
    let d8 = Cfg::bits(8, 113, &[30; 8], 1);
    let e8 = Cfg::bits(8, 193, &[28, 33, 38, 43, 48, 53, 58], 5);
    let f8 = Cfg::bits(8, 257, &[58, 51, 44, 37, 30], 13);
    let g8 = Cfg::bits(8, prime_below(40, 16, 1 << 40).unwrap(), &[62, 61, 62, 60, 62], 10);
    // two moduli carry databases without inner dimensions
    let h8 = Cfg::bits(8, 17, &[62, 62], 10);
    let a16 = Cfg::bits(16, 193, &[62, 62, 62], 10);
    let b16 = Cfg::bits(16, 65537, &[60, 58, 62, 61], 10);
    let d16 = Cfg::bits(16, 97, &[31, 40, 29, 50, 36, 45], 7);
    let a32 = Cfg::bits(32, 257, &[62, 62, 62], 10);
    let d32 = Cfg::bits(32, 12289, &[45, 40, 50, 35, 55], 4);
    let a64 = Cfg::bits(64, 1785857, &[62, 62, 62, 62], 10);
    let mut v = vec![];
    let mut push = |cfg: &Cfg, max_db, envs: &[Env], keys: &[Key], dbs: &[usize], corners| {
        for (first, dim, nd) in shapes(cfg.n, max_db) {
            if cfg.moduli.len() < 3 && nd > 1 {
                continue;
            }
            for env in envs {
                for key in keys {
                    for db in dbs {
                        v.push(Case {
                            cfg: cfg.clone(),
                            first,
                            dim,
                            nd,
                            env: *env,
                            key: *key,
                            db: *db,
                            corners,
                            only: None,
                        });
                    }
                }
            }
        }
    };
    use Env::*;
    push(&a8, 1 << 20, &[Zero, Max, Prng(3)], &[Key::Tern, Key::MaxAll], &[3, 0, 1, 2], false);
    push(&a8, 1 << 20, &[Prng(4)], &[Key::Mixed], &[4, 5, 6, 7, 8, 9], false);
    push(&a8, 1 << 20, &[Prng(14)], &[Key::Mixed], &[10, 11, 12, 13], false);
    push(&a16, 48, &[Prng(15)], &[Key::Mixed], &[11, 10], false);
    push(&b8, 1 << 20, &[Alt, Min], &[Key::Mixed], &[3, 0], false);
    push(&c8, 1 << 20, &[Max], &[Key::AltMax], &[3, 0], false);
    push(&d8, 1 << 20, &[Max], &[Key::Mixed], &[3, 4], false);
    push(&e8, 1 << 20, &[Prng(6)], &[Key::MaxAll], &[3, 5], false);
    push(&f8, 1 << 20, &[Min], &[Key::AltMax], &[3, 1], false);
    push(&g8, 1 << 20, &[Max], &[Key::MaxAll], &[0, 1], false);
    push(&h8, 1 << 20, &ENVS, &KEYS, &[3, 0], false);
    push(&a16, 64, &[Max], &[Key::Mixed], &[3], false);
    push(&d16, 128, &[Prng(8)], &[Key::AltMax], &[0], true);
    if ex.thorough {
        push(&a8, 1 << 20, &ENVS, &KEYS, &[0, 1, 2, 3], false);
        push(&c8, 1 << 20, &ENVS, &KEYS, &[0, 3], false);
        push(&d8, 1 << 20, &ENVS, &KEYS, &[0, 3, 4, 5], false);
        push(&e8, 1 << 20, &ENVS, &KEYS, &[0, 3], false);
        push(&f8, 1 << 20, &ENVS, &KEYS, &[0, 3], false);
        push(&g8, 1 << 20, &ENVS, &KEYS, &[0, 3], false);
        push(&a16, 1 << 20, &[Max, Prng(5)], &[Key::Tern], &[3, 0], false);
        push(&b16, 1 << 20, &[Min], &[Key::MaxAll], &[0], false);
        push(&d16, 300, &[Max], &[Key::Mixed], &[3], false);
        push(&a32, 200, &[Prng(9)], &[Key::Mixed], &[3], false);
        push(&d32, 1000, &[Max], &[Key::AltMax], &[3], true);
    } else {
        push(&b16, 300, &[Prng(5)], &[Key::MaxAll], &[0], true);
    }
    ex.group(
        "retrieval",
        &v,
        |c| {
            format!(
                "{}-f{}d{}n{}-{:?}-{:?}-db{}{}",
                c.cfg.id(),
                c.first,
                c.dim,
                c.nd,
                c.env,
                c.key,
                c.db,
                if c.corners { "-corners" } else { "" }
            )
        },
        case,
    );
    // degrees used in practice: one case per index
    let mut big = vec![];
    let a128 = Cfg::bits(128, 257, &[62, 62, 62], 10);
    let d256 = Cfg::bits(256, 7681, &[50, 45, 55, 40], 10);
    let a512 = Cfg::bits(512, 12289, &[62, 62, 62], 10);
    let a1024 = Cfg::bits(1024, 12289, &[60, 60, 60], 10);
    let a2048 = Cfg::bits(2048, 12289, &[60, 60, 60, 60], 10);
    let a4096 = Cfg::bits(4096, 65537, &[60, 60, 60, 60], 10);
    let mut plan: Vec<(&Cfg, (usize, usize, usize), usize)> = vec![
        (&a64, (4, 2, 3), 16),
        (&a64, (5, 3, 4), 6),
        (&a64, (16, 16, 2), 6),
        (&a64, (3, 2, 8), 4),
        (&a64, (64, 2, 1), 4),
        (&a64, (1, 21, 4), 2),
        (&a64, (2, 31, 3), 3),
        (&a128, (4, 4, 4), 4),
        (&a128, (100, 14, 2), 3),
        (&d256, (8, 4, 3), 3),
        (&d256, (129, 5, 3), 2),
        (&a512, (16, 8, 2), 2),
        (&a1024, (8, 4, 2), 2),
        (&a512, (260, 3, 2), 1),
    ];
    if ex.thorough {
        plan.extend([
            (&a64, (4, 4, 3), 64),
            (&a64, (5, 3, 4), 135),
            (&a64, (32, 32, 2), 64),
            (&a64, (2, 31, 3), 64),
            (&a128, (64, 32, 2), 16),
            (&d256, (128, 4, 5), 8),
            (&a512, (256, 4, 4), 4),
            (&a1024, (128, 8, 2), 8),
            (&a1024, (16, 4, 4), 8),
            (&a4096, (16, 4, 2), 2),
            (&a2048, (4, 3, 2), 2),
        ]);
    }
    for (cfg, (first, dim, nd), count) in plan {
        let rows = first * dim.pow(nd as u32 - 1);
        let k = count.min(rows);
        let mut idx: Vec<usize> = (0..k).map(|i| if k == 1 { 0 } else { i * (rows - 1) / (k - 1) }).collect();
        idx.dedup();
        for i in idx {
            big.push(Case {
                cfg: cfg.clone(),
                first,
                dim,
                nd,
                env: Env::Max,
                key: Key::Mixed,
                db: 3,
                corners: false,
                only: Some(i),
            });
        }
    }
    if ex.thorough {
        for (first, dim, nd) in shapes(32, 4000) {
            big.push(Case {
                cfg: a32.clone(),
                first,
                dim,
                nd,
                env: Env::Alt,
                key: Key::MaxAll,
                db: 0,
                corners: false,
                only: Some(first * dim.pow(nd as u32 - 1) * 2 / 3),
            });
        }
    }
    // the expensive ones first
    big.sort_by_key(|c| std::cmp::Reverse(c.cfg.n * c.cfg.moduli.len()));
    ex.group(
        "retrieval-large",
        &big,
        |c| format!("{}-f{}d{}n{}-i{}", c.cfg.id(), c.first, c.dim, c.nd, c.only.unwrap()),
        case,
    );
}
