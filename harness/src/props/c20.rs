use super::c01::digits;
use crate::engine::{guard, Ex, Probe};
use crate::world::*;
use crate::{ensure, same};
use onion_pir::verif::*;
use std::sync::Arc;

fn one_hot(dims: &[usize], first: usize, dim: usize) -> Vec<u64> {
    let mut v = vec![];
    for (d, x) in dims.iter().enumerate() {
        let len = if d == 0 { first } else { dim };
        v.extend((0..len).map(|i| (i == *x) as u64));
    }
    v
}

fn shape(c: &(usize, usize, usize), pr: &mut Probe) -> Result<(), String> {
    // the encoding is the same whatever parameters it is given
    shape_in(c, &Cfg::bits(8, 17, &[30, 30], 3), pr)?;
    if c.0 * c.1.pow(c.2 as u32 - 1) <= 300 {
        shape_in(c, &Cfg::bits(8, 17, &[40], 10), pr)?;
        shape_in(c, &Cfg::bits(128, 257, &[62, 40, 62, 50], 10), pr)?;
    }
    Ok(())
}

fn shape_in(c: &(usize, usize, usize), cfg: &Cfg, pr: &mut Probe) -> Result<(), String> {
    let (first, dim, nd) = *c;
    let p = cfg.build();
    let sk = Key::Tern.sk(&p);
    let cl = PirClient::new(first, dim);
    let rows = first * dim.pow(nd as u32 - 1);
    for i in 0..rows {
        let dims = digits(i, first, dim, nd);
        let got = guard(|| cl.encode(dims.clone(), rows, &p, &sk)).map_err(|e| format!("valid index {:?} refused: {}", dims, e))?;
        pr.t();
        pr.dstates += 1;
        same!(got, one_hot(&dims, first, dim), "query for {:?} in {} x {}^{}", dims, first, dim, nd - 1);
        pr.outcome(&got);
        // every other database size, with every index of small shapes
        if i < 3 || i + 1 == rows || rows <= 32 {
            for r in 0..=2 * rows + 3 {
                if r == rows {
                    continue;
                }
                let g = guard(|| cl.encode(dims.clone(), r, &p, &sk));
                pr.t();
                pr.dstates += 1;
                ensure!(g.is_err(), "database of {} entries accepted for {} x {}^{}", r, first, dim, nd - 1);
                pr.rejected += 1;
            }
            for r in [usize::MAX, rows * 3, rows * dim.max(2), rows * dim.max(2) * dim.max(2), rows * first.max(2), rows + (1 << 32), 1 << 63] {
                if r == rows {
                    continue;
                }
                ensure!(guard(|| cl.encode(dims.clone(), r, &p, &sk)).is_err(), "database of {} entries accepted for {} x {}^{}", r, first, dim, nd - 1);
                pr.t();
                pr.rejected += 1;
            }
        }
        // one coordinate (every one) out of range
        for d in 0..nd {
            let len = if d == 0 { first } else { dim };
            for x in [len, len + 1, 2 * len, first.max(dim).max(len) + 1, rows.max(len), usize::MAX, (1 << 32) + dims[d]] {
                if x < len {
                    continue;
                }
                let mut w = dims.clone();
                w[d] = x;
                let g = guard(|| cl.encode(w.clone(), rows, &p, &sk));
                pr.t();
                pr.dstates += 1;
                ensure!(g.is_err(), "index {:?} accepted in {} x {}^{}", w, first, dim, nd - 1);
                pr.rejected += 1;
            }
        }
    }
    // a different number of coordinates: refused unless it is the size of that hypercube
    for k in 1..=nd + 2 {
        let size = first * dim.pow(k as u32 - 1);
        let dims = vec![0; k];
        let g = guard(|| cl.encode(dims.clone(), rows, &p, &sk));
        pr.t();
        ensure!(g.is_ok() == (size == rows), "{} coordinates for a database of {} entries ({} x {}^..): accepted={}", k, rows, first, dim, g.is_ok());
        if let Ok(v) = g {
            same!(v, one_hot(&dims, first, dim), "query for {:?}", dims);
        } else {
            pr.rejected += 1;
        }
    }
    ensure!(guard(|| cl.encode(vec![], rows, &p, &sk)).is_err(), "empty index accepted");
    Ok(())
}

pub fn run(ex: &Arc<Ex>) {
    let mut v = vec![];
    let cap = ex.pick(1200, 5000);
    for first in 1..=ex.pick(17usize, 20) {
        for dim in 1..=ex.pick(9usize, 12) {
            for nd in 1..=ex.pick(10usize, 12) {
                if first * dim.pow(nd as u32 - 1) <= cap {
                    v.push((first, dim, nd));
                }
            }
        }
    }
    // long first dimensions, many dimensions
    for s in [(64, 4, 2), (128, 2, 2), (256, 4, 1), (100, 3, 2), (3, 100, 2), (1, 200, 2), (2, 2, 7), (1, 2, 8), (5, 1, 6), (1024, 1, 1), (4096, 2, 1), (300, 9, 3), (1, 2, 13), (7, 65, 2), (33, 33, 2), (2, 129, 2)] {
        v.push(s);
    }
    ex.group("encode", &v, |c| format!("{}x{}^{}", c.0, c.1, c.2 - 1), shape);
}
