//! Exhaustive influence analysis: run an operation once per bit of every
//! answer the environment gives it, with only that bit flipped, and see what
//! each bit decides.

use crate::engine::Probe;
use rand::ctl::{self, Mode};

/// What one run of an operation exposes.
#[derive(Clone, Debug, PartialEq)]
pub struct Obs {
    /// uniform parts (one per sample), as raw residues
    pub masks: Vec<Vec<u64>>,
    /// small parts (one per sample), as centred integers
    pub errs: Vec<Vec<i64>>,
}

pub struct Map {
    pub base: Obs,
    /// environment bits deciding each mask
    pub mask_bits: Vec<usize>,
    /// observed variants of the masks (baseline and every flip that changes one)
    pub variants: Vec<Vec<u64>>,
    pub bits: usize,
}

/// Enumerate all environment bits of `f`. `per` = number of bits that have to
/// be counted positively and negatively in every small coefficient.
pub fn analyse(
    seed: u64,
    per: usize,
    min_mask_bits: usize,
    f: impl Fn() -> Result<Obs, String>,
    pr: &mut Probe,
) -> Result<Map, String> {
    ctl::set(Mode::Prng, seed);
    ctl::record();
    let base = f()?;
    let log = ctl::take_log();
    pr.t();
    let mut plus: Vec<Vec<(usize, i64)>> = base.errs.iter().map(|e| vec![(0, 0); e.len()]).collect();
    let mut minus = plus.clone();
    let mut mask_bits = vec![0usize; base.masks.len()];
    let mut variants: Vec<Vec<u64>> = base.masks.clone();
    let mut bits = 0;
    for (d, answer) in log.iter().enumerate() {
        for b in 0..8 * answer.len() {
            ctl::set(Mode::Tweak { draw: d as u64, bit: b }, seed);
            let o = f()?;
            pr.t();
            pr.dstates += 1;
            bits += 1;
            if o.masks.len() != base.masks.len() || o.errs.len() != base.errs.len() {
                return Err(format!("number of samples depends on the randomness (answer {} bit {})", d, b));
            }
            let was = (answer[b / 8] >> (b % 8)) & 1 == 1;
            let mut hit_err = vec![];
            for (r, (x, y)) in o.errs.iter().zip(&base.errs).enumerate() {
                for (j, (x, y)) in x.iter().zip(y).enumerate() {
                    if x != y {
                        hit_err.push((r, j, x - y));
                    }
                }
            }
            let hit_mask: Vec<usize> = (0..base.masks.len()).filter(|r| o.masks[*r] != base.masks[*r]).collect();
            if hit_err.len() > 1 {
                return Err(format!(
                    "one random bit (answer {} bit {}) decides several small coefficients: (sample,coefficient,change) {:?}",
                    d, b, hit_err
                ));
            }
            if hit_mask.len() > 1 {
                return Err(format!("one random bit (answer {} bit {}) decides the masks of several samples {:?}", d, b, hit_mask));
            }
            if !hit_err.is_empty() && !hit_mask.is_empty() {
                return Err(format!("one random bit (answer {} bit {}) decides mask {:?} and error {:?}", d, b, hit_mask, hit_err));
            }
            if let Some((r, j, delta)) = hit_err.first() {
                if delta.abs() != 1 {
                    return Err(format!("answer {} bit {} changes coefficient {} of sample {} by {}", d, b, j, r, delta));
                }
                let up = (*delta == 1) != was;
                let slot = if up { &mut plus[*r][*j] } else { &mut minus[*r][*j] };
                slot.0 += 1;
                slot.1 += was as i64;
            }
            if let Some(r) = hit_mask.first() {
                mask_bits[*r] += 1;
                variants.push(o.masks[*r].clone());
            }
        }
    }
    for (r, e) in base.errs.iter().enumerate() {
        for (j, x) in e.iter().enumerate() {
            if plus[r][j].0 != per || minus[r][j].0 != per {
                return Err(format!(
                    "coefficient {} of sample {} counts {} bits minus {} bits, expected {} of each",
                    j, r, plus[r][j].0, minus[r][j].0, per
                ));
            }
            if *x != plus[r][j].1 - minus[r][j].1 {
                return Err(format!("coefficient {} of sample {} is {}, its bits give {}", j, r, x, plus[r][j].1 - minus[r][j].1));
            }
        }
    }
    for (r, b) in mask_bits.iter().enumerate() {
        if *b < min_mask_bits {
            return Err(format!("mask of sample {} depends on {} random bits only", r, b));
        }
    }
    for i in 0..base.masks.len() {
        for j in 0..i {
            if base.masks[i] == base.masks[j] {
                return Err(format!("samples {} and {} share their mask", j, i));
            }
        }
    }
    pr.outcome(&base.errs);
    Ok(Map { base, mask_bits, variants, bits })
}
