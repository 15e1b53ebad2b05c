//! Sizes: what images of any dimensions need, judged with wide arithmetic.

use crate::checks::{refused, Verdict};
use crate::gen::*;
use crate::obs::Obs;
use crate::spec;
use crate::src::Src;
use texpresso::{num_blocks, Algorithm, Params};

/// A length of any magnitude: small, close to a power of two, to a quotient of the largest, or to the largest itself
fn length(s: &mut Src) -> usize {
    let near = |s: &mut Src, n: usize| n.wrapping_add(s.below(40)).wrapping_sub(20);
    match s.below(8) {
        0 => s.below(100),
        1 => s.hint(100_000),
        2 => {
            let n = 1usize << s.below(usize::BITS as usize);
            near(s, n)
        }
        3 => usize::MAX - s.below(20),
        4 => {
            let n = usize::MAX / s.range(1, 40);
            near(s, n)
        }
        5 => {
            // near the square roots of the limits
            let n = (usize::MAX as f64 * s.pick(&[0.125, 0.25, 0.5, 1.0, 2.0, 4.0])).sqrt() as usize;
            near(s, n)
        }
        _ => {
            let bits = s.below(usize::BITS as usize) as u32;
            (s.u64() as usize) >> bits
        }
    }
}

fn blocks(n: usize) -> u128 {
    (n as u128 + 3) / 4
}

pub fn c26(s: &mut Src, o: &mut Obs) -> Verdict {
    let f = s.pick(&FORMATS);
    let w = length(s);
    let mut h = length(s);
    let bs = spec::block_size(f) as u128;
    if s.one_in(3) && w > 0 {
        // a product close to what can be represented, or to a multiple of that
        let limit = ((usize::MAX as u128 + 1) * s.range(1, 3) as u128).checked_div(blocks(w) * bs).unwrap_or(1) * 4;
        h = (limit.min(usize::MAX as u128) as usize).wrapping_add(s.below(16)).wrapping_sub(8);
    }
    o.describe(|| format!("{:?} {}x{}", f, w, h));
    o.key(w as u64 ^ (h as u64).rotate_left(32) ^ (bs as u64) << 60, true);
    o.calls += 3;
    for n in [w, h] {
        let mut got = 0;
        if refused(|| got = num_blocks(n)) {
            return Err(format!("num_blocks({}) panics", n));
        }
        if got as u128 != blocks(n) {
            return Err(format!("num_blocks({}) is {} instead of {}", n, got, blocks(n)));
        }
    }
    if f.block_size() as u128 != bs {
        return Err(format!("{:?}.block_size() is {}", f, f.block_size()));
    }
    let exact = blocks(w) * blocks(h); // below 2^124
    let exact = exact.checked_mul(bs).filter(|&n| n <= usize::MAX as u128);
    let mut got = 0;
    let fails = refused(|| got = f.compressed_size(w, h));
    match exact {
        Some(n) => {
            o.label("representable");
            if fails {
                return Err(format!("{:?}.compressed_size({}, {}) panics instead of giving {}", f, w, h, n));
            }
            if got as u128 != n {
                return Err(format!("{:?}.compressed_size({}, {}) is {} instead of {}", f, w, h, got, n));
            }
        }
        None => {
            o.label("beyond the address space");
            if !fails {
                return Err(format!("{:?}.compressed_size({}, {}) is {}, though no number of that type is enough", f, w, h, got));
            }
        }
    }
    // no buffer is large enough for such an image
    if exact.is_none_or(|n| n > 1 << 16) {
        let px = [7u8; 256];
        let mut out = [0u8; 256];
        let p = Params { algorithm: Algorithm::RangeFit, ..Params::default() };
        o.calls += 1;
        o.label("compressions refused");
        if !refused(|| f.compress(&px, w, h, p, &mut out)) {
            return Err(format!("{:?}: compressing an image of {}x{} from and into 256 bytes is accepted", f, w, h));
        }
    }
    Ok(())
}
