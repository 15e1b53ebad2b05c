//! What calls cost, in CPU time of the calling thread, relative to an ordinary block.

use crate::checks::Verdict;
use crate::gen::{self, *};
use crate::obs::Obs;
use crate::spec;
use crate::src::Src;
use std::hint::black_box;
use texpresso::{Algorithm, Format, Params};

/// How much more than an ordinary block a block may cost, on its own or within an image: fixed, and far above what noise and caches explain
const LIMIT: f64 = 10.0;

#[repr(C)]
struct Timespec {
    s: i64,
    ns: i64,
}

extern "C" {
    fn clock_gettime(clock: i32, t: *mut Timespec) -> i32;
}

/// CPU time of this thread in nanoseconds
pub fn now() -> f64 {
    // CLOCK_THREAD_CPUTIME_ID
    clock(3)
}

/// CPU time of all threads there are or were
pub fn everyone() -> f64 {
    // CLOCK_PROCESS_CPUTIME_ID
    clock(2)
}

fn clock(which: i32) -> f64 {
    let mut t = Timespec { s: 0, ns: 0 };
    unsafe { clock_gettime(which, &mut t) };
    t.s as f64 * 1e9 + t.ns as f64
}

fn time(reps: usize, f: &mut dyn FnMut()) -> f64 {
    let start = now();
    for _ in 0..reps {
        f();
    }
    (now() - start) / reps as f64
}

fn median(v: &mut [f64]) -> f64 {
    v.sort_by(|a, b| a.total_cmp(b));
    v[v.len() / 2]
}

/// The least time seen for the candidate and the median for the ordinary one, measured in turn
fn contest(rounds: usize, a: (&mut dyn FnMut(), usize), b: (&mut dyn FnMut(), usize)) -> (f64, f64) {
    let mut least = f64::INFINITY;
    let mut others = Vec::new();
    for _ in 0..rounds {
        least = least.min(time(a.1, a.0));
        others.push(time(b.1, b.0));
    }
    (least, median(&mut others))
}

/// An ordinary block: sixteen different opaque colours
pub fn ordinary() -> Block {
    let mut b = [[0u8; 4]; 16];
    for (i, p) in b.iter_mut().enumerate() {
        let i = i as u8;
        *p = [i.wrapping_mul(37).wrapping_add(11), i.wrapping_mul(91).wrapping_add(60), i.wrapping_mul(53) ^ 0x5a, 255 - 13 * i];
        p[3] |= 0x80;
    }
    b
}

type Block = spec::Block;

fn reps(algorithm: Option<Algorithm>) -> usize {
    match algorithm {
        None | Some(Algorithm::RangeFit) => 48,
        Some(Algorithm::ClusterFit) => 6,
        Some(Algorithm::IterativeClusterFit) => 3,
    }
}

fn judge(o: &mut Obs, label: &'static str, cost: (f64, f64), per: f64) -> Option<f64> {
    let ratio = cost.0 / cost.1 / per;
    o.max(label, (ratio * 100.0) as u64);
    (ratio > LIMIT).then_some(ratio)
}

fn name(a: Option<Algorithm>) -> &'static str {
    match a {
        None => "max % decompressing",
        Some(Algorithm::RangeFit) => "max % range",
        Some(Algorithm::ClusterFit) => "max % cluster",
        Some(Algorithm::IterativeClusterFit) => "max % iterative",
    }
}

/// `a` costs no more than `per` times LIMIT of what `b` costs
fn compare(o: &mut Obs, label: &'static str, per: f64, reps: (usize, usize), a: &mut dyn FnMut(), b: &mut dyn FnMut(), what: impl FnOnce() -> String) -> Verdict {
    let quick = contest(2, (a, reps.0), (b, reps.1));
    if quick.0 / quick.1 / per < LIMIT * 0.5 {
        judge(o, label, quick, per);
        return Ok(());
    }
    // closely: a violation only if the least of many is still too much
    let mut cost = contest(25, (a, reps.0), (b, reps.1));
    if cost.0 / cost.1 / per > LIMIT {
        cost = contest(75, (a, reps.0), (b, reps.1));
    }
    match judge(o, label, cost, per) {
        None => Ok(()),
        Some(r) => Err(format!("costs {:.1} times what ordinary blocks cost ({:.0} ns to {:.0} ns): {}", r, cost.0, cost.1 * per, what())),
    }
}

/// Changes the data to something with long runs, repetitions or none at all
fn pattern(s: &mut Src, data: &mut [u8], unit: usize) -> &'static str {
    let n = data.len();
    let k = s.below(8);
    let value = s.pick(&[0u8, 255, 128, 3]);
    match k {
        0 => data.fill(value),
        // all the same up to the last byte, or up to somewhere
        1 => data[..n - 1].fill(value),
        2 => {
            let at = s.below(n);
            data[..at].fill(value);
        }
        3 => {
            let at = s.below(n);
            data[at..].fill(value);
        }
        // one unit, or a few, over and over
        4 => {
            let period = unit * (1 + s.below(5));
            for i in period..n {
                data[i] = data[i - period];
            }
        }
        // nothing ever repeats
        5 => {
            let mut x = s.u64() | 1;
            for b in data.iter_mut() {
                x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                *b = (x >> 56) as u8;
            }
        }
        // every fourth byte, like the alpha channel
        6 => data.iter_mut().skip(3).step_by(4).for_each(|b| *b = value),
        _ => {}
    }
    ["uniform images", "images uniform up to the last byte", "images beginning uniformly", "images ending uniformly", "images of repetitions", "images of noise", "images of uniform alpha", "images of a gradient"][k]
}

pub fn c25(s: &mut Src, o: &mut Obs) -> Verdict {
    let format = s.pick(&FORMATS);
    let params = gen::params(s);
    let usual = Params { weights: [1.0; 3], weigh_colour_by_alpha: false, ..params };
    let bs = spec::block_size(format);
    let colour = !matches!(format, Format::Bc4 | Format::Bc5);
    match s.below(16) {
        0..=9 => {
            let c = Case { format, rgba: gen::block(s).0, mask: gen::mask(s), params };
            o.describe(|| c.show());
            o.key(c.key(), true);
            o.calls += 1;
            let alg = if colour { Some(params.algorithm) } else { Some(Algorithm::RangeFit) };
            let (mut x, mut y) = ([0u8; 16], [0u8; 16]);
            let usual_block = ordinary();
            compare(
                o, name(alg), 1.0, (reps(alg), reps(alg)),
                &mut || black_box(c.format).compress_block_masked(black_box(c.rgba), c.mask, c.params, black_box(&mut x[..bs])),
                &mut || black_box(c.format).compress_block_masked(black_box(usual_block), 0xffff, usual, black_box(&mut y[..bs])),
                || c.show(),
            )
        }
        10 | 11 => {
            let mut data = [0u8; 16];
            for b in data.iter_mut() {
                *b = s.u8();
            }
            if s.one_in(2) {
                let v = s.u8();
                for i in 0..16 {
                    if s.one_in(2) {
                        data[i] = v;
                    }
                }
            }
            o.key(crate::src::fnv(7, &data), true);
            o.calls += 1;
            let usual = [0x91u8, 0x22, 0x73, 0x44, 0x15, 0xe6, 0x97, 0x28, 0xd1, 0xa2, 0x33, 0x44, 0x55, 0xc6, 0x77, 0x88];
            compare(
                o, name(None), 1.0, (reps(None), reps(None)),
                &mut || drop(black_box(black_box(format).decompress_block(black_box(&data[..bs])))),
                &mut || drop(black_box(black_box(format).decompress_block(black_box(&usual[..bs])))),
                || format!("decompressing {:?} {}", format, hex(&data[..bs])),
            )
        }
        k => {
            // images of few and many blocks, of all shapes, against as many blocks on their own
            let blocks = 1usize << if s.one_in(100) { s.range(15, 18) } else { s.below(if k % 2 == 1 { 15 } else { 11 }) };
            let (mut w, mut h) = match s.below(4) {
                0 => (4 * blocks, 4),
                1 => (4, 4 * blocks),
                _ => {
                    let side = 1usize << s.below(blocks.ilog2() as usize + 1);
                    (4 * side, 4 * (blocks / side))
                }
            };
            if s.one_in(2) {
                w -= s.below(4);
                h -= s.below(4);
            }
            o.key((w as u64) << 32 | (h as u64) << 8 | format as u64, true);
            o.calls += 1;
            let per = blocks as f64;
            let block = ordinary();
            let surplus = s.pick(&[0, 0, 5, 4096]);
            if k == 15 || k == 14 {
                let mut data: Vec<u8> = (0..blocks * bs + surplus).map(|i| (i.wrapping_mul(167) >> 3) as u8).collect();
                o.label(pattern(s, &mut data, bs));
                let mut out = vec![1u8; 4 * w * h + surplus];
                let one = data[..bs].to_vec();
                // an image's pixels are also copied
                compare(
                    o, "max % images decompressed", per, ((96 / blocks).max(1), blocks.clamp(96, 2000)),
                    &mut || black_box(format).decompress(black_box(&data), w, h, black_box(&mut out)),
                    &mut || drop(black_box(black_box(format).decompress_block(black_box(&one)))),
                    || format!("decompressing {:?} {}x{}", format, w, h),
                )
            } else {
                let algorithm = if blocks > 64 { Algorithm::RangeFit } else { usual.algorithm };
                let usual = Params { algorithm, ..usual };
                let params = Params { algorithm, ..if s.one_in(2) { params } else { usual } };
                let mut px: Vec<u8> = (0..w * h + surplus).flat_map(|i| block[(i + i / w) % 16]).collect();
                o.label(pattern(s, &mut px, 4));
                let (mut out, mut y) = (vec![0u8; blocks * bs + surplus], [0u8; 16]);
                compare(
                    o, "max % images compressed", per, ((reps(Some(params.algorithm)) / blocks).max(1), blocks.clamp(reps(Some(params.algorithm)), 2000)),
                    &mut || black_box(format).compress(black_box(&px), w, h, params, black_box(&mut out)),
                    &mut || black_box(format).compress_block_masked(black_box(block), 0xffff, usual, black_box(&mut y[..bs])),
                    || format!("compressing {:?} {}x{} {:?}", format, w, h, (params.weights, params.weigh_colour_by_alpha)),
                )
            }
        }
    }
}
