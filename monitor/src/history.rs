//! C05: calls with a long past. A call is repeated after histories whose lengths pass powers of two, as
//! counters of calls would wrap there, and must give what it gave before.

use crate::checks::{self, Verdict};
use crate::gen::{self, *};
use crate::obs::Obs;
use crate::spec::{self, Block};
use crate::src::Src;
use texpresso::{Algorithm, Params};

/// A block that differs from another in little
fn related(s: &mut Src, b: &Block) -> Block {
    let mut b = *b;
    match s.below(4) {
        0 => {
            let a = s.pick(&[0, 255, 128, 7]);
            b.iter_mut().for_each(|p| p[3] = a);
        }
        1 => {
            let (c, v) = (s.below(4), s.u8());
            b.iter_mut().for_each(|p| p[c] = v);
        }
        2 => b[s.below(16)] = [s.u8(), s.u8(), s.u8(), s.u8()],
        _ => b.iter_mut().for_each(|p| p.swap(0, 2)),
    }
    b
}

pub fn history(seed: u64, seconds: f64, o: &mut Obs) -> Verdict {
    let start = std::time::Instant::now();
    let s = &mut Src::seeded(seed ^ 0x4157);
    let quick = Params { algorithm: Algorithm::RangeFit, ..Params::default() };
    let mut round = 0;
    while round < FORMATS.len() || start.elapsed().as_secs_f64() < seconds {
        let format = FORMATS[(round + seed as usize) % FORMATS.len()];
        round += 1;
        // what fills the time in between
        let filler = gen::block(s).0;
        let mut first = Case { format, rgba: gen::block(s).0, mask: 0xffff, params: gen::params(s) };
        match s.below(3) {
            0 => first.rgba = [first.rgba[0]; 16],
            1 => {
                let a = s.pick(&[0, 255]);
                first.rgba.iter_mut().for_each(|p| p[3] = a);
            }
            _ => {}
        }
        let second = Case { rgba: related(s, &first.rgba), ..first };
        let fill = Case { format, rgba: filler, mask: 0xffff, params: quick };
        o.calls += 3;
        let (a, f) = (checks::compress(&first), checks::compress(&fill));
        let b = checks::compress(&second);
        let (da, df, db) = (spec::decode_block(format, &a), spec::decode_block(format, &f), spec::decode_block(format, &b));
        for power in [8, 16] {
            for length in [(1usize << power) - 1, 1 << power, (1 << power) + 1] {
                let wrong = |what: &str, c: &Case| Err(format!("{} gives other results {} calls after another one, {}: {}", what, length, first.show(), c.show()));
                o.key((round * 8 + length) as u64 ^ seed << 40, true);
                o.calls += 2 * length as u64;
                o.label(if power == 8 { "256 calls apart" } else { "65536 calls apart" });
                o.describe(|| format!("{} calls of {} between {} and {}", length, fill.show(), first.show(), second.show()));
                if checks::compress(&first) != a {
                    return wrong("compressing", &first);
                }
                for _ in 1..length {
                    if checks::compress(&fill) != f {
                        return wrong("compressing", &fill);
                    }
                }
                if checks::compress(&second) != b {
                    return wrong("compressing", &second);
                }
                if format.decompress_block(&a) != da {
                    return wrong("decompressing what came of", &first);
                }
                for _ in 1..length {
                    if format.decompress_block(&f) != df {
                        return wrong("decompressing what came of", &fill);
                    }
                }
                if format.decompress_block(&b) != db {
                    return wrong("decompressing what came of", &second);
                }
            }
        }
    }
    Ok(())
}
