//! Exhaustive or systematic workloads that need no random choices, or few.

use crate::checks::{self, Verdict};
use crate::gen::{self, *};
use crate::obs::Obs;
use crate::spec;
use crate::src::{fnv, Src};
use std::sync::atomic::{AtomicBool, Ordering};
use std::time::Instant;
use texpresso::{Algorithm, Format, Params};

pub struct Control<'a> {
    pub thread: usize,
    pub threads: usize,
    pub deadline: Instant,
    pub stop: &'a AtomicBool,
    pub seed: u64,
    /// the sweep ran out of time
    pub cut: bool,
    /// progress signal for the watchdog
    pub tick: &'a dyn Fn() -> u64,
}

impl Control<'_> {
    fn over(&mut self) -> bool {
        (self.tick)();
        if self.stop.load(Ordering::Relaxed) || Instant::now() > self.deadline {
            self.cut = true;
        }
        self.cut
    }
    fn mine(&self, i: usize) -> bool {
        i % self.threads == self.thread
    }
    fn src(&self, i: usize) -> Src<'static> {
        Src::seeded(fnv(self.seed ^ 0x5eed, &(i as u64).to_le_bytes()))
    }
}

pub fn sweep(id: &str, c: &mut Control, o: &mut Obs) -> Verdict {
    match id {
        "C01" => colour_endpoints(c, o),
        "C02" => channel_endpoints(c, o),
        "C03" => small_images(c, o, true),
        "C04" => small_images(c, o, false),
        "C06" => all_masks(c, o),
        "C08" => alpha_patterns(c, o),
        "C09" => bc2_alphas(c, o),
        "C10" => channel_ranges(c, o, false),
        "C11" => all_colours(c, o),
        "C12" => grey_pairs(c, o),
        "C24" => ordered_endpoints(c, o),
        "C30" => channel_ranges(c, o, true),
        _ => {
            c.cut = true;
            Ok(())
        }
    }
}

/// All 2^32 pairs of endpoints (in a scattered order, as many as time allows), with index words
/// that use all entries everywhere
fn colour_endpoints(c: &mut Control, o: &mut Obs) -> Verdict {
    let start = c.seed as usize;
    for k in 0..65536usize {
        if !c.mine(k) {
            continue;
        }
        if c.over() {
            break;
        }
        let a = ((k + start).wrapping_mul(40503) & 0xffff) as u16;
        let mut r = fnv(c.seed, &a.to_le_bytes()) | 1;
        for b in 0..=65535u16 {
            r = r.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            let word = (r >> 30) as u32;
            // mostly BC1, where the order of the endpoints matters
            let wide = (r >> 62) == 0;
            let mut block = [0u8; 16];
            block[8..10].copy_from_slice(&a.to_le_bytes());
            block[10..12].copy_from_slice(&b.to_le_bytes());
            block[12..].copy_from_slice(&word.to_le_bytes());
            let got = if wide {
                (if b & 1 == 0 { Format::Bc2 } else { Format::Bc3 }).decompress_block(&block)
            } else {
                Format::Bc1.decompress_block(&block[8..])
            };
            let (pal, _) = spec::colour_palette(&block[8..], !wide);
            for i in 0..16 {
                let want = pal[(word >> (2 * i) & 3) as usize];
                if got[i][..3] != want[..3] || (!wide && got[i][3] != want[3]) {
                    return Err(format!(
                        "{} colour block {} pixel {} decodes to {:?}, the format says {:?}",
                        if wide { "BC2/BC3" } else { "BC1" }, hex(&block[8..]), i, got[i], want
                    ));
                }
            }
        }
        o.swept += 65536;
        o.cases += 65536;
        o.nontrivial += 65536;
        o.calls += 65536;
        o.add("endpoint pairs", 65536);
    }
    Ok(())
}

/// Every pair of endpoints, every code at every position, in every place a channel block occurs
fn channel_endpoints(c: &mut Control, o: &mut Obs) -> Verdict {
    for e in 0..65536usize {
        if !c.mine(e) {
            continue;
        }
        if c.over() {
            break;
        }
        let (e0, e1) = ((e >> 8) as u8, e as u8);
        let pal = spec::channel_palette(e0, e1);
        let mut s = c.src(e);
        let noise = s.u64().to_le_bytes();
        for shift in 0..8usize {
            let mut bits = 0u64;
            for i in 0..16usize {
                bits |= (((i + shift) % 8) as u64) << (3 * i);
            }
            let mut block = [0u8; 8];
            block[0] = e0;
            block[1] = e1;
            block[2..].copy_from_slice(&bits.to_le_bytes()[..6]);
            let mut lo = [0u8; 16];
            lo[..8].copy_from_slice(&block);
            lo[8..].copy_from_slice(&noise);
            let mut hi = [0u8; 16];
            hi[8..].copy_from_slice(&block);
            hi[..8].copy_from_slice(&noise);
            let bc3 = Format::Bc3.decompress_block(&lo);
            let bc4 = Format::Bc4.decompress_block(&block);
            let bc5r = Format::Bc5.decompress_block(&lo);
            let bc5g = Format::Bc5.decompress_block(&hi);
            for i in 0..16 {
                let v = pal[(i + shift) % 8];
                let ok = bc3[i][3] == v
                    && bc4[i] == [v, v, v, 255]
                    && bc5r[i][0] == v
                    && bc5g[i][1] == v
                    && bc5r[i][2..] == [0, 255]
                    && bc5g[i][2..] == [0, 255];
                if !ok {
                    return Err(format!(
                        "channel block {} pixel {}: expected {}, got bc3 {:?} bc4 {:?} bc5 red {:?} bc5 green {:?}",
                        hex(&block), i, v, bc3[i], bc4[i], bc5r[i], bc5g[i]
                    ));
                }
            }
            o.calls += 4;
        }
        // BC2: every nibble at every position
        let mut block = [0u8; 16];
        for i in 0..8 {
            block[i] = fnv(e as u64, &[i as u8]) as u8;
        }
        block[e % 8] = (e >> 3) as u8;
        block[8..].copy_from_slice(&noise);
        let got = Format::Bc2.decompress_block(&block);
        let want = spec::decode_bc2_alpha(&block[..8]);
        for i in 0..16 {
            if got[i][3] != want[i] {
                return Err(format!("BC2 alpha {} pixel {} decodes to {}, the format says {}", hex(&block[..8]), i, got[i][3], want[i]));
            }
        }
        o.calls += 1;
        o.swept += 33;
        o.cases += 33;
        o.nontrivial += 33;
        o.add("endpoint pairs", 1);
    }
    Ok(())
}

/// Large, long and thin images, including ones whose counts exceed 8 and 16 bits
fn extremes() -> Vec<(usize, usize)> {
    vec![
        (1, 70_001),
        (70_001, 1),
        (5, 33_333),
        (33_333, 5),
        (262_150, 2),
        (2, 262_150),
        (1027, 1026),
        (4096, 130),
        (130, 4096),
        (2050, 517),
        (640, 480),
        (65_536, 4),
        (4, 65_537),
        (1_048_580, 1),
        (3, 1_048_577),
    ]
}

fn small_images(c: &mut Control, o: &mut Obs, decode: bool) -> Verdict {
    let mut job = 0;
    let n = if decode { 36 } else { 24 };
    let mut dims: Vec<(usize, usize)> = extremes();
    for sum in 0..2 * n + 1 {
        for w in 0..=sum {
            if w <= n && sum - w <= n {
                dims.push((w, sum - w));
            }
        }
    }
    for (k, (w, h)) in dims.into_iter().enumerate() {
        let big = w * h > 10_000;
        for f in FORMATS {
            job += 1;
            if !c.mine(job) {
                continue;
            }
            if c.over() {
                return Ok(());
            }
            let mut s = c.src(job);
            if decode {
                checks::c03_case(&mut s, o, f, w, h)?;
            } else {
                // the expensive fits get the small images
                if big && !(f == Format::Bc4 || (f == Format::Bc1 && k % 3 == 0)) {
                    continue;
                }
                let algorithm = if big { Algorithm::RangeFit } else { ALGS[(w + h + k) % 3] };
                let algorithm = if w * h > 200 && algorithm == Algorithm::IterativeClusterFit { Algorithm::ClusterFit } else { algorithm };
                let p = Params { algorithm, weights: gen::weights(&mut s), weigh_colour_by_alpha: s.one_in(3) };
                checks::c04_case(&mut s, o, f, p, w, h)?;
            }
        }
    }
    Ok(())
}

/// Every mask, with each format and algorithm
fn all_masks(c: &mut Control, o: &mut Obs) -> Verdict {
    for m in 0..65536usize {
        if !c.mine(m) {
            continue;
        }
        if c.over() {
            return Ok(());
        }
        let mut s = c.src(m);
        let (rgba, _) = gen::block(&mut s);
        for f in FORMATS {
            let algorithm = match f {
                Format::Bc4 | Format::Bc5 => Algorithm::RangeFit,
                _ => s.pick(&[Algorithm::RangeFit, Algorithm::RangeFit, Algorithm::ClusterFit, Algorithm::ClusterFit, Algorithm::IterativeClusterFit]),
            };
            let case = Case { format: f, rgba, mask: m as u32, params: Params { algorithm, weights: gen::weights(&mut s), weigh_colour_by_alpha: s.one_in(2) } };
            checks::c06_case(&mut s, o, case)?;
        }
        o.add("masks", 1);
    }
    Ok(())
}

/// Every arrangement of transparent and opaque pixels, for the three algorithms
fn alpha_patterns(c: &mut Control, o: &mut Obs) -> Verdict {
    for m in 0..65536usize {
        if !c.mine(m) {
            continue;
        }
        if c.over() {
            return Ok(());
        }
        let mut s = c.src(m);
        let (mut rgba, _) = gen::block(&mut s);
        for i in 0..16 {
            rgba[i][3] = if m >> i & 1 == 1 { s.pick(&[128, 128, 129, 200, 255]) } else { s.pick(&[0, 1, 64, 126, 127, 127]) };
        }
        for algorithm in ALGS {
            let case = Case { format: Format::Bc1, rgba, mask: 0xffff, params: Params { algorithm, weights: gen::weights(&mut s), weigh_colour_by_alpha: s.one_in(2) } };
            let out = checks::compress(&case);
            let got = spec::decode_colour(&out[..8], true);
            for i in 0..16 {
                let a = rgba[i][3];
                if (a < 128 && got[i] != [0; 4]) || (a >= 128 && got[i][3] != 255) {
                    return Err(format!("pixel {} with alpha {} decodes to {:?} from block {}: {}", i, a, got[i], hex(&out[..8]), case.show()));
                }
            }
            o.calls += 1;
            o.swept += 1;
            o.cases += 1;
            o.nontrivial += 1;
        }
    }
    Ok(())
}

/// Every alpha value at every position
fn bc2_alphas(c: &mut Control, o: &mut Obs) -> Verdict {
    for k in 0..4096 * 8usize {
        if !c.mine(k) {
            continue;
        }
        if c.over() {
            return Ok(());
        }
        let (a, at) = ((k % 256) as u8, k / 256 % 16);
        let mut s = c.src(k);
        let (mut rgba, _) = gen::block(&mut s);
        rgba[at][3] = a;
        let mask = if k < 4096 { 0xffff } else { u32::from(s.u16()) | 1 << at };
        let case = Case { format: Format::Bc2, rgba, mask, params: Params { algorithm: Algorithm::RangeFit, ..Params::default() } };
        let out = checks::compress(&case);
        let got = spec::decode_bc2_alpha(&out[..8]);
        for i in 0..16 {
            let v = u32::from(rgba[i][3]);
            let want = if mask >> i & 1 == 0 { 0 } else { (2 * v + 17) / 34 * 17 };
            if u32::from(got[i]) != want {
                return Err(format!("pixel {} with alpha {} decodes to alpha {}, not {}: {}", i, v, got[i], want, case.show()));
            }
        }
        o.calls += 1;
        o.swept += 1;
        o.cases += 1;
        o.nontrivial += 1;
    }
    Ok(())
}

/// Every pair of smallest and largest value, with a spread of values between
fn channel_ranges(c: &mut Control, o: &mut Obs, extremes: bool) -> Verdict {
    for k in 0..65536usize {
        if !c.mine(k) {
            continue;
        }
        if c.over() {
            return Ok(());
        }
        let (lo, hi) = ((k >> 8) as u8, k as u8);
        if lo > hi {
            continue;
        }
        let mut s = c.src(k);
        for variant in 0..6 {
            let mut rgba = [[0u8, 0, 0, 255]; 16];
            for (i, p) in rgba.iter_mut().enumerate() {
                let inner = lo + s.below(usize::from(hi - lo) + 1) as u8;
                let v = match i {
                    0 => lo,
                    1 => hi,
                    _ => match variant {
                        0 => lo + ((usize::from(hi - lo) * i) / 15) as u8,
                        1 => inner,
                        2 => s.pick(&[lo, hi]),
                        3 => s.pick(&[0, 255, lo, hi]),
                        4 => s.pick(&[0, inner]),
                        _ => s.pick(&[255, inner]),
                    },
                };
                *p = [v, v, s.u8(), v];
            }
            let mut at: Vec<usize> = (0..16).collect();
            s.shuffle(&mut at);
            let mut shuffled = rgba;
            for i in 0..16 {
                shuffled[at[i]] = rgba[i];
            }
            if extremes {
                crate::same::ranges(shuffled, o, variant + k)?;
                continue;
            }
            let (f, channel, half) = [(Format::Bc3, 3, 0), (Format::Bc4, 0, 0), (Format::Bc5, 1, 8)][(variant + k) % 3];
            let case = Case { format: f, rgba: shuffled, mask: 0xffff, params: Params { algorithm: Algorithm::RangeFit, ..Params::default() } };
            checks::c10_case(o, &case, channel, half)?;
        }
    }
    Ok(())
}

/// All 2^24 colours
fn all_colours(c: &mut Control, o: &mut Obs) -> Verdict {
    let table = checks::single();
    for k in 0..65536usize {
        if !c.mine(k) {
            continue;
        }
        if c.over() {
            return Ok(());
        }
        let k = k.wrapping_mul(40503) & 0xffff;
        for b in 0..256usize {
            let colour = [(k >> 8) as u8, k as u8, b as u8];
            let mut rgba = [[colour[0], colour[1], colour[2], 255]; 16];
            let variant = (k + b + c.seed as usize) % 3;
            let f = [Format::Bc1, Format::Bc1, if b & 4 == 0 { Format::Bc2 } else { Format::Bc3 }][variant];
            if variant == 1 {
                rgba[b % 16] = [9, 99, 199, 3];
            }
            let case = Case { format: f, rgba, mask: 0xffff, params: Params { algorithm: ALGS[b % 3], weights: [1.0, 0.5, 0.25], weigh_colour_by_alpha: b & 1 == 1 } };
            let out = checks::compress(&case);
            let bc1 = f == Format::Bc1;
            let off = if bc1 { 0 } else { 8 };
            let got = spec::decode_colour(&out[off..off + 8], bc1);
            let modes: &[usize] = [&[0usize, 1][..], &[0], &[1]][variant];
            let want = table.optimum(colour, modes);
            let i = if b % 16 == 0 { 1 } else { 0 };
            let p = got[i];
            let err: u32 = (0..3).map(|k| (i32::from(p[k]) - i32::from(colour[k])).pow(2) as u32).sum();
            let same = (0..16).all(|j| got[j] == p || (variant == 1 && j == b % 16));
            if err > want || !same {
                return Err(format!("colour {:?} decodes to {:?} with squared error {}, {} is possible: {}", colour, got, err, want, case.show()));
            }
        }
        o.calls += 256;
        o.swept += 256;
        o.cases += 256;
        o.nontrivial += 256;
        o.add("colours", 256);
    }
    Ok(())
}

/// The colour halves for all colours, alone or beside a second one
fn ordered_endpoints(c: &mut Control, o: &mut Obs) -> Verdict {
    for k in 0..65536usize {
        if !c.mine(k) {
            continue;
        }
        if c.over() {
            return Ok(());
        }
        let k = k.wrapping_mul(40503) & 0xffff;
        for b in 0..256usize {
            let colour = [(k >> 8) as u8, k as u8, b as u8, 255];
            let r = fnv(c.seed ^ b as u64, &(k as u64).to_le_bytes());
            let mut rgba = [colour; 16];
            if r & 0x70 == 0 {
                // close enough for the endpoints to meet, or not
                let d = (r >> 8) as u8 & 15;
                rgba[(r & 15) as usize] = [colour[0] ^ (d & 3), colour[1] ^ (d >> 2), colour[2] ^ (r >> 16) as u8, 255];
            }
            let format = if r & 0x80 == 0 { Format::Bc2 } else { Format::Bc3 };
            let params = Params { algorithm: ALGS[b % 3], weights: [1.0, 0.5, 0.25], weigh_colour_by_alpha: b & 1 == 1 };
            let case = Case { format, rgba, mask: 0xffff, params };
            let out = checks::compress(&case);
            let (strict, lax) = (spec::decode_colour(&out[8..16], true), spec::decode_colour(&out[8..16], false));
            if strict != lax {
                return Err(format!("the colour half {} relies on the endpoint order being ignored: {}", hex(&out[8..16]), case.show()));
            }
        }
        o.calls += 256;
        o.swept += 256;
        o.cases += 256;
        o.nontrivial += 256;
        o.add("colours", 256);
    }
    Ok(())
}

/// All pairs of values along a few lines through the colour cube
fn grey_pairs(c: &mut Control, o: &mut Obs) -> Verdict {
    for k in 0..65536usize {
        if !c.mine(k) {
            continue;
        }
        if c.over() {
            return Ok(());
        }
        let (x, y) = ((k >> 8) as u8, k as u8);
        if x == y {
            continue;
        }
        let mut s = c.src(k);
        let base = s.u8();
        for line in 0..6 {
            let put = |v: u8| match line {
                0 => [v, v, v],
                1 => [v, base, base],
                2 => [base, v, base],
                3 => [base, base, v],
                4 => [v, 255 - v, base],
                _ => [v, base, 255 - v],
            };
            let f = COLOUR_FORMATS[(line + k) % 3];
            let algorithm = ALGS[(line + k / 3) % 3];
            let pattern = s.u16();
            let mut rgba = [[0u8, 0, 0, 255]; 16];
            for i in 0..16 {
                rgba[i][..3].copy_from_slice(&put(if pattern >> i & 1 == 1 { x } else { y }));
            }
            let case = Case { format: f, rgba, mask: 0xffff, params: Params { algorithm, weights: [1.0; 3], weigh_colour_by_alpha: false } };
            let out = checks::compress(&case);
            let bc1 = f == Format::Bc1;
            let got = spec::decode_colour(&out[if bc1 { 0 } else { 8 }..], bc1);
            for i in 0..16 {
                for ch in 0..3 {
                    if (i32::from(got[i][ch]) - i32::from(rgba[i][ch])).abs() > 16 || (bc1 && got[i][3] != 255) {
                        return Err(format!("pixel {}: colour {:?} decodes to {:?}: {}", i, &rgba[i][..3], got[i], case.show()));
                    }
                }
            }
            o.calls += 1;
            o.swept += 1;
            o.cases += 1;
            o.nontrivial += 1;
        }
    }
    Ok(())
}
