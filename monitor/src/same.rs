//! C29, C30 and C33: what a block's encoding keeps of its pixels' equality, order and extremes, and over generations.

use crate::checks::{compress, Verdict};
use crate::gen::{self, *};
use crate::obs::Obs;
use crate::spec::{self, Block};
use crate::src::Src;
use texpresso::{Format, Params};

/// A block in which several pixels are alike, in colour, in alpha or in both
fn repetitive(s: &mut Src) -> Block {
    let mut b = gen::block(s).0;
    let distinct = s.range(1, 16);
    let source = b;
    let whole = s.one_in(2);
    for p in &mut b {
        let from = source[s.below(distinct)];
        *p = if whole { from } else { [from[0], from[1], from[2], p[3]] };
        if s.one_in(8) {
            p[3] = s.pick(&[0, 127, 128, 255]);
        }
    }
    b
}

fn permuted(c: &Case, to: &[usize; 16]) -> Case {
    let mut rgba = c.rgba;
    let mut mask = c.mask & !0xffff;
    for i in 0..16 {
        rgba[to[i]] = c.rgba[i];
        mask |= (c.mask >> i & 1) << to[i];
    }
    Case { rgba, mask, ..*c }
}

/// The bytes of a block, its channel halves apart
fn halves(f: Format) -> &'static [(usize, usize)] {
    match f {
        Format::Bc3 => &[(0, 3)],
        Format::Bc4 => &[(0, 0)],
        Format::Bc5 => &[(0, 0), (8, 1)],
        _ => &[],
    }
}

pub fn c29(s: &mut Src, o: &mut Obs) -> Verdict {
    let format = s.pick(&FORMATS);
    let c = Case { format, rgba: repetitive(s), mask: gen::mask(s), params: gen::params(s) };
    o.describe(|| c.show());
    o.key(c.key(), (c.mask & 0xffff).count_ones() > 1);
    o.calls += 1;
    let out = compress(&c);
    let got = spec::decode_block(format, &out);
    let on = |i: usize| c.mask >> i & 1 == 1;
    let opaque = |i: usize| format != Format::Bc1 || c.rgba[i][3] >= 128;
    let differ = |i: usize, j: usize, what: &str| Err(format!("pixels {} and {} have the same {}, but decode to {:?} and {:?}: {}", i, j, what, got[i], got[j], c.show()));
    let mut alike = 0;
    for i in 0..16 {
        for j in 0..i {
            if !on(i) || !on(j) {
                continue;
            }
            let (p, q) = (c.rgba[i], c.rgba[j]);
            let colour = p[..3] == q[..3] && opaque(i) == opaque(j);
            match format {
                Format::Bc1 | Format::Bc2 | Format::Bc3 => {
                    if (colour || !opaque(i) && !opaque(j)) && got[i][..3] != got[j][..3] {
                        return differ(i, j, "colour");
                    }
                    alike += u64::from(colour);
                    if format != Format::Bc1 && p[3] == q[3] && got[i][3] != got[j][3] {
                        return differ(i, j, "alpha");
                    }
                }
                _ => {
                    for channel in 0..if format == Format::Bc4 { 1 } else { 2 } {
                        if p[channel] == q[channel] && got[i][channel] != got[j][channel] {
                            return differ(i, j, "value");
                        }
                        alike += u64::from(p[channel] == q[channel]);
                    }
                }
            }
        }
    }
    o.add("pairs of pixels alike", alike);
    // somewhere else in the block
    let mut to = [0; 16];
    for (i, t) in to.iter_mut().enumerate() {
        *t = i;
    }
    match s.below(4) {
        0 => to.reverse(),
        1 => to.iter_mut().for_each(|t| *t = *t % 4 * 4 + *t / 4),
        2 => to.rotate_left(s.range(1, 15)),
        _ => s.shuffle(&mut to),
    }
    let moved = permuted(&c, &to);
    let other = compress(&moved);
    o.calls += 1;
    let seen = spec::decode_block(format, &other);
    let mut colours: Vec<[u8; 3]> = (0..16).filter(|&i| on(i) && opaque(i)).map(|i| [c.rgba[i][0], c.rgba[i][1], c.rgba[i][2]]).collect();
    colours.sort_unstable();
    colours.dedup();
    for i in (0..16).filter(|&i| on(i)) {
        let (a, b) = (got[i], seen[to[i]]);
        let same = match format {
            // with more colours than one, the order in which they come may decide between solutions as good as each other
            Format::Bc1 => colours.len() > 1 && (a[3] == b[3]) || a == b,
            Format::Bc2 | Format::Bc3 => a[3] == b[3] && (colours.len() > 1 || a == b),
            _ => a == b,
        };
        if !same {
            return Err(format!("pixel {} decodes to {:?}, but to {:?} when the pixels are moved (it to {}): {}", i, a, b, to[i], c.show()));
        }
    }
    for &(half, _) in halves(format) {
        if out[half..half + 2] != other[half..half + 2] {
            return Err(format!("the range of {} becomes {} when the pixels are moved: {}", hex(&out), hex(&other), c.show()));
        }
    }
    if colours.len() == 1 {
        o.label("blocks of one colour moved");
    }
    Ok(())
}

pub fn c30(s: &mut Src, o: &mut Obs) -> Verdict {
    let format = s.pick(&[Format::Bc2, Format::Bc3, Format::Bc4, Format::Bc5, Format::Bc5]);
    let channel = match format {
        Format::Bc4 => 0,
        Format::Bc5 => s.below(2),
        _ => 3,
    };
    let mut rgba = [[s.u8(), s.u8(), s.u8(), s.u8()]; 16];
    let mut values = gen::channel_values(s);
    match s.below(6) {
        // a narrow range, anywhere
        0 => {
            let (base, spread) = (s.u8(), s.range(1, 9));
            values.iter_mut().for_each(|v| *v = (usize::from(base) + s.below(spread)).min(255) as u8);
        }
        // ends of the range among ordinary values
        1 => values.iter_mut().for_each(|v| if s.one_in(4) { *v = s.pick(&[0, 255, 1, 254]) }),
        // a gradient
        2 => {
            let (from, to) = (i32::from(s.u8()), i32::from(s.u8()));
            values.iter_mut().enumerate().for_each(|(i, v)| *v = (from + (to - from) * i as i32 / 15) as u8);
        }
        _ => {}
    }
    for (p, &v) in rgba.iter_mut().zip(&values) {
        if s.one_in(3) {
            *p = [s.u8(), s.u8(), s.u8(), s.u8()];
        }
        p[channel] = v;
    }
    let c = Case { format, rgba, mask: if s.one_in(2) { 0xffff } else { gen::mask(s) }, params: gen::params(s) };
    c30_case(o, &c, channel)
}

pub fn c30_case(o: &mut Obs, c: &Case, channel: usize) -> Verdict {
    o.describe(|| format!("channel {} of {}", channel, c.show()));
    o.key(c.key(), c.mask & 0xffff != 0);
    o.calls += 1;
    let got = spec::decode_block(c.format, &compress(c));
    let mut pixels: Vec<(u8, u8, usize)> = (0..16).filter(|&i| c.mask >> i & 1 == 1).map(|i| (c.rgba[i][channel], got[i][channel], i)).collect();
    pixels.sort_unstable();
    if pixels.is_empty() {
        return Ok(());
    }
    let (least, most) = (pixels[0].0, pixels[pixels.len() - 1].0);
    let narrow = most - least <= 7;
    let mut between: Vec<u8> = pixels.iter().map(|p| p.0).filter(|&v| v != 0 && v != 255).collect();
    between.dedup();
    for &(v, g, i) in &pixels {
        let extreme = v == 0 || v == 255 || c.format != Format::Bc2 && (v == least || v == most || narrow || between.len() <= 2);
        if extreme && v != g {
            return Err(format!("the {} value {} of pixel {} decodes to {}: {}", if narrow { "nearby" } else { "extreme" }, v, i, g, c.show()));
        }
    }
    for w in pixels.windows(2) {
        if w[0].1 > w[1].1 {
            return Err(format!("{} decodes to {}, but {} to {}: {}", w[0].0, w[0].1, w[1].0, w[1].1, c.show()));
        }
    }
    o.label(if c.format == Format::Bc2 { "BC2" } else if narrow { "narrow ranges" } else if between.len() <= 2 { "two values besides the ends" } else { "wide ranges" });
    Ok(())
}

/// Every range of values, with values all over it
pub fn ranges(rgba: Block, o: &mut Obs, which: usize) -> Verdict {
    let (format, channel) = [(Format::Bc3, 3), (Format::Bc4, 0), (Format::Bc5, 1), (Format::Bc5, 0), (Format::Bc2, 3)][(which + which / 6) % 5];
    c30_case(o, &Case { format, rgba, mask: 0xffff, params: Params::default() }, channel)
}

/// Images compressed and decompressed again and again, parts of them edited in between
pub fn c33(s: &mut Src, o: &mut Obs) -> Verdict {
    let format = s.pick(&FORMATS);
    let (w, h) = (s.range(1, 14), s.range(1, 14));
    let (wide, high) = (spec::blocks(w), spec::blocks(h));
    let mut px = vec![0u8; 4 * w * h];
    for by in 0..high {
        for bx in 0..wide {
            let mut b = if s.one_in(3) { repetitive(s) } else { gen::block(s).0 };
            if s.one_in(3) {
                let c = b[0];
                b.iter_mut().for_each(|p| *p = [c[0], c[1], c[2], p[3]]);
            }
            paste(&mut px, w, h, bx, by, &b);
        }
    }
    let show = |px: &[u8], p: &Params| format!("{:?} {}x{} {} pixels={}", format, w, h, gen::show_params(p), hex(px));
    let size = wide * high * spec::block_size(format);
    let mut data = vec![0u8; size];
    let first = gen::params(s);
    o.describe(|| show(&px, &first));
    let mut h1 = 0xcbf29ce484222325u64;
    px.iter().for_each(|&b| h1 = (h1 ^ u64::from(b)).wrapping_mul(0x100000001b3));
    o.key(h1 ^ (format as u64) << 7 ^ (w as u64) << 16, true);
    let mut seen = px.clone();
    format.compress(&px, w, h, first, &mut data);
    format.decompress(&data, w, h, &mut seen);
    for generation in 2..=s.range(2, 5) {
        let before = seen.clone();
        let mut edited = seen.clone();
        let mut touched = vec![false; wide * high];
        for _ in 0..s.below(3) {
            let (x, y) = (s.below(w), s.below(h));
            touched[y / 4 * wide + x / 4] = true;
            let v = [s.u8(), s.u8(), s.u8(), s.u8()];
            edited[4 * (y * w + x)..][..4].copy_from_slice(&v);
        }
        let p = gen::params(s);
        format.compress(&edited, w, h, p, &mut data);
        format.decompress(&data, w, h, &mut seen);
        o.calls += 1;
        for by in 0..high {
            for bx in 0..wide {
                if touched[by * wide + bx] {
                    continue;
                }
                let at: Vec<usize> = (0..16).filter(|i| 4 * bx + i % 4 < w && 4 * by + i / 4 < h).map(|i| 4 * ((4 * by + i / 4) * w + 4 * bx + i % 4)).collect();
                let opaque = |i: &&usize| format != Format::Bc1 || before[**i + 3] >= 128;
                let mut colours: Vec<&[u8]> = at.iter().filter(opaque).map(|&i| &before[i..i + 3]).collect();
                colours.sort_unstable();
                colours.dedup();
                let kept = match format {
                    Format::Bc1 | Format::Bc2 | Format::Bc3 if colours.len() <= 1 => 0..4,
                    Format::Bc1 | Format::Bc2 | Format::Bc3 => 3..4,
                    Format::Bc4 => 0..1,
                    Format::Bc5 => 0..2,
                };
                for &i in &at {
                    if seen[i..][kept.clone()] != before[i..][kept.clone()] {
                        return Err(format!("generation {}: pixel ({},{}) of an untouched block decoded to {:?} before and to {:?} now, compressing {}",
                            generation, i / 4 % w, i / 4 / w, &before[i..i + 4], &seen[i..i + 4], show(&edited, &p)));
                    }
                }
                o.label(if kept.len() == 4 { "untouched blocks of one colour" } else { "other untouched blocks" });
            }
        }
    }
    Ok(())
}

fn paste(px: &mut [u8], w: usize, h: usize, bx: usize, by: usize, b: &Block) {
    for (i, p) in b.iter().enumerate() {
        let (x, y) = (4 * bx + i % 4, 4 * by + i / 4);
        if x < w && y < h {
            px[4 * (y * w + x)..][..4].copy_from_slice(p);
        }
    }
}
