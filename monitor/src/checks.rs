//! One oracle per property, over executions generated from a source of decisions.
//! Err is a violation of the property; a panic inside the library is one too.

use crate::fit::*;
use crate::gen::{self, *};
use crate::obs::Obs;
use crate::spec::{self, Block};
use crate::src::{fnv, Src};
use texpresso::{Algorithm, Format, Params};

pub type Verdict = Result<(), String>;

pub fn compress_into(c: &Case, out: &mut [u8]) {
    c.format.compress_block_masked(c.rgba, c.mask, c.params, out);
}

pub fn compress(c: &Case) -> [u8; 16] {
    let mut out = [0u8; 16];
    compress_into(c, &mut out[..spec::block_size(c.format)]);
    out
}

fn with(c: &Case, f: impl FnOnce(&mut Case)) -> Case {
    let mut c = c.clone();
    f(&mut c);
    c
}

fn distinct_considered(c: &Case) -> usize {
    Points::new(&c.rgba, c.mask, is_bc1(c.format), false).len()
}

// ---------------------------------------------------------------- C01, C02: decoding blocks

fn random_block(s: &mut Src) -> [u8; 16] {
    let mut b = [0u8; 16];
    for v in b.iter_mut() {
        *v = s.value();
    }
    if !s.is_fuzz() {
        // structured endpoints: equal, neighbouring, in either order, in both halves
        for off in [0, 8] {
            match s.below(6) {
                0 => {
                    b[off + 2] = b[off];
                    b[off + 3] = b[off + 1];
                }
                1 => {
                    let v = spec::le16(&b[off..]).wrapping_add(s.pick(&[1u16, 65535, 32, 2048]));
                    b[off + 2] = v as u8;
                    b[off + 3] = (v >> 8) as u8;
                }
                2 => b[off + 1] = b[off],
                3 => b[off + 1] = b[off].wrapping_add(s.pick(&[1, 255])),
                _ => {}
            }
            if s.one_in(4) {
                let v = s.pick(&[0u8, 0xff, 0x55, 0xaa, 0xe4, 0x1b]);
                b[off + 4..off + 8].iter_mut().for_each(|x| *x = v);
            }
        }
    }
    b
}

/// Now and then, a block is the start of a longer slice
fn followed(s: &mut Src, data: &mut Vec<u8>) {
    if s.one_in(4) {
        (0..1 + s.below(20)).for_each(|_| data.push(s.u8()));
    }
}

fn c01(s: &mut Src, o: &mut Obs) -> Verdict {
    let f = s.pick(&COLOUR_FORMATS);
    let b = random_block(s);
    let n = spec::block_size(f);
    let mut data = b[..n].to_vec();
    followed(s, &mut data);
    o.describe(|| format!("{:?} block {}", f, hex(&data)));
    o.key(fnv(u64::from(spec_tag(f)), &b[..n]), true);
    o.calls += 1;
    let got = f.decompress_block(&data);
    let want = spec::decode_block(f, &b[..n]);
    for i in 0..16 {
        let k = if f == Format::Bc1 { 4 } else { 3 };
        if got[i][..k] != want[i][..k] {
            return Err(format!(
                "{:?} block {} pixel {} decodes to {:?}, the format says {:?}",
                f, hex(&data), i, &got[i][..k], &want[i][..k]
            ));
        }
    }
    Ok(())
}

fn c02(s: &mut Src, o: &mut Obs) -> Verdict {
    let f = s.pick(&[Format::Bc2, Format::Bc3, Format::Bc4, Format::Bc5]);
    let b = random_block(s);
    let n = spec::block_size(f);
    let mut data = b[..n].to_vec();
    followed(s, &mut data);
    o.describe(|| format!("{:?} block {}", f, hex(&data)));
    o.key(fnv(u64::from(spec_tag(f)), &b[..n]), true);
    o.calls += 2;
    let got = f.decompress_block(&data);
    let want = spec::decode_block(f, &b[..n]);
    for i in 0..16 {
        let same = match f {
            Format::Bc2 | Format::Bc3 => got[i][3] == want[i][3],
            _ => got[i] == want[i],
        };
        if !same {
            return Err(format!(
                "{:?} block {} pixel {} decodes to {:?}, the format says {:?}",
                f, hex(&data), i, got[i], want[i]
            ));
        }
    }
    if f == Format::Bc2 || f == Format::Bc3 {
        // the alpha half must leave the colour channels alone
        let mut other = b;
        for v in other[..8].iter_mut() {
            *v = s.u8();
        }
        let again = f.decompress_block(&other[..n]);
        for i in 0..16 {
            if again[i][..3] != got[i][..3] {
                return Err(format!(
                    "{:?} pixel {}: colour changes from {:?} to {:?} with the alpha half only: blocks {} and {}",
                    f, i, &got[i][..3], &again[i][..3], hex(&b[..n]), hex(&other[..n])
                ));
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C03, C04: images

fn image_dims(s: &mut Src, cap: usize) -> (usize, usize) {
    if s.is_fuzz() {
        let (w, h) = (s.below(40), s.below(40));
        (w, h)
    } else {
        gen::dimensions(s, cap)
    }
}

fn c03(s: &mut Src, o: &mut Obs) -> Verdict {
    let f = s.pick(&FORMATS);
    let (w, h) = image_dims(s, 90_000);
    c03_case(s, o, f, w, h)
}

/// Compressed data of any kind: independent blocks, or blocks that share all or part of their bytes
/// with the block before, the one above or an earlier one
pub fn block_data(s: &mut Src, need: usize, bs: usize, wide: usize) -> Vec<u8> {
    let kind = s.below(8);
    let mut r = s.u64() | 1;
    let mut next = || {
        r ^= r << 13;
        r ^= r >> 7;
        r ^= r << 17;
        (r >> 32) as usize & 0xffff_ffff
    };
    let mut data = vec![0u8; need];
    if kind < 3 {
        data.iter_mut().enumerate().for_each(|(i, v)| *v = if kind == 0 { (i % bs * 37) as u8 } else { next() as u8 });
        return data;
    }
    for i in 0..need / bs {
        let from = match next() % 6 {
            _ if i == 0 => None,
            0 | 1 => Some(i - 1),
            2 if i >= wide => Some(i - wide),
            3 if i > wide => Some(i - wide - 1),
            4 => Some(i - 1 - next() % i.min(9)),
            _ => None,
        };
        let mut block = [0u8; 16];
        match from {
            Some(j) => block[..bs].copy_from_slice(&data[j * bs..j * bs + bs]),
            None => block.iter_mut().for_each(|v| *v = next() as u8),
        }
        if from.is_some() {
            match next() % 6 {
                // the same block again
                0 | 1 => {}
                // one bit apart
                2 => block[next() % bs] ^= 1 << (next() % 8),
                // the same endpoints, or the same indices
                3 => block[bs - 4..].iter_mut().for_each(|v| *v = next() as u8),
                4 => block[bs - 8..bs - 4].iter_mut().for_each(|v| *v = next() as u8),
                // one half the same
                _ => {
                    let at = if next() % 2 == 0 { 0 } else { bs / 2 };
                    block[at..at + bs / 2].iter_mut().for_each(|v| *v = next() as u8);
                }
            }
        }
        data[i * bs..i * bs + bs].copy_from_slice(&block[..bs]);
    }
    data
}

pub fn c03_case(s: &mut Src, o: &mut Obs, f: Format, w: usize, h: usize) -> Verdict {
    let bs = spec::block_size(f);
    let need = spec::compressed_size(f, w, h);
    let extra_in = s.pick(&[0usize, 0, 1, 7, 8, 16, 33, 100]);
    let extra_out = s.pick(&[0usize, 0, 1, 3, 4, 16, 64, 4 * w + 1, 16 * w, 16 * w + 5]);
    let fill = s.u8();
    let mut data = block_data(s, need, bs, spec::blocks(w));
    let surplus = s.u8();
    data.resize(need + extra_in, surplus);
    let size = w * h * 4;
    let mut out = vec![fill; size + extra_out];
    o.describe(|| format!("{:?} {}x{} input +{} output +{}", f, w, h, extra_in, extra_out));
    o.key(fnv(fnv(u64::from(spec_tag(f)), &(w as u64).to_le_bytes()), &((h as u64) << 20 | (extra_in * 256 + extra_out) as u64).to_le_bytes()), w * h > 0);
    o.calls += 1;
    o.add("pixels", (w * h) as u64);
    o.max("max width", w as u64);
    o.max("max height", h as u64);
    if w * h == 0 {
        o.label("empty images");
    }
    if extra_out > 0 {
        o.label("surplus output");
    }
    f.decompress(&data, w, h, &mut out);
    let wide = spec::blocks(w);
    for by in 0..spec::blocks(h) {
        for bx in 0..wide {
            let at = (by * wide + bx) * bs;
            let px = spec::decode_block(f, &data[at..at + bs]);
            for y in 4 * by..h.min(4 * by + 4) {
                for x in 4 * bx..w.min(4 * bx + 4) {
                    let got = &out[4 * (y * w + x)..4 * (y * w + x) + 4];
                    let want = &px[4 * (y % 4) + x % 4];
                    if got != want {
                        return Err(format!(
                            "{:?} {}x{} (output surplus {}): pixel ({},{}) is {:?}, its block {} says {:?}",
                            f, w, h, extra_out, x, y, got, hex(&data[at..at + bs]), want
                        ));
                    }
                }
            }
        }
    }
    if let Some(at) = out[size..].iter().position(|&b| b != fill) {
        return Err(format!("{:?} {}x{}: byte {} beyond the image was overwritten (surplus {})", f, w, h, at, extra_out));
    }
    Ok(())
}

fn c04(s: &mut Src, o: &mut Obs) -> Verdict {
    let mut p = gen::params(s);
    let f = s.pick(&FORMATS);
    let cap = match (f, p.algorithm) {
        (Format::Bc4 | Format::Bc5, _) => 40_000,
        (_, Algorithm::RangeFit) => 20_000,
        _ => 2_500,
    };
    if s.one_in(8) {
        p.weights = [1.0; 3];
    }
    let (w, h) = image_dims(s, cap);
    c04_case(s, o, f, p, w, h)
}

/// Blocks that equal a neighbour, or differ from it in one value, one pixel, one channel or outside the image only
fn related_blocks(s: &mut Src, w: usize, h: usize) -> Vec<u8> {
    let (wide, high) = (spec::blocks(w), spec::blocks(h));
    let mut px = vec![0u8; w * h * 4];
    let mut above: Vec<Block> = Vec::new();
    let mut r = s.u64() | 1;
    let fresh: Vec<Block> = (0..(wide * high).min(24)).map(|_| gen::block(s).0).collect();
    let mut next = || {
        r ^= r << 13;
        r ^= r >> 7;
        r ^= r << 17;
        (r >> 32) as usize & 0xffff_ffff
    };
    for by in 0..high {
        let mut row: Vec<Block> = Vec::new();
        for bx in 0..wide {
            let mut b = match next() % 4 {
                0 if by > 0 => above[bx],
                1 if by > 0 && bx > 0 => above[bx - 1],
                3 => fresh[next() % fresh.len()],
                _ if bx > 0 => row[bx - 1],
                _ => fresh[next() % fresh.len()],
            };
            match next() % 9 {
                0..=2 => {}
                3 => b[next() % 16][next() % 4] ^= 1 << (next() % 8),
                4 => b[next() % 16] = [next() as u8, next() as u8, next() as u8, next() as u8],
                5 => {
                    let (c, d) = (next() % 4, next() as u8 | 1);
                    b.iter_mut().for_each(|p| p[c] = p[c].wrapping_add(d));
                }
                6 => {
                    let c = next() % 4;
                    b.iter_mut().for_each(|p| p[c] = next() as u8);
                }
                7 => {
                    let (i, j) = (next() % 16, next() % 16);
                    b.swap(i, j);
                }
                _ => b[15] = b[0],
            }
            for y in 0..4 {
                for x in 0..4 {
                    let (sx, sy) = (4 * bx + x, 4 * by + y);
                    if sx < w && sy < h {
                        px[4 * (sy * w + sx)..4 * (sy * w + sx) + 4].copy_from_slice(&b[4 * y + x]);
                    }
                }
            }
            row.push(b);
        }
        above = row;
    }
    px
}

/// Image content: noise, flat areas, repeated blocks, gradients
pub fn image(s: &mut Src, w: usize, h: usize) -> Vec<u8> {
    let kind = s.below(9);
    if kind >= 6 {
        return related_blocks(s, w, h);
    }
    let mut px = vec![0u8; w * h * 4];
    let (seed, a, b) = (s.u64(), s.u8(), s.u8());
    let family = s.below(FAMILIES);
    let base = gen::colours(s, family);
    let mut r = seed | 1;
    for y in 0..h {
        for x in 0..w {
            r ^= r << 13;
            r ^= r >> 7;
            r ^= r << 17;
            let n = (r >> 24) as u32;
            let p = &mut px[4 * (y * w + x)..4 * (y * w + x) + 4];
            let v = match kind {
                0 => n.to_le_bytes(),
                // repeating blocks, with a few different pixels
                1 => {
                    let mut c = base[4 * (y % 4) + x % 4];
                    if n % 61 == 0 {
                        c[(n >> 8) as usize % 4] ^= 64;
                    }
                    c
                }
                // flat areas
                2 => {
                    let t = (x / 9 + y / 7) as u8;
                    [a.wrapping_mul(t), b.wrapping_add(t), t, if t % 3 == 0 { 100 } else { 255 }]
                }
                // gradients
                3 => [(x * 3) as u8, (y * 5) as u8, (x + y) as u8, 255u8.wrapping_sub(x as u8)],
                // two colours
                4 => {
                    if n & 3 == 0 {
                        [a, b, a, 255]
                    } else {
                        [b, a, b, b]
                    }
                }
                // noise around a colour
                _ => [a.wrapping_add(n as u8 & 7), b.wrapping_add((n >> 8) as u8 & 7), a ^ b, (n >> 16) as u8 | 0x70],
            };
            p.copy_from_slice(&v);
        }
    }
    px
}

pub fn block_of(px: &[u8], w: usize, h: usize, bx: usize, by: usize, pad: u8) -> (Block, u32) {
    let mut rgba = [[pad; 4]; 16];
    let mut mask = 0;
    for y in 0..4 {
        for x in 0..4 {
            let (sx, sy) = (4 * bx + x, 4 * by + y);
            if sx < w && sy < h {
                rgba[4 * y + x].copy_from_slice(&px[4 * (sy * w + sx)..4 * (sy * w + sx) + 4]);
                mask |= 1 << (4 * y + x);
            }
        }
    }
    (rgba, mask)
}

pub fn c04_case(s: &mut Src, o: &mut Obs, f: Format, params: Params, w: usize, h: usize) -> Verdict {
    let bs = spec::block_size(f);
    let need = spec::compressed_size(f, w, h);
    let px = image(s, w, h);
    let extra_in = s.pick(&[0usize, 0, 0, 1, 4, 16, 77, 4 * w]);
    let extra_out = s.pick(&[0usize, 0, 0, 1, 7, 8, 16, 50, 333]);
    let (fill, pad) = (s.u8(), s.u8());
    o.describe(|| format!("{:?} {}x{} {} input +{} output +{}", f, w, h, show_params(&params), extra_in, extra_out));
    o.key(fnv(fnv(u64::from(spec_tag(f)), &((w as u64) << 32 | h as u64).to_le_bytes()), alg_name(params.algorithm).as_bytes()) ^ fnv(3, &px[..px.len().min(64)]), w * h > 0);
    o.max("max width", w as u64);
    o.max("max height", h as u64);
    if w * h == 0 {
        o.label("empty images");
    }
    let got_size = f.compressed_size(w, h);
    if got_size != need || f.block_size() != bs || texpresso::num_blocks(w) != spec::blocks(w) {
        return Err(format!("{:?} {}x{}: compressed_size is {}, the format says {}", f, w, h, got_size, need));
    }
    // the size of any image whose pixels fit the address space
    let (p, q) = (s.below(61), s.below(61));
    if p + q <= 60 {
        let bw = ((s.u64() >> 3) >> (60 - p)) as usize | 1 << p;
        let bh = ((s.u64() >> 3) >> (60 - q)) as usize | 1 << q;
        let (bw, bh) = s.pick(&[(bw, bh), (bw & !3, bh), (1 << p, bh), ((1 << p) + 1, (1 << q) + 1)]);
        if bw as u128 * bh as u128 * 4 < 1 << 62 {
            let want = (bw as u128).div_ceil(4) * (bh as u128).div_ceil(4) * bs as u128;
            let got = f.compressed_size(bw, bh);
            if got as u128 != want {
                return Err(format!("{:?} {}x{}: compressed_size is {}, the format says {}", f, bw, bh, got, want));
            }
            o.calls += 1;
            o.max("max bits of a size", u64::from(usize::BITS - got.leading_zeros()));
        }
    }
    let mut input = px.clone();
    input.extend((0..extra_in).map(|_| s.u8()));
    let mut out = vec![fill; need + extra_out];
    f.compress(&input, w, h, params, &mut out);
    o.calls += 1;
    if let Some(at) = out[need..].iter().position(|&b| b != fill) {
        return Err(format!("{:?} {}x{}: byte {} beyond compressed_size was overwritten (surplus {})", f, w, h, at, extra_out));
    }
    // the blocks on their own, in another order, with other calls in between
    let wide = spec::blocks(w);
    let n = wide * spec::blocks(h);
    let mut order: Vec<usize> = (0..n).collect();
    if s.one_in(2) {
        s.shuffle(&mut order);
    } else {
        order.reverse();
    }
    for (k, &i) in order.iter().enumerate() {
        let (rgba, mask) = block_of(&px, w, h, i % wide, i / wide, pad);
        if k % 8 == 3 {
            let spoil = Case { format: s.pick(&FORMATS), rgba, mask: 0x0ff0, params: gen::params(s) };
            compress(&spoil);
        }
        let c = Case { format: f, rgba, mask, params };
        let want = compress(&c);
        o.calls += 1;
        if out[i * bs..(i + 1) * bs] != want[..bs] {
            return Err(format!(
                "{:?} {}x{}: block ({},{}) of the image is {}, on its own {}: {}",
                f, w, h, i % wide, i / wide, hex(&out[i * bs..(i + 1) * bs]), hex(&want[..bs]), c.show()
            ));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C06: masked pixels

fn c06(s: &mut Src, o: &mut Obs) -> Verdict {
    let mut c = gen::case(s, &FORMATS);
    if s.one_in(3) {
        c.mask = u32::from(s.u16());
    }
    c06_case(s, o, c)
}

pub fn c06_case(s: &mut Src, o: &mut Obs, c: Case) -> Verdict {
    let bs = spec::block_size(c.format);
    o.describe(|| c.show());
    let low = c.mask & 0xffff;
    o.key(c.key(), low != 0xffff);
    // write into a larger, patterned buffer
    let fill = s.u8();
    let mut big = [fill; 40];
    compress_into(&c, &mut big);
    let mut tight = [!fill; 16];
    compress_into(&c, &mut tight[..bs]);
    o.calls += 2;
    if big[..bs] != tight[..bs] {
        return Err(format!("the block depends on what the output held or its length: {} vs {}: {}", hex(&big[..bs]), hex(&tight[..bs]), c.show()));
    }
    if big[bs..].iter().any(|&b| b != fill) {
        return Err(format!("bytes beyond the block were written: {}: {}", hex(&big), c.show()));
    }
    for round in 0..3 {
        let mut d = c.clone();
        let kind = s.below(5);
        let donor = s.below(16);
        for i in 0..16 {
            if low >> i & 1 == 0 {
                match kind {
                    0 => d.rgba[i] = [s.u8(), s.u8(), s.u8(), s.u8()],
                    1 => d.rgba[i] = c.rgba[donor],
                    2 => d.rgba[i][s.below(4)] = s.value(),
                    3 => d.rgba[i] = s.pick(&[[0; 4], [255; 4], [0, 0, 0, 255], [255, 255, 255, 0]]),
                    _ => d.rgba[i][3] = s.pick(&[0, 127, 128, 255]),
                }
            }
        }
        if round == 2 || s.one_in(3) {
            d.mask = low | (u32::from(s.u16()) << 16);
            if s.one_in(4) {
                d.mask = low | 0xffff_0000;
            }
            o.label("high mask bits varied");
        }
        o.calls += 1;
        let got = compress(&d);
        if got[..bs] != tight[..bs] {
            return Err(format!(
                "masked-out data or high mask bits change the block from {} to {}: {} versus mask={:08x} rgba=[{}]",
                hex(&tight[..bs]), hex(&got[..bs]), c.show(), d.mask, show_block(&d.rgba)
            ));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C07: totality

fn wild_weight(s: &mut Src) -> f32 {
    match s.below(12) {
        0 => f32::NAN,
        1 => f32::INFINITY,
        2 => f32::NEG_INFINITY,
        3 => 0.0,
        4 => -0.0,
        5 => -s.unit(),
        6 => f32::MAX,
        7 => f32::MIN_POSITIVE / 8.0,
        8 => f32::from_bits(s.u32()),
        9 => -1000.0,
        10 => s.hint(100000) as f32,
        _ => s.unit() * 2.0,
    }
}

pub fn refused(f: impl FnOnce()) -> bool {
    crate::run::quietly(|| std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err())
}

fn c07(s: &mut Src, o: &mut Obs) -> Verdict {
    c07_sized(s, o, 3_000, 40)
}

/// As C07, with images of a few blocks: for interpreters
pub fn c07_small(s: &mut Src, o: &mut Obs) -> Verdict {
    c07_sized(s, o, 30, 5)
}

fn c07_sized(s: &mut Src, o: &mut Obs, pixels: usize, side: usize) -> Verdict {
    match s.below(8) {
        0 => {
            let f = s.pick(&FORMATS);
            let b = random_block(s);
            o.describe(|| format!("decompress {:?} {}", f, hex(&b)));
            o.key(fnv(100 + u64::from(spec_tag(f)), &b), true);
            o.calls += 1;
            o.label("decode block");
            std::hint::black_box(f.decompress_block(&b[..spec::block_size(f)]));
            Ok(())
        }
        1 => {
            let f = s.pick(&FORMATS);
            let (w, h) = image_dims(s, pixels);
            let p = Params {
                algorithm: s.pick(&ALGS),
                weights: [wild_weight(s), wild_weight(s), wild_weight(s)],
                weigh_colour_by_alpha: s.one_in(2),
            };
            let px = image(s, w, h);
            let mut out = vec![0u8; spec::compressed_size(f, w, h)];
            o.describe(|| format!("image {:?} {}x{} {}", f, w, h, show_params(&p)));
            o.key(fnv(200 + u64::from(spec_tag(f)), &px) ^ (w * 7919 + h) as u64, true);
            o.calls += 2;
            o.label("images");
            f.compress(&px, w, h, p, &mut out);
            let mut back = vec![0u8; w * h * 4];
            f.decompress(&out, w, h, &mut back);
            Ok(())
        }
        2 => {
            // buffers that are too small have to be refused
            let f = s.pick(&FORMATS);
            let (w, h) = (s.range(1, side), s.range(1, side));
            let need = spec::compressed_size(f, w, h);
            let p = Params { algorithm: Algorithm::RangeFit, ..Params::default() };
            let near = s.one_in(2);
            let mut cut = |n: usize| if near { n - 1 - s.below(n.min(20)) } else { s.below(n) };
            let what = cut(3 * 97) % 3;
            o.label("short buffers");
            o.calls += 1;
            match what {
                0 => {
                    let len = cut(w * h * 4);
                    let px = vec![9u8; len];
                    let mut out = vec![0u8; need];
                    o.describe(|| format!("{:?} {}x{} compress from {} bytes of pixels", f, w, h, len));
                    o.key((w * 41 + h) as u64 ^ (len as u64) << 16 | 1 << 60, true);
                    if !refused(|| f.compress(&px, w, h, p, &mut out)) {
                        return Err(format!("{:?} {}x{}: compress accepts {} bytes of pixels instead of {}", f, w, h, len, w * h * 4));
                    }
                }
                1 => {
                    let len = cut(need);
                    let px = vec![9u8; w * h * 4];
                    let mut out = vec![0u8; len];
                    o.describe(|| format!("{:?} {}x{} compress into {} bytes", f, w, h, len));
                    o.key((w * 41 + h) as u64 ^ (len as u64) << 16 | 2 << 60, true);
                    if !refused(|| f.compress(&px, w, h, p, &mut out)) {
                        return Err(format!("{:?} {}x{}: compress accepts {} bytes of output instead of {}", f, w, h, len, need));
                    }
                }
                _ => {
                    let len = cut(need);
                    let data = vec![77u8; len];
                    let mut out = vec![0u8; w * h * 4];
                    o.describe(|| format!("{:?} {}x{} decompress from {} bytes", f, w, h, len));
                    o.key((w * 41 + h) as u64 ^ (len as u64) << 16 | 3 << 60, true);
                    if !refused(|| f.decompress(&data, w, h, &mut out)) {
                        return Err(format!("{:?} {}x{}: decompress accepts {} bytes of data instead of {}", f, w, h, len, need));
                    }
                }
            }
            Ok(())
        }
        _ => {
            let mut c = gen::case(s, &FORMATS);
            if s.below(4) != 0 {
                c.params.weights = [wild_weight(s), wild_weight(s), wild_weight(s)];
            }
            if s.one_in(3) {
                c.mask = s.u32();
            }
            o.describe(|| c.show());
            o.key(c.key(), true);
            o.calls += 2;
            o.label("encode block");
            if c.params.weights.iter().any(|w| !w.is_finite()) {
                o.label("non-finite weights");
            }
            let out = compress(&c);
            std::hint::black_box(c.format.decompress_block(&out[..spec::block_size(c.format)]));
            Ok(())
        }
    }
}

// ---------------------------------------------------------------- C08: BC1 alpha test

fn c08(s: &mut Src, o: &mut Obs) -> Verdict {
    let mut c = gen::case(s, &[Format::Bc1]);
    let af = s.pick(&[1usize, 2, 2, 3, 5, 6, 7, 7, 8]);
    alphas(s, &mut c.rgba, af);
    let used = (0..16).filter(|i| c.mask >> i & 1 == 1);
    let clear = used.clone().filter(|&i| c.rgba[i][3] < 128).count();
    let all = used.count();
    o.describe(|| c.show());
    o.key(c.key(), clear > 0 && clear < all);
    if clear == all && all > 0 {
        o.label("all transparent");
    }
    let out = compress(&c);
    let got = spec::decode_colour(&out[..8], true);
    o.calls += 2;
    for i in 0..16 {
        if c.mask >> i & 1 == 0 {
            continue;
        }
        let a = c.rgba[i][3];
        if (a < 128 && got[i] != [0; 4]) || (a >= 128 && got[i][3] != 255) {
            return Err(format!("pixel {} with alpha {} decodes to {:?} from block {}: {}", i, a, got[i], hex(&out[..8]), c.show()));
        }
    }
    if clear > 0 {
        let mut d = c.clone();
        let donor = s.below(16);
        let kind = s.below(3);
        for i in 0..16 {
            if d.rgba[i][3] < 128 {
                let v = match kind {
                    0 => [s.u8(), s.u8(), s.u8()],
                    1 => [c.rgba[donor][0], c.rgba[donor][1], c.rgba[donor][2]],
                    _ => [0; 3],
                };
                d.rgba[i][..3].copy_from_slice(&v);
            }
        }
        let again = compress(&d);
        if again[..8] != out[..8] {
            return Err(format!(
                "the colour of transparent pixels changes the block from {} to {}: {} versus rgba=[{}]",
                hex(&out[..8]), hex(&again[..8]), c.show(), show_block(&d.rgba)
            ));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C09: BC2 alpha

fn c09(s: &mut Src, o: &mut Obs) -> Verdict {
    let mut c = gen::case(s, &[Format::Bc2]);
    let af = s.pick(&[1usize, 1, 2, 3, 4, 5, 6, 7, 8]);
    alphas(s, &mut c.rgba, af);
    if s.one_in(4) {
        c.params.weights = [s.unit(); 3];
    }
    o.describe(|| c.show());
    o.key(c.key(), c.mask & 0xffff != 0);
    o.calls += 1;
    let out = compress(&c);
    let got = spec::decode_bc2_alpha(&out[..8]);
    for i in 0..16 {
        let a = u32::from(c.rgba[i][3]);
        let want = if c.mask >> i & 1 == 0 { 0 } else { (2 * a + 17) / 34 * 17 };
        if u32::from(got[i]) != want {
            return Err(format!("pixel {} with alpha {} decodes to alpha {}, not {}: {}", i, a, got[i], want, c.show()));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C10: interpolated channels

fn widened(lo: u32, hi: u32, least: u32) -> (u32, u32) {
    let (mut lo, mut hi) = (lo, hi);
    if hi - lo < least {
        hi = (lo + least).min(255);
    }
    if hi - lo < least {
        lo = hi - least;
    }
    (lo, hi)
}

/// Squared error of the two reference encodings of a channel
fn channel_references(v: &[u8; 16], mask: u32) -> [u32; 2] {
    let used: Vec<u32> = (0..16).filter(|i| mask >> i & 1 == 1).map(|i| u32::from(v[i])).collect();
    let error = |pal: &[u8]| -> u32 {
        used.iter().map(|&x| pal.iter().map(|&p| (i64::from(p) - i64::from(x)).pow(2) as u32).min().unwrap()).sum()
    };
    let (lo, hi) = match (used.iter().min(), used.iter().max()) {
        (Some(&a), Some(&b)) => (a, b),
        _ => (0, 0),
    };
    let (lo, hi) = widened(lo, hi, 7);
    // the larger of both roundings, should the direction of the endpoints matter
    let mut up = vec![lo as u8, hi as u8];
    let mut down = up.clone();
    for k in 1..7 {
        up.push((((7 - k) * lo + k * hi) / 7) as u8);
        down.push((((7 - k) * hi + k * lo) / 7) as u8);
    }
    let e7 = error(&up).max(error(&down));
    let inner: Vec<u32> = used.iter().copied().filter(|&x| x != 0 && x != 255).collect();
    let e5 = match (inner.iter().min(), inner.iter().max()) {
        (Some(&a), Some(&b)) => {
            let (lo, hi) = widened(a, b, 5);
            error(&spec::channel_palette(lo as u8, hi as u8))
        }
        // only 0 and 255 are used: exact
        _ => 0,
    };
    [e7, e5]
}

fn c10(s: &mut Src, o: &mut Obs) -> Verdict {
    let (f, channel, half) = s.pick(&[
        (Format::Bc3, 3, 0),
        (Format::Bc4, 0, 0),
        (Format::Bc5, 0, 0),
        (Format::Bc5, 1, 8),
    ]);
    let mut c = Case { format: f, rgba: [[s.u8(), s.u8(), s.u8(), s.u8()]; 16], mask: gen::mask(s), params: gen::params(s) };
    let v = if s.is_fuzz() {
        let mut v = [0u8; 16];
        v.iter_mut().for_each(|x| *x = s.u8());
        v
    } else {
        gen::channel_values(s)
    };
    for i in 0..16 {
        if s.one_in(3) {
            c.rgba[i] = [s.u8(), s.u8(), s.u8(), s.u8()];
        }
        c.rgba[i][channel] = v[i];
    }
    c10_case(o, &c, channel, half)
}

pub fn c10_case(o: &mut Obs, c: &Case, channel: usize, half: usize) -> Verdict {
    o.describe(|| format!("channel {} of {}", channel, c.show()));
    o.key(c.key(), c.mask & 0xffff != 0);
    o.calls += 1;
    let out = compress(c);
    let block = &out[half..half + 8];
    let pal = spec::channel_palette(block[0], block[1]);
    let got = spec::decode_channel(block);
    o.label(if block[0] > block[1] { "eight-level blocks" } else { "six-level blocks" });
    let mut v = [0u8; 16];
    let mut total = 0u32;
    for i in 0..16 {
        v[i] = c.rgba[i][channel];
        if c.mask >> i & 1 == 0 {
            continue;
        }
        let d = |p: u8| (i32::from(p) - i32::from(v[i])).unsigned_abs();
        let best = pal.iter().map(|&p| d(p)).min().unwrap();
        if d(got[i]) != best {
            return Err(format!(
                "pixel {} with value {} decodes to {}, but block {} has a value {} away: {}",
                i, v[i], got[i], hex(block), best, c.show()
            ));
        }
        total += best * best;
    }
    let refs = channel_references(&v, c.mask);
    if refs[0] > 0 && refs[1] > 0 {
        o.label("inexact for both references");
    }
    if total > refs[0].min(refs[1]) {
        return Err(format!(
            "squared error {} of block {} exceeds the reference encodings' {:?}: {}",
            total, hex(block), refs, c.show()
        ));
    }
    Ok(())
}

// ---------------------------------------------------------------- C11: one colour

pub struct Single {
    /// least squared channel error for [three, four colours][endpoint, first interpolated][5, 6 bits][value]
    best: [[[[u32; 256]; 2]; 2]; 2],
}

impl Single {
    pub fn new() -> Single {
        let mut best = [[[[u32::MAX; 256]; 2]; 2]; 2];
        for bits in 0..2 {
            let n = if bits == 0 { 32u32 } else { 64 };
            let un = |v: u32| if bits == 0 { v * 8 + v / 4 } else { v * 4 + v / 16 };
            for a in 0..n {
                for b in 0..n {
                    let (p, q) = (un(a), un(b));
                    for mode in 0..2 {
                        let mid = if mode == 0 { (p + q) / 2 } else { (2 * p + q) / 3 };
                        for (entry, val) in [p, mid].into_iter().enumerate() {
                            for v in 0..256u32 {
                                let e = &mut best[mode][entry][bits][v as usize];
                                *e = (*e).min((v as i32 - val as i32).pow(2) as u32);
                            }
                        }
                    }
                }
            }
        }
        Single { best }
    }

    pub fn optimum(&self, c: [u8; 3], modes: &[usize]) -> u32 {
        let mut least = u32::MAX;
        for &m in modes {
            for entry in 0..2 {
                let t = &self.best[m][entry];
                let e = t[0][c[0] as usize] + t[1][c[1] as usize] + t[0][c[2] as usize];
                least = least.min(e);
            }
        }
        least
    }
}

pub fn single() -> &'static Single {
    static S: std::sync::OnceLock<Single> = std::sync::OnceLock::new();
    S.get_or_init(Single::new)
}

fn c11(s: &mut Src, o: &mut Obs) -> Verdict {
    let mut c = gen::case(s, &COLOUR_FORMATS);
    let colour = [s.value(), s.value(), s.value()];
    let bc1 = is_bc1(c.format);
    if c.mask & 0xffff == 0 {
        c.mask |= 1 << s.below(16);
    }
    let first = c.mask.trailing_zeros() as usize;
    for i in 0..16 {
        if c.mask >> i & 1 == 1 && (!bc1 || c.rgba[i][3] >= 128 || i == first) {
            c.rgba[i][..3].copy_from_slice(&colour);
        }
    }
    if bc1 {
        c.rgba[first][3] |= 128;
    }
    c11_case(o, &c, colour)
}

pub fn c11_case(o: &mut Obs, c: &Case, colour: [u8; 3]) -> Verdict {
    let bc1 = is_bc1(c.format);
    o.describe(|| c.show());
    o.key(c.key(), true);
    let out = compress(c);
    let off = if bc1 { 0 } else { 8 };
    let got = spec::decode_colour(&out[off..off + 8], bc1);
    o.calls += 1;
    let mut one: Option<[u8; 3]> = None;
    let mut clear = false;
    for i in 0..16 {
        if c.mask >> i & 1 == 0 {
            continue;
        }
        if bc1 && c.rgba[i][3] < 128 {
            clear = true;
            continue;
        }
        if bc1 && got[i][3] != 255 {
            return Err(format!("opaque pixel {} decodes transparent: {}", i, c.show()));
        }
        let p = [got[i][0], got[i][1], got[i][2]];
        if *one.get_or_insert(p) != p {
            return Err(format!("one colour decodes to {:?} and {:?}: {}", one.unwrap(), p, c.show()));
        }
    }
    let p = match one {
        Some(p) => p,
        None => return Ok(()),
    };
    let err: u32 = (0..3).map(|k| (i32::from(p[k]) - i32::from(colour[k])).pow(2) as u32).sum();
    let modes: &[usize] = if !bc1 {
        &[1]
    } else if clear {
        &[0]
    } else {
        &[0, 1]
    };
    o.label(if !bc1 { "bc2/bc3" } else if clear { "bc1 with transparency" } else { "bc1 opaque" });
    let want = single().optimum(colour, modes);
    if err > want {
        return Err(format!("colour {:?} decodes to {:?} with squared error {}, {} is possible: {}", colour, p, err, want, c.show()));
    }
    Ok(())
}

// ---------------------------------------------------------------- C12: two colours

fn c12(s: &mut Src, o: &mut Obs) -> Verdict {
    let representable = s.one_in(3);
    let (a, mut b) = if representable {
        let a = gen::colour565(s);
        let b = if s.one_in(2) {
            // a near one
            let mut v = u32::from(a[0]) / 8 * 2048 + u32::from(a[1]) / 4 * 32 + u32::from(a[2]) / 8;
            v = v.wrapping_add(s.pick(&[1, 64, 2048, 65, 2112, 65535, 2047, 31, 96]));
            let w = spec::widen565(v as u16);
            [w[0] as u8, w[1] as u8, w[2] as u8]
        } else {
            gen::colour565(s)
        };
        (a, b)
    } else {
        let a = [s.value(), s.value(), s.value()];
        let b = match s.below(5) {
            0 => {
                let mut b = a;
                b[s.below(3)] = s.value();
                b
            }
            1 => [255 - a[0], 255 - a[1], 255 - a[2]],
            2 => [a[1], a[2], a[0]],
            3 => {
                // opposite changes in two channels
                let d = s.u8();
                let k = s.below(3);
                let mut b = a;
                b[k] = b[k].saturating_add(d);
                b[(k + 1) % 3] = b[(k + 1) % 3].saturating_sub(d);
                b
            }
            _ => [s.value(), s.value(), s.value()],
        };
        (a, b)
    };
    if a == b {
        b[1] ^= 255;
    }
    let mut c = gen::case(s, &COLOUR_FORMATS);
    let bc1 = is_bc1(c.format);
    let range = representable && s.one_in(2);
    if range {
        c.params.algorithm = Algorithm::RangeFit;
        let mut w = gen::positive_weights(s);
        if s.one_in(4) {
            let k = s.pick(&[0.001f32, 0.25, 10.0]);
            w = [0, 1, 2].map(|_| k * s.pick(&[1.0f32, 1.5, 10.0, 30.0, 100.0]));
        }
        let top = w[0].max(w[1]).max(w[2]);
        w = w.map(|v| v.max(top / 100.0));
        c.params.weights = w;
    } else {
        let k = s.pick(&[1.0f32, 1.0, 1.0, 0.5, 3.0, 0.01]);
        c.params.weights = [k; 3];
        if c.params.algorithm != Algorithm::RangeFit {
            c.params.weigh_colour_by_alpha = false;
        }
    }
    let kind = s.below(4);
    let pattern = s.u16();
    for i in 0..16 {
        let second = match kind {
            0 => i == usize::from(pattern) % 16,
            1 => (i + i / 4) % 2 == 0,
            _ => pattern >> i & 1 == 1,
        };
        c.rgba[i][..3].copy_from_slice(if second { &b } else { &a });
    }
    let n = distinct_considered(&c);
    o.describe(|| c.show());
    o.key(c.key(), n == 2);
    if n != 2 {
        return Ok(());
    }
    o.calls += 1;
    o.label(alg_name(c.params.algorithm));
    let out = compress(&c);
    let off = if bc1 { 0 } else { 8 };
    let got = spec::decode_colour(&out[off..off + 8], bc1);
    let steps = (i32::from(a[1] / 4) - i32::from(b[1] / 4)).abs();
    let exact = representable && c.params.algorithm == Algorithm::RangeFit && spec_same(&a) && spec_same(&b) && steps != 1;
    if exact {
        o.label("exactly representable, range fit");
    }
    for i in 0..16 {
        if c.mask >> i & 1 == 0 || (bc1 && c.rgba[i][3] < 128) {
            continue;
        }
        for k in 0..3 {
            let d = (i32::from(got[i][k]) - i32::from(c.rgba[i][k])).abs();
            if exact && d != 0 {
                return Err(format!("pixel {}: representable colour {:?} decodes to {:?}: {}", i, &c.rgba[i][..3], &got[i][..3], c.show()));
            }
            if !range && d > 16 || (bc1 && got[i][3] != 255) {
                return Err(format!("pixel {}: colour {:?} decodes to {:?}: {}", i, &c.rgba[i][..3], got[i], c.show()));
            }
            if !range {
                o.max("max channel deviation", d as u64);
            }
        }
    }
    Ok(())
}

fn spec_same(c: &[u8; 3]) -> bool {
    let v = u32::from(c[0]) / 8 * 2048 + u32::from(c[1]) / 4 * 32 + u32::from(c[2]) / 8;
    let w = spec::widen565(v as u16);
    [w[0] as u8, w[1] as u8, w[2] as u8] == *c
}

// ---------------------------------------------------------------- C13, C14: quality of fits

fn slack(points: &Points, w: &[f64; 3]) -> f64 {
    1e-6 * points.mass().max(1.0) * (w[0] + w[1] + w[2])
}

fn c13(s: &mut Src, o: &mut Obs) -> Verdict {
    let mut c = gen::case(s, &COLOUR_FORMATS);
    if c.params.algorithm == Algorithm::RangeFit {
        c.params.algorithm = Algorithm::ClusterFit;
    }
    let bc1 = is_bc1(c.format);
    let points = Points::new(&c.rgba, c.mask, bc1, c.params.weigh_colour_by_alpha);
    o.describe(|| c.show());
    o.key(c.key(), points.len() >= 2);
    if points.len() < 2 {
        return Ok(());
    }
    o.calls += 1;
    o.label(alg_name(c.params.algorithm));
    if points.len() >= 9 {
        o.label("nine or more colours");
    }
    if c.params.weigh_colour_by_alpha {
        o.label("alpha weighted");
    }
    let out = compress(&c);
    let off = if bc1 { 0 } else { 8 };
    let block = &out[off..off + 8];
    let w = &c.params.weights;
    let got = match cluster_error(&points, block, bc1, w) {
        Some(e) => e,
        None => return Err(format!("an opaque pixel was assigned the transparent entry in {}: {}", hex(block), c.show())),
    };
    let iterations = if c.params.algorithm == Algorithm::IterativeClusterFit { 8 } else { 1 };
    let tolerance = slack(&points, &wide(w));
    let mut want = reference_cluster(&points, w, bc1, iterations, &mut Noise(None));
    if got <= want * 1.01 + tolerance {
        return Ok(());
    }
    // allow for the freedom of floating-point evaluation: orderings and roundings that are ties
    let mut n = Src::seeded(c.key());
    for _ in 0..40 {
        want = want.max(reference_cluster(&points, w, bc1, iterations, &mut Noise(Some(&mut n))));
    }
    if got <= want * 1.01 + tolerance {
        o.label("within the freedom of ties");
        return Ok(());
    }
    Err(format!("fitting error {:.6e} of block {} exceeds the reference search's {:.6e}: {}", got, hex(block), want, c.show()))
}

fn c14(s: &mut Src, o: &mut Obs) -> Verdict {
    let mut c = gen::case(s, &COLOUR_FORMATS);
    c.params.algorithm = Algorithm::RangeFit;
    let bc1 = is_bc1(c.format);
    let points = Points::new(&c.rgba, c.mask, bc1, c.params.weigh_colour_by_alpha);
    o.describe(|| c.show());
    o.key(c.key(), points.len() >= 2);
    if points.len() < 2 {
        return Ok(());
    }
    o.calls += 1;
    let out = compress(&c);
    let off = if bc1 { 0 } else { 8 };
    let block = &out[off..off + 8];
    let ww = squared(&c.params.weights);
    let pal = ideal_palette(block, bc1);
    if bc1 {
        o.label(if pal.len() == 3 { "three-colour blocks" } else { "four-colour blocks" });
    }
    let d = match assigned(&points, block, bc1, &ww) {
        Some(d) => d,
        None => return Err(format!("an opaque pixel was assigned the transparent entry in {}: {}", hex(block), c.show())),
    };
    let scale: f64 = ww.iter().sum();
    for (p, &got) in d.iter().enumerate() {
        let best = pal.iter().map(|e| dist(&ww, &points.pos[p], e)).fold(f64::INFINITY, f64::min);
        if got > best * 1.0001 + 3e-7 * scale {
            return Err(format!(
                "colour {:?} is assigned an entry at {:.6e} when one is at {:.6e} in block {}: {}",
                points.rgb[p], got, best, hex(block), c.show()
            ));
        }
    }
    let got: f64 = d.iter().sum();
    let tolerance = 1e-6 * scale * points.len() as f64;
    let mut want = reference_range(&points, &c.params.weights, bc1, &mut Noise(None));
    if got <= want * 1.01 + tolerance {
        return Ok(());
    }
    let mut n = Src::seeded(c.key());
    for _ in 0..200 {
        want = want.max(reference_range(&points, &c.params.weights, bc1, &mut Noise(Some(&mut n))));
    }
    if got <= want * 1.01 + tolerance {
        o.label("within the freedom of ties");
        return Ok(());
    }
    Err(format!("range fit error {:.6e} of block {} exceeds the reference's {:.6e}: {}", got, hex(block), want, c.show()))
}

// ---------------------------------------------------------------- C15: parameters

fn c15(s: &mut Src, o: &mut Obs) -> Verdict {
    let mut c = gen::case(s, &COLOUR_FORMATS);
    let bc1 = is_bc1(c.format);
    let off = if bc1 { 0 } else { 8 };
    match s.below(6) {
        // revealed optimality across weights
        0 | 1 => {
            c.params.algorithm = Algorithm::ClusterFit;
            let points = Points::new(&c.rgba, c.mask, bc1, c.params.weigh_colour_by_alpha);
            o.describe(|| format!("cross weights {}", c.show()));
            o.key(c.key(), points.len() >= 2);
            if points.len() < 2 {
                return Ok(());
            }
            o.label("pairs of weights");
            let w = c.params.weights;
            let mine = compress(&c);
            o.calls += 1;
            let e = match cluster_error(&points, &mine[off..off + 8], bc1, &w) {
                Some(e) => e,
                None => return Err(format!("an opaque pixel is transparent: {}", c.show())),
            };
            for k in 0..4 {
                let mut v = w;
                match k {
                    0 => v = gen::weights(s),
                    1 => v[s.below(3)] *= s.pick(&[0.0, 0.25, 2.0, 10.0]),
                    2 => v = [w[1], w[2], w[0]],
                    _ => v = s.pick(&[[1.0; 3], [1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0], [0.3, 0.6, 0.1]]),
                }
                let d = with(&c, |d| d.params.weights = v);
                let other = compress(&d);
                o.calls += 1;
                if let Some(f) = cluster_error(&points, &other[off..off + 8], bc1, &w) {
                    if e > f * 1.0001 + slack(&points, &wide(&w)) {
                        return Err(format!(
                            "under weights {:?} the block fitted with those weights ({}) has error {:.6e}, the one fitted with {:?} ({}) {:.6e}: {}",
                            w, hex(&mine[off..off + 8]), e, v, hex(&other[off..off + 8]), f, c.show()
                        ));
                    }
                }
            }
        }
        // scaling by powers of two
        2 => {
            if c.params.weights.iter().any(|&w| w > 0.0 && w < 1e-3) {
                c.params.weights = [0.5, 0.25, 0.125];
            }
            let k = s.pick(&[0.5f32, 2.0, 4.0, 0.125, 64.0, 0.0625]);
            let d = with(&c, |d| d.params.weights.iter_mut().for_each(|w| *w *= k));
            o.describe(|| format!("scale {} {}", k, c.show()));
            o.key(c.key(), distinct_considered(&c) >= 2);
            o.label("scaled weights");
            o.calls += 2;
            let (x, y) = (compress(&c), compress(&d));
            if x != y {
                return Err(format!("scaling the weights by {} changes the block from {} to {}: {}", k, hex(&x), hex(&y), c.show()));
            }
        }
        // iteration only improves
        3 => {
            if bc1 {
                // make one pixel transparent: a single palette mode
                c.rgba[s.below(16)][3] = 0;
            }
            let points = Points::new(&c.rgba, c.mask, bc1, c.params.weigh_colour_by_alpha);
            o.describe(|| format!("iteration {}", c.show()));
            let single_mode = !bc1 || points.transparent;
            o.key(c.key(), points.len() >= 2 && single_mode);
            if points.len() < 2 || !single_mode {
                return Ok(());
            }
            o.label("iterated or not");
            o.calls += 2;
            let once = compress(&with(&c, |d| d.params.algorithm = Algorithm::ClusterFit));
            let many = compress(&with(&c, |d| d.params.algorithm = Algorithm::IterativeClusterFit));
            let w = &c.params.weights;
            let (a, b) = (
                cluster_error(&points, &once[off..off + 8], bc1, w),
                cluster_error(&points, &many[off..off + 8], bc1, w),
            );
            match (a, b) {
                (Some(a), Some(b)) => {
                    if once != many {
                        o.label("iteration changed the block");
                    }
                    if b > a * 1.0001 + slack(&points, &wide(w)) {
                        return Err(format!(
                            "iterating raises the fitting error from {:.6e} ({}) to {:.6e} ({}): {}",
                            a, hex(&once), b, hex(&many), c.show()
                        ));
                    }
                }
                _ => return Err(format!("an opaque pixel is transparent: {}", c.show())),
            }
        }
        // alpha weighting without alpha
        4 => {
            let keep = s.one_in(2);
            for i in 0..16 {
                if c.mask >> i & 1 == 1 && !(bc1 && keep && c.rgba[i][3] < 128) {
                    c.rgba[i][3] = 255;
                }
            }
            o.describe(|| format!("alpha weighting {}", c.show()));
            o.key(c.key(), distinct_considered(&c) >= 2);
            o.label("alpha weighting of opaque pixels");
            o.calls += 2;
            let x = compress(&with(&c, |d| d.params.weigh_colour_by_alpha = false));
            let y = compress(&with(&c, |d| d.params.weigh_colour_by_alpha = true));
            if x != y {
                return Err(format!("alpha weighting changes an opaque block from {} to {}: {}", hex(&x), hex(&y), c.show()));
            }
        }
        // defaults
        _ => {
            o.describe(|| format!("defaults {}", c.show()));
            o.key(c.key(), distinct_considered(&c) >= 2);
            o.label("defaults");
            o.calls += 2;
            let x = compress(&with(&c, |d| d.params = Params::default()));
            let y = compress(&with(&c, |d| {
                d.params = Params { algorithm: Algorithm::ClusterFit, weights: [0.2126, 0.7152, 0.0722], weigh_colour_by_alpha: false }
            }));
            if x != y {
                return Err(format!("default parameters give {}, the documented defaults {}: {}", hex(&x), hex(&y), c.show()));
            }
            if texpresso::COLOUR_WEIGHTS_UNIFORM != [1.0; 3] || texpresso::COLOUR_WEIGHTS_PERCEPTUAL != [0.2126, 0.7152, 0.0722] {
                return Err("the named weights have other values than documented".into());
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C16: formats and channels

fn c16(s: &mut Src, o: &mut Obs) -> Verdict {
    let mut c = gen::case(s, &FORMATS);
    let af = s.below(gen::ALPHA_FAMILIES);
    if s.one_in(3) {
        alphas(s, &mut c.rgba, af);
    }
    o.describe(|| c.show());
    o.key(c.key(), c.mask & 0xffff != 0);
    let of = |c: &Case, f: Format| compress(&with(c, |d| d.format = f));
    let b1 = of(&c, Format::Bc1);
    let b2 = of(&c, Format::Bc2);
    let b3 = of(&c, Format::Bc3);
    let b4 = of(&c, Format::Bc4);
    let b5 = of(&c, Format::Bc5);
    let moved = |k: usize| {
        with(&c, |d| d.rgba.iter_mut().for_each(|p| p[0] = p[k]))
    };
    o.calls += 8;
    if b2[8..] != b3[8..] {
        return Err(format!("BC2 and BC3 colour halves differ: {} and {}: {}", hex(&b2), hex(&b3), c.show()));
    }
    let red_is_alpha = of(&moved(3), Format::Bc4);
    if b3[..8] != red_is_alpha[..8] {
        return Err(format!("the BC3 alpha half {} is not the BC4 block {} of alpha: {}", hex(&b3[..8]), hex(&red_is_alpha[..8]), c.show()));
    }
    let red_is_green = of(&moved(1), Format::Bc4);
    if b5[..8] != b4[..8] || b5[8..] != red_is_green[..8] {
        return Err(format!("the BC5 block {} is not the BC4 blocks {} and {}: {}", hex(&b5), hex(&b4[..8]), hex(&red_is_green[..8]), c.show()));
    }
    let used: Vec<usize> = (0..16).filter(|i| c.mask >> i & 1 == 1).collect();
    let opaque = used.iter().all(|&i| c.rgba[i][3] >= 128);
    let points = Points::new(&c.rgba, c.mask, false, false).len();
    let (p, q) = (spec::le16(&b1[0..2]), spec::le16(&b1[2..4]));
    if opaque && points >= 2 && p > q && c.params.algorithm != Algorithm::IterativeClusterFit {
        o.label("bc1 blocks in the four-colour mode");
        if b1[..8] != b2[8..] {
            return Err(format!("the four-colour BC1 block {} is not the BC2 colour half {}: {}", hex(&b1[..8]), hex(&b2[8..]), c.show()));
        }
    }
    // channel isolation: disturb everything a part must not depend on
    let mut d = with(&c, |d| {
        d.params = gen::params(s);
        if s.one_in(2) {
            d.params.weights = [f32::NAN, -1.0, f32::INFINITY];
        }
    });
    let kind = s.below(3);
    for (i, px) in d.rgba.iter_mut().enumerate() {
        for k in 0..4 {
            px[k] = match kind {
                0 => s.u8(),
                1 => !c.rgba[i][k],
                _ => 128,
            };
        }
    }
    let isolated = |keep: &[usize]| {
        let mut e = d.clone();
        for i in 0..16 {
            for &k in keep {
                e.rgba[i][k] = c.rgba[i][k];
            }
        }
        e
    };
    o.calls += 5;
    let checks = [
        ("BC2 alpha", &b2[..8], of(&isolated(&[3]), Format::Bc2)[..8].to_vec()),
        ("BC3 alpha", &b3[..8], of(&isolated(&[3]), Format::Bc3)[..8].to_vec()),
        ("BC4", &b4[..8], of(&isolated(&[0]), Format::Bc4)[..8].to_vec()),
        ("BC5", &b5[..16], of(&isolated(&[0, 1]), Format::Bc5)[..16].to_vec()),
    ];
    for (name, x, y) in checks {
        if x != &y[..] {
            return Err(format!("{} changes from {} to {} with other channels or parameters: {} versus rgba=[{}] {}", name, hex(x), hex(&y), c.show(), show_block(&d.rgba), show_params(&d.params)));
        }
    }
    if !c.params.weigh_colour_by_alpha {
        o.label("colour half without alpha");
        let mut e = c.clone();
        for i in 0..16 {
            e.rgba[i][3] = d.rgba[i][3];
        }
        for (f, x) in [(Format::Bc2, &b2), (Format::Bc3, &b3)] {
            let y = of(&e, f);
            if x[8..] != y[8..] {
                return Err(format!("{:?}: the colour half depends on alpha: {} and {}: {} versus rgba=[{}]", f, hex(&x[8..]), hex(&y[8..]), c.show(), show_block(&e.rgba)));
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C24: endpoint order

fn c24(s: &mut Src, o: &mut Obs) -> Verdict {
    let c = gen::case(s, &[Format::Bc2, Format::Bc3]);
    c24_case(o, &c)
}

pub fn c24_case(o: &mut Obs, c: &Case) -> Verdict {
    o.describe(|| c.show());
    o.key(c.key(), c.mask & 0xffff != 0);
    o.calls += 1;
    let out = compress(c);
    let half = &out[8..16];
    let (p, q) = (spec::le16(&half[0..2]), spec::le16(&half[2..4]));
    o.label(if p == q { "equal endpoints" } else { "different endpoints" });
    if distinct_considered(c) == 1 {
        o.label("one colour");
    }
    let (strict, lax) = (spec::decode_block(Format::Bc1, half), spec::decode_block(c.format, &out));
    for i in 0..16 {
        if strict[i] != [lax[i][0], lax[i][1], lax[i][2], 255] {
            return Err(format!(
                "pixel {} of the colour half {} is {:?} for a decoder that honours the endpoint order, {:?} for others: {}",
                i, hex(half), strict[i], &lax[i][..3], c.show()
            ));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C18: allocation (judged by the runner's allocator)

fn c18(s: &mut Src, o: &mut Obs) -> Verdict {
    use crate::alloc::counted;
    if s.one_in(6) {
        let f = s.pick(&FORMATS);
        let p = gen::params(s);
        let (w, h) = image_dims(s, if p.algorithm == Algorithm::RangeFit { 6000 } else { 900 });
        let px = image(s, w, h);
        let mut out = vec![0u8; spec::compressed_size(f, w, h)];
        let mut back = vec![0u8; w * h * 4];
        o.describe(|| format!("{:?} {}x{} {}", f, w, h, show_params(&p)));
        o.key(fnv(spec_tag(f).into(), &px) ^ (w * 7919 + h) as u64, w * h > 0);
        o.calls += 3;
        o.label("images");
        let n = counted(|| {
            std::hint::black_box(f.compressed_size(w, h));
            f.compress(&px, w, h, p, &mut out);
            f.decompress(&out, w, h, &mut back);
        });
        if n > 0 {
            return Err(format!("{} heap operations for {:?} {}x{} {}", n, f, w, h, show_params(&p)));
        }
    } else {
        let mut c = gen::case(s, &FORMATS);
        if s.one_in(3) {
            c.params.weights = [wild_weight(s), wild_weight(s), wild_weight(s)];
        }
        o.describe(|| c.show());
        o.key(c.key(), true);
        o.calls += 2;
        o.label("blocks");
        let mut out = [0u8; 16];
        let n = counted(|| {
            compress_into(&c, &mut out[..spec::block_size(c.format)]);
            std::hint::black_box(c.format.decompress_block(&out));
        });
        if n > 0 {
            return Err(format!("{} heap operations for {}", n, c.show()));
        }
    }
    Ok(())
}

/// Runs one case of a property
pub fn check(id: &str, s: &mut Src, o: &mut Obs) -> Verdict {
    match id {
        "C01" => c01(s, o),
        "C02" => c02(s, o),
        "C03" => c03(s, o),
        "C04" => c04(s, o),
        "C06" => c06(s, o),
        "C07" => c07(s, o),
        "C08" => c08(s, o),
        "C09" => c09(s, o),
        "C10" => c10(s, o),
        "C11" => c11(s, o),
        "C12" => c12(s, o),
        "C13" => c13(s, o),
        "C14" => c14(s, o),
        "C15" => c15(s, o),
        "C16" => c16(s, o),
        "C18" => c18(s, o),
        "C24" => c24(s, o),
        "C25" => crate::cost::c25(s, o),
        "C26" => crate::sizes::c26(s, o),
        "C29" => crate::same::c29(s, o),
        "C30" => crate::same::c30(s, o),
        "C33" => crate::same::c33(s, o),
        _ => Err(format!("no such check: {}", id)),
    }
}
