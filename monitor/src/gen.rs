//! Structured generators: blocks, masks, alphas, weights, image sizes.

use crate::spec::Block;
use crate::src::Src;
pub use texpresso::{Algorithm, Format, Params};

pub const FORMATS: [Format; 5] = [Format::Bc1, Format::Bc2, Format::Bc3, Format::Bc4, Format::Bc5];
pub const COLOUR_FORMATS: [Format; 3] = [Format::Bc1, Format::Bc2, Format::Bc3];
pub const ALGS: [Algorithm; 3] =
    [Algorithm::RangeFit, Algorithm::ClusterFit, Algorithm::IterativeClusterFit];

pub fn alg_name(a: Algorithm) -> &'static str {
    match a {
        Algorithm::RangeFit => "range",
        Algorithm::ClusterFit => "cluster",
        Algorithm::IterativeClusterFit => "iterative",
    }
}

#[derive(Clone)]
pub struct Case {
    pub format: Format,
    pub rgba: Block,
    pub mask: u32,
    pub params: Params,
}

pub fn show_params(p: &Params) -> String {
    format!(
        "{} weights={:?} (bits {:08x},{:08x},{:08x}) by_alpha={}",
        alg_name(p.algorithm),
        p.weights,
        p.weights[0].to_bits(),
        p.weights[1].to_bits(),
        p.weights[2].to_bits(),
        p.weigh_colour_by_alpha
    )
}

pub fn show_block(b: &Block) -> String {
    b.iter().map(|p| format!("{:02x}{:02x}{:02x}{:02x}", p[0], p[1], p[2], p[3])).collect::<Vec<_>>().join(" ")
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|v| format!("{:02x}", v)).collect()
}

impl Case {
    pub fn show(&self) -> String {
        format!(
            "{:?} mask={:08x} {} rgba=[{}]",
            self.format,
            self.mask,
            show_params(&self.params),
            show_block(&self.rgba)
        )
    }

    pub fn key(&self) -> u64 {
        let mut v = Vec::with_capacity(96);
        for p in &self.rgba {
            v.extend_from_slice(p);
        }
        v.extend_from_slice(&self.mask.to_le_bytes());
        for w in self.params.weights {
            v.extend_from_slice(&w.to_bits().to_le_bytes());
        }
        v.push(self.params.weigh_colour_by_alpha as u8);
        v.extend_from_slice(alg_name(self.params.algorithm).as_bytes());
        v.push(spec_tag(self.format));
        crate::src::fnv(0, &v)
    }
}

pub fn spec_tag(f: Format) -> u8 {
    match f {
        Format::Bc1 => 1,
        Format::Bc2 => 2,
        Format::Bc3 => 3,
        Format::Bc4 => 4,
        Format::Bc5 => 5,
    }
}

fn clamp(v: i32) -> u8 {
    v.clamp(0, 255) as u8
}

fn colour(s: &mut Src) -> [u8; 3] {
    [s.value(), s.value(), s.value()]
}

/// A colour exactly representable in 5:6:5
pub fn colour565(s: &mut Src) -> [u8; 3] {
    let v = crate::spec::widen565(s.u16());
    [v[0] as u8, v[1] as u8, v[2] as u8]
}

pub const FAMILIES: usize = 20;

/// Fills the colour channels with one of many kinds of content
pub fn colours(s: &mut Src, family: usize) -> Block {
    let mut b: Block = [[0, 0, 0, 255]; 16];
    match family {
        // independent values
        0 => {
            for p in b.iter_mut() {
                let c = colour(s);
                p[..3].copy_from_slice(&c);
            }
        }
        // palette of n colours
        1 => {
            let n = s.range(1, 16);
            let pal: Vec<[u8; 3]> = (0..n).map(|_| colour(s)).collect();
            for p in b.iter_mut() {
                let c = pal[s.below(n)];
                p[..3].copy_from_slice(&c);
            }
        }
        // exactly n distinct colours, each used at least once
        2 => {
            let n = s.range(2, 16);
            let mut pal: Vec<[u8; 3]> = Vec::new();
            while pal.len() < n {
                let mut c = colour(s);
                while pal.contains(&c) {
                    c[s.below(3)] = c[s.below(3)].wrapping_add(1);
                    c[0] = c[0].wrapping_add(1);
                }
                pal.push(c);
            }
            let mut idx: Vec<usize> = (0..n).collect();
            while idx.len() < 16 {
                idx.push(s.below(n));
            }
            s.shuffle(&mut idx);
            for i in 0..16 {
                b[i][..3].copy_from_slice(&pal[idx[i]]);
            }
        }
        // colours on a line, with noise
        3 | 4 => {
            let (c, d) = (colour(s), colour(s));
            let noise = if family == 3 { 0 } else { s.pick(&[1, 2, 4, 8, 16, 32]) };
            let steps = s.range(1, 15);
            for p in b.iter_mut() {
                let t = s.below(steps + 1) as i32;
                for ch in 0..3 {
                    let base = (i32::from(c[ch]) * (steps as i32 - t) + i32::from(d[ch]) * t) / steps as i32;
                    let n = if noise > 0 { s.below(2 * noise + 1) as i32 - noise as i32 } else { 0 };
                    p[ch] = clamp(base + n);
                }
            }
        }
        // smooth two-dimensional gradient
        5 => {
            let c = colour(s);
            let mut g = [[0i32; 2]; 3];
            for ch in g.iter_mut() {
                *ch = [s.below(61) as i32 - 30, s.below(61) as i32 - 30];
            }
            for i in 0..16 {
                for ch in 0..3 {
                    b[i][ch] = clamp(i32::from(c[ch]) + g[ch][0] * (i % 4) as i32 + g[ch][1] * (i / 4) as i32);
                }
            }
        }
        // greys, or almost
        6 => {
            let noise = s.below(3);
            for p in b.iter_mut() {
                let v = s.value();
                for ch in 0..3 {
                    p[ch] = clamp(i32::from(v) + s.below(2 * noise + 1) as i32 - noise as i32);
                }
            }
        }
        // variation in one channel only
        7 => {
            let c = colour(s);
            let ch = s.below(3);
            for p in b.iter_mut() {
                p[..3].copy_from_slice(&c);
                p[ch] = s.value();
            }
        }
        // variation in two channels
        8 => {
            let c = colour(s);
            let skip = s.below(3);
            for p in b.iter_mut() {
                for ch in 0..3 {
                    p[ch] = if ch == skip { c[ch] } else { s.value() };
                }
            }
        }
        // only extreme values
        9 => {
            for p in b.iter_mut() {
                for ch in 0..3 {
                    p[ch] = if s.one_in(2) { 255 } else { 0 };
                }
            }
        }
        // two colours
        10 => {
            let (c, d) = (colour(s), colour(s));
            let pattern = s.u16();
            for i in 0..16 {
                b[i][..3].copy_from_slice(if pattern >> i & 1 == 1 { &c } else { &d });
            }
        }
        // two near colours
        11 => {
            let c = colour(s);
            let mut d = c;
            for _ in 0..s.range(1, 3) {
                let ch = s.below(3);
                d[ch] = d[ch].wrapping_add(s.pick(&[1u8, 255, 2, 254, 4, 252, 8, 248]));
            }
            let pattern = s.u16();
            for i in 0..16 {
                b[i][..3].copy_from_slice(if pattern >> i & 1 == 1 { &c } else { &d });
            }
        }
        // small noise around one colour
        12 => {
            let c = colour(s);
            let n = s.pick(&[1usize, 2, 3, 5, 9, 20]);
            for p in b.iter_mut() {
                for ch in 0..3 {
                    p[ch] = clamp(i32::from(c[ch]) + s.below(2 * n + 1) as i32 - n as i32);
                }
            }
        }
        // one odd pixel out
        13 => {
            let (c, d) = (colour(s), colour(s));
            let at = s.below(16);
            for (i, p) in b.iter_mut().enumerate() {
                p[..3].copy_from_slice(if i == at { &d } else { &c });
            }
        }
        // representable colours
        14 => {
            let n = s.range(1, 16);
            let pal: Vec<[u8; 3]> = (0..n).map(|_| colour565(s)).collect();
            for p in b.iter_mut() {
                let c = pal[s.below(n)];
                p[..3].copy_from_slice(&c);
            }
        }
        // opposite changes in two channels: orthogonal to grey
        15 => {
            let (x, y) = (s.below(3), s.below(2));
            let y = if y >= x { y + 1 } else { y };
            let c = [s.range(60, 195) as i32, s.range(60, 195) as i32, s.range(60, 195) as i32];
            for p in b.iter_mut() {
                let t = s.below(121) as i32 - 60;
                for ch in 0..3 {
                    p[ch] = clamp(c[ch] + if ch == x { t } else if ch == y { -t } else { 0 });
                }
            }
        }
        // a hard edge between two noisy areas
        16 => {
            let (c, d) = (colour(s), colour(s));
            let n = s.pick(&[1usize, 3, 9]);
            let (nx, ny, off) = (s.below(7) as i32 - 3, s.below(7) as i32 - 3, s.below(19) as i32 - 9);
            for i in 0..16 {
                let side = nx * (i % 4) as i32 + ny * (i / 4) as i32 > off;
                for ch in 0..3 {
                    let base = if side { c[ch] } else { d[ch] };
                    b[i][ch] = clamp(i32::from(base) + s.below(2 * n + 1) as i32 - n as i32);
                }
            }
        }
        // pairs symmetric about a centre: ties everywhere
        17 => {
            for i in 0..8 {
                let c = colour(s);
                b[i][..3].copy_from_slice(&c);
                for ch in 0..3 {
                    b[15 - i][ch] = 255 - c[ch];
                }
            }
        }
        // one colour
        18 => {
            let c = colour(s);
            for p in b.iter_mut() {
                p[..3].copy_from_slice(&c);
            }
        }
        // a few well separated clusters, slightly noisy
        _ => {
            let n = s.range(2, 5);
            let pal: Vec<[u8; 3]> = (0..n).map(|_| colour(s)).collect();
            for p in b.iter_mut() {
                let c = pal[s.below(n)];
                for ch in 0..3 {
                    p[ch] = clamp(i32::from(c[ch]) + s.below(5) as i32 - 2);
                }
            }
        }
    }
    b
}

pub const ALPHA_FAMILIES: usize = 9;

pub fn alphas(s: &mut Src, b: &mut Block, family: usize) {
    match family {
        0 => {}
        1 => b.iter_mut().for_each(|p| p[3] = s.value()),
        2 => b.iter_mut().for_each(|p| p[3] = s.pick(&[127, 128])),
        3 => b.iter_mut().for_each(|p| p[3] = s.pick(&[0, 255])),
        4 => {
            let v = s.value();
            b.iter_mut().for_each(|p| p[3] = v);
        }
        5 => {
            let (lo, step) = (s.value(), s.below(18) as u8);
            for (i, p) in b.iter_mut().enumerate() {
                p[3] = lo.saturating_add(step * i as u8);
            }
        }
        6 => {
            let at = s.below(16);
            b[at][3] = s.value();
        }
        7 => b.iter_mut().for_each(|p| p[3] = s.pick(&[0, 1, 126, 127, 128, 129, 254, 255])),
        _ => {
            let n = s.range(1, 4);
            let pal: Vec<u8> = (0..n).map(|_| s.value()).collect();
            b.iter_mut().for_each(|p| p[3] = pal[s.below(n)]);
        }
    }
}

/// Values of one channel, as compress_bc3 sees them
pub fn channel_values(s: &mut Src) -> [u8; 16] {
    let mut v = [0u8; 16];
    match s.below(9) {
        0 => v.iter_mut().for_each(|x| *x = s.value()),
        1 => {
            let (a, b) = (s.u8(), s.u8());
            let (lo, hi) = (a.min(b), a.max(b));
            v.iter_mut().for_each(|x| *x = lo + s.below(usize::from(hi - lo) + 1) as u8);
        }
        2 => {
            // a narrow range, plus zeros and 255s
            let (lo, n) = (s.u8(), s.range(1, 12));
            v.iter_mut().for_each(|x| {
                *x = match s.below(6) {
                    0 => 0,
                    1 => 255,
                    _ => lo.saturating_add(s.below(n) as u8),
                }
            });
        }
        3 => {
            let pal = [s.value(), s.value()];
            v.iter_mut().for_each(|x| *x = s.pick(&pal));
        }
        4 => {
            let c = s.value();
            v.iter_mut().for_each(|x| *x = c);
        }
        5 => {
            let (lo, step) = (s.value(), s.below(18) as u8);
            for (i, x) in v.iter_mut().enumerate() {
                *x = lo.saturating_add(step.wrapping_mul(i as u8));
            }
        }
        6 => v.iter_mut().for_each(|x| *x = s.pick(&[0, 255])),
        7 => {
            // near an end of the scale
            let top = s.one_in(2);
            let n = s.range(1, 14);
            v.iter_mut().for_each(|x| {
                let d = s.below(n) as u8;
                *x = if top { 255 - d } else { d };
            });
        }
        _ => {
            // values on the levels of an eight-level palette, and just beside them
            let (a, b) = (s.u8(), s.u8());
            let pal = crate::spec::channel_palette(a.max(b), a.min(b));
            v.iter_mut().for_each(|x| {
                *x = clamp(i32::from(s.pick(&pal)) + s.below(3) as i32 - 1);
            });
        }
    }
    v
}

pub fn mask(s: &mut Src) -> u32 {
    match s.below(10) {
        0..=3 => 0xffff,
        4 => u32::from(s.u16()),
        5 | 6 => edge_mask(s.range(1, 4), s.range(1, 4)),
        7 => {
            // few pixels
            let mut m = 0;
            for _ in 0..s.range(1, 3) {
                m |= 1 << s.below(16);
            }
            m
        }
        8 => {
            // few missing
            let mut m = 0xffff;
            for _ in 0..s.range(1, 3) {
                m &= !(1 << s.below(16));
            }
            m
        }
        _ => match s.below(8) {
            0 => 0,
            1 => 0x5555,
            2 => 0xaaaa,
            3 => s.hint(65536) as u32,
            _ => u32::from(s.u16()),
        },
    }
}

/// The mask of a w x h corner of a block
pub fn edge_mask(w: usize, h: usize) -> u32 {
    let mut m = 0;
    for y in 0..h {
        for x in 0..w {
            m |= 1 << (4 * y + x);
        }
    }
    m
}

/// Finite weights within 0..=1000
pub fn weights(s: &mut Src) -> [f32; 3] {
    match s.below(10) {
        0..=2 => [1.0; 3],
        3 | 4 => texpresso::COLOUR_WEIGHTS_PERCEPTUAL,
        5 | 6 => [s.unit(), s.unit(), s.unit()],
        7 => {
            let p = [1.0, 0.0, 0.5, 2.0, 10.0, 100.0, 1000.0, 0.1, 0.001];
            [s.pick(&p), s.pick(&p), s.pick(&p)]
        }
        8 => {
            let mut w = [0.0; 3];
            w[s.below(3)] = 1.0;
            if s.one_in(2) {
                w[s.below(3)] = s.unit();
            }
            w
        }
        _ => [1000.0 * s.unit(), s.unit(), 30.0 * s.unit()],
    }
}

/// Weights that are all positive and within four orders of magnitude
pub fn positive_weights(s: &mut Src) -> [f32; 3] {
    let w = weights(s);
    [w[0].max(0.03125), w[1].max(0.03125), w[2].max(0.03125)]
}

pub fn params(s: &mut Src) -> Params {
    Params { algorithm: s.pick(&ALGS), weights: weights(s), weigh_colour_by_alpha: s.one_in(3) }
}

pub fn block(s: &mut Src) -> (Block, usize) {
    if s.is_fuzz() && s.below(4) != 0 {
        let mut b = [[0u8; 4]; 16];
        for p in b.iter_mut() {
            for c in p.iter_mut() {
                *c = s.u8();
            }
        }
        return (b, FAMILIES);
    }
    let family = s.below(FAMILIES);
    let mut b = colours(s, family);
    let af = s.below(2 * ALPHA_FAMILIES).saturating_sub(ALPHA_FAMILIES - 1);
    alphas(s, &mut b, af);
    // now and then overwrite a pixel with hinted values
    if !s.is_fuzz() && s.one_in(8) {
        let i = s.below(16);
        for c in b[i].iter_mut() {
            *c = s.hint(256) as u8;
        }
    }
    (b, family)
}

pub fn case(s: &mut Src, formats: &[Format]) -> Case {
    let format = s.pick(formats);
    let params = params(s);
    let mask = mask(s);
    let (rgba, _) = block(s);
    Case { format, rgba, mask, params }
}

/// Image dimensions for cheap formats, from empty to long and thin
pub fn dimensions(s: &mut Src, max_pixels: usize) -> (usize, usize) {
    loop {
        let (w, h) = match s.below(12) {
            0 => (s.below(5), s.below(5)),
            1..=4 => (s.range(1, 24), s.range(1, 24)),
            5 => (s.range(1, 70), s.range(1, 70)),
            6 => (s.range(1, 8), s.range(1, 2000)),
            7 => (s.range(1, 2000), s.range(1, 8)),
            8 => (s.hint(1200), s.range(1, 20)),
            9 => (s.range(1, 20), s.hint(1200)),
            10 => (s.range(1, 300), s.range(1, 300)),
            _ => {
                let p = 1usize << s.range(2, 10);
                let q = 1usize << s.range(2, 10);
                (p + s.below(5) - 2, q + s.below(5) - 2)
            }
        };
        if w * h <= max_pixels {
            return (w, h);
        }
    }
}
