//! Library calls that need no heap, no operating system and no floating-point unit of their own.

pub struct Buffers {
    pub pixels: [u8; 4 * PIXELS],
    pub data: [u8; DATA],
}

pub const SIDE: usize = 20;
/// Most pixels of an image, and bytes of blocks
pub const PIXELS: usize = 1 << 18;
pub const DATA: usize = 1 << 21;

impl Buffers {
    pub const fn new() -> Buffers {
        Buffers { pixels: [0; 4 * PIXELS], data: [0; DATA] }
    }
}

struct Rng(u64);

impl Rng {
    fn next(&mut self) -> u32 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        (self.0 >> 32) as u32
    }
    fn below(&mut self, n: u32) -> u32 {
        self.next() % n
    }
}

fn mix(seed: u64, i: u32) -> u64 {
    let mut z = seed.wrapping_mul(0x9E37_79B9_7F4A_7C15).wrapping_add(u64::from(i) * 0xBF58_476D_1CE4_E5B9);
    z ^= z >> 29;
    z.wrapping_mul(0x94D0_49BB_1331_11EB) | 1
}

fn hash(mut h: u64, data: &[u8]) -> u64 {
    for &b in data {
        h = (h ^ u64::from(b)).wrapping_mul(0x100_0000_01b3);
    }
    h
}

/// Width and height: mostly small, now and then thousands of pixels one way or hundreds both ways
#[cfg(feature = "library")]
fn dims(r: &mut Rng) -> (usize, usize) {
    let small = 1 + r.below(SIDE as u32) as usize;
    match r.below(60) {
        0 => (1 + r.below(9) as usize, 1 + r.below(29000) as usize),
        1 => (1 + r.below(29000) as usize, 1 + r.below(9) as usize),
        2 => (1 + r.below(500) as usize, 1 + r.below(500) as usize),
        _ => (small, 1 + r.below(SIDE as u32) as usize),
    }
}

fn content(r: &mut Rng, out: &mut [u8]) {
    let n = out.len();
    if n > 8000 {
        // busy at both ends only: floating point is slow here
        let v = r.next();
        out.iter_mut().enumerate().for_each(|(i, b)| *b = (v >> (8 * (i % 4))) as u8);
        content(r, &mut out[..2000]);
        return content(r, &mut out[n - 2000..]);
    }
    let kind = r.below(5);
    let (a, b) = (r.next(), r.next());
    for (i, v) in out.iter_mut().enumerate() {
        let n = r.next();
        *v = match kind {
            0 => n as u8,
            1 => (if n >> 8 & 1 == 0 { a } else { b } >> (8 * (i % 4))) as u8,
            2 => ((a >> (8 * (i % 4))) as u8).wrapping_add((n & 15) as u8),
            3 => (i / 4 * 3) as u8 ^ (a >> (8 * (i % 4))) as u8 & 7,
            _ => (a >> (8 * (i % 4))) as u8,
        };
    }
}

/// Job i of a list: a digest of its inputs, and one of its results
#[cfg(feature = "library")]
pub fn job(seed: u64, i: u32, b: &mut Buffers) -> (u64, u64) {
    use texpresso::*;
    let r = &mut Rng(mix(seed, i));
    let format = [Format::Bc1, Format::Bc2, Format::Bc3, Format::Bc4, Format::Bc5][r.below(5) as usize];
    let algorithm = [Algorithm::RangeFit, Algorithm::ClusterFit, Algorithm::IterativeClusterFit][r.below(3) as usize];
    let mut params = Params { algorithm, weights: COLOUR_WEIGHTS_UNIFORM, weigh_colour_by_alpha: r.below(2) == 0 };
    match r.below(4) {
        0 => params = Params { algorithm, ..Params::default() },
        1 => params.weights = [r.below(100) as f32 / 32.0, r.below(100) as f32 / 32.0, r.below(100) as f32 / 32.0],
        2 => params.weights = COLOUR_WEIGHTS_PERCEPTUAL,
        _ => {}
    }
    let bs = format.block_size();
    match r.below(4) {
        0 => {
            let mut px = [0u8; 64];
            content(r, &mut px);
            let mut block = [[0u8; 4]; 16];
            for (p, c) in block.iter_mut().zip(px.chunks(4)) {
                p.copy_from_slice(c);
            }
            let mask = if r.below(2) == 0 { 0xffff } else { r.next() };
            let mut out = [0u8; 16];
            format.compress_block_masked(block, mask, params, &mut out[..bs]);
            (hash(u64::from(mask) + 1, &px), hash(11, &out))
        }
        1 => {
            let mut data = [0u8; 16];
            content(r, &mut data);
            let px = format.decompress_block(&data[..bs]);
            let mut h = 12;
            for p in px {
                h = hash(h, &p);
            }
            (hash(2, &data), h)
        }
        2 => {
            let (w, h) = dims(r);
            let px = &mut b.pixels[..4 * w * h];
            content(r, px);
            let out = &mut b.data[..format.compressed_size(w, h)];
            out.iter_mut().for_each(|v| *v = 0xaa);
            format.compress(px, w, h, params, out);
            (hash((w * 100_000 + h) as u64, px), hash(13, out))
        }
        _ => {
            let (w, h) = dims(r);
            let data = &mut b.data[..num_blocks(w) * num_blocks(h) * bs];
            content(r, data);
            let px = &mut b.pixels[..4 * w * h];
            px.iter_mut().for_each(|v| *v = 0x55);
            format.decompress(data, w, h, px);
            (hash((w * 100_000 + h) as u64, data), hash(14, px))
        }
    }
}

#[cfg(not(feature = "library"))]
pub fn job(seed: u64, i: u32, b: &mut Buffers) -> (u64, u64) {
    let r = &mut Rng(mix(seed, i));
    let n = 1 + r.below(300) as usize;
    content(r, &mut b.pixels[..n]);
    content(r, &mut b.data[..n]);
    (hash(1, &b.pixels[..n]), hash(2, &b.data[..n]))
}
