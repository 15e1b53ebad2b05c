//! What the formats mean, written from the format definitions and sharing no code with the library.

use texpresso::Format;

pub type Block = [[u8; 4]; 16];

pub fn le16(b: &[u8]) -> u16 {
    u16::from(b[0]) + 256 * u16::from(b[1])
}

/// Widens a 5:6:5 colour by bit replication, through the rounding-free definition
pub fn widen565(v: u16) -> [u32; 3] {
    let r = u32::from(v / 2048);
    let g = u32::from(v / 32 % 64);
    let b = u32::from(v % 32);
    [r * 8 + r / 4, g * 4 + g / 16, b * 8 + b / 4]
}

/// The four entries of a colour block and whether it is in the three-colour mode
pub fn colour_palette(block: &[u8], bc1: bool) -> ([[u8; 4]; 4], bool) {
    let (p, q) = (le16(&block[0..2]), le16(&block[2..4]));
    let (c0, c1) = (widen565(p), widen565(q));
    let three = bc1 && p <= q;
    let mut pal = [[0u8, 0, 0, 255]; 4];
    for ch in 0..3 {
        pal[0][ch] = c0[ch] as u8;
        pal[1][ch] = c1[ch] as u8;
        if three {
            pal[2][ch] = ((c0[ch] + c1[ch]) / 2) as u8;
            pal[3][ch] = 0;
        } else {
            pal[2][ch] = ((2 * c0[ch] + c1[ch]) / 3) as u8;
            pal[3][ch] = ((c0[ch] + 2 * c1[ch]) / 3) as u8;
        }
    }
    if three {
        pal[3][3] = 0;
    }
    (pal, three)
}

pub fn colour_index(block: &[u8], i: usize) -> usize {
    usize::from(block[4 + i / 4] / [1, 4, 16, 64][i % 4] % 4)
}

pub fn decode_colour(block: &[u8], bc1: bool) -> Block {
    let (pal, _) = colour_palette(block, bc1);
    let mut out = [[0u8; 4]; 16];
    for (i, p) in out.iter_mut().enumerate() {
        *p = pal[colour_index(block, i)];
    }
    out
}

/// The eight values of an interpolated channel block
pub fn channel_palette(e0: u8, e1: u8) -> [u8; 8] {
    let (a, b) = (u32::from(e0), u32::from(e1));
    let mut pal = [e0, e1, 0, 0, 0, 0, 0, 255];
    if e0 > e1 {
        for k in 1..7 {
            pal[1 + k as usize] = (((7 - k) * a + k * b) / 7) as u8;
        }
    } else {
        for k in 1..5 {
            pal[1 + k as usize] = (((5 - k) * a + k * b) / 5) as u8;
        }
    }
    pal
}

pub fn channel_index(block: &[u8], i: usize) -> usize {
    let mut bits = 0u64;
    for k in (2..8).rev() {
        bits = bits * 256 + u64::from(block[k]);
    }
    (bits >> (3 * i)) as usize % 8
}

pub fn decode_channel(block: &[u8]) -> [u8; 16] {
    let pal = channel_palette(block[0], block[1]);
    let mut out = [0u8; 16];
    for (i, v) in out.iter_mut().enumerate() {
        *v = pal[channel_index(block, i)];
    }
    out
}

pub fn decode_bc2_alpha(block: &[u8]) -> [u8; 16] {
    let mut out = [0u8; 16];
    for (i, v) in out.iter_mut().enumerate() {
        let nibble = if i % 2 == 0 { block[i / 2] % 16 } else { block[i / 2] / 16 };
        *v = nibble * 17;
    }
    out
}

pub fn decode_block(format: Format, block: &[u8]) -> Block {
    let mut out = [[0u8, 0, 0, 255]; 16];
    match format {
        Format::Bc1 => out = decode_colour(&block[..8], true),
        Format::Bc2 | Format::Bc3 => {
            out = decode_colour(&block[8..16], false);
            let alpha = if format == Format::Bc2 {
                decode_bc2_alpha(&block[..8])
            } else {
                decode_channel(&block[..8])
            };
            for i in 0..16 {
                out[i][3] = alpha[i];
            }
        }
        Format::Bc4 => {
            let v = decode_channel(&block[..8]);
            for i in 0..16 {
                out[i] = [v[i], v[i], v[i], 255];
            }
        }
        Format::Bc5 => {
            let r = decode_channel(&block[..8]);
            let g = decode_channel(&block[8..16]);
            for i in 0..16 {
                out[i] = [r[i], g[i], 0, 255];
            }
        }
    }
    out
}

pub fn block_size(format: Format) -> usize {
    match format {
        Format::Bc1 | Format::Bc4 => 8,
        _ => 16,
    }
}

pub fn blocks(size: usize) -> usize {
    size / 4 + usize::from(size % 4 != 0)
}

pub fn compressed_size(format: Format, w: usize, h: usize) -> usize {
    blocks(w) * blocks(h) * block_size(format)
}
