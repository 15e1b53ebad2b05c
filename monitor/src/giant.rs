//! Images beyond 2^24 pixels a side and 2^32 bytes: mostly empty, with marked blocks, judged completely.
//! For C18, images of millions of pixels, during which nothing may be allocated.

use crate::alloc::counted;
use crate::checks::{self, Verdict};
use crate::gen::{self, *};
use crate::obs::Obs;
use crate::spec::{self, Block};
use crate::src::Src;
use std::collections::BTreeMap;
use texpresso::{Algorithm, Format, Params};

/// Memory that may be used, in bytes
fn available() -> u64 {
    let text = std::fs::read_to_string("/proc/meminfo").unwrap_or_default();
    let line = text.lines().find(|l| l.starts_with("MemAvailable")).unwrap_or("");
    line.split_whitespace().nth(1).and_then(|v| v.parse::<u64>().ok()).unwrap_or(0) * 1024
}

/// Zeroes that take no memory until written
fn zeroes(n: usize) -> Option<Vec<u8>> {
    let mut v: Vec<u8> = Vec::new();
    v.try_reserve_exact(n).ok()?;
    drop(v);
    Some(vec![0u8; n])
}

/// Blocks of an image at which an index, a byte offset or a pixel number passes a power of two, and some others
fn marks(s: &mut Src, w: usize, h: usize, bs: usize) -> Vec<usize> {
    let (wide, high) = (spec::blocks(w), spec::blocks(h));
    let n = wide * high;
    let mut at = vec![0, n - 1, wide - 1, n - wide, n / 2];
    for p in 16..36 {
        let v = 1usize << p;
        // block number, compressed byte, column, column byte, pixel, pixel byte
        at.extend([v, v / bs, v / 4, v / 16, v / w / 4 * wide + v % w / 4, v / 4 / w / 4 * wide + v / 4 % w / 4]);
        // rows
        at.extend([(v / 4).saturating_mul(wide), (v / 16).saturating_mul(wide)]);
    }
    at.extend((0..200).map(|_| (s.u64() % n as u64) as usize));
    let mut all: Vec<usize> = at.iter().flat_map(|&i| [i.saturating_sub(1), i, i.saturating_add(1)]).filter(|&i| i < n).collect();
    all.sort_unstable();
    all.dedup();
    all
}

/// Whether f holds for every chunk of size `step` of `data` (with its number), on several threads
fn all_chunks(data: &[u8], step: usize, threads: usize, f: &(dyn Fn(usize, &[u8]) -> Result<(), String> + Sync)) -> Result<(), String> {
    let n = data.len().div_ceil(step);
    let per = n.div_ceil(threads).max(1);
    std::thread::scope(|sc| {
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                sc.spawn(move || {
                    for i in (t * per).min(n)..((t + 1) * per).min(n) {
                        f(i, &data[i * step..data.len().min((i + 1) * step)])?;
                    }
                    Ok(())
                })
            })
            .collect();
        let mut r = Ok(());
        for h in hs {
            let one: Result<(), String> = h.join().expect("worker");
            if r.is_ok() {
                r = one;
            }
        }
        r
    })
}

pub fn decompress(s: &mut Src, o: &mut Obs, f: Format, w: usize, h: usize, alone: bool) -> Verdict {
    let bs = spec::block_size(f);
    let need = spec::compressed_size(f, w, h);
    let size = 4 * w * h;
    if available() < (size + need) as u64 + (3 << 30) {
        o.label("skipped: too little memory");
        return Ok(());
    }
    let (Some(mut data), Some(mut out)) = (zeroes(need), zeroes(size)) else {
        o.label("skipped: no memory");
        return Ok(());
    };
    let wide = spec::blocks(w);
    let mut marked: BTreeMap<usize, Block> = BTreeMap::new();
    for i in marks(s, w, h, bs) {
        let at = i * bs;
        data[at..at + bs].iter_mut().for_each(|v| *v = s.u8());
        marked.insert(i, spec::decode_block(f, &data[at..at + bs]));
    }
    let plain = spec::decode_block(f, &vec![0; bs])[0];
    o.key(w as u64 * 7919 + h as u64, true);
    o.calls += 1;
    o.add("pixels", (w * h) as u64);
    o.max("max width", w as u64);
    o.max("max height", h as u64);
    o.max("max image bytes", size as u64);
    o.describe(|| format!("{:?} {}x{}, {} blocks marked", f, w, h, marked.len()));
    let n = counted(|| f.decompress(&data, w, h, &mut out));
    if alone && n > 0 {
        return Err(format!("{} heap operations while decompressing {:?} {}x{}", n, f, w, h));
    }
    // marked pixels, then everything else
    for (&i, px) in &marked {
        let (bx, by) = (i % wide, i / wide);
        for y in 4 * by..h.min(4 * by + 4) {
            for x in 4 * bx..w.min(4 * bx + 4) {
                let at = 4 * (y * w + x);
                if out[at..at + 4] != px[4 * (y % 4) + x % 4] {
                    return Err(format!("{:?} {}x{}: pixel ({},{}) is {:?}, its block says {:?}", f, w, h, x, y, &out[at..at + 4], px[4 * (y % 4) + x % 4]));
                }
                out[at..at + 4].copy_from_slice(&plain);
            }
        }
    }
    let page: Vec<u8> = plain.repeat(4096);
    all_chunks(&out, page.len(), 8, &|i, c| {
        if c != &page[..c.len()] {
            let k = c.chunks(4).position(|p| p != plain).unwrap_or(0) + i * 4096;
            return Err(format!("{:?} {}x{}: pixel ({},{}) is not what its empty block says", f, w, h, k % w, k / w));
        }
        Ok(())
    })
}

pub fn compress(s: &mut Src, o: &mut Obs, f: Format, w: usize, h: usize, algorithm: Algorithm, alone: bool) -> Verdict {
    let bs = spec::block_size(f);
    let need = spec::compressed_size(f, w, h);
    let size = 4 * w * h;
    // empty blocks cost the same with any
    let params = Params { algorithm, ..gen::params(s) };
    if f.compressed_size(w, h) != need {
        return Err(format!("{:?} {}x{}: compressed_size is {}, the format says {}", f, w, h, f.compressed_size(w, h), need));
    }
    // the input stays unmapped zeroes but for its marks
    if available() < need as u64 + (4 << 30) {
        o.label("skipped: too little memory");
        return Ok(());
    }
    let (Some(mut px), Some(mut out)) = (zeroes(size), zeroes(need)) else {
        o.label("skipped: no memory");
        return Ok(());
    };
    let wide = spec::blocks(w);
    let high = spec::blocks(h);
    let at = marks(s, w, h, bs);
    for &i in &at {
        let (bx, by) = (i % wide, i / wide);
        for y in 4 * by..h.min(4 * by + 4) {
            for x in 4 * bx..w.min(4 * bx + 4) {
                let k = 4 * (y * w + x);
                px[k..k + 4].iter_mut().for_each(|v| *v = s.u8());
            }
        }
    }
    o.key(w as u64 * 7919 + h as u64, true);
    o.calls += 1;
    o.add("pixels", (w * h) as u64);
    o.max("max width", w as u64);
    o.max("max height", h as u64);
    o.max("max image bytes", size as u64);
    o.describe(|| format!("{:?} {}x{} {}, {} blocks marked", f, w, h, show_params(&params), at.len()));
    let n = counted(|| f.compress(&px, w, h, params, &mut out));
    if alone && n > 0 {
        return Err(format!("{} heap operations while compressing {:?} {}x{}", n, f, w, h));
    }
    for &i in &at {
        let (rgba, mask) = checks::block_of(&px, w, h, i % wide, i / wide, 0);
        let want = checks::compress(&Case { format: f, rgba, mask, params });
        o.calls += 1;
        if out[i * bs..(i + 1) * bs] != want[..bs] {
            return Err(format!("{:?} {}x{}: block ({},{}) is {}, on its own {}", f, w, h, i % wide, i / wide, hex(&out[i * bs..(i + 1) * bs]), hex(&want[..bs])));
        }
    }
    // empty blocks, by the mask of their edge
    let plain: Vec<[u8; 16]> = (0..16)
        .map(|k| checks::compress(&Case { format: f, rgba: [[0; 4]; 16], mask: edge_mask(k % 4 + 1, k / 4 + 1), params }))
        .collect();
    let edge = |n: usize, i: usize| (n - 4 * i).min(4) - 1;
    all_chunks(&out, wide * bs, 8, &|by, row| {
        for bx in 0..wide {
            let want = &plain[4 * edge(h, by) + edge(w, bx)][..bs];
            if &row[bx * bs..(bx + 1) * bs] != want && at.binary_search(&(by * wide + bx)).is_err() {
                return Err(format!("{:?} {}x{}: the empty block ({},{}) is {}, on its own {} ({} rows)", f, w, h, bx, by, hex(&row[bx * bs..(bx + 1) * bs]), hex(want), high));
            }
        }
        Ok(())
    })
}

/// Images of millions of pixels without an empty block
pub fn dense(s: &mut Src, o: &mut Obs, f: Format) -> Verdict {
    let bs = spec::block_size(f);
    let w = 900 + s.below(4100);
    let most = 15 << (16 + s.below(5));
    let h = ((1 << 20) + s.below(most)) / w;
    let wide = spec::blocks(w);
    let data: Vec<u8> = (0..wide * spec::blocks(h) * bs / 8).flat_map(|_| s.u64().to_le_bytes()).collect();
    let mut out = vec![0; 4 * w * h];
    o.key(w as u64 * 7919 + h as u64, true);
    o.calls += 1;
    o.add("pixels", (w * h) as u64);
    o.describe(|| format!("{:?} {}x{}, all blocks random", f, w, h));
    f.decompress(&data, w, h, &mut out);
    all_chunks(&out, 16 * w, 8, &|by, rows| {
        for bx in 0..wide {
            let at = (by * wide + bx) * bs;
            let px = spec::decode_block(f, &data[at..at + bs]);
            for (y, row) in rows.chunks(4 * w).enumerate() {
                for x in 4 * bx..w.min(4 * bx + 4) {
                    if row[4 * x..4 * x + 4] != px[4 * y + x % 4] {
                        return Err(format!("{:?} {}x{}: pixel ({},{}) is {:?}, its block says {:?}", f, w, h, x, 4 * by + y, &row[4 * x..4 * x + 4], px[4 * y + x % 4]));
                    }
                }
            }
        }
        Ok(())
    })
}

/// The giant images of a property; more of them when thorough
pub fn giant(id: &str, s: &mut Src, o: &mut Obs, thorough: bool) -> Verdict {
    let all = FORMATS;
    let mut near = |p: usize| (1usize << p) + 1 + s.below(9);
    let square = (near(15), near(15));
    let big = (near(24), near(24));
    let line = near(28);
    let (thin, other) = (1 + s.below(3), 1 + s.below(3));
    let list = match id {
        "C03" => {
            let mut l = vec![
                (s.pick(&[Format::Bc1, Format::Bc4]), square.0, square.1),
                (s.pick(&all), big.0, thin),
                (s.pick(&all), other, big.1),
                // a row of blocks beyond 2^32 bytes
                (Format::Bc1, line, 4),
            ];
            if thorough {
                // and compressed data beyond them
                l.extend([(Format::Bc4, 3, line), (Format::Bc2, square.1, square.0), (Format::Bc5, 65537, 65541)]);
            }
            l
        }
        "C04" => {
            let mut l = vec![
                (Format::Bc4, square.0, square.1),
                (s.pick(&[Format::Bc1, Format::Bc3, Format::Bc5]), big.0, thin),
                (s.pick(&[Format::Bc1, Format::Bc2, Format::Bc4]), other, big.1),
                (Format::Bc4, line, 4),
            ];
            if thorough {
                // pixels and rows beyond 2^32
                l.extend([(Format::Bc4, other, (1usize << 32) + 5), (Format::Bc1, square.1, square.0), (Format::Bc5, 65537, 65541)]);
            }
            // those that others may find too large for a slow search
            l.extend((0..if thorough { 24 } else { 6 }).map(|_| {
                let w = 900 + s.below(4100);
                let most = 15 << (16 + s.below(5));
                (s.pick(&[Format::Bc1, Format::Bc2, Format::Bc3]), w, ((1 << 20) + s.below(most)) / w)
            }));
            l
        }
        "C18" => {
            let mut l = vec![
                (s.pick(&all), 1024, 1024),
                (s.pick(&all), 4 * line / 262144, 4 * square.0 / 16),
                (s.pick(&[Format::Bc1, Format::Bc4]), 8200, 8200),
                (s.pick(&all), big.0, thin),
                (s.pick(&all), other, big.1),
            ];
            if thorough {
                l.extend([(Format::Bc4, square.0, square.1), (Format::Bc1, square.1, square.0)]);
            }
            l
        }
        _ => panic!("no giant images for {}", id),
    };
    if id == "C03" {
        for i in 0..if thorough { 20 } else { 5 } {
            dense(s, o, all[i % 5])?;
        }
    }
    let first = s.below(3);
    for (i, (f, w, h)) in list.into_iter().enumerate() {
        let algorithm = [Algorithm::RangeFit, Algorithm::ClusterFit, Algorithm::IterativeClusterFit][(first + i) % 3];
        let alone = id == "C18";
        if alone || id == "C03" {
            decompress(s, o, f, w, h, alone)?;
        }
        if alone || id == "C04" {
            compress(s, o, f, w, h, algorithm, alone)?;
        }
    }
    Ok(())
}
