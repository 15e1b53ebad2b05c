//! A deterministic list of library calls, each described by its seed, with a digest of its result.
//! The same list runs in every process, build and target that a check compares.

use crate::checks;
use crate::gen::{self, *};
use crate::spec;
use crate::src::{fnv, Src};
use texpresso::{Format, Params};

pub enum Job {
    Compress { format: Format, w: usize, h: usize, params: Params, px: Vec<u8> },
    Decompress { format: Format, w: usize, h: usize, data: Vec<u8> },
    Block(Case),
    Decode { format: Format, data: Vec<u8> },
    /// sizes of images whose data fits any target's address space
    Sizes { format: Format, dims: Vec<(usize, usize)> },
    /// a call that is refused for the length of one of its buffers
    Refused { format: Format, w: usize, h: usize, params: Params, which: usize, missing: usize },
}

const REFUSALS: [(&str, &str); 5] = [
    ("compress", "output"),
    ("compress", "pixels"),
    ("decompress", "data"),
    ("decompress block", "data"),
    ("compress block", "output"),
];

/// How large the images of a list may get
#[derive(Clone, Copy, PartialEq)]
pub enum Size {
    /// one block to a few: for interpreters
    Tiny,
    /// up to a few hundred blocks, now and then thousands
    Full,
}

fn bytes(s: &mut Src, n: usize) -> Vec<u8> {
    let mut r = s.u64() | 1;
    (0..n)
        .map(|_| {
            r ^= r << 13;
            r ^= r >> 7;
            r ^= r << 17;
            (r >> 32) as u8
        })
        .collect()
}

/// The parameters of the list: finite weights, so that results have a defined meaning everywhere
pub fn make(seed: u64, size: Size) -> Job {
    let s = &mut Src::seeded(seed);
    let format = s.pick(&FORMATS);
    let dims = |s: &mut Src, limit: usize| match size {
        Size::Tiny => match s.below(8) {
            0 => (s.range(5, 9), s.range(1, 9)),
            _ => (s.range(1, 5), s.range(1, 5)),
        },
        Size::Full => loop {
            let (w, h) = match s.below(8) {
                0 => (s.range(1, 30), s.range(1, 400)),
                1 => (s.hint(600), s.hint(600)),
                _ => gen::dimensions(s, limit),
            };
            if w * h <= limit {
                break (w, h);
            }
        },
    };
    let kind = s.below(if size == Size::Tiny { 10 } else { 8 });
    if size == Size::Full && s.one_in(14) {
        let (w, h) = (s.range(1, 80), s.range(1, 80));
        return Job::Refused { format, w, h, params: gen::params(s), which: s.below(5), missing: s.pick(&[1, 1, 2, 7, 8, 100]) };
    }
    match kind {
        0..=2 => {
            let params = gen::params(s);
            let quick = format == Format::Bc4 || format == Format::Bc5 || params.algorithm == texpresso::Algorithm::RangeFit;
            let (w, h) = dims(s, if quick { 60_000 } else { 4_000 });
            Job::Compress { format, w, h, params, px: checks::image(s, w, h) }
        }
        3..=5 => {
            let (w, h) = dims(s, 90_000);
            Job::Decompress { format, w, h, data: checks::block_data(s, spec::compressed_size(format, w, h), spec::block_size(format), spec::blocks(w)) }
        }
        7 if s.one_in(3) => {
            let dims = (0..12)
                .map(|_| loop {
                    let (w, h) = (1usize << s.below(17), 1usize << s.below(17));
                    let (w, h) = (w + s.below(w), h + s.below(h));
                    if w as u64 * h as u64 * 4 < 1 << 31 {
                        break (w, h);
                    }
                })
                .collect();
            Job::Sizes { format, dims }
        }
        7 => Job::Decode { format, data: bytes(s, spec::block_size(format)) },
        _ => Job::Block(gen::case(s, &FORMATS)),
    }
}

impl Job {
    pub fn describe(&self) -> String {
        match self {
            Job::Compress { format, w, h, params, .. } => format!("compress {:?} {}x{} {}", format, w, h, show_params(params)),
            Job::Decompress { format, w, h, .. } => format!("decompress {:?} {}x{}", format, w, h),
            Job::Block(c) => format!("compress block {}", c.show()),
            Job::Sizes { format, dims } => format!("sizes {:?} {:?}", format, dims),
            Job::Refused { format, w, h, which, missing, .. } => {
                let (call, buffer) = REFUSALS[*which];
                format!("{} {:?} {}x{} with {} bytes missing in the {}", call, format, w, h, missing, buffer)
            }
            Job::Decode { format, data } => format!("decompress block {:?} {}", format, hex(data)),
        }
    }

    /// A digest of the inputs: lists have to agree on these before results are compared
    pub fn inputs(&self) -> u64 {
        match self {
            Job::Compress { px, .. } => fnv(fnv(1, self.describe().as_bytes()), px),
            Job::Decompress { data, .. } => fnv(fnv(2, self.describe().as_bytes()), data),
            _ => fnv(3, self.describe().as_bytes()),
        }
    }

    /// Runs the job with buffers shifted by `shift` bytes and outputs holding `junk`, which must not matter
    pub fn run(&self, shift: usize, junk: u8) -> u64 {
        match self {
            Job::Compress { format, w, h, params, px } => {
                let mut input = vec![junk; shift];
                input.extend_from_slice(px);
                let mut out = vec![junk; spec::compressed_size(*format, *w, *h) + shift];
                format.compress(&input[shift..], *w, *h, *params, &mut out[shift..]);
                fnv(11, &out[shift..])
            }
            Job::Decompress { format, w, h, data } => {
                let mut input = vec![junk; shift];
                input.extend_from_slice(data);
                let mut out = vec![junk; w * h * 4 + shift];
                format.decompress(&input[shift..], *w, *h, &mut out[shift..]);
                fnv(12, &out[shift..])
            }
            Job::Block(c) => {
                let mut out = [junk; 24];
                let n = spec::block_size(c.format);
                checks::compress_into(c, &mut out[shift % 8..shift % 8 + n]);
                fnv(13, &out[shift % 8..shift % 8 + n])
            }
            Job::Sizes { format, dims } => {
                let mut h = 15;
                for &(w, hh) in dims {
                    h = fnv(h, &(format.compressed_size(w, hh) as u64).to_le_bytes());
                    h = fnv(h, &(texpresso::num_blocks(w) as u64).to_le_bytes());
                }
                h
            }
            Job::Refused { format, w, h, params, which, missing } => {
                let short = |n: usize| vec![junk; n.saturating_sub(*missing)];
                let (size, pixels) = (spec::compressed_size(*format, *w, *h), 4 * w * h);
                // where panics abort, refusals cannot be observed
                let refused = cfg!(panic = "abort") || checks::refused(|| match which {
                    0 => format.compress(&vec![junk; pixels], *w, *h, *params, &mut short(size)),
                    1 => format.compress(&short(pixels), *w, *h, *params, &mut vec![0; size]),
                    2 => format.decompress(&short(size), *w, *h, &mut vec![0; pixels]),
                    3 => drop(format.decompress_block(&short(spec::block_size(*format)))),
                    _ => format.compress_block_masked([[junk; 4]; 16], 0xffff, *params, &mut short(spec::block_size(*format))),
                });
                16 + u64::from(refused)
            }
            Job::Decode { format, data } => {
                let got = format.decompress_block(data);
                fnv(14, &got.concat())
            }
        }
    }

    pub fn image(&self) -> bool {
        matches!(self, Job::Compress { .. } | Job::Decompress { .. })
    }
}

pub fn job_seed(seed: u64, i: usize) -> u64 {
    fnv(seed, &(i as u64).to_le_bytes())
}

pub fn list(seed: u64, n: usize, size: Size) -> Vec<Job> {
    (0..n).map(|i| make(job_seed(seed, i), size)).collect()
}

/// The results of the list, by job, executed in the given order (0: as listed, 1: reversed, else shuffled)
pub fn digests(seed: u64, jobs: &[Job], order: u64) -> Vec<u64> {
    let mut idx: Vec<usize> = (0..jobs.len()).collect();
    match order {
        0 => {}
        1 => idx.reverse(),
        n => Src::seeded(seed ^ n.wrapping_mul(7919)).shuffle(&mut idx),
    }
    let mut out = vec![0; jobs.len()];
    for i in idx {
        out[i] = jobs[i].run((order as usize * 3) % 8, (order * 85) as u8);
    }
    out
}
