//! C31: who does the work of a call in the parallel build, by the CPU clocks of all threads that could.

use crate::cost::{everyone, now, ordinary};
use crate::obs::Obs;
use crate::spec;
use crate::src::Src;
use rayon::prelude::*;
use rayon::{ThreadPool, ThreadPoolBuilder};
use texpresso::{Algorithm, Format, Params};

struct Work {
    format: Format,
    params: Params,
    w: usize,
    h: usize,
    compress: bool,
    px: Vec<u8>,
    data: Vec<u8>,
}

impl Work {
    fn new(s: &mut Src, rows: usize, ns: f64) -> Work {
        let format = s.pick(&[Format::Bc1, Format::Bc2, Format::Bc3, Format::Bc4, Format::Bc5]);
        let algorithm = s.pick(&[Algorithm::RangeFit, Algorithm::ClusterFit, Algorithm::IterativeClusterFit]);
        let params = Params { algorithm, ..Params::default() };
        let compress = s.one_in(2);
        let block = ordinary();
        let bs = spec::block_size(format);
        let mut out = [0u8; 16];
        let mut n = 0;
        let start = now();
        while now() - start < 1e6 {
            format.compress_block_masked(block, 0xffff, params, &mut out[..bs]);
            if !compress {
                for _ in 0..20 {
                    std::hint::black_box(format.decompress_block(std::hint::black_box(&out[..bs])));
                }
            }
            n += if compress { 1 } else { 20 };
        }
        let each = (now() - start) / f64::from(n);
        let wide = ((ns / each) as usize / rows).clamp(1, 4000);
        let (w, h) = (4 * wide - s.below(4), 4 * rows - s.below(4));
        let px = if compress { (0..w * h).flat_map(|i| block[(i + i / w) % 16]).collect() } else { vec![0; 4 * w * h] };
        let mut data = vec![0u8; wide * rows * bs];
        if !compress {
            data.chunks_mut(bs).for_each(|b| b.copy_from_slice(&out[..bs]));
        }
        Work { format, params, w, h, compress, px, data }
    }

    fn run(&mut self) {
        if self.compress {
            self.format.compress(&self.px, self.w, self.h, self.params, &mut self.data);
        } else {
            self.format.decompress(&self.data, self.w, self.h, &mut self.px);
        }
    }

    /// As much work of the same kind, shared out by ourselves
    fn control(&self) {
        let bs = spec::block_size(self.format);
        let wide = spec::blocks(self.w);
        (0..spec::blocks(self.h)).into_par_iter().for_each(|_| {
            let mut out = [0u8; 16];
            for _ in 0..wide {
                if self.compress {
                    self.format.compress_block_masked(ordinary(), 0xffff, self.params, &mut out[..bs]);
                } else {
                    std::hint::black_box(self.format.decompress_block(std::hint::black_box(&self.data[..bs])));
                }
            }
        });
    }

    fn show(&self) -> String {
        format!("{} {:?} {}x{} {}", if self.compress { "compressing" } else { "decompressing" }, self.format, self.w, self.h, crate::gen::alg_name(self.params.algorithm))
    }
}

/// Shares of the work: of each of the pool's threads, and of all others together, even of such as there are no more
fn shares(pools: &[ThreadPool], at: usize, how: usize, work: &mut (dyn FnMut() + Send)) -> (Vec<f64>, f64) {
    let pool = &pools[at];
    let read = || if how == 2 { rayon::broadcast(|_| now()) } else { pool.broadcast(|_| now()) };
    let before = read();
    let start = everyone();
    match how {
        // called from outside into the pool, from a task of the pool, or for the pool that is everyone's
        0 => pool.install(work),
        1 => {
            pool.install(|| rayon::join(work, || ()));
        }
        _ => work(),
    }
    let total = everyone() - start;
    let mut mine: Vec<f64> = read().iter().zip(&before).map(|(a, b)| a - b).collect();
    let others = (total - mine.iter().sum::<f64>()).max(0.0);
    mine.iter_mut().for_each(|m| *m /= total);
    (mine, others / total)
}

/// What repeated calls have shown
struct Seen {
    took_part: Vec<bool>,
    together: u64,
    even: u64,
    confined: u64,
    last: String,
}

impl Seen {
    fn new(n: usize) -> Seen {
        Seen { took_part: vec![false; n], together: 0, even: 0, confined: 0, last: String::new() }
    }

    fn add(&mut self, (mine, foreign): (Vec<f64>, f64)) {
        let n = mine.len() as f64;
        let most = mine.iter().fold(0.0f64, |a, &b| a.max(b));
        mine.iter().zip(&mut self.took_part).for_each(|(&m, t)| *t |= m > 0.2 / n);
        self.together += u64::from(mine.iter().all(|&m| m > 0.2 / n));
        self.even += u64::from(most < (2.5 / n).min(0.75) && foreign < 0.5);
        // reading clocks and looking for work in vain take a little
        self.confined += u64::from(foreign < (0.3 / n).max(0.05));
        self.last = format!("shares {:.3?}, of threads that should have no part in it {:.3}", mine, foreign);
    }

    fn all(&self) -> bool {
        !self.took_part.contains(&false)
    }
}

/// A violation only if no one of many repetitions shows the work spread, or confined, while work that we share out ourselves is, most of the time
pub fn spread(seed: u64, seconds: f64, o: &mut Obs) -> Result<(), String> {
    let mut s = Src::seeded(seed ^ 0x5b4ead);
    let start = std::time::Instant::now();
    // of sizes that do not depend on the machine
    let pools: Vec<ThreadPool> = [2, 3, 4, 6, 8].iter().map(|&n| ThreadPoolBuilder::new().num_threads(n).build().expect("threads")).collect();
    ThreadPoolBuilder::new().num_threads(5).build_global().expect("the global pool");
    while start.elapsed().as_secs_f64() < seconds {
        let (at, how) = (s.below(pools.len()), s.below(3));
        let n = if how == 2 { 5 } else { pools[at].current_num_threads() };
        let rows = n * 16 + s.below(40);
        let mut work = Work::new(&mut s, rows, 5e6 * n as f64);
        o.cases += 1;
        o.describe(|| format!("{} with {} threads", work.show(), n));
        let (mut seen, mut control) = (Seen::new(n), Seen::new(n));
        let mut attempt = 0u64;
        loop {
            attempt += 1;
            o.calls += 1;
            seen.add(shares(&pools, at, how, &mut || work.run()));
            if seen.together > 0 && seen.even > 0 && seen.confined > 0 {
                o.max("most repetitions needed", attempt);
                break;
            }
            if attempt < 4 {
                continue;
            }
            control.add(shares(&pools, at, how, &mut || work.control()));
            if attempt % 10 == 0 {
                work = Work::new(&mut s, rows * 4, 4e7 * n as f64);
            }
            if attempt >= 24 {
                let usual = (attempt - 3) * 2 / 3;
                if control.even >= usual && control.all() && (seen.even == 0 || !seen.all()) {
                    return Err(format!("{}: the work is not spread over the {} threads of the pool it is called in: {}; work shared out evenly: {}", work.show(), n, seen.last, control.last));
                }
                if control.together >= usual && seen.together == 0 {
                    return Err(format!("{}: never do all {} threads of the pool it is called in take part: {}; work shared out evenly: {}", work.show(), n, seen.last, control.last));
                }
                if control.confined >= usual && seen.confined == 0 {
                    return Err(format!("{}: threads outside the pool it is called in do the work: {}; work done by the pool: {}", work.show(), seen.last, control.last));
                }
            }
            if attempt >= 60 {
                o.label("undecided, because the machine is busy");
                break;
            }
        }
        o.label(["called from outside into a pool", "called from a task of a pool", "called outside any pool"][how]);
        o.key((work.w as u64) << 40 | (work.h as u64) << 16 | (n as u64) << 8 | how as u64, true);
    }
    Ok(())
}
