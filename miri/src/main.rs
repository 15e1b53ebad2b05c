//! Runs under Miri (and natively, to compare):
//!   under-miri digests SEED FROM TO   per job of a tiny list, the digests of its inputs and results
//!   under-miri hostile SEED N         cases of C07, each with whatever parameters
//!   under-miri sizes SEED N           cases of C26
//!   under-miri race SEED N            (feature parallel) calls from several threads and pools

use monitor::jobs::{self, Size};
use monitor::obs::Obs;
use monitor::run::{self, Outcome};

fn main() {
    run::install_panic_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let n = |i: usize| -> u64 { args[i].parse().expect("number") };
    match args[0].as_str() {
        "digests" => {
            for i in n(2)..n(3) {
                let j = jobs::make(jobs::job_seed(n(1), i as usize), Size::Tiny);
                let mut d = 0;
                match run::guarded(|| {
                    d = j.run(i as usize % 8, i as u8);
                    Ok(())
                }) {
                    Outcome::Held => println!("{} {:016x} {:016x} {}", i, j.inputs(), d, j.describe()),
                    Outcome::Violated(e) | Outcome::Broken(e) => println!("{} {:016x} panic {} {}", i, j.inputs(), e, j.describe()),
                }
            }
        }
        "hostile" | "sizes" => {
            let check = if args[0] == "sizes" { monitor::sizes::c26 } else { monitor::checks::c07_small };
            for i in 0..n(2) {
                let seed = jobs::job_seed(n(1), i as usize);
                let mut o = Obs::default();
                match run::guarded(|| check(&mut monitor::src::Src::seeded(seed), &mut o)) {
                    Outcome::Held => println!("held {}", seed),
                    Outcome::Violated(e) => {
                        println!("violated {} {}", seed, e);
                        std::process::exit(1);
                    }
                    Outcome::Broken(e) => {
                        println!("broken {} {}", seed, e);
                        std::process::exit(3);
                    }
                }
            }
        }
        #[cfg(feature = "parallel")]
        "race" => race(n(1), n(2) as usize),
        _ => panic!("digests, hostile, sizes or race"),
    }
}

#[cfg(feature = "parallel")]
fn race(seed: u64, calls: usize) {
    use monitor::src::{fnv, Src};
    let mut s = Src::seeded(seed);
    // small images of several rows of blocks, cheap to interpret
    let jobs: Vec<jobs::Job> = (0..calls)
        .map(|_| {
            let format = s.pick(&monitor::gen::FORMATS);
            let (w, h) = (s.range(1, 5), s.range(8, 12));
            if s.one_in(2) {
                let mut params = monitor::gen::params(&mut s);
                if s.below(6) != 0 {
                    params.algorithm = monitor::gen::Algorithm::RangeFit;
                }
                jobs::Job::Compress { format, w, h, params, px: monitor::checks::image(&mut s, w, h) }
            } else {
                let n = monitor::spec::compressed_size(format, w, h);
                jobs::Job::Decompress { format, w, h, data: (0..n).map(|_| s.u8()).collect() }
            }
        })
        .collect();
    let alone = rayon::ThreadPoolBuilder::new().num_threads(1).build().unwrap();
    let want: Vec<u64> = alone.install(|| jobs.iter().map(|j| j.run(0, 0)).collect());
    let pool = rayon::ThreadPoolBuilder::new().num_threads(s.range(2, 4)).build().unwrap();
    let bad = std::sync::atomic::AtomicUsize::new(0);
    std::thread::scope(|sc| {
        for c in 0..2u64 {
            let (jobs, want, pool, bad) = (&jobs, &want, &pool, &bad);
            sc.spawn(move || {
                let mut s = Src::seeded(fnv(seed, &[c as u8]));
                for _ in 0..calls {
                    let i = s.below(jobs.len());
                    let got = pool.install(|| jobs[i].run(s.below(8), s.u8()));
                    if got != want[i] {
                        println!("violated job {} differs under concurrency: {}", i, jobs[i].describe());
                        bad.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    }
                }
            });
        }
    });
    println!("raced {}", 2 * calls);
    if bad.load(std::sync::atomic::Ordering::SeqCst) > 0 {
        std::process::exit(1);
    }
}
