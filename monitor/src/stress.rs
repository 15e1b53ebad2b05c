//! Many callers, pools, nesting and injected delays over the job list; every result is compared
//! with what the serial build computed.

use crate::jobs::{self, Job, Size};
use crate::json;
use crate::src::{fnv, Src};
use rayon::prelude::*;
use std::cell::Cell;
use std::collections::HashSet;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

const RING: usize = 1 << 16;
static RING_AT: AtomicUsize = AtomicUsize::new(0);
static EVENTS: [AtomicU64; RING] = [const { AtomicU64::new(0) }; RING];
static DELAY: AtomicU64 = AtomicU64::new(0);
static DELAYS: AtomicU64 = AtomicU64::new(0);
static NEXT_THREAD: AtomicU64 = AtomicU64::new(1);
static PROGRESS: AtomicU64 = AtomicU64::new(0);

thread_local! {
    static ME: Cell<u64> = const { Cell::new(0) };
    static RNG: Cell<u64> = const { Cell::new(0) };
}

fn me() -> u64 {
    ME.with(|m| {
        if m.get() == 0 {
            m.set(NEXT_THREAD.fetch_add(1, Ordering::Relaxed));
        }
        m.get()
    })
}

/// The row hook: records who does which row, and delays some
fn on_row(op: &'static str, row: usize) {
    let t = me();
    let at = RING_AT.fetch_add(1, Ordering::Relaxed);
    EVENTS[at % RING].store(t << 40 | (op.len() as u64) << 32 | row as u64, Ordering::Relaxed);
    PROGRESS.fetch_add(1, Ordering::Relaxed);
    let kind = DELAY.load(Ordering::Relaxed);
    if kind == 0 {
        return;
    }
    let r = RNG.with(|c| {
        let mut x = c.get();
        if x == 0 {
            x = fnv(kind, &t.to_le_bytes()) | 1;
        }
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        c.set(x);
        x >> 20
    });
    match r % 16 {
        0 if kind >= 2 => std::thread::sleep(Duration::from_micros(r % 200)),
        1..=3 => std::thread::yield_now(),
        4..=6 => (0..r % 2000).for_each(|_| std::hint::spin_loop()),
        _ => return,
    }
    DELAYS.fetch_add(1, Ordering::Relaxed);
}

#[derive(Default)]
pub struct Seen {
    pub executions: u64,
    pub rows: u64,
    pub switches: u64,
    pub schedules: HashSet<u64>,
    pub phases: u64,
    pub max_active: u64,
    pub threads: HashSet<u64>,
    pub jobs: HashSet<usize>,
}

impl Seen {
    /// Summarises the row events recorded since `from`
    fn harvest(&mut self, from: usize) {
        let to = RING_AT.load(Ordering::SeqCst);
        let first = from.max(to.saturating_sub(RING));
        let events: Vec<u64> = (first..to).map(|i| EVENTS[i % RING].load(Ordering::Relaxed)).collect();
        self.rows += (to - from) as u64;
        for w in events.windows(2) {
            self.switches += u64::from(w[0] >> 40 != w[1] >> 40);
        }
        for e in &events {
            self.threads.insert(e >> 40);
        }
        // a schedule window: which of the window's threads did which of its rows, in order
        for w in events.chunks_exact(8) {
            let mut names: Vec<u64> = Vec::new();
            let mut h = 5;
            for e in w {
                let t = e >> 40;
                let n = names.iter().position(|&x| x == t).unwrap_or_else(|| {
                    names.push(t);
                    names.len() - 1
                });
                h = fnv(h, &[n as u8, (e >> 32) as u8, *e as u8, (*e >> 8) as u8]);
            }
            if names.len() > 1 && self.schedules.len() < 1 << 20 {
                self.schedules.insert(h);
            }
        }
    }
}

const POOLS: [usize; 10] = [1, 2, 3, 4, 5, 7, 8, 13, 16, 33];

/// Expected digests come from another process; returns a violation if any call disagrees
pub fn stress(seed: u64, n: usize, size: Size, expect: &[u64], seconds: f64, seen: &mut Seen) -> Option<String> {
    texpresso::verif_hooks::install(on_row);
    let jobs = jobs::list(seed, n, size);
    let start = Instant::now();
    let failed: Mutex<Option<String>> = Mutex::new(None);
    let stop = AtomicBool::new(false);
    let active = AtomicU64::new(0);
    let most = AtomicU64::new(0);
    let count = AtomicU64::new(0);
    let used: Mutex<HashSet<usize>> = Mutex::new(HashSet::new());
    let run = |i: usize, s: &mut Src, how: &str| {
        let a = active.fetch_add(1, Ordering::SeqCst) + 1;
        most.fetch_max(a, Ordering::Relaxed);
        let mut got = 0;
        let (shift, junk) = (s.below(8), s.u8());
        let end = crate::run::guarded(|| {
            got = jobs[i].run(shift, junk);
            Ok(())
        });
        active.fetch_sub(1, Ordering::SeqCst);
        count.fetch_add(1, Ordering::Relaxed);
        PROGRESS.fetch_add(1, Ordering::Relaxed);
        used.lock().unwrap().insert(i);
        let bad = match end {
            crate::run::Outcome::Held if got == expect[i] => return,
            crate::run::Outcome::Held => format!("job {} run {} gives other bytes than when run alone: {}", i, how, jobs[i].describe()),
            crate::run::Outcome::Violated(e) | crate::run::Outcome::Broken(e) => {
                format!("job {} run {} fails, though not when run alone: {}: {}", i, how, e, jobs[i].describe())
            }
        };
        stop.store(true, Ordering::SeqCst);
        failed.lock().unwrap().get_or_insert(bad);
    };
    let mut phase = 0u64;
    let s0 = &mut Src::seeded(seed ^ 0x5757);
    while (phase < 4 || start.elapsed().as_secs_f64() < seconds) && !stop.load(Ordering::SeqCst) {
        let threads = if phase < POOLS.len() as u64 { POOLS[(phase as usize * 7 + seed as usize) % POOLS.len()] } else { s0.pick(&POOLS) };
        let callers = s0.range(1, 6);
        let how = s0.below(5);
        let phase_seed = s0.u64();
        DELAY.store(s0.below(4) as u64, Ordering::SeqCst);
        let from = RING_AT.load(Ordering::SeqCst);
        let pool = match rayon::ThreadPoolBuilder::new().num_threads(threads).build() {
            Ok(p) => p,
            Err(_) => continue,
        };
        let calls = if size == Size::Tiny { 4 } else { 12 };
        // a few jobs that all callers hammer at the same time, and others
        let hot: Vec<usize> = (0..3).map(|_| s0.below(n)).collect();
        std::thread::scope(|sc| {
            for c in 0..callers {
                let (run, pool, hot, stop) = (&run, &pool, &hot, &stop);
                sc.spawn(move || {
                    let mut s = Src::seeded(fnv(phase_seed, &[c as u8]));
                    for _ in 0..calls {
                        if stop.load(Ordering::SeqCst) {
                            return;
                        }
                        let i = if s.one_in(3) { s.pick(hot) } else { s.below(n) };
                        let j = s.below(n);
                        match how {
                            0 => pool.install(|| run(i, &mut s, &format!("in a pool of {} threads with {} callers", threads, callers))),
                            1 => run(i, &mut s, &format!("in the global pool with {} callers", callers)),
                            2 => {
                                let mut t = Src::seeded(s.u64());
                                pool.install(|| {
                                    rayon::join(
                                        || run(i, &mut s, "in one side of a join"),
                                        || run(j, &mut t, "in one side of a join"),
                                    )
                                });
                            }
                            3 => {
                                let list: Vec<(usize, u64)> = (0..6).map(|_| (s.below(n), s.u64())).collect();
                                pool.install(|| {
                                    list.par_iter().for_each(|&(k, r)| run(k, &mut Src::seeded(r), "inside a parallel iterator"))
                                });
                            }
                            _ => {
                                let r = s.u64();
                                pool.scope(|sp| {
                                    sp.spawn(|_| run(i, &mut Src::seeded(r), "as a spawned task"));
                                    sp.spawn(|_| run(i, &mut Src::seeded(r + 1), "as a spawned task twice"));
                                    run(j, &mut s, "beside spawned tasks");
                                });
                            }
                        }
                    }
                });
            }
        });
        drop(pool);
        seen.harvest(from);
        seen.phases += 1;
        phase += 1;
    }
    seen.executions += count.load(Ordering::SeqCst);
    seen.max_active = seen.max_active.max(most.load(Ordering::SeqCst));
    seen.jobs = used.into_inner().unwrap();
    failed.into_inner().unwrap()
}

fn cpu_ticks() -> u64 {
    let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let f: Vec<&str> = s.rsplit(')').next().unwrap_or("").split_whitespace().collect();
    f.get(11).and_then(|v| v.parse::<u64>().ok()).unwrap_or(0) + f.get(12).and_then(|v| v.parse::<u64>().ok()).unwrap_or(0)
}

/// Reports a deadlock: no row, no call and (nearly) no CPU time for a long while
pub fn watch_for_deadlock() {
    std::thread::spawn(|| {
        let mut last = (0, 0);
        let mut idle = 0;
        loop {
            std::thread::sleep(Duration::from_secs(1));
            let now = (PROGRESS.load(Ordering::Relaxed), cpu_ticks());
            if now.0 == last.0 && now.1 <= last.1 + 3 {
                idle += 1;
            } else {
                idle = 0;
            }
            last = now;
            if idle >= 60 {
                println!("{{\"violation\": {}}}", json::quote("no progress for 60 s: concurrent calls wait for each other forever"));
                std::process::exit(1);
            }
        }
    });
}

pub fn describe(j: &Job) -> String {
    j.describe()
}
