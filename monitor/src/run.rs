//! Drives checks on several threads and turns what happens into a verdict.

use crate::checks;
use crate::obs::Obs;
use crate::src::{fnv, Src};
use crate::sweep;
use std::cell::{Cell, RefCell};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

thread_local! {
    static QUIET: Cell<bool> = const { Cell::new(false) };
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

/// Records panics instead of printing them
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        if QUIET.with(|q| q.get()) {
            return;
        }
        let what = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some((what, at)));
    }));
}

pub fn quietly<T>(f: impl FnOnce() -> T) -> T {
    let old = QUIET.with(|q| q.replace(true));
    let r = f();
    QUIET.with(|q| q.set(old));
    r
}

#[derive(Clone, Debug)]
pub enum Outcome {
    Held,
    Violated(String),
    /// the machinery itself failed
    Broken(String),
}

/// Runs f; a panic that does not come from the monitor is a violation
pub fn guarded(f: impl FnOnce() -> checks::Verdict) -> Outcome {
    PANIC.with(|p| *p.borrow_mut() = None);
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(Ok(())) => Outcome::Held,
        Ok(Err(e)) => Outcome::Violated(e),
        Err(_) => {
            let (what, at) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| ("a worker thread panicked".into(), "library".into()));
            if at.starts_with("src/") || at.contains("monitor/src") {
                Outcome::Broken(format!("monitor panicked at {}: {}", at, what))
            } else {
                Outcome::Violated(format!("panic at {}: {}", at, what))
            }
        }
    }
}

pub fn one(id: &str, seed: u64, o: &mut Obs) -> Outcome {
    guarded(|| checks::check(id, &mut Src::seeded(seed), o))
}

pub struct Found {
    pub detail: String,
    pub text: String,
    /// how to reproduce: arguments for `monitor replay`
    pub how: String,
}

pub struct Report {
    pub obs: Obs,
    pub violation: Option<Found>,
    pub broken: Option<String>,
    pub sweep_complete: bool,
    pub seconds: f64,
}

/// The CPU time this process's thread has used, in clock ticks of 10 ms
fn thread_ticks(tid: u64) -> Option<u64> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{}/stat", tid)).ok()?;
    let rest = s.rsplit(')').next()?;
    let f: Vec<&str> = rest.split_whitespace().collect();
    Some(f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?)
}

fn my_tid() -> u64 {
    std::fs::read_link("/proc/thread-self")
        .ok()
        .and_then(|p| p.file_name().and_then(|n| n.to_string_lossy().parse().ok()))
        .unwrap_or(0)
}

struct Slot {
    tid: AtomicU64,
    seed: AtomicU64,
    /// increases with every case
    serial: AtomicU64,
    done: AtomicBool,
}

/// CPU seconds one case may take (they take micro- to milliseconds) before it counts as endless
const ENDLESS_CPU_SECONDS: u64 = 60;

pub fn run(id: &str, seed: u64, seconds: f64, threads: usize, with_sweep: bool, sweep_seconds: f64) -> Report {
    let start = Instant::now();
    let stop = AtomicBool::new(false);
    let found: Mutex<Option<Found>> = Mutex::new(None);
    let broken: Mutex<Option<String>> = Mutex::new(None);
    let total = Mutex::new(Obs::default());
    let complete = AtomicBool::new(with_sweep);
    let slots: Vec<Slot> = (0..threads)
        .map(|_| Slot { tid: 0.into(), seed: 0.into(), serial: 0.into(), done: false.into() })
        .collect();
    let live = AtomicU64::new(threads as u64);
    std::thread::scope(|sc| {
        for t in 0..threads {
            let (stop, found, broken, total, complete, slots, live) = (&stop, &found, &broken, &total, &complete, &slots, &live);
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(sc, move || {
                    let slot = &slots[t];
                    slot.tid.store(my_tid(), Ordering::SeqCst);
                    let mut o = Obs::default();
                    let settle = |out: Outcome, how: String, text: String| match out {
                        Outcome::Held => false,
                        Outcome::Violated(detail) => {
                            let mut f = found.lock().unwrap();
                            if f.is_none() {
                                *f = Some(Found { detail, text, how });
                            }
                            stop.store(true, Ordering::SeqCst);
                            true
                        }
                        Outcome::Broken(e) => {
                            *broken.lock().unwrap() = Some(e);
                            stop.store(true, Ordering::SeqCst);
                            true
                        }
                    };
                    let mut ended = false;
                    if with_sweep {
                        let deadline = start + Duration::from_secs_f64(sweep_seconds);
                        let mut done = true;
                        let tick = || slot.serial.fetch_add(1, Ordering::Relaxed);
                        let mut ctl = sweep::Control { thread: t, threads, deadline, stop, seed, cut: false, tick: &tick };
                        let out = guarded(|| {
                            let r = sweep::sweep(id, &mut ctl, &mut o);
                            done = !ctl.cut;
                            r
                        });
                        if !done {
                            complete.store(false, Ordering::SeqCst);
                        }
                        ended = settle(out, format!("sweep {} {} {} {}", id, seed, t, threads), String::new());
                    }
                    let deadline = Instant::now() + Duration::from_secs_f64(seconds);
                    let mut i = 0u64;
                    while !ended && !stop.load(Ordering::Relaxed) && Instant::now() < deadline {
                        let case_seed = fnv(seed, &[(t as u64).to_le_bytes(), i.to_le_bytes()].concat());
                        slot.seed.store(case_seed, Ordering::SeqCst);
                        slot.serial.fetch_add(1, Ordering::SeqCst);
                        let out = one(id, case_seed, &mut o);
                        if let Outcome::Held = out {
                            if i % 5000 == 17 && o.samples.len() < 2 {
                                let mut d = Obs { want_text: true, ..Obs::default() };
                                let _ = one(id, case_seed, &mut d);
                                o.samples.push(d.text);
                            }
                        } else {
                            let mut d = Obs { want_text: true, ..Obs::default() };
                            let _ = one(id, case_seed, &mut d);
                            settle(out, format!("case {} {}", id, case_seed), d.text);
                            break;
                        }
                        i += 1;
                    }
                    slot.done.store(true, Ordering::SeqCst);
                    total.lock().unwrap().merge(o);
                    live.fetch_sub(1, Ordering::SeqCst);
                })
                .unwrap();
        }
        // watchdog on CPU time, not wall-clock
        let mut last: Vec<(u64, u64)> = vec![(u64::MAX, 0); threads];
        while live.load(Ordering::SeqCst) > 0 {
            std::thread::sleep(Duration::from_millis(50));
            for (t, s) in slots.iter().enumerate() {
                let serial = s.serial.load(Ordering::SeqCst);
                if s.done.load(Ordering::SeqCst) || s.tid.load(Ordering::SeqCst) == 0 {
                    continue;
                }
                let ticks = match thread_ticks(s.tid.load(Ordering::SeqCst)) {
                    Some(v) => v,
                    None => continue,
                };
                if last[t].0 != serial {
                    last[t] = (serial, ticks);
                } else if ticks - last[t].1 > ENDLESS_CPU_SECONDS * 100 {
                    let seed = s.seed.load(Ordering::SeqCst);
                    println!(
                        "{{\"violation\": \"a case used more than {} s of CPU time without returning (seed {})\", \"how\": \"case {} {}\", \"text\": \"\"}}",
                        ENDLESS_CPU_SECONDS, seed, id, seed
                    );
                    std::process::exit(1);
                }
            }
        }
    });
    Report {
        obs: total.into_inner().unwrap(),
        violation: found.into_inner().unwrap(),
        broken: broken.into_inner().unwrap(),
        sweep_complete: complete.load(Ordering::SeqCst),
        seconds: start.elapsed().as_secs_f64(),
    }
}
