use monitor::obs::Obs;
use monitor::{json, run};

#[global_allocator]
static ALLOC: monitor::alloc::Counting = monitor::alloc::Counting;

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1).cloned())
}

fn num<T: std::str::FromStr>(args: &[String], name: &str, default: T) -> T {
    arg(args, name).and_then(|v| v.parse().ok()).unwrap_or(default)
}

/// monitor run --check C06 --seed 1 --seconds 10 --threads 8 [--sweep SECONDS]
/// monitor replay case C06 SEED | sweep C06 SEED THREAD THREADS | bytes C06 FILE
/// monitor digests --seed S --jobs N [--order K] [--tiny]: per job, the digests of its inputs and results
/// monitor stress --seed S --jobs N --expect FILE --seconds T [--tiny] (parallel builds with hooks)
/// monitor giant --check C03|C04|C18 --seed S [--thorough]
/// monitor history --seed S --seconds T
/// Prints one JSON object; exits 0 (held), 1 (violated), 3 (the monitor is broken).
fn main() {
    run::install_panic_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let code = match args.first().map(|s| s.as_str()) {
        Some("run") => run_check(&args),
        Some("replay") => replay(&args[1..]),
        Some("digests") => digests(&args),
        Some("giant") => giant(&args),
        Some("history") => history(&args),
        #[cfg(feature = "parallel")]
        Some("spread") => spread(&args),
        #[cfg(feature = "hooks")]
        Some("stress") => stress(&args),
        _ => {
            eprintln!("usage: monitor run|replay ...");
            3
        }
    };
    std::process::exit(code);
}

fn run_check(args: &[String]) -> i32 {
    let id = arg(args, "--check").expect("--check");
    let seed: u64 = num(args, "--seed", 1);
    let sweep = arg(args, "--sweep").and_then(|v| v.parse::<f64>().ok());
    let r = run::run(
        &id,
        seed,
        num(args, "--seconds", 5.0),
        num(args, "--threads", 8),
        sweep.is_some(),
        sweep.unwrap_or(0.0),
    );
    let labels: Vec<String> = r.obs.labels.iter().map(|(l, n)| format!("{}: {}", json::quote(l), n)).collect();
    let samples: Vec<String> = r.obs.samples.iter().take(5).cloned().collect();
    let mut fields = vec![
        format!("\"cases\": {}", r.obs.cases),
        format!("\"calls\": {}", r.obs.calls),
        format!("\"nontrivial\": {}", r.obs.nontrivial),
        format!("\"distinct\": {}", r.obs.distinct()),
        format!("\"labels\": {{{}}}", labels.join(", ")),
        format!("\"samples\": {}", json::list(&samples)),
        format!("\"sweep_complete\": {}", sweep.is_some() && r.sweep_complete),
        format!("\"seconds\": {:.2}", r.seconds),
    ];
    let mut code = 0;
    if let Some(b) = &r.broken {
        fields.push(format!("\"broken\": {}", json::quote(b)));
        code = 3;
    }
    if let Some(v) = &r.violation {
        fields.push(format!("\"violation\": {}", json::quote(&v.detail)));
        fields.push(format!("\"how\": {}", json::quote(&v.how)));
        fields.push(format!("\"text\": {}", json::quote(&v.text)));
        code = 1;
    }
    println!("{{{}}}", fields.join(", "));
    code
}

fn giant(args: &[String]) -> i32 {
    let id = arg(args, "--check").expect("--check");
    let seed: u64 = num(args, "--seed", 1);
    let mut o = Obs { want_text: true, ..Obs::default() };
    let start = std::time::Instant::now();
    let out = {
        let mut s = monitor::src::Src::seeded(seed ^ 0x61a47);
        run::guarded(|| monitor::giant::giant(&id, &mut s, &mut o, args.iter().any(|a| a == "--thorough")))
    };
    report(&o, out, start)
}

fn history(args: &[String]) -> i32 {
    let mut o = Obs { want_text: true, ..Obs::default() };
    let start = std::time::Instant::now();
    let out = run::guarded(|| monitor::history::history(num(args, "--seed", 1), num(args, "--seconds", 5.0), &mut o));
    report(&o, out, start)
}

#[cfg(feature = "parallel")]
fn spread(args: &[String]) -> i32 {
    let mut o = Obs { want_text: true, ..Obs::default() };
    let start = std::time::Instant::now();
    let out = run::guarded(|| monitor::spread::spread(num(args, "--seed", 1), num(args, "--seconds", 5.0), &mut o));
    report(&o, out, start)
}

fn report(o: &Obs, out: run::Outcome, start: std::time::Instant) -> i32 {
    let labels: Vec<String> = o.labels.iter().map(|(l, n)| format!("{}: {}", json::quote(l), n)).collect();
    let mut fields = vec![
        format!("\"cases\": {}", o.cases),
        format!("\"calls\": {}", o.calls),
        format!("\"distinct\": {}", o.distinct()),
        format!("\"labels\": {{{}}}", labels.join(", ")),
        format!("\"text\": {}", json::quote(&o.text)),
        format!("\"seconds\": {:.2}", start.elapsed().as_secs_f64()),
    ];
    let mut code = 0;
    match out {
        run::Outcome::Held => {}
        run::Outcome::Violated(e) => {
            fields.push(format!("\"violation\": {}", json::quote(&e)));
            code = 1;
        }
        run::Outcome::Broken(e) => {
            fields.push(format!("\"broken\": {}", json::quote(&e)));
            code = 3;
        }
    }
    println!("{{{}}}", fields.join(", "));
    code
}

fn replay(args: &[String]) -> i32 {
    let mut o = Obs { want_text: true, ..Obs::default() };
    let out = match args[0].as_str() {
        "case" => run::one(&args[1], args[2].parse().expect("seed"), &mut o),
        "bytes" => {
            let data = std::fs::read(&args[2]).expect("input");
            run::guarded(|| monitor::checks::check(&args[1], &mut monitor::src::Src::bytes(&data), &mut o))
        }
        "sweep" => {
            let stop = std::sync::atomic::AtomicBool::new(false);
            let mut c = monitor::sweep::Control {
                thread: args[3].parse().expect("thread"),
                threads: args[4].parse().expect("threads"),
                deadline: std::time::Instant::now() + std::time::Duration::from_secs(3600),
                stop: &stop,
                seed: args[2].parse().expect("seed"),
                cut: false,
                tick: &|| 0,
            };
            run::guarded(|| monitor::sweep::sweep(&args[1], &mut c, &mut o))
        }
        _ => panic!("replay case|bytes|sweep"),
    };
    println!("{}", o.text);
    match out {
        run::Outcome::Held => {
            println!("held");
            0
        }
        run::Outcome::Violated(e) => {
            println!("violated: {}", e);
            1
        }
        run::Outcome::Broken(e) => {
            println!("broken: {}", e);
            3
        }
    }
}

fn job_args(args: &[String]) -> (u64, usize, monitor::jobs::Size) {
    let size = if args.iter().any(|a| a == "--tiny") { monitor::jobs::Size::Tiny } else { monitor::jobs::Size::Full };
    (num(args, "--seed", 1), num(args, "--jobs", 50), size)
}

fn digests(args: &[String]) -> i32 {
    let (seed, n, size) = job_args(args);
    let jobs = monitor::jobs::list(seed, n, size);
    let describe = args.iter().any(|a| a == "--describe");
    let mut got = Vec::new();
    let out = run::guarded(|| {
        got = monitor::jobs::digests(seed, &jobs, num(args, "--order", 0));
        Ok(())
    });
    if let run::Outcome::Violated(e) | run::Outcome::Broken(e) = out {
        println!("panic {}", e);
        return 1;
    }
    for (j, d) in jobs.iter().zip(&got) {
        println!("{:016x} {:016x} {}", j.inputs(), d, if describe { j.describe() } else { String::new() });
    }
    0
}

#[cfg(feature = "hooks")]
fn stress(args: &[String]) -> i32 {
    let (seed, n, size) = job_args(args);
    let text = std::fs::read_to_string(arg(args, "--expect").expect("--expect")).expect("expected digests");
    let expect: Vec<u64> =
        text.lines().map(|l| u64::from_str_radix(l.split_whitespace().nth(1).expect("digest"), 16).expect("hex")).collect();
    assert_eq!(expect.len(), n);
    monitor::stress::watch_for_deadlock();
    let mut seen = monitor::stress::Seen::default();
    let mut failed = None;
    let out = run::guarded(|| {
        failed = monitor::stress::stress(seed, n, size, &expect, num(args, "--seconds", 5.0), &mut seen);
        Ok(())
    });
    let mut code = 0;
    let mut fields = vec![
        format!("\"executions\": {}", seen.executions),
        format!("\"rows\": {}", seen.rows),
        format!("\"thread_switches\": {}", seen.switches),
        format!("\"schedules\": {}", seen.schedules.len()),
        format!("\"phases\": {}", seen.phases),
        format!("\"max_concurrent_calls\": {}", seen.max_active),
        format!("\"threads\": {}", seen.threads.len()),
        format!("\"jobs\": {}", seen.jobs.len()),
    ];
    match (out, failed) {
        (_, Some(f)) | (run::Outcome::Violated(f), None) => {
            fields.push(format!("\"violation\": {}", json::quote(&f)));
            code = 1;
        }
        (run::Outcome::Broken(f), None) => {
            fields.push(format!("\"broken\": {}", json::quote(&f)));
            code = 3;
        }
        _ => {}
    }
    println!("{{{}}}", fields.join(", "));
    code
}
