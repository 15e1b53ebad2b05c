//! Coverage- and comparison-guided generation for the oracles in the monitor crate.
//! MONITOR_PROP selects the property; the violation's text goes to the file MONITOR_FUZZ_OUT.
#![no_main]

use libfuzzer_sys::fuzz_target;
use monitor::obs::Obs;
use monitor::run::{self, Outcome};
use monitor::src::Src;
use std::sync::OnceLock;

static PROP: OnceLock<String> = OnceLock::new();

fuzz_target!(|data: &[u8]| {
    let prop = PROP.get_or_init(|| {
        run::install_panic_hook();
        std::env::var("MONITOR_PROP").expect("MONITOR_PROP")
    });
    let judge = |want_text: bool| {
        let mut o = Obs { want_text, ..Obs::default() };
        let out = run::guarded(|| monitor::checks::check(prop, &mut Src::bytes(data), &mut o));
        (out, o.text)
    };
    let (kind, detail) = match judge(false).0 {
        Outcome::Held => return,
        Outcome::Violated(d) => ("violation", d),
        Outcome::Broken(d) => ("broken", d),
    };
    let text = judge(true).1;
    if let Ok(path) = std::env::var("MONITOR_FUZZ_OUT") {
        let _ = std::fs::write(path, format!("{}\n{}\n{}\n", kind, detail.replace('\n', " "), text.replace('\n', " ")));
    }
    std::process::abort();
});
