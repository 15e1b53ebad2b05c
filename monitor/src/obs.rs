//! What a check observed: counts, distinct cases, labels, samples.

use std::collections::{BTreeMap, HashSet};

const MAX_KEYS: usize = 1 << 19;

#[derive(Default)]
pub struct Obs {
    /// library calls whose results were judged
    pub calls: u64,
    /// cases (one per generated input)
    pub cases: u64,
    /// cases that count as non-trivial
    pub nontrivial: u64,
    pub keys: HashSet<u64>,
    /// distinct cases beyond what the key set can hold, from exhaustive sweeps
    pub swept: u64,
    pub labels: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
    /// the caller wants a description of the case
    pub want_text: bool,
    pub text: String,
}

impl Obs {
    pub fn key(&mut self, k: u64, nontrivial: bool) {
        self.cases += 1;
        if nontrivial {
            self.nontrivial += 1;
            if self.keys.len() < MAX_KEYS {
                self.keys.insert(k);
            }
        }
    }

    pub fn label(&mut self, l: &'static str) {
        *self.labels.entry(l).or_insert(0) += 1;
    }

    pub fn add(&mut self, l: &'static str, n: u64) {
        *self.labels.entry(l).or_insert(0) += n;
    }

    pub fn max(&mut self, l: &'static str, n: u64) {
        let e = self.labels.entry(l).or_insert(0);
        *e = (*e).max(n);
    }

    pub fn describe(&mut self, f: impl FnOnce() -> String) {
        if self.want_text {
            self.text = f();
        }
    }

    pub fn distinct(&self) -> u64 {
        self.keys.len() as u64 + self.swept
    }

    pub fn merge(&mut self, o: Obs) {
        self.calls += o.calls;
        self.cases += o.cases;
        self.nontrivial += o.nontrivial;
        self.swept += o.swept;
        self.keys.extend(o.keys);
        for (l, n) in o.labels {
            let e = self.labels.entry(l).or_insert(0);
            if l.starts_with("max ") {
                *e = (*e).max(n);
            } else {
                *e += n;
            }
        }
        self.samples.extend(o.samples);
    }
}
