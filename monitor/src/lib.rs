//! Runtime monitors for texpresso: workloads, oracles and what they observed.

pub mod alloc;
pub mod checks;
pub mod cost;
pub mod fit;
pub mod gen;
#[cfg(target_pointer_width = "64")]
pub mod giant;
pub mod history;
pub mod jobs;
pub mod json;
pub mod obs;
pub mod run;
pub mod same;
pub mod spec;
#[cfg(feature = "parallel")]
pub mod spread;
pub mod src;
pub mod sizes;
#[cfg(feature = "hooks")]
pub mod stress;
pub mod sweep;
