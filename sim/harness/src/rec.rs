//! Recording of one run: violations, history, states reached. Never draws randomness or reads a clock.
use serde::{Deserialize, Serialize};
use simrt::Guard;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub struct Violation {
    /// Properties this observation refutes.
    pub props: Vec<String>,
    /// Stable identifier of what went wrong (used to compare runs while minimising).
    pub class: String,
    pub msg: String,
}

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct Spec {
    pub world: String,
    /// Property whose check runs this (biases the workload).
    pub bias: String,
    pub seed: u64,
    #[serde(default)]
    pub drop_ops: BTreeSet<u32>,
    #[serde(default)]
    pub fault_off: BTreeSet<u64>,
    #[serde(default)]
    pub fault_limit: Option<u64>,
    /// Recorded schedule: (tick, thread) and (tick, stall ns). None = let the seed decide.
    #[serde(default)]
    pub switches: Option<Vec<(u64, u32)>>,
    #[serde(default)]
    pub stalls: Option<Vec<(u64, u64)>>,
}

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct Outcome {
    pub violations: Vec<Violation>,
    pub history: Vec<String>,
    pub hist_hash: u64,
    pub sched_hash: u64,
    pub states: Vec<u64>,
    pub counters: BTreeMap<String, u64>,
    pub sim_ns: u64,
    pub decisions: u64,
    pub sched_switches: u64,
    pub preemptions: u64,
    pub threads: u64,
    pub n_ops: u32,
    pub nontrivial: bool,
    pub ended: String,
    pub switches: Vec<(u64, u32)>,
    pub stalls: Vec<(u64, u64)>,
    pub faults: Vec<(u64, String, u64)>,
    pub knobs: String,
}

#[derive(Default)]
struct Rec {
    violations: Vec<Violation>,
    history: Vec<String>,
    hist_hash: u64,
    states: BTreeSet<u64>,
    n_ops: u32,
    nontrivial: bool,
    knobs: String,
    default_props: Vec<String>,
    fd: i32,
    panics: Vec<String>,
    keep: usize,
}
static mut REC: Option<Box<Rec>> = None;

#[allow(static_mut_refs)]
fn rec() -> &'static mut Rec {
    unsafe { REC.as_mut().expect("recorder") }
}
pub fn init(fd: i32) {
    let _g = Guard::new();
    unsafe {
        REC = Some(Box::new(Rec { fd, hist_hash: 0xcbf29ce484222325, keep: 400, ..Default::default() }));
    }
}
fn fnv(mut h: u64, b: &[u8]) -> u64 {
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    h
}
pub fn fnv1(b: &[u8]) -> u64 {
    fnv(0xcbf29ce484222325, b)
}
pub fn violate(props: &[&str], class: &str, msg: impl Into<String>) {
    let _g = Guard::new();
    let r = rec();
    let msg: String = msg.into();
    if r.violations.len() < 40 {
        r.history.push(format!("#{} VIOLATION {} {}", simrt::seq(), class, msg));
        r.violations.push(Violation { props: props.iter().map(|s| s.to_string()).collect(), class: class.to_string(), msg });
    }
}
pub fn violated() -> bool {
    !rec().violations.is_empty()
}
/// History line; also part of the determinism digest.
pub fn hist(s: impl AsRef<str>) {
    let _g = Guard::new();
    let r = rec();
    let s = s.as_ref();
    r.hist_hash = fnv(r.hist_hash, s.as_bytes());
    if r.history.len() < r.keep {
        r.history.push(format!("#{} t{} {}", simrt::seq(), simrt::me(), s));
    }
}
/// A distinct state reached (for the coverage measure).
pub fn state(h: u64) {
    let _g = Guard::new();
    let r = rec();
    r.hist_hash = fnv(r.hist_hash, &h.to_le_bytes());
    if r.states.len() < 4096 {
        r.states.insert(h);
    }
}
pub fn ops(n: u32) {
    rec().n_ops = n;
}
pub fn nontrivial() {
    rec().nontrivial = true;
}
pub fn knobs(s: String) {
    let _g = Guard::new();
    rec().knobs = s.clone();
}
/// Properties blamed for deadlocks, hangs, crashes of the process.
pub fn blame(props: &[&str]) {
    let _g = Guard::new();
    rec().default_props = props.iter().map(|s| s.to_string()).collect();
}
pub fn panicked(s: String) {
    let _g = Guard::new();
    let r = rec();
    r.hist_hash = fnv(r.hist_hash, s.as_bytes());
    if r.history.len() < r.keep {
        r.history.push(format!("#{} t{} PANIC {}", simrt::seq(), simrt::me(), s));
    }
    r.panics.push(s);
}
pub fn take_panics() -> Vec<String> {
    let _g = Guard::new();
    std::mem::take(&mut rec().panics)
}
pub fn panics() -> usize {
    rec().panics.len()
}

pub fn finish(ended: &str) -> ! {
    std::mem::forget(Guard::new());
    let r = rec();
    let o = simrt::with(|s| Outcome {
        violations: r.violations.clone(),
        history: r.history.clone(),
        hist_hash: r.hist_hash,
        sched_hash: s.hash,
        states: r.states.iter().copied().collect(),
        counters: s.counters.iter().map(|(k, v)| (k.to_string(), *v)).collect(),
        sim_ns: s.now - s.start_ns(),
        decisions: s.stats.decisions,
        sched_switches: s.stats.switches,
        preemptions: s.stats.forced,
        threads: s.stats.threads,
        n_ops: r.n_ops,
        nontrivial: r.nontrivial,
        ended: ended.to_string(),
        switches: if r.violations.is_empty() { vec![] } else { s.trace.switches.clone() },
        stalls: if r.violations.is_empty() { vec![] } else { s.trace.stalls.clone() },
        faults: if r.violations.is_empty() { vec![] } else { s.fault_log.iter().map(|(a, b, c)| (*a, b.to_string(), *c)).collect() },
        knobs: r.knobs.clone(),
    });
    let v = serde_json::to_vec(&o).unwrap_or_default();
    unsafe {
        simrt::raw::write_all(r.fd, &v);
        simrt::raw::exit_group(0)
    }
}
/// Called by the simulator when the run cannot go on.
pub fn on_fatal(why: &str) -> ! {
    std::mem::forget(Guard::new());
    let r = rec();
    let props: Vec<&str> = r.default_props.iter().map(|s| s.as_str()).collect();
    let kind = why.split(':').next().unwrap_or("fatal").to_string();
    let props2: Vec<String> = props.iter().map(|s| s.to_string()).collect();
    if kind != "harness" {
        r.violations.push(Violation { props: props2, class: kind.clone(), msg: why.to_string() });
        r.history.push(format!("FATAL {why}"));
    }
    let k = kind.clone();
    finish(&k)
}
pub fn last_panic() -> String {
    let _g = Guard::new();
    rec().panics.last().cloned().unwrap_or_default()
}
/// A violation blamed on the world's default properties.
pub fn fatal_violation(class: &str, msg: &str) {
    let _g = Guard::new();
    let p = rec().default_props.clone();
    let p: Vec<&str> = p.iter().map(|s| s.as_str()).collect();
    violate(&p, class, msg);
}
