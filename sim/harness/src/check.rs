//! `check`: seeded search for one property, minimisation, replay files, evidence.
use crate::rec::{Outcome, Spec, Violation};
use crate::run::{normalise, run_many, run_one};
use crate::worlds;
use simrt::mix;
use std::collections::{BTreeMap, BTreeSet};
use std::path::PathBuf;

fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("FV_DIR").unwrap_or_else(|_| "/verif".into()))
}
fn secs(since: u64) -> f64 {
    (simrt::raw::real_now() - since) as f64 / 1e9
}

#[derive(serde::Deserialize, Clone, Debug)]
struct Known {
    property: String,
    class: String,
    #[serde(default)]
    contains: String,
    what: String,
}
#[derive(serde::Deserialize, Default)]
struct KnownFile {
    #[serde(default)]
    findings: Vec<Known>,
}
fn known_for(prop: &str) -> Vec<Known> {
    let p = verif_dir().join("known_findings.json");
    let Ok(b) = std::fs::read(&p) else { return vec![] };
    match serde_json::from_slice::<KnownFile>(&b) {
        Ok(k) => k.findings.into_iter().filter(|k| k.property == prop).collect(),
        Err(e) => {
            eprintln!("known_findings.json: {e}");
            std::process::exit(3)
        }
    }
}
fn is_known(known: &[Known], v: &Violation) -> bool {
    known.iter().any(|k| k.class == v.class && v.msg.contains(&k.contains))
}
fn relevant<'a>(o: &'a Outcome, prop: &str, known: &[Known]) -> Option<&'a Violation> {
    o.violations.iter().find(|v| v.props.iter().any(|p| p == prop) && !is_known(known, v))
}
fn same<'a>(o: &'a Outcome, prop: &str, class: &str, known: &[Known]) -> Option<&'a Violation> {
    o.violations.iter().find(|v| v.class == class && v.props.iter().any(|p| p == prop) && !is_known(known, v))
}

pub fn replay_json(spec: &Spec, prop: &str, v: &Violation, o: &Outcome) -> serde_json::Value {
    serde_json::json!({
        "property": prop, "spec": spec, "violation": v,
        "faults": o.faults, "sched_hash": o.sched_hash.to_string(), "hist_hash": o.hist_hash.to_string(),
        "knobs": o.knobs, "history": o.history,
        "how": "sim/run.sh replay <this file>"
    })
}

fn minimise(spec: &Spec, first: &Outcome, prop: &str, class: &str, known: &[Known], budget: f64) -> (Spec, Outcome) {
    let t0 = simrt::raw::real_now();
    let mut best = spec.clone();
    let mut out = first.clone();
    let left = || secs(t0) < budget;
    let attempt = |s: &Spec| -> Option<Outcome> {
        let o = run_one(s);
        same(&o, prop, class, known).is_some().then_some(o)
    };
    // 1. no injected disk/network faults of the numbered kind at all?
    if !out.faults.is_empty() {
        let mut s = best.clone();
        s.fault_limit = Some(0);
        if let Some(o) = attempt(&s) {
            best = s;
            out = o;
        } else {
            // drop the tail, then single faults
            let all: Vec<u64> = out.faults.iter().map(|f| f.0).collect();
            let mut chunk = all.len().div_ceil(2);
            while chunk >= 1 && left() {
                let cur: Vec<u64> = out.faults.iter().map(|f| f.0).collect();
                for c in cur.chunks(chunk) {
                    if !left() || cur.len() <= 1 {
                        break;
                    }
                    let mut s = best.clone();
                    s.fault_off.extend(c.iter().copied());
                    if let Some(o) = attempt(&s) {
                        best = s;
                        out = o;
                    }
                }
                if chunk == 1 {
                    break;
                }
                chunk /= 2;
            }
        }
    }
    // 2. operations
    let n = out.n_ops;
    if n > 0 {
        let mut chunk = n.div_ceil(2).max(1);
        loop {
            let alive: Vec<u32> = (0..n).filter(|i| !best.drop_ops.contains(i)).collect();
            let mut i = alive.len();
            while i > 0 && left() {
                let lo = i.saturating_sub(chunk as usize);
                let mut s = best.clone();
                s.drop_ops.extend(alive[lo..i].iter().copied());
                if let Some(o) = attempt(&s) {
                    best = s;
                    out = o;
                }
                i = lo;
            }
            if chunk == 1 || !left() {
                break;
            }
            chunk = chunk.div_ceil(2);
        }
    }
    // 3. schedule: first none of the recorded deviations, then halves of them
    if !out.ended.starts_with("signal") {
        let mut s = best.clone();
        s.switches = Some(vec![]);
        s.stalls = Some(vec![]);
        if let Some(o) = attempt(&s) {
            best = s;
            out = o;
        } else {
            let mut s = best.clone();
            s.switches = Some(out.switches.clone());
            s.stalls = Some(out.stalls.clone());
            if let Some(o) = attempt(&s) {
                best = s;
                out = o;
                let mut s = best.clone();
                s.stalls = Some(vec![]);
                if let Some(o) = attempt(&s) {
                    best = s;
                    out = o;
                }
                let mut chunk = best.switches.as_ref().unwrap().len().div_ceil(2).max(1);
                while left() {
                    let mut i = best.switches.as_ref().unwrap().len();
                    while i > 0 && left() {
                        let lo = i.saturating_sub(chunk);
                        let mut s = best.clone();
                        let sw = s.switches.as_mut().unwrap();
                        if i <= sw.len() {
                            sw.drain(lo..i);
                            if let Some(o) = attempt(&s) {
                                best = s;
                                out = o;
                            }
                        }
                        i = lo;
                    }
                    if chunk == 1 {
                        break;
                    }
                    chunk = chunk.div_ceil(2);
                }
            }
        }
    }
    (best, out)
}

pub fn check(prop: &str, tier: &str) -> i32 {
    let t0 = simrt::raw::real_now();
    let seed0: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let budget: f64 = std::env::var("FV_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { 1500.0 } else { 50.0 });
    let max_runs: u64 = std::env::var("FV_RUNS").ok().and_then(|s| s.parse().ok()).unwrap_or(u64::MAX);
    let jobs: usize = std::env::var("FV_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or(unsafe { libc::sysconf(libc::_SC_NPROCESSORS_ONLN) }.clamp(1, 8) as usize);
    let plan = worlds::for_prop(prop);
    if plan.is_empty() {
        eprintln!("no world decides {prop}");
        return 3;
    }
    let known = known_for(prop);
    let total_w: u64 = plan.iter().map(|p| p.1 as u64).sum();
    println!("check {prop} tier={tier} seed={seed0} budget={budget}s jobs={jobs} worlds={plan:?}");

    let mut i = 0u64;
    let mut evals = 0u64;
    let mut per_world: BTreeMap<String, u64> = BTreeMap::new();
    let mut sigs: BTreeSet<u64> = BTreeSet::new();
    let mut scheds: BTreeSet<u64> = BTreeSet::new();
    let mut states: BTreeSet<u64> = BTreeSet::new();
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<serde_json::Value> = vec![];
    let mut sim_ns = 0u128;
    let mut decisions = 0u64;
    let mut preempt = 0u64;
    let mut known_seen: BTreeMap<String, u64> = BTreeMap::new();
    let mut other_props: BTreeMap<String, u64> = BTreeMap::new();
    let mut unrepeatable = 0u64;
    let mut nondet = 0u64;
    let mut rechecked = 0u64;
    let mut harness_errors: BTreeMap<String, u64> = BTreeMap::new();
    let mut first: Vec<(Spec, Outcome)> = vec![];
    let mut found: Option<(Spec, Outcome, Violation)> = None;
    let mut rejected: BTreeSet<u64> = BTreeSet::new();

    while found.is_none() && i < max_runs && secs(t0) < budget {
        let mut cand: Option<(Spec, Outcome)> = None;
        run_many(
            jobs,
            || {
                if i >= max_runs || secs(t0) >= budget {
                    return None;
                }
                let mut w = mix(i, 0x5bd1) % total_w;
                let mut name = plan[0].0;
                for (n, k) in &plan {
                    if w < *k as u64 {
                        name = n;
                        break;
                    }
                    w -= *k as u64;
                }
                let seed = mix(mix(seed0, i), crate::rec::fnv1(prop.as_bytes()));
                i += 1;
                Some(Spec { world: name.to_string(), bias: prop.to_string(), seed, ..Default::default() })
            },
            |spec, end| {
                let o = normalise(&spec, end);
                evals += 1;
                *per_world.entry(spec.world.clone()).or_default() += 1;
                for (k, v) in &o.counters {
                    *counters.entry(k.clone()).or_default() += v;
                }
                sim_ns += o.sim_ns as u128;
                decisions += o.decisions;
                preempt += o.preemptions;
                scheds.insert(o.sched_hash);
                if states.len() < 2_000_000 {
                    states.extend(o.states.iter().copied());
                }
                if o.nontrivial {
                    sigs.insert(o.sched_hash ^ o.hist_hash.rotate_left(17));
                }
                if o.ended.starts_with("harness") {
                    *harness_errors.entry(o.ended.clone()).or_default() += 1;
                }
                for v in &o.violations {
                    for p in &v.props {
                        if p != prop {
                            *other_props.entry(format!("{p}:{}", v.class)).or_default() += 1;
                        }
                    }
                    if v.props.iter().any(|p| p == prop) && is_known(&known, v) {
                        let k = known.iter().find(|k| k.class == v.class && v.msg.contains(&k.contains)).unwrap();
                        *known_seen.entry(k.what.clone()).or_default() += 1;
                    }
                }
                if samples.len() < 3 && o.nontrivial && o.history.len() > 3 {
                    samples.push(serde_json::json!({"world": spec.world, "seed": spec.seed.to_string(), "knobs": o.knobs, "events": o.history.iter().take(25).collect::<Vec<_>>()}));
                }
                if first.len() < 4 && o.ended == "done" {
                    first.push((spec.clone(), o.clone()));
                }
                if cand.is_none() && !rejected.contains(&spec.seed) && relevant(&o, prop, &known).is_some() {
                    cand = Some((spec, o));
                    return false;
                }
                true
            },
        );
        if let Some((spec, o)) = cand {
            let v = relevant(&o, prop, &known).unwrap().clone();
            let again = run_one(&spec);
            if let Some(v2) = same(&again, prop, &v.class, &known) {
                found = Some((spec, again.clone(), v2.clone()));
            } else {
                unrepeatable += 1;
                eprintln!("harness: seed {} of world {} showed {} once but not again", spec.seed, spec.world, v.class);
                rejected.insert(spec.seed);
            }
        }
    }
    if found.is_none() {
        // repeatability: the first runs again, in other processes
        for (s, o) in &first {
            rechecked += 1;
            let b = run_one(s);
            if (b.hist_hash, b.sched_hash) != (o.hist_hash, o.sched_hash) {
                nondet += 1;
                eprintln!("harness: seed {} of world {} did not repeat exactly", s.seed, s.world);
            }
        }
    }

    let mut replay_path = None;
    let mut shrunk = serde_json::Value::Null;
    if let Some((spec, out, v)) = &found {
        println!("candidate: {} seed={} class={}", spec.world, spec.seed, v.class);
        let mb = std::env::var("FV_MIN_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { 240.0 } else { 60.0 });
        let (ms, mo) = minimise(spec, out, prop, &v.class, &known, mb);
        let mv = same(&mo, prop, &v.class, &known).cloned().unwrap_or(v.clone());
        let dir = verif_dir().join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{prop}-{}-{}.json", spec.world, spec.seed));
        let j = replay_json(&ms, prop, &mv, &mo);
        if let Err(e) = std::fs::write(&path, serde_json::to_vec_pretty(&j).unwrap()) {
            eprintln!("cannot write {}: {e}", path.display());
        }
        shrunk = serde_json::json!({"ops_dropped": ms.drop_ops.len(), "ops": mo.n_ops, "faults_left": mo.faults.len(), "switches_left": mo.switches.len(), "switches_before": out.switches.len()});
        println!("minimised: {shrunk}");
        println!("class {}: {}", mv.class, mv.msg);
        for h in mo.history.iter().rev().take(12).collect::<Vec<_>>().into_iter().rev() {
            println!("  {h}");
        }
        replay_path = Some(path);
    }

    let wall = secs(t0);
    let faults: BTreeMap<String, u64> = counters.iter().filter(|(k, _)| k.starts_with("fault.")).map(|(k, v)| (k.clone(), *v)).collect();
    let probes: BTreeMap<String, u64> = counters.iter().filter(|(k, _)| !k.starts_with("fault.")).map(|(k, v)| (k.clone(), *v)).collect();
    let (real, stub, rule) = worlds::describe(prop);
    let ev = serde_json::json!({
        "property": prop, "tier": tier, "seed": seed0, "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": sigs.len(),
            "rule": rule,
            "samples": samples,
            "simulated_runs_per_hour": (evals as f64 / wall * 3600.0) as u64,
            "runs_per_world": per_world,
            "simulated_seconds": sim_ns as f64 / 1e9,
            "scheduling_decisions": decisions,
            "forced_preemptions": preempt,
            "distinct_interleavings": scheds.len(),
            "distinct_states": states.len(),
            "faults_injected": faults,
            "probes": probes,
            "known_findings_seen": known_seen,
            "seen_for_other_properties": other_props,
            "repeatability": {"rerun": rechecked, "differed": nondet, "unrepeatable_candidates": unrepeatable},
            "harness_errors": harness_errors,
            "components_real": real,
            "components_stub": stub,
            "minimised": shrunk,
        },
        "wall_s": wall,
        "assumptions": worlds::assumptions(prop),
        "violations": if found.is_some() { 1 } else { 0 },
    });
    let evd = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&evd);
    if let Err(e) = std::fs::write(evd.join(format!("{prop}.json")), serde_json::to_vec_pretty(&ev).unwrap()) {
        eprintln!("cannot write evidence: {e}");
        return 3;
    }
    for k in &known {
        println!("KNOWN-FINDING: property={prop} {}", k.what);
    }
    println!(
        "{prop}: {evals} runs, {} distinct non-trivial, {} interleavings, {} states, {:.0} simulated s, faults {:?}, {:.1}s wall",
        sigs.len(), scheds.len(), states.len(), sim_ns as f64 / 1e9, faults, wall
    );
    if !other_props.is_empty() {
        println!("(also seen, for other properties: {other_props:?})");
    }
    if let Some(p) = replay_path {
        println!("VIOLATION property={prop} replay={}", p.display());
        return 1;
    }
    if evals == 0 {
        eprintln!("harness: nothing was run");
        return 3;
    }
    0
}

pub fn replay(path: &str) -> i32 {
    let b = match std::fs::read(path) {
        Ok(b) => b,
        Err(e) => {
            eprintln!("{path}: {e}");
            return 3;
        }
    };
    let j: serde_json::Value = serde_json::from_slice(&b).expect("replay file");
    let spec: Spec = serde_json::from_value(j["spec"].clone()).expect("spec");
    let want: Violation = serde_json::from_value(j["violation"].clone()).expect("violation");
    let prop = j["property"].as_str().unwrap_or("").to_string();
    let o = run_one(&spec);
    for h in &o.history {
        println!("{h}");
    }
    let exact = o.sched_hash.to_string() == j["sched_hash"].as_str().unwrap_or("") && o.hist_hash.to_string() == j["hist_hash"].as_str().unwrap_or("");
    match same(&o, &prop, &want.class, &[]) {
        Some(v) => {
            println!("reproduced {} ({}): {}", v.class, if exact { "identical execution" } else { "same violation" }, v.msg);
            println!("VIOLATION property={prop} replay={path}");
            1
        }
        None => {
            println!("not reproduced; ended {} with {:?}", o.ended, o.violations);
            0
        }
    }
}
