mod check;
mod rec;
mod run;
mod worlds;

#[global_allocator]
static A: simrt::alloc::SimAlloc = simrt::alloc::SimAlloc;

fn no_aslr() {
    unsafe {
        if std::env::var_os("FV_REEXEC").is_some() {
            return;
        }
        let p = libc::personality(0xffff_ffff);
        if p < 0 || p & libc::ADDR_NO_RANDOMIZE != 0 {
            return;
        }
        if libc::personality((p | libc::ADDR_NO_RANDOMIZE) as u64) < 0 {
            return;
        }
        use std::os::unix::process::CommandExt;
        let keep = |k: &str| k.starts_with("FV_") || k.starts_with("VERIF_");
        let vars: Vec<_> = std::env::vars().filter(|(k, _)| keep(k)).collect();
        let e = std::process::Command::new("/proc/self/exe").args(std::env::args().skip(1)).env_clear().envs(vars).env("FV_REEXEC", "1").exec();
        eprintln!("re-exec: {e}");
    }
}

fn main() {
    no_aslr();
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).cloned().unwrap_or_default();
    // single-threaded warm-up of process-wide constants, then the driver leaves the simulated heap alone
    worlds::warm_up();
    simrt::alloc::set_driver(true);
    let code = match arg(1).as_str() {
        "check" => {
            let tier = std::env::var("VERIF_TIER").unwrap_or("quick".into());
            let tier = if arg(3).is_empty() { tier } else { arg(3) };
            check::check(&arg(2), if tier == "thorough" { "thorough" } else { "quick" })
        }
        "replay" => check::replay(&arg(2)),
        "one" => {
            let spec = rec::Spec { world: arg(2), bias: arg(3), seed: arg(4).parse().unwrap(), ..Default::default() };
            let o = run::run_one(&spec);
            for h in &o.history {
                println!("{h}");
            }
            println!("ended={} ops={} decisions={} switches={} preempt={} threads={} sim={:.3}s sched={:x} hist={:x} states={} nontrivial={}", o.ended, o.n_ops, o.decisions, o.sched_switches, o.preemptions, o.threads, o.sim_ns as f64 / 1e9, o.sched_hash, o.hist_hash, o.states.len(), o.nontrivial);
            println!("knobs {}", o.knobs);
            println!("counters {:?}", o.counters);
            for v in &o.violations {
                println!("VIOL {:?} {} {}", v.props, v.class, v.msg);
            }
            0
        }
        // writes the ring proofs used by the chain worlds (minutes; the result is committed)
        "gen-tickets" => {
            std::fs::write(arg(2), worlds::chain::build::make_proofs()).expect("write");
            0
        }
        // the reference interpreter against the real one, without any services around them (for development)
        "vmdiff" => worlds::chain::vmdiff::run(arg(2).parse().unwrap_or(10_000), arg(3).parse().unwrap_or(0)),
        // many seeds twice each, in different processes and at different worker counts
        "determinism" => {
            let (world, bias, n) = (arg(2), arg(3), arg(4).parse::<u64>().unwrap_or(50));
            let mut res: Vec<std::collections::BTreeMap<u64, (u64, u64, u64, String)>> = vec![];
            for jobs in [8, 3] {
                let mut i = 0;
                let mut m = std::collections::BTreeMap::new();
                run::run_many(
                    jobs,
                    || {
                        i += 1;
                        (i <= n).then(|| rec::Spec { world: world.clone(), bias: bias.clone(), seed: simrt::mix(i, 0), ..Default::default() })
                    },
                    |s, e| {
                        let o = run::normalise(&s, e);
                        m.insert(s.seed, (o.sched_hash, o.hist_hash, o.decisions, o.ended.clone()));
                        true
                    },
                );
                res.push(m);
            }
            let mut bad = 0;
            for (k, v) in &res[0] {
                if res[1].get(k) != Some(v) {
                    bad += 1;
                    println!("seed {k}: {v:?} vs {:?}", res[1].get(k));
                }
            }
            println!("determinism {world}: {n} seeds twice, {bad} differ");
            (bad > 0) as i32
        }
        // a batch with a summary of everything observed, for development
        "batch" => {
            let (world, bias, n) = (arg(2), arg(3), arg(4).parse::<u64>().unwrap_or(100));
            let t0 = simrt::raw::real_now();
            let mut i = 0;
            let mut viol: std::collections::BTreeMap<String, (u64, u64, String)> = Default::default();
            let mut cnt: std::collections::BTreeMap<String, u64> = Default::default();
            let mut ended: std::collections::BTreeMap<String, u64> = Default::default();
            let base = arg(5).parse::<u64>().unwrap_or(0);
            run::run_many(
                8,
                || {
                    i += 1;
                    (i <= n).then(|| rec::Spec { world: world.clone(), bias: bias.clone(), seed: simrt::mix(base + i, 0), ..Default::default() })
                },
                |s, e| {
                    let o = run::normalise(&s, e);
                    for v in &o.violations {
                        let e = viol.entry(format!("{:?} {}", v.props, v.class)).or_insert((0, s.seed, v.msg.clone()));
                        e.0 += 1;
                    }
                    for (k, v) in &o.counters {
                        *cnt.entry(k.clone()).or_default() += v;
                    }
                    *cnt.entry("nontrivial".into()).or_default() += o.nontrivial as u64;
                    *cnt.entry("decisions".into()).or_default() += o.decisions;
                    *ended.entry(o.ended.chars().take(80).collect()).or_default() += 1;
                    true
                },
            );
            println!("{n} runs in {:.1}s; ended {ended:?}", (simrt::raw::real_now() - t0) as f64 / 1e9);
            println!("{cnt:#?}");
            for (k, (c, s, m)) in viol {
                println!("VIOL {k} x{c} e.g. seed {s}: {}", m.chars().take(400).collect::<String>());
            }
            0
        }
        _ => {
            eprintln!("fvsim check <property> [tier] | replay <file> | one <world> <bias> <seed> | batch <world> <bias> <n> | determinism <world> <bias> <n>");
            2
        }
    };
    std::process::exit(code);
}
