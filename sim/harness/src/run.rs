//! One simulated run = one forked process. This is the driver's side.
use crate::rec::{self, Outcome, Spec, Violation};
use crate::worlds;
use simrt::{Policy, Rng, Trace};

pub enum End {
    Done(Outcome),
    /// Signal, or wall/CPU budget exceeded.
    Died(String),
}

fn sched_config(spec: &Spec) -> simrt::Config {
    let mut r = Rng::stream(spec.seed, 7001);
    let policy = match r.below(100) {
        0..=14 => Policy::Sticky,
        15..=59 => Policy::Random(*r.pick(&[4, 16, 48, 96, 160])),
        _ => Policy::Pct(*r.pick(&[20, 80, 300, 1500])),
    };
    let alloc_mean = *r.pick(&[0, 0, 60, 400, 3000]);
    let (stall_chance, stall_max_ns) = *r.pick(&[(0, 0), (0, 0), (40, 2_000_000), (200, 50_000_000), (30, 900_000_000)]);
    let step_ns = *r.pick(&[200, 2000, 2000, 20_000]);
    let mut c = simrt::Config {
        seed: spec.seed,
        policy,
        alloc_mean,
        stall_chance,
        stall_max_ns,
        step_ns,
        spurious_wake: *r.pick(&[0, 0, 200]),
        ..Default::default()
    };
    // its own stream: with a mean of 0 the schedule is that of the pre-emption points at calls alone
    let mut b = Rng::stream(spec.seed, 7002);
    c.blocks = b.chance(1, 2);
    if c.blocks {
        c.alloc_mean = *b.pick(&[150, 700, 3000, 15_000]);
    }
    worlds::tune(spec, &mut c, &mut r);
    if let Some(sw) = &spec.switches {
        c.replay = Some(Trace { switches: sw.clone(), stalls: spec.stalls.clone().unwrap_or_default() });
    }
    c
}

fn child(spec: Spec, fd: i32, cpu: usize) -> ! {
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET(cpu, &mut set);
        simrt::raw::sys6(libc::SYS_sched_setaffinity, 0, std::mem::size_of_val(&set), &set as *const _ as usize, 0, 0, 0);
        let lim = libc::rlimit { rlim_cur: 150, rlim_max: 155 };
        libc::setrlimit(libc::RLIMIT_CPU, &lim);
        let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &core);
        if std::env::var_os("FV_DEBUG").is_none() {
            let n = libc::open(c"/dev/null".as_ptr(), libc::O_RDWR);
            for k in 0..3 {
                simrt::raw::sys6(libc::SYS_dup2, n as usize, k, 0, 0, 0, 0);
            }
        }
    }
    simrt::alloc::set_driver(false);
    // re-create the specification inside the simulated heap
    let spec: Spec = serde_json::from_slice(&serde_json::to_vec(&spec).unwrap()).unwrap();
    rec::init(fd);
    rec::blame(&worlds::blame(&spec));
    let cfg = sched_config(&spec);
    rec::knobs(format!("{:?} alloc_mean={} blocks={} stall={}/{} step={}", cfg.policy, cfg.alloc_mean, cfg.blocks, cfg.stall_chance, cfg.stall_max_ns, cfg.step_ns));
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned());
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        rec::panicked(format!("{} at {}", m.unwrap_or_default(), l));
        if std::env::var_os("FV_DEBUG").is_some() {
            eprintln!("PANIC {} {}", rec::last_panic(), std::backtrace::Backtrace::force_capture());
        }
    }));
    simrt::start(cfg, rec::on_fatal);
    if let Some(v) = std::env::var("FV_LOG").ok() {
        let filter = if v == "1" { "warn,fr_network=debug,fr_node=debug".to_string() } else { v };
        let _g = simrt::Guard::new();
        let sub = tracing_subscriber::fmt().with_env_filter(filter).with_timer(SimTime).with_ansi(false).with_writer(std::io::stderr).finish();
        let _ = tracing::subscriber::set_global_default(Quiet(sub));
    }
    simrt::with(|s| {
        s.fault_off = spec.fault_off.clone();
        s.fault_limit = spec.fault_limit.unwrap_or(u64::MAX);
    });
    let h = std::thread::Builder::new().name("world".into()).stack_size(64 << 20).spawn(move || worlds::run(&spec)).unwrap();
    if h.join().is_err() {
        let p = rec::last_panic();
        rec::fatal_violation("panic", &format!("the run panicked: {p}"));
        rec::finish("panic");
    }
    rec::finish("done")
}

struct Slot {
    pid: i32,
    fd: i32,
    buf: Vec<u8>,
    spec: Spec,
    started: u64,
    killed: bool,
    cpu: usize,
}

/// Runs specs from `next` on all slots until it returns None; `done` may return false to stop early.
struct SimTime;
impl tracing_subscriber::fmt::time::FormatTime for SimTime {
    fn format_time(&self, w: &mut tracing_subscriber::fmt::format::Writer<'_>) -> std::fmt::Result {
        write!(w, "{:.6} n{}", (simrt::now() % 1_000_000_000_000_000_000) as f64 / 1e9, simrt::node())
    }
}
/// Logging must not disturb the run: it happens outside the simulation.
struct Quiet<S>(S);
impl<S: tracing::Subscriber> tracing::Subscriber for Quiet<S> {
    fn register_callsite(&self, m: &'static tracing::Metadata<'static>) -> tracing::subscriber::Interest {
        let _g = simrt::Guard::new();
        self.0.register_callsite(m)
    }
    fn enabled(&self, m: &tracing::Metadata<'_>) -> bool {
        let _g = simrt::Guard::new();
        self.0.enabled(m)
    }
    fn new_span(&self, a: &tracing::span::Attributes<'_>) -> tracing::span::Id {
        let _g = simrt::Guard::new();
        self.0.new_span(a)
    }
    fn record(&self, i: &tracing::span::Id, v: &tracing::span::Record<'_>) {
        let _g = simrt::Guard::new();
        self.0.record(i, v)
    }
    fn record_follows_from(&self, a: &tracing::span::Id, b: &tracing::span::Id) {
        let _g = simrt::Guard::new();
        self.0.record_follows_from(a, b)
    }
    fn event(&self, e: &tracing::Event<'_>) {
        let _g = simrt::Guard::new();
        self.0.event(e)
    }
    fn enter(&self, i: &tracing::span::Id) {
        let _g = simrt::Guard::new();
        self.0.enter(i)
    }
    fn exit(&self, i: &tracing::span::Id) {
        let _g = simrt::Guard::new();
        self.0.exit(i)
    }
    fn clone_span(&self, i: &tracing::span::Id) -> tracing::span::Id {
        let _g = simrt::Guard::new();
        self.0.clone_span(i)
    }
    fn try_close(&self, i: tracing::span::Id) -> bool {
        let _g = simrt::Guard::new();
        self.0.try_close(i)
    }
    fn current_span(&self) -> tracing_core::span::Current {
        let _g = simrt::Guard::new();
        self.0.current_span()
    }
    fn max_level_hint(&self) -> Option<tracing::level_filters::LevelFilter> {
        self.0.max_level_hint()
    }
}
pub fn run_many(jobs: usize, mut next: impl FnMut() -> Option<Spec>, mut done: impl FnMut(Spec, End) -> bool) {
    let mut slots: Vec<Slot> = vec![];
    let mut stop = false;
    loop {
        while !stop && slots.len() < jobs {
            let Some(spec) = next() else {
                stop = true;
                break;
            };
            let cpu = (0..jobs).find(|c| !slots.iter().any(|s| s.cpu == *c)).unwrap();
            let mut p = [0i32; 2];
            unsafe {
                if libc::pipe2(p.as_mut_ptr(), libc::O_CLOEXEC) != 0 {
                    eprintln!("harness: pipe failed");
                    std::process::exit(3);
                }
                let pid = libc::fork();
                if pid < 0 {
                    eprintln!("harness: fork failed");
                    std::process::exit(3);
                }
                if pid == 0 {
                    simrt::raw::sys6(libc::SYS_prctl, libc::PR_SET_PDEATHSIG as usize, libc::SIGKILL as usize, 0, 0, 0, 0);
                    child(spec, p[1], cpu);
                }
                simrt::raw::sys6(libc::SYS_close, p[1] as usize, 0, 0, 0, 0, 0);
                slots.push(Slot { pid, fd: p[0], buf: vec![], spec, started: simrt::raw::real_now(), killed: false, cpu });
            }
        }
        if slots.is_empty() {
            return;
        }
        let mut pf: Vec<libc::pollfd> = slots.iter().map(|s| libc::pollfd { fd: s.fd, events: libc::POLLIN, revents: 0 }).collect();
        unsafe {
            libc::poll(pf.as_mut_ptr(), pf.len() as u64, 1000);
        }
        let mut fin = vec![];
        for (i, s) in slots.iter_mut().enumerate() {
            if pf[i].revents != 0 {
                let mut b = [0u8; 65536];
                let n = unsafe { simrt::raw::sys6(libc::SYS_read, s.fd as usize, b.as_mut_ptr() as usize, b.len(), 0, 0, 0) };
                if n > 0 {
                    s.buf.extend_from_slice(&b[..n as usize]);
                } else {
                    fin.push(i);
                }
            } else if simrt::raw::real_now() - s.started > wall_limit() && !s.killed {
                s.killed = true;
                unsafe {
                    libc::kill(s.pid, libc::SIGKILL);
                }
            }
        }
        for i in fin.into_iter().rev() {
            let s = slots.remove(i);
            let mut st = 0;
            unsafe {
                simrt::raw::sys6(libc::SYS_close, s.fd as usize, 0, 0, 0, 0, 0);
                libc::waitpid(s.pid, &mut st, 0);
                let _ = std::fs::remove_dir_all(format!("/tmp/fvsim/{:08}", s.pid));
            }
            let end = match serde_json::from_slice::<Outcome>(&s.buf) {
                Ok(o) => End::Done(o),
                Err(_) => {
                    let sig = st & 0x7f;
                    let why = if s.killed || sig == libc::SIGXCPU || sig == libc::SIGKILL {
                        "hang: the run exceeded its CPU or wall budget without finishing".to_string()
                    } else if sig != 0 {
                        format!("signal-{sig}: the process died")
                    } else {
                        format!("exit-{}: the process ended without a result", (st >> 8) & 0xff)
                    };
                    End::Died(why)
                }
            };
            if !done(s.spec, end) {
                stop = true;
            }
        }
    }
}
fn wall_limit() -> u64 {
    std::env::var("FV_WALL").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(150) * 1_000_000_000
}

/// The outcome of one specification; a death becomes a violation of what the world blames deaths on.
pub fn normalise(spec: &Spec, e: End) -> Outcome {
    match e {
        End::Done(o) => o,
        End::Died(why) => Outcome {
            violations: vec![Violation {
                props: worlds::blame(spec).iter().map(|s| s.to_string()).collect(),
                class: why.split(':').next().unwrap().to_string(),
                msg: why.clone(),
            }],
            ended: why,
            ..Default::default()
        },
    }
}
pub fn run_one(spec: &Spec) -> Outcome {
    let mut out = None;
    let mut once = Some(spec.clone());
    run_many(1, || once.take(), |s, e| {
        out = Some(normalise(&s, e));
        true
    });
    out.unwrap()
}
