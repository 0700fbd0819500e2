//! The scheduler: one baton, passed between real threads at interposed points, by a seeded policy or a recorded trace.
use crate::net::Net;
use crate::raw;
use crate::rng::Rng;
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet, BinaryHeap};
use std::sync::atomic::{AtomicU32, Ordering};

thread_local! {
    static ME: Cell<usize> = const { Cell::new(usize::MAX) };
    static IN_SIM: Cell<u32> = const { Cell::new(0) };
}

pub(crate) static mut SIM: *mut Sim = std::ptr::null_mut();

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Key {
    Futex(usize, u32),
    Epoll(i32),
    Fd(i32),
    Join(usize),
    Sleep,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum St {
    Runnable,
    Blocked(Key, u64),
    Dead,
    /// Belongs to a node that crashed: never runs again.
    Frozen,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Wake {
    None,
    Woken,
    Timeout,
}
pub const NEVER: u64 = u64::MAX;

pub(crate) struct Th {
    pub go: AtomicU32,
    pub st: St,
    pub wake: Wake,
    pub node: u16,
    pub prio: i64,
    pub not_before: u64,
    pub pthread: libc::pthread_t,
}

/// How the next thread is chosen.
#[derive(Clone, Debug)]
pub enum Policy {
    /// Keep running the same thread until it blocks.
    Sticky,
    /// At each decision switch to a random runnable thread with probability num/256.
    Random(u32),
    /// Random priorities, lowered at random change points (PCT), mean decisions between change points.
    Pct(u64),
}

#[derive(Clone, Debug, Default)]
pub struct Trace {
    /// (tick, thread): decisions that differ from the default one (or happen at an allocation).
    pub switches: Vec<(u64, u32)>,
    /// (tick, nanoseconds): the running thread is stalled.
    pub stalls: Vec<(u64, u64)>,
}

#[derive(Clone, Debug)]
pub struct Config {
    pub seed: u64,
    pub policy: Policy,
    /// Mean number of allocations (and basic blocks) between pre-emption points inside straight-line code; 0 = none.
    pub alloc_mean: u64,
    /// Whether basic blocks of the instrumented crates count.
    pub blocks: bool,
    /// Chance (per 65536 decisions) that the pre-empted thread stalls, and for how long at most.
    pub stall_chance: u32,
    pub stall_max_ns: u64,
    /// Each decision takes up to this much simulated time.
    pub step_ns: u64,
    pub max_decisions: u64,
    pub start_ns: u64,
    pub spurious_wake: u32,
    pub replay: Option<Trace>,
}
impl Default for Config {
    fn default() -> Self {
        Config {
            seed: 1,
            policy: Policy::Random(32),
            alloc_mean: 0,
            blocks: false,
            stall_chance: 0,
            stall_max_ns: 0,
            step_ns: 2000,
            max_decisions: 20_000_000,
            start_ns: 1_700_000_000_000_000_000,
            spurious_wake: 0,
            replay: None,
        }
    }
}

pub(crate) struct Ev {
    pub at: u64,
    pub seq: u64,
    pub what: crate::net::NetEvent,
}
impl PartialEq for Ev {
    fn eq(&self, o: &Self) -> bool {
        (self.at, self.seq) == (o.at, o.seq)
    }
}
impl Eq for Ev {}
impl PartialOrd for Ev {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Ev {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        (o.at, o.seq).cmp(&(self.at, self.seq)) // min-heap
    }
}

pub struct Stats {
    pub decisions: u64,
    pub switches: u64,
    pub forced: u64,
    pub alloc_preempts: u64,
    pub stalls: u64,
    pub threads: u64,
    pub time_jumps: u64,
}

pub struct Sim {
    pub(crate) cfg: Config,
    pub(crate) threads: Vec<Box<Th>>,
    pub(crate) cur: usize,
    pub now: u64,
    pub tick: u64,
    next_alloc: u64,
    pub(crate) rng_sched: Rng,
    pub(crate) rng_time: Rng,
    pub(crate) rng_rand: Rng,
    pub(crate) rng_net: Rng,
    pub(crate) rng_fault: Rng,
    pub(crate) events: BinaryHeap<Ev>,
    seq: u64,
    deadlines: BTreeSet<(u64, usize)>,
    ready: BTreeSet<usize>,
    pub trace: Trace,
    sw_pos: usize,
    st_pos: usize,
    pct_next: u64,
    low_prio: i64,
    pub hash: u64,
    pub stats: Stats,
    pub counters: BTreeMap<&'static str, u64>,
    pub(crate) net: Net,
    /// Per-node offset of the wall clock.
    pub clock_offset: BTreeMap<u16, i64>,
    /// (node, chance per 65536, longest, readings left): its threads stall after reading the wall clock.
    pub clock_stall: (u16, u32, u64, u64),
    on_fatal: Option<fn(&str) -> !>,
    pub(crate) stack_next: usize,
    pub fault_seq: u64,
    pub fault_off: BTreeSet<u64>,
    pub fault_limit: u64,
    pub fault_log: Vec<(u64, &'static str, u64)>,
}

pub struct Guard;
impl Guard {
    #[inline]
    pub fn new() -> Guard {
        IN_SIM.with(|c| c.set(c.get() + 1));
        Guard
    }
}
impl Drop for Guard {
    #[inline]
    fn drop(&mut self) {
        IN_SIM.with(|c| c.set(c.get() - 1));
    }
}

/// True if the calling thread is simulated and not already inside the simulator.
#[inline]
pub fn active() -> bool {
    unsafe {
        if SIM.is_null() {
            return false;
        }
    }
    ME.with(|m| m.get()) != usize::MAX && IN_SIM.with(|c| c.get()) == 0
}
#[inline]
pub(crate) fn simulated() -> bool {
    unsafe { !SIM.is_null() && ME.with(|m| m.get()) != usize::MAX }
}
#[allow(static_mut_refs)]
#[inline]
pub(crate) fn sim() -> &'static mut Sim {
    unsafe { &mut *SIM }
}
pub fn sim_mut() -> &'static mut Sim {
    sim()
}
pub fn me() -> usize {
    ME.with(|m| m.get())
}

/// Starts simulating in this process; the calling (only) thread becomes thread 0.
pub fn start(cfg: Config, on_fatal: fn(&str) -> !) {
    let g = Guard::new();
    let seed = cfg.seed;
    unsafe { BLOCKS = cfg.blocks };
    let mut s = Box::new(Sim {
        threads: vec![],
        cur: 0,
        now: cfg.start_ns,
        tick: 0,
        next_alloc: u64::MAX,
        rng_sched: Rng::stream(seed, 1),
        rng_time: Rng::stream(seed, 2),
        rng_rand: Rng::stream(seed, 3),
        rng_net: Rng::stream(seed, 4),
        rng_fault: Rng::stream(seed, 5),
        events: BinaryHeap::new(),
        seq: 0,
        deadlines: BTreeSet::new(),
        ready: BTreeSet::new(),
        trace: Trace::default(),
        sw_pos: 0,
        st_pos: 0,
        pct_next: u64::MAX,
        low_prio: -1,
        hash: 0xcbf29ce484222325,
        stats: Stats { decisions: 0, switches: 0, forced: 0, alloc_preempts: 0, stalls: 0, threads: 1, time_jumps: 0 },
        counters: BTreeMap::new(),
        net: Net::new(),
        clock_offset: BTreeMap::new(),
        clock_stall: (0, 0, 0, 0),
        on_fatal: Some(on_fatal),
        stack_next: 0x0600_0000_0000,
        fault_seq: 0,
        fault_off: BTreeSet::new(),
        fault_limit: u64::MAX,
        fault_log: vec![],
        cfg,
    });
    let prio = s.rng_sched.below(1 << 40) as i64;
    s.threads.push(Box::new(Th {
        go: AtomicU32::new(0),
        st: St::Runnable,
        wake: Wake::None,
        node: 0,
        prio,
        not_before: 0,
        pthread: unsafe { libc::pthread_self() },
    }));
    s.ready.insert(0);
    s.arm_alloc();
    if let Policy::Pct(m) = s.cfg.policy {
        s.pct_next = s.rng_sched.geometric(m);
    }
    unsafe {
        SIM = Box::into_raw(s);
    }
    ME.with(|m| m.set(0));
    drop(g);
}

impl Sim {
    pub fn start_ns(&self) -> u64 {
        self.cfg.start_ns
    }
    fn arm_alloc(&mut self) {
        if self.cfg.replay.is_some() {
            let t = self.cfg.replay.as_ref().unwrap();
            let a = t.switches.get(self.sw_pos).map(|x| x.0).unwrap_or(u64::MAX);
            let b = t.stalls.get(self.st_pos).map(|x| x.0).unwrap_or(u64::MAX);
            self.next_alloc = a.min(b);
        } else if self.cfg.alloc_mean > 0 {
            self.next_alloc = self.tick + self.rng_sched.geometric(self.cfg.alloc_mean);
        } else {
            self.next_alloc = u64::MAX;
        }
    }
    pub(crate) fn fatal(&mut self, why: &str) -> ! {
        std::mem::forget(Guard::new());
        let f = self.on_fatal.expect("fatal handler");
        f(why)
    }
    pub fn schedule_event(&mut self, at: u64, what: crate::net::NetEvent) {
        self.seq += 1;
        self.events.push(Ev { at, seq: self.seq, what });
    }
    pub(crate) fn make_ready(&mut self, t: usize, w: Wake) {
        if let St::Blocked(_, dl) = self.threads[t].st {
            if dl != NEVER {
                self.deadlines.remove(&(dl, t));
            }
            self.threads[t].st = St::Runnable;
            self.threads[t].wake = w;
            self.ready.insert(t);
        }
    }
    /// Wakes the threads blocked on `key` (all of them, or the first `n`).
    pub(crate) fn wake_key(&mut self, key: Key, n: usize) -> usize {
        let mut c = 0;
        for t in 0..self.threads.len() {
            if c >= n {
                break;
            }
            if let St::Blocked(k, _) = self.threads[t].st {
                if k == key {
                    self.make_ready(t, Wake::Woken);
                    c += 1;
                }
            }
        }
        c
    }
    fn settle_time(&mut self) {
        while let Some(e) = self.events.peek() {
            if e.at > self.now {
                break;
            }
            let e = self.events.pop().unwrap();
            crate::net::run_event(self, e.what);
        }
        while let Some(&(dl, t)) = self.deadlines.iter().next() {
            if dl > self.now {
                break;
            }
            self.make_ready(t, Wake::Timeout);
        }
    }
    fn candidates(&self, out: &mut Vec<usize>) {
        out.clear();
        for &t in &self.ready {
            if self.threads[t].not_before <= self.now {
                out.push(t);
            }
        }
    }
    /// Chooses who runs next. `kind`: 0 = ordinary point, 1 = yield, 2 = allocation, 3 = current thread cannot continue.
    fn decide(&mut self, kind: u8) -> usize {
        self.stats.decisions += 1;
        if self.stats.decisions > self.cfg.max_decisions {
            self.fatal("step-limit: the run did not finish within its step budget");
        }
        let adv = self.rng_time.below(self.cfg.step_ns + 1);
        self.now += adv;
        let cur = self.cur;
        let tick = self.tick;
        // stalls
        if kind != 3 {
            let mut stall = 0;
            if let Some(r) = &self.cfg.replay {
                while let Some(&(t, ns)) = r.stalls.get(self.st_pos) {
                    if t > tick {
                        break;
                    }
                    if t == tick {
                        stall = ns;
                    }
                    self.st_pos += 1;
                }
            } else if self.cfg.stall_chance > 0 && self.rng_sched.chance(self.cfg.stall_chance as u64, 65536) {
                // log-uniform length
                let top = 64 - self.cfg.stall_max_ns.leading_zeros() as u64;
                let bits = self.rng_sched.range(10, top.max(11));
                stall = self.rng_sched.below((1u64 << bits).min(self.cfg.stall_max_ns) + 1);
            }
            if stall > 0 {
                self.threads[cur].not_before = self.now + stall;
                self.stats.stalls += 1;
                self.trace.stalls.push((tick, stall));
            }
        }
        self.settle_time();
        let mut c = Vec::with_capacity(8);
        self.candidates(&mut c);
        while c.is_empty() {
            let mut next = u64::MAX;
            if let Some(e) = self.events.peek() {
                next = next.min(e.at);
            }
            if let Some(&(dl, _)) = self.deadlines.iter().next() {
                next = next.min(dl);
            }
            for &t in &self.ready {
                next = next.min(self.threads[t].not_before);
            }
            if next == u64::MAX {
                let d = self.describe();
                self.fatal(&format!("deadlock: no thread can run and no timer is armed\n{d}"));
            }
            self.stats.time_jumps += 1;
            self.now = self.now.max(next);
            self.settle_time();
            self.candidates(&mut c);
        }
        let cur_ok = kind != 3 && c.binary_search(&cur).is_ok();
        let default = if cur_ok && kind != 1 {
            cur
        } else {
            // round robin
            let mut d = c[0];
            for &t in &c {
                if t > cur {
                    d = t;
                    break;
                }
            }
            d
        };
        let mut pick = default;
        if let Some(r) = &self.cfg.replay {
            while let Some(&(t, who)) = r.switches.get(self.sw_pos) {
                if t > tick {
                    break;
                }
                if t == tick && c.binary_search(&(who as usize)).is_ok() {
                    pick = who as usize;
                }
                self.sw_pos += 1;
            }
            self.arm_alloc();
        } else if c.len() > 1 {
            match self.cfg.policy {
                Policy::Sticky => {
                    if !cur_ok {
                        pick = c[self.rng_sched.usize(c.len())];
                    }
                }
                Policy::Random(p) => {
                    if !cur_ok || kind == 2 || self.rng_sched.chance(p as u64, 256) {
                        pick = c[self.rng_sched.usize(c.len())];
                        if kind == 1 && pick == cur {
                            pick = default;
                        }
                    }
                }
                Policy::Pct(m) => {
                    if kind == 1 {
                        self.threads[cur].prio = self.low_prio;
                        self.low_prio -= 1;
                    }
                    if self.stats.decisions >= self.pct_next {
                        self.pct_next = self.stats.decisions + self.rng_sched.geometric(m);
                        if self.rng_sched.chance(1, 4) {
                            // re-randomise one, so that nothing starves for ever
                            let t = c[self.rng_sched.usize(c.len())];
                            self.threads[t].prio = self.rng_sched.below(1 << 40) as i64;
                        } else if cur_ok {
                            self.threads[cur].prio = self.low_prio;
                            self.low_prio -= 1;
                        }
                    }
                    pick = *c.iter().max_by_key(|&&t| self.threads[t].prio).unwrap();
                }
            }
        }
        if pick != default || kind == 2 {
            self.trace.switches.push((tick, pick as u32));
        }
        if pick != cur {
            self.stats.switches += 1;
            if cur_ok {
                self.stats.forced += 1;
            }
        }
        self.hash = (self.hash ^ ((pick as u64) << 8 | c.len() as u64)).wrapping_mul(0x100000001b3);
        pick
    }
    pub fn describe(&self) -> String {
        let mut s = String::new();
        for (i, t) in self.threads.iter().enumerate() {
            if !matches!(t.st, St::Dead) {
                s.push_str(&format!("  thread {i} node {} {:?}\n", t.node, t.st));
            }
        }
        s
    }
    pub fn count(&mut self, name: &'static str, n: u64) {
        *self.counters.entry(name).or_insert(0) += n;
    }
}

fn hand_over(to: usize) {
    let s = sim();
    let from = s.cur;
    s.cur = to;
    let t: *const Th = &*s.threads[to];
    let f: *const Th = &*s.threads[from];
    unsafe {
        (*t).go.store(1, Ordering::Release);
        raw::futex_wake((*t).go.as_ptr());
        wait_go(f);
    }
}
unsafe fn wait_go(t: *const Th) {
    loop {
        if (*t).go.compare_exchange(1, 0, Ordering::Acquire, Ordering::Relaxed).is_ok() {
            return;
        }
        raw::futex_wait((*t).go.as_ptr(), 0);
    }
}

fn point_kind(kind: u8) {
    let _g = Guard::new();
    let s = sim();
    s.tick += 1;
    let to = s.decide(kind);
    if to != s.cur {
        hand_over(to);
    }
}
/// A pre-emption point.
#[inline]
pub fn point() {
    if active() {
        point_kind(0);
    }
}
pub fn yield_point() {
    if active() {
        point_kind(1);
    }
}
static mut BLOCKS: bool = false;
/// Called at every basic block of the instrumented crates (see rustc.sh).
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc() {
    if unsafe { BLOCKS } {
        alloc_point();
    }
}
#[inline]
pub(crate) fn alloc_point() {
    if !active() {
        return;
    }
    let s = sim();
    s.tick += 1;
    if s.tick >= s.next_alloc {
        let _g = Guard::new();
        if s.cfg.replay.is_some() {
            if s.tick == s.next_alloc {
                s.stats.alloc_preempts += 1;
                let to = s.decide(2);
                if to != s.cur {
                    hand_over(to);
                }
            } else {
                // a recorded decision that no longer falls on any point: skip it
                while let Some(&(t, _)) = s.cfg.replay.as_ref().unwrap().switches.get(s.sw_pos) {
                    if t >= s.tick {
                        break;
                    }
                    s.sw_pos += 1;
                }
                while let Some(&(t, _)) = s.cfg.replay.as_ref().unwrap().stalls.get(s.st_pos) {
                    if t >= s.tick {
                        break;
                    }
                    s.st_pos += 1;
                }
                s.arm_alloc();
            }
        } else {
            s.arm_alloc();
            s.stats.alloc_preempts += 1;
            let to = s.decide(2);
            if to != s.cur {
                hand_over(to);
            }
        }
    }
}

/// Blocks the calling thread; returns how it was woken.
pub(crate) fn block(key: Key, deadline: u64) -> Wake {
    let _g = Guard::new();
    let s = sim();
    s.tick += 1;
    let c = s.cur;
    s.threads[c].st = St::Blocked(key, deadline);
    s.threads[c].wake = Wake::None;
    s.ready.remove(&c);
    if deadline != NEVER {
        s.deadlines.insert((deadline, c));
    }
    let to = s.decide(3);
    if to != c {
        hand_over(to);
    }
    sim().threads[c].wake
}

// ---------------------------------------------------------------------------------------------------------------
// threads

struct StartRec {
    f: extern "C" fn(*mut libc::c_void) -> *mut libc::c_void,
    arg: *mut libc::c_void,
    id: usize,
}

static mut EXIT_KEY: libc::pthread_key_t = 0;
static mut EXIT_KEY_SET: bool = false;

extern "C" fn on_exit(v: *mut libc::c_void) {
    unsafe {
        let rounds = v as usize;
        if rounds > 1 {
            libc::pthread_setspecific(EXIT_KEY, (rounds - 1) as *const _);
            return;
        }
    }
    // last thing this thread does under the simulator
    let g = Guard::new();
    let s = sim();
    s.tick += 1;
    let c = s.cur;
    s.threads[c].st = St::Dead;
    s.ready.remove(&c);
    s.wake_key(Key::Join(c), usize::MAX);
    let to = s.decide(3);
    s.cur = to;
    let t: *const Th = &*s.threads[to];
    ME.with(|m| m.set(usize::MAX));
    std::mem::forget(g);
    unsafe {
        (*t).go.store(1, Ordering::Release);
        raw::futex_wake((*t).go.as_ptr());
    }
}

extern "C" fn trampoline(p: *mut libc::c_void) -> *mut libc::c_void {
    unsafe {
        let r = p as *const StartRec;
        let id = (*r).id;
        let th: *const Th = &*sim_threads(id);
        wait_go(th);
        ME.with(|m| m.set(id));
        libc::pthread_setspecific(EXIT_KEY, 3 as *const _);
        ((*r).f)((*r).arg)
    }
}
/// Only reads a Box pointer that never moves once published (the creator pushed it before creating the thread).
unsafe fn sim_threads(id: usize) -> *const Th {
    START_TABLE[id]
}
static mut START_TABLE: [*const Th; 4096] = [std::ptr::null(); 4096];

type PthreadCreate = unsafe extern "C" fn(
    *mut libc::pthread_t,
    *const libc::pthread_attr_t,
    extern "C" fn(*mut libc::c_void) -> *mut libc::c_void,
    *mut libc::c_void,
) -> libc::c_int;

pub(crate) unsafe fn next_sym(name: &[u8]) -> *mut libc::c_void {
    let p = libc::dlsym(libc::RTLD_NEXT, name.as_ptr() as *const _);
    if p.is_null() {
        libc::abort();
    }
    p
}

#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    t: *mut libc::pthread_t,
    attr: *const libc::pthread_attr_t,
    f: extern "C" fn(*mut libc::c_void) -> *mut libc::c_void,
    arg: *mut libc::c_void,
) -> libc::c_int {
    static mut REAL: Option<PthreadCreate> = None;
    #[allow(static_mut_refs)]
    let real = *REAL.get_or_insert_with(|| std::mem::transmute(next_sym(b"pthread_create\0")));
    if !active() {
        return real(t, attr, f, arg);
    }
    let id;
    let rc;
    {
        let _g = Guard::new();
        if !EXIT_KEY_SET {
            EXIT_KEY_SET = true;
            libc::pthread_key_create(&raw mut EXIT_KEY, Some(on_exit));
        }
        let s = sim();
        id = s.threads.len();
        if id >= 4000 {
            s.fatal("harness: too many threads in one run");
        }
        let prio = s.rng_sched.below(1 << 40) as i64;
        let node = s.threads[s.cur].node;
        s.threads.push(Box::new(Th {
            go: AtomicU32::new(0),
            st: St::Runnable,
            wake: Wake::None,
            node,
            prio,
            not_before: 0,
            pthread: 0,
        }));
        START_TABLE[id] = &*s.threads[id];
        s.stats.threads += 1;
        s.ready.insert(id);
        let rec = Box::into_raw(Box::new(StartRec { f, arg, id }));
        // deterministic stack address
        let mut ss: libc::size_t = 0;
        if !attr.is_null() {
            libc::pthread_attr_getstacksize(attr, &mut ss);
        }
        let ss = (ss.max(4 << 20) + 4095) & !4095;
        let guard = 4096 * 16;
        let base = s.stack_next;
        s.stack_next += ss + guard;
        let p = libc::mmap(
            base as *mut _,
            ss + guard,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE,
            -1,
            0,
        );
        if p as usize != base {
            s.fatal("harness: cannot map a thread stack");
        }
        libc::mprotect(p, guard, libc::PROT_NONE);
        let mut a: libc::pthread_attr_t = std::mem::zeroed();
        libc::pthread_attr_init(&mut a);
        libc::pthread_attr_setstack(&mut a, (base + guard) as *mut _, ss);
        rc = real(t, &a, trampoline, rec as *mut _);
        libc::pthread_attr_destroy(&mut a);
        if rc != 0 {
            s.fatal("harness: pthread_create failed");
        }
        s.threads[id].pthread = *t;
    }
    point();
    rc
}

#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: libc::pthread_t, ret: *mut *mut libc::c_void) -> libc::c_int {
    type F = unsafe extern "C" fn(libc::pthread_t, *mut *mut libc::c_void) -> libc::c_int;
    static mut REAL: Option<F> = None;
    #[allow(static_mut_refs)]
    let real = *REAL.get_or_insert_with(|| std::mem::transmute(next_sym(b"pthread_join\0")));
    if active() {
        let id = sim().threads.iter().rposition(|x| x.pthread == t);
        if let Some(id) = id {
            while sim().threads[id].st != St::Dead {
                block(Key::Join(id), NEVER);
            }
            sim().threads[id].pthread = 0;
        }
    }
    real(t, ret)
}

// ---------------------------------------------------------------------------------------------------------------
// public control surface for harnesses

pub fn now() -> u64 {
    sim().now
}
pub fn seq() -> u64 {
    sim().tick
}
pub fn set_node(n: u16) {
    if simulated() {
        let s = sim();
        let c = s.cur;
        s.threads[c].node = n;
    }
}
pub fn node() -> u16 {
    if simulated() {
        sim().threads[sim().cur].node
    } else {
        0
    }
}
/// Crash: none of the node's threads ever runs again. Must be called from a thread of another node.
pub fn freeze_node(n: u16) {
    let _g = Guard::new();
    let s = sim();
    for t in 0..s.threads.len() {
        if s.threads[t].node == n && !matches!(s.threads[t].st, St::Dead) {
            if let St::Blocked(_, dl) = s.threads[t].st {
                if dl != NEVER {
                    s.deadlines.remove(&(dl, t));
                }
            }
            s.threads[t].st = St::Frozen;
            s.ready.remove(&t);
        }
    }
    s.net.drop_node(n);
}
pub fn sleep(ns: u64) {
    if active() {
        let dl = sim().now + ns;
        block(Key::Sleep, dl);
    }
}
/// Draw from the fault stream.
pub fn fault_below(n: u64) -> u64 {
    if !simulated() {
        return n - 1;
    }
    sim().rng_fault.below(n)
}
pub fn fault_chance(num: u64, den: u64) -> bool {
    if num == 0 || !simulated() {
        return false;
    }
    sim().rng_fault.chance(num, den)
}
pub fn count(name: &'static str) {
    if simulated() {
        let _g = Guard::new();
        sim().count(name, 1);
    }
}
pub fn count_n(name: &'static str, n: u64) {
    if simulated() {
        let _g = Guard::new();
        sim().count(name, n);
    }
}
pub fn counter(name: &'static str) -> u64 {
    sim().counters.get(name).copied().unwrap_or(0)
}
pub fn set_clock_offset(node: u16, off: i64) {
    let _g = Guard::new();
    sim().clock_offset.insert(node, off);
}
pub fn set_clock_stall(node: u16, chance_per_65536: u32, max_ns: u64, readings: u64) {
    sim().clock_stall = (node, chance_per_65536, max_ns, readings);
}
/// None of the node's threads runs for a while.
pub fn stall_node(n: u16, ns: u64) {
    let _g = Guard::new();
    let s = sim();
    let until = s.now + ns;
    for t in s.threads.iter_mut().filter(|t| t.node == n) {
        t.not_before = t.not_before.max(until);
    }
}
pub fn runnable_count() -> usize {
    sim().ready.len()
}

/// A numbered, replayable fault decision: the n-th fault that fires can be switched off when minimising.
pub fn fault_gate(name: &'static str, chance_per_65536: u32) -> bool {
    if chance_per_65536 == 0 || !simulated() {
        return false;
    }
    let _g = Guard::new();
    let s = sim();
    if !s.rng_fault.chance(chance_per_65536 as u64, 65536) {
        return false;
    }
    s.fault_seq += 1;
    let n = s.fault_seq;
    if s.fault_off.contains(&n) || n > s.fault_limit {
        return false;
    }
    s.fault_log.push((n, name, s.tick));
    s.count(name, 1);
    true
}

/// Stacks given to pthread_create count as having no guard for glibc; ours have one, and std insists on it.
#[no_mangle]
pub unsafe extern "C" fn pthread_getattr_np(t: libc::pthread_t, attr: *mut libc::pthread_attr_t) -> libc::c_int {
    type F = unsafe extern "C" fn(libc::pthread_t, *mut libc::pthread_attr_t) -> libc::c_int;
    static mut REAL: Option<F> = None;
    #[allow(static_mut_refs)]
    let real = *REAL.get_or_insert_with(|| std::mem::transmute(next_sym(b"pthread_getattr_np\0")));
    let rc = real(t, attr);
    if rc == 0 {
        let mut g: libc::size_t = 0;
        libc::pthread_attr_getguardsize(attr, &mut g);
        if g == 0 {
            libc::pthread_attr_setguardsize(attr, 4096 * 16);
        }
    }
    rc
}
pub fn clock_offset(node: u16) -> i64 {
    sim().clock_offset.get(&node).copied().unwrap_or(0)
}
