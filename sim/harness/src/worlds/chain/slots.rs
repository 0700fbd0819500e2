//! One node whose turn it always is: the slots its scheduler acts on are the slots of its chain.
use super::net::*;
use super::*;

const AWAKE: u64 = 600 * MS;

pub fn run(spec: &Spec) {
    let mut r = Rng::stream(spec.seed, 11);
    let _ = rayon::ThreadPoolBuilder::new().num_threads(1).build_global();
    let mix = Mix { tickets: false, disputes: false, reports: false, preimages: false, accumulate: false, skip: 0, jump: 0, broken: 0, pile: false, errs: 0 };
    let (ch, _, _) = model_genesis(&mut r, spec, &mix);
    let mut st = ch.st;
    let who = r.below(6) as usize;
    let all = vset(&[who; V]);
    (st.active, st.pending, st.staging, st.past) = (all, all, all, all);
    st.acc.clear();
    st.punish.clear();
    let eta = st.eta[2];
    st.sealers = Sealers::Keys(fallback_keys(&eta, &all));
    let map = Arc::new(st.to_map());
    let root = trie_root(&map);
    let workers = r.range(1, 3) as usize;
    let node = 1u16;
    // where in the slot it starts
    let into = match r.below(4) {
        0 => r.below(6_000_000_000),
        1 => SLOT - r.below(100 * MS),
        2 => SLOT - r.below(2_000_000),
        _ => r.below(2_000_000),
    };
    clock_at(2, st.slot, into);
    let path = "/sim/node".to_string();
    let mut f = simctl::faults(&path);
    f.latency_chance = *r.pick(&[0, 0, 3000]);
    f.latency_max_ns = *r.pick(&[50_000, 2_000_000]);
    simctl::set_faults(&path, f);
    // what starting takes
    let early = *r.pick(&[0u32, 0, 8_000, 33_000]);
    let early_max = *r.pick(&[1, 400, 2_000, 5_900]) * MS;
    simrt::set_clock_stall(node, early, early_max, if early_max > 1_000 * MS { 1 } else { 3 });
    rec::knobs(format!("slots workers={workers} start={} ms into the slot early_stall={early}/{early_max}", into / MS));
    let mut host = boot(node, who, path, Caches::random(&mut r), workers, Boot::State { map, header: ch.genesis.clone(), root, authors: true });
    let n_slots = r.range(3, 26) as u32;
    rec::ops(n_slots);
    let calm = r.chance(1, 4);
    let steps = !calm && r.chance(1, 3);
    let offset0 = simrt::clock_offset(0);
    let (mut seen, mut first) = (0u32, 0u32);
    let mut stall_until = 0u64;
    let born = current_slot();
    let mut boot_slots = 5;
    let mut step_ns = 0i64;
    for i in 0..n_slots {
        let mut r = Rng::stream(spec.seed, 1000 + i as u64);
        let slot = born + 1 + i;
        // at most one stall a slot, anywhere in it, none longer than leaves every slot a moment
        if first != 0 {
            simrt::set_clock_stall(node, if calm { 0 } else { *r.pick(&[0, 0, 20_000]) }, 200 * MS, u64::MAX);
        }
        let begin = at(slot - 1, 0);
        let end = at(slot, 0);
        let from = match r.below(4) {
            0 => end - r.below(3 * MS) - 1,
            1 => end - r.below(700 * MS) - 1,
            _ => begin + r.below(SLOT),
        };
        let ns = if r.chance(1, 3) { r.range(3_000, 4_300) * MS } else { r.below(2_500 * MS) };
        let dropped = spec.drop_ops.contains(&i);
        // always in simulated order: what is left of slot `slot`-1, then slot `slot` is judged when it is over
        if !dropped && !calm && first != 0 && r.chance(2, 3) && from > simrt::now() && from >= stall_until + 2 * AWAKE + 1_300 * MS {
            if !look(&mut host, &mut seen, from) {
                return;
            }
            simrt::stall_node(node, ns);
            simrt::count("fault.node_stall");
            stall_until = from + ns;
            rec::hist(format!("slot {}: stalls {} ms into it for {} ms", slot - 1, (from - begin) / MS, ns / MS));
        } else if !dropped && steps && first != 0 && r.chance(1, 4) {
            // its clock is corrected; the world's own goes on
            let by = r.range(0, 900) as i64 - 450;
            step_ns = by * MS as i64;
            let now = begin + r.range(1_000, 5_000) * MS;
            if now > simrt::now() && !look(&mut host, &mut seen, now) {
                return;
            }
            simrt::set_clock_offset(node, offset0 + step_ns);
            simrt::count("fault.clock_step");
            rec::hist(format!("slot {}: clock is {by} ms off", slot - 1));
        }
        let _ = step_ns;
        if !look(&mut host, &mut seen, end) {
            return;
        }
        if panicked() {
            return;
        }
        if seen != 0 && first == 0 {
            first = seen;
        }
        if first == 0 {
            boot_slots -= 1;
            if boot_slots == 0 {
                rec::violate(&["C40"], "never-started", format!("{} slots after it started the node has not acted on any", slot - born));
                return;
            }
        }
    }
    // one more, undisturbed
    simrt::set_clock_stall(node, 0, 0, 0);
    let last = current_slot() + 1;
    if !look(&mut host, &mut seen, at(last, 3_000 * MS)) {
        return;
    }
    if seen != last {
        rec::violate(&["C40"], "slot-missed", format!("3 s into slot {last}, after slot {seen}, it is not acted on; {} ms after the last stall", (simrt::now() - stall_until) / MS));
        return;
    }
    // every slot once, in order
    let mut h = host.best().0;
    let mut next: Option<u32> = None;
    let mut n = 0;
    while h != arr(&ch.genesis.hash().expect("hash")) {
        let Some(x) = host.header(h) else {
            rec::violate(&["C40", "C12"], "chain-broken", format!("no header {}", hex8(&h)));
            return;
        };
        let s = x.timeslot_index();
        if let Some(n) = next {
            if s + 1 != n {
                rec::violate(&["C40"], "slot-missed", format!("after slot {s} the node acted on slot {n}"));
                return;
            }
        }
        next = Some(s);
        n += 1;
        h = arr(x.parent_hash());
    }
    simrt::count_n("slots", n);
    rec::state(n);
    if n >= 3 {
        rec::nontrivial();
    }
}

/// Watches the head until then: blocks appear within their slot.
fn look(h: &mut Host, seen: &mut u32, until: u64) -> bool {
    loop {
        let (_, slot) = h.best();
        if h.best().0 != h.head {
            let cur = current_slot();
            let started = *seen != 0;
            if h.head != [0; 32] {
                if slot <= h.slot {
                    rec::violate(&["C40", "C31"], "slot-twice", format!("a block of slot {slot} after one of slot {}", h.slot));
                    return false;
                }
                // the node's own clock may be half a second off, and what was begun takes a moment
                let (w, lo, hi) = (wall(), slot as u64 * SLOT, (slot as u64 + 1) * SLOT);
                if w + 500 * MS < lo || w > hi + 1_000 * MS {
                    rec::violate(&["C40"], "outside-slot", format!("in slot {cur} a block of slot {slot} appears"));
                    return false;
                }
                if started && slot != *seen + 1 {
                    rec::violate(&["C40"], "slot-missed", format!("after slot {seen} the node acted on slot {slot}"));
                    return false;
                }
                *seen = slot;
            }
            h.head = h.best().0;
            h.slot = slot;
        }
        let now = simrt::now();
        if now >= until {
            return true;
        }
        simrt::sleep((until - now).min(50 * MS));
    }
}
