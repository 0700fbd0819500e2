//! Whole nodes (network manager, QUIC, importer, scheduler, storage) on a simulated network.
use super::*;
use fr_network::{endpoint::QuicEndpoint, manager::NetworkManager};
use fr_node::{
    jam_node::{init::init_node, runner::run_node, JamNode},
    keystore::dev_account_profile::DevNodeAccountProfile as Dev,
};
use fr_storage::server_trait::NodeServerTrait;

const DEVS: [Dev; 6] = [Dev::Alice, Dev::Bob, Dev::Carol, Dev::David, Dev::Eve, Dev::Fergie];
pub const MS: u64 = 1_000_000;
pub const SLOT: u64 = 6_000 * MS;

#[derive(Clone)]
pub struct Host {
    who: usize,
    /// The simulated machine it runs on.
    node: u16,
    ns: Arc<NodeStorage>,
    nm: Arc<NetworkManager>,
    rt: tokio::runtime::Handle,
    up: bool,
    /// Blocks of the chain that were there before it.
    since: usize,
    pub head: H,
    pub slot: u32,
}
/// How a node comes to be.
#[derive(Clone)]
pub enum Boot {
    /// The shipped start-up, with the development genesis.
    Init,
    /// From a given state; a node that `authors` has the keys of its account.
    State { map: Arc<Map>, header: BlockHeader, root: H, authors: bool },
}
pub fn boot(node: u16, who: usize, path: String, caches: Caches, workers: usize, how: Boot) -> Host {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::Builder::new()
        .name(format!("node{node}"))
        .stack_size(8 << 20)
        .spawn(move || {
            simrt::set_node(node);
            let rt = runtime(workers, 4);
            let h = rt.handle().clone();
            let res = rt.block_on(async move {
                let jam = match how {
                    Boot::Init => init_node(DEVS[who].clone(), &path).await.map_err(|e| e.to_string())?,
                    Boot::State { map, header, root, authors } => {
                        let n = Node::start(path, &caches, &map, &header, &root, false, false).await?;
                        let mut info = DEVS[who].load_validator_key_info();
                        let addr = info.socket_addr;
                        if !authors {
                            // keys nobody has
                            info.validator_key.bandersnatch = fr_crypto::types::BandersnatchPubKey::from_slice(&[0x11; 32]).unwrap();
                        }
                        let nm = NetworkManager::new(info.clone(), QuicEndpoint::new(addr)).await.map_err(short)?;
                        let jam = JamNode::new(info, n.ns.clone(), Arc::new(nm));
                        jam.network_manager().load_validator_peers(n.ns, addr).await.map_err(short)?;
                        jam
                    }
                };
                let host = Host { who, node, ns: jam.storage(), nm: jam.network_manager(), rt: h, up: true, since: 0, head: [0; 32], slot: 0 };
                tx.send(host).map_err(short)?;
                let end = run_node(jam).await.map_err(|e| e.to_string());
                simrt::count("net.node_ended");
                rec::hist(format!("node {node} ended: {end:?}"));
                end
            });
            if let Err(e) = res {
                rec::hist(format!("node {node}: {e}"));
            }
            // its network and importer tasks live on
            std::mem::forget(rt);
        })
        .expect("thread");
    rx.recv().expect("harness: a node does not start")
}
impl Host {
    fn ask<T: Send + 'static>(&self, f: impl std::future::Future<Output = T> + Send + 'static) -> T {
        let (tx, rx) = std::sync::mpsc::channel();
        self.rt.spawn(async move {
            let _ = tx.send(f.await);
        });
        rx.recv().expect("harness: a node died")
    }
    fn root_of(&self, h: H) -> Option<H> {
        let ns = self.ns.clone();
        self.ask(async move { ns.post_state_root_db().get_post_state_root(&h32(&h)).await.ok().flatten().map(|r| arr(&r)) })
    }
    fn state_root(&self) -> Option<H> {
        let ns = self.ns.clone();
        self.ask(async move { ns.state_manager().merkle_root().await.ok().map(|r| arr(&r)) })
    }
    fn block(&self, h: H) -> Result<Vec<u8>, String> {
        let ns = self.ns.clone();
        self.ask(async move {
            let b = ns.get_blocks(h32(&h), false, 1).await.map_err(short)?;
            b.first().ok_or("no block")?.encode().map_err(short)
        })
    }
    pub fn header(&self, h: H) -> Option<BlockHeader> {
        let ns = self.ns.clone();
        self.ask(async move { ns.header_db().get_header(&h32(&h)).await.ok().flatten() })
    }
    pub fn best(&self) -> (H, u32) {
        let b = self.ns.header_db().get_best_header();
        (arr(&b.hash().expect("hash")), b.timeslot_index())
    }
    /// Its connections that the transport gave up.
    fn timed_out(&self) -> usize {
        self.nm
            .all_validator_peers
            .iter()
            .filter(|p| matches!(p.conn.as_ref().and_then(|c| c.conn.close_reason()), Some(quinn::ConnectionError::TimedOut | quinn::ConnectionError::Reset)))
            .count()
    }
    fn connected(&self) -> usize {
        self.nm.all_validator_peers.iter().filter(|p| p.conn.as_ref().is_some_and(|c| !c.up_stream_handles.is_empty())).count()
    }
}
/// What every node said about a block it imported.
#[derive(Default)]
struct Watch {
    roots: BTreeMap<H, (H, usize)>,
    /// When the partition ends: connections survive it.
    heal_at: u64,
}
impl Watch {
    /// C31, at any moment.
    fn look(&mut self, hosts: &mut [Host]) -> bool {
        for k in 0..hosts.len() {
            if !hosts[k].up {
                continue;
            }
            let (head, slot) = hosts[k].best();
            if head == hosts[k].head {
                continue;
            }
            if slot <= hosts[k].slot && hosts[k].head != [0; 32] {
                rec::violate(&["C31"], "head-slot-decreased", format!("node {k}: head of slot {slot} after one of slot {}", hosts[k].slot));
                return false;
            }
            hosts[k].head = head;
            hosts[k].slot = slot;
            let Some(root) = hosts[k].root_of(head) else {
                rec::violate(&["C31"], "head-without-root", format!("node {k}: its head of slot {slot} has no posterior state root"));
                return false;
            };
            simrt::count("net.imports");
            match self.roots.get(&head) {
                None => {
                    self.roots.insert(head, (root, k));
                }
                Some((r, other)) if *r != root => {
                    rec::violate(&["C31", "C10"], "roots-differ", format!("block of slot {slot}: node {k} holds root {}, node {other} {}", hex8(&root), hex8(r)));
                    return false;
                }
                _ => {}
            }
        }
        true
    }
    fn run(&mut self, hosts: &mut [Host], until: u64) -> bool {
        loop {
            if !self.look(hosts) || panicked() {
                return false;
            }
            let now = simrt::now();
            if now >= self.heal_at {
                simrt::net::net_cfg().blocked.clear();
            }
            if now >= until {
                return true;
            }
            simrt::sleep((until - now).min(200 * MS));
        }
    }
    /// The end: heads are what was fully imported.
    fn settle(&self, hosts: &[Host]) -> bool {
        for (k, h) in hosts.iter().enumerate().filter(|(_, h)| h.up) {
            let (before, state, after) = (h.best().0, h.state_root(), h.best().0);
            if before == after && state != h.root_of(before) {
                rec::violate(&["C31"], "head-state", format!("node {k}: its state has root {:?}, its head's is {:?}", state.map(|x| hex8(&x)), h.root_of(before).map(|x| hex8(&x))));
                return false;
            }
        }
        true
    }
}
pub fn panicked() -> bool {
    let v = rec::take_panics();
    if let Some(m) = v.first() {
        rec::violate(&["C30", "C31"], "panic", format!("a node panicked: {m}"));
        return true;
    }
    false
}
pub fn wall() -> u64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_nanos() as u64 - ERA * 1_000_000_000
}
pub fn current_slot() -> u32 {
    (wall() / SLOT) as u32
}
/// Simulated instant `into` ns into slot `s`.
pub fn at(s: u32, into: u64) -> u64 {
    simrt::now() + (s as u64 * SLOT + into).saturating_sub(wall())
}
fn heads(hosts: &[Host]) -> String {
    hosts.iter().map(|h| if h.up { let (b, s) = h.best(); format!("{}@{s}", hex8(&b[..2])) } else { "-".into() }).collect::<Vec<_>>().join(" ")
}

/// Network weather.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Sky {
    Clear,
    /// Nothing a slot's length does not absorb.
    Mild,
    Harsh,
}
fn weather(r: &mut Rng, sky: Sky) -> String {
    let c = simrt::net::net_cfg();
    let keep = std::mem::take(&mut c.blocked);
    *c = Default::default();
    c.blocked = keep;
    match sky {
        Sky::Clear => {}
        Sky::Mild => {
            c.delay_max_ns = *r.pick(&[200_000, 5 * MS, 60 * MS]);
            c.loss = *r.pick(&[0, 0, 600, 2500]);
            c.dup = *r.pick(&[0, 600, 6000]);
            c.late = *r.pick(&[0, 0, 3000, 12000]);
            c.late_max_ns = *r.pick(&[20 * MS, 150 * MS]);
        }
        Sky::Harsh => {
            c.delay_max_ns = *r.pick(&[5 * MS, 60 * MS, 900 * MS]);
            c.loss = *r.pick(&[0, 2500, 10_000]);
            c.dup = *r.pick(&[0, 600, 6000]);
            c.late = *r.pick(&[0, 3000, 12000]);
            c.late_max_ns = *r.pick(&[150 * MS, 4_000 * MS]);
        }
    }
    format!("loss {} dup {} delay {} ms late {}/{} ms", c.loss, c.dup, c.delay_max_ns / MS, c.late, c.late_max_ns / MS)
}
fn cut(a: u16, b: u16) {
    let c = simrt::net::net_cfg();
    c.blocked.insert((a, b));
    c.blocked.insert((b, a));
}

pub fn run(spec: &Spec) {
    let mut r = Rng::stream(spec.seed, 11);
    let _ = rayon::ThreadPoolBuilder::new().num_threads(1).build_global();
    match r.below(10) {
        0..=1 => live(spec, r, true),
        2..=4 => live(spec, r, false),
        _ => relay(spec, r),
    }
}

/// A genesis whose validators are mostly the development accounts.
pub fn model_genesis(r: &mut Rng, spec: &Spec, mix: &Mix) -> (Chain, Map, Vec<Vec<u8>>) {
    super::svc::SEED.store(spec.seed, std::sync::atomic::Ordering::Relaxed);
    let (mut accounts, privs, mut blobs) = if mix.accumulate {
        super::script::services(r)
    } else {
        let (a, b) = rand_accounts(r, mix);
        (a, super::plain_privs(), b)
    };
    if mix.preimages && !mix.accumulate {
        // some fill several packets
        for a in accounts.values_mut() {
            for _ in 0..2 {
                let n = *r.pick(&[900usize, 1100, 2500, 9000]);
                let b = r.bytes(n);
                a.look.insert((blake(&b), n as u32), vec![]);
                blobs.push(b);
            }
        }
    }
    let c = *r.pick(&[0usize, 2, 4]);
    let mut st = genesis(r, c, mix, privs, accounts);
    let mut gh = BlockHeader::default();
    gh.set_timeslot(st.slot);
    gh.set_author_index(c as u16);
    gh.data.parent_hash = h32(&hash(&[b"genesis parent"]));
    let head = arr(&gh.hash().expect("hash"));
    let mmr = mmr_super_peak(&st.mmr);
    st.hist.push(HistEntry { hash: head, mmr, root: [0; 32], pkgs: vec![] });
    while st.hist.len() > 8 {
        st.hist.remove(0);
    }
    let map = st.to_map();
    let root = trie_root(&map);
    let slot0 = st.slot;
    let ch = Chain { cfg: c, st, head, root, ancestors: None, headers: vec![(slot0, head)], clock: slot0, uniq: spec.seed, genesis: gh, imported: 0, services: mix.accumulate, pile: false, blobs: blobs.clone().into() };
    (ch, map, blobs)
}
pub fn clock_at(nodes: u16, slot: u32, into: u64) {
    let now = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_nanos() as i64;
    let want = (ERA * 1_000_000_000 + slot as u64 * SLOT + into) as i64;
    let was = simrt::clock_offset(0);
    for n in 0..=nodes {
        simrt::set_clock_offset(n, was + want - now);
    }
}
fn disk_latency(r: &mut Rng, path: &str) {
    if r.chance(1, 2) {
        let mut f = simctl::faults(path);
        f.latency_chance = *r.pick(&[3000, 3000, 30_000]);
        f.latency_max_ns = *r.pick(&[50_000, 5_000_000]);
        simctl::set_faults(path, f);
    }
}

/// Every node runs as shipped: whoever's turn it is authors, the others follow.
fn live(spec: &Spec, mut r: Rng, init: bool) {
    let mix = Mix { tickets: false, disputes: false, reports: false, preimages: false, accumulate: false, skip: 0, jump: 0, broken: 0, pile: false, errs: 0 };
    let (mut ch, map, _) = model_genesis(&mut r, spec, &mix);
    let map = Arc::new(map);
    let workers: Vec<usize> = (0..6).map(|_| r.range(1, 2) as usize).collect();
    let harsh = r.chance(1, 4);
    rec::knobs(format!("live init={init} workers={workers:?} harsh={harsh}"));
    let start = if init { r.range(24, 3000) as u32 } else { ch.st.slot };
    clock_at(16, start, r.below(5_900) * MS);
    let mut hosts = vec![];
    // some machines never work
    let absent: BTreeSet<usize> = if !init && r.chance(1, 3) { (0..r.range(1, 2)).map(|_| r.below(6) as usize).collect() } else { BTreeSet::new() };
    let present = 6 - absent.len();
    if !absent.is_empty() {
        rec::knobs(format!("absent {absent:?}"));
    }
    for i in (0..6usize).filter(|i| !absent.contains(i)) {
        let path = format!("/sim/node{i}");
        disk_latency(&mut r, &path);
        let how = if init { Boot::Init } else { Boot::State { map: map.clone(), header: ch.genesis.clone(), root: ch.root, authors: true } };
        hosts.push(boot(i as u16 + 1, i, path, Caches::random(&mut r), workers[i], how));
    }
    let mut w = Watch::default();
    // all are connected before the first of them may author
    let until = simrt::now() + 4_900 * MS;
    while !hosts.iter().all(|h| h.connected() == present - 1) {
        if simrt::now() > until {
            // a first packet that came before its receiver is sent again only after seconds; relay() judges that
            simrt::count("net.slow_start");
            return;
        }
        simrt::sleep(100 * MS);
    }
    let n_slots = r.range(3, 12) as u32;
    rec::ops(n_slots);
    let first = current_slot() + 1;
    let dies = if !harsh && r.chance(1, 3) { r.range(1, 8) as u32 } else { u32::MAX };
    let mut blocks = 0;
    for i in 0..n_slots {
        let mut r = Rng::stream(spec.seed, 1000 + i as u64);
        let slot = first + i;
        if !w.run(&mut hosts, at(slot, 0) - 300 * MS) {
            return;
        }
        if !spec.drop_ops.contains(&i) {
            let sky = if harsh { *r.pick(&[Sky::Clear, Sky::Mild, Sky::Harsh]) } else { *r.pick(&[Sky::Clear, Sky::Mild, Sky::Mild]) };
            let d = weather(&mut r, sky);
            // connections outlive what is shorter than a minute
            if harsh && i % 3 != 2 && simrt::net::net_cfg().blocked.is_empty() && r.chance(1, 2) {
                let side = r.below(64);
                for a in 0..6u16 {
                    for b in 0..6u16 {
                        if (side >> a) & 1 != (side >> b) & 1 {
                            cut(a + 1, b + 1);
                        }
                    }
                }
                w.heal_at = simrt::now() + r.range(1, 12) * 1000 * MS;
                simrt::count("fault.partition");
            }
            rec::hist(format!("slot {slot}: {sky:?} {d}"));
        }
        if i == dies && !init && !spec.drop_ops.contains(&i) {
            // at a moment when nobody is talking to it
            let k = r.below(hosts.len() as u64) as usize;
            crash(&mut hosts[k]);
        }
        // the block of this slot has reached everyone
        if !w.run(&mut hosts, at(slot, 5_600 * MS)) {
            return;
        }
        if harsh {
            continue;
        }
        let turn = if init { None } else { expected(&ch, slot) };
        let (h0, s0) = hosts.iter().find(|h| h.up).unwrap().best();
        if hosts.iter().any(|h| h.up && h.best().0 != h0) {
            rec::violate(&["C30"], "heads-differ", format!("at the end of slot {slot} the heads are {}", heads(&hosts)));
            return;
        }
        if let Some((b, next, root)) = turn {
            if !hosts.iter().any(|h| h.up && h.who == b.seal.signer) {
                if h0 != ch.head {
                    rec::violate(&["C31", "C12"], "unexpected-block", format!("slot {slot}, which is nobody's here, has a block"));
                    return;
                }
                continue;
            }
            if h0 == ch.head {
                // a scheduler that started in the middle of this
                if slot > first + 3 {
                    rec::violate(&["C12", "C40"], "slot-without-block", format!("nobody authored slot {slot}, the turn of account {}", b.seal.signer));
                    return;
                }
                continue;
            }
            if h0 != b.hash() || w.roots.get(&h0).map(|x| x.0) != Some(root) {
                rec::violate(&["C12", "C31"], "wrong-block", format!("the block of slot {slot} (root {:?}) is not the expected one (root {})", w.roots.get(&h0).map(|x| hex8(&x.0)), hex8(&root)));
                return;
            }
            ch.st = next;
            ch.head = h0;
            ch.root = root;
            blocks += 1;
        } else if init {
            if slot > first + 3 && s0 != slot {
                rec::violate(&["C12", "C40"], "slot-without-block", format!("at the end of slot {slot} the head's slot is {s0}"));
                return;
            }
            blocks += 1;
        }
        rec::state(u64::from_le_bytes(h0[..8].try_into().unwrap()));
    }
    if harsh {
        simrt::net::net_cfg().blocked.clear();
        weather(&mut r, Sky::Clear);
        rec::hist("the network works again");
        let slot = current_slot() + 10;
        if !w.run(&mut hosts, at(slot, 5_600 * MS)) {
            return;
        }
        blocks = w.roots.len() as u32;
        if !w.settle(&hosts) {
            return;
        }
        let (h0, _) = hosts[0].best();
        if hosts.iter().any(|h| h.best().0 != h0) {
            // did two blocks ever have the same parent?
            let mut by_parent: BTreeMap<H, BTreeSet<H>> = BTreeMap::new();
            for h in w.roots.keys() {
                if let Some(x) = hosts.iter().find_map(|n| n.header(*h)) {
                    by_parent.entry(arr(x.parent_hash())).or_default().insert(*h);
                }
            }
            let forked = by_parent.values().any(|v| v.len() > 1);
            simrt::count("net.forks");
            if forked {
                rec::violate(&["C30"], "fork-never-resolved", format!("after faults that lasted longer than a slot two blocks extend the same parent; when the network works again the heads stay {}", heads(&hosts)));
            } else if hosts.iter().any(|h| h.timed_out() > 0) {
                simrt::count("net.connection_lost");
            } else {
                rec::violate(&["C30"], "never-caught-up", format!("60 s after the network works again the heads are {}", heads(&hosts)));
            }
            return;
        }
    }
    if !w.settle(&hosts) {
        return;
    }
    if blocks >= 2 {
        rec::nontrivial();
    }
}
/// The machine is gone, without a word.
fn crash(h: &mut Host) {
    if h.up {
        h.up = false;
        let n = h.node;
        simrt::net::drop_node(n);
        simrt::count("fault.node_crash");
        rec::hist(format!("node {n} is gone"));
    }
}
fn expected(ch: &Chain, slot: u32) -> Option<(Blk, St, H)> {
    let b = finish(&ch.st, &ch.head, &ch.root, slot, Ext::default(), ch)?;
    let next = apply(&ch.st, &ch.head, &ch.root, &b, ch, &mut *ch.rules()).ok()?;
    let root = trie_root(&next.to_map());
    Some((b, next, root))
}

/// One chain of blocks full of extrinsics, announced by nodes that hold its head, over any weather.
fn relay(spec: &Spec, mut r: Rng) {
    let accumulate = r.chance(1, 4);
    let mix = Mix {
        pile: false,
        tickets: r.chance(2, 3),
        disputes: r.chance(1, 3),
        reports: accumulate || r.chance(1, 2),
        preimages: r.chance(1, 2),
        accumulate,
        skip: 20,
        jump: 0,
        broken: 0,
        errs: 0,
    };
    let (mut ch, map, blobs) = model_genesis(&mut r, spec, &mix);
    let map = Arc::new(map);
    let n = r.range(2, 6) as usize;
    let mut ids: Vec<usize> = (0..6).collect();
    r.shuffle(&mut ids);
    ids.truncate(n);
    let harsh = r.chance(1, 2);
    let workers: Vec<usize> = (0..n).map(|_| r.range(1, 2) as usize).collect();
    rec::knobs(format!("relay accounts={ids:?} workers={workers:?} harsh={harsh} {mix:?}"));
    clock_at(16, ch.st.slot, 1_000 * MS);
    let mut hosts = vec![];
    for (k, i) in ids.iter().enumerate() {
        let path = format!("/sim/node{i}");
        disk_latency(&mut r, &path);
        let how = Boot::State { map: map.clone(), header: ch.genesis.clone(), root: ch.root, authors: false };
        hosts.push(boot(k as u16 + 1, *i, path, Caches::random(&mut r), workers[k], how));
    }
    let mut w = Watch::default();
    let until = simrt::now() + 20_000 * MS;
    while !hosts.iter().all(|h| h.connected() >= n - 1) {
        if simrt::now() > until {
            rec::violate(&["C30"], "not-connected", format!("on a network without faults the nodes are connected to {:?} peers after 20 s", hosts.iter().map(|h| h.connected()).collect::<Vec<_>>()));
            return;
        }
        if !w.run(&mut hosts, simrt::now() + 200 * MS) {
            return;
        }
    }
    let n_ops = r.range(3, 10) as u32;
    rec::ops(n_ops);
    let dies = if n > 2 && r.chance(1, 3) { r.below(n_ops as u64) as u32 } else { u32::MAX };
    // a machine that is back with the state of the others, at its old address
    let back = if dies != u32::MAX && r.chance(2, 3) { dies + r.range(1, 2) as u32 } else { u32::MAX };
    let told: Told = Default::default();
    if !harsh && n < 6 && back == u32::MAX && r.chance(1, 2) {
        let who = (0..6).find(|i| !ids.contains(i)).unwrap();
        rogue(spec.seed, who, hosts.clone(), told.clone());
    }
    let mut chain: Vec<(H, H, u32)> = vec![];
    for i in 0..n_ops + 2 {
        let last = i >= n_ops;
        let mut r = Rng::stream(spec.seed, 1000 + i as u64);
        if !last && spec.drop_ops.contains(&i) {
            continue;
        }
        if i == back && !comes_back(&mut r, &mut hosts, &mut w, &ch, chain.len()) {
            return;
        }
        let sky = if last { Sky::Clear } else if harsh { *r.pick(&[Sky::Mild, Sky::Harsh]) } else { *r.pick(&[Sky::Clear, Sky::Mild]) };
        let d = weather(&mut r, sky);
        if !last && harsh && i % 2 == 0 && simrt::net::net_cfg().blocked.is_empty() && r.chance(2, 3) {
            let side = r.below(1 << n);
            for a in 0..n as u16 {
                for b in 0..n as u16 {
                    if (side >> a) & 1 != (side >> b) & 1 {
                        cut(hosts[a as usize].node, hosts[b as usize].node);
                    }
                }
            }
            w.heal_at = simrt::now() + r.range(1, 12) * 1000 * MS;
            simrt::count("fault.partition");
        }
        // bursts and pauses
        let mut slot = (ch.st.slot + 1).max(current_slot() + if r.chance(2, 3) { 0 } else { r.range(1, 3) as u32 });
        if !w.run(&mut hosts, at(slot, 1 + r.below(3_000) * MS)) {
            return;
        }
        ch.clock = current_slot();
        let Some(b) = build_block(&mut r, &mut ch, &mut slot, &mix, &blobs) else { continue };
        ch.clock = ch.clock.max(slot);
        let Ok(next) = apply(&ch.st, &ch.head, &ch.root, &b, &ch, &mut *ch.rules()) else { continue };
        if !w.run(&mut hosts, at(slot, 1)) {
            return;
        }
        let root = trie_root(&next.to_map());
        if i == dies {
            let k = r.below(n as u64) as usize;
            // someone has to hold the chain
            if hosts.iter().enumerate().any(|(j, h)| j != k && h.up && h.best().0 == ch.head) {
                crash(&mut hosts[k]);
            }
        }
        let able: Vec<usize> = (0..n).filter(|k| hosts[*k].up && hosts[*k].best().0 == ch.head).collect();
        let k = *r.pick(&able);
        let bytes = b.bytes();
        rec::hist(format!("op{i} block of slot {slot} ({} bytes) at node {k}; heads {}; {sky:?} {d}", bytes.len(), heads(&hosts)));
        simrt::count("net.announced");
        if bytes.len() > 1200 {
            simrt::count("net.big_blocks");
        }
        match announce(&hosts[k], &bytes) {
            Ok(got) if got == root => {}
            other => {
                rec::violate(&["C10"], "origin", format!("node {k} made {other:?} of a valid block"));
                return;
            }
        }
        ch.st = next;
        ch.head = b.hash();
        ch.root = root;
        ch.headers.push((slot, ch.head));
        chain.push((ch.head, root, slot));
        told.lock().unwrap().push((k, ch.head, bytes.clone()));
        rec::state(u64::from_le_bytes(root[..8].try_into().unwrap()));
        // on a working network it is there within a slot
        if sky != Sky::Harsh && !harsh {
            let until = simrt::now() + 5_000 * MS;
            while hosts.iter().any(|h| h.up && h.best().0 != ch.head) {
                if simrt::now() > until {
                    rec::violate(&["C30"], "not-reached", format!("5 s after the block of slot {slot} ({} bytes) was announced by node {k} the heads are {}", bytes.len(), heads(&hosts)));
                    return;
                }
                if !w.run(&mut hosts, simrt::now() + 100 * MS) {
                    return;
                }
            }
        }
    }
    simrt::net::net_cfg().blocked.clear();
    weather(&mut r, Sky::Clear);
    let until = simrt::now() + 60_000 * MS;
    while hosts.iter().any(|h| h.up && h.best().0 != ch.head) {
        if simrt::now() > until {
            if harsh && hosts.iter().any(|h| h.timed_out() > 0) {
                simrt::count("net.connection_lost");
                return;
            }
            rec::violate(&["C30"], "never-caught-up", format!("60 s after the network works again the heads are {}, the chain's is {}", heads(&hosts), hex8(&ch.head[..2])));
            return;
        }
        if !w.run(&mut hosts, simrt::now() + 200 * MS) {
            return;
        }
    }
    if !w.look(&mut hosts) || !w.settle(&hosts) {
        return;
    }
    for (k, h) in hosts.iter().enumerate().filter(|(_, h)| h.up) {
        for (hash, root, slot) in &chain[h.since..] {
            let got = h.root_of(*hash);
            if got != Some(*root) {
                rec::violate(&["C31", "C10"], "wrong-root", format!("node {k} holds root {:?} for the block of slot {slot}, expected {}", got.map(|x| hex8(&x)), hex8(root)));
                return;
            }
        }
    }
    if chain.len() >= 2 {
        rec::nontrivial();
    }
}
/// The machine that went away is back.
fn comes_back(r: &mut Rng, hosts: &mut [Host], w: &mut Watch, ch: &Chain, len: usize) -> bool {
    let Some(k) = hosts.iter().position(|h| !h.up) else { return true };
    simrt::net::net_cfg().blocked.clear();
    weather(r, Sky::Clear);
    // what is still on its way arrives
    let until = simrt::now() + 30_000 * MS;
    while hosts.iter().any(|h| h.up && h.best().0 != ch.head) {
        if simrt::now() > until || !w.run(hosts, simrt::now() + 200 * MS) {
            return simrt::now() > until;
        }
    }
    let Some(header) = hosts.iter().find(|h| h.up).unwrap().header(ch.head) else { return true };
    let (who, node) = (hosts[k].who, 7 + k as u16);
    let how = Boot::State { map: Arc::new(ch.st.to_map()), header, root: ch.root, authors: false };
    simrt::set_clock_offset(node, simrt::clock_offset(0));
    hosts[k] = boot(node, who, format!("/sim/again{who}"), Caches::random(r), 2, how);
    hosts[k].since = len;
    simrt::count("fault.node_restart");
    rec::hist(format!("node {k} is back"));
    let peers = hosts.iter().filter(|h| h.up).count() - 1;
    // those it would rather be called by it calls once the attempts to reach absent ones have ended
    let until = simrt::now() + 60_000 * MS;
    while hosts[k].connected() < peers {
        if simrt::now() > until {
            if hosts.iter().any(|h| h.up && h.timed_out() > 0) {
                simrt::count("net.connection_lost");
                return false;
            }
            rec::violate(&["C30"], "not-connected-again", format!("on a network without faults node {k}, back after it was gone, is connected to {} of {peers} peers after 60 s", hosts[k].connected()));
            return false;
        }
        if !w.run(hosts, simrt::now() + 200 * MS) {
            return false;
        }
    }
    w.run(hosts, simrt::now() + 2_000 * MS)
}
/// What the authoring role does with a finished block.
fn announce(h: &Host, bytes: &[u8]) -> Result<H, String> {
    let (ns, nm) = (h.ns.clone(), h.nm.clone());
    let block = Block::decode(&mut &bytes[..]).map_err(short)?;
    h.ask(async move {
        let sm = ns.state_manager();
        let _g = sm.lock_block_processing().await;
        let header = block.header.clone();
        ns.xt_db().set_xt(header.extrinsic_hash(), block.extrinsics.clone()).await.map_err(short)?;
        let res = BlockImporter::import_block(ns.clone(), block, false, BlockCommitMode::Immediate).await;
        match res {
            Ok(o) => {
                nm.announce_block_to_all_peers(&header).await.map_err(short)?;
                Ok(arr(&o.post_state_root))
            }
            Err(e) => {
                sm.rollback_dirty_cache();
                Err(format!("{e}"))
            }
        }
    })
}

/// Blocks and the node that announced each.
type Told = Arc<std::sync::Mutex<Vec<(usize, H, Vec<u8>)>>>;

/// A peer with a validator's address that follows no protocol.
fn rogue(seed: u64, who: usize, victims: Vec<Host>, told: Told) {
    std::thread::Builder::new()
        .name("rogue".into())
        .stack_size(8 << 20)
        .spawn(move || {
            simrt::set_node(15);
            let rt = runtime(1, 1);
            rt.block_on(async move {
                let mut r = Rng::stream(seed, 77);
                let ep = QuicEndpoint::new(DEVS[who].load_validator_key_info().socket_addr);
                let (ep2, s2, told2, victims2) = (ep.clone(), seed, told.clone(), victims.clone());
                tokio::spawn(async move {
                    // whoever connects may wait
                    let mut keep = vec![];
                    let mut r = Rng::stream(s2, 78);
                    while let Some(c) = ep2.accept().await {
                        if r.chance(1, 2) {
                            if let Ok(c) = c.await {
                                if r.chance(1, 3) {
                                    c.close(7u32.into(), b"no");
                                } else if r.chance(2, 3) {
                                    let (c, told, seed) = (c.clone(), told2.clone(), r.below(1 << 40));
                                    let Some(k) = victims2.iter().position(|v| std::net::SocketAddr::V6(DEVS[v.who].load_validator_key_info().socket_addr) == c.remote_address()) else { continue };
                                    let k = (k, victims2[k].node);
                                    tokio::spawn(async move {
                                        let mut r = Rng::stream(seed, 79);
                                        for _ in 0..r.range(2, 5) {
                                            tokio::time::sleep(std::time::Duration::from_millis(r.below(6_000))).await;
                                            let Ok((mut tx, mut rx)) = c.open_bi().await else { return };
                                            let what = if r.chance(1, 2) {
                                                unsupported(&mut r, &mut tx, &mut rx).await
                                            } else {
                                                ask_properly(&mut r, &mut tx, &mut rx, k, &told).await
                                            };
                                            simrt::count("fault.rogue_acceptor");
                                            rec::hist(format!("rogue, found by node {}: {what}", k.0));
                                        }
                                    });
                                }
                                keep.push(c);
                            }
                        } else if r.chance(1, 2) {
                            c.refuse();
                        } else {
                            std::mem::forget(c);
                        }
                    }
                });
                let mut keep = vec![];
                for _ in 0..r.range(2, 14) {
                    tokio::time::sleep(std::time::Duration::from_millis(r.below(5_000))).await;
                    let k = r.below(victims.len() as u64) as usize;
                    let v = &victims[k];
                    let key = DEVS[v.who].load_validator_key_info().validator_key.ed25519;
                    let addr = DEVS[v.who].load_validator_key_info().socket_addr;
                    let Ok(Ok(conn)) = tokio::time::timeout(std::time::Duration::from_secs(3), ep.connect(addr, &key)).await else { continue };
                    let what = misbehave(&mut r, &conn, (k, v.node), &told).await;
                    simrt::count("fault.rogue_peer");
                    rec::hist(format!("rogue to node {k}: {what}"));
                    if r.chance(1, 3) {
                        conn.close(9u32.into(), b"");
                    }
                    keep.push(conn);
                }
                std::future::pending::<()>().await;
            });
        })
        .expect("thread");
}
/// What the protocol knows and this implementation does not serve.
async fn unsupported(r: &mut Rng, tx: &mut quinn::SendStream, rx: &mut quinn::RecvStream) -> &'static str {
    let mut b = vec![];
    let what = match r.below(3) {
        0 => {
            b.push(r.range(129, 146) as u8);
            let n = r.below(80) as usize;
            b.extend(r.bytes(n));
            "asks for something else"
        }
        1 => {
            b.push(*r.pick(&[1u8, 2, 127, 146, 200, 255]));
            "an unknown stream"
        }
        _ => {
            b.push(128);
            b.extend(r.bytes(32));
            b.push(r.below(2) as u8);
            b.extend(r.pick(&[0u32, 1, 2, 100, u32::MAX]).to_le_bytes());
            "asks for many blocks"
        }
    };
    let _ = tx.write_all(&b).await;
    let _ = tx.finish();
    let _ = tokio::time::timeout(std::time::Duration::from_secs(1), rx.read_to_end(1 << 20)).await;
    what
}
/// What an honest peer would ask.
async fn ask_properly(r: &mut Rng, tx: &mut quinn::SendStream, rx: &mut quinn::RecvStream, (k, node): (usize, u16), told: &Told) -> &'static str {
    let mine: Vec<_> = told.lock().unwrap().iter().filter(|x| x.0 == k).cloned().collect();
    if mine.is_empty() {
        return "has nothing to ask";
    }
    let (_, h, want) = r.pick(&mine).clone();
    let wait = std::time::Duration::from_millis(r.below(400));
    let mut b = vec![128u8];
    b.extend(h);
    b.push(0);
    b.extend(1u32.to_le_bytes());
    let mut at = 0;
    while at < b.len() {
        let n = (1 + r.below(b.len() as u64) as usize).min(b.len() - at);
        let _ = tx.write_all(&b[at..at + n]).await;
        at += n;
        if r.chance(1, 2) {
            tokio::time::sleep(wait).await;
        }
    }
    let _ = tx.finish();
    match tokio::time::timeout(std::time::Duration::from_secs(5), rx.read_to_end(1 << 20)).await {
        Ok(Ok(got)) if got == want => simrt::count("net.served"),
        _ if simrt::net::dropped(node) => return "asks a dead node",
        got => rec::violate(&["C30"], "not-served", format!("asked for a block it announced, node {k} answers {:?}", got.map(|x| x.map(|b| b.len())))),
    }
    "asks properly"
}
async fn misbehave(r: &mut Rng, conn: &quinn::Connection, k: (usize, u16), told: &Told) -> &'static str {
    let Ok((mut tx, mut rx)) = conn.open_bi().await else { return "nothing" };
    let said = told.lock().unwrap().clone();
    let wait = std::time::Duration::from_millis(r.below(1_500));
    match r.below(11) {
        9..=10 => unsupported(r, &mut tx, &mut rx).await,
        0 => {
            // an unfinished stream
            let _ = tx.write_all(&[*r.pick(&[0u8, 128])]).await;
            tokio::time::sleep(wait).await;
            "starts a stream"
        }
        1 => {
            let n = r.below(3000) as usize;
            let mut b = vec![*r.pick(&[0u8, 128])];
            b.extend(r.bytes(n));
            let _ = tx.write_all(&b).await;
            if r.chance(1, 2) {
                let _ = tx.finish();
            }
            tokio::time::sleep(wait).await;
            "noise"
        }
        2 => {
            let mut b = vec![0u8];
            b.extend(r.pick(&[u32::MAX, 1 << 31, 1 << 24, 1025]).to_le_bytes());
            b.extend(r.bytes(40));
            let _ = tx.write_all(&b).await;
            tokio::time::sleep(wait).await;
            "an announcement without an end"
        }
        3..=5 => {
            // announces a block and serves something else
            let mut h = match said.last() {
                Some((_, _, b)) => Block::decode(&mut &b[..]).unwrap().header,
                None => BlockHeader::default(),
            };
            if r.chance(2, 3) {
                h.data.parent_hash = h32(&hash(&[b"rogue", &r.bytes(8)]));
            }
            if r.chance(1, 2) {
                h.set_timeslot(h.timeslot_index() + r.below(3) as u32);
            }
            let blob = h.block_announcement_blob().unwrap();
            let mut b = vec![0u8];
            b.extend((blob.len() as u32).to_le_bytes());
            b.extend(blob);
            let cut = if r.chance(1, 4) { r.below(b.len() as u64) as usize } else { b.len() };
            let _ = tx.write_all(&b[..cut]).await;
            let Ok(Ok((mut stx, _srx))) = tokio::time::timeout(std::time::Duration::from_secs(2), conn.accept_bi()).await else { return "announces, is not asked" };
            match r.below(5) {
                0 => {
                    // never answers
                    std::mem::forget(stx);
                    std::mem::forget(_srx);
                    "announces, does not serve"
                }
                1 => {
                    let _ = stx.reset(3u32.into());
                    "announces, resets"
                }
                2 => {
                    let n = r.below(5000) as usize;
                    let b = r.bytes(n);
                    let _ = stx.write_all(&b).await;
                    let _ = stx.finish();
                    "announces, serves noise"
                }
                3 => {
                    // a block like the last one, but for its header
                    let mut bl = match said.last() {
                        Some((_, _, b)) => Block::decode(&mut &b[..]).unwrap(),
                        None => return "announces, has nothing",
                    };
                    if r.chance(1, 2) {
                        bl.header = h;
                    } else if r.chance(1, 2) {
                        bl.extrinsics = Default::default();
                    } else {
                        bl.header.set_timeslot(bl.header.timeslot_index() + 1);
                        bl.header.data.parent_hash = h32(&said.last().unwrap().1);
                    }
                    let _ = stx.write_all(&bl.encode().unwrap()).await;
                    let _ = stx.finish();
                    tokio::time::sleep(wait).await;
                    "announces, serves an invalid block"
                }
                _ => {
                    let b = vec![0u8; 1 << 16];
                    for _ in 0..r.range(1, 40) {
                        if stx.write_all(&b).await.is_err() {
                            break;
                        }
                    }
                    "announces, serves without end"
                }
            }
        }
        6..=7 => ask_properly(r, &mut tx, &mut rx, k, told).await,
        _ => {
            // many at once
            for _ in 0..r.range(1, 60) {
                let Ok(Ok((mut tx, rx))) = tokio::time::timeout(std::time::Duration::from_millis(50), conn.open_bi()).await else { break };
                let _ = tx.write_all(&[128]).await;
                std::mem::forget(tx);
                std::mem::forget(rx);
            }
            "many streams"
        }
    }
}
