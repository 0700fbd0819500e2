//! The cached key-value stores (headers, extrinsics, post-state roots, raw) under concurrent clients: every key is a
//! register, and the recorded history of each must be linearizable.
use super::common::*;
use crate::rec::{self, Spec};
use fr_block::types::{
    block::BlockHeader,
    extrinsics::{preimages::PreimagesXtEntry, Extrinsics},
};
use fr_common::{ByteEncodable, Hash32, Octets};
use fr_config::StorageConfig;
use fr_db::{
    core::{
        cached_db::CachedDB,
        core_db::CoreDB,
    },
    WriteBatch,
};
use fr_storage::node_storage::NodeStorage;
use rocksdb::simctl;
use simrt::Rng;
use std::{
    collections::HashSet,
    sync::{Arc, Mutex},
};

const PATH: &str = "/sim/store";

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Kind {
    Header,
    Xt,
    Psr,
    Raw,
    /// The head of the chain: one register, in memory only.
    Head,
}
const ALL: [Kind; 5] = [Kind::Header, Kind::Xt, Kind::Psr, Kind::Raw, Kind::Head];
impl Kind {
    fn keys(self, n: usize) -> usize {
        if self == Kind::Head { 1 } else { n }
    }
}
/// What the ancestor set was asked about one header: called, returned, the answer.
#[derive(Clone, Debug)]
struct Asked {
    x: usize,
    val: u64,
    start: u64,
    end: u64,
    found: bool,
}
type Anc = Arc<Mutex<Vec<Asked>>>;

/// One operation on one key: what it did, when it was called and when it returned (None: unknown outcome).
#[derive(Clone, Debug)]
struct Op {
    start: u64,
    end: u64,
    write: bool,
    /// 0 = absent
    val: u64,
    done: bool,
}
type Hist = Arc<Mutex<Vec<Vec<Op>>>>;

struct Stores {
    ns: NodeStorage,
    raw: CachedDB<Hash32, Vec<u8>>,
    core: Arc<CoreDB>,
}
fn key(kind: Kind, i: usize) -> Hash32 {
    let mut k = [0u8; 32];
    k[0] = i as u8;
    k[1] = match kind {
        Kind::Header => 1,
        Kind::Xt => 2,
        Kind::Psr => 3,
        Kind::Raw => 4,
        Kind::Head => 5,
    };
    Hash32::new(blake(&k))
}
fn header(v: u64) -> BlockHeader {
    let mut h = BlockHeader::default();
    h.set_timeslot(v as u32);
    h.set_author_index((v % 6) as u16);
    h
}
fn xts(v: u64) -> Extrinsics {
    let mut x = Extrinsics::default();
    x.preimages.items.push(PreimagesXtEntry { service_id: v as u32, preimage_data: Octets::from_vec(vec![v as u8; (v % 40) as usize]) });
    x
}
fn root(v: u64) -> Hash32 {
    let mut k = [0u8; 32];
    k[..8].copy_from_slice(&v.to_le_bytes());
    k[24..].copy_from_slice(&v.to_le_bytes());
    Hash32::new(k)
}
fn bytes(v: u64) -> Vec<u8> {
    let mut b = v.to_le_bytes().to_vec();
    b.resize(8 + (v % 50) as usize, v as u8);
    b
}
const TORN: u64 = u64::MAX;

impl Stores {
    async fn read(&self, kind: Kind, k: &Hash32) -> Result<u64, String> {
        Ok(match kind {
            Kind::Header => match self.ns.header_db().get_header(k).await.map_err(short)? {
                None => 0,
                Some(h) => {
                    let v = h.timeslot_index() as u64;
                    if h == header(v) { v } else { TORN }
                }
            },
            Kind::Xt => match self.ns.xt_db().get_xt(k).await.map_err(short)? {
                None => 0,
                Some(x) => {
                    let v = x.preimages.items.first().map(|p| p.service_id as u64).unwrap_or(TORN);
                    if v != TORN && x == xts(v) { v } else { TORN }
                }
            },
            Kind::Psr => match self.ns.post_state_root_db().get_post_state_root(k).await.map_err(short)? {
                None => 0,
                Some(r) => {
                    let v = u64::from_le_bytes(r.as_slice()[..8].try_into().unwrap());
                    if r == root(v) { v } else { TORN }
                }
            },
            Kind::Raw => match self.raw.get_entry(k).await.map_err(short)? {
                None => 0,
                Some(b) => {
                    let v = u64::from_le_bytes(b[..8].try_into().unwrap());
                    if b == bytes(v) { v } else { TORN }
                }
            },
            Kind::Head => {
                let h = self.ns.header_db().get_best_header();
                let v = h.timeslot_index() as u64;
                if h == header(v) { v } else { TORN }
            }
        })
    }
    async fn write(&self, kind: Kind, k: &Hash32, v: u64) -> Result<(), String> {
        match kind {
            Kind::Header => self.ns.header_db().insert_header(k.clone(), header(v)).await.map_err(short),
            Kind::Xt => self.ns.xt_db().set_xt(k, xts(v)).await.map_err(short),
            Kind::Psr => self.ns.post_state_root_db().set_post_state_root(k, root(v)).await.map_err(short),
            Kind::Raw if v == 0 => self.raw.delete_entry(k).await.map_err(short),
            Kind::Raw => self.raw.put_entry(k, bytes(v)).await.map_err(short),
            Kind::Head => {
                self.ns.header_db().set_best_header(header(v));
                Ok(())
            }
        }
    }
    async fn write_many(&self, kind: Kind, w: &[(Hash32, u64)]) -> Result<(), String> {
        match kind {
            Kind::Header => self.ns.header_db().batch_insert_headers(w.iter().map(|(k, v)| (k.clone(), header(*v))).collect()).await.map_err(short),
            _ => {
                let mut b = WriteBatch::default();
                let cf = self.raw.cf_handle().map_err(short)?;
                let mut ws = vec![];
                for (k, v) in w {
                    if *v == 0 {
                        b.delete_cf(cf, k.as_slice());
                        ws.push((k.clone(), None));
                    } else {
                        b.put_cf(cf, k.as_slice(), bytes(*v));
                        ws.push((k.clone(), Some(bytes(*v))));
                    }
                }
                self.raw.commit_write_batch_and_sync_cache(b, &ws).await.map_err(short)
            }
        }
    }
}

pub fn run(spec: &Spec) {
    let mut r = Rng::stream(spec.seed, 21);
    let caches = if r.chance(1, 5) { Caches::shipped() } else { Caches::random(&mut r) };
    let workers = r.range(1, 5) as usize;
    let blocking = r.range(1, 8) as usize;
    let rt = runtime(workers, blocking);
    let spec = spec.clone();
    rt.block_on(async move { world(&spec, r, caches, workers, blocking).await });
    std::mem::forget(rt);
}

async fn world(spec: &Spec, mut r: Rng, caches: Caches, workers: usize, blocking: usize) {
    let ns = match NodeStorage::new(caches.config(PATH)) {
        Ok(n) => n,
        Err(e) => panic!("harness: open: {e:?}"),
    };
    let raw_cache = *r.pick(&[0usize, 1, 2, 64]);
    // a second handle on the same simulated device, on a column family of its own
    let raw_path = "/sim/store-raw";
    let core = Arc::new(CoreDB::open(raw_path, StorageConfig::rocksdb_opts(), StorageConfig::cf_descriptors()).expect("harness: open"));
    let raw = CachedDB::new(core.clone(), fr_config::STATE_CF_NAME, raw_cache);
    let st = Arc::new(Stores { ns, raw, core });
    let faults = rocksdb::FaultCfg {
        latency_chance: *r.pick(&[3_000, 20_000, 60_000]),
        latency_max_ns: *r.pick(&[20_000, 2_000_000, 50_000_000]),
        read_err: if r.chance(1, 4) { 2500 } else { 0 },
        write_err: if r.chance(1, 4) { 2500 } else { 0 },
        ambiguous: r.chance(1, 2),
        ..Default::default()
    };
    simctl::set_faults(PATH, faults.clone());
    simctl::set_faults(raw_path, faults.clone());
    let kinds: Vec<Kind> = if r.chance(1, 3) { ALL.to_vec() } else { vec![*r.pick(&ALL)] };
    let nkeys = r.range(1, 4) as usize;
    let clients = r.range(2, 6) as u32;
    let per = r.range(2, 14) as u32;
    rec::knobs(format!("{caches:?} raw={raw_cache} workers={workers} blocking={blocking} kinds={kinds:?} keys={nkeys} clients={clients} ops={per} {faults:?}"));
    rec::ops(clients * per);
    let regs: Vec<(Kind, usize)> = kinds.iter().flat_map(|k| (0..k.keys(nkeys)).map(move |i| (*k, i))).collect();
    let hist: Hist = Arc::new(Mutex::new(vec![vec![]; regs.len()]));
    let anc: Anc = Arc::default();
    let regs = Arc::new(regs);
    let mut tasks = vec![];
    for c in 0..clients {
        let (st, hist, anc, regs, drop) = (st.clone(), hist.clone(), anc.clone(), regs.clone(), spec.drop_ops.clone());
        let seed = spec.seed;
        tasks.push(tokio::spawn(async move {
            for i in 0..per {
                let mut r = Rng::stream(seed, 7_000_000 + (c * 1000 + i) as u64);
                if drop.contains(&(c * per + i)) {
                    continue;
                }
                let x = r.usize(regs.len());
                client(&st, &hist, &anc, &regs, x, 1 + (c * 1000 + i) as u64, nkeys, r).await;
            }
        }));
    }
    for t in tasks {
        if t.await.is_err() {
            rec::violate(&["C07"], "panic", rec::last_panic());
            return;
        }
    }
    // afterwards: what a warm and what a cold cache gives
    simctl::set_faults(PATH, Default::default());
    simctl::set_faults(raw_path, Default::default());
    simctl::install("/sim/store-cold", simctl::image(PATH));
    simctl::set_faults("/sim/store-cold", Default::default());
    let cold_ns = NodeStorage::new(Caches::shipped().config("/sim/store-cold")).expect("harness: open");
    let cold_st = Stores { ns: cold_ns, raw: CachedDB::new(st.core.clone(), fr_config::STATE_CF_NAME, 4), core: st.core.clone() };
    for (x, (kind, i)) in regs.iter().enumerate() {
        let warm = rd(&st, &hist, *kind, x, *i).await;
        let cold = if *kind == Kind::Head { warm } else { rd(&cold_st, &hist, *kind, x, *i).await };
        if warm.is_none() || cold.is_none() {
            rec::violate(&["C07"], "read-error", format!("{kind:?} key {i}: unreadable without faults"));
        }
    }
    let h = hist.lock().unwrap();
    let mut contended = false;
    for (x, ops) in h.iter().enumerate() {
        contended |= ops.iter().filter(|o| o.write && o.done).count() >= 2;
        let (kind, i) = regs[x];
        if let Some(o) = ops.iter().find(|o| o.val == TORN) {
            rec::violate(&["C07"], "torn-value", format!("{kind:?} key {i}: a value nobody wrote, at #{}", o.start));
        } else if !linearizable(ops) {
            let t: Vec<String> = ops.iter().map(|o| format!("{}{}[{}-{}]{}", if o.write { "w" } else { "r" }, o.val, o.start, if o.done { o.end.to_string() } else { "?".into() }, "")).collect();
            rec::violate(&["C07"], "not-linearizable", format!("{kind:?} key {i}: {}", t.join(" ")));
        }
        rec::state(ops.iter().fold(x as u64, |a, o| a.wrapping_mul(31).wrapping_add(o.val ^ (o.write as u64) << 40)));
    }
    // a header is in the ancestor set from the moment its insertion is acknowledged, and none is that nobody inserted
    for a in anc.lock().unwrap().iter() {
        let ws = h[a.x].iter().filter(|o| o.write && o.val == a.val);
        // the set keeps the latest slots
        let later: usize = regs.iter().enumerate().filter(|(_, (k, _))| *k == Kind::Header).map(|(y, _)| h[y].iter().filter(|o| o.write && o.start < a.end && o.val >= a.val && (y, o.val) != (a.x, a.val)).count()).sum();
        let must = later < fr_common::MAX_LOOKUP_ANCHOR_AGE && ws.clone().any(|o| o.done && o.end < a.start);
        let may = ws.clone().any(|o| o.start < a.end);
        if (must && !a.found) || (!may && a.found) {
            rec::violate(&["C07"], "ancestor-set", format!("header {} of key {} at #{}: found={}", a.val, regs[a.x].1, a.start, a.found));
        }
    }
    if contended {
        rec::nontrivial();
    }
}

async fn rd(st: &Stores, hist: &Hist, kind: Kind, x: usize, i: usize) -> Option<u64> {
    let s = simrt::seq();
    match st.read(kind, &key(kind, i)).await {
        Ok(v) => {
            hist.lock().unwrap()[x].push(Op { start: s, end: simrt::seq(), write: false, val: v, done: true });
            Some(v)
        }
        Err(_) => None,
    }
}
async fn client(st: &Stores, hist: &Hist, anc: &Anc, regs: &[(Kind, usize)], x: usize, id: u64, nkeys: usize, mut r: Rng) {
    let (kind, i) = regs[x];
    if kind == Kind::Head {
        // nothing here waits for a disk: several in a row, to meet those of other clients
        for n in 0..r.range(1, 4) {
            if hist.lock().unwrap()[x].len() > 110 {
                return;
            }
            if r.chance(1, 2) {
                let v = rd(st, hist, kind, x, i).await;
                rec::hist(format!("read {kind:?}: {v:?}"));
            } else {
                let v = id * 10 + n;
                let at = begin(hist, x, v);
                let res = st.write(kind, &key(kind, i), v).await;
                finish(hist, x, at, res.is_ok());
                rec::hist(format!("write {kind:?} := {v}"));
            }
        }
        return;
    }
    if kind == Kind::Header && r.chance(1, 4) {
        // ask about a header that someone has been inserting, or about one that nobody will
        let known: Vec<u64> = hist.lock().unwrap()[x].iter().filter(|o| o.write).map(|o| o.val).collect();
        let val = if known.is_empty() || r.chance(1, 6) { 900_000 + id } else { *r.pick(&known) };
        let start = simrt::seq();
        let found = st.ns.header_db().header_exists_in_ancestor_set(&(val as u32, key(kind, i)));
        anc.lock().unwrap().push(Asked { x, val, start, end: simrt::seq(), found });
        rec::hist(format!("ancestor {kind:?} {i} {val}: {found}"));
    }
    match r.below(10) {
        0..=4 => {
            let v = rd(st, hist, kind, x, i).await;
            rec::hist(format!("read {kind:?} {i}: {v:?}"));
        }
        5..=8 => {
            let v = if kind == Kind::Raw && r.chance(1, 3) { 0 } else { id };
            let at = begin(hist, x, v);
            let res = st.write(kind, &key(kind, i), v).await;
            finish(hist, x, at, res.is_ok());
            rec::hist(format!("write {kind:?} {i} := {v}: {}", if res.is_ok() { "ok" } else { "error" }));
        }
        _ if matches!(kind, Kind::Header | Kind::Raw) => {
            let base = x - i;
            let mut w = vec![];
            let mut at = vec![];
            for j in 0..nkeys {
                if j == i || r.chance(1, 2) {
                    let v = if kind == Kind::Raw && r.chance(1, 3) { 0 } else { id };
                    at.push((base + j, begin(hist, base + j, v)));
                    w.push((key(kind, j), v));
                }
            }
            let res = st.write_many(kind, &w).await;
            for (x, a) in at {
                finish(hist, x, a, res.is_ok());
            }
            rec::hist(format!("batch {kind:?} {} keys := {id}: {}", w.len(), if res.is_ok() { "ok" } else { "error" }));
        }
        _ => tokio::task::yield_now().await,
    }
    if r.chance(1, 6) {
        simrt::sleep(r.below(3_000_000));
    }
}
fn begin(hist: &Hist, x: usize, v: u64) -> usize {
    let mut h = hist.lock().unwrap();
    h[x].push(Op { start: simrt::seq(), end: u64::MAX, write: true, val: v, done: false });
    h[x].len() - 1
}
/// A failed write may or may not have taken effect, now or later: it stays open.
fn finish(hist: &Hist, x: usize, at: usize, ok: bool) {
    if ok {
        let mut h = hist.lock().unwrap();
        h[x][at].end = simrt::seq();
        h[x][at].done = true;
    }
}

/// Wing-Gong search with memory of (linearized set, value).
fn linearizable(ops: &[Op]) -> bool {
    assert!(ops.len() <= 128, "harness: history too long");
    let must: u128 = ops.iter().enumerate().filter(|(_, o)| o.done).fold(0, |m, (i, _)| m | 1 << i);
    let mut seen: HashSet<(u128, u64)> = HashSet::new();
    let mut stack = vec![(0u128, 0u64)];
    while let Some((done, val)) = stack.pop() {
        if done & must == must {
            return true;
        }
        if !seen.insert((done, val)) || seen.len() > 2_000_000 {
            continue;
        }
        // the earliest response among the open ones bounds who may go first
        let lim = ops.iter().enumerate().filter(|(i, o)| done >> i & 1 == 0 && o.done).map(|(_, o)| o.end).min().unwrap_or(u64::MAX);
        for (i, o) in ops.iter().enumerate() {
            if done >> i & 1 == 1 || o.start > lim {
                continue;
            }
            if o.write {
                stack.push((done | 1 << i, o.val));
            } else if o.val == val {
                stack.push((done | 1 << i, val));
            }
        }
    }
    seen.len() > 2_000_000
}
