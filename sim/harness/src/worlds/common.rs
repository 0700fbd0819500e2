//! Things several worlds share: runtime, storage set-up, the trie oracle.
use blake2::{digest::consts::U32, Blake2b, Digest};
use fr_config::StorageConfig;
use simrt::Rng;
use std::collections::BTreeMap;
use std::path::PathBuf;

pub type Key31 = [u8; 31];
pub type Map = BTreeMap<Key31, Vec<u8>>;

pub fn blake(b: &[u8]) -> [u8; 32] {
    let mut h = Blake2b::<U32>::new();
    h.update(b);
    h.finalize().into()
}

fn bit(k: &Key31, i: usize) -> bool {
    k[i / 8] >> (7 - i % 8) & 1 == 1
}
fn leaf(k: &Key31, v: &[u8]) -> [u8; 64] {
    let mut n = [0u8; 64];
    n[1..32].copy_from_slice(k);
    if v.len() <= 32 {
        n[0] = 0x80 | v.len() as u8;
        n[32..32 + v.len()].copy_from_slice(v);
    } else {
        n[0] = 0xc0;
        n[32..].copy_from_slice(&blake(v));
    }
    n
}
fn trie(kv: &[(&Key31, &Vec<u8>)], d: usize) -> [u8; 32] {
    match kv {
        [] => [0; 32],
        [(k, v)] => blake(&leaf(k, v)),
        _ => {
            let m = kv.partition_point(|(k, _)| !bit(k, d));
            let (l, r) = kv.split_at(m);
            let mut n = [0u8; 64];
            n[..32].copy_from_slice(&trie(l, d + 1));
            n[32..].copy_from_slice(&trie(r, d + 1));
            n[0] &= 0x7f;
            blake(&n)
        }
    }
}
/// Gray Paper appendix D, directly from the map.
pub fn trie_root(m: &Map) -> [u8; 32] {
    let kv: Vec<(&Key31, &Vec<u8>)> = m.iter().collect();
    trie(&kv, 0)
}
pub fn map_digest(m: &Map) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for (k, v) in m {
        h = h.rotate_left(5) ^ crate::rec::fnv1(k) ^ crate::rec::fnv1(v).rotate_left(31);
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

#[derive(Clone, Debug)]
pub struct Caches {
    pub state: usize,
    pub state_db: usize,
    pub nodes: usize,
    pub leaf_paths: usize,
    pub header: usize,
    pub xt: usize,
    pub psr: usize,
}
impl Caches {
    pub fn shipped() -> Self {
        Caches { state: 8192, state_db: 8192, nodes: 8192, leaf_paths: 1024, header: 1024, xt: 1024, psr: 1024 }
    }
    pub fn random(r: &mut Rng) -> Self {
        let pick = |r: &mut Rng| *r.pick(&[0usize, 1, 2, 3, 7, 20, 100, 8192]);
        Caches {
            state: *r.pick(&[1usize, 2, 3, 7, 20, 100, 8192, 8192]),
            state_db: pick(r),
            nodes: pick(r),
            leaf_paths: pick(r),
            header: *r.pick(&[1usize, 2, 8, 1024]),
            xt: *r.pick(&[1usize, 2, 8, 1024]),
            psr: *r.pick(&[1usize, 2, 8, 1024]),
        }
    }
    pub fn config(&self, path: &str) -> StorageConfig {
        let mut c = StorageConfig::from_path(PathBuf::from(path));
        c.state_cache_size = self.state;
        c.cfs.state_db.cache_size = self.state_db;
        c.cfs.merkle_nodes_db.cache_size = self.nodes;
        c.cfs.merkle_leaf_paths_db.cache_size = self.leaf_paths;
        c.cfs.header_db.cache_size = self.header;
        c.cfs.xt_db.cache_size = self.xt;
        c.cfs.post_state_root_db.cache_size = self.psr;
        c
    }
}

/// A tokio runtime of the shipped kind (multi-threaded), with a chosen worker count.
pub fn runtime(workers: usize, blocking: usize) -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_multi_thread()
        .worker_threads(workers)
        .max_blocking_threads(blocking)
        .enable_all()
        .build()
        .expect("runtime")
}
pub fn hex8(b: &[u8]) -> String {
    b.iter().take(6).map(|x| format!("{x:02x}")).collect()
}
/// A short, stable description of an error (no addresses, no line numbers).
pub fn short(e: impl std::fmt::Debug) -> String {
    let s = format!("{e:?}");
    s.chars().take(120).collect()
}
