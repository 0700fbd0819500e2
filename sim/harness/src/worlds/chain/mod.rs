//! The block import pipeline on several nodes, against the reference model of the chain state.
use super::common::*;
use crate::rec::{self, Spec};
use fr_block::types::block::{Block, BlockHeader};
use fr_codec::prelude::*;
use fr_common::{ByteEncodable, Hash32, StateKey};
use fr_node::roles::importer::{BlockCommitMode, BlockImporter};
use fr_storage::node_storage::NodeStorage;
use rocksdb::simctl;
use simrt::Rng;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;
use tokio::sync::mpsc;

pub mod acc;
mod author;
pub mod fuzz;
pub mod net;
pub mod slots;
pub mod build;
pub mod enc;
pub mod gen;
pub mod model;
pub mod script;
pub mod svc;
pub mod vm;
pub mod vmdiff;

use acc::*;
use build::*;
use enc::*;
use gen::*;
use model::*;

const ERA: u64 = 1_735_732_800;

struct Node {
    path: String,
    ns: Arc<NodeStorage>,
    /// The shipped importer loop, for nodes that run it.
    tx: Option<mpsc::Sender<Block>>,
    control: bool,
    /// Imports that failed for want of a working disk.
    disk_failures: std::cell::Cell<u32>,
    /// Restarted, and no block imported since.
    cold: std::cell::Cell<bool>,
}
fn h32(h: &H) -> Hash32 {
    Hash32::new(*h)
}
fn arr(h: &Hash32) -> H {
    let mut a = [0; 32];
    a.copy_from_slice(h.as_slice());
    a
}
impl Node {
    async fn start(path: String, caches: &Caches, st: &Map, header: &BlockHeader, root: &H, importer: bool, control: bool) -> Result<Node, String> {
        let ns = Arc::new(NodeStorage::new(caches.config(&path)).map_err(short)?);
        let sm = ns.state_manager();
        for (k, v) in st {
            sm.add_raw_state_entry(&StateKey::new(*k), v.clone()).await.map_err(short)?;
        }
        sm.commit_dirty_cache().await.map_err(short)?;
        let got = sm.merkle_root().await.map_err(short)?;
        if arr(&got) != *root {
            rec::violate(&["C01"], "genesis-root", format!("initial state has root {}, expected {}", hex8(got.as_slice()), hex8(root)));
        }
        ns.header_db().set_best_header(header.clone());
        let hh = header.hash().map_err(short)?;
        ns.post_state_root_db().set_post_state_root(&hh, h32(root)).await.map_err(short)?;
        Ok(Node { path, tx: importer.then(|| Self::importer(&ns)), ns, control, disk_failures: Default::default(), cold: Default::default() })
    }
    fn importer(ns: &Arc<NodeStorage>) -> mpsc::Sender<Block> {
        let (tx, rx) = mpsc::channel(1);
        let s = ns.clone();
        tokio::spawn(async move { BlockImporter::run_block_importer(s, rx).await });
        tx
    }
    async fn holds(&self, want: &Map, other: &Map) -> Result<bool, String> {
        let sm = self.ns.state_manager();
        for k in want.keys().chain(other.keys().filter(|k| !want.contains_key(*k))) {
            if sm.get_raw_state_entry_from_db(&StateKey::new(*k)).await.map_err(short)?.as_ref() != want.get(k) {
                return Ok(false);
            }
        }
        Ok(true)
    }
    /// Imports a valid block on a process that dies meanwhile, then starts anew from what is on the disk.
    async fn import_dying(&mut self, r: &mut Rng, ch: &Chain, caches: &Caches, bytes: &[u8], next: &St) -> Result<(), String> {
        simctl::arm_crash(&self.path, r.range(1, 6), r.chance(1, 2));
        let got = self.import(bytes, false).await;
        simctl::disarm_crash(&self.path);
        let died = simctl::crashed(&self.path);
        let block = Block::decode(&mut &bytes[..]).map_err(short)?;
        let hash = arr(&block.header.hash().map_err(short)?);
        if !died && got.is_err() {
            return Err(format!("an import without faults failed: {}", got.unwrap_err()));
        }
        let importer = self.restart(caches)?;
        let (a, b) = (ch.st.to_map(), next.to_map());
        let root = trie_root(&b);
        let new = self.holds(&b, &a).await?;
        let old = !new && self.holds(&a, &b).await?;
        rec::hist(format!("crash{} and restart: {}", if died { " on a write" } else { "" }, if new { "block kept" } else { "block lost" }));
        if !new && !old {
            return Err("the state on the disk is neither the one before nor the one after the block".into());
        }
        if !new && (!died || got.is_ok()) {
            return Err("an imported block is gone".into());
        }
        for (s, h) in &ch.headers[ch.headers.len() - ch.imported..] {
            if self.ns.header_db().get_header(&h32(h)).await.map_err(short)?.is_none() {
                return Err(format!("the header of slot {s}, imported earlier, is gone"));
            }
        }
        if self.stored_root(&ch.head).await != Some(ch.root) {
            return Err("the post-state root of the parent is gone".into());
        }
        if new {
            if self.ns.header_db().get_header(&h32(&hash)).await.map_err(short)?.as_ref() != Some(&block.header) {
                return Err("the state of a block is on the disk, but its header is not".into());
            }
            if self.stored_root(&hash).await != Some(root) {
                return Err("the state of a block is on the disk, but its post-state root is not".into());
            }
            self.ns.header_db().set_best_header(block.header);
        } else {
            let parent = if ch.imported > 0 { self.ns.header_db().get_header(&h32(&ch.head)).await.map_err(short)? } else { None };
            self.ns.header_db().set_best_header(parent.unwrap_or_else(|| ch.genesis.clone()));
        }
        self.tx = importer.then(|| Self::importer(&self.ns));
        if !new {
            let again = self.import(bytes, false).await;
            if again != Ok(root) {
                return Err(format!("importing the block again after the restart gave {again:?}"));
            }
        }
        Ok(())
    }
    fn disk(&self, read: u32, write: u32) {
        let mut f = simctl::faults(&self.path);
        f.read_err = read;
        f.write_err = write;
        simctl::set_faults(&self.path, f);
    }
    async fn import(&self, bytes: &[u8], ancestors: bool) -> Result<H, String> {
        self.attempt(bytes, ancestors, (0, 0)).await
    }
    /// Imports while the disk fails now and then, and again when it works. None: a violation was reported.
    async fn import_shaky(&self, r: &mut Rng, ch: &Chain, bytes: &[u8], ancestors: bool, errs: u32) -> Option<Result<H, String>> {
        if errs == 0 || self.control || r.chance(1, 2) {
            return Some(self.import(bytes, ancestors).await);
        }
        let rates = *r.pick(&[(errs, 0), (0, errs), (errs, errs), (0, (errs * 20).min(20_000))]);
        let first = self.attempt(bytes, ancestors, rates).await;
        let Err(e) = first else { return Some(first) };
        simrt::count("chain.faulty_imports");
        let head = self.head();
        let state = self.root().await;
        if head != ch.head || state.as_ref() != Ok(&ch.root) {
            let hash = Block::decode(&mut &bytes[..]).ok().and_then(|b| b.header.hash().ok()).map(|h| arr(&h));
            // everything was done before the failure: for the caller to judge
            let stored = self.stored_root(&head).await;
            if Some(head) == hash && stored.is_some() && state.as_ref().ok() == stored.as_ref() {
                return Some(Ok(stored.unwrap()));
            }
            rec::violate(&["C05", "C03", "C31"], "failed-import-traces", format!(
                "after a failed import ({}) the head is {} and the state root {:?} (stored {:?}); before: {} and {}",
                e.chars().take(150).collect::<String>(), hex8(&head), state.map(|h| hex8(&h)), stored.map(|h| hex8(&h)), hex8(&ch.head), hex8(&ch.root)
            ));
            return None;
        }
        self.disk_failures.set(self.disk_failures.get() + 1);
        Some(self.import(bytes, ancestors).await)
    }
    /// The posterior root if the block was accepted.
    async fn attempt(&self, bytes: &[u8], ancestors: bool, rates: (u32, u32)) -> Result<H, String> {
        let res = self.attempt_once(bytes, ancestors, rates).await;
        if res.is_ok() {
            self.cold.set(false);
        }
        res
    }
    async fn attempt_once(&self, bytes: &[u8], ancestors: bool, (read, write): (u32, u32)) -> Result<H, String> {
        let mut input = bytes;
        let block = Block::decode(&mut input).map_err(|e| format!("decode: {e:?}"))?;
        if !input.is_empty() {
            return Err("decode: trailing bytes".into());
        }
        let hash = block.header.hash().map_err(short)?;
        if let Some(tx) = &self.tx {
            let before = self.ns.header_db().get_best_header();
            // a second, hopeless block: when the importer takes it, it is done with the first
            self.disk(read, write);
            tx.send(block).await.map_err(short)?;
            tx.send(Block::default_hopeless()).await.map_err(short)?;
            while tx.capacity() == 0 {
                tokio::time::sleep(std::time::Duration::from_millis(5)).await;
            }
            self.disk(0, 0);
            let after = self.ns.header_db().get_best_header();
            if after == before {
                return Err("not accepted".into());
            }
            if after.hash().map_err(short)? != hash {
                return Err("the head became another block".into());
            }
            return match self.ns.post_state_root_db().get_post_state_root(&hash).await.map_err(short)? {
                Some(r) => Ok(arr(&r)),
                None => Err("accepted, but no post-state root is stored".into()),
            };
        }
        self.disk(read, write);
        let res = BlockImporter::import_block(self.ns.clone(), block, ancestors, BlockCommitMode::Immediate).await;
        self.disk(0, 0);
        match res {
            Ok(o) => {
                self.ns.post_state_root_db().set_post_state_root(&hash, o.post_state_root.clone()).await.map_err(short)?;
                Ok(arr(&o.post_state_root))
            }
            Err(e) => {
                self.ns.state_manager().rollback_dirty_cache();
                Err(format!("{e}"))
            }
        }
    }
}
trait Hopeless {
    fn default_hopeless() -> Self;
}
impl Hopeless for Block {
    fn default_hopeless() -> Self {
        let mut b = Block::default();
        b.header.data.parent_hash = h32(&[0x5a; 32]);
        b
    }
}

fn mix_for(bias: &str, r: &mut Rng) -> Mix {
    let mut m = Mix {
        tickets: r.chance(1, 2),
        disputes: r.chance(1, 2),
        reports: r.chance(2, 3),
        preimages: r.chance(1, 3),
        accumulate: false,
        skip: *r.pick(&[5, 20, 50]),
        jump: *r.pick(&[0, 3, 10]),
        broken: *r.pick(&[0, 15, 40]),
        errs: 0,
        pile: false,
    };
    match bias {
        "C03" => {
            m.broken = 60;
            m.disputes = r.chance(2, 3);
            m.tickets = r.chance(2, 3);
            m.errs = *r.pick(&[0, 400, 2_000]);
        }
        "C11" => m.broken = 80,
        "C13" => {
            m.reports = false;
            m.preimages = false;
            m.jump = 15;
            m.skip = *r.pick(&[20, 60, 90]);
            m.disputes = r.chance(1, 2);
        }
        "C14" => {
            m.tickets = true;
            m.reports = false;
            m.preimages = false;
            m.disputes = false;
            m.skip = *r.pick(&[0, 20, 50]);
        }
        "C15" => {
            m.disputes = true;
            m.reports = true;
        }
        "C12" => {
            m.reports = r.chance(1, 3);
            m.broken = *r.pick(&[0, 0, 20]);
            m.jump = 10;
            m.skip = *r.pick(&[20, 60]);
        }
        "C16" | "C17" => m.reports = true,
        "C18" => {
            m.accumulate = true;
            m.reports = true;
            m.tickets = r.chance(1, 6);
            m.disputes = r.chance(1, 8);
            m.preimages = r.chance(1, 2);
            m.broken = *r.pick(&[0, 0, 10]);
            m.jump = *r.pick(&[0, 5, 10]);
            m.skip = *r.pick(&[0, 10, 40]);
        }
        "C05" => m.errs = *r.pick(&[60, 400, 2_000, 8_000]),
        _ => {}
    }
    // services that run programs
    if matches!(bias, "C03" | "C05" | "C06" | "C10" | "C11" | "C12" | "C15" | "C16" | "C17") && r.chance(1, 4) {
        m.accumulate = true;
        m.reports = true;
    }
    if matches!(bias, "C16" | "C18") && r.chance(1, 5) {
        m.pile = true;
        m.accumulate = true;
        m.disputes = false;
        m.tickets = r.chance(1, 4);
        m.broken = m.broken.min(10);
        m.skip = *r.pick(&[0, 2]);
        m.jump = 2;
    }
    m
}
fn kinds_for(bias: &str, mix: &Mix) -> Vec<&'static str> {
    let header = [
        "parent", "parent-zero", "parent-zero-unsealed", "prior-root", "xt-hash", "slot-past", "slot-future", "author-index",
        "author-other", "seal-bad", "seal-aux", "seal-signer", "seal-input", "vrf-bad", "vrf-signer", "vrf-input",
        "epoch-mark", "win-mark", "offenders-mark",
    ];
    let mut k: Vec<&'static str> = vec![];
    match bias {
        "C13" => k.extend(["author-other", "seal-input", "epoch-mark", "win-mark", "vrf-input", "seal-signer"]),
        "C14" => k.extend(["ticket", "ticket", "ticket-again", "win-mark"]),
        "C15" => {
            k.extend(["dispute", "dispute", "offenders-mark"]);
            if mix.reports {
                k.push("offender-guarantee");
            }
        }
        "C16" | "C17" => {
            k.extend(["guarantee", "guarantee", "assurance"]);
            if mix.disputes {
                k.push("offender-guarantee");
            }
        }
        "C18" => k.extend(["guarantee", "assurance", "preimage"]),
        _ => {
            k.extend(header);
            if mix.tickets {
                k.extend(["ticket"; 6]);
                k.push("ticket-again");
            }
            if mix.disputes {
                k.extend(["dispute"; 5]);
            }
            k.extend(["garbage-offender"; 3]);
            if mix.reports {
                k.extend(["assurance"; 4]);
                k.extend(["guarantee"; 8]);
                if mix.disputes {
                    k.extend(["offender-guarantee"; 2]);
                }
            }
            if mix.preimages {
                k.extend(["preimage"; 3]);
            }
        }
    }
    k
}

/// Properties a wrong component refutes.
fn props_of(key: &Key31, want: Option<&Vec<u8>>, got: Option<&Vec<u8>>) -> Vec<&'static str> {
    match component(key).as_str() {
        "slot" | "entropy" | "staging-set" | "active-set" | "past-set" => vec!["C13"],
        "safrole" => {
            // pending set, ring root, sealers | accumulator
            let cut = |v: &Vec<u8>| -> usize {
                let base = V * 336 + 144;
                base + 1 + if v.get(base) == Some(&0) { 12 * 33 } else { 12 * 32 }
            };
            match (want, got) {
                (Some(w), Some(g)) => {
                    let (a, b) = (cut(w).min(w.len()), cut(g).min(g.len()));
                    let mut p = vec![];
                    if w[..a] != g[..b] {
                        p.push("C13");
                    }
                    if w[a..] != g[b..] {
                        p.push("C14");
                    }
                    p
                }
                _ => vec!["C13"],
            }
        }
        "disputes" => vec!["C15"],
        "pending-reports" | "ready-queue" | "accumulated" => vec!["C16"],
        "history" | "statistics" | "auth-pool" => vec!["C17"],
        _ => vec!["C18"],
    }
}
fn props_of_reason(e: &str) -> Vec<&'static str> {
    let has = |v: &[&str]| v.iter().any(|x| e.to_lowercase().contains(&x.to_lowercase()));
    if has(&["ticket"]) && !has(&["marker"]) {
        vec!["C14"]
    } else if has(&["culprit", "fault", "verdict", "judgment", "vote", "offender"]) && !has(&["fallback"]) {
        vec!["C15"]
    } else if has(&["guarant", "report", "assur", "anchor", "WorkPackage", "prerequisite", "SegmentsRoo", "credential"]) {
        vec!["C16"]
    } else if has(&["preimage", "accumul", "pvm", "host", "gas", "ServiceId", "duplicate-service", "memory", "account"]) {
        vec!["C18"]
    } else {
        vec!["C13"]
    }
}

pub fn run(spec: &Spec) {
    let mut r = Rng::stream(spec.seed, 11);
    let workers = r.range(1, 4) as usize;
    let rt = runtime(workers, *r.pick(&[1usize, 2, 8]));
    let threads = r.range(1, 2) as usize;
    let _ = rayon::ThreadPoolBuilder::new().num_threads(threads).build_global();
    let bias = spec.bias.clone();
    let mix = mix_for(&bias, &mut r);
    let n_nodes = match bias.as_str() {
        "C03" => 3,
        "C05" => 2,
        "C10" | "C12" => r.range(2, 3) as usize,
        _ => 1 + r.chance(1, 4) as usize,
    };
    let control = matches!(bias.as_str(), "C03" | "C05") || (mix.broken > 0 && n_nodes > 1 && r.chance(1, 2));
    let c = r.usize(CONFIGS);
    let with_ancestors = !matches!(bias.as_str(), "C12" | "C06") && r.chance(1, 4);
    rec::knobs(format!("workers={workers} rayon={threads} nodes={n_nodes} control={control} cfg={c} ancestors={with_ancestors} {mix:?}"));
    rt.block_on(world(spec, r, mix, n_nodes, control, c, with_ancestors));
    std::mem::forget(rt);
}

fn rand_accounts(r: &mut Rng, mix: &Mix) -> (BTreeMap<u32, Account>, Vec<Vec<u8>>) {
    let mut m = BTreeMap::new();
    let mut blobs = vec![];
    for _ in 0..r.range(1, 4) {
        let id = *r.pick(&[0u32, 1, 7, 255, 256, 0x01020304, 0xffff_fff0, 70000]);
        let mut a = Account {
            code: rand_h(r),
            bal: 1_000_000,
            g_acc: *r.pick(&[0u64, 10, 100_000]),
            g_xfer: r.below(100),
            created: r.below(20) as u32,
            ..Default::default()
        };
        for _ in 0..r.below(3) {
            let (k, v) = (r.range(1, 8) as usize, r.usize(40));
            a.storage.insert(r.bytes(k), r.bytes(v));
        }
        if mix.preimages {
            for _ in 0..r.range(1, 6) {
                let n = *r.pick(&[0usize, 1, 5, 40, 300]);
                let b = r.bytes(n);
                let h = blake(&b);
                match r.below(4) {
                    0 => {
                        a.pre.insert(h, b.clone());
                        a.look.insert((h, n as u32), vec![5]);
                    }
                    1 => {
                        a.look.insert((h, n as u32), vec![3, 9]);
                    }
                    _ => {
                        a.look.insert((h, n as u32), vec![]);
                    }
                }
                blobs.push(b);
            }
        }
        m.insert(id, a);
    }
    (m, blobs)
}

fn plain_privs() -> Privs {
    Privs { manager: 0, assign: [1, 2], designate: 3, registrar: 4, always: BTreeMap::new() }
}
async fn world(spec: &Spec, mut r: Rng, mix: Mix, n_nodes: usize, control: bool, c: usize, with_ancestors: bool) {
    let bias = spec.bias.as_str();
    svc::SEED.store(spec.seed, std::sync::atomic::Ordering::Relaxed);
    let (accounts, privs, blobs) = if mix.accumulate {
        script::services(&mut r)
    } else {
        let (accounts, blobs) = rand_accounts(&mut r, &mix);
        (accounts, plain_privs(), blobs)
    };
    let mut st = genesis(&mut r, c, &mix, privs, accounts);
    // the genesis header, which the initial state's history ends with
    let mut gh = BlockHeader::default();
    gh.set_timeslot(st.slot);
    gh.set_author_index(c as u16);
    gh.data.parent_hash = h32(&hash(&[b"genesis parent"]));
    let head = arr(&gh.hash().expect("hash"));
    let mmr = mmr_super_peak(&st.mmr);
    st.hist.push(HistEntry { hash: head, mmr, root: [0; 32], pkgs: vec![] });
    while st.hist.len() > 8 {
        st.hist.remove(0);
    }
    let map = st.to_map();
    let root = trie_root(&map);
    let slot0 = st.slot;
    // the clock starts in the genesis slot
    let wall = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap();
    let want = (ERA + slot0 as u64 * 6) * 1_000_000_000;
    simrt::set_clock_offset(0, want as i64 - wall.as_nanos() as i64);

    let mut nodes: Vec<Node> = vec![];
    let mut all_caches = vec![];
    for i in 0..n_nodes {
        let mut caches = if r.chance(1, 3) { Caches::shipped() } else { Caches::random(&mut r) };
        if mix.errs > 0 && r.chance(2, 3) {
            // most state is read from the disk
            caches.state = r.range(1, 4) as usize;
            caches.state_db = r.usize(3);
        }
        let path = format!("/sim/node{i}");
        if r.chance(1, 2) {
            let mut f = simctl::faults(&path);
            f.latency_chance = *r.pick(&[3000, 3000, 30_000]);
            f.latency_max_ns = *r.pick(&[50_000, 5_000_000]);
            simctl::set_faults(&path, f);
        }
        let importer = !with_ancestors && r.chance(1, 2);
        match Node::start(path, &caches, &map, &gh, &root, importer, control && i == 0).await {
            Ok(n) => {
                nodes.push(n);
                all_caches.push(caches);
            }
            Err(e) => panic!("harness: node start: {e}"),
        }
    }
    if rec::violated() {
        return;
    }
    // what came before the genesis block, as far as the nodes were told
    let mut headers: Vec<(u32, H)> = (1..=r.below(12) as u32).rev().filter_map(|k| slot0.checked_sub(k * 3)).map(|s| (s, hash(&[b"old", &s.to_le_bytes()]))).collect();
    headers.push((slot0, head));
    if with_ancestors {
        for n in &nodes {
            let mut e: Vec<_> = headers.iter().map(|(s, h)| (*s, h32(h))).collect();
            r.shuffle(&mut e);
            n.ns.header_db().batch_insert_to_ancestor_set(e).expect("harness: ancestors");
        }
    }
    let mut ch = Chain {
        cfg: c,
        st,
        head,
        root,
        ancestors: with_ancestors.then(|| headers.iter().copied().collect()),
        headers,
        clock: slot0,
        uniq: spec.seed,
        genesis: gh.clone(),
        imported: 0,
        services: mix.accumulate,
        pile: mix.pile,
        blobs: blobs.into(),
    };
    let blobs = ch.blobs.clone();
    let n_ops = if mix.pile { r.range(10, 18) } else { r.range(4, 16) } as u32;
    rec::ops(n_ops);
    let kinds = kinds_for(bias, &mix);
    let authors = if bias == "C12" || (bias == "C06" && r.chance(1, 3)) { Some(author::Authors::new(nodes.len(), ch.st.active).await) } else { None };
    let (mut accepted, mut rejected) = (0u32, 0u32);
    for i in 0..n_ops {
        // every operation draws its own randomness, so that dropping one leaves the others alone
        let mut r = Rng::stream(spec.seed, 1000 + i as u64);
        if spec.drop_ops.contains(&i) {
            continue;
        }
        let step = if r.below(100) < mix.jump {
            r.range(6, 30) as u32
        } else if r.below(100) < mix.skip {
            r.range(2, 7) as u32
        } else {
            1
        };
        let mut slot = ch.st.slot + step;
        if let Some(au) = &authors {
            if r.chance(3, 4) {
                let made = match author::author_op(&mut r, &mut ch, &mut nodes, &all_caches, au, slot, i).await {
                    None => continue,
                    Some(None) => return,
                    Some(Some(m)) => m,
                };
                for (hash, bytes, map, root) in &made.bytes {
                    for (k, n) in nodes.iter().enumerate() {
                        if k == made.by {
                            continue;
                        }
                        let got = n.import(bytes, with_ancestors).await;
                        if check_panics("C10") {
                            return;
                        }
                        if got.as_ref() != Ok(root) {
                            rec::violate(&["C12"], "authored-not-accepted", format!("node {k} made {got:?} of a block authored on node {}", made.by));
                            return;
                        }
                    }
                    ch.head = *hash;
                    ch.root = *root;
                    let _ = map;
                }
                ch.imported += 1;
                ch.headers.push((made.blk.slot, ch.head));
                if let Some(a) = ch.ancestors.as_mut() {
                    a.insert((made.blk.slot, ch.head));
                }
                ch.st = made.next;
                accepted += 1;
                simrt::count("chain.authored");
                rec::state(u64::from_le_bytes(ch.root[..8].try_into().unwrap()));
                continue;
            }
        }
        ch.clock = ch.clock.max(slot + r.below(2) as u32);
        let Some(b) = build_block(&mut r, &mut ch, &mut slot, &mix, &blobs) else { continue };
        ch.clock = ch.clock.max(slot);
        set_clock(ch.clock);
        if r.below(100) < mix.broken {
            for _ in 0..r.range(1, 3) {
                let Some((m, kind)) = break_block(&mut r, &mut ch, &b, &kinds) else { continue };
                let v = apply(&ch.st, &ch.head, &ch.root, &m, &ch, &mut *ch.rules());
                let expect = match &v {
                    Ok(_) | Err(svc::TOO_LONG) => continue, // not broken after all
                    Err(e) => *e,
                };
                rejected += 1;
                rec::hist(format!("op{i} broken {kind}: slot {} expects {expect}", m.slot));
                simrt::count("chain.broken_blocks");
                simrt::count(expect);
                if kind == "offender-guarantee" {
                    simrt::count("chain.offender_guarantees");
                }
                let bytes = m.bytes();
                for (k, n) in nodes.iter().enumerate() {
                    if n.control {
                        continue;
                    }
                    let Some(got) = n.import_shaky(&mut r, &ch, &bytes, with_ancestors, mix.errs).await else { return };
                    if let Ok(root) = got {
                        let mut p = vec!["C11"];
                        p.extend(props_of_reason(expect));
                        if kind == "offender-guarantee" {
                            p.push("C15");
                        }
                        rec::violate(&p, &format!("accepted-{expect}"), format!("node {k} accepted a block broken by {kind} ({expect}), root {}", hex8(&root)));
                        return;
                    }
                }
                if check_panics("C11") {
                    return;
                }
            }
        }
        let v = apply(&ch.st, &ch.head, &ch.root, &b, &ch, &mut *ch.rules());
        if matches!(v, Err(svc::TOO_LONG)) {
            simrt::count("chain.too_long");
            continue;
        }
        let x = &b.ext;
        rec::hist(format!(
            "op{i} block slot {} ({}+{}) author {} tickets {} verdicts {} guarantees {} assurances {} preimages {} -> {}",
            b.slot, b.slot / E, b.slot % E, b.author, x.tickets.len(), x.verdicts.len(), x.guarantees.len(), x.assurances.len(), x.preimages.len(),
            v.as_ref().map(|_| "ok".to_string()).unwrap_or_else(|e| e.to_string())
        ));
        let bytes = b.bytes();
        let next = match v {
            Err(e) => {
                rejected += 1;
                simrt::count("chain.invalid_blocks");
                simrt::count(e);
                for (k, n) in nodes.iter().enumerate() {
                    if n.control {
                        continue;
                    }
                    let Some(got) = n.import_shaky(&mut r, &ch, &bytes, with_ancestors, mix.errs).await else { return };
                    if got.is_ok() {
                        let mut p = vec!["C11"];
                        p.extend(props_of_reason(e));
                        rec::violate(&p, &format!("accepted-{e}"), format!("node {k} accepted an invalid block ({e})"));
                        return;
                    }
                }
                if check_panics("C11") {
                    return;
                }
                continue;
            }
            Ok(s) => s,
        };
        let want = next.to_map();
        let want_root = trie_root(&want);
        let hash = b.hash();
        let mut res = vec![];
        for (k, n) in nodes.iter_mut().enumerate() {
            if bias == "C06" && r.chance(1, 2) {
                if let Err(e) = n.import_dying(&mut r, &ch, &all_caches[k], &bytes, &next).await {
                    rec::violate(&["C06"], "crash-during-import", format!("node {k}, slot {}: {e}", b.slot));
                    return;
                }
                res.push(Ok(want_root));
                continue;
            }
            let Some(got) = n.import_shaky(&mut r, &ch, &bytes, with_ancestors, mix.errs).await else { return };
            res.push(got);
        }
        if check_panics("C10") {
            return;
        }
        if !judge(&nodes, &res, &b, &next, &want, &want_root, rejected, mix.accumulate).await {
            return;
        }
        accepted += 1;
        simrt::count("chain.blocks");
        if b.slot / E > ch.st.slot / E {
            simrt::count("chain.epoch_changes");
        }
        ch.st = next;
        ch.head = hash;
        ch.root = want_root;
        ch.headers.push((b.slot, hash));
        ch.imported += 1;
        if let Some(a) = ch.ancestors.as_mut() {
            a.insert((b.slot, hash));
        }
        rec::state(u64::from_le_bytes(want_root[..8].try_into().unwrap()));
    }
    if accepted >= 2 {
        rec::nontrivial();
    }
}
fn set_clock(slot: u32) {
    let wall = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_nanos() as i64;
    let want = (ERA + slot as u64 * 6) as i64 * 1_000_000_000 + 1_000_000;
    if want > wall {
        // let the time pass
        simrt::sleep((want - wall) as u64);
    }
}
fn check_panics(p: &str) -> bool {
    let v = rec::take_panics();
    if let Some(m) = v.first() {
        rec::violate(&[p, "C10"], "panic", format!("importing a block panicked: {m}"));
        return true;
    }
    false
}

fn build_block(r: &mut Rng, ch: &mut Chain, slot: &mut u32, mix: &Mix, blobs: &[Vec<u8>]) -> Option<Blk> {
    for _ in 0..6 {
        let mut x = Ext::default();
        if mix.disputes && r.chance(1, 3) {
            gen_disputes(r, ch, &mut x);
        }
        if mix.reports {
            let keen = *r.pick(&[40, 80, 95]);
            x.assurances = gen_assurances(r, ch, &x, keen);
            x.guarantees = gen_guarantees(r, ch, *slot, &x, keen);
        }
        if mix.preimages && r.chance(1, 2) {
            x.preimages = gen_preimages(r, ch, blobs);
        }
        if mix.tickets && *slot % E < Y && r.chance(3, 4) {
            x.tickets = gen_tickets(r, ch, *slot, &x);
        }
        if let Some(b) = finish(&ch.st, &ch.head, &ch.root, *slot, x, ch) {
            return Some(b);
        }
        // nobody we know can author this slot
        *slot += 1;
    }
    None
}

/// Compares what the nodes made of a valid block with what the model says.
async fn judge(nodes: &[Node], res: &[Result<H, String>], b: &Blk, next: &St, want: &Map, want_root: &H, rejected: u32, services: bool) -> bool {
    let same = |a: &Result<H, String>, b: &Result<H, String>| match (a, b) {
        (Ok(a), Ok(b)) => a == b,
        (Err(_), Err(_)) => true,
        _ => false,
    };
    if res.iter().all(|r| r.as_ref().is_ok_and(|r| r == want_root)) {
        return true;
    }
    let mut props: BTreeSet<&'static str> = BTreeSet::new();
    let full: Vec<usize> = (0..nodes.len()).filter(|i| !nodes[*i].control).collect();
    if full.windows(2).any(|w| !same(&res[w[0]], &res[w[1]])) {
        props.insert("C10");
    }
    if let Some(ctl) = (0..nodes.len()).find(|i| nodes[*i].control) {
        if res[ctl].as_ref().is_ok_and(|r| r == want_root) {
            if rejected > 0 {
                props.insert("C03");
            }
            if full.iter().any(|i| nodes[*i].disk_failures.get() > 0 && !same(&res[*i], &res[ctl])) {
                props.extend(["C03", "C05"]);
            }
        }
    }
    let mut msg = vec![];
    let mut class = String::new();
    for (i, x) in res.iter().enumerate() {
        match x {
            Ok(r) if r == want_root => {}
            Ok(r) => {
                let mut bad = vec![];
                let sm = nodes[i].ns.state_manager();
                for (k, v) in want {
                    let got = sm.get_raw_state_entry_from_db(&StateKey::new(*k)).await.ok().flatten();
                    if got.as_ref() != Some(v) {
                        let ps = props_of(k, Some(v), got.as_ref());
                        // the same entry can break what is said about offenders, judged reports and winning tickets
                        let c = component(k);
                        if c == "safrole" && ps.contains(&"C13") && matches!(next.sealers, Sealers::Tickets(_)) {
                            props.insert("C14");
                        }
                        if matches!(c.as_str(), "safrole" | "staging-set" | "active-set" | "past-set") && ps.contains(&"C13") && !next.punish.is_empty()
                            || c == "pending-reports" && !b.ext.verdicts.is_empty()
                        {
                            props.insert("C15");
                        }
                        // what services do is also seen in these
                        if services && matches!(c.as_str(), "statistics" | "staging-set" | "auth-queue") {
                            props.insert("C18");
                        }
                        props.extend(ps);
                        bad.push(component(k));
                        if std::env::var("FV_DIFF").is_ok() {
                            let g = got.clone().unwrap_or_default();
                            let at = v.iter().zip(&g).position(|(a, b)| a != b).unwrap_or(v.len().min(g.len()));
                            rec::hist(format!("DIFF {} lens {} {} at {at}: want {:02x?} got {:02x?}", component(k), v.len(), g.len(), &v[at.saturating_sub(0)..(at + 40).min(v.len())], &g[at.min(g.len())..(at + 40).min(g.len())]));
                        }
                    }
                }
                if bad.is_empty() {
                    // every expected entry is there: something is there that should not be, or the root is wrong
                    props.extend(["C01", "C18"]);
                }
                if class.is_empty() {
                    class = format!("wrong-state-{}", bad.first().cloned().unwrap_or("root".into()));
                }
                msg.push(format!("node {i} reached root {} instead of {} (differs in: {})", hex8(r), hex8(want_root), bad.join(", ")));
            }
            Err(e) => {
                if e.contains("no post-state root") {
                    props.insert("C31");
                }
                props.insert("C11");
                props.extend(props_of_reason(e));
                // no reason that tells one part of the block from another: any of what it did
                if e.contains("StateManagerError") || e.contains("not accepted") {
                    let x = &b.ext;
                    let did = [(!x.tickets.is_empty(), "C14"), (!x.verdicts.is_empty(), "C15"), (!x.guarantees.is_empty() || !x.assurances.is_empty(), "C16"), (services || !x.preimages.is_empty(), "C18")];
                    props.extend(did.iter().filter(|d| d.0).map(|d| d.1));
                }
                if class.is_empty() {
                    class = format!("rejected-valid-{}", e.chars().take_while(|c| *c != '(' && *c != '.').take(60).collect::<String>());
                }
                msg.push(format!("node {i} rejected a valid block: {}", e.chars().take(200).collect::<String>()));
            }
        }
    }
    let p: Vec<&str> = props.into_iter().collect();
    rec::violate(&p, &class, msg.join("; "));
    false
}
pub fn warm_up() {
    build::warm_up();
}
