//! The state store: StateManager over the simulated database, against a plain map and an independent trie.
use super::common::*;
use crate::rec;
use crate::rec::Spec;
use fr_common::{Octets, StateKey, StorageKey};
use fr_state::cache::StateMut;
use fr_state::error::StateManagerError;
use fr_state::manager::{StateCommitArtifact, StateManager};
use fr_state::state_utils::get_account_storage_state_key;
use fr_state::types::AccountStorageEntry;
use fr_storage::node_storage::NodeStorage;
use rocksdb::simctl;
use simrt::Rng;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};

const PATH: &str = "/sim/state";

/// One key of the universe. Typed keys go through the account-storage API, raw ones through the raw API.
#[derive(Clone)]
struct K {
    key: StateKey,
    arr: Key31,
    typed: Option<(u32, StorageKey)>,
}
fn universe(r: &mut Rng, raw_only: bool, typed_only: bool) -> Vec<K> {
    let n = r.range(2, 28) as usize;
    let style = r.below(5);
    let mut out: Vec<K> = vec![];
    let mut seen = BTreeSet::new();
    let mut base = [0u8; 31];
    r.fill(&mut base);
    let svc = [0u32, 1, 7, 0xffff_ffff, r.next() as u32];
    while out.len() < n {
        let typed = typed_only || (!raw_only && r.chance(1, 2));
        let k = if typed {
            let s = *r.pick(&svc);
            let len = *r.pick(&[0usize, 1, 4, 32, 60]);
            let mut b = r.bytes(len.max(1));
            b.truncate(len.max(1));
            let sk = StorageKey::from_vec(b);
            let key = get_account_storage_state_key(s, &sk).expect("key");
            let mut arr = [0u8; 31];
            arr.copy_from_slice(key.as_ref());
            K { key, arr, typed: Some((s, sk)) }
        } else {
            let mut a = [0u8; 31];
            match style {
                0 => r.fill(&mut a),
                1 => {
                    // share a long prefix, differ in the last bits
                    a = base;
                    a[30] = r.below(8) as u8;
                    a[29] = base[29] ^ (r.below(2) as u8);
                }
                2 => {
                    // share a prefix of random length
                    a = base;
                    let at = r.usize(248);
                    a[at / 8] ^= 0x80 >> (at % 8);
                    if r.chance(1, 2) {
                        let at = r.usize(248);
                        a[at / 8] ^= 0x80 >> (at % 8);
                    }
                }
                3 => {
                    a[0] = r.below(256) as u8; // like the simple state keys: C(i)
                }
                _ => {
                    r.fill(&mut a[..2]);
                    a[0] &= 3;
                }
            }
            K { key: StateKey::new(a), arr: a, typed: None }
        };
        if seen.insert(k.arr) {
            out.push(k);
        } else if r.chance(1, 30) {
            break;
        }
    }
    out
}
fn value(r: &mut Rng, ctr: &mut u64) -> Vec<u8> {
    *ctr += 1;
    let len = match r.below(10) {
        0 => 0,
        1 => 1,
        2 => 31,
        3 | 4 => 32,
        5 | 6 => 33,
        7 => r.range(34, 80) as usize,
        8 => r.range(2, 30) as usize,
        _ => r.range(100, 400) as usize,
    };
    if r.chance(1, 12) {
        return vec![0xee; len]; // the same contents under several keys
    }
    let mut v = r.bytes(len);
    for (i, b) in ctr.to_be_bytes().iter().rev().enumerate() {
        if i < v.len() {
            v[i] = *b;
        }
    }
    v
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Ending {
    Commit,
    Rollback,
    Stage,
    StageApply,
    /// Apply one of the artifacts staged on the current state.
    Finalise,
}

struct W {
    sm: Arc<StateManager>,
    st: NodeStorage,
    /// A reopened store computes its root again at the first commit (shipped nodes replay genesis).
    root_known: bool,
}
fn open(c: &Caches, path: &str) -> Result<W, String> {
    let st = NodeStorage::new(c.config(path)).map_err(|e| format!("{e:?}"))?;
    Ok(W { sm: st.state_manager(), st, root_known: true })
}

async fn read(sm: &StateManager, k: &K) -> Result<Option<Vec<u8>>, StateManagerError> {
    match &k.typed {
        Some((s, sk)) => Ok(sm.get_account_storage_entry(*s, sk).await?.map(|e| e.value.into_vec())),
        None => sm.get_raw_state_entry(&k.key).await,
    }
}
/// The committed value, ignoring uncommitted changes.
async fn read_clean(sm: &StateManager, k: &K, via_cache: bool) -> Result<Option<Vec<u8>>, StateManagerError> {
    match &k.typed {
        Some((s, sk)) if via_cache => Ok(sm.get_account_storage_entry_clean(*s, sk).await?.map(|e| e.value.into_vec())),
        _ => sm.get_raw_state_entry_from_db(&k.key).await,
    }
}
async fn edit(sm: &StateManager, k: &K, old: bool, new: Option<Vec<u8>>) -> Result<(), StateManagerError> {
    match (&k.typed, old, new) {
        (Some((s, sk)), false, Some(v)) => sm.add_account_storage_entry(*s, sk, AccountStorageEntry::new(Octets::from_vec(v))).await,
        (Some((s, sk)), true, Some(v)) => {
            sm.with_mut_account_storage_entry(StateMut::Update, *s, sk, move |e| -> Result<(), StateManagerError> {
                e.value = Octets::from_vec(v);
                Ok(())
            })
            .await
        }
        (Some((s, sk)), true, None) => sm.with_mut_account_storage_entry(StateMut::Remove, *s, sk, |_| -> Result<(), StateManagerError> { Ok(()) }).await,
        (None, false, Some(v)) => sm.add_raw_state_entry(&k.key, v).await,
        (None, true, Some(v)) => sm.update_raw_state_entry(&k.key, v).await,
        (None, true, None) => sm.remove_raw_state_entry(&k.key).await,
        (_, false, None) => Ok(()),
    }
}

/// Write log of one key during one block: (start, end, value); reads must be explainable by it.
type Log = Arc<Mutex<Vec<Vec<(u64, u64, Option<Vec<u8>>)>>>>;

fn explain(log: &[(u64, u64, Option<Vec<u8>>)], s: u64, e: u64, got: &Option<Vec<u8>>) -> bool {
    // candidates: writes that started before the read ended and were not overwritten by a write finished before it began
    let mut last_done = 0;
    for (i, w) in log.iter().enumerate() {
        if w.1 <= s {
            last_done = i;
        }
    }
    log.iter().enumerate().any(|(i, w)| i >= last_done && w.0 <= e && &w.2 == got)
}
fn show(v: &Option<Vec<u8>>) -> String {
    match v {
        None => "absent".into(),
        Some(v) => format!("{}B:{}", v.len(), hex8(v)),
    }
}

struct Staged {
    art: StateCommitArtifact,
    root: [u8; 32],
    map: Map,
    edits: Vec<(usize, Option<Vec<u8>>)>,
}

pub fn run(spec: &Spec) {
    let mut r = Rng::stream(spec.seed, 11);
    let caches = if r.chance(1, 5) { Caches::shipped() } else { Caches::random(&mut r) };
    let workers = r.range(1, 4) as usize;
    let blocking = r.range(1, 6) as usize;
    rec::knobs(format!("{caches:?} workers={workers} blocking={blocking}"));
    let rt = runtime(workers, blocking);
    let spec = spec.clone();
    rt.block_on(async move { world(&spec, r, caches).await });
    // the runtime is not shut down: the process ends here
    std::mem::forget(rt);
}

async fn world(spec: &Spec, mut r: Rng, caches: Caches) {
    let b = spec.bias.as_str();
    let faulty = match b {
        "C05" => true,
        "C01" | "C02" | "C03" | "C04" | "C06" => false,
        _ => r.chance(1, 4),
    };
    let crashing = b == "C06";
    let typed_only = b == "C02" && r.chance(1, 2);
    let raw_only = b == "C01" && r.chance(1, 2);
    let uni = Arc::new(universe(&mut r, raw_only, typed_only));
    let mut w = match open(&caches, PATH) {
        Ok(w) => w,
        Err(e) => panic!("harness: open: {e}"),
    };
    let mut path = PATH.to_string();
    let lat = *r.pick(&[0u32, 0, 3000, 20000]);
    let base_faults = rocksdb::FaultCfg { latency_chance: lat, latency_max_ns: *r.pick(&[20_000, 2_000_000, 80_000_000]), ..Default::default() };
    simctl::set_faults(&path, base_faults.clone());
    let readers = if b == "C01" { 0 } else { r.below(4) };
    let writers = 1 + r.below(if b == "C01" { 2 } else { 4 });
    let blocks = r.range(2, if b == "C06" { 5 } else { 9 }) as u32;
    rec::ops(blocks * 40);
    // an anchor keeps the map non-empty (the trie of an empty map never occurs after genesis)
    let mut committed: Map = Map::new();
    let mut ctr = 0u64;
    let mut staged: Vec<Staged> = vec![];
    let mut commits = 0;
    let mut hdr = Headers::default();
    let anchor = K { key: StateKey::new([0x5a; 31]), arr: [0x5a; 31], typed: None };
    let _ = w.sm.add_raw_state_entry(&anchor.key, vec![1; 40]).await;
    if let Err(e) = w.sm.commit_dirty_cache().await {
        rec::violate(&["C01", "C02"], "genesis-commit-failed", short(e));
        return;
    }
    committed.insert(anchor.arr, vec![1; 40]);
    check_root(&w, &committed, "genesis").await;

    for blk in 0..blocks {
        let mut br = Rng::stream(spec.seed, 5000 + blk as u64);
        let alive = |i: u32| !spec.drop_ops.contains(&(blk * 40 + i));
        // fault window
        let mut faulting = false;
        if faulty && br.chance(3, 5) && alive(0) {
            faulting = true;
            let mut f = base_faults.clone();
            let p = *br.pick(&[300u32, 1500, 6000, 20000]);
            match br.below(4) {
                0 => f.read_err = p,
                1 => f.write_err = p * 2,
                2 => f.iter_err = p * 2,
                _ => {
                    f.read_err = p;
                    f.write_err = p;
                    f.iter_err = p;
                }
            }
            simctl::set_faults(&path, f);
        }
        let mut crash_armed = false;
        let n_edits = br.range(0, 20).min(br.range(1, 20)) as u32;
        let mut overlay = committed.clone();
        let mut plan: Vec<Vec<(usize, bool, Option<Vec<u8>>)>> = vec![vec![]; writers as usize];
        let mut net: BTreeMap<usize, Option<Vec<u8>>> = BTreeMap::new();
        for i in 0..n_edits {
            let mut er = Rng::stream(spec.seed, 900_000 + blk as u64 * 100 + i as u64);
            let k = er.usize(uni.len());
            if !alive(1 + i) {
                continue;
            }
            let kk = &uni[k];
            if kk.typed.is_none() && net.contains_key(&k) {
                continue; // the raw API takes one edit per key and block
            }
            let old = overlay.contains_key(&kk.arr);
            let new = if old && er.chance(2, 5) { None } else { Some(value(&mut er, &mut ctr)) };
            if !old && new.is_none() {
                continue;
            }
            match &new {
                Some(v) => overlay.insert(kk.arr, v.clone()),
                None => overlay.remove(&kk.arr),
            };
            net.insert(k, new.clone());
            plan[k % writers as usize].push((k, old, new));
        }
        let ending = match br.below(10) {
            0..=4 => Ending::Commit,
            5 => Ending::Rollback,
            6 => Ending::Stage,
            7 => Ending::StageApply,
            8 => {
                if staged.is_empty() {
                    Ending::Stage
                } else {
                    Ending::Finalise
                }
            }
            _ => match b {
                "C03" => Ending::Rollback,
                "C04" => Ending::Stage,
                _ => Ending::Commit,
            },
        };
        let ending = if b == "C04" && ending == Ending::Commit && br.chance(1, 2) { Ending::StageApply } else { ending };
        if crashing && br.chance(2, 3) && alive(39) {
            crash_armed = true;
            simctl::arm_crash(&path, br.range(1, 5), br.chance(1, 2));
        }
        rec::hist(format!("block {blk}: {} edits, {ending:?}{}{}", net.len(), if faulting { ", faults" } else { "" }, if crash_armed { ", crash armed" } else { "" }));
        if ending == Ending::Finalise {
            let s = staged.swap_remove(br.usize(staged.len()));
            finalise(&mut w, &uni, s, &mut committed, &mut staged, &mut commits, faulting, &path, &base_faults).await;
            if crash_armed {
                simctl::disarm_crash(&path);
                if simctl::crashed(&path) {
                    // finalise() cannot tell; treated below like any other crash, with both outcomes acceptable
                    return;
                }
            }
            continue;
        }
        // run the block: writers on their own keys, readers on all
        let mut attempt = 0;
        loop {
            attempt += 1;
            let log: Log = Arc::new(Mutex::new(uni.iter().map(|k| vec![(0, 0, committed.get(&k.arr).cloned())]).collect()));
            let failed = Arc::new(Mutex::new(None::<String>));
            let mut js = vec![];
            for (wi, p) in plan.iter().enumerate() {
                let (p, sm, uni, log, failed) = (p.clone(), w.sm.clone(), uni.clone(), log.clone(), failed.clone());
                let wr = Rng::stream(spec.seed, 70_000 + blk as u64 * 100 + wi as u64);
                js.push(tokio::spawn(writer(sm, uni, p, log, failed, wr, faulting || crash_armed)));
            }
            for ri in 0..readers {
                let (sm, uni, log, base) = (w.sm.clone(), uni.clone(), log.clone(), committed.clone());
                let rr = Rng::stream(spec.seed, 80_000 + blk as u64 * 100 + ri);
                let f = faulting || crash_armed;
                js.push(tokio::spawn(reader(sm, uni, log, base, rr, f)));
            }
            for j in js {
                if let Err(e) = j.await {
                    rec::violate(if faulting { &["C05"] } else { &["C02"] }, "panic", format!("a reading or writing task panicked: {} {e}", rec::last_panic()));
                    return;
                }
            }
            if let Some(e) = failed.lock().unwrap().clone() {
                if !faulting && !simctl::crashed(&path) {
                    rec::violate(&["C02"], "edit-refused", e);
                    return;
                }
            }
            if simctl::crashed(&path) {
                break;
            }
            let edit_failed = failed.lock().unwrap().is_some();
            if edit_failed {
                w.sm.rollback_dirty_cache();
            } else {
                // everything readable before the block ends
                for (i, k) in uni.iter().enumerate() {
                    let want = overlay.get(&k.arr).cloned();
                    match read(&w.sm, k).await {
                        Ok(got) => {
                            if got != want {
                                rec::violate(if faulting { &["C05"] } else { &["C02"] }, "read-in-block", format!("key {i} {}: read {} want {}", hex8(&k.arr), show(&got), show(&want)));
                            }
                        }
                        Err(e) => {
                            if !faulting && !simctl::crashed(&path) {
                                rec::violate(&["C02"], "read-error", short(e));
                            }
                        }
                    }
                }
                if simctl::crashed(&path) {
                    break;
                }
            }
            if rec::violated() {
                return;
            }
            if edit_failed {
                if attempt == 2 {
                    // the retry below runs without faults
                    rec::violate(&["C05"], "retry-failed", failed.lock().unwrap().clone().unwrap());
                    return;
                }
                simrt::count("probe.edit_failed_by_fault");
                faulting = false;
                simctl::set_faults(&path, base_faults.clone());
                check_all(&w, &uni, &committed, "after discarding a failed block", &["C05", "C03"]).await;
                continue;
            }
            // the end of the block
            let res: Result<(), String> = match ending {
                Ending::Commit => w.sm.commit_dirty_cache().await.map_err(short),
                Ending::Rollback => {
                    w.sm.rollback_dirty_cache();
                    Ok(())
                }
                Ending::Stage | Ending::StageApply => match w.sm.prepare_dirty_cache_commit().await {
                    Ok(Some(art)) => {
                        let root: [u8; 32] = art.state_root().as_ref().try_into().unwrap();
                        let want = trie_root(&overlay);
                        if root != want {
                            rec::violate(if faulting { &["C05"] } else { &["C04", "C01"] }, "staged-root", format!("staged root {} want {}", hex8(&root), hex8(&want)));
                        }
                        let s = Staged { art, root, map: overlay.clone(), edits: net.iter().map(|(k, v)| (*k, v.clone())).collect() };
                        if ending == Ending::Stage {
                            staged.push(s);
                            Ok(())
                        } else {
                            finalise(&mut w, &uni, s, &mut committed, &mut staged, &mut commits, faulting, &path, &base_faults).await;
                            if simctl::crashed(&path) {
                                break;
                            }
                            Ok(())
                        }
                    }
                    Ok(None) => {
                        if overlay != committed {
                            rec::violate(&["C04"], "staged-nothing", "preparing a non-empty change set gave nothing".to_string());
                        }
                        Ok(())
                    }
                    Err(e) => {
                        w.sm.rollback_dirty_cache();
                        Err(short(e))
                    }
                },
                Ending::Finalise => unreachable!(),
            };
            if simctl::crashed(&path) {
                break;
            }
            match res {
                Err(e) => {
                    if !faulting {
                        rec::violate(if attempt > 1 { &["C05"] } else { &["C01", "C02"] }, "commit-failed", e);
                        return;
                    }
                    simrt::count("probe.commit_failed_by_fault");
                    rec::hist(format!("commit failed: {e}"));
                    w.sm.rollback_dirty_cache();
                    if br.chance(1, 3) {
                        // read while the failure persists: an error is fine, a wrong answer is not
                        check_all_faulty(&w, &uni, &committed).await;
                    }
                    simctl::set_faults(&path, base_faults.clone());
                    check_all(&w, &uni, &committed, "after a failed commit was discarded", &["C05"]).await;
                    if rec::violated() || attempt == 3 {
                        return;
                    }
                    faulting = false;
                    continue;
                }
                Ok(()) => {
                    if ending == Ending::Commit && overlay != committed {
                        w.root_known = true;
                        commits += 1;
                        staged.clear(); // prepared on a state that is no more
                    }
                    if ending == Ending::Commit {
                        committed = overlay.clone();
                    }
                    if faulting {
                        simctl::set_faults(&path, base_faults.clone());
                    }
                    let props: &[&str] = if faulting || attempt > 1 {
                        &["C05"]
                    } else {
                        match ending {
                            Ending::Rollback => &["C03"],
                            Ending::Stage | Ending::StageApply => &["C04"],
                            _ => &["C02", "C01"],
                        }
                    };
                    check_all(&w, &uni, &committed, &format!("after {ending:?}"), props).await;
                    break;
                }
            }
        }
        if rec::violated() {
            return;
        }
        hdr.step(&w, &mut br, &path).await;
        if crash_armed {
            if simctl::crashed(&path) {
                simrt::count("fault.crash");
                let after = overlay.clone();
                let img = simctl::image_after_crash(&path);
                path = format!("{PATH}/{blk}");
                simctl::install(&path, img);
                simctl::set_faults(&path, base_faults.clone());
                w = match open(&caches, &path) {
                    Ok(w) => w,
                    Err(e) => {
                        rec::violate(&["C06"], "reopen-failed", e);
                        return;
                    }
                };
                staged.clear();
                w.root_known = false;
                committed = match recover(&w, &uni, &anchor, &committed, &after, ending).await {
                    Some(m) => m,
                    None => return,
                };
                hdr.verify(&w).await;
                rec::hist("crash and reopen");
            } else {
                simctl::disarm_crash(&path);
            }
        }
        rec::state(map_digest(&committed));
        if rec::violated() {
            return;
        }
    }
    if commits >= 2 {
        rec::nontrivial();
    }
}

async fn writer(sm: Arc<StateManager>, uni: Arc<Vec<K>>, plan: Vec<(usize, bool, Option<Vec<u8>>)>, log: Log, failed: Arc<Mutex<Option<String>>>, mut r: Rng, lenient: bool) {
    for (k, old, new) in plan {
        let s = simrt::seq();
        let at = {
            let mut l = log.lock().unwrap();
            l[k].push((s, u64::MAX, new.clone()));
            l[k].len() - 1
        };
        let res = edit(&sm, &uni[k], old, new.clone()).await;
        rec::hist(format!("edit key {k} old={old} -> {} : {}", show(&new), if res.is_ok() { "ok" } else { "error" }));
        if let Err(e) = res {
            *failed.lock().unwrap() = Some(format!("edit of key {k} (present={old}, to {}): {}", show(&new), short(e)));
            return;
        }
        log.lock().unwrap()[k][at].1 = simrt::seq();
        if r.chance(1, 3) {
            // the writer reads its own write
            match read(&sm, &uni[k]).await {
                Ok(got) if got != new => rec::violate(if lenient { &["C05"] } else { &["C02"] }, "lost-write", format!("key {k}: read {} just after writing {}", show(&got), show(&new))),
                Ok(_) => {}
                Err(e) if !lenient => rec::violate(&["C02"], "read-error", short(e)),
                Err(_) => {}
            }
        }
        if r.chance(1, 4) {
            tokio::task::yield_now().await;
        }
    }
}
async fn reader(sm: Arc<StateManager>, uni: Arc<Vec<K>>, log: Log, base: Map, mut r: Rng, lenient: bool) {
    for _ in 0..r.range(1, 12) {
        let k = r.usize(uni.len());
        let props: &[&str] = if lenient { &["C05"] } else { &["C02"] };
        if r.chance(2, 3) {
            let s = simrt::seq();
            let got = read(&sm, &uni[k]).await;
            let e = simrt::seq();
            match got {
                Ok(got) => {
                    let l = log.lock().unwrap();
                    if !explain(&l[k], s, e, &got) {
                        rec::violate(props, "read-not-explainable", format!("key {k}: read {} but the writes so far are {:?}", show(&got), l[k].iter().map(|x| show(&x.2)).collect::<Vec<_>>()));
                    }
                }
                Err(e) if !lenient => rec::violate(&["C02"], "read-error", short(e)),
                Err(_) => {}
            }
        } else {
            let via = r.chance(1, 2);
            match read_clean(&sm, &uni[k], via).await {
                Ok(got) => {
                    let want = base.get(&uni[k].arr).cloned();
                    if got != want {
                        rec::violate(props, "clean-read", format!("key {k}: committed read {} want {}", show(&got), show(&want)));
                    }
                }
                Err(e) if !lenient => rec::violate(&["C02"], "read-error", short(e)),
                Err(_) => {}
            }
        }
        if r.chance(1, 5) {
            simrt::sleep(r.below(2_000_000));
        }
    }
}

async fn check_root(w: &W, m: &Map, when: &str) {
    match w.sm.merkle_root().await {
        Ok(root) if w.root_known => {
            let want = trie_root(m);
            if root.as_ref() != want {
                rec::violate(&["C01"], "root", format!("{when}: root {} want {} ({} keys)", hex8(root.as_ref()), hex8(&want), m.len()));
            }
        }
        Ok(_) => {}
        Err(e) => rec::violate(&["C01"], "root-error", short(e)),
    }
}
/// Every key reads as in the map, through the cache and through the trie, and the root is the map's.
async fn check_all(w: &W, uni: &[K], m: &Map, when: &str, props: &[&str]) {
    match w.sm.merkle_root().await {
        Ok(root) if w.root_known => {
            let want = trie_root(m);
            if root.as_ref() != want {
                let mut p = props.to_vec();
                if !p.contains(&"C01") && !p.contains(&"C05") {
                    p.push("C01");
                }
                rec::violate(&p, "root", format!("{when}: root {} want {} ({} keys)", hex8(root.as_ref()), hex8(&want), m.len()));
            }
        }
        Ok(_) => {}
        Err(e) => rec::violate(props, "root-error", format!("{when}: {}", short(e))),
    }
    for (i, k) in uni.iter().enumerate() {
        let want = m.get(&k.arr).cloned();
        for how in 0..3 {
            let got = match how {
                0 => w.sm.get_raw_state_entry_from_db(&k.key).await,
                1 => read(&w.sm, k).await,
                _ => read_clean(&w.sm, k, true).await,
            };
            let how = ["trie", "cache", "clean"][how];
            match got {
                Ok(got) if got == want => {}
                Ok(got) => rec::violate(props, &format!("read-{how}"), format!("{when}: key {i} {} via {how}: {} want {}", hex8(&k.arr), show(&got), show(&want))),
                Err(e) => rec::violate(props, &format!("read-{how}-error"), format!("{when}: key {i} {} via {how}: {}", hex8(&k.arr), short(e))),
            }
        }
        if rec::violated() {
            return;
        }
    }
}
async fn check_all_faulty(w: &W, uni: &[K], m: &Map) {
    for (i, k) in uni.iter().enumerate() {
        let want = m.get(&k.arr).cloned();
        for got in [w.sm.get_raw_state_entry_from_db(&k.key).await, read(&w.sm, k).await] {
            if let Ok(got) = got {
                if got != want {
                    rec::violate(&["C05"], "wrong-read-under-faults", format!("key {i} {}: {} want {}", hex8(&k.arr), show(&got), show(&want)));
                    return;
                }
            }
        }
    }
}

#[allow(clippy::too_many_arguments)]
async fn finalise(w: &mut W, uni: &[K], s: Staged, committed: &mut Map, staged: &mut Vec<Staged>, commits: &mut u32, faulting: bool, path: &str, base: &rocksdb::FaultCfg) {
    // nothing moved while it was only prepared
    let mut res = w.sm.apply_dirty_cache_commit(&s.art).await;
    if simctl::crashed(path) {
        return;
    }
    if let (Err(e), true) = (&res, faulting) {
        rec::hist(format!("apply failed: {}", short(e)));
        simctl::set_faults(path, base.clone());
        check_all(w, uni, committed, "after a failed apply", &["C05"]).await;
        if rec::violated() {
            return;
        }
        res = w.sm.apply_dirty_cache_commit(&s.art).await;
    }
    match res {
        Ok(()) => {
            if *committed != s.map {
                w.root_known = true;
                *commits += 1;
            }
            *committed = s.map.clone();
            staged.clear();
            simrt::count("probe.staged_applied");
            if faulting {
                simctl::set_faults(path, base.clone());
            }
            match w.sm.merkle_root().await {
                Ok(r) if r.as_ref() == s.root => {}
                Ok(r) => rec::violate(&["C04"], "applied-root", format!("root after applying {} announced {}", hex8(r.as_ref()), hex8(&s.root))),
                Err(e) => rec::violate(&["C04"], "root-error", short(e)),
            }
            check_all(w, uni, committed, "after applying a prepared change set", if faulting { &["C05"] } else { &["C04"] }).await;
            let _ = &s.edits;
        }
        Err(e) => rec::violate(if faulting { &["C05"] } else { &["C04"] }, "apply-failed", short(e)),
    }
}

/// After a crash: every key agrees with the state before or with the state after, and the same one for all.
async fn recover(w: &W, uni: &[K], anchor: &K, before: &Map, after: &Map, ending: Ending) -> Option<Map> {
    let mut can_before = true;
    let mut can_after = !matches!(ending, Ending::Rollback | Ending::Stage);
    let mut trail = vec![];
    for k in uni.iter().chain([anchor]) {
        match w.sm.get_raw_state_entry_from_db(&k.key).await {
            Ok(got) => {
                let (b, a) = (before.get(&k.arr), after.get(&k.arr));
                if got.as_ref() != b {
                    can_before = false;
                }
                if got.as_ref() != a {
                    can_after = false;
                }
                trail.push(format!("{} is {} (before {}, after {})", hex8(&k.arr), show(&got), show(&b.cloned()), show(&a.cloned())));
            }
            Err(e) => {
                rec::violate(&["C06"], "unreadable-after-crash", format!("key {}: {}", hex8(&k.arr), short(e)));
                return None;
            }
        }
    }
    if can_before {
        simrt::count("probe.crash_kept_before");
        return Some(before.clone());
    }
    if can_after {
        simrt::count("probe.crash_kept_after");
        return Some(after.clone());
    }
    rec::violate(&["C06"], "torn-commit", format!("the reopened state is neither the one before nor the one after: {}", trail.join("; ")));
    None
}

/// Acknowledged header / post-state-root writes, to be found again after a crash.
#[derive(Default)]
struct Headers {
    roots: Vec<([u8; 32], [u8; 32])>,
}
impl Headers {
    async fn step(&mut self, w: &W, r: &mut Rng, path: &str) {
        let mut a = [0u8; 32];
        let mut b = [0u8; 32];
        r.fill(&mut a);
        r.fill(&mut b);
        let f = simctl::faults(path);
        let res = w.st.post_state_root_db().set_post_state_root(&fr_common::Hash32::new(a), fr_common::Hash32::new(b)).await;
        if res.is_ok() {
            self.roots.push((a, b));
        } else if !simctl::crashed(path) && f.write_err == 0 {
            rec::violate(&["C05"], "root-store-error", "storing a post-state root failed without a fault".to_string());
        }
    }
    async fn verify(&self, w: &W) {
        for (a, b) in &self.roots {
            match w.st.post_state_root_db().get_post_state_root(&fr_common::Hash32::new(*a)).await {
                Ok(Some(x)) if x.as_ref() == b => {}
                Ok(x) => rec::violate(&["C06"], "acknowledged-root-lost", format!("post-state root {} reads {:?}", hex8(a), x.map(|x| hex8(x.as_ref())))),
                Err(e) => rec::violate(&["C06"], "acknowledged-root-lost", short(e)),
            }
        }
    }
}
#[allow(dead_code)]
fn unused(_: BTreeMap<u8, u8>) {}
