//! Blocks made by the shipped authoring role, on nodes that hold the state of the reference model.
use super::*;
use fr_network::{endpoint::QuicEndpoint, manager::NetworkManager};
use fr_node::{
    jam_node::JamNode, keystore::dev_account_profile::DevNodeAccountProfile as Dev,
    scheduler::chain_extension::extend_chain,
};
use fr_state::types::Timeslot;
use fr_storage::server_trait::NodeServerTrait;

const DEVS: [Dev; 6] = [Dev::Alice, Dev::Bob, Dev::Carol, Dev::David, Dev::Eve, Dev::Fergie];

pub struct Authors {
    nms: Vec<Arc<NetworkManager>>,
    genesis_active: VSet,
}
impl Authors {
    pub async fn new(n: usize, genesis_active: VSet) -> Self {
        let mut nms = vec![];
        for i in 0..n {
            let addr = std::net::SocketAddrV6::new(std::net::Ipv6Addr::LOCALHOST, 41000 + i as u16, 0, 0);
            let info = DEVS[0].load_validator_key_info();
            nms.push(Arc::new(NetworkManager::new(info, QuicEndpoint::new(addr)).await.expect("harness: network manager")));
        }
        Authors { nms, genesis_active }
    }
    /// What the slot scheduler does for a node with that account. Err also stands for a panic.
    async fn extend(&self, node: usize, ns: &Arc<NodeStorage>, who: usize, slot: u32) -> Result<(), String> {
        let mut j = JamNode::new(DEVS[who].load_validator_key_info(), ns.clone(), self.nms[node].clone());
        let key = pool().keys[who].band();
        // as at start-up
        j.set_curr_epoch_validator_index(self.genesis_active.iter().position(|k| k.band() == key).map(|i| i as u16));
        let h = tokio::spawn(async move { extend_chain(Arc::new(j), &Timeslot::new(slot)).await.map_err(short) });
        match h.await {
            Ok(r) => r,
            Err(e) => Err(format!("task: {e}")),
        }
    }
}
impl Node {
    pub fn head(&self) -> H {
        arr(&self.ns.header_db().get_best_header().hash().expect("hash"))
    }
    pub async fn root(&self) -> Result<H, String> {
        Ok(arr(&self.ns.state_manager().merkle_root().await.map_err(short)?))
    }
    pub async fn stored_root(&self, hash: &H) -> Option<H> {
        self.ns.post_state_root_db().get_post_state_root(&h32(hash)).await.ok().flatten().map(|r| arr(&r))
    }
    pub async fn stored_block(&self, hash: &H) -> Result<Vec<u8>, String> {
        let b = self.ns.get_blocks(h32(hash), false, 1).await.map_err(short)?;
        b.first().ok_or("no block")?.encode().map_err(short)
    }
}
/// An authored block and what it leads to.
pub struct Made {
    pub blk: Blk,
    pub next: St,
    /// Blocks the other nodes have to import to follow.
    pub bytes: Vec<(H, Vec<u8>, Map, H)>,
    pub by: usize,
}
fn expected(p: &St, head: &H, root: &H, slot: u32, ch: &Chain) -> Option<(Blk, St, Map, H)> {
    let b = finish(p, head, root, slot, Ext::default(), ch)?;
    let next = apply(p, head, root, &b, ch, &mut *ch.rules()).ok()?;
    let map = next.to_map();
    let root = trie_root(&map);
    Some((b, next, map, root))
}
fn fail(class: &str, extra: &[&'static str], msg: String) {
    let mut p = vec!["C12"];
    p.extend(extra);
    rec::violate(&p, class, msg);
}
/// Reported panics refute C12.
fn panicked() -> bool {
    let v = rec::take_panics();
    if let Some(m) = v.first() {
        fail("panic", &["C10"], format!("authoring a block panicked: {m}"));
        return true;
    }
    false
}

impl Node {
    /// After a crash: what is left on the disk, in a new process. True if it is to run the importer loop.
    pub fn restart(&mut self, caches: &Caches) -> Result<bool, String> {
        let (img, faults) = (simctl::image_after_crash(&self.path), simctl::faults(&self.path));
        simctl::kill(&self.path);
        self.path.push('+');
        simctl::install(&self.path, img);
        simctl::set_faults(&self.path, faults);
        simrt::count("fault.process_crash");
        let importer = self.tx.take().is_some();
        self.ns = Arc::new(NodeStorage::new(caches.config(&self.path)).map_err(|e| format!("the storage does not open: {}", short(e)))?);
        // the root of its trie is known again with the next block
        self.cold.set(true);
        Ok(importer)
    }
    /// Dies while it makes a block, and has it from elsewhere if it was lost.
    async fn author_dying(&mut self, r: &mut Rng, ch: &Chain, caches: &Caches, au: &Authors, k: usize, blk: &Blk, map: &Map, root: H) -> Result<(), String> {
        let (who, slot) = (blk.seal.signer, blk.slot);
        simctl::arm_crash(&self.path, r.range(1, 9), r.chance(1, 2));
        let got = au.extend(k, &self.ns, who, slot).await;
        simctl::disarm_crash(&self.path);
        let died = simctl::crashed(&self.path);
        if !died && got.is_err() {
            return Err(format!("authoring without faults failed: {}", got.unwrap_err()));
        }
        let importer = self.restart(caches)?;
        let before = ch.st.to_map();
        let new = self.holds(map, &before).await?;
        let old = !new && self.holds(&before, map).await?;
        rec::hist(format!("crash{} while authoring and restart: {}", if died { " on a write" } else { "" }, if new { "block kept" } else { "block lost" }));
        simrt::count("author.crashes");
        if !new && !old {
            return Err("the state on the disk is neither the one before nor the one after the authored block".into());
        }
        if !new && (!died || got.is_ok()) {
            return Err("an authored block is gone".into());
        }
        if self.stored_root(&ch.head).await != Some(ch.root) {
            return Err("the post-state root of the parent is gone".into());
        }
        if new {
            let hash = blk.hash();
            match self.stored_block(&hash).await {
                Ok(b) if b == blk.bytes() => {}
                Ok(_) => return Err("the state of an authored block is on the disk, but another block".into()),
                Err(e) => return Err(format!("the state of an authored block is on the disk, but the block is not: {e}")),
            }
            if self.stored_root(&hash).await != Some(root) {
                return Err("the state of an authored block is on the disk, but its post-state root is not".into());
            }
            let header = self.ns.header_db().get_header(&h32(&hash)).await.map_err(short)?.ok_or("no header")?;
            self.ns.header_db().set_best_header(header);
        } else {
            let parent = if ch.imported > 0 { self.ns.header_db().get_header(&h32(&ch.head)).await.map_err(short)? } else { None };
            self.ns.header_db().set_best_header(parent.unwrap_or_else(|| ch.genesis.clone()));
        }
        self.tx = importer.then(|| Self::importer(&self.ns));
        if !new {
            let again = self.import(&blk.bytes(), false).await;
            if again != Ok(root) {
                return Err(format!("importing the block after the restart gave {again:?}"));
            }
        }
        Ok(())
    }
}

/// Authors one block. None: nothing happened. Some(None): a violation was reported.
pub async fn author_op(r: &mut Rng, ch: &mut Chain, nodes: &mut [Node], caches: &[Caches], au: &Authors, mut slot: u32, i: u32) -> Option<Option<Made>> {
    let mut got = None;
    for _ in 0..8 {
        ch.clock = ch.clock.max(slot);
        if let Some(e) = expected(&ch.st, &ch.head, &ch.root, slot, ch) {
            if e.0.seal.signer < 6 {
                got = Some(e);
                break;
            }
        }
        slot += 1;
    }
    let (blk, next, map, root) = got?;
    let who = blk.seal.signer;
    let warm: Vec<usize> = (0..nodes.len()).filter(|k| !nodes[*k].cold.get()).collect();
    if warm.is_empty() {
        return None;
    }
    let k = *r.pick(&warm);
    let n = &mut nodes[k];
    set_clock(slot);
    // anywhere in the slot, also close to its end
    let into = match r.below(3) {
        0 => 0,
        1 => r.below(5_900) * 1_000_000,
        _ => (5_998 - r.below(40)) * 1_000_000,
    };
    simrt::sleep(into);
    rec::hist(format!("op{i} author slot {slot} ({}+{}) account {who} on node {k}, {} ms into the slot, {}", slot / E, slot % E, into / 1_000_000, if matches!(next.sealers, Sealers::Tickets(_)) { "ticket" } else { "fallback" }));
    simrt::count(if matches!(next.sealers, Sealers::Tickets(_)) { "author.ticket_turns" } else { "author.fallback_turns" });
    // those whose turn it is not
    for _ in 0..r.below(3) {
        let other = r.usize(6);
        if other == who {
            continue;
        }
        let res = au.extend(k, &n.ns, other, slot).await;
        if panicked() {
            return Some(None);
        }
        if n.head() != ch.head || n.root().await.as_ref() != Ok(&ch.root) {
            fail("out-of-turn", &[], format!("account {other} changed the chain at slot {slot}, where it is account {who}'s turn"));
            return Some(None);
        }
        if let Err(e) = res {
            fail("out-of-turn-error", &[], format!("account {other} failed at slot {slot}: {e}"));
            return Some(None);
        }
    }
    // another node's block arriving while this one authors
    if n.tx.is_some() && r.chance(1, 3) && slot > ch.st.slot + 1 {
        let s0 = r.range(ch.st.slot as u64 + 1, slot as u64 - 1) as u32;
        if let Some((b0, p0, m0, r0)) = expected(&ch.st, &ch.head, &ch.root, s0, ch) {
            if let Some((b1, p1, m1, r1)) = expected(&p0, &b0.hash(), &r0, slot, ch) {
                if b1.seal.signer == who {
                    rec::hist(format!("op{i} a block of slot {s0} arrives meanwhile"));
                    simrt::count("author.races");
                    let bytes = b0.bytes();
                    let (a, _) = tokio::join!(au.extend(k, &n.ns, who, slot), n.import(&bytes, false));
                    // the importer takes its time
                    tokio::time::sleep(std::time::Duration::from_millis(50)).await;
                    if panicked() {
                        return Some(None);
                    }
                    let head = n.head();
                    let (blk, next, bytes, by) = if head == b1.hash() {
                        (b1.clone(), p1, vec![(b0.hash(), bytes, m0, r0), (b1.hash(), b1.bytes(), m1, r1)], k)
                    } else {
                        (blk.clone(), next, vec![(blk.hash(), blk.bytes(), map, root)], k)
                    };
                    let want = bytes.last().unwrap().3;
                    if let Err(e) = a {
                        fail("race-error", &["C31"], format!("authoring slot {slot} while a block of slot {s0} arrived failed: {e}"));
                        return Some(None);
                    }
                    if head != blk.hash() {
                        fail("race-head", &["C31"], format!("authoring slot {slot} while a block of slot {s0} arrived ended with a head that is neither block"));
                        return Some(None);
                    }
                    let (state, stored) = (n.root().await, n.stored_root(&head).await);
                    if state != Ok(want) || stored != Some(want) {
                        fail("race-state", &["C31", "C10"], format!(
                            "authoring slot {slot} while a block of slot {s0} arrived ended in state {:?} (stored {:?}), expected {}",
                            state.map(|h| hex8(&h)), stored.map(|h| hex8(&h)), hex8(&want)
                        ));
                        return Some(None);
                    }
                    return Some(Some(Made { blk, next, bytes, by }));
                }
            }
        }
    }
    if r.chance(1, 6) {
        let res = n.author_dying(r, ch, &caches[k], au, k, &blk, &map, root).await;
        if panicked() {
            return Some(None);
        }
        if let Err(e) = res {
            fail("crash-during-authoring", &["C06"], format!("account {who}, slot {slot}: {e}"));
            return Some(None);
        }
        let h = blk.hash();
        let bytes = blk.bytes();
        return Some(Some(Made { blk, next, bytes: vec![(h, bytes, map, root)], by: k }));
    }
    let faulty = r.chance(1, 3);
    if faulty {
        let mut f = simctl::faults(&n.path);
        let per = *r.pick(&[500u32, 3_000, 10_000, 30_000]);
        if r.chance(1, 2) {
            f.read_err = per;
        }
        f.write_err = per;
        simctl::set_faults(&n.path, f);
    }
    let res = au.extend(k, &n.ns, who, slot).await;
    if faulty {
        let mut f = simctl::faults(&n.path);
        f.read_err = 0;
        f.write_err = 0;
        simctl::set_faults(&n.path, f);
    }
    if panicked() {
        return Some(None);
    }
    if let Err(e) = res {
        if !faulty {
            fail("author-error", &[], format!("account {who} could not author slot {slot}: {e}"));
            return Some(None);
        }
        rec::hist(format!("op{i} failed: {e}"));
        simrt::count("author.failures");
        let head = n.head();
        let state = n.root().await;
        if head != ch.head || state.as_ref().ok() != Some(&ch.root) {
            // or everything was done before the failure
            if !(head == blk.hash() && state.as_ref().ok() == Some(&root)) {
                fail("failed-author-traces", &["C03", "C05", "C31"], format!(
                    "after a failed attempt to author slot {slot} ({e}) the head is {} and the state root {:?}; before: {} and {}",
                    hex8(&head), state.map(|h| hex8(&h)), hex8(&ch.head), hex8(&ch.root)
                ));
                return Some(None);
            }
        }
        // the disk works again
        let again = au.extend(k, &n.ns, who, slot).await;
        if panicked() {
            return Some(None);
        }
        if let Err(e) = again {
            fail("author-retry", &["C05"], format!("account {who} could not author slot {slot} after an earlier failed attempt: {e}"));
            return Some(None);
        }
    }
    let head = n.head();
    let want = blk.bytes();
    if head == ch.head {
        fail("no-block", &[], format!("account {who} authored nothing for slot {slot}, though it is its turn"));
        return Some(None);
    }
    let stored = n.stored_block(&head).await;
    match &stored {
        Ok(b) if *b == want => {}
        Ok(b) => {
            fail("wrong-block", &[], format!("the block authored for slot {slot} differs from the only valid one ({} and {} bytes)", b.len(), want.len()));
            return Some(None);
        }
        Err(e) => {
            fail("block-unavailable", &["C30"], format!("the authored block of slot {slot} cannot be served: {e}"));
            return Some(None);
        }
    }
    let (state, kept) = (n.root().await, n.stored_root(&head).await);
    if state != Ok(root) || kept != Some(root) {
        if std::env::var("FV_DIFF").is_ok() {
            judge(&nodes[k..k + 1], &[state.clone()], &blk, &next, &map, &root, 0, ch.services).await;
        }
        fail("author-state", &["C31"], format!("the author of slot {slot} holds state {:?} (stored {:?}), expected {}", state.map(|h| hex8(&h)), kept.map(|h| hex8(&h)), hex8(&root)));
        return Some(None);
    }
    if r.chance(1, 3) {
        // the slot is signalled a second time
        let _ = au.extend(k, &n.ns, who, slot).await;
        if panicked() {
            return Some(None);
        }
        if n.head() != head || n.root().await != Ok(root) {
            fail("second-block", &[], format!("account {who} made a second block for slot {slot}"));
            return Some(None);
        }
    }
    let h = blk.hash();
    Some(Some(Made { blk, next, bytes: vec![(h, want, map, root)], by: k }))
}
