//! Random extrinsics and random ways of breaking a block.
use super::super::common::blake;
use super::acc::*;
use super::build::*;
use super::enc::*;
use super::model::*;
use super::script;
use super::svc::Services;
use simrt::Rng;
use std::collections::BTreeSet;

/// What a generator knows: the state, and the chain so far.
#[derive(Clone)]
pub struct Chain {
    pub cfg: usize,
    pub st: St,
    pub head: H,
    pub root: H,
    /// (slot, header hash) of every block so far.
    pub headers: Vec<(u32, H)>,
    pub clock: u32,
    pub ancestors: Option<BTreeSet<(u32, H)>>,
    pub uniq: u64,
    pub genesis: fr_block::types::block::BlockHeader,
    /// Blocks after the genesis block.
    pub imported: usize,
    /// Whether services have code.
    pub services: bool,
    pub pile: bool,
    /// Preimages somebody may want.
    pub blobs: std::sync::Arc<[Vec<u8>]>,
}
impl Env for Chain {
    fn ring_root(&self, keys: &[H; V]) -> [u8; 144] {
        rings().get(keys)
    }
    fn now(&self) -> u32 {
        self.clock
    }
    fn with_ancestors(&self) -> Option<&BTreeSet<(u32, H)>> {
        self.ancestors.as_ref()
    }
}
impl Chain {
    /// The reference for accumulation.
    pub fn rules(&self) -> Box<dyn Accumulator> {
        if self.services {
            Box::new(Services)
        } else {
            Box::new(NoCode)
        }
    }
    fn fresh(&mut self) -> H {
        self.uniq += 1;
        hash(&[b"uniq", &self.uniq.to_le_bytes(), &(self.cfg as u64).to_le_bytes()])
    }
}

fn known(set: &VSet) -> Vec<usize> {
    (0..V).filter(|i| pool().by_ed(&set[*i].ed()).is_some()).collect()
}
fn signer(k: &VKey) -> usize {
    pool().by_ed(&k.ed()).expect("known key")
}

pub fn gen_tickets(r: &mut Rng, c: &Chain, slot: u32, x: &Ext) -> Vec<TicketXt> {
    let Ok(ph) = phase1(&c.st, slot, x, c) else { return vec![] };
    let s = ph.st;
    let cfg = config(c.cfg);
    let ring = bands(&s.pending);
    let which = if ring == bands(&vset(&cfg.pending)) && s.eta[2] == cfg.eta[2] {
        0
    } else if ring == bands(&vset(&cfg.staging)) && s.eta[2] == cfg.eta[1] {
        1
    } else {
        return vec![];
    };
    let mut all = tickets_of(&s.pending, &s.eta[2]);
    all.retain(|(t, _)| !s.acc.contains(t));
    if s.acc.len() == E as usize && !r.chance(1, 8) {
        let worst = s.acc.last().unwrap().clone();
        all.retain(|(t, _)| *t < worst);
    }
    let n = if r.chance(1, 40) { 4 } else { r.range(1, 3) as usize };
    let mut out = vec![];
    while out.len() < n && !all.is_empty() {
        let i = if r.chance(1, 3) { all.len() - 1 } else { r.usize(all.len()) };
        let (t, v) = all.remove(i);
        out.push(TicketXt {
            attempt: t.attempt,
            proof: proof(c.cfg, which, v, t.attempt).expect("proof").to_vec(),
            id: t.id,
            ring,
            input: [X_T, &s.eta[2], &[t.attempt]].concat(),
            bad: false,
        });
    }
    out.sort_by_key(|t| t.id);
    out
}

pub fn gen_disputes(r: &mut Rng, c: &mut Chain, x: &mut Ext) {
    let s = c.st.clone();
    let epoch = s.slot / E;
    let mut targets: Vec<H> = s.rho.iter().flatten().map(|(q, _)| q.hash()).collect();
    let n = r.range(1, 2);
    for _ in 0..n {
        let h = if !targets.is_empty() && r.chance(2, 3) {
            let i = r.usize(targets.len());
            targets.remove(i)
        } else {
            c.fresh()
        };
        let prev = r.chance(1, 3);
        let set = if prev { &s.past } else { &s.active };
        let voters = known(set);
        if voters.len() < 5 {
            continue;
        }
        let mut v = voters;
        while v.len() > 5 {
            let i = r.usize(v.len());
            v.remove(i);
        }
        let yes = *r.pick(&[0usize, 0, 2, 5, 5]);
        let mut approve = vec![false; 5];
        let mut left = yes;
        while left > 0 {
            let i = r.usize(5);
            if !approve[i] {
                approve[i] = true;
                left -= 1;
            }
        }
        let votes = v
            .iter()
            .zip(&approve)
            .map(|(i, a)| (*a, *i as u16, Sig::new(signer(&set[*i]), &[if *a { X_1 } else { X_0 }, &h])))
            .collect();
        x.verdicts.push(Verdict { hash: h, epoch: if prev { epoch - 1 } else { epoch }, votes });
        let mut keys: Vec<usize> = s
            .active
            .iter()
            .chain(&s.past)
            .filter(|k| !s.punish.contains(&k.ed()))
            .filter_map(|k| pool().by_ed(&k.ed()))
            .filter(|k| {
                !x.culprits.iter().any(|c| c.key == pool().keys[*k].ed())
                    && !x.faults.iter().any(|c| c.key == pool().keys[*k].ed())
            })
            .collect();
        keys.sort();
        keys.dedup();
        let mut take = |r: &mut Rng| (!keys.is_empty()).then(|| keys.remove(r.usize(keys.len())));
        if yes == 0 {
            for _ in 0..r.range(2, 3) {
                if let Some(k) = take(r) {
                    x.culprits.push(Culprit { hash: h, key: pool().keys[k].ed(), sig: Sig::new(k, &[X_G, &h]) });
                }
            }
        }
        if yes == 5 || (yes == 0 && r.chance(1, 3)) {
            for _ in 0..r.range(1, 2) {
                if let Some(k) = take(r) {
                    let valid = yes == 0;
                    x.faults.push(Fault {
                        hash: h,
                        valid,
                        key: pool().keys[k].ed(),
                        sig: Sig::new(k, &[if valid { X_1 } else { X_0 }, &h]),
                    });
                }
            }
        }
        // one validator may have broken both rules
        if yes == 0 && r.chance(1, 3) {
            if let Some(cu) = x.culprits.iter().find(|c| c.hash == h && !x.faults.iter().any(|f| f.key == c.key)) {
                let k = pool().by_ed(&cu.key).unwrap();
                let f = Fault { hash: h, valid: true, key: cu.key, sig: Sig::new(k, &[X_1, &h]) };
                x.faults.push(f);
            }
        }
    }
    x.verdicts.sort_by_key(|v| v.hash);
    x.culprits.sort_by_key(|v| v.key);
    x.faults.sort_by_key(|v| v.key);
}

/// The pending reports after disputes.
fn dagger(s: &St, x: &Ext) -> Vec<bool> {
    let gone: BTreeSet<H> =
        x.verdicts.iter().filter(|v| v.votes.iter().filter(|v| v.0).count() != 5).map(|v| v.hash).collect();
    s.rho.iter().map(|r| r.as_ref().is_some_and(|(r, _)| !gone.contains(&r.hash()))).collect()
}
pub fn gen_assurances(r: &mut Rng, c: &Chain, x: &Ext, keen: u64) -> Vec<Assurance> {
    let s = &c.st;
    let pend = dagger(s, x);
    let mut out = vec![];
    let mut want: u8 = (0..C).filter(|i| pend[*i] && r.chance(keen, 100)).map(|i| 1 << i).sum();
    let theme = held(c).filter(|_| keen < 100);
    if let Some(k) = theme {
        // one core's report becomes available as late as it may, the other's at once
        want = (0..C).filter(|i| pend[*i]).map(|i| 1 << i).sum();
        if s.rho[k].as_ref().is_some_and(|(_, t)| s.slot < t + U - 2) {
            want &= !(1 << k);
        }
    }
    for i in known(&s.active) {
        if theme.is_none() && r.chance(1, 7) {
            continue;
        }
        let mut bits = want;
        if theme.is_none() && r.chance(1, 10) {
            bits &= r.below(4) as u8;
        }
        if bits == 0 && r.chance(1, 2) {
            continue;
        }
        out.push(Assurance {
            anchor: c.head,
            bits,
            validator: i as u16,
            sig: Sig::new(signer(&s.active[i]), &[X_A, &hash(&[&c.head, &[bits]])]),
        });
    }
    out
}
/// At times reports pile up behind the one of this core.
fn held(c: &Chain) -> Option<usize> {
    let h = hash(&[c.genesis.hash().expect("hash").as_slice(), &(c.st.slot / 10).to_le_bytes()]);
    (c.pile || h[0] % 3 == 0).then_some((h[1] % C as u8) as usize)
}
pub fn report(r: &mut Rng, c: &mut Chain, core: u16, same_block: &[(H, H)]) -> Report {
    let wp = c.fresh();
    let mut h: Vec<HistEntry> = c.st.hist.clone();
    if let Some(l) = h.last_mut() {
        l.root = c.root;
    }
    let a = r.pick(&h).clone();
    let svcs: Vec<u32> = c.st.accounts.keys().copied().collect();
    let auth = *r.pick(&c.st.pools[core as usize]);
    let (seg_root, auth_trace) = (rand_h(r), {
        let n = r.usize(20);
        r.bytes(n)
    });
    let mut digests = vec![];
    if c.services {
        for _ in 0..if svcs.is_empty() { 0 } else { r.range(1, 4) } {
            let s = *r.pick(&svcs);
            let acc = &c.st.accounts[&s];
            if acc.g_acc > 2_000_000 {
                continue;
            }
            let small = r.chance(1, 4);
            let gas = acc.g_acc
                + match small {
                    true => r.below(3_000),
                    false => *r.pick(&[20_000, 60_000, 100_000, 300_000, 2_000_000]),
                };
            let payload = rand_h(r);
            let result = if r.chance(1, 12) {
                WorkResult::Err(r.range(1, 6) as u8)
            } else {
                // before the result: the operand's fixed part and gas, the tag
                let head = 129 + {
                    let mut w = W::default();
                    w.n(gas);
                    w.0.len()
                } + 1;
                WorkResult::Ok(script::result(r, c, s, head, gas < 300_000))
            };
            digests.push(Digest {
                service: s,
                code: acc.code,
                payload,
                gas,
                result,
                st: [r.below(1 << 20), r.below(100), r.below(20), r.below(5000), r.below(30)],
            });
        }
    }
    if !c.services && !svcs.is_empty() {
        for _ in 0..r.range(1, 3) {
            let s = *r.pick(&svcs);
            let acc = &c.st.accounts[&s];
            let spare = 3_000_000u64.saturating_sub(acc.g_acc);
            digests.push(Digest {
                service: s,
                code: acc.code,
                payload: rand_h(r),
                gas: acc.g_acc + if spare > 0 { r.below(spare) } else { 0 },
                result: match r.below(5) {
                    0 => WorkResult::Err(r.range(1, 6) as u8),
                    _ => {
                        let n = r.usize(40);
                        WorkResult::Ok(r.bytes(n))
                    }
                },
                st: [r.below(1 << 20), r.below(100), r.below(20), r.below(5000), r.below(30)],
            });
        }
    }
    let mut prereqs = BTreeSet::new();
    let mut lookup = std::collections::BTreeMap::new();
    let old: Vec<(H, H)> = h.iter().flat_map(|h| h.pkgs.clone()).chain(same_block.iter().copied()).collect();
    let waiting: Vec<(H, H)> = match held(c) {
        Some(k) if k != core as usize && r.chance(5, 6) => {
            let at_hand: BTreeSet<H> = c.st.rho.iter().flatten().map(|q| q.0.wp).chain(c.st.ready.iter().flatten().map(|q| q.0.wp)).collect();
            old.iter().filter(|o| at_hand.contains(&o.0) || same_block.contains(o)).copied().collect()
        }
        _ => vec![],
    };
    if !waiting.is_empty() {
        let (p, sr) = match waiting.len() {
            // behind each other, then one that only waits for the first
            n if c.pile && r.chance(3, 4) => waiting[if n == 2 { 1 } else { 0 }],
            _ => *r.pick(&waiting),
        };
        if r.chance(1, 2) {
            prereqs.insert(p);
        } else {
            lookup.insert(p, sr);
        }
    } else if !old.is_empty() && !(c.pile && held(c) == Some(core as usize)) {
        for _ in 0..*r.pick(&[0u64, 0, 1, 1, 2]) {
            let (p, sr) = *r.pick(&old);
            if r.chance(2, 3) {
                prereqs.insert(p);
            } else {
                lookup.insert(p, sr);
            }
        }
    }
    let young = c.headers.iter().filter(|h| h.0 + L as u32 >= c.clock + 6).copied().collect::<Vec<_>>();
    let (ls, la) = if young.is_empty() { *c.headers.last().unwrap() } else { *r.pick(&young) };
    Report {
        wp,
        bundle_len: r.below(1 << 20) as u32,
        erasure: rand_h(r),
        seg_root,
        seg_count: 64 * r.below(4) as u16,
        anchor: a.hash,
        anchor_state: a.root,
        anchor_beefy: a.mmr,
        lookup_anchor: la,
        lookup_slot: ls,
        prereqs,
        core,
        auth,
        auth_gas: r.below(100000),
        auth_trace,
        lookup,
        digests,
    }
}
pub fn gen_guarantees(r: &mut Rng, c: &mut Chain, slot: u32, x: &Ext, keen: u64) -> Vec<Guarantee> {
    let keen = if c.pile { 100 } else if held(c).is_some() { keen.max(90) } else { keen };
    let Ok(ph) = phase1(&c.st, slot, x, c) else { return vec![] };
    let s = ph.st;
    let pend = dagger(&c.st, x);
    let mut out: Vec<Guarantee> = vec![];
    let mut same = vec![];
    for core in 0..C {
        let leaving = x.assurances.iter().filter(|a| a.bits >> core & 1 == 1).count() >= 5
            || c.st.rho[core].as_ref().is_some_and(|(_, t)| slot >= t + U);
        if pend[core] && !leaving && !r.chance(1, 20) {
            continue;
        }
        if !r.chance(keen, 100) {
            continue;
        }
        let gslot = match r.below(3) {
            0 => slot.saturating_sub(r.below(4) as u32),
            1 => (slot / R * R).saturating_sub(r.range(1, 4) as u32),
            _ => slot,
        };
        let (cores, set) = assignment(&s, gslot);
        let mut g: Vec<usize> = (0..V).filter(|i| cores[*i] as usize == core && pool().by_ed(&set[*i].ed()).is_some()).collect();
        if g.len() > 2 && r.chance(1, 2) {
            let i = r.usize(g.len());
            g.remove(i);
        }
        if g.len() < 2 {
            continue;
        }
        let rep = report(r, c, core as u16, &same);
        let msg = [X_G, &rep.hash()].concat();
        same.push((rep.wp, rep.seg_root));
        let creds = g.iter().map(|i| (*i as u16, Sig::new(signer(&set[*i]), &[&msg]))).collect();
        out.push(Guarantee { report: rep, slot: gslot, creds });
    }
    // the earlier of two may depend on the later one
    if out.len() == 2 && r.chance(1, 6) && out[1].report.prereqs.is_empty() && out[1].report.lookup.is_empty() {
        let (p, sr) = (out[1].report.wp, out[1].report.seg_root);
        if r.chance(1, 2) {
            out[0].report.prereqs.insert(p);
        } else {
            out[0].report.lookup.insert(p, sr);
        }
        resign(&mut out[0]);
    }
    out
}
pub fn resign(g: &mut Guarantee) {
    let msg = [X_G, &g.report.hash()].concat();
    for (_, s) in g.creds.iter_mut() {
        s.msg = msg.clone();
    }
}
pub fn gen_preimages(r: &mut Rng, c: &Chain, blobs: &[Vec<u8>]) -> Vec<(u32, Vec<u8>)> {
    let mut out = vec![];
    for (s, a) in &c.st.accounts {
        for ((h, z), l) in &a.look {
            if l.is_empty() && r.chance(1, 2) {
                if let Some(b) = blobs.iter().find(|b| blake(b) == *h && b.len() as u32 == *z) {
                    out.push((*s, b.clone()));
                }
            }
        }
    }
    out.sort();
    out
}

/// Breaks a good block in one way; the rest is made right again around it. Returns what was done.
pub fn break_block(r: &mut Rng, c: &mut Chain, b: &Blk, kinds: &[&'static str]) -> Option<(Blk, &'static str)> {
    let kind = *r.pick(kinds);
    let mut m = b.clone();
    let reseal = |m: &mut Blk| m.seal.aux = m.header_data();
    let refinish = |c: &Chain, ext: Ext| finish(&c.st, &c.head, &c.root, b.slot, ext, c);
    let x = &b.ext;
    match kind {
        "parent" => {
            m.parent = if c.headers.len() > 1 && r.chance(1, 2) { c.headers[c.headers.len() - 2].1 } else { rand_h(r) };
            reseal(&mut m)
        }
        "parent-zero" => {
            m.parent = [0; 32];
            reseal(&mut m)
        }
        "parent-zero-unsealed" => {
            m.parent = [0; 32];
            m.seal.bad = true;
        }
        "prior-root" => {
            m.prior_root = if r.chance(1, 2) { rand_h(r) } else { [0; 32] };
            reseal(&mut m)
        }
        "xt-hash" => {
            m.xt_hash = rand_h(r);
            reseal(&mut m)
        }
        "slot-past" => {
            let slot = c.st.slot - r.below(3) as u32;
            if r.chance(1, 2) && slot / E == c.st.slot / E {
                // all the rest as it must be for that slot
                if let Some(b) = finish(&c.st, &c.head, &c.root, slot, Ext::default(), c) {
                    return Some((b, kind));
                }
            }
            m.slot = slot;
            reseal(&mut m)
        }
        "slot-future" => {
            return finish(&c.st, &c.head, &c.root, c.clock + r.range(1, 20) as u32, Ext::default(), c).map(|b| (b, kind));
        }
        "author-index" => {
            m.author = *r.pick(&[(m.author + 1) % V as u16, V as u16, u16::MAX]);
            reseal(&mut m)
        }
        "author-other" => {
            // another validator of the set signs everything for its own index
            let ph = phase1(&c.st, b.slot, x, c).ok()?;
            let i = (m.author as usize + r.range(1, 5) as usize) % V;
            let k = ph.st.active[i];
            m.author = i as u16;
            m.seal.signer = pool().by_band(&k.band())?;
            m.vrf.signer = m.seal.signer;
            m.vrf.input = [X_E, &m.seal.out()].concat();
            reseal(&mut m)
        }
        "seal-bad" => m.seal.bad = true,
        "seal-aux" => {
            m.seal.aux[r.usize(100)] ^= 4;
        }
        "seal-signer" => m.seal.signer = (m.seal.signer + r.range(1, 17) as usize) % POOL,
        "seal-input" => {
            let n = m.seal.input.len();
            m.seal.input[n - 1] ^= 1;
            m.vrf.input = [X_E, &m.seal.out()].concat();
            reseal(&mut m)
        }
        "vrf-bad" => {
            m.vrf.bad = true;
            reseal(&mut m)
        }
        "vrf-signer" => {
            m.vrf.signer = (m.vrf.signer + r.range(1, 17) as usize) % POOL;
            reseal(&mut m)
        }
        "vrf-input" => {
            m.vrf.input = [X_E, &rand_h(r)].concat();
            reseal(&mut m)
        }
        "epoch-mark" => {
            match &mut m.epoch_mark {
                Some(e) => match r.below(7) {
                    0 => m.epoch_mark = None,
                    1 => e.eta0[r.usize(32)] ^= 1,
                    2 => e.eta1[r.usize(32)] ^= 1,
                    3 => std::mem::swap(&mut e.eta0, &mut e.eta1),
                    4 => e.keys[r.usize(V)].0[r.usize(32)] ^= 1,
                    5 => e.keys[r.usize(V)].1[r.usize(32)] ^= 1,
                    _ => {
                        let i = r.usize(V - 1);
                        e.keys.swap(i, i + 1)
                    }
                },
                None => {
                    m.epoch_mark = Some(EpochMark {
                        eta0: c.st.eta[0],
                        eta1: c.st.eta[1],
                        keys: c.st.pending.iter().map(|k| (k.band(), k.ed())).collect(),
                    })
                }
            }
            reseal(&mut m)
        }
        "win-mark" => {
            match &mut m.win_mark {
                Some(t) => match r.below(4) {
                    0 => m.win_mark = None,
                    1 => {
                        let i = r.usize(E as usize - 1);
                        t.swap(i, i + 1)
                    }
                    2 => t[r.usize(E as usize)].id[r.usize(32)] ^= 1,
                    _ => t[r.usize(E as usize)].attempt ^= 1,
                },
                None => {
                    let mut t = c.st.acc.clone();
                    while t.len() < E as usize {
                        t.push(Ticket { id: rand_h(r), attempt: 0 });
                    }
                    m.win_mark = Some(outside_in(&t));
                }
            }
            reseal(&mut m)
        }
        "offenders-mark" => {
            if m.offenders.is_empty() && r.chance(2, 3) {
                let mut e = x.clone();
                gen_disputes(r, c, &mut e);
                m = refinish(c, e)?;
            }
            let n = m.offenders.len();
            match r.below(5) {
                0 if n > 0 => {
                    m.offenders.pop();
                }
                1 if n > 0 => m.offenders[r.usize(n)][r.usize(32)] ^= 1,
                2 if n > 1 => {
                    let i = r.usize(n - 1);
                    m.offenders.swap(i, i + 1);
                }
                3 if n > 0 => {
                    let k = m.offenders[r.usize(n)];
                    m.offenders.push(k);
                }
                _ => m.offenders.push(pool().keys[r.usize(POOL)].ed()),
            }
            reseal(&mut m)
        }
        // --- extrinsics ---
        "ticket" => {
            let mut e = x.clone();
            if e.tickets.is_empty() {
                return None;
            }
            match r.below(8) {
                0 => e.tickets.reverse(),
                1 => {
                    let t = e.tickets[0].clone();
                    e.tickets.insert(0, t);
                }
                2 => e.tickets[0].bad = true,
                3 => {
                    // the proof of another attempt
                    e.tickets[0].attempt = (e.tickets[0].attempt + 1) % 3;
                }
                4 => e.tickets[0].attempt = 3 + r.below(250) as u8,
                5 | 6 => {
                    // a proof for another ring or epoch
                    let cfg = config(c.cfg);
                    let which = r.usize(2);
                    let other = (c.cfg + r.usize(2)) % CONFIGS;
                    let oc = config(other);
                    let v = r.usize(V);
                    let t = &mut e.tickets[0];
                    let (set, eta) = if which == 0 { (oc.pending, oc.eta[2]) } else { (oc.staging, oc.eta[1]) };
                    let _ = cfg;
                    t.proof = proof(other, which, v, t.attempt)?.to_vec();
                    t.ring = bands(&vset(&set));
                    t.input = [X_T, &eta, &[t.attempt]].concat();
                    t.id = vrf_output(set[v], &t.input);
                    e.tickets.sort_by_key(|t| t.id);
                }
                _ => {
                    // late
                    let slot = b.slot / E * E + Y + r.below(2) as u32;
                    if slot <= c.st.slot || slot > c.clock {
                        return None;
                    }
                    return finish(&c.st, &c.head, &c.root, slot, e, c).map(|b| (b, kind));
                }
            }
            m = refinish(c, e)?;
        }
        "ticket-again" => {
            let mut e = x.clone();
            let cfg = config(c.cfg);
            let t = c.st.acc.get(r.usize(c.st.acc.len().max(1)))?.clone();
            let v = (0..V).find(|v| vrf_output(cfg.pending[*v], &[X_T, &cfg.eta[2], &[t.attempt]].concat()) == t.id)?;
            e.tickets = vec![TicketXt {
                attempt: t.attempt,
                proof: proof(c.cfg, 0, v, t.attempt)?.to_vec(),
                id: t.id,
                ring: bands(&vset(&cfg.pending)),
                input: [X_T, &cfg.eta[2], &[t.attempt]].concat(),
                bad: false,
            }];
            m = refinish(c, e)?;
        }
        "dispute" => {
            let mut e = x.clone();
            if e.verdicts.is_empty() {
                gen_disputes(r, c, &mut e);
            }
            if e.verdicts.is_empty() {
                return None;
            }
            match r.below(16) {
                0 => e.verdicts.reverse(),
                1 => {
                    let v = e.verdicts[0].clone();
                    e.verdicts.insert(0, v);
                }
                2 => e.verdicts[0].votes.swap(0, 1),
                3 => {
                    let i = r.usize(5);
                    e.verdicts[0].votes[i].2.bad = true;
                }
                4 => {
                    let i = r.usize(5);
                    e.verdicts[0].votes[i].2.signer = r.usize(POOL);
                }
                5 => {
                    // vote flipped: 1, 3 or 4 in favour
                    let i = r.usize(5);
                    let h = e.verdicts[0].hash;
                    let v = &mut e.verdicts[0].votes[i];
                    v.0 = !v.0;
                    v.2.msg = [if v.0 { X_1 } else { X_0 }, &h].concat();
                }
                6 => e.verdicts[0].epoch = (c.st.slot / E).wrapping_sub(2),
                7 => e.verdicts[0].epoch = c.st.slot / E + 1,
                8 => e.verdicts[0].epoch = *r.pick(&[u32::MAX, u32::MAX - 1, 0]),
                9 => {
                    e.culprits.pop()?;
                }
                10 => {
                    e.faults.pop()?;
                }
                11 => e.culprits.reverse(),
                12 => {
                    let n = e.culprits.len();
                    if n == 0 {
                        return None;
                    }
                    let i = r.usize(n);
                    match r.below(3) {
                        0 => e.culprits[i].sig.bad = true,
                        1 => e.culprits[i].hash = rand_h(r),
                        _ => {
                            let k = r.usize(POOL);
                            let h = e.culprits[i].hash;
                            e.culprits[i].key = pool().keys[k].ed();
                            e.culprits[i].sig = Sig::new(k, &[X_G, &h]);
                            e.culprits.sort_by_key(|c| c.key);
                        }
                    }
                }
                13 => {
                    let n = e.faults.len();
                    if n == 0 {
                        return None;
                    }
                    let i = r.usize(n);
                    match r.below(3) {
                        0 => e.faults[i].sig.bad = true,
                        1 => {
                            let f = &mut e.faults[i];
                            f.valid = !f.valid;
                            f.sig.msg = [if f.valid { X_1 } else { X_0 }, &f.hash].concat();
                        }
                        _ => {
                            let k = r.usize(POOL);
                            let (h, v) = (e.faults[i].hash, e.faults[i].valid);
                            e.faults[i].key = pool().keys[k].ed();
                            e.faults[i].sig = Sig::new(k, &[if v { X_1 } else { X_0 }, &h]);
                            e.faults.sort_by_key(|c| c.key);
                        }
                    }
                }
                14 => {
                    // judged before
                    let old: Vec<H> = c.st.good.iter().chain(&c.st.bad).chain(&c.st.wonky).copied().collect();
                    if old.is_empty() {
                        return None;
                    }
                    let h = *r.pick(&old);
                    let was = e.verdicts[0].hash;
                    e.verdicts[0].hash = h;
                    for (v, _, s) in e.verdicts[0].votes.iter_mut() {
                        s.msg = [if *v { X_1 } else { X_0 }, &h].concat();
                    }
                    for cu in e.culprits.iter_mut().filter(|c| c.hash == was) {
                        cu.hash = h;
                        cu.sig.msg = [X_G, &h].concat();
                    }
                    for f in e.faults.iter_mut().filter(|c| c.hash == was) {
                        f.hash = h;
                        f.sig.msg = [if f.valid { X_1 } else { X_0 }, &h].concat();
                    }
                    e.verdicts.sort_by_key(|v| v.hash);
                }
                _ => {
                    // an offender again
                    let p: Vec<usize> = c.st.punish.iter().filter_map(|k| pool().by_ed(k)).collect();
                    if p.is_empty() || e.culprits.is_empty() {
                        return None;
                    }
                    let k = *r.pick(&p);
                    let h = e.culprits[0].hash;
                    e.culprits.push(Culprit { hash: h, key: pool().keys[k].ed(), sig: Sig::new(k, &[X_G, &h]) });
                    e.culprits.sort_by_key(|c| c.key);
                }
            }
            m = refinish(c, e)?;
        }
        "garbage-offender" => {
            // accuses a validator of the next set without any verdict
            let mut e = x.clone();
            let cfg = config(c.cfg);
            let k = *r.pick(&cfg.staging);
            let h = rand_h(r);
            e.culprits.push(Culprit { hash: h, key: pool().keys[k].ed(), sig: Sig::new(k, &[X_G, &h]) });
            e.culprits.sort_by_key(|c| c.key);
            m = refinish(c, e)?;
        }
        "offender-guarantee" => {
            // signed by a validator that this very block shows to have broken the rules
            let mut e = x.clone();
            if e.culprits.is_empty() && e.faults.is_empty() {
                gen_disputes(r, c, &mut e);
                e.assurances.clear();
            }
            let found: BTreeSet<H> = e.offenders().into_iter().collect();
            let calm = Ext { tickets: e.tickets.clone(), ..Ext::default() };
            let s = phase1(&c.st, b.slot, &calm, c).ok()?.st;
            let pend = dagger(&c.st, &e);
            e.guarantees.clear();
            for _ in 0..8 {
                let gslot = match r.below(3) {
                    0 => b.slot,
                    _ => (b.slot / R * R).saturating_sub(r.range(1, 4) as u32),
                };
                let core = r.usize(C);
                if pend[core] && !c.st.rho[core].as_ref().is_some_and(|(_, t)| b.slot >= t + U) {
                    continue;
                }
                let (cores, set) = assignment(&s, gslot);
                let mut g: Vec<usize> = (0..V).filter(|i| cores[*i] as usize == core && pool().by_ed(&set[*i].ed()).is_some()).collect();
                if g.len() > 2 && r.chance(1, 2) {
                    let out = g.iter().position(|i| !found.contains(&set[*i].ed())).unwrap_or(0);
                    g.remove(out);
                }
                if g.len() < 2 || !g.iter().any(|i| found.contains(&set[*i].ed())) {
                    continue;
                }
                let rep = report(r, c, core as u16, &[]);
                let msg = [X_G, &rep.hash()].concat();
                let creds = g.iter().map(|i| (*i as u16, Sig::new(signer(&set[*i]), &[&msg]))).collect();
                e.guarantees.push(Guarantee { report: rep, slot: gslot, creds });
                break;
            }
            if e.guarantees.is_empty() {
                return None;
            }
            m = refinish(c, e)?;
        }
        "assurance" => {
            let mut e = x.clone();
            if e.assurances.is_empty() {
                e.assurances = gen_assurances(r, c, x, 100);
            }
            let n = e.assurances.len();
            if n == 0 {
                return None;
            }
            let i = r.usize(n);
            let head = c.head;
            let sign = |a: &mut Assurance| a.sig.msg = [X_A, &hash(&[&a.anchor, &[a.bits]])].concat();
            match r.below(8) {
                0 => e.assurances.reverse(),
                1 => {
                    let a = e.assurances[i].clone();
                    e.assurances.insert(i, a);
                }
                2 => e.assurances[i].sig.bad = true,
                3 => {
                    e.assurances[i].anchor = if r.chance(1, 2) { rand_h(r) } else { c.st.hist[0].hash };
                    sign(&mut e.assurances[i]);
                }
                4 => {
                    // a core with nothing pending
                    e.assurances[i].bits ^= 1 << r.below(2);
                    sign(&mut e.assurances[i]);
                }
                5 => e.assurances[i].validator = *r.pick(&[6u16, 100, u16::MAX]),
                6 => {
                    // by the validator of the same index in another set
                    let v = e.assurances[i].validator as usize;
                    if let Some(k) = pool().by_ed(&c.st.past[v].ed()) {
                        e.assurances[i].sig.signer = k;
                    }
                }
                _ => {
                    e.assurances[i].sig.msg = [X_A, &hash(&[&head, &[e.assurances[i].bits ^ 1]])].concat();
                }
            }
            m = refinish(c, e)?;
        }
        "guarantee" => {
            let mut e = x.clone();
            if e.guarantees.is_empty() {
                e.guarantees = gen_guarantees(r, c, b.slot, x, 100);
            }
            let n = e.guarantees.len();
            if n == 0 {
                return None;
            }
            let i = r.usize(n);
            let g = &mut e.guarantees[i];
            match r.below(28) {
                0 => e.guarantees.reverse(),
                1 => {
                    let g = g.clone();
                    e.guarantees.insert(i, g);
                }
                2 => g.creds.swap(0, 1),
                3 => {
                    g.creds.truncate(1);
                }
                4 => {
                    let j = r.usize(g.creds.len());
                    g.creds[j].1.bad = true
                }
                5 => {
                    let j = r.usize(g.creds.len());
                    g.creds[j].1.signer = r.usize(POOL)
                }
                6 => {
                    let a = g.creds[0].clone();
                    g.creds.insert(0, a);
                }
                7 => g.slot = b.slot + r.range(1, 5) as u32,
                8 => g.slot = (R * (b.slot / R).saturating_sub(1)).saturating_sub(r.range(1, 9) as u32),
                9 => {
                    g.slot = g.slot.saturating_sub(R);
                }
                10 => {
                    g.report.core = *r.pick(&[1 - (g.report.core.min(1)), 2, 300]);
                    resign(g)
                }
                11 => {
                    g.report.auth = rand_h(r);
                    resign(g)
                }
                12 => {
                    g.report.anchor = rand_h(r);
                    resign(g)
                }
                13 => {
                    g.report.anchor_state = if r.chance(1, 2) { [0; 32] } else { rand_h(r) };
                    resign(g)
                }
                14 => {
                    g.report.anchor_beefy = rand_h(r);
                    resign(g)
                }
                15 => {
                    g.report.lookup_slot = b.slot.saturating_sub(L + r.range(0, 4) as u32);
                    resign(g)
                }
                16 => {
                    // reported before, still known
                    let mut old: Vec<H> = c.st.hist.iter().flat_map(|h| h.pkgs.iter().map(|p| p.0)).collect();
                    old.extend(c.st.rho.iter().flatten().map(|r| r.0.wp));
                    old.extend(c.st.xi.iter().flatten().copied());
                    old.extend(c.st.ready.iter().flatten().map(|r| r.0.wp));
                    if old.is_empty() {
                        return None;
                    }
                    g.report.wp = *r.pick(&old);
                    resign(g)
                }
                17 => {
                    g.report.prereqs.insert(rand_h(r));
                    resign(g)
                }
                18 => {
                    g.report.lookup.insert(rand_h(r), rand_h(r));
                    resign(g)
                }
                19 => {
                    let old: Vec<H> = c.st.hist.iter().flat_map(|h| h.pkgs.iter().map(|p| p.0)).collect();
                    if old.is_empty() {
                        return None;
                    }
                    g.report.lookup.insert(*r.pick(&old), rand_h(r));
                    resign(g)
                }
                20 => {
                    let old: Vec<(H, H)> = c.st.hist.iter().flat_map(|h| h.pkgs.iter().copied()).collect();
                    if old.len() < 3 {
                        return None;
                    }
                    for (p, _) in old {
                        g.report.prereqs.insert(p);
                    }
                    for _ in g.report.prereqs.len()..9 {
                        g.report.prereqs.insert(rand_h(r));
                    }
                    resign(g)
                }
                21 => {
                    g.report.digests.first_mut()?.code = rand_h(r);
                    resign(g)
                }
                22 => {
                    g.report.digests.first_mut()?.service = 0xdead_0001;
                    resign(g)
                }
                23 => {
                    let d = g.report.digests.first_mut()?;
                    let low = c.st.accounts.get(&d.service)?.g_acc;
                    if low == 0 {
                        return None;
                    }
                    d.gas = low - 1;
                    resign(g)
                }
                24 => {
                    g.report.digests.first_mut()?.gas = 10_000_001;
                    resign(g)
                }
                25 => {
                    let over = r.below(2) as usize;
                    let used: usize = g
                        .report
                        .digests
                        .iter()
                        .map(|d| if let WorkResult::Ok(b) = &d.result { b.len() } else { 0 })
                        .sum();
                    g.report.auth_trace = vec![7; 48 * 1024 - used + over];
                    resign(g)
                }
                26 => {
                    let (wp, k) = (g.report.wp, i);
                    let j = 1 - k;
                    e.guarantees.get_mut(j)?.report.wp = wp;
                    resign(&mut e.guarantees[j]);
                }
                _ => {
                    let j = r.usize(g.creds.len());
                    g.creds[j].0 = *r.pick(&[6u16, 77, u16::MAX]);
                    g.creds.sort_by_key(|c| c.0);
                }
            }
            m = refinish(c, e)?;
        }
        "preimage" => {
            let mut e = x.clone();
            match r.below(4) {
                0 => {
                    let s = *c.st.accounts.keys().next()?;
                    e.preimages.push((s, r.bytes(20)));
                    e.preimages.sort();
                }
                1 => e.preimages.reverse(),
                2 => {
                    let p = e.preimages.first()?.clone();
                    e.preimages.insert(0, p);
                }
                _ => {
                    e.preimages.first_mut()?.0 = 0xdead_0002;
                    e.preimages.sort();
                }
            }
            m = refinish(c, e)?;
        }
        k => panic!("harness: no such breakage {k}"),
    }
    Some((m, kind))
}
