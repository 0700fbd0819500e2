//! A reference model of the chain state and of block import, written from the Gray Paper.
//!
//! Signatures are symbolic: the model knows who signed what, so it needs no verification code.
use super::super::common::{blake, trie_root, Key31, Map};
use super::enc::*;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct Ticket {
    pub id: H,
    pub attempt: u8,
}
#[derive(Clone, PartialEq)]
pub enum Sealers {
    Tickets(Vec<Ticket>),
    Keys(Vec<H>),
}
#[derive(Clone, PartialEq)]
pub struct HistEntry {
    pub hash: H,
    pub mmr: H,
    pub root: H,
    pub pkgs: Vec<(H, H)>,
}
#[derive(Clone, PartialEq, Debug)]
pub enum WorkResult {
    Ok(Vec<u8>),
    Err(u8),
}
#[derive(Clone, PartialEq, Debug)]
pub struct Digest {
    pub service: u32,
    pub code: H,
    pub payload: H,
    pub gas: u64,
    pub result: WorkResult,
    /// refine gas, imports, extrinsic count, extrinsic octets, exports
    pub st: [u64; 5],
}
#[derive(Clone, PartialEq, Debug)]
pub struct Report {
    pub wp: H,
    pub bundle_len: u32,
    pub erasure: H,
    pub seg_root: H,
    pub seg_count: u16,
    pub anchor: H,
    pub anchor_state: H,
    pub anchor_beefy: H,
    pub lookup_anchor: H,
    pub lookup_slot: u32,
    pub prereqs: BTreeSet<H>,
    pub core: u16,
    pub auth: H,
    pub auth_gas: u64,
    pub auth_trace: Vec<u8>,
    pub lookup: BTreeMap<H, H>,
    pub digests: Vec<Digest>,
}
impl Report {
    pub fn enc(&self, w: &mut W) {
        w.b(&self.wp).u32(self.bundle_len).b(&self.erasure).b(&self.seg_root).u16(self.seg_count);
        w.b(&self.anchor).b(&self.anchor_state).b(&self.anchor_beefy).b(&self.lookup_anchor).u32(self.lookup_slot);
        w.n(self.prereqs.len() as u64);
        for p in &self.prereqs {
            w.b(p);
        }
        w.n(self.core as u64).b(&self.auth).n(self.auth_gas).lb(&self.auth_trace);
        w.n(self.lookup.len() as u64);
        for (k, v) in &self.lookup {
            w.b(k).b(v);
        }
        w.n(self.digests.len() as u64);
        for d in &self.digests {
            w.u32(d.service).b(&d.code).b(&d.payload).u64(d.gas);
            match &d.result {
                WorkResult::Ok(x) => w.u8(0).lb(x),
                WorkResult::Err(e) => w.u8(*e),
            };
            for x in d.st {
                w.n(x);
            }
        }
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut w = W::default();
        self.enc(&mut w);
        w.0
    }
    pub fn hash(&self) -> H {
        blake(&self.bytes())
    }
    pub fn deps(&self) -> BTreeSet<H> {
        self.prereqs.iter().chain(self.lookup.keys()).copied().collect()
    }
    pub fn gas(&self) -> u64 {
        self.digests.iter().map(|d| d.gas).sum()
    }
}

#[derive(Clone, PartialEq, Default, Debug)]
pub struct Account {
    pub code: H,
    pub bal: u64,
    pub g_acc: u64,
    pub g_xfer: u64,
    pub gratis: u64,
    pub created: u32,
    pub last: u32,
    pub parent: u32,
    pub storage: BTreeMap<Vec<u8>, Vec<u8>>,
    pub pre: BTreeMap<H, Vec<u8>>,
    pub look: BTreeMap<(H, u32), Vec<u32>>,
}
impl Account {
    pub fn items(&self) -> u32 {
        (2 * self.look.len() + self.storage.len()) as u32
    }
    pub fn octets(&self) -> u64 {
        self.look.keys().map(|(_, z)| 81 + *z as u64).sum::<u64>()
            + self.storage.iter().map(|(k, v)| 34 + (k.len() + v.len()) as u64).sum::<u64>()
    }
    pub fn threshold(&self) -> u64 {
        (100u64 + 10 * self.items() as u64 + self.octets()).saturating_sub(self.gratis)
    }
    pub fn meta(&self) -> Vec<u8> {
        let mut w = W::default();
        w.u8(0).b(&self.code).u64(self.bal).u64(self.g_acc).u64(self.g_xfer).u64(self.octets()).u64(self.gratis);
        w.u32(self.items()).u32(self.created).u32(self.last).u32(self.parent);
        w.0
    }
}

#[derive(Clone, PartialEq, Default)]
pub struct VStat(pub [u32; 6]);
#[derive(Clone, PartialEq, Default, Debug)]
pub struct CoreStat {
    pub da: u64,
    pub assurers: u64,
    pub imports: u64,
    pub xn: u64,
    pub xo: u64,
    pub exports: u64,
    pub bundle: u64,
    pub gas: u64,
}
#[derive(Clone, PartialEq, Default, Debug)]
pub struct SvcStat {
    pub pn: u64,
    pub ps: u64,
    pub digests: u64,
    pub gas: u64,
    pub imports: u64,
    pub xn: u64,
    pub xo: u64,
    pub exports: u64,
    pub an: u64,
    pub ag: u64,
}
#[derive(Clone, PartialEq, Default)]
pub struct Stats {
    pub cur: [VStat; V],
    pub prev: [VStat; V],
    pub cores: [CoreStat; C],
    pub svcs: BTreeMap<u32, SvcStat>,
}
#[derive(Clone, PartialEq, Default, Debug)]
pub struct Privs {
    pub manager: u32,
    pub assign: [u32; C],
    pub designate: u32,
    pub registrar: u32,
    pub always: BTreeMap<u32, u64>,
}

#[derive(Clone)]
pub struct St {
    pub pools: [Vec<H>; C],
    pub queues: [Vec<H>; C],
    pub hist: Vec<HistEntry>,
    pub mmr: Vec<Option<H>>,
    pub pending: VSet,
    pub ring_root: [u8; 144],
    pub sealers: Sealers,
    pub acc: Vec<Ticket>,
    pub good: BTreeSet<H>,
    pub bad: BTreeSet<H>,
    pub wonky: BTreeSet<H>,
    pub punish: BTreeSet<H>,
    pub eta: [H; 4],
    pub staging: VSet,
    pub active: VSet,
    pub past: VSet,
    pub rho: [Option<(Report, u32)>; C],
    pub slot: u32,
    pub privs: Privs,
    pub stats: Stats,
    pub ready: Vec<Vec<(Report, BTreeSet<H>)>>,
    pub xi: Vec<BTreeSet<H>>,
    pub theta: BTreeSet<(u32, H)>,
    pub accounts: BTreeMap<u32, Account>,
    /// State entries of services the model does not interpret.
    pub extra: Map,
}

fn hset(w: &mut W, s: &BTreeSet<H>) {
    w.n(s.len() as u64);
    for x in s {
        w.b(x);
    }
}
fn vset(s: &VSet) -> Vec<u8> {
    s.iter().flat_map(|k| k.0).collect()
}
pub fn enc_mmr(w: &mut W, m: &[Option<H>]) {
    w.n(m.len() as u64);
    for p in m {
        match p {
            None => w.u8(0),
            Some(h) => w.u8(1).b(h),
        };
    }
}
impl St {
    pub fn to_map(&self) -> Map {
        let mut m: Map = self.extra.clone();
        let mut put = |i: u8, w: W| {
            m.insert(simple_key(i), w.0);
        };
        let mut w = W::default();
        for p in &self.pools {
            w.n(p.len() as u64);
            for h in p {
                w.b(h);
            }
        }
        put(1, w);
        let mut w = W::default();
        for q in &self.queues {
            for h in q {
                w.b(h);
            }
        }
        put(2, w);
        let mut w = W::default();
        w.n(self.hist.len() as u64);
        for e in &self.hist {
            w.b(&e.hash).b(&e.mmr).b(&e.root).n(e.pkgs.len() as u64);
            for (a, b) in &e.pkgs {
                w.b(a).b(b);
            }
        }
        enc_mmr(&mut w, &self.mmr);
        put(3, w);
        let mut w = W::default();
        w.b(&vset(&self.pending)).b(&self.ring_root);
        match &self.sealers {
            Sealers::Tickets(t) => {
                w.u8(0);
                for t in t {
                    w.b(&t.id).u8(t.attempt);
                }
            }
            Sealers::Keys(k) => {
                w.u8(1);
                for k in k {
                    w.b(k);
                }
            }
        }
        w.n(self.acc.len() as u64);
        for t in &self.acc {
            w.b(&t.id).u8(t.attempt);
        }
        put(4, w);
        let mut w = W::default();
        for s in [&self.good, &self.bad, &self.wonky, &self.punish] {
            hset(&mut w, s);
        }
        put(5, w);
        put(6, W(self.eta.concat()));
        put(7, W(vset(&self.staging)));
        put(8, W(vset(&self.active)));
        put(9, W(vset(&self.past)));
        let mut w = W::default();
        for r in &self.rho {
            match r {
                None => {
                    w.u8(0);
                }
                Some((r, t)) => {
                    w.u8(1);
                    r.enc(&mut w);
                    w.u32(*t);
                }
            }
        }
        put(10, w);
        put(11, W(self.slot.to_le_bytes().to_vec()));
        let mut w = W::default();
        w.u32(self.privs.manager);
        for a in self.privs.assign {
            w.u32(a);
        }
        w.u32(self.privs.designate).u32(self.privs.registrar).n(self.privs.always.len() as u64);
        for (s, g) in &self.privs.always {
            w.n(*s as u64).n(*g);
        }
        put(12, w);
        put(13, self.enc_stats());
        let mut w = W::default();
        for slot in &self.ready {
            w.n(slot.len() as u64);
            for (r, d) in slot {
                r.enc(&mut w);
                hset(&mut w, d);
            }
        }
        put(14, w);
        let mut w = W::default();
        for s in &self.xi {
            hset(&mut w, s);
        }
        put(15, w);
        let mut w = W::default();
        w.n(self.theta.len() as u64);
        for (s, h) in &self.theta {
            w.u32(*s).b(h);
        }
        put(16, w);
        for (s, a) in &self.accounts {
            m.insert(meta_key(*s), a.meta());
            for (k, v) in &a.storage {
                m.insert(storage_key(*s, k), v.clone());
            }
            for (h, v) in &a.pre {
                m.insert(preimage_key(*s, h), v.clone());
            }
            for ((h, z), t) in &a.look {
                let mut w = W::default();
                w.n(t.len() as u64);
                for t in t {
                    w.u32(*t);
                }
                m.insert(lookup_key(*s, h, *z), w.0);
            }
        }
        m
    }
    pub fn enc_stats(&self) -> W {
        let mut w = W::default();
        for set in [&self.stats.cur, &self.stats.prev] {
            for v in set {
                for x in v.0 {
                    w.u32(x);
                }
            }
        }
        for c in &self.stats.cores {
            for x in [c.da, c.assurers, c.imports, c.xn, c.xo, c.exports, c.bundle, c.gas] {
                w.n(x);
            }
        }
        w.n(self.stats.svcs.len() as u64);
        for (s, v) in &self.stats.svcs {
            w.u32(*s);
            for x in [v.pn, v.ps, v.digests, v.gas, v.imports, v.xn, v.xo, v.exports, v.an, v.ag] {
                w.n(x);
            }
        }
        w
    }
    pub fn root(&self) -> H {
        trie_root(&self.to_map())
    }
}

// --- blocks ---
/// An Ed25519 signature: who made it, over what; `bad` flips a bit of it.
#[derive(Clone, Debug)]
pub struct Sig {
    pub signer: usize,
    pub msg: Vec<u8>,
    pub bad: bool,
}
impl Sig {
    pub fn new(signer: usize, parts: &[&[u8]]) -> Self {
        Sig { signer, msg: parts.concat(), bad: false }
    }
    pub fn ok(&self, key: &H, msg: &[u8]) -> bool {
        !self.bad && self.msg == msg && pool().keys[self.signer].ed() == *key
    }
    pub fn bytes(&self) -> [u8; 64] {
        let mut b = ed_sign(self.signer, &self.msg);
        if self.bad {
            b[5] ^= 1;
        }
        b
    }
}
#[derive(Clone, Debug)]
pub struct Vrf {
    pub signer: usize,
    pub input: Vec<u8>,
    pub aux: Vec<u8>,
    pub bad: bool,
}
impl Vrf {
    pub fn out(&self) -> H {
        vrf_output(self.signer, &self.input)
    }
    pub fn ok(&self, key: &H, input: &[u8], aux: &[u8]) -> bool {
        !self.bad && pool().keys[self.signer].band() == *key && self.input == input && self.aux == aux
    }
    pub fn bytes(&self) -> [u8; 96] {
        let mut b = vrf_sign(self.signer, &self.input, &self.aux);
        if self.bad {
            b[90] ^= 1;
        }
        b
    }
}
#[derive(Clone, Debug)]
pub struct TicketXt {
    pub attempt: u8,
    pub proof: Vec<u8>,
    pub id: H,
    /// The ring's Bandersnatch keys and the input the proof was made for.
    pub ring: [H; V],
    pub input: Vec<u8>,
    pub bad: bool,
}
#[derive(Clone, Debug)]
pub struct Guarantee {
    pub report: Report,
    pub slot: u32,
    pub creds: Vec<(u16, Sig)>,
}
#[derive(Clone, Debug)]
pub struct Assurance {
    pub anchor: H,
    pub bits: u8,
    pub validator: u16,
    pub sig: Sig,
}
#[derive(Clone, Debug)]
pub struct Verdict {
    pub hash: H,
    pub epoch: u32,
    pub votes: Vec<(bool, u16, Sig)>,
}
#[derive(Clone, Debug)]
pub struct Culprit {
    pub hash: H,
    pub key: H,
    pub sig: Sig,
}
#[derive(Clone, Debug)]
pub struct Fault {
    pub hash: H,
    pub valid: bool,
    pub key: H,
    pub sig: Sig,
}
#[derive(Clone, Debug, Default)]
pub struct Ext {
    pub tickets: Vec<TicketXt>,
    pub preimages: Vec<(u32, Vec<u8>)>,
    pub guarantees: Vec<Guarantee>,
    pub assurances: Vec<Assurance>,
    pub verdicts: Vec<Verdict>,
    pub culprits: Vec<Culprit>,
    pub faults: Vec<Fault>,
}
impl Ext {
    fn parts(&self) -> [Vec<u8>; 5] {
        let mut t = W::default();
        t.n(self.tickets.len() as u64);
        for x in &self.tickets {
            t.u8(x.attempt);
            let mut p = x.proof.clone();
            if x.bad {
                p[700] ^= 1;
            }
            t.b(&p);
        }
        let mut p = W::default();
        p.n(self.preimages.len() as u64);
        for (s, b) in &self.preimages {
            p.u32(*s).lb(b);
        }
        let mut a = W::default();
        a.n(self.assurances.len() as u64);
        for x in &self.assurances {
            a.b(&x.anchor).u8(x.bits).u16(x.validator).b(&x.sig.bytes());
        }
        let mut d = W::default();
        d.n(self.verdicts.len() as u64);
        for v in &self.verdicts {
            d.b(&v.hash).u32(v.epoch);
            for (b, i, s) in &v.votes {
                d.u8(*b as u8).u16(*i).b(&s.bytes());
            }
        }
        d.n(self.culprits.len() as u64);
        for c in &self.culprits {
            d.b(&c.hash).b(&c.key).b(&c.sig.bytes());
        }
        d.n(self.faults.len() as u64);
        for f in &self.faults {
            d.b(&f.hash).u8(f.valid as u8).b(&f.key).b(&f.sig.bytes());
        }
        [t.0, p.0, self.guarantees(false), a.0, d.0]
    }
    fn guarantees(&self, hashed: bool) -> Vec<u8> {
        let mut g = W::default();
        g.n(self.guarantees.len() as u64);
        for x in &self.guarantees {
            if hashed {
                g.b(&x.report.hash());
            } else {
                x.report.enc(&mut g);
            }
            g.u32(x.slot).n(x.creds.len() as u64);
            for (i, s) in &x.creds {
                g.u16(*i).b(&s.bytes());
            }
        }
        g.0
    }
    pub fn bytes(&self) -> Vec<u8> {
        self.parts().concat()
    }
    pub fn hash(&self) -> H {
        let p = self.parts();
        let g = self.guarantees(true);
        hash(&[&blake(&p[0]), &blake(&p[1]), &blake(&g), &blake(&p[3]), &blake(&p[4])])
    }
    pub fn offenders(&self) -> Vec<H> {
        self.culprits.iter().map(|c| c.key).chain(self.faults.iter().map(|f| f.key)).collect()
    }
}
#[derive(Clone, PartialEq, Debug)]
pub struct EpochMark {
    pub eta0: H,
    pub eta1: H,
    pub keys: Vec<(H, H)>,
}
#[derive(Clone, Debug)]
pub struct Blk {
    pub parent: H,
    pub prior_root: H,
    pub xt_hash: H,
    pub slot: u32,
    pub epoch_mark: Option<EpochMark>,
    pub win_mark: Option<Vec<Ticket>>,
    pub author: u16,
    pub vrf: Vrf,
    pub offenders: Vec<H>,
    pub seal: Vrf,
    pub ext: Ext,
}
impl Blk {
    pub fn header_data(&self) -> Vec<u8> {
        let mut w = W::default();
        w.b(&self.parent).b(&self.prior_root).b(&self.xt_hash).u32(self.slot);
        match &self.epoch_mark {
            None => w.u8(0),
            Some(m) => {
                w.u8(1).b(&m.eta0).b(&m.eta1);
                for (a, b) in &m.keys {
                    w.b(a).b(b);
                }
                &mut w
            }
        };
        match &self.win_mark {
            None => w.u8(0),
            Some(t) => {
                w.u8(1);
                for t in t {
                    w.b(&t.id).u8(t.attempt);
                }
                &mut w
            }
        };
        w.u16(self.author).b(&self.vrf.bytes()).n(self.offenders.len() as u64);
        for o in &self.offenders {
            w.b(o);
        }
        w.0
    }
    pub fn header(&self) -> Vec<u8> {
        let mut h = self.header_data();
        h.extend(self.seal.bytes());
        h
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut b = self.header();
        b.extend(self.ext.bytes());
        b
    }
    pub fn hash(&self) -> H {
        blake(&self.header())
    }
}

// --- rules ---
pub const X_A: &[u8] = b"jam_available";
pub const X_E: &[u8] = b"jam_entropy";
pub const X_F: &[u8] = b"jam_fallback_seal";
pub const X_G: &[u8] = b"jam_guarantee";
pub const X_T: &[u8] = b"jam_ticket_seal";
pub const X_1: &[u8] = b"jam_valid";
pub const X_0: &[u8] = b"jam_invalid";

pub fn outside_in<T: Clone>(v: &[T]) -> Vec<T> {
    let mut out = vec![];
    let (mut i, mut j) = (0usize, v.len());
    while i < j {
        out.push(v[i].clone());
        i += 1;
        if i < j {
            j -= 1;
            out.push(v[j].clone());
        }
    }
    out
}
pub fn fallback_keys(eta: &H, k: &VSet) -> Vec<H> {
    (0..E)
        .map(|i| {
            let h = hash(&[eta, &i.to_le_bytes()]);
            k[u32::from_le_bytes(h[..4].try_into().unwrap()) as usize % V].band()
        })
        .collect()
}
pub fn nulled(s: &VSet, punish: &BTreeSet<H>) -> VSet {
    let mut s = *s;
    for k in s.iter_mut() {
        if punish.contains(&k.ed()) {
            *k = VKey::NULL;
        }
    }
    s
}
pub fn bands(s: &VSet) -> [H; V] {
    std::array::from_fn(|i| s[i].band())
}
fn shuffle(mut s: Vec<u16>, h: &H) -> Vec<u16> {
    let mut out = vec![];
    let l = s.len();
    for i in 0..l {
        let x = hash(&[h, &((i / 8) as u32).to_le_bytes()]);
        let o = 4 * i % 32;
        let r = u32::from_le_bytes(x[o..o + 4].try_into().unwrap());
        let n = l - i;
        let j = r as usize % n;
        out.push(s[j]);
        s[j] = s[n - 1];
    }
    out
}
/// Core of every validator for a guarantee made at the rotation of slot `t`.
pub fn permute(eta: &H, t: u32) -> Vec<u16> {
    let base = (0..V).map(|i| (C * i / V) as u16).collect();
    shuffle(base, eta).into_iter().map(|c| ((c as u32 + (t % E) / R) % C as u32) as u16).collect()
}
pub fn mmr_append(m: &mut Vec<Option<H>>, leaf: H) {
    let mut l = leaf;
    let mut i = 0;
    loop {
        if i == m.len() {
            m.push(Some(l));
            return;
        }
        match m[i].take() {
            None => {
                m[i] = Some(l);
                return;
            }
            Some(p) => l = keccak(&[&p, &l]),
        }
        i += 1;
    }
}
pub fn mmr_super_peak(m: &[Option<H>]) -> H {
    let mut it = m.iter().flatten();
    let Some(first) = it.next() else { return [0; 32] };
    it.fold(*first, |acc, p| keccak(&[b"peak", &acc, p]))
}
fn tree_node(v: &[Vec<u8>]) -> Vec<u8> {
    match v.len() {
        0 => vec![0; 32],
        1 => v[0].clone(),
        n => {
            let (l, r) = v.split_at(n.div_ceil(2));
            keccak(&[b"node", &tree_node(l), &tree_node(r)]).to_vec()
        }
    }
}
pub fn accumulate_root(theta: &BTreeSet<(u32, H)>) -> H {
    let v: Vec<Vec<u8>> = theta.iter().map(|(s, h)| [&s.to_le_bytes()[..], h].concat()).collect();
    if v.len() == 1 {
        return keccak(&[&v[0]]);
    }
    tree_node(&v).try_into().unwrap()
}

pub trait Env {
    /// Ring root of a set of Bandersnatch keys.
    fn ring_root(&self, keys: &[H; V]) -> [u8; 144];
    /// The node clock, in slots.
    fn now(&self) -> u32;
    fn with_ancestors(&self) -> Option<&BTreeSet<(u32, H)>> {
        None
    }
}

/// The state after the first half of the transition: everything the header depends on.
pub struct Phase1 {
    pub st: St,
    pub epoch_mark: Option<EpochMark>,
    pub win_mark: Option<Vec<Ticket>>,
    pub offenders: Vec<H>,
}
pub type Rej = &'static str;

pub struct Verdicts {
    pub good: Vec<H>,
    pub bad: Vec<H>,
    pub wonky: Vec<H>,
}
fn strictly<T: Ord>(v: impl IntoIterator<Item = T>) -> bool {
    let v: Vec<T> = v.into_iter().collect();
    v.windows(2).all(|w| w[0] < w[1])
}
pub fn check_disputes(s: &St, x: &Ext) -> Result<Verdicts, Rej> {
    let mut out = Verdicts { good: vec![], bad: vec![], wonky: vec![] };
    if !strictly(x.verdicts.iter().map(|v| v.hash)) {
        return Err("verdict-order");
    }
    if !strictly(x.culprits.iter().map(|v| v.key)) {
        return Err("culprit-order");
    }
    if !strictly(x.faults.iter().map(|v| v.key)) {
        return Err("fault-order");
    }
    let epoch = s.slot / E;
    for v in &x.verdicts {
        let set = if v.epoch == epoch {
            &s.active
        } else if epoch > 0 && v.epoch == epoch - 1 {
            &s.past
        } else {
            return Err("verdict-age");
        };
        if s.good.contains(&v.hash) || s.bad.contains(&v.hash) || s.wonky.contains(&v.hash) {
            return Err("verdict-again");
        }
        if !strictly(v.votes.iter().map(|v| v.1)) {
            return Err("vote-order");
        }
        for (valid, i, sig) in &v.votes {
            let Some(k) = set.get(*i as usize) else { return Err("vote-index") };
            let m = [if *valid { X_1 } else { X_0 }, &v.hash].concat();
            if !sig.ok(&k.ed(), &m) {
                return Err("vote-signature");
            }
        }
        match v.votes.iter().filter(|v| v.0).count() {
            5 => {
                if !x.faults.iter().any(|f| f.hash == v.hash) {
                    return Err("good-without-fault");
                }
                out.good.push(v.hash)
            }
            0 => {
                if x.culprits.iter().filter(|c| c.hash == v.hash).count() < 2 {
                    return Err("bad-without-culprits");
                }
                out.bad.push(v.hash)
            }
            2 => out.wonky.push(v.hash),
            _ => return Err("vote-count"),
        }
    }
    let known: BTreeSet<H> =
        s.active.iter().chain(&s.past).map(|k| k.ed()).filter(|k| !s.punish.contains(k)).collect();
    for c in &x.culprits {
        if !out.bad.contains(&c.hash) {
            return Err("culprit-verdict");
        }
        if !known.contains(&c.key) {
            return Err("culprit-key");
        }
        if !c.sig.ok(&c.key, &[X_G, &c.hash].concat()) {
            return Err("culprit-signature");
        }
    }
    for f in &x.faults {
        let wrong = if out.bad.contains(&f.hash) {
            f.valid
        } else if out.good.contains(&f.hash) {
            !f.valid
        } else {
            false
        };
        if !wrong {
            return Err("fault-verdict");
        }
        if !known.contains(&f.key) {
            return Err("fault-key");
        }
        if !f.sig.ok(&f.key, &[if f.valid { X_1 } else { X_0 }, &f.hash].concat()) {
            return Err("fault-signature");
        }
    }
    Ok(out)
}

pub fn phase1(p: &St, slot: u32, x: &Ext, env: &dyn Env) -> Result<Phase1, Rej> {
    let mut s = p.clone();
    s.slot = slot;
    let (e0, e1) = (p.slot / E, slot / E);
    let (m0, m1) = (p.slot % E, slot % E);
    let v = check_disputes(p, x)?;
    s.good.extend(v.good);
    s.bad.extend(v.bad);
    s.wonky.extend(v.wonky);
    let offenders = x.offenders();
    s.punish.extend(offenders.iter().copied());
    if e1 > e0 {
        s.eta = [p.eta[0], p.eta[0], p.eta[1], p.eta[2]];
        s.past = p.active;
        s.active = p.pending;
        s.pending = nulled(&p.staging, &s.punish);
        s.ring_root = env.ring_root(&bands(&s.pending));
        s.sealers = if e1 == e0 + 1 && m0 >= Y && p.acc.len() == E as usize {
            Sealers::Tickets(outside_in(&p.acc))
        } else {
            Sealers::Keys(fallback_keys(&s.eta[2], &s.active))
        };
        s.acc.clear();
    }
    let mut epoch_mark = None;
    if e1 > e0 {
        epoch_mark = Some(EpochMark {
            eta0: p.eta[0],
            eta1: p.eta[1],
            keys: s.pending.iter().map(|k| (k.band(), k.ed())).collect(),
        });
    }
    let win_mark = (e1 == e0 && m0 < Y && m1 >= Y && p.acc.len() == E as usize).then(|| outside_in(&p.acc));
    // tickets
    if !x.tickets.is_empty() {
        if m1 >= Y {
            return Err("ticket-late");
        }
        if x.tickets.len() > 3 {
            return Err("ticket-count");
        }
        let ring = bands(&s.pending);
        for t in &x.tickets {
            if t.attempt >= 3 {
                return Err("ticket-attempt");
            }
            if t.bad || t.ring != ring || t.input != [X_T, &s.eta[2], &[t.attempt]].concat() {
                return Err("ticket-proof");
            }
        }
        if !strictly(x.tickets.iter().map(|t| t.id)) {
            return Err("ticket-order");
        }
        for t in &x.tickets {
            if s.acc.iter().any(|a| a.id == t.id) {
                return Err("ticket-duplicate");
            }
            s.acc.push(Ticket { id: t.id, attempt: t.attempt });
        }
        s.acc.sort();
        s.acc.truncate(E as usize);
        if x.tickets.iter().any(|t| !s.acc.iter().any(|a| a.id == t.id)) {
            return Err("ticket-useless");
        }
    }
    Ok(Phase1 { st: s, epoch_mark, win_mark, offenders })
}
/// Input of the seal of a block in `s`'s slot, and the key that must make it if that is fixed.
pub fn seal_input(s: &St) -> (Vec<u8>, Option<H>, Option<Ticket>) {
    let i = (s.slot % E) as usize;
    match &s.sealers {
        Sealers::Tickets(t) => ([X_T, &s.eta[3], &[t[i].attempt]].concat(), None, Some(t[i].clone())),
        Sealers::Keys(k) => ([X_F, &s.eta[3]].concat(), Some(k[i]), None),
    }
}

pub fn edit_queue(q: &[(Report, BTreeSet<H>)], x: &BTreeSet<H>) -> Vec<(Report, BTreeSet<H>)> {
    q.iter()
        .filter(|(r, _)| !x.contains(&r.wp))
        .map(|(r, d)| (r.clone(), d.difference(x).copied().collect()))
        .collect()
}
pub fn resolve(q: &[(Report, BTreeSet<H>)]) -> Vec<Report> {
    let mut q = q.to_vec();
    let mut out = vec![];
    loop {
        let free = |i: &(Report, BTreeSet<H>)| i.1.is_empty();
        let g: Vec<Report> = q.iter().filter(|i| free(i)).map(|(r, _)| r.clone()).collect();
        if g.is_empty() {
            return out;
        }
        if g.len() > 1 {
            simrt::count("chain.released_together");
            // the next in the queue only waits for this one, and another that does not wait stands behind it
            let last = q.iter().rposition(free).unwrap_or(0);
            let done = |i: usize| q[..i].iter().filter(|i| free(i)).map(|i| i.0.wp).collect::<BTreeSet<H>>();
            if (0..last).any(|i| !free(&q[i]) && q[i].1.is_subset(&done(i))) {
                simrt::count("chain.overtaken_in_queue");
            }
        }
        let p: BTreeSet<H> = g.iter().map(|r| r.wp).collect();
        q = edit_queue(&q, &p);
        out.extend(g);
    }
}

/// Checks everything about a block except its extrinsics' second half; returns the phase-1 state.
pub fn check_header(p: &St, head: &H, root: &H, b: &Blk, env: &dyn Env) -> Result<Phase1, Rej> {
    if b.slot <= p.slot {
        return Err("slot-past");
    }
    if b.slot > env.now() {
        return Err("slot-future");
    }
    if b.parent != *head {
        return Err("parent");
    }
    if b.prior_root != *root {
        return Err("prior-root");
    }
    if b.xt_hash != b.ext.hash() {
        return Err("xt-hash");
    }
    let ph = phase1(p, b.slot, &b.ext, env)?;
    let Some(k) = ph.st.active.get(b.author as usize) else { return Err("author-index") };
    let (input, key, ticket) = seal_input(&ph.st);
    if let Some(key) = key {
        if key != k.band() {
            return Err("author-turn");
        }
    }
    if !b.seal.ok(&k.band(), &input, &b.header_data()) {
        return Err("seal");
    }
    if let Some(t) = ticket {
        if t.id != b.seal.out() {
            return Err("author-ticket");
        }
    }
    if !b.vrf.ok(&k.band(), &[X_E, &b.seal.out()].concat(), &[]) {
        return Err("entropy-vrf");
    }
    if b.epoch_mark != ph.epoch_mark {
        return Err("epoch-mark");
    }
    if b.win_mark != ph.win_mark {
        return Err("winning-mark");
    }
    if b.offenders != ph.offenders {
        return Err("offenders-mark");
    }
    Ok(ph)
}

pub struct Accumulated {
    pub count: usize,
}

pub fn check_guarantee(p: &St, s: &St, x: &Ext, g: &Guarantee, env: &dyn Env) -> Result<Vec<H>, Rej> {
    let r = &g.report;
    let out: usize = r.auth_trace.len()
        + r.digests.iter().map(|d| if let WorkResult::Ok(b) = &d.result { b.len() } else { 0 }).sum::<usize>();
    if out > 48 * 1024 {
        return Err("report-size");
    }
    if r.gas() > 10_000_000 {
        return Err("report-gas");
    }
    for d in &r.digests {
        let Some(a) = p.accounts.get(&d.service) else { return Err("report-service") };
        if d.gas < a.g_acc {
            return Err("report-service-gas");
        }
        if d.code != a.code {
            return Err("report-code");
        }
    }
    let c = r.core as usize;
    if c >= C {
        return Err("report-core");
    }
    if s.rho[c].is_some() {
        return Err("report-core-busy");
    }
    if !p.pools[c].contains(&r.auth) {
        return Err("report-authoriser");
    }
    // `s.hist` is β with the parent's state root filled in and without this block's entry.
    let Some(h) = s.hist.iter().find(|h| h.hash == r.anchor) else { return Err("report-anchor") };
    if h.root != r.anchor_state || h.mmr != r.anchor_beefy {
        return Err("report-anchor-roots");
    }
    if (r.lookup_slot as u64) + (L as u64) < s.slot as u64 {
        return Err("report-lookup-age");
    }
    if let Some(a) = env.with_ancestors() {
        if !a.contains(&(r.lookup_slot, r.lookup_anchor)) {
            return Err("report-lookup-anchor");
        }
    }
    if p.hist.iter().any(|h| h.pkgs.iter().any(|k| k.0 == r.wp)) {
        return Err("report-in-history");
    }
    if p.xi.iter().any(|x| x.contains(&r.wp))
        || p.ready.iter().flatten().any(|(q, _)| q.wp == r.wp)
        || p.rho.iter().flatten().any(|(q, _)| q.wp == r.wp)
    {
        return Err("report-in-pipeline");
    }
    if r.prereqs.len() + r.lookup.len() > 8 {
        return Err("report-dependencies");
    }
    let mut seen: BTreeMap<H, H> = BTreeMap::new();
    for (a, b) in p.hist.iter().flat_map(|h| &h.pkgs) {
        seen.insert(*a, *b);
    }
    for g in &x.guarantees {
        seen.insert(g.report.wp, g.report.seg_root);
    }
    if r.lookup.iter().any(|(k, v)| seen.get(k) != Some(v)) {
        return Err("report-segment-lookup");
    }
    if r.prereqs.iter().any(|k| !seen.contains_key(k)) {
        return Err("report-prerequisite");
    }
    // credentials
    if g.creds.len() < 2 || g.creds.len() > 3 {
        return Err("guarantor-count");
    }
    if !strictly(g.creds.iter().map(|c| c.0)) {
        return Err("guarantor-order");
    }
    if g.slot > s.slot {
        return Err("guarantee-future");
    }
    if g.slot < R * (s.slot / R).saturating_sub(1) {
        return Err("guarantee-old");
    }
    let (cores, set) = assignment(s, g.slot);
    let msg = [X_G, &r.hash()].concat();
    let mut keys = vec![];
    for (i, sig) in &g.creds {
        let Some(k) = set.get(*i as usize) else { return Err("guarantor-index") };
        if *k == VKey::NULL {
            return Err("guarantor-banned");
        }
        if !sig.ok(&k.ed(), &msg) {
            return Err("guarantor-signature");
        }
        if cores[*i as usize] != r.core {
            return Err("guarantor-core");
        }
        keys.push(k.ed());
    }
    Ok(keys)
}
pub fn assignment(s: &St, gslot: u32) -> (Vec<u16>, VSet) {
    if gslot / R == s.slot / R {
        (permute(&s.eta[2], s.slot), nulled(&s.active, &s.punish))
    } else {
        let t = s.slot.saturating_sub(R);
        if t / E == s.slot / E {
            (permute(&s.eta[2], t), nulled(&s.active, &s.punish))
        } else {
            (permute(&s.eta[3], t), nulled(&s.past, &s.punish))
        }
    }
}

/// Full import of a block on top of (`p`, its header hash, its root).
pub fn apply(p: &St, head: &H, root: &H, b: &Blk, env: &dyn Env, acc: &mut dyn super::acc::Accumulator) -> Result<St, Rej> {
    let ph = check_header(p, head, root, b, env)?;
    let mut s = ph.st;
    let x = &b.ext;
    if let Some(h) = s.hist.last_mut() {
        h.root = b.prior_root;
    }
    s.eta[0] = hash(&[&s.eta[0], &b.vrf.out()]);
    // ρ†
    let judged: BTreeSet<H> = x
        .verdicts
        .iter()
        .filter(|v| v.votes.iter().filter(|v| v.0).count() != 5)
        .map(|v| v.hash)
        .collect();
    for r in s.rho.iter_mut() {
        if r.as_ref().is_some_and(|(r, _)| judged.contains(&r.hash())) {
            *r = None;
        }
    }
    // assurances
    if !strictly(x.assurances.iter().map(|a| a.validator)) {
        return Err("assurance-order");
    }
    for a in &x.assurances {
        if a.anchor != b.parent {
            return Err("assurance-anchor");
        }
        let Some(k) = p.active.get(a.validator as usize) else { return Err("assurance-index") };
        if !a.sig.ok(&k.ed(), &[X_A, &hash(&[&b.parent, &[a.bits]])].concat()) {
            return Err("assurance-signature");
        }
        for c in 0..C {
            if a.bits >> c & 1 == 1 && s.rho[c].is_none() {
                return Err("assurance-core");
            }
        }
        if a.bits >> C != 0 {
            return Err("assurance-padding");
        }
    }
    let mut avail = vec![];
    for c in 0..C {
        if x.assurances.iter().filter(|a| a.bits >> c & 1 == 1).count() >= 5 {
            avail.push(s.rho[c].clone().unwrap().0);
            s.rho[c] = None;
        } else if s.rho[c].as_ref().is_some_and(|(_, t)| s.slot >= t + U) {
            s.rho[c] = None;
        }
    }
    // guarantees
    if !strictly(x.guarantees.iter().map(|g| g.report.core)) {
        return Err("guarantee-order");
    }
    let wps: BTreeSet<H> = x.guarantees.iter().map(|g| g.report.wp).collect();
    if wps.len() != x.guarantees.len() {
        return Err("guarantee-duplicate");
    }
    let mut reporters: BTreeSet<H> = BTreeSet::new();
    for g in &x.guarantees {
        reporters.extend(check_guarantee(p, &s, x, g, env)?);
    }
    for g in &x.guarantees {
        s.rho[g.report.core as usize] = Some((g.report.clone(), s.slot));
    }
    // preimages, against the prior state
    if !strictly(x.preimages.iter()) {
        return Err("preimage-order");
    }
    for (sv, d) in &x.preimages {
        let (h, z) = (blake(d), d.len() as u32);
        let Some(a) = p.accounts.get(sv) else { return Err("preimage-unsolicited") };
        if a.pre.contains_key(&h) || a.look.get(&(h, z)).is_none_or(|l| !l.is_empty()) {
            return Err("preimage-unsolicited");
        }
    }
    // accumulation
    let xi_all: BTreeSet<H> = p.xi.iter().flatten().copied().collect();
    let now: Vec<Report> = avail.iter().filter(|r| r.deps().is_empty()).cloned().collect();
    let later: Vec<(Report, BTreeSet<H>)> =
        avail.iter().filter(|r| !r.deps().is_empty()).map(|r| (r.clone(), r.deps())).collect();
    let wq = edit_queue(&later, &xi_all);
    let m = (s.slot % E) as usize;
    let mut q: Vec<(Report, BTreeSet<H>)> = p.ready[m..].iter().chain(&p.ready[..m]).flatten().cloned().collect();
    q.extend(wq.iter().cloned());
    let q = edit_queue(&q, &now.iter().map(|r| r.wp).collect());
    let mut star = now;
    star.extend(resolve(&q));
    let out = acc.run(&mut s, &star)?;
    let done: BTreeSet<H> = star[..out.count].iter().map(|r| r.wp).collect();
    s.xi.remove(0);
    s.xi.push(done.clone());
    let gap = s.slot - p.slot;
    for i in 0..E {
        let k = ((m as u32 + E - i) % E) as usize;
        s.ready[k] = if i == 0 {
            edit_queue(&wq, &done)
        } else if i < gap {
            vec![]
        } else {
            edit_queue(&p.ready[k], &done)
        };
    }
    s.theta = out.theta;
    // preimages still wanted
    for (sv, d) in &x.preimages {
        let (h, z) = (blake(d), d.len() as u32);
        if let Some(a) = s.accounts.get_mut(sv) {
            if !a.pre.contains_key(&h) && a.look.get(&(h, z)).is_some_and(|l| l.is_empty()) {
                a.pre.insert(h, d.clone());
                a.look.insert((h, z), vec![s.slot]);
            }
        }
    }
    for sv in out.stats.keys() {
        if let Some(a) = s.accounts.get_mut(sv) {
            a.last = s.slot;
        }
    }
    // authorisations
    for c in 0..C {
        if let Some(g) = x.guarantees.iter().find(|g| g.report.core as usize == c) {
            if let Some(i) = s.pools[c].iter().position(|h| *h == g.report.auth) {
                s.pools[c].remove(i);
            }
        }
        let h = s.queues[c][s.slot as usize % Q];
        s.pools[c].push(h);
        if s.pools[c].len() > 8 {
            s.pools[c].remove(0);
        }
    }
    // statistics
    if s.slot / E > p.slot / E {
        s.stats.prev = std::mem::take(&mut s.stats.cur);
    }
    let a = &mut s.stats.cur[b.author as usize].0;
    a[0] += 1;
    a[1] += x.tickets.len() as u32;
    a[2] += x.preimages.len() as u32;
    a[3] += x.preimages.iter().map(|p| p.1.len() as u32).sum::<u32>();
    for i in 0..V {
        if reporters.contains(&s.active[i].ed()) {
            s.stats.cur[i].0[4] += 1;
        }
        if x.assurances.iter().any(|a| a.validator as usize == i) {
            s.stats.cur[i].0[5] += 1;
        }
    }
    s.stats.cores = Default::default();
    s.stats.svcs = Default::default();
    for g in &x.guarantees {
        let c = &mut s.stats.cores[g.report.core as usize];
        c.bundle += g.report.bundle_len as u64;
        for d in &g.report.digests {
            c.gas += d.st[0];
            c.imports += d.st[1];
            c.xn += d.st[2];
            c.xo += d.st[3];
            c.exports += d.st[4];
            let v = s.stats.svcs.entry(d.service).or_default();
            v.digests += 1;
            v.gas += d.st[0];
            v.imports += d.st[1];
            v.xn += d.st[2];
            v.xo += d.st[3];
            v.exports += d.st[4];
        }
    }
    for r in &avail {
        s.stats.cores[r.core as usize].da += r.bundle_len as u64 + 4104 * (r.seg_count as u64 * 65).div_ceil(64);
    }
    for c in 0..C {
        s.stats.cores[c].assurers = x.assurances.iter().filter(|a| a.bits >> c & 1 == 1).count() as u64;
    }
    for (sv, d) in &x.preimages {
        let v = s.stats.svcs.entry(*sv).or_default();
        v.pn += 1;
        v.ps += d.len() as u64;
    }
    for (sv, (g, n)) in &out.stats {
        let v = s.stats.svcs.entry(*sv).or_default();
        v.ag += g;
        v.an += n;
    }
    // history
    mmr_append(&mut s.mmr, accumulate_root(&s.theta));
    let mut pkgs: Vec<(H, H)> = x.guarantees.iter().map(|g| (g.report.wp, g.report.seg_root)).collect();
    pkgs.sort();
    s.hist.push(HistEntry { hash: b.hash(), mmr: mmr_super_peak(&s.mmr), root: [0; 32], pkgs });
    if s.hist.len() > 8 {
        s.hist.remove(0);
    }
    Ok(s)
}
pub fn component(k: &Key31) -> String {
    if k[1..].iter().all(|b| *b == 0) && k[0] <= 16 {
        return [
            "", "auth-pool", "auth-queue", "history", "safrole", "disputes", "entropy", "staging-set", "active-set",
            "past-set", "pending-reports", "slot", "privileges", "statistics", "ready-queue", "accumulated", "last-outputs",
        ][k[0] as usize]
            .into();
    }
    if k[0] == 255 && k[8..].iter().all(|b| *b == 0) {
        return format!("account-{}", u32::from_le_bytes([k[1], k[3], k[5], k[7]]));
    }
    format!("account-entry-{}", u32::from_le_bytes([k[0], k[2], k[4], k[6]]))
}
