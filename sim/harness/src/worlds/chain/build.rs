//! Genesis states and blocks for the chain world.
use super::super::common::blake;
use super::enc::*;
use super::model::*;
use simrt::Rng;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::OnceLock;

pub const CONFIGS: usize = 6;
/// The fixed part of a genesis configuration: ring proofs were made for it ahead of time.
#[derive(Clone)]
pub struct Config {
    pub active: [usize; V],
    pub past: [usize; V],
    pub pending: [usize; V],
    pub staging: [usize; V],
    pub eta: [H; 4],
}
pub fn config(c: usize) -> Config {
    let mut r = Rng::stream(c as u64 + 1, 77);
    let pick = |r: &mut Rng, from: &[usize]| -> [usize; V] {
        let mut v = from.to_vec();
        std::array::from_fn(|_| v.remove(r.usize(v.len())))
    };
    let all: Vec<usize> = (0..POOL).collect();
    let dev: Vec<usize> = (0..6).collect();
    let active = if c % 2 == 0 { pick(&mut r, &dev) } else { pick(&mut r, &all) };
    let past = pick(&mut r, &all);
    let pending = if c % 3 == 0 { pick(&mut r, &dev) } else { pick(&mut r, &all) };
    let staging = pick(&mut r, &all);
    let eta = std::array::from_fn(|i| hash(&[b"eta", &[c as u8, i as u8]]));
    Config { active, past, pending, staging, eta }
}
pub fn vset(ix: &[usize; V]) -> VSet {
    std::array::from_fn(|i| pool().keys[ix[i]])
}

static PROOFS: &[u8] = include_bytes!("../../../data/tickets.bin");
const PROOF: usize = 784;
/// Proof by member `v` of ring `ring` (0: the genesis pending set under η2, 1: the genesis staging set under η1).
pub fn proof(c: usize, ring: usize, v: usize, attempt: u8) -> Option<&'static [u8]> {
    let i = ((c * 2 + ring) * V + v) * 3 + attempt as usize;
    PROOFS.get(i * PROOF..(i + 1) * PROOF)
}
/// Makes the proof file.
pub fn make_proofs() -> Vec<u8> {
    use ark_vrf::{
        reexports::ark_serialize::{CanonicalDeserialize, CanonicalSerialize},
        ring::Prover as _,
        suites::bandersnatch::{Input, PcsParams, RingProofParams},
    };
    let srs = std::fs::read("/repo/crypto/data/zcash-srs-2-11-uncompressed.bin").expect("srs");
    let pcs = PcsParams::deserialize_uncompressed_unchecked(&mut &srs[..]).expect("pcs");
    let params = RingProofParams::from_pcs_params(V, pcs).expect("params");
    let mut out = vec![];
    for c in 0..CONFIGS {
        let cfg = config(c);
        for ring in 0..2 {
            let (set, eta) = if ring == 0 { (cfg.pending, cfg.eta[2]) } else { (cfg.staging, cfg.eta[1]) };
            let pts: Vec<_> = set.iter().map(|i| pool().band_sk[*i].public().0).collect();
            for v in 0..V {
                let prover = params.prover(params.prover_key(&pts), v);
                for a in 0..3u8 {
                    let sk = &pool().band_sk[set[v]];
                    let input = Input::new(&[X_T, &eta, &[a]].concat()).unwrap();
                    let o = sk.output(input);
                    let proof = sk.prove(input, o, b"", &prover);
                    let mut b = vec![];
                    o.serialize_compressed(&mut b).unwrap();
                    proof.serialize_compressed(&mut b).unwrap();
                    assert_eq!(b.len(), PROOF);
                    out.extend(b);
                }
            }
        }
    }
    out
}

/// Ring roots by Bandersnatch keys, computed with the library itself.
pub struct Rings(std::sync::Mutex<HashMap<[H; V], [u8; 144]>>);
impl Rings {
    pub fn get(&self, keys: &[H; V]) -> [u8; 144] {
        if let Some(r) = self.0.lock().unwrap().get(keys) {
            return *r;
        }
        let r = ring_root(keys);
        self.0.lock().unwrap().insert(*keys, r);
        r
    }
}
pub fn rings() -> &'static Rings {
    static R: OnceLock<Rings> = OnceLock::new();
    R.get_or_init(|| Rings(Default::default()))
}
fn ring_root(keys: &[H; V]) -> [u8; 144] {
    use ark_vrf::{
        reexports::ark_serialize::{CanonicalDeserialize, CanonicalSerialize},
        suites::bandersnatch::{PcsParams, Public, RingProofParams},
    };
    static P: OnceLock<RingProofParams> = OnceLock::new();
    let params = P.get_or_init(|| {
        let srs = include_bytes!("/repo/crypto/data/zcash-srs-2-11-uncompressed.bin");
        let pcs = PcsParams::deserialize_uncompressed_unchecked(&mut &srs[..]).expect("pcs");
        RingProofParams::from_pcs_params(V, pcs).expect("params")
    });
    let pts: Vec<_> = keys
        .iter()
        .map(|k| {
            Public::deserialize_compressed_unchecked(&k[..])
                .unwrap_or(Public::from(RingProofParams::padding_point()))
                .0
        })
        .collect();
    let mut b = vec![];
    params.verifier_key(&pts).commitment().serialize_compressed(&mut b).unwrap();
    b.try_into().unwrap()
}
/// Done once before runs are forked.
pub fn warm_up() {
    pool();
    for c in 0..CONFIGS {
        let cfg = config(c);
        for s in [cfg.pending, cfg.staging] {
            rings().get(&bands(&vset(&s)));
        }
    }
    // the code under test keeps its own parameters
    let mut set = fr_crypto::types::ValidatorKeySet::default();
    for (i, k) in vset(&config(0).pending).iter().enumerate() {
        use fr_common::ByteEncodable;
        set[i].bandersnatch = fr_crypto::types::BandersnatchPubKey::from_slice(&k.band()).unwrap();
    }
    let _ = fr_crypto::vrf::bandersnatch_vrf::RingVrfVerifier::new(&set);
}

/// All tickets members of a set can make for an entropy: (id, attempt, member).
pub fn tickets_of(set: &VSet, eta: &H) -> Vec<(Ticket, usize)> {
    let mut v = vec![];
    for (i, k) in set.iter().enumerate() {
        if let Some(p) = pool().by_band(&k.band()) {
            for a in 0..3u8 {
                v.push((Ticket { id: vrf_output(p, &[X_T, eta, &[a]].concat()), attempt: a }, i));
            }
        }
    }
    v.sort_by(|a, b| a.0.cmp(&b.0));
    v
}
pub fn rand_h(r: &mut Rng) -> H {
    let mut h = [0; 32];
    r.fill(&mut h);
    h
}
/// Authoriser hashes in circulation: few, so that pools repeat them.
pub fn auth_hash(i: usize) -> H {
    hash(&[b"auth", &[i as u8]])
}

/// What a run concentrates on.
#[derive(Clone, Debug)]
pub struct Mix {
    pub tickets: bool,
    pub disputes: bool,
    pub reports: bool,
    pub preimages: bool,
    pub accumulate: bool,
    /// chance (of 100) of a skipped slot, of a jump past epochs
    pub skip: u64,
    pub jump: u64,
    /// chance (of 100) of a broken block before a good one
    pub broken: u64,
    /// Disk errors per 65536 operations during imports.
    pub errs: u32,
    /// Reports pile up behind the one of a core, all along.
    pub pile: bool,
}

pub fn genesis(r: &mut Rng, c: usize, mix: &Mix, privs: Privs, accounts: BTreeMap<u32, Account>) -> St {
    let cfg = config(c);
    let epoch = r.range(2, 9) as u32;
    let phase = match r.below(4) {
        0 => r.below(10) as u32,
        1 => r.range(6, 9) as u32,
        2 => r.range(9, 11) as u32,
        _ => 0,
    };
    let slot = epoch * E + phase;
    let (active, past, pending, staging) = (vset(&cfg.active), vset(&cfg.past), vset(&cfg.pending), vset(&cfg.staging));
    let sealers = if r.chance(2, 5) {
        let mut t = tickets_of(&active, &cfg.eta[3]);
        while t.len() > E as usize {
            let i = r.usize(t.len());
            t.remove(i);
        }
        let t: Vec<Ticket> = t.into_iter().map(|t| t.0).collect();
        Sealers::Tickets(outside_in(&t))
    } else {
        Sealers::Keys(fallback_keys(&cfg.eta[2], &active))
    };
    let mut acc: Vec<Ticket> = vec![];
    if mix.tickets || r.chance(1, 2) {
        let mut t = tickets_of(&pending, &cfg.eta[2]);
        let keep = *r.pick(&[0usize, 3, 8, 10, 11, 12, 12, 12]);
        // leave the better ones for submission, so that there is something to improve
        while t.len() > keep {
            let i = if r.chance(1, 2) { 0 } else { r.usize(t.len()) };
            t.remove(i);
        }
        acc = t.into_iter().map(|t| t.0).collect();
    }
    let mut good = BTreeSet::new();
    let mut bad = BTreeSet::new();
    let mut wonky = BTreeSet::new();
    let mut punish = BTreeSet::new();
    if mix.disputes {
        for s in [&mut good, &mut bad, &mut wonky] {
            for _ in 0..r.below(3) {
                s.insert(rand_h(r));
            }
        }
        if r.chance(1, 3) {
            let k = r.usize(POOL);
            if !cfg.pending.contains(&k) {
                punish.insert(pool().keys[k].ed());
            }
        }
    }
    let mut hist = vec![];
    let mut mmr = vec![];
    for _ in 0..r.below(9) {
        mmr_append(&mut mmr, rand_h(r));
        hist.push(HistEntry {
            hash: rand_h(r),
            mmr: mmr_super_peak(&mmr),
            root: rand_h(r),
            pkgs: (0..r.below(3)).map(|_| (rand_h(r), rand_h(r))).collect(),
        });
    }
    for h in hist.iter_mut() {
        h.pkgs.sort();
    }
    let pools = std::array::from_fn(|_| (0..r.range(1, 8)).map(|_| auth_hash(r.usize(5))).collect());
    let queues = std::array::from_fn(|_| (0..Q).map(|_| auth_hash(r.usize(5))).collect());
    let xi = (0..E).map(|_| if r.chance(1, 3) { BTreeSet::from([rand_h(r)]) } else { BTreeSet::new() }).collect();
    let mut stats = Stats::default();
    if r.chance(1, 2) {
        for v in stats.cur.iter_mut().chain(stats.prev.iter_mut()) {
            for x in v.0.iter_mut() {
                *x = r.below(1000) as u32;
            }
        }
    }
    St {
        pools,
        queues,
        hist,
        mmr,
        ring_root: rings().get(&bands(&pending)),
        pending,
        sealers,
        acc,
        good,
        bad,
        wonky,
        punish,
        eta: cfg.eta,
        staging,
        active,
        past,
        rho: Default::default(),
        slot,
        privs,
        stats,
        ready: vec![vec![]; E as usize],
        xi,
        theta: BTreeSet::new(),
        accounts,
        extra: BTreeMap::new(),
    }
}

/// Fills in everything the rules fix: extrinsic hash, markers, author, entropy signature and seal.
/// None if no known validator can author this slot.
pub fn finish(p: &St, head: &H, root: &H, slot: u32, ext: Ext, env: &dyn Env) -> Option<Blk> {
    let ph = match phase1(p, slot, &ext, env) {
        Ok(ph) => ph,
        // an invalid extrinsic: the header is made as if it were absent
        Err(_) => {
            let mut ph = phase1(p, slot, &Ext::default(), env).ok()?;
            ph.offenders = ext.offenders();
            ph
        }
    };
    let (input, key, ticket) = seal_input(&ph.st);
    let (author, signer) = match (key, ticket) {
        (Some(k), _) => (ph.st.active.iter().position(|a| a.band() == k)?, pool().by_band(&k)?),
        (_, Some(t)) => ph.st.active.iter().enumerate().find_map(|(i, k)| {
            let s = pool().by_band(&k.band())?;
            (vrf_output(s, &input) == t.id).then_some((i, s))
        })?,
        _ => return None,
    };
    let mut b = Blk {
        parent: *head,
        prior_root: *root,
        xt_hash: ext.hash(),
        slot,
        epoch_mark: ph.epoch_mark,
        win_mark: ph.win_mark,
        author: author as u16,
        vrf: Vrf { signer, input: [X_E, &vrf_output(signer, &input)].concat(), aux: vec![], bad: false },
        offenders: ph.offenders,
        seal: Vrf { signer, input, aux: vec![], bad: false },
        ext,
    };
    b.seal.aux = b.header_data();
    Some(b)
}
pub fn wp_hash(r: &mut Rng) -> H {
    blake(&rand_h(r))
}
