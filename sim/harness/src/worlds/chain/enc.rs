//! JAM serialisation and keys, written from the Gray Paper and independent of the code under test.
use super::super::common::{blake, Key31};
use ark_vrf::{
    ietf::Prover as _,
    reexports::ark_serialize::{CanonicalDeserialize, CanonicalSerialize},
    suites::bandersnatch::{Input, Secret},
};
use std::{cell::RefCell, collections::HashMap};

pub type H = [u8; 32];
pub const V: usize = 6;
pub const C: usize = 2;
pub const E: u32 = 12;
pub const Y: u32 = 10;
pub const R: u32 = 4;
pub const U: u32 = 5;
pub const L: u32 = 24;
pub const Q: usize = 80;
pub const POOL: usize = 18;

pub fn hash(parts: &[&[u8]]) -> H {
    blake(&parts.concat())
}
pub fn keccak(parts: &[&[u8]]) -> H {
    use sha3::{Digest, Keccak256};
    let mut k = Keccak256::new();
    for p in parts {
        k.update(p);
    }
    k.finalize().into()
}

#[derive(Default, Clone)]
pub struct W(pub Vec<u8>);
impl W {
    pub fn b(&mut self, x: &[u8]) -> &mut Self {
        self.0.extend_from_slice(x);
        self
    }
    pub fn u8(&mut self, x: u8) -> &mut Self {
        self.0.push(x);
        self
    }
    pub fn u16(&mut self, x: u16) -> &mut Self {
        self.b(&x.to_le_bytes())
    }
    pub fn u32(&mut self, x: u32) -> &mut Self {
        self.b(&x.to_le_bytes())
    }
    pub fn u64(&mut self, x: u64) -> &mut Self {
        self.b(&x.to_le_bytes())
    }
    /// General natural number serialisation.
    pub fn n(&mut self, x: u64) -> &mut Self {
        if x == 0 {
            return self.u8(0);
        }
        for l in 0..8u32 {
            if x < 1u64 << (7 * (l + 1)) {
                let hi = (256 - (1u64 << (8 - l))) + (x >> (8 * l));
                self.u8(hi as u8);
                return self.b(&x.to_le_bytes()[..l as usize]);
            }
        }
        self.u8(255).u64(x)
    }
    pub fn lb(&mut self, x: &[u8]) -> &mut Self {
        self.n(x.len() as u64).b(x)
    }
}

pub fn simple_key(i: u8) -> Key31 {
    let mut k = [0; 31];
    k[0] = i;
    k
}
pub fn meta_key(s: u32) -> Key31 {
    let n = s.to_le_bytes();
    let mut k = [0; 31];
    k[0] = 255;
    for i in 0..4 {
        k[1 + 2 * i] = n[i];
    }
    k
}
pub fn account_key(s: u32, prefix: u32, key: &[u8]) -> Key31 {
    let n = s.to_le_bytes();
    let a = hash(&[&prefix.to_le_bytes(), key]);
    let mut k = [0; 31];
    for i in 0..4 {
        k[2 * i] = n[i];
        k[2 * i + 1] = a[i];
    }
    k[8..].copy_from_slice(&a[4..27]);
    k
}
pub fn storage_key(s: u32, key: &[u8]) -> Key31 {
    account_key(s, u32::MAX, key)
}
pub fn preimage_key(s: u32, h: &H) -> Key31 {
    account_key(s, u32::MAX - 1, h)
}
pub fn lookup_key(s: u32, h: &H, len: u32) -> Key31 {
    account_key(s, len, h)
}

// --- validators ---
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct VKey(pub [u8; 336]);
impl VKey {
    pub const NULL: VKey = VKey([0; 336]);
    pub fn band(&self) -> H {
        self.0[..32].try_into().unwrap()
    }
    pub fn ed(&self) -> H {
        self.0[32..64].try_into().unwrap()
    }
}
pub type VSet = [VKey; V];

pub struct Pool {
    pub band_sk: Vec<Secret>,
    pub ed_sk: Vec<ed25519_consensus::SigningKey>,
    pub keys: Vec<VKey>,
    /// 32-byte secrets: Bandersnatch, Ed25519
    pub raw: Vec<(Vec<u8>, Vec<u8>)>,
}
fn unhex(s: &str) -> Vec<u8> {
    let s = s.trim_start_matches("0x");
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).expect("hex")).collect()
}
const DEV: &str = include_str!("../../../data/dev_accounts.json");
impl Pool {
    fn make() -> Self {
        let mut p = Pool { band_sk: vec![], ed_sk: vec![], keys: vec![], raw: vec![] };
        let dev: serde_json::Value = serde_json::from_str(DEV).expect("dev accounts");
        for i in 0..POOL {
            let (bsk, esk, meta) = if i < 6 {
                let a = &dev[["alice", "bob", "carol", "david", "eve", "fergie"][i]];
                let f = |n: &str| unhex(a[n].as_str().expect("field"));
                (f("bandersnatch_private"), f("ed25519_private"), f("metadata"))
            } else {
                let s = Secret::from_seed(&[i as u8; 32]);
                let mut b = vec![];
                s.serialize_compressed(&mut b).unwrap();
                (b, blake(&[i as u8, 77]).to_vec(), (0..128).map(|j| (i * 7 + j) as u8).collect())
            };
            let sk = Secret::deserialize_compressed_unchecked(&bsk[..]).expect("bandersnatch secret");
            let ed = ed25519_consensus::SigningKey::try_from(&esk[..]).expect("ed25519 secret");
            let mut pk = vec![];
            sk.public().serialize_compressed(&mut pk).unwrap();
            let mut k = [0u8; 336];
            k[..32].copy_from_slice(&pk);
            k[32..64].copy_from_slice(&ed.verification_key().to_bytes());
            if i >= 6 {
                for (j, x) in k[64..208].iter_mut().enumerate() {
                    *x = (i * 3 + j) as u8;
                }
            }
            k[208..208 + meta.len()].copy_from_slice(&meta);
            p.band_sk.push(sk);
            p.ed_sk.push(ed);
            p.keys.push(VKey(k));
            p.raw.push((bsk, esk));
        }
        p
    }
    pub fn by_ed(&self, ed: &H) -> Option<usize> {
        self.keys.iter().position(|k| &k.ed() == ed)
    }
    pub fn by_band(&self, b: &H) -> Option<usize> {
        self.keys.iter().position(|k| &k.band() == b)
    }
}
pub fn pool() -> &'static Pool {
    static P: std::sync::OnceLock<Pool> = std::sync::OnceLock::new();
    P.get_or_init(Pool::make)
}

thread_local! {
    static OUT: RefCell<HashMap<(usize, Vec<u8>), H>> = RefCell::new(HashMap::new());
}
/// The VRF output of a validator on an input; the same for plain and ring signatures.
pub fn vrf_output(signer: usize, input: &[u8]) -> H {
    OUT.with(|o| {
        *o.borrow_mut().entry((signer, input.to_vec())).or_insert_with(|| {
            let i = Input::new(input).expect("vrf input");
            let out = pool().band_sk[signer].output(i);
            out.hash()[..32].try_into().unwrap()
        })
    })
}
pub fn vrf_sign(signer: usize, input: &[u8], aux: &[u8]) -> [u8; 96] {
    let i = Input::new(input).expect("vrf input");
    let sk = &pool().band_sk[signer];
    let out = sk.output(i);
    let proof = sk.prove(i, out, aux);
    let mut b = vec![];
    out.serialize_compressed(&mut b).unwrap();
    proof.serialize_compressed(&mut b).unwrap();
    b.try_into().expect("96 bytes")
}
pub fn ed_sign(signer: usize, msg: &[u8]) -> [u8; 64] {
    pool().ed_sk[signer].sign(msg).to_bytes()
}
