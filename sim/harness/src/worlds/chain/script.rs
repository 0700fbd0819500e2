//! Random services, and random scripts for them.
use super::super::common::blake;
use super::build::*;
use super::enc::*;
use super::gen::Chain;
use super::model::*;
use super::svc::*;
use simrt::Rng;
use std::collections::BTreeMap;

fn code_look(a: &mut Account, h: H) {
    let n = library().codes[&h].0.len() as u32;
    a.look.insert((h, n), vec![5]);
    a.pre.insert(h, library().codes[&h].0.clone());
}
fn past_slot(r: &mut Rng) -> u32 {
    *r.pick(&[0, 1, 3, 5, 9, 12, 20, 23])
}
/// Accounts most of which run scripts, who holds which privilege, and preimages somebody may want.
pub fn services(r: &mut Rng) -> (BTreeMap<u32, Account>, Privs, Vec<Vec<u8>>) {
    let lib = library();
    let mut m: BTreeMap<u32, Account> = BTreeMap::new();
    let mut blobs: Vec<Vec<u8>> = vec![];
    for _ in 0..r.range(2, 8) {
        let n = *r.pick(&[0usize, 1, 5, 40, 130, 300]);
        blobs.push(r.bytes(n));
    }
    let ids = [0u32, 1, 7, 255, 256, 65535, 65536, 0x01020304, 0xffff_fff0, 70000, 123_456_789];
    let n = r.range(2, 6);
    while (m.len() as u64) < n {
        let id = *r.pick(&ids);
        let mut a = Account {
            bal: *r.pick(&[20_000u64, 1_000_000, 1_000_000, 5_000_000_000]),
            g_acc: *r.pick(&[0u64, 10, 1_000]),
            g_xfer: *r.pick(&[0u64, 1, 50, 99]),
            created: r.below(20) as u32,
            last: r.below(20) as u32,
            parent: *r.pick(&ids),
            gratis: *r.pick(&[0, 0, 0, 77, 3_000, u64::MAX]),
            ..Default::default()
        };
        a.code = match r.below(12) {
            0 | 1 => *r.pick(&lib.odd),
            2 | 3 => *r.pick(&lib.random),
            _ => *r.pick(&lib.good),
        };
        match r.below(12) {
            // solicited, but not there
            0 => {
                a.look.insert((a.code, lib.codes[&a.code].0.len() as u32), vec![]);
                blobs.push(lib.codes[&a.code].0.clone());
            }
            1 => a.code = rand_h(r),
            _ => {
                let h = a.code;
                code_look(&mut a, h);
            }
        }
        if r.chance(1, 3) {
            let h = *r.pick(&lib.good);
            if h != a.code && r.chance(1, 2) {
                code_look(&mut a, h);
            } else if h != a.code {
                a.look.insert((h, lib.codes[&h].0.len() as u32), vec![]);
                blobs.push(lib.codes[&h].0.clone());
            }
        }
        for _ in 0..r.below(4) {
            let (k, v) = (r.range(0, 3) as usize, r.range(1, 40) as usize);
            let k = (0..k).map(|_| b'a' + r.below(3) as u8).collect();
            a.storage.insert(k, r.bytes(v));
        }
        for b in &blobs {
            let key = (blake(b), b.len() as u32);
            if lib.codes.contains_key(&key.0) || !r.chance(1, 2) {
                continue;
            }
            let (x, y) = (past_slot(r), past_slot(r));
            let (x, y) = (x.min(y), x.max(y));
            let l = match r.below(5) {
                0 => vec![],
                1 => vec![x],
                2 => vec![x, y],
                3 => vec![x, y, 23],
                _ => vec![],
            };
            if matches!(l.len(), 1 | 3) || l.len() == 2 && r.chance(1, 2) {
                a.pre.insert(key.0, b.clone());
            }
            a.look.insert(key, l);
        }
        m.insert(id, a);
    }
    // accounts that are ready to be ejected, or nearly
    let owners: Vec<u32> = m.keys().copied().collect();
    for _ in 0..r.below(4) {
        let id = *r.pick(&[2u32, 3, 9, 65537, 0x7fff_ffff, 80000, 80001]);
        let b = r.pick(&blobs).clone();
        let mut a = Account { code: e32(*r.pick(&owners)), bal: *r.pick(&[500u64, 7_000]), parent: *r.pick(&owners), ..Default::default() };
        let (x, y) = (past_slot(r), past_slot(r));
        let l = if r.chance(4, 5) { vec![x.min(y), x.max(y)] } else { vec![x] };
        a.look.insert((blake(&b), b.len() as u32), l);
        if r.chance(1, 2) {
            a.pre.insert(blake(&b), b);
        }
        if r.chance(1, 5) {
            a.storage.insert(b"a".to_vec(), vec![1]);
        }
        m.insert(id, a);
    }
    let all: Vec<u32> = m.keys().copied().collect();
    let mut who = |r: &mut Rng| if r.chance(9, 10) { *r.pick(&owners) } else { *r.pick(&[999u32, all[0], u32::MAX]) };
    let mut privs = Privs {
        manager: who(r),
        assign: [who(r), who(r)],
        designate: who(r),
        registrar: who(r),
        always: BTreeMap::new(),
    };
    for _ in 0..*r.pick(&[0u64, 0, 1, 2]) {
        privs.always.insert(who(r), *r.pick(&[0, 1, 60, 500, 20_000]));
    }
    (m, privs, blobs)
}

#[derive(Clone, Copy)]
enum A {
    V(u64),
    /// offset into the data after the script
    P(usize),
}
struct Rec {
    op: u8,
    flags: u8,
    args: [A; 6],
}
pub struct Gen<'a> {
    ch: &'a Chain,
    blobs: &'a [Vec<u8>],
    me: u32,
    /// Whether a run that only ends for want of gas is fine.
    small_gas: bool,
    recs: Vec<Rec>,
    data: Vec<u8>,
    max_data: usize,
}
const SCRATCH: u64 = RW + 0x100;
impl Gen<'_> {
    fn put(&mut self, b: &[u8]) -> A {
        if self.data.len() + b.len() > self.max_data {
            return A::V(SCRATCH);
        }
        let at = self.data.len();
        self.data.extend_from_slice(b);
        A::P(at)
    }
    fn bad_addr(&self, r: &mut Rng) -> A {
        A::V(*r.pick(&[
            0, 0xffff, 0x10000, 0x10fff, 0x10ff0, 0x11000, 0x2ffff, RW, RW + 0x8000 + 0x1000 - 16, RW + 0x9000, 0xfefd_e000, 0xfefd_dff0,
            0xfefd_fff0, 0xfeff_0000, 0xffff_fff0, 0xffff_ffff, 1 << 32, (1 << 32) + RW, u64::MAX, u64::MAX - 7, 1 << 63,
        ]))
    }
    /// Memory to read, mostly `b`.
    fn mem(&mut self, r: &mut Rng, b: &[u8]) -> A {
        if r.chance(1, 40) {
            self.bad_addr(r)
        } else {
            self.put(b)
        }
    }
    /// Memory to write.
    fn out(&mut self, r: &mut Rng) -> A {
        if r.chance(1, 30) {
            self.bad_addr(r)
        } else {
            A::V(SCRATCH + 8 * r.below(20))
        }
    }
    fn id(&self, r: &mut Rng) -> u32 {
        let ids: Vec<u32> = self.ch.st.accounts.keys().copied().collect();
        match r.below(12) {
            0 => self.me,
            1 => *r.pick(&[0u32, 65536, 65535, u32::MAX, 5, 999]),
            _ if ids.is_empty() => 0,
            _ => *r.pick(&ids),
        }
    }
    fn id64(&self, r: &mut Rng) -> A {
        A::V(match r.below(14) {
            0 | 1 => u64::MAX,
            2 => u64::MAX - 1,
            3 => (1 << 32) + self.id(r) as u64,
            4 | 5 => self.me as u64,
            _ => self.id(r) as u64,
        })
    }
    /// A preimage somebody may know, and its length.
    fn wanted(&self, r: &mut Rng) -> (H, u64) {
        let a = self.ch.st.accounts.get(&self.me);
        let looks: Vec<(H, u32)> = a.map(|a| a.look.keys().copied().collect()).unwrap_or_default();
        let (h, z) = match r.below(6) {
            0 | 1 if !looks.is_empty() => *r.pick(&looks),
            2 if !self.ch.st.accounts.is_empty() => {
                let all: Vec<(H, u32)> = self.ch.st.accounts.values().flat_map(|a| a.look.keys().copied()).collect();
                if all.is_empty() {
                    (rand_h(r), 3)
                } else {
                    *r.pick(&all)
                }
            }
            3 => {
                let h = *r.pick(&library().good);
                (h, library().codes[&h].0.len() as u32)
            }
            4 => (rand_h(r), r.below(50) as u32),
            _ => {
                let b = r.pick(self.blobs);
                (blake(b), b.len() as u32)
            }
        };
        let z = match r.below(20) {
            0 => z as u64 + 1,
            1 => (1 << 32) + z as u64,
            2 => *r.pick(&[0, u32::MAX as u64, 1 << 32, u64::MAX]),
            _ => z as u64,
        };
        (h, z)
    }
    fn key(&self, r: &mut Rng) -> Vec<u8> {
        let n = r.below(4) as usize;
        (0..n).map(|_| b'a' + r.below(3) as u8).collect()
    }
    fn gas(&self, r: &mut Rng) -> u64 {
        match r.below(16) {
            0 => *r.pick(&[u64::MAX, 1 << 63, (1 << 63) - 1, (1 << 63) - 20, 1 << 40]),
            1 => 10_000_000,
            2..=4 => r.below(100),
            5..=8 => r.below(3_000),
            _ => r.range(3_000, 60_000),
        }
    }
    fn push(&mut self, r: &mut Rng, op: u8, args: [A; 6]) {
        let flags = r.chance(2, 3) as u8;
        self.recs.push(Rec { op, flags, args });
    }
    fn idx(&self, host: i32) -> u8 {
        HOSTS.iter().position(|h| *h == host).unwrap() as u8
    }
    fn call(&mut self, r: &mut Rng, host: i32, args: &[A]) {
        let mut a = [A::V(0); 6];
        a[..args.len()].copy_from_slice(args);
        for x in a[args.len()..].iter_mut() {
            *x = A::V(*r.pick(&[0, 0, 1, 7, u64::MAX]));
        }
        let op = self.idx(host);
        self.push(r, op, a);
    }
    /// Keeps what is in the scratch memory.
    fn keep(&mut self, r: &mut Rng, key: &[u8], addr: u64, n: u64) {
        let k = self.put(key);
        self.call(r, 4, &[k, A::V(key.len() as u64), A::V(addr), A::V(n)]);
    }
    fn window(&self, r: &mut Rng) -> (A, A) {
        (A::V(*r.pick(&[0, 0, 0, 1, 5, 300, u64::MAX])), A::V(*r.pick(&[0, 1, 8, 32, 64, 200, 200, u64::MAX])))
    }
    fn step(&mut self, r: &mut Rng) {
        let st = &self.ch.st;
        let privileged: Vec<i32> = {
            let p = &st.privs;
            let mut v = vec![];
            if p.manager == self.me {
                v.extend([14, 14, 14]);
            }
            if p.assign.contains(&self.me) {
                v.extend([15, 15, 15]);
            }
            if p.designate == self.me {
                v.extend([16, 16]);
            }
            if p.registrar == self.me {
                v.extend([18, 18]);
            }
            v
        };
        let host = if !privileged.is_empty() && r.chance(1, 3) {
            *r.pick(&privileged)
        } else {
            *r.pick(&[
                0, 1, 1, 2, 2, 3, 3, 4, 4, 4, 4, 5, 5, 14, 15, 16, 17, 17, 17, 18, 18, 18, 19, 19, 20, 20, 20, 20, 20, 21, 21, 21, 22, 22, 23, 23,
                24, 24, 24, 25, 25, 26, 26, 26, 6, 9, 13, 99, 200, 1 << 20, -1, -2, -3, -4, -5,
            ])
        };
        match host {
            0 => self.call(r, 0, &[]),
            1 => {
                let kind = if r.chance(1, 10) { *r.pick(&[u64::MAX, 16, 17, 255, 1 << 32]) } else { *r.pick(&[0, 1, 2, 3, 7, 12, 13, 14, 15, 15]) };
                let (o, (f, l)) = (self.out(r), self.window(r));
                let i = *r.pick(&[0, 0, 1, 2, u64::MAX, 1 << 32]);
                self.call(r, 1, &[o, f, l, A::V(kind), A::V(i)]);
                if r.chance(1, 2) {
                    let l = *r.pick(&[8, 64, 300]);
                    self.keep(r, b"f", SCRATCH, l);
                }
            }
            2 => {
                let (s, (h, _)) = (self.id64(r), self.wanted(r));
                let (h, o, (f, l)) = (self.mem(r, &h), self.out(r), self.window(r));
                self.call(r, 2, &[s, h, o, f, l]);
                if r.chance(1, 2) {
                    self.keep(r, b"p", SCRATCH, 64);
                }
            }
            3 => {
                let (s, k) = (self.id64(r), self.key(r));
                let n = if r.chance(1, 30) { *r.pick(&[u64::MAX, 1 << 32, 0x10000]) } else { k.len() as u64 };
                let (k, o, (f, l)) = (self.mem(r, &k), self.out(r), self.window(r));
                self.call(r, 3, &[s, k, A::V(n), o, f, l]);
                if r.chance(1, 2) {
                    self.keep(r, b"r", SCRATCH, 64);
                }
            }
            4 => {
                let (k, n) = (self.key(r), r.below(60) as usize);
                let v = r.bytes(n);
                let kn = if r.chance(1, 40) { *r.pick(&[u64::MAX, 1 << 32, 0x10000]) } else { k.len() as u64 };
                let vn = match r.below(30) {
                    0 => *r.pick(&[u64::MAX, 1 << 32, 0x8000]),
                    1..=6 => 0,
                    _ => n as u64,
                };
                let (k, v) = (self.mem(r, &k), self.mem(r, &v));
                self.call(r, 4, &[k, A::V(kn), v, A::V(vn)]);
            }
            5 => {
                let (s, o, (f, l)) = (self.id64(r), self.out(r), self.window(r));
                self.call(r, 5, &[s, o, f, l]);
                if r.chance(2, 3) {
                    self.keep(r, b"i", SCRATCH, 100);
                }
            }
            14 => {
                let mut w = W::default();
                for c in 0..C {
                    let s = if r.chance(1, 2) { st.privs.assign[c] } else { self.id(r) };
                    w.u32(s);
                }
                let a = self.mem(r, &w.0);
                let mut w = W::default();
                let n = r.below(3);
                for _ in 0..n {
                    w.u32(self.id(r)).u64(*r.pick(&[0, 1, 500, 3_000, 20_000]));
                }
                let z = self.mem(r, &w.0);
                let n = if r.chance(1, 30) { *r.pick(&[u64::MAX, 1 << 61, 1 << 30, 200]) } else { n };
                let m = if r.chance(2, 3) { A::V(self.me as u64) } else { self.id64(r) };
                let (v, g) = (self.id64(r), self.id64(r));
                self.call(r, 14, &[m, a, v, g, z, A::V(n)]);
            }
            15 => {
                let q: Vec<u8> = (0..Q).flat_map(|_| auth_hash(r.usize(5))).collect();
                let q = self.mem(r, &q);
                let c = match r.below(12) {
                    0 => *r.pick(&[2, 341, u64::MAX, 1 << 32, 256]),
                    _ => {
                        let own: Vec<usize> = (0..C).filter(|c| st.privs.assign[*c] == self.me).collect();
                        if own.is_empty() || r.chance(1, 6) {
                            r.below(C as u64)
                        } else {
                            *r.pick(&own) as u64
                        }
                    }
                };
                let a = if r.chance(1, 2) { A::V(self.me as u64) } else { self.id64(r) };
                self.call(r, 15, &[A::V(c), q, a]);
            }
            16 => {
                let mut k: Vec<VKey> = st.staging.to_vec();
                match r.below(3) {
                    0 => r.shuffle(&mut k),
                    1 => {
                        let (i, j) = (r.usize(V), r.usize(POOL));
                        k[i] = pool().keys[j];
                    }
                    _ => {
                        let i = r.usize(V);
                        k[i] = VKey([0; 336]);
                    }
                }
                let k: Vec<u8> = k.iter().flat_map(|k| k.0).collect();
                let k = self.mem(r, &k);
                self.call(r, 16, &[k]);
            }
            17 => self.call(r, 17, &[]),
            18 => {
                let h = match r.below(5) {
                    0 => e32(self.me),
                    1 => rand_h(r),
                    2 if r.chance(1, 2) => *r.pick(&library().random),
                    2 => *r.pick(&library().odd),
                    _ => *r.pick(&library().good),
                };
                let z = library().codes.get(&h).map(|c| c.0.len() as u64).unwrap_or(r.below(40));
                let z = if r.chance(1, 12) { *r.pick(&[1 << 32, u64::MAX, u32::MAX as u64]) } else { z };
                let free = match r.below(8) {
                    0 => *r.pick(&[1u64, 100_000, u64::MAX]),
                    _ => 0,
                };
                let id = *r.pick(&[u64::MAX, 0, 1, 7, 8, 100, 65535, 65536, 1 << 32]);
                let h = self.mem(r, &h);
                let (ga, gx) = (*r.pick(&[0u64, 10, u64::MAX]), *r.pick(&[0u64, 50, 1 << 40]));
                self.call(r, 18, &[h, A::V(z), A::V(ga), A::V(gx), A::V(free), A::V(id)]);
                if r.chance(1, 2) {
                    // money for the new one
                    let memo = self.memo(r);
                    let g = self.gas(r);
                    self.call(r, 20, &[A::V(0), A::V(50), A::V(g), memo]);
                    self.recs.last_mut().unwrap().flags |= 2;
                }
            }
            19 => {
                let h = match r.below(6) {
                    0 | 1 => e32(self.id(r)),
                    2 => *r.pick(&library().odd),
                    3 => rand_h(r),
                    _ => *r.pick(&library().good),
                };
                let h = self.mem(r, &h);
                let (ga, gx) = (*r.pick(&[0u64, 10, 2_000]), *r.pick(&[0u64, 50, 99]));
                self.call(r, 19, &[h, A::V(ga), A::V(gx)]);
            }
            20 => {
                let memo = self.memo(r);
                let amount = match r.below(12) {
                    0 => *r.pick(&[u64::MAX, 1 << 63, 5_000_000_000, 999_000]),
                    1 => 0,
                    _ => r.below(20_000),
                };
                let (to, g) = (self.id64(r), self.gas(r));
                self.call(r, 20, &[to, A::V(amount), A::V(g), memo]);
            }
            21 => {
                let mine: Vec<(u32, H)> = st
                    .accounts
                    .iter()
                    .filter(|(_, a)| a.code == e32(self.me) || r.chance(1, 20))
                    .filter_map(|(i, a)| Some((*i, a.look.keys().next()?.0)))
                    .collect();
                let (s, h) = if mine.is_empty() || r.chance(1, 8) { (self.id(r), self.wanted(r).0) } else { *r.pick(&mine) };
                let s = if r.chance(1, 20) { self.id64(r) } else { A::V(s as u64) };
                let h = self.mem(r, &h);
                self.call(r, 21, &[s, h]);
            }
            22 | 23 | 24 => {
                let (h, z) = self.wanted(r);
                let h = self.mem(r, &h);
                self.call(r, host, &[h, A::V(z)]);
            }
            25 => {
                let h = rand_h(r);
                let h = self.mem(r, &h);
                self.call(r, 25, &[h]);
            }
            26 => {
                let b = if r.chance(1, 8) { r.bytes(9) } else { r.pick(self.blobs).clone() };
                let b = if b.len() > 400 { vec![1] } else { b };
                let n = if r.chance(1, 30) { *r.pick(&[u64::MAX, 1 << 32, 0x10000]) } else { b.len() as u64 };
                let wanting: Vec<u32> = st
                    .accounts
                    .iter()
                    .filter(|(_, a)| a.look.get(&(blake(&b), b.len() as u32)).is_some_and(|l| l.is_empty()))
                    .map(|a| *a.0)
                    .collect();
                let s = if wanting.is_empty() || r.chance(1, 4) { self.id64(r) } else { A::V(*r.pick(&wanting) as u64) };
                let b = self.mem(r, &b);
                self.call(r, 26, &[s, b, A::V(n)]);
            }
            -1 | -2 if r.chance(1, 3) => {
                let a = self.bad_addr(r);
                let op = if host == -1 { OP_LOAD } else { OP_STORE };
                let n = A::V(r.below(9));
                self.push(r, op, [a, n, A::V(0), A::V(0), A::V(0), A::V(0)]);
            }
            -3 if r.chance(1, 4) => self.push(r, OP_TRAP, [A::V(0); 6]),
            -4 if self.small_gas && r.chance(1, 3) => self.push(r, OP_LOOP, [A::V(0); 6]),
            -5 if r.chance(1, 2) => {
                let h = rand_h(r);
                let a = self.mem(r, &h);
                let n = *r.pick(&[32, 32, 32, 31, 0, 33, 1 << 32, u64::MAX]);
                self.push(r, OP_HALT, [a, A::V(n), A::V(0), A::V(0), A::V(0), A::V(0)]);
            }
            h if h < 0 => {
                let (k, v) = (self.put(b"a"), A::V(SCRATCH));
                self.call(r, 4, &[k, A::V(1), v, A::V(16)]);
            }
            h => self.call(r, h, &[]),
        }
    }
    /// A memo that is a script of its own.
    fn memo(&mut self, r: &mut Rng) -> A {
        let mut memo = if r.chance(1, 5) || self.max_data < 500 {
            let mut b = r.bytes(128);
            b[0] = OP_NEXT;
            b
        } else {
            let n = r.range(1, 2) as usize;
            let mut g = Gen { ch: self.ch, blobs: self.blobs, me: self.id(r), small_gas: false, recs: vec![], data: vec![], max_data: 127 - n * REC };
            while g.recs.len() < n {
                g.step(r);
            }
            g.recs.truncate(n);
            g.bytes(BUF + 17, false)
        };
        memo.resize(128, 0);
        self.mem(r, &memo)
    }
    fn bytes(&self, base: u64, log: bool) -> Vec<u8> {
        let mut w = W::default();
        let first = self.recs.len() * REC + 1 + if log { REC } else { 0 };
        let val = |a: &A| match a {
            A::V(v) => *v,
            A::P(o) => base + (first + o) as u64,
        };
        for x in &self.recs {
            w.u8(x.op).u8(x.flags);
            for a in &x.args {
                w.u64(val(a));
            }
        }
        if log {
            // the results of the calls: write("l", ..)
            let logged = self.recs.iter().filter(|x| x.flags & 1 == 1).count();
            w.u8(self.idx(4)).u8(0);
            for v in [val(&A::P(self.data.len())), 1, LOG, 16 * logged as u64, 0, 0] {
                w.u64(v);
            }
        }
        w.u8(OP_NEXT).b(&self.data).u8(b'l');
        w.0
    }
}
/// A work result with a script in it. `head`: the length of what reaches the service before the result.
pub fn result(r: &mut Rng, ch: &Chain, me: u32, head: usize, small_gas: bool) -> Vec<u8> {
    let n = *r.pick(&[1usize, 2, 4, 6, 10, 14]);
    let mut g = Gen { ch, blobs: &ch.blobs, me, small_gas, recs: vec![], data: vec![], max_data: 6_000 };
    while g.recs.len() < n {
        g.step(r);
    }
    let mut b = g.bytes(BUF + head as u64 + 3, r.chance(3, 4));
    if b.len() < 128 {
        b.resize(128, 0);
    }
    assert!(b.len() < 0x2000, "harness: script too long");
    b
}
