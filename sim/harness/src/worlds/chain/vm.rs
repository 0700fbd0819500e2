//! A reference interpreter for the PVM instructions the generated services use, and an assembler for them.
//! Written from the Gray Paper.
use super::enc::*;
use std::collections::BTreeMap;

pub const PAGE: u64 = 4096;
pub const ZONE: u64 = 65536;
pub const HALT: u64 = (1 << 32) - (1 << 16);

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Exit {
    Halt,
    Panic,
    OutOfGas,
    Host(u64),
    /// Not an exit of the machine: nobody has the time.
    TooLong,
}

/// A program in its standard form.
pub struct Program {
    pub ro: Vec<u8>,
    pub rw: Vec<u8>,
    pub pages: u16,
    pub stack: u32,
    pub code: Vec<u8>,
    pub mask: Vec<bool>,
    pub jumps: Vec<u64>,
    /// Octets of a jump table entry.
    pub jump_width: u8,
}
impl Program {
    pub fn blob(&self) -> Vec<u8> {
        let mut c = W::default();
        c.n(self.jumps.len() as u64).u8(self.jump_width).n(self.code.len() as u64);
        for j in &self.jumps {
            let mut e = j.to_le_bytes().to_vec();
            e.resize(self.jump_width as usize, 0);
            c.b(&e);
        }
        c.b(&self.code);
        let mut bits = vec![0u8; self.code.len().div_ceil(8)];
        for (i, m) in self.mask.iter().enumerate() {
            bits[i / 8] |= (*m as u8) << (i % 8);
        }
        c.b(&bits);
        let mut w = W::default();
        let e3 = |x: u32| x.to_le_bytes()[..3].to_vec();
        w.b(&e3(self.ro.len() as u32)).b(&e3(self.rw.len() as u32)).u16(self.pages).b(&e3(self.stack));
        w.b(&self.ro).b(&self.rw).u32(c.0.len() as u32).b(&c.0);
        w.0
    }
    pub fn skip(&self, i: usize) -> usize {
        (0..24).find(|j| self.mask.get(i + 1 + j).copied().unwrap_or(true)).unwrap_or(24)
    }
    fn start_of_block(&self, t: u64) -> bool {
        if t >= self.code.len() as u64 || !self.mask[t as usize] {
            return false;
        }
        t == 0 || (0..t as usize).any(|n| self.mask[n] && terminator(self.code[n]) && n + 1 + self.skip(n) == t as usize)
    }
}
fn terminator(op: u8) -> bool {
    matches!(op, 0 | 1 | 40 | 50 | 80..=90 | 170..=175 | 180)
}
/// Instructions there are.
pub fn defined(op: u8) -> bool {
    matches!(op, 0 | 1 | 10 | 20 | 30..=33 | 40 | 50..=62 | 70..=73 | 80..=90 | 100..=111 | 120..=161 | 170..=175 | 180 | 190..=230)
}
fn zone(x: u64) -> u64 {
    x.div_ceil(ZONE) * ZONE
}
fn page(x: u64) -> u64 {
    x.div_ceil(PAGE) * PAGE
}

fn shl(x: u64, n: u64) -> u64 {
    x << n
}
fn shr(x: u64, n: u64) -> u64 {
    x >> n
}
fn sar(x: u64, n: u64) -> u64 {
    (x as i64 >> n) as u64
}
/// Rotates the lowest `bits` bits, the others being 0, to the right.
fn ror(x: u64, n: u64, bits: u64) -> u64 {
    let all = if bits == 64 { u64::MAX } else { (1 << bits) - 1 };
    if n == 0 { x } else { (x >> n | x << (bits - n)) & all }
}

pub struct Vm<'a> {
    p: &'a Program,
    pub regs: [u64; 13],
    pub pc: u64,
    pub gas: i64,
    steps: u64,
    /// Page number: writable, content
    pages: BTreeMap<u64, (bool, Vec<u8>)>,
    blocks: std::collections::HashSet<u64>,
}
impl<'a> Vm<'a> {
    pub fn new(p: &'a Program, args: &[u8], pc: u64, gas: u64) -> Self {
        let mut v = Vm { p, regs: [0; 13], pc, gas: gas as i64, steps: 0, pages: BTreeMap::new(), blocks: Default::default() };
        let mut map = |start: u64, len: u64, writable: bool, data: &[u8]| {
            for i in 0..page(len) / PAGE {
                let mut b = vec![0; PAGE as usize];
                let at = (i * PAGE) as usize;
                if at < data.len() {
                    let n = (data.len() - at).min(PAGE as usize);
                    b[..n].copy_from_slice(&data[at..at + n]);
                }
                v.pages.insert(start / PAGE + i, (writable, b));
            }
        };
        map(ZONE, p.ro.len() as u64, false, &p.ro);
        let rw = 2 * ZONE + zone(p.ro.len() as u64);
        map(rw, page(p.rw.len() as u64) + p.pages as u64 * PAGE, true, &p.rw);
        let top = (1u64 << 32) - 2 * ZONE - (1 << 24);
        map(top - page(p.stack as u64), p.stack as u64, true, &[]);
        let a = (1u64 << 32) - ZONE - (1 << 24);
        map(a, args.len() as u64, false, args);
        v.regs[0] = HALT;
        v.regs[1] = top;
        v.regs[7] = a;
        v.regs[8] = args.len() as u64;
        v.blocks = (0..p.code.len() as u64).filter(|t| p.start_of_block(*t)).collect();
        v
    }
    pub fn readable(&self, a: u64, n: u64) -> bool {
        self.ok(a, n, false)
    }
    pub fn writable(&self, a: u64, n: u64) -> bool {
        self.ok(a, n, true)
    }
    fn ok(&self, a: u64, n: u64, write: bool) -> bool {
        if n == 0 {
            return true;
        }
        let Some(end) = a.checked_add(n) else { return false };
        end <= 1 << 32 && (a / PAGE..=(end - 1) / PAGE).all(|p| self.pages.get(&p).is_some_and(|p| p.0 || !write))
    }
    pub fn read(&self, a: u64, n: u64) -> Option<Vec<u8>> {
        if !self.readable(a, n) {
            return None;
        }
        Some((a..a + n).map(|x| self.pages[&(x / PAGE)].1[(x % PAGE) as usize]).collect())
    }
    pub fn write(&mut self, a: u64, d: &[u8]) -> bool {
        if !self.writable(a, d.len() as u64) {
            return false;
        }
        for (i, b) in d.iter().enumerate() {
            let x = a + i as u64;
            self.pages.get_mut(&(x / PAGE)).unwrap().1[(x % PAGE) as usize] = *b;
        }
        true
    }
    fn imm(p: &Program, at: usize, n: usize) -> u64 {
        if n == 0 {
            return 0;
        }
        let mut b = [0u8; 8];
        for (i, x) in b.iter_mut().take(n).enumerate() {
            *x = p.code.get(at + i).copied().unwrap_or(0);
        }
        let v = u64::from_le_bytes(b);
        let s = 64 - 8 * n as u32;
        (((v << s) as i64) >> s) as u64
    }
    /// Runs to the next exit. After a host call the program counter is past it.
    pub fn run(&mut self) -> Exit {
        loop {
            let i = self.pc as usize;
            if self.pc >= self.p.code.len() as u64 || !self.p.mask[i] {
                return Exit::Panic;
            }
            let op = self.p.code[i];
            let skip = self.p.skip(i);
            self.gas -= 1;
            self.steps += 1;
            if self.steps > 12_000_000 {
                return Exit::TooLong;
            }
            if self.gas < 0 {
                return Exit::OutOfGas;
            }
            let p = self.p;
            let byte = |k: usize| p.code.get(i + k).copied().unwrap_or(0) as usize;
            let (lo, hi) = ((byte(1) & 15).min(12), (byte(1) >> 4).min(12));
            let r = self.regs;
            let (ra, rb) = (r[lo], r[hi]);
            let at = i as u64;
            let imm = |k: usize, n: usize| Self::imm(p, i + k, n.min(4));
            // one immediate after one or two registers
            let x1 = imm(2, skip.saturating_sub(1));
            // a register and two immediates; two immediates alone; two registers and two immediates
            let two = |n: usize, from: usize| {
                let n = n.min(4);
                (imm(from, n), imm(from + n, skip.saturating_sub(n + from - 1)))
            };
            let (x2, y2) = two(byte(1) >> 4 & 7, 2);
            let mut next = at + 1 + skip as u64;
            let s32 = |x: u64| x as u32 as i32 as i64 as u64;
            let rd = byte(2).min(12);
            let mut jump: Option<u64> = None;
            // register, address, octets, signed
            let mut load: Option<(usize, u64, u32, bool)> = None;
            let mut store: Option<(u64, u64, u32)> = None;
            let mut indirect: Option<u64> = None;
            let mut set: Option<(usize, u64)> = None;
            match op {
                0 => return Exit::Panic,
                1 => {}
                10 => {
                    self.pc = next;
                    return Exit::Host(imm(1, skip));
                }
                20 => {
                    let mut b = [0; 8];
                    for (k, x) in b.iter_mut().enumerate() {
                        *x = byte(2 + k) as u8;
                    }
                    set = Some((lo, u64::from_le_bytes(b)));
                }
                30..=33 => {
                    let (x, y) = two(byte(1) & 7, 2);
                    store = Some((x, y, 1 << (op - 30)));
                }
                40 => jump = Some(at.wrapping_add(imm(1, skip))),
                50 => indirect = Some(ra.wrapping_add(x1)),
                51 => set = Some((lo, x1)),
                52..=58 => load = Some((lo, x1, 1 << ((op - 52) / 2), (op - 52) % 2 == 1)),
                59..=62 => store = Some((x1, ra, 1 << (op - 59))),
                70..=73 => store = Some((ra.wrapping_add(x2), y2, 1 << (op - 70))),
                80 => {
                    set = Some((lo, x2));
                    jump = Some(at.wrapping_add(y2));
                }
                81..=90 => {
                    let (sa, sx) = (ra as i64, x2 as i64);
                    let yes = match op {
                        81 => ra == x2,
                        82 => ra != x2,
                        83 => ra < x2,
                        84 => ra <= x2,
                        85 => ra >= x2,
                        86 => ra > x2,
                        87 => sa < sx,
                        88 => sa <= sx,
                        89 => sa >= sx,
                        _ => sa > sx,
                    };
                    jump = yes.then_some(at.wrapping_add(y2));
                }
                101 => {
                    assert!(rb >= 1 << 32, "harness: only heaps that cannot exist");
                    set = Some((lo, 0));
                }
                100..=111 => {
                    let v = match op {
                        100 => rb,
                        102 => (0..64).filter(|k| rb >> k & 1 == 1).count() as u64,
                        103 => (0..32).filter(|k| rb >> k & 1 == 1).count() as u64,
                        104 => (0..64).take_while(|k| rb >> (63 - k) & 1 == 0).count() as u64,
                        105 => (0..32).take_while(|k| rb >> (31 - k) & 1 == 0).count() as u64,
                        106 => (0..64).take_while(|k| rb >> k & 1 == 0).count() as u64,
                        107 => (0..32).take_while(|k| rb >> k & 1 == 0).count() as u64,
                        108 => rb as i8 as i64 as u64,
                        109 => rb as i16 as i64 as u64,
                        110 => rb & 0xffff,
                        _ => u64::from_le_bytes(rb.to_be_bytes()),
                    };
                    set = Some((lo, v));
                }
                120..=123 => store = Some((rb.wrapping_add(x1), ra, 1 << (op - 120))),
                124..=130 => load = Some((lo, rb.wrapping_add(x1), 1 << ((op - 124) / 2), (op - 124) % 2 == 1)),
                131..=161 => {
                    let (w, x) = (rb as u32, x1 as u32);
                    let v = match op {
                        131 => s32(rb.wrapping_add(x1)),
                        132 => rb & x1,
                        133 => rb ^ x1,
                        134 => rb | x1,
                        135 => s32(rb.wrapping_mul(x1)),
                        136 => (rb < x1) as u64,
                        137 => ((rb as i64) < x1 as i64) as u64,
                        138 => s32(shl(w as u64, x1 % 32)),
                        139 => s32(shr(w as u64, x1 % 32)),
                        140 => sar(s32(rb), x1 % 32),
                        141 => s32(x1.wrapping_sub(rb)),
                        142 => (rb > x1) as u64,
                        143 => (rb as i64 > x1 as i64) as u64,
                        144 => s32(shl(x as u64, rb % 32)),
                        145 => s32(shr(x as u64, rb % 32)),
                        146 => sar(s32(x1), rb % 32),
                        147 => if rb == 0 { x1 } else { ra },
                        148 => if rb != 0 { x1 } else { ra },
                        149 => rb.wrapping_add(x1),
                        150 => rb.wrapping_mul(x1),
                        151 => shl(rb, x1 % 64),
                        152 => shr(rb, x1 % 64),
                        153 => sar(rb, x1 % 64),
                        154 => x1.wrapping_sub(rb),
                        155 => shl(x1, rb % 64),
                        156 => shr(x1, rb % 64),
                        157 => sar(x1, rb % 64),
                        158 => ror(rb, x1 % 64, 64),
                        159 => ror(x1, rb % 64, 64),
                        160 => s32(ror(w as u64, x1 % 32, 32)),
                        _ => s32(ror(x as u64, rb % 32, 32)),
                    };
                    set = Some((lo, v));
                }
                170..=175 => {
                    let (sa, sb) = (ra as i64, rb as i64);
                    let yes = match op {
                        170 => ra == rb,
                        171 => ra != rb,
                        172 => ra < rb,
                        173 => sa < sb,
                        174 => ra >= rb,
                        _ => sa >= sb,
                    };
                    jump = yes.then_some(at.wrapping_add(x1));
                }
                180 => {
                    let (x, y) = two(byte(2) & 7, 3);
                    set = Some((lo, x));
                    indirect = Some(rb.wrapping_add(y));
                }
                190..=230 => {
                    let (a, b) = (ra as u32 as u64, rb as u32 as u64);
                    let (sa, sb) = (s32(ra) as i64, s32(rb) as i64);
                    let (la, lb) = (ra as i64, rb as i64);
                    let wide = |a: i128, b: i128| (a.wrapping_mul(b) >> 64) as u64;
                    let v = match op {
                        190 => s32(a + b),
                        191 => s32(a.wrapping_sub(b)),
                        192 => s32(a * b),
                        193 => if b == 0 { u64::MAX } else { s32(a / b) },
                        194 => if sb == 0 { u64::MAX } else { s32((sa / sb) as u64) },
                        195 => if b == 0 { s32(a) } else { s32(a % b) },
                        196 => if sb == 0 { sa as u64 } else { (sa % sb) as u64 },
                        197 => s32(shl(a, b % 32)),
                        198 => s32(shr(a, b % 32)),
                        199 => sar(s32(ra), b % 32),
                        200 => ra.wrapping_add(rb),
                        201 => ra.wrapping_sub(rb),
                        202 => ra.wrapping_mul(rb),
                        203 => if rb == 0 { u64::MAX } else { ra / rb },
                        204 => if rb == 0 { u64::MAX } else { (la as i128 / lb as i128) as u64 },
                        205 => if rb == 0 { ra } else { ra % rb },
                        206 => if rb == 0 { ra } else { (la as i128 % lb as i128) as u64 },
                        207 => shl(ra, rb % 64),
                        208 => shr(ra, rb % 64),
                        209 => sar(ra, rb % 64),
                        210 => ra & rb,
                        211 => ra ^ rb,
                        212 => ra | rb,
                        213 => wide(la as i128, lb as i128),
                        214 => ((ra as u128 * rb as u128) >> 64) as u64,
                        215 => wide(la as i128, rb as i128),
                        216 => (ra < rb) as u64,
                        217 => (la < lb) as u64,
                        218 => if rb == 0 { ra } else { r[rd] },
                        219 => if rb != 0 { ra } else { r[rd] },
                        220 => ror(ra, (64 - rb % 64) % 64, 64),
                        221 => s32(ror(a, (32 - rb % 32) % 32, 32)),
                        222 => ror(ra, rb % 64, 64),
                        223 => s32(ror(a, rb % 32, 32)),
                        224 => ra & !rb,
                        225 => ra | !rb,
                        226 => !(ra ^ rb),
                        227 => la.max(lb) as u64,
                        228 => ra.max(rb),
                        229 => la.min(lb) as u64,
                        _ => ra.min(rb),
                    };
                    set = Some((rd, v));
                }
                _ => return Exit::Panic,
            }
            if let Some(a) = indirect {
                let a = a as u32 as u64;
                if a == HALT {
                    if let Some((d, v)) = set {
                        self.regs[d] = v;
                    }
                    return Exit::Halt;
                }
                if a == 0 || a % 2 != 0 || a / 2 > self.p.jumps.len() as u64 {
                    return Exit::Panic;
                }
                jump = Some(self.p.jumps[(a / 2 - 1) as usize]);
            }
            if let Some((d, v)) = set {
                self.regs[d] = v;
            }
            if let Some((d, a, n, signed)) = load {
                let Some(b) = self.read(a as u32 as u64, n as u64) else { return Exit::Panic };
                let mut x = [0; 8];
                x[..n as usize].copy_from_slice(&b);
                let (x, s) = (u64::from_le_bytes(x), 64 - 8 * n);
                self.regs[d] = if signed { ((x << s) as i64 >> s) as u64 } else { x };
            }
            if let Some((a, v, n)) = store {
                if !self.write(a as u32 as u64, &v.to_le_bytes()[..n as usize]) {
                    return Exit::Panic;
                }
            }
            if let Some(t) = jump {
                if !self.blocks.contains(&t) {
                    return Exit::Panic;
                }
                next = t;
            }
            self.pc = next;
        }
    }
}

/// Two-pass assembler.
#[derive(Default)]
pub struct Asm {
    pub code: Vec<u8>,
    pub mask: Vec<bool>,
    labels: BTreeMap<String, usize>,
    /// Where a 4-byte offset to a label goes, and the instruction it counts from.
    fix: Vec<(usize, usize, String)>,
    jump_labels: Vec<String>,
}
impl Asm {
    pub fn op(&mut self, b: &[u8]) -> usize {
        let at = self.code.len();
        self.code.extend_from_slice(b);
        self.mask.push(true);
        self.mask.resize(self.code.len(), false);
        at
    }
    /// A label is jumped to, so it starts a basic block.
    pub fn label(&mut self, l: &str) {
        self.op(&[1]);
        self.labels.insert(l.into(), self.code.len());
    }
    /// Right after a jump: a block starts here anyway.
    pub fn mark(&mut self, l: &str) {
        self.labels.insert(l.into(), self.code.len());
    }
    pub fn mark_at(&mut self, l: &str, off: usize) {
        self.labels.insert(l.into(), self.code.len() + off);
    }
    pub fn entry(&mut self, l: &str) {
        self.label(l);
        self.jump_labels.push(l.into());
    }
    fn off(&mut self, at: usize, l: &str) {
        self.fix.push((self.code.len(), at, l.into()));
        self.code.extend([0; 4]);
        self.mask.resize(self.code.len(), false);
    }
    pub fn li(&mut self, r: u8, v: i32) {
        let mut b = vec![51, r];
        b.extend(v.to_le_bytes());
        self.op(&b);
    }
    pub fn li64(&mut self, r: u8, v: u64) {
        let mut b = vec![20, r];
        b.extend(v.to_le_bytes());
        self.op(&b);
    }
    pub fn mv(&mut self, d: u8, s: u8) {
        self.op(&[100, d | s << 4]);
    }
    /// Two registers and an immediate.
    pub fn rri(&mut self, op: u8, a: u8, b: u8, v: i32) {
        let mut x = vec![op, a | b << 4];
        x.extend(v.to_le_bytes());
        self.op(&x);
    }
    pub fn rrr(&mut self, op: u8, a: u8, b: u8, d: u8) {
        self.op(&[op, a | b << 4, d]);
    }
    pub fn rr(&mut self, op: u8, d: u8, s: u8) {
        self.op(&[op, d | s << 4]);
    }
    pub fn host(&mut self, id: i32) {
        let mut b = vec![10];
        if (0..128).contains(&id) {
            b.push(id as u8);
        } else {
            b.extend(id.to_le_bytes());
        }
        self.op(&b);
    }
    /// A jump with its own beginning, then the offset.
    pub fn branch(&mut self, head: &[u8], l: &str) {
        let at = self.op(head);
        self.off(at, l);
    }
    /// An entry of the jump table.
    pub fn table(&mut self, l: &str) -> usize {
        self.jump_labels.push(l.into());
        self.jump_labels.len() - 1
    }
    pub fn known(&self, l: &str) -> bool {
        self.labels.contains_key(l)
    }
    pub fn alias(&mut self, new: &str, l: &str) {
        let at = self.labels[l];
        self.labels.insert(new.into(), at);
    }
    pub fn jmp(&mut self, l: &str) {
        let at = self.op(&[40]);
        self.off(at, l);
    }
    pub fn jind(&mut self, r: u8, v: i32) {
        let mut b = vec![50, r];
        b.extend(v.to_le_bytes());
        self.op(&b);
    }
    /// Branch on a register and an immediate.
    pub fn bri(&mut self, op: u8, r: u8, v: i32, l: &str) {
        let mut b = vec![op, r | 4 << 4];
        b.extend(v.to_le_bytes());
        let at = self.op(&b);
        self.off(at, l);
    }
    pub fn brr(&mut self, op: u8, a: u8, b: u8, l: &str) {
        let at = self.op(&[op, a | b << 4]);
        self.off(at, l);
    }
    pub fn done(mut self, ro: Vec<u8>, rw: Vec<u8>, pages: u16, stack: u32) -> Program {
        for (at, from, l) in &self.fix {
            let t = self.labels[l] as i64 - *from as i64;
            self.code[*at..*at + 4].copy_from_slice(&(t as i32).to_le_bytes());
        }
        let jumps = self.jump_labels.iter().map(|l| self.labels[l] as u64).collect();
        Program { ro, rw, pages, stack, code: self.code, mask: self.mask, jumps, jump_width: 4 }
    }
}
