//! Services that interpret scripts, the host calls of accumulation, and accumulation itself: the reference.
use super::super::common::blake;
use super::acc::*;
use super::enc::*;
use super::model::*;
use super::vm::*;
use std::collections::{BTreeMap, BTreeSet};

pub const RW: u64 = 0x30000;
pub const BUF: u64 = RW + 0x1000;
pub const BUF_LEN: u64 = 0x4000;
pub const LOG: u64 = BUF + BUF_LEN;
pub const LOG_LEN: u64 = 0x2000;
/// Host calls a script can make, in the order of its operation numbers.
pub const HOSTS: [i32; 25] = [0, 1, 2, 3, 4, 5, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 6, 9, 13, 99, 200, 1 << 20];
pub const OP_TRAP: u8 = 25;
pub const OP_LOOP: u8 = 26;
pub const OP_HALT: u8 = 27;
pub const OP_NEXT: u8 = 28;
pub const OP_LOAD: u8 = 29;
pub const OP_STORE: u8 = 30;
pub const OPS: u8 = 31;
pub const REC: usize = 50;

/// The program of every working service. `odd` makes another program of it that does the same.
fn interpreter(odd: u8) -> Program {
    let mut a = Asm::default();
    let (i, at, log, last) = (2u8, 3u8, 5u8, 6u8);
    // entry points: 0 and 5
    a.jmp("refine");
    a.jmp("main");
    a.label("refine");
    a.op(&[0]);
    a.label("main");
    for _ in 0..odd {
        a.op(&[1]);
    }
    // remember that this ran: write(key "t", the arguments)
    a.mv(9, 7);
    a.mv(10, 8);
    a.li(7, RW as i32);
    a.li(8, 1);
    a.host(4);
    a.li(last, 0);
    a.li(i, 0);
    a.li(log, LOG as i32);
    a.label("input");
    a.li(7, BUF as i32);
    a.li(8, 0);
    a.li(9, BUF_LEN as i32);
    a.li(10, 15);
    a.mv(11, i);
    a.host(1);
    a.rri(149, i, i, 1);
    a.bri(81, 7, -1, "end");
    a.li(4, BUF as i32);
    a.rri(124, 7, 4, 0);
    a.bri(81, 7, 1, "transfer");
    // an operand: skip 129 bytes, the gas, the tag and the length of the result
    a.rri(124, 7, 4, 129);
    a.rri(151, 7, 7, 56);
    a.rri(133, 7, 7, -1);
    a.rr(104, 7, 7);
    a.rrr(200, 7, 4, at);
    a.rri(149, at, at, 130);
    a.rri(124, 7, at, 0);
    a.bri(82, 7, 0, "input");
    a.rri(124, 7, at, 1);
    a.bri(83, 7, 128, "input");
    a.rri(149, at, at, 3);
    a.jmp("step");
    a.label("transfer");
    a.rri(149, at, 4, 17);
    a.label("step");
    a.rri(124, 7, at, 0);
    a.bri(83, 7, OPS as i32, "known");
    a.op(&[0]);
    a.label("known");
    a.rri(151, 7, 7, 1);
    a.jind(7, 2);
    let regs = |a: &mut Asm| {
        for k in 0..6 {
            a.rri(130, 7 + k, at, 2 + 8 * k as i32);
        }
    };
    for (k, id) in HOSTS.iter().enumerate() {
        a.entry(&format!("op{k}"));
        // flag 2: the result of the step before is the first argument
        a.rri(130, 7, at, 2);
        a.rri(124, 4, at, 1);
        a.rri(132, 4, 4, 2);
        let l = format!("own{k}");
        a.bri(81, 4, 0, &l);
        a.mv(7, last);
        a.label(&l);
        for k in 1..6 {
            a.rri(130, 7 + k, at, 2 + 8 * k as i32);
        }
        a.host(*id);
        a.jmp("after");
    }
    a.entry("trap");
    a.op(&[0]);
    a.entry("loop");
    a.label("loop2");
    a.jmp("loop2");
    a.entry("halt");
    regs(&mut a);
    a.jind(0, 0);
    a.entry("next");
    a.jmp("input");
    a.entry("load");
    regs(&mut a);
    a.rri(130, 7, 7, 0);
    a.jmp("after");
    a.entry("store");
    regs(&mut a);
    a.rri(123, 8, 7, 0);
    a.jmp("after");
    a.label("after");
    a.mv(last, 7);
    a.rri(124, 4, at, 1);
    a.rri(132, 4, 4, 1);
    a.rri(149, at, at, REC as i32);
    a.bri(81, 4, 0, "step");
    a.rri(123, 7, log, 0);
    a.rri(123, 8, log, 8);
    a.rri(149, log, log, 16);
    a.jmp("step");
    a.label("end");
    a.li(7, 0);
    a.li(8, 0);
    a.jind(0, 0);
    a.op(&[0]);
    a.done(vec![7; 100], b"t".to_vec(), 8, 4096)
}
/// Small programs, and blobs that are no programs. (code after the metadata, what it is)
pub enum Code {
    Program(Program),
    /// Not a program: accumulation panics without spending gas.
    Broken(Vec<u8>),
}
fn tiny(f: impl FnOnce(&mut Asm)) -> Program {
    let mut a = Asm::default();
    a.jmp("refine");
    a.jmp("main");
    a.label("refine");
    a.op(&[0]);
    a.label("main");
    f(&mut a);
    a.done(vec![], vec![], 1, 4096)
}
/// A program of random instructions, that keeps its registers and memory in the service's storage if it gets to the end.
pub fn random_program(r: &mut simrt::Rng) -> Program {
    const DATA: i32 = 0x20000;
    let mut a = Asm::default();
    a.jmp("refine");
    a.jmp("main");
    a.label("refine");
    a.op(&[0]);
    a.label("main");
    let word = |r: &mut simrt::Rng| match r.below(10) {
        0 => *r.pick(&[0, 1, 2, 3, 7, 8, 31, 32, 33, 63, 64, 65]),
        1 => r.pick(&[0u64, 1, 2, 127, 128, 32767, 32768]).wrapping_neg(),
        2 => (1u64 << r.below(64)).wrapping_sub(r.below(2)),
        3 => r.pick(&[i32::MIN, i32::MAX, -1, i32::MIN + 1]).to_owned() as i64 as u64,
        4 => *r.pick(&[i64::MIN as u64, i64::MAX as u64, u32::MAX as u64, 1 << 31, (1 << 31) - 1]),
        5 => DATA as u64 + r.below(4096),
        6 => r.below(1 << 32),
        7 => r.below(256),
        _ => u64::from_le_bytes(r.bytes(8).try_into().unwrap()),
    };
    for k in 0..13 {
        if r.chance(4, 5) {
            let w = word(r);
            a.li64(k, w);
        }
    }
    let regs = |r: &mut simrt::Rng| if r.chance(1, 30) { r.below(256) as u8 } else { (r.below(13) | r.below(13) << 4) as u8 };
    let reg = |r: &mut simrt::Rng| r.below(13) as u8;
    // an immediate of any length, and octets of no meaning after it
    let imm = |r: &mut simrt::Rng, v: Option<u64>| {
        let v = v.unwrap_or_else(|| word(r));
        let n = r.range(0, 4) as usize;
        let mut b = v.to_le_bytes()[..n].to_vec();
        if n == 4 && r.chance(1, 8) {
            b.extend(r.bytes(3));
        }
        b
    };
    // an address, in four octets
    let place = |r: &mut simrt::Rng| match r.below(40) {
        0 => *r.pick(&[DATA - 4, DATA + 4090, DATA + 4095, 0, 0xffff, 0x10000, -4, -0x1010000]),
        _ => DATA + r.below(4080) as i32,
    };
    let n = r.range(3, 70);
    let label = |k: u64| format!("l{k}");
    for k in 0..n {
        if r.chance(1, 4) || k == 0 {
            a.label(&label(k));
        }
        match r.below(20) {
            0..=5 => {
                let op = r.range(190, 230) as u8;
                let mut b = vec![op, regs(r), if r.chance(1, 30) { r.below(256) as u8 } else { reg(r) }];
                if r.chance(1, 20) {
                    b.extend(r.bytes(4));
                }
                a.op(&b);
            }
            6..=9 => {
                let mut b = vec![r.range(131, 161) as u8, regs(r)];
                b.extend(imm(r, None));
                a.op(&b);
            }
            10 | 11 => {
                let op = *r.pick(&[100u8, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111]);
                a.op(&[op, regs(r)]);
            }
            12 => {
                if r.chance(1, 2) {
                    let w = word(r);
                    a.li64(reg(r), w);
                } else {
                    let mut b = vec![51, regs(r)];
                    b.extend(imm(r, None));
                    a.op(&b);
                }
            }
            // memory at an address that the instruction holds
            13 => {
                let mut b = vec![r.range(52, 62) as u8, regs(r)];
                b.extend(place(r).to_le_bytes());
                a.op(&b);
            }
            14 => {
                let mut b = vec![r.range(30, 33) as u8, 4 | (r.below(32) as u8) << 3];
                b.extend(place(r).to_le_bytes());
                b.extend(imm(r, None));
                a.op(&b);
            }
            // memory at an address in a register
            15 | 16 => {
                let (base, off) = (reg(r), imm(r, None));
                let mut w = [0; 8];
                let n = off.len().min(4);
                w[..n].copy_from_slice(&off[..n]);
                let sh = 64 - 8 * n as u32;
                let x = if n == 0 { 0 } else { (u64::from_le_bytes(w) << sh) as i64 >> sh };
                let high = if r.chance(1, 3) { r.below(1 << 32) << 32 } else { 0 };
                a.li64(base, (place(r) as i64 as u64).wrapping_sub(x as u64).wrapping_add(high));
                if r.chance(1, 3) {
                    let mut b = vec![r.range(70, 73) as u8, base | (n as u8) << 4 | (r.below(2) as u8) << 7];
                    b.extend(&off[..n]);
                    b.extend(imm(r, None));
                    a.op(&b);
                } else {
                    let mut b = vec![r.range(120, 130) as u8, reg(r) | base << 4];
                    b.extend(&off);
                    a.op(&b);
                }
            }
            17 | 18 => {
                let to = if r.chance(1, 40) { format!("mid{k}") } else { "fwd".to_string() + &k.to_string() };
                let mut head = match r.below(8) {
                    0 => vec![40],
                    1 | 2 => vec![r.range(170, 175) as u8, regs(r)],
                    x => {
                        let n = r.below(5) as u8;
                        let mut b = vec![if x == 3 { 80 } else { r.range(81, 90) as u8 }, reg(r) | n << 4];
                        b.extend(&word(r).to_le_bytes()[..n as usize]);
                        b
                    }
                };
                if r.chance(1, 6) && head.len() == 2 {
                    head[1] = head[1] & 15 | (head[1] & 15) << 4;
                }
                a.mark_at(&format!("mid{k}"), 1);
                a.branch(&head, &to);
            }
            _ => match r.below(8) {
                0 => a.host(0),
                1 => a.host(*r.pick(&[99, 255, -1, 1 << 20])),
                2 if r.chance(1, 3) => {
                    a.op(&[0]);
                }
                2 => {
                    a.op(&[1]);
                }
                // through the table
                _ => {
                    let (base, d) = (reg(r), reg(r));
                    let l = format!("fwd{k}");
                    let at = a.table(&l);
                    let x = r.below(1 << 31) as u32;
                    let high = if r.chance(1, 3) { r.below(1 << 32) << 32 } else { 0 };
                    a.li64(base, (((at as u32 + 1) * 2).wrapping_sub(x) as u64).wrapping_add(high));
                    let mut b = if r.chance(1, 2) { vec![50, base] } else { vec![180, d | base << 4, 3, 1, 2, 0x83] };
                    b.extend(x.to_le_bytes());
                    a.op(&b);
                }
            },
        }
    }
    // every jump goes some way down
    let stops: Vec<u64> = (0..n).filter(|k| a.known(&label(*k))).collect();
    a.label("end");
    for k in 0..n {
        let ahead: Vec<u64> = stops.iter().copied().filter(|s| *s > k && *s < k + 12).collect();
        let to = if ahead.is_empty() {
            "end".to_string()
        } else {
            label(*r.pick(&ahead))
        };
        a.alias(&format!("fwd{k}"), &to);
    }
    for k in 0..13 {
        let mut b = vec![62, k];
        b.extend((DATA + 0x800 + 8 * k as i32).to_le_bytes());
        a.op(&b);
    }
    let mut b = vec![30, 4];
    b.extend((DATA + 0xff8).to_le_bytes());
    b.push(b'z');
    a.op(&b);
    a.li(7, DATA + 0xff8);
    a.li(8, 1);
    a.li(9, DATA);
    a.li(10, 0x870);
    a.host(4);
    a.li(7, DATA + 0x820);
    a.li(8, if r.chance(1, 2) { 32 } else { 0 });
    a.li(0, -65536);
    a.jind(0, 0);
    let mut p = a.done(vec![], r.bytes(300), 1, 4096);
    p.jump_width = *r.pick(&[2, 3, 4]);
    p
}
/// What the random programs are drawn from.
pub static SEED: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
pub struct Library {
    /// The preimage (with metadata) of each code, by its hash.
    pub codes: BTreeMap<H, (Vec<u8>, Option<Code>)>,
    /// Hashes of the interpreters, and of all the others.
    pub good: Vec<H>,
    pub odd: Vec<H>,
    /// Hashes of random programs, different in each run.
    pub random: Vec<H>,
}
fn with_meta(meta: &[u8], blob: &[u8]) -> Vec<u8> {
    let mut w = W::default();
    w.lb(meta).b(blob);
    w.0
}
pub fn library() -> &'static Library {
    static L: std::sync::OnceLock<Library> = std::sync::OnceLock::new();
    L.get_or_init(|| {
        let mut l = Library { codes: BTreeMap::new(), good: vec![], odd: vec![], random: vec![] };
        let mut add = |meta: &[u8], c: Code, good: bool| {
            let pre = match &c {
                Code::Program(p) => with_meta(meta, &p.blob()),
                Code::Broken(b) => with_meta(meta, b),
            };
            let h = blake(&pre);
            l.codes.insert(h, (pre, Some(c)));
            if good { &mut l.good } else { &mut l.odd }.push(h);
        };
        add(b"", Code::Program(interpreter(0)), true);
        add(b"some service", Code::Program(interpreter(1)), true);
        add(b"\x01", Code::Program(interpreter(3)), true);
        for (i, (meta, width)) in [(&b"\x80\x00\xff"[..], 2u8), (b"caf\xc3\xa9", 3), (&[0xbf; 64], 9)].into_iter().enumerate() {
            let mut p = interpreter(i as u8);
            p.jump_width = width;
            add(meta, Code::Program(p), true);
        }
        // ends with the output register pointing nowhere
        add(b"", Code::Program(tiny(|a| {
            a.li64(7, 0x1_2345_6789);
            a.li(8, 32);
            a.jind(0, 0);
        })), false);
        add(b"", Code::Program(tiny(|a| {
            a.li64(7, 0xffff_fff0);
            a.li64(8, u64::MAX);
            a.jind(0, 0);
        })), false);
        // yields its stack
        add(b"", Code::Program(tiny(|a| {
            a.rri(149, 7, 1, -32);
            a.li(8, 32);
            a.jind(0, 0);
        })), false);
        // jumps back to the second instruction of the program, until the gas is gone
        let mut a = Asm::default();
        a.jmp("refine");
        a.mark("second");
        a.jmp("main");
        a.label("refine");
        a.op(&[0]);
        a.label("main");
        a.jmp("second");
        add(b"", Code::Program(a.done(vec![], vec![], 1, 4096)), false);
        // a dynamic jump to an address that does not fit 32 bits
        for high in [0, 1 << 32, 1 << 56] {
            let mut p = tiny(|a| {
                a.li(1, 2);
                a.jind(1, 0);
                a.entry("here");
                a.jind(0, 0);
            });
            p.jump_width = 8;
            p.jumps[0] |= high;
            add(b"", Code::Program(p), false);
        }
        // lengths that the program does not have
        let code = |c: &[u8]| {
            let mut w = W::default();
            w.b(&[0; 11]).u32(c.len() as u32).b(c);
            w.0
        };
        let lens = |j: u64, z: u8, c: u64| {
            let mut w = W::default();
            w.n(j).u8(z).n(c).b(&[0; 9]);
            w.0
        };
        for (j, z, c) in [(1 << 40, 4, 1), (u64::MAX, 1, 1), (u64::MAX / 4 + 1, 4, 1), (0, 1, 1 << 40), (0, 0, u64::MAX), (1, 255, 1), (10, 1, 0)] {
            add(b"", Code::Broken(code(&lens(j, z, c))), false);
        }
        // asks for more heap than there are addresses
        for n in [1 << 32, u64::MAX - 0x20000, u64::MAX] {
            add(b"", Code::Program(tiny(|a| {
                a.li64(7, n);
                a.rr(101, 8, 7);
                a.li(7, 0);
                a.bri(81, 8, 0, "out");
                a.op(&[0]);
                a.label("out");
                a.jind(0, 0);
            })), false);
        }
        // reads and writes over the end of the address space, and below the first zone
        add(b"", Code::Program(tiny(|a| {
            a.li64(7, 0xffff_fffd);
            a.rri(130, 8, 7, 0);
            a.jind(0, 0);
        })), false);
        add(b"", Code::Program(tiny(|a| {
            a.li64(7, 0xffff_fffd);
            a.rri(123, 8, 7, 0);
            a.jind(0, 0);
        })), false);
        add(b"", Code::Program(tiny(|a| {
            a.rri(124, 8, 7, -1);
            a.jind(0, 0);
        })), false);
        // a long run of bytes that are no instructions
        add(b"", Code::Program(tiny(|a| {
            let mut b = vec![51, 7];
            b.extend([0; 18]);
            a.op(&b);
            a.li(8, 0);
            a.jind(0, 0);
        })), false);
        // the last instruction is cut off, and never reached
        for cut in [&[20u8][..], &[20, 7, 1, 2], &[51], &[30], &[120], &[180], &[180, 1], &[200], &[200, 1], &[81, 0x47], &[70], &[100], &[33, 4]] {
            add(b"", Code::Program(tiny(|a| {
                a.li(7, 0);
                a.li(8, 0);
                a.jind(0, 0);
                a.op(cut);
            })), false);
        }
        // cut off, and run: the missing bytes are zero
        add(b"", Code::Program(tiny(|a| {
            a.li(8, 0);
            a.jmp("tail");
            a.label("out");
            a.jind(0, 0);
            a.label("tail");
            a.op(&[51]);
        })), false);
        // trap at once
        add(b"", Code::Program(tiny(|a| {
            a.op(&[0]);
        })), false);
        let whole = interpreter(0).blob();
        add(b"", Code::Broken(vec![]), false);
        add(b"", Code::Broken(whole[..whole.len() - 1].to_vec()), false);
        add(b"", Code::Broken([&whole[..], &[0]].concat()), false);
        add(b"", Code::Broken(whole[..20].to_vec()), false);
        add(b"", Code::Broken(vec![0xff; 40]), false);
        // the code is there, but its metadata is not: no code
        for pre in [vec![200u8, 1, 2, 3], vec![], vec![0xff; 3]] {
            let h = blake(&pre);
            l.codes.insert(h, (pre, None));
            l.odd.push(h);
        }
        let mut r = simrt::Rng::stream(SEED.load(std::sync::atomic::Ordering::Relaxed), 91);
        for _ in 0..4 {
            let p = random_program(&mut r);
            let pre = with_meta(b"random", &p.blob());
            let h = blake(&pre);
            l.codes.insert(h, (pre, Some(Code::Program(p))));
            l.random.push(h);
        }
        l
    })
}

// --- accumulation ---
#[derive(Clone, Debug, PartialEq)]
pub struct Xfer {
    pub from: u32,
    pub to: u32,
    pub amount: u64,
    pub memo: Vec<u8>,
    pub gas: u64,
}
#[derive(Clone)]
struct Part {
    d: BTreeMap<u32, Account>,
    staging: VSet,
    queues: [Vec<H>; C],
    privs: Privs,
}
#[derive(Clone)]
struct Ctx {
    s: u32,
    e: Part,
    next: u32,
    t: Vec<Xfer>,
    y: Option<H>,
    p: BTreeSet<(u32, Vec<u8>)>,
}
struct One {
    e: Part,
    t: Vec<Xfer>,
    y: Option<H>,
    gas: u64,
    p: BTreeSet<(u32, Vec<u8>)>,
}
const NONE: u64 = u64::MAX;
const WHAT: u64 = u64::MAX - 1;
const WHO: u64 = u64::MAX - 3;
const FULL: u64 = u64::MAX - 4;
const CORE: u64 = u64::MAX - 5;
const CASH: u64 = u64::MAX - 6;
const LOW: u64 = u64::MAX - 7;
const HUH: u64 = u64::MAX - 8;
pub const MIN_ID: u64 = 1 << 16;
pub const D: u64 = 32;

fn check(d: &BTreeMap<u32, Account>, mut i: u64) -> u32 {
    while d.contains_key(&(i as u32)) {
        i = (i - MIN_ID + 1) % ((1 << 32) - (1 << 8) - MIN_ID) + MIN_ID;
    }
    i as u32
}
fn bump(i: u32) -> u64 {
    MIN_ID + (i as u64 - MIN_ID + 42) % ((1 << 32) - (1 << 8) - MIN_ID)
}
fn constants() -> Vec<u8> {
    let mut w = W::default();
    w.u64(10).u64(1).u64(100).u16(C as u16).u32(32).u32(E).u64(10_000_000).u64(50_000_000).u64(1_000_000_000).u64(20_000_000);
    w.u16(8).u16(16).u16(8).u16(3).u32(L).u16(3).u16(8).u16(6).u16(Q as u16).u16(R as u16).u16(128).u16(U as u16).u16(V as u16);
    w.u32(64_000).u32(13_791_360).u32(4_000_000).u32(4).u32(3072).u32(1026).u32(48 * 1024).u32(128).u32(3072).u32(Y);
    w.0
}

pub struct Services;
struct Round<'a> {
    slot: u32,
    eta: H,
    inputs: &'a [Vec<u8>],
}
fn enc_xfer(t: &Xfer) -> Vec<u8> {
    let mut w = W::default();
    w.u8(1).u32(t.from).u32(t.to).u64(t.amount).b(&t.memo).u64(t.gas);
    w.0
}
fn operand(r: &Report, d: &Digest) -> Vec<u8> {
    let mut w = W::default();
    w.u8(0).b(&r.wp).b(&r.seg_root).b(&r.auth).b(&d.payload).n(d.gas);
    match &d.result {
        WorkResult::Ok(x) => w.u8(0).lb(x),
        WorkResult::Err(e) => w.u8(*e),
    };
    w.lb(&r.auth_trace);
    w.0
}

/// What a host call does to the machine: a result, or the end of the run.
enum Out {
    R7(u64),
    R78(u64, u64),
    Panic,
    OutOfGas,
}
fn small(x: u64) -> Option<u32> {
    u32::try_from(x).ok()
}
fn addr(x: u64) -> Option<u64> {
    small(x).map(|x| x as u64)
}
/// Copies a window of `v` to memory; None: the memory cannot be written.
fn put(vm: &mut Vm, v: &[u8], buf: u64, off: u64, len: u64) -> Option<()> {
    let f = off.min(v.len() as u64);
    let l = len.min(v.len() as u64 - f);
    let o = addr(buf)?;
    vm.write(o, &v[f as usize..(f + l) as usize]).then_some(())
}
pub fn e32(s: u32) -> H {
    let mut h = [0; 32];
    h[..4].copy_from_slice(&s.to_le_bytes());
    h
}
fn host(id: u64, vm: &mut Vm, x: &mut Ctx, y: &mut Ctx, rd: &Round) -> Out {
    use Out::*;
    if vm.gas < 10 {
        return OutOfGas;
    }
    let left = vm.gas as u64 - 10;
    let [r7, r8, r9, r10, r11, r12] = [vm.regs[7], vm.regs[8], vm.regs[9], vm.regs[10], vm.regs[11], vm.regs[12]];
    let me = x.s;
    let t = rd.slot;
    macro_rules! rd {
        ($a:expr, $n:expr) => {
            match addr($a).and_then(|a| vm.read(a, $n)) {
                Some(v) => v,
                None => return Panic,
            }
        };
    }
    macro_rules! hash_at {
        ($a:expr) => {{
            let v: H = rd!($a, 32).try_into().unwrap();
            v
        }};
    }
    let who = |r: u64| if r == u64::MAX { Some(me) } else { small(r) };
    match id {
        0 => R7(left),
        1 => {
            let v = match r10 {
                0 => constants(),
                1 => rd.eta.to_vec(),
                14 => {
                    let mut w = W::default();
                    w.n(rd.inputs.len() as u64);
                    for i in rd.inputs {
                        w.b(i);
                    }
                    w.0
                }
                15 if r11 < rd.inputs.len() as u64 => rd.inputs[r11 as usize].clone(),
                _ => return R7(NONE),
            };
            if put(vm, &v, r7, r8, r9).is_none() {
                return Panic;
            }
            R7(v.len() as u64)
        }
        2 | 3 => {
            let (a, v);
            if id == 2 {
                let h = hash_at!(r8);
                a = who(r7).and_then(|s| x.e.d.get(&s));
                v = a.and_then(|a| a.pre.get(&h)).cloned();
                let Some(v) = v else { return R7(NONE) };
                if put(vm, &v, r9, r10, r11).is_none() {
                    return Panic;
                }
                return R7(v.len() as u64);
            }
            let k = rd!(r8, r9);
            a = who(r7).and_then(|s| x.e.d.get(&s));
            v = a.and_then(|a| a.storage.get(&k)).cloned();
            let Some(v) = v else { return R7(NONE) };
            if put(vm, &v, r10, r11, r12).is_none() {
                return Panic;
            }
            R7(v.len() as u64)
        }
        4 => {
            let k = rd!(r7, r8);
            let v = rd!(r9, r10);
            let mut a = x.e.d[&me].clone();
            let old = a.storage.get(&k).map(|v| v.len() as u64).unwrap_or(NONE);
            if r10 == 0 {
                a.storage.remove(&k);
            } else {
                a.storage.insert(k, v);
            }
            if a.threshold() > a.bal {
                return R7(FULL);
            }
            x.e.d.insert(me, a);
            R7(old)
        }
        5 => {
            let Some(a) = who(r7).and_then(|s| x.e.d.get(&s)) else { return R7(NONE) };
            let mut w = W::default();
            w.b(&a.code).u64(a.bal).u64(a.threshold()).u64(a.g_acc).u64(a.g_xfer).u64(a.octets()).u32(a.items()).u64(a.gratis);
            w.u32(a.created).u32(a.last).u32(a.parent);
            if put(vm, &w.0, r8, r9, r10).is_none() {
                return Panic;
            }
            R7(w.0.len() as u64)
        }
        14 => {
            let a = rd!(r8, 4 * C as u64);
            let Some(n) = r12.checked_mul(12) else { return Panic };
            let z = rd!(r11, n);
            let (Some(m), Some(v), Some(r)) = (small(r7), small(r9), small(r10)) else { return R7(WHO) };
            let le = |b: &[u8]| u32::from_le_bytes(b.try_into().unwrap());
            x.e.privs = Privs {
                manager: m,
                assign: std::array::from_fn(|c| le(&a[4 * c..4 * c + 4])),
                designate: v,
                registrar: r,
                always: z.chunks(12).map(|b| (le(&b[..4]), u64::from_le_bytes(b[4..].try_into().unwrap()))).collect(),
            };
            R7(0)
        }
        15 => {
            let q = rd!(r8, 32 * Q as u64);
            if r7 >= C as u64 {
                return R7(CORE);
            }
            let c = r7 as usize;
            if x.e.privs.assign[c] != me {
                return R7(HUH);
            }
            let Some(a) = small(r9) else { return R7(WHO) };
            x.e.queues[c] = q.chunks(32).map(|h| h.try_into().unwrap()).collect();
            x.e.privs.assign[c] = a;
            R7(0)
        }
        16 => {
            let k = rd!(r7, 336 * V as u64);
            if x.e.privs.designate != me {
                return R7(HUH);
            }
            for (i, c) in k.chunks(336).enumerate() {
                x.e.staging[i] = VKey(c.try_into().unwrap());
            }
            R7(0)
        }
        17 => {
            *y = x.clone();
            R7(left)
        }
        18 => {
            let Some(l) = small(r8) else { return Panic };
            let code = hash_at!(r7);
            if r11 != 0 && x.e.privs.manager != me {
                return R7(HUH);
            }
            let mut n = Account {
                code,
                g_acc: r9,
                g_xfer: r10,
                gratis: r11,
                created: t,
                parent: me,
                ..Default::default()
            };
            n.look.insert((code, l), vec![]);
            n.bal = n.threshold();
            let a = &x.e.d[&me];
            if a.bal.saturating_sub(a.threshold()) < n.bal {
                return R7(CASH);
            }
            let special = r12 < MIN_ID && x.e.privs.registrar == me;
            let id = if special { r12 as u32 } else { x.next };
            if special && x.e.d.contains_key(&id) {
                return R7(FULL);
            }
            x.e.d.get_mut(&me).unwrap().bal -= n.bal;
            x.e.d.insert(id, n);
            if !special {
                x.next = check(&x.e.d, bump(x.next));
            }
            R7(id as u64)
        }
        19 => {
            let h = hash_at!(r7);
            let a = x.e.d.get_mut(&me).unwrap();
            (a.code, a.g_acc, a.g_xfer) = (h, r8, r9);
            R7(0)
        }
        20 => {
            let memo = rd!(r10, 128);
            let Some(to) = small(r7).filter(|s| x.e.d.contains_key(s)) else { return R7(WHO) };
            if r9 < x.e.d[&to].g_xfer {
                return R7(LOW);
            }
            let a = x.e.d.get_mut(&me).unwrap();
            if a.bal < r8 || a.bal - r8 < a.threshold() {
                return R7(CASH);
            }
            if left < r9 {
                return OutOfGas;
            }
            vm.gas -= r9 as i64;
            a.bal -= r8;
            x.t.push(Xfer { from: me, to, amount: r8, memo, gas: r9 });
            R7(0)
        }
        21 => {
            let h = hash_at!(r8);
            let Some(s) = small(r7).filter(|s| *s != me && x.e.d.get(s).is_some_and(|a| a.code == e32(me))) else {
                return R7(WHO);
            };
            let a = &x.e.d[&s];
            let Some(l) = small(a.octets().max(81) - 81) else { return R7(HUH) };
            match a.look.get(&(h, l)) {
                Some(v) if a.items() == 2 && v.len() == 2 && v[1] as u64 + D < t as u64 => {}
                _ => return R7(HUH),
            }
            let b = a.bal;
            x.e.d.remove(&s);
            x.e.d.get_mut(&me).unwrap().bal += b;
            R7(0)
        }
        22 => {
            let h = hash_at!(r7);
            let v = small(r8).and_then(|l| x.e.d[&me].look.get(&(h, l)));
            let Some(v) = v else { return R78(NONE, 0) };
            let g = |i: usize| v.get(i).copied().unwrap_or(0) as u64;
            R78(v.len() as u64 + (g(0) << 32), g(1) + (g(2) << 32))
        }
        23 => {
            let h = hash_at!(r7);
            let Some(l) = small(r8) else { return R7(FULL) };
            let mut a = x.e.d[&me].clone();
            match a.look.get_mut(&(h, l)) {
                None => {
                    a.look.insert((h, l), vec![]);
                }
                Some(v) if v.len() == 2 => v.push(t),
                _ => return R7(HUH),
            }
            if a.bal < a.threshold() {
                return R7(FULL);
            }
            x.e.d.insert(me, a);
            R7(0)
        }
        24 => {
            let h = hash_at!(r7);
            let Some(l) = small(r8) else { return R7(HUH) };
            let a = x.e.d.get_mut(&me).unwrap();
            let Some(v) = a.look.get_mut(&(h, l)) else { return R7(HUH) };
            let gone = |u: u32| u as u64 + D < t as u64;
            match v.as_slice() {
                [] => {}
                [_, u] if gone(*u) => {}
                [_] => {
                    v.push(t);
                    return R7(0);
                }
                [_, u, w] if gone(*u) => {
                    *v = vec![*w, t];
                    return R7(0);
                }
                _ => return R7(HUH),
            }
            a.look.remove(&(h, l));
            a.pre.remove(&h);
            R7(0)
        }
        25 => {
            x.y = Some(hash_at!(r7));
            R7(0)
        }
        26 => {
            let d = rd!(r8, r9);
            let Some((s, a)) = who(r7).and_then(|s| Some((s, x.e.d.get(&s)?))) else { return R7(WHO) };
            if a.look.get(&(blake(&d), d.len() as u32)).is_none_or(|v| !v.is_empty()) || !x.p.insert((s, d)) {
                return R7(HUH);
            }
            R7(0)
        }
        _ => R7(WHAT),
    }
}
/// Sums of gas that no counter holds are left open by the protocol; the code caps them.
fn total(g: impl Iterator<Item = u64>) -> u64 {
    g.fold(0, u64::saturating_add)
}
/// A service with gas for more steps than a run here can take, and code that takes them.
pub const TOO_LONG: Rej = "too-long";
/// Ψ_A: what one service makes of its inputs.
fn invoke(e: &Part, s: u32, gas: u64, xfers: &[&Xfer], ops: &[Vec<u8>], slot: u32, eta: &H) -> Result<One, Rej> {
    let gas = gas.min(i64::MAX as u64);
    let mut e = e.clone();
    let Some(a) = e.d.get_mut(&s) else { return Ok(One { e, t: vec![], y: None, gas: 0, p: BTreeSet::new() }) };
    a.bal += xfers.iter().map(|t| t.amount).sum::<u64>();
    let lib = library();
    let code = match a.pre.contains_key(&a.code).then(|| lib.codes.get(&a.code)) {
        Some(Some((_, Some(c)))) => c,
        Some(None) => panic!("harness: unknown code"),
        _ => return Ok(One { e, t: vec![], y: None, gas: 0, p: BTreeSet::new() }),
    };
    let p = match code {
        Code::Broken(_) => return Ok(One { e, t: vec![], y: None, gas: 0, p: BTreeSet::new() }),
        Code::Program(p) => p,
    };
    let inputs: Vec<Vec<u8>> = xfers.iter().map(|t| enc_xfer(t)).chain(ops.iter().cloned()).collect();
    let mut args = W::default();
    args.n(slot as u64).n(s as u64).n(inputs.len() as u64);
    let mut seed = W::default();
    seed.n(s as u64).b(eta).n(slot as u64);
    let hash = blake(&seed.0);
    let first = u32::from_le_bytes(hash[..4].try_into().unwrap()) as u64 % ((1 << 32) - MIN_ID - (1 << 8)) + MIN_ID;
    let next = check(&e.d, first);
    let mut x = Ctx { s, e, next, t: vec![], y: None, p: BTreeSet::new() };
    let mut y = x.clone();
    let mut vm = Vm::new(p, &args.0, 5, gas);
    let rd = Round { slot, eta: *eta, inputs: &inputs };
    let exit = loop {
        match vm.run() {
            Exit::Host(id) => {
                let out = host(id, &mut vm, &mut x, &mut y, &rd);
                let name = match out {
                    Out::R7(NONE) => "none",
                    Out::R7(WHAT) => "what",
                    Out::R7(WHO) => "who",
                    Out::R7(FULL) => "full",
                    Out::R7(CORE) => "core",
                    Out::R7(CASH) => "cash",
                    Out::R7(LOW) => "low",
                    Out::R7(HUH) => "huh",
                    Out::Panic => "panic",
                    Out::OutOfGas => "out-of-gas",
                    _ => "ok",
                };
                simrt::count(Box::leak(format!("host.{id}.{name}").into_boxed_str()));
                vm.gas -= 10;
                match out {
                    Out::R7(v) => vm.regs[7] = v,
                    Out::R78(a, b) => (vm.regs[7], vm.regs[8]) = (a, b),
                    Out::Panic => break Exit::Panic,
                    Out::OutOfGas => {
                        vm.gas = -1;
                        break Exit::OutOfGas;
                    }
                }
            }
            Exit::TooLong => return Err(TOO_LONG),
            e => break e,
        }
    };
    let used = gas - vm.gas.max(0) as u64;
    simrt::count(match exit {
        Exit::Halt => "svc.halt",
        Exit::Panic => "svc.panic",
        _ => "svc.out_of_gas",
    });
    if exit == Exit::Halt {
        let out = addr(vm.regs[7]).and_then(|a| vm.read(a, vm.regs[8]));
        if let Some(h) = out.and_then(|o| H::try_from(o).ok()) {
            x.y = Some(h);
        }
        return Ok(One { e: x.e, t: x.t, y: x.y, gas: used, p: x.p });
    }
    Ok(One { e: y.e, t: y.t, y: y.y, gas: used, p: y.p })
}
fn pick<T: PartialEq + Copy>(o: T, a: T, b: T) -> T {
    if a == o {
        b
    } else {
        a
    }
}
impl Accumulator for Services {
    fn run(&mut self, st: &mut St, reports: &[Report]) -> Result<AccOut, Rej> {
        let mut o = AccOut::default();
        let mut e = Part { d: st.accounts.clone(), staging: st.staging, queues: st.queues.clone(), privs: st.privs.clone() };
        let mut always = e.privs.always.clone();
        let mut left = 20_000_000u64.saturating_add(total(always.values().copied()));
        let mut xfers: Vec<Xfer> = vec![];
        let mut used: BTreeMap<u32, u64> = BTreeMap::new();
        let mut round = 0;
        loop {
            let rest = &reports[o.count..];
            let mut sum = 0;
            let n = rest.iter().take_while(|r| {
                sum += r.gas();
                sum <= left
            }).count();
            if n + xfers.len() + always.len() == 0 {
                break;
            }
            round += 1;
            let batch = &rest[..n];
            let mut ids: BTreeSet<u32> = batch.iter().flat_map(|r| &r.digests).map(|d| d.service).collect();
            ids.extend(always.keys());
            ids.extend(xfers.iter().map(|t| t.to));
            if ids.len() > 1 {
                simrt::count("svc.parallel_rounds");
            }
            let mut res: BTreeMap<u32, One> = BTreeMap::new();
            for s in &ids {
                let mine: Vec<&Xfer> = xfers.iter().filter(|t| t.to == *s).collect();
                let ds: Vec<(&Report, &Digest)> =
                    batch.iter().flat_map(|r| r.digests.iter().map(move |d| (r, d))).filter(|(_, d)| d.service == *s).collect();
                let gas = total(always.get(s).copied().into_iter().chain(mine.iter().map(|t| t.gas)).chain(ds.iter().map(|(_, d)| d.gas)));
                let ops: Vec<Vec<u8>> = ds.iter().map(|(r, d)| operand(r, d)).collect();
                res.insert(*s, invoke(&e, *s, gas, &mine, &ops, st.slot, &st.eta[0])?);
            }
            let spent = total(res.values().map(|r| r.gas));
            left = left.saturating_add(total(xfers.iter().map(|t| t.gas))).saturating_sub(spent);
            // integration
            let old = e.clone();
            let part = |s: u32| res.get(&s).map(|r| &r.e).unwrap_or(&old);
            let m = &part(old.privs.manager).privs;
            e.privs.manager = m.manager;
            e.privs.always = m.always.clone();
            for c in 0..C {
                let a = old.privs.assign[c];
                e.privs.assign[c] = pick(a, m.assign[c], part(a).privs.assign[c]);
                e.queues[c] = part(a).queues[c].clone();
            }
            let v = old.privs.designate;
            e.privs.designate = pick(v, m.designate, part(v).privs.designate);
            e.staging = part(v).staging;
            let r = old.privs.registrar;
            e.privs.registrar = pick(r, m.registrar, part(r).privs.registrar);
            let mut touched: BTreeSet<u32> = BTreeSet::new();
            let (mut new, mut gone) = (BTreeMap::new(), BTreeSet::new());
            for (s, one) in &res {
                for (i, a) in &one.e.d {
                    if !old.d.contains_key(i) {
                        if !touched.insert(*i) {
                            return Err("duplicate-service");
                        }
                        new.insert(*i, a.clone());
                    } else if i == s {
                        e.d.insert(*i, a.clone());
                    }
                }
                for i in old.d.keys() {
                    if !one.e.d.contains_key(i) {
                        if !touched.insert(*i) {
                            return Err("duplicate-service");
                        }
                        gone.insert(*i);
                    }
                }
            }
            e.d.extend(new);
            e.d.retain(|i, _| !gone.contains(i));
            for (s, d) in res.values().flat_map(|r| &r.p) {
                let k = (blake(d), d.len() as u32);
                if let Some(a) = e.d.get_mut(s) {
                    if a.look.get(&k).is_some_and(|v| v.is_empty()) {
                        a.look.insert(k, vec![st.slot]);
                        a.pre.insert(k.0, d.clone());
                        simrt::count("svc.provided");
                    }
                }
            }
            for (s, one) in &res {
                let u = used.entry(*s).or_default();
                *u = u.saturating_add(one.gas);
                if let Some(h) = one.y {
                    o.theta.insert((*s, h));
                }
            }
            xfers = res.values().flat_map(|r| r.t.clone()).collect();
            o.count += n;
            always.clear();
        }
        simrt::count_n("svc.rounds", round);
        for r in &reports[..o.count] {
            for d in &r.digests {
                o.stats.entry(d.service).or_default().1 += 1;
            }
        }
        for (s, g) in used {
            if g > 0 {
                o.stats.entry(s).or_default().0 += g;
            }
        }
        st.accounts = e.d;
        st.staging = e.staging;
        st.queues = e.queues;
        st.privs = e.privs;
        Ok(o)
    }
}
