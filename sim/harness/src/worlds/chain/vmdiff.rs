//! Random programs in the reference interpreter and in the real one, compared at every exit. Not a check: a tool that
//! keeps the reference honest, far quicker than the programs that services run.
use super::{svc, vm};
use fr_pvm_core::{
    interpreter::Interpreter,
    program::{
        loader::ProgramLoader,
        types::{formatted_program::FormattedProgram, program_state::ProgramState},
    },
    state::{
        memory::{AccessType, Memory},
        vm_state::VMState,
    },
};
use fr_pvm_types::exit_reason::ExitReason;

/// Octets at random, of which some start instructions.
fn soup(r: &mut simrt::Rng) -> vm::Program {
    let n = r.range(1, 60) as usize;
    let mut p = vm::Program { ro: vec![], rw: r.bytes(64), pages: 1, stack: 4096, code: vec![], mask: vec![], jumps: vec![], jump_width: r.range(1, 9) as u8 };
    for _ in 0..n {
        let op = loop {
            let op = r.below(256) as u8;
            if (vm::defined(op) && op != 101 && (op > 1 || r.chance(1, 10))) {
                break op;
            }
        };
        let len = match r.below(10) {
            0 => r.below(30) as usize,
            1..=4 => 2,
            _ => r.below(9) as usize,
        };
        p.code.push(op);
        p.mask.push(true);
        for _ in 0..len {
            let small = r.chance(1, 2);
            p.code.push(if small { r.below(40) as u8 } else { r.below(256) as u8 });
            // an instruction within an instruction (whether one that is not defined ends a block is left open)
            let op = *p.code.last().unwrap();
            p.mask.push(r.chance(1, 60) && vm::defined(op) && op != 101);
        }
    }
    for _ in 0..r.below(4) {
        let t = r.below(p.code.len() as u64 + 2);
        p.jumps.push(if p.jump_width == 1 { t & 255 } else { t & 0xffff });
    }
    p
}

fn memory(p: &vm::Program, args: &[u8]) -> Memory {
    let mut m = Memory::new(1 << 32, 4096);
    let up = |x: usize| x.div_ceil(4096) * 4096;
    let mut map = |start: usize, len: usize, data: &[u8], writable: bool| {
        if len == 0 {
            return;
        }
        let r = start as u32..(start + len) as u32;
        m.set_address_range_access(r.clone(), AccessType::ReadWrite).expect("access");
        m.write_bytes(start as u32, data).expect("write");
        if !writable {
            m.set_address_range_access(r, AccessType::ReadOnly).expect("access");
        }
    };
    map(1 << 16, up(p.ro.len()), &p.ro, false);
    let w = (2 << 16) + p.ro.len().div_ceil(1 << 16) * (1 << 16);
    map(w, up(p.rw.len()) + p.pages as usize * 4096, &p.rw, true);
    let top = (1usize << 32) - (2 << 16) - (1 << 24);
    map(top - up(p.stack as usize), up(p.stack as usize), &[], true);
    map((1usize << 32) - (1 << 16) - (1 << 24), up(args.len()), args, false);
    m
}

/// What differs, if anything.
fn compare(p: &vm::Program, args: &[u8], regs: Option<[u64; 13]>, pc: u64, gas: u64) -> Option<String> {
    let fp = FormattedProgram::from_standard_program(&p.blob()).map_err(|e| format!("{e:?}"));
    let fp = match fp {
        Ok(fp) => fp,
        Err(e) => return Some(format!("not a program: {e}")),
    };
    let mut ps = ProgramState::default();
    if let Err(e) = ProgramLoader::load_program(&fp.code, &mut ps) {
        return Some(format!("does not load: {e:?}"));
    }
    let mut v = vm::Vm::new(p, args, pc, gas);
    if let Some(r) = regs {
        v.regs = r;
    }
    let mut s = VMState { regs: v.regs, memory: memory(p, args), pc, gas_counter: gas as i64 };
    for _ in 0..200 {
        let want = v.run();
        if want == vm::Exit::TooLong {
            return None;
        }
        let got = Interpreter::invoke_general(&mut s, &ps);
        let got = match got {
            Ok(ExitReason::RegularHalt) => vm::Exit::Halt,
            Ok(ExitReason::Panic | ExitReason::PageFault(_)) => vm::Exit::Panic,
            Ok(ExitReason::OutOfGas) => vm::Exit::OutOfGas,
            Ok(ExitReason::HostCall(h)) => vm::Exit::Host(h as u64),
            Ok(e) => return Some(format!("{e:?}, not {want:?}")),
            Err(e) => return Some(format!("{e:?}, not {want:?}")),
        };
        let both_stop = want == vm::Exit::OutOfGas && got == vm::Exit::Panic && v.gas < 0;
        let host = |e| match e {
            vm::Exit::Host(x) if !(x < 27 || x == 100) => vm::Exit::Host(255),
            e => e,
        };
        if host(want) != host(got) && !both_stop {
            return Some(format!("{got:?}, not {want:?} (gas {} {}, pc {} {})", s.gas_counter, v.gas, s.pc, v.pc));
        }
        if v.gas.max(0) != s.gas_counter.max(0) {
            return Some(format!("gas {}, not {}, at {want:?}", s.gas_counter, v.gas));
        }
        if want == vm::Exit::Panic || want == vm::Exit::OutOfGas {
            return None;
        }
        if s.regs != v.regs {
            let k = (0..13).find(|k| s.regs[*k] != v.regs[*k]).unwrap();
            return Some(format!("register {k}: {:#x}, not {:#x}, at {want:?}", s.regs[k], v.regs[k]));
        }
        let rw = 0x20000u64;
        let len = p.rw.len().div_ceil(4096) as u64 * 4096 + p.pages as u64 * 4096;
        for (a, n) in [(rw, len), ((1 << 32) - (2 << 16) - (1 << 24) - 4096, 4096)] {
            let (x, y) = (v.read(a, n), s.memory.read_bytes(a as u32, n as usize).ok());
            if x != y {
                return Some(format!("memory at {a:#x} at {want:?}"));
            }
        }
        if want == vm::Exit::Halt {
            return None;
        }
        s.pc = Interpreter::next_pc(s.pc, &ps);
        if s.pc != v.pc {
            return Some(format!("pc {}, not {}", s.pc, v.pc));
        }
        v.gas -= 10;
        s.gas_counter -= 10;
        v.regs[7] = v.regs[7].wrapping_mul(0x9e37_79b9_7f4a_7c15);
        s.regs[7] = v.regs[7];
        if v.gas < 0 {
            return None;
        }
    }
    None
}

pub fn run(n: u64, base: u64) -> i32 {
    let mut seen: std::collections::BTreeMap<String, u64> = Default::default();
    for k in base..base + n {
        let mut r = simrt::Rng::stream(k, 77);
        let (p, regs, pc) = if r.chance(1, 2) {
            (svc::random_program(&mut r), None, 5)
        } else {
            let p = soup(&mut r);
            let mut regs = [0u64; 13];
            for x in &mut regs {
                let w = u64::from_le_bytes(r.bytes(8).try_into().unwrap());
                *x = match r.below(8) {
                    0 => r.below(70),
                    1 => r.below(70).wrapping_neg(),
                    2 => 1 << r.below(64),
                    3 => i32::MIN as i64 as u64,
                    4 | 5 => 0x20000 + r.below(4200),
                    6 => w >> 32,
                    _ => w,
                };
            }
            // not every odd register is an address
            (p, Some(regs), 0)
        };
        let gas = if r.chance(1, 4) { r.below(60) } else { 3000 };
        let what = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| compare(&p, &[1, 2, 3], regs, pc, gas))) {
            Ok(w) => w,
            Err(e) => Some(format!("panic: {:?}", e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())))),
        };
        if let Some(w) = what {
            let e = seen.entry(w.split(|c: char| c.is_ascii_digit()).next().unwrap_or("").to_string()).or_default();
            *e += 1;
            if *e <= 3 {
                println!("program {k} ({}): {w}", if regs.is_some() { "soup" } else { "written" });
                if std::env::var_os("FV_DEBUG").is_some() {
                    for i in 0..p.code.len() {
                        if p.mask[i] {
                            let skip = p.skip(i);
                            println!("  {i}: {:?}", &p.code[i..(i + 1 + skip).min(p.code.len())]);
                        }
                    }
                    println!("  {:x?} gas {gas} jumps {:?} width {}", regs, p.jumps, p.jump_width);
                }
            }
        }
    }
    println!("{n} programs; {seen:?}");
    !seen.is_empty() as i32
}
