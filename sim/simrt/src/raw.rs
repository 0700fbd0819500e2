//! Raw system calls: the simulator's own use of the kernel must not come back through its interposed symbols.
use std::arch::asm;
#[inline]
pub unsafe fn sys6(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
         lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
/// As sys6, but with libc's convention (-1 and errno).
pub unsafe fn sys_errno(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    let r = sys6(n, a, b, c, d, e, f);
    if r < 0 && r > -4096 {
        *libc::__errno_location() = (-r) as i32;
        -1
    } else {
        r
    }
}
pub unsafe fn futex_wait(addr: *const u32, val: u32) {
    sys6(libc::SYS_futex, addr as usize, (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as usize, val as usize, 0, 0, 0);
}
pub unsafe fn futex_wake(addr: *const u32) {
    sys6(libc::SYS_futex, addr as usize, (libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG) as usize, 1, 0, 0, 0);
}
pub unsafe fn write_all(fd: i32, mut b: &[u8]) {
    while !b.is_empty() {
        let n = sys6(libc::SYS_write, fd as usize, b.as_ptr() as usize, b.len(), 0, 0, 0);
        if n <= 0 {
            return;
        }
        b = &b[n as usize..];
    }
}
pub unsafe fn exit_group(code: i32) -> ! {
    sys6(libc::SYS_exit_group, code as usize, 0, 0, 0, 0, 0);
    loop {}
}
/// Real monotonic nanoseconds; only for budgets outside the simulation.
pub fn real_now() -> u64 {
    unsafe {
        let mut ts: libc::timespec = std::mem::zeroed();
        sys6(libc::SYS_clock_gettime, libc::CLOCK_MONOTONIC as usize, &mut ts as *mut _ as usize, 0, 0, 0, 0);
        ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
    }
}
