//! The interposed libc symbols. Anything not simulated goes to the kernel unchanged.
#![allow(clippy::missing_safety_doc)]
use crate::net::*;
use crate::raw::{sys_errno, sys6};
use crate::sched::*;
use crate::sched::sleep as sim_sleep;
use libc::*;

const MONO_BASE: u64 = 10_000_000_000_000;

fn mono() -> u64 {
    let s = sim();
    s.now - s.cfg.start_ns + MONO_BASE
}
fn realtime() -> u64 {
    let s = sim();
    let off = s.clock_offset.get(&s.threads[s.cur].node).copied().unwrap_or(0);
    (s.now as i64 + off) as u64
}
unsafe fn ts_ns(t: *const timespec) -> u64 {
    ((*t).tv_sec as u64).saturating_mul(1_000_000_000).saturating_add((*t).tv_nsec as u64)
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: clockid_t, ts: *mut timespec) -> c_int {
    if !simulated() {
        return sys_errno(SYS_clock_gettime, id as usize, ts as usize, 0, 0, 0, 0) as c_int;
    }
    sim().now += 40; // reading the clock takes time
    let v = match id {
        CLOCK_REALTIME | CLOCK_REALTIME_COARSE => {
            let v = realtime();
            let (node, chance, max, left) = sim().clock_stall;
            if left > 0 && active() && crate::sched::node() == node {
                sim().clock_stall.3 -= 1;
                if fault_gate("fault.clock_read_stall", chance) {
                    // pre-empted right after reading it
                    sim_sleep(fault_below(max));
                }
            }
            v
        }
        _ => mono(),
    };
    (*ts).tv_sec = (v / 1_000_000_000) as i64;
    (*ts).tv_nsec = (v % 1_000_000_000) as i64;
    0
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut timeval, _tz: *mut c_void) -> c_int {
    let mut ts: timespec = std::mem::zeroed();
    clock_gettime(CLOCK_REALTIME, &mut ts);
    (*tv).tv_sec = ts.tv_sec;
    (*tv).tv_usec = ts.tv_nsec / 1000;
    0
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const timespec, rem: *mut timespec) -> c_int {
    if !active() {
        return sys_errno(SYS_nanosleep, req as usize, rem as usize, 0, 0, 0, 0) as c_int;
    }
    sim_sleep(ts_ns(req));
    0
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: clockid_t, flags: c_int, req: *const timespec, rem: *mut timespec) -> c_int {
    if !active() {
        return -(sys6(SYS_clock_nanosleep, id as usize, flags as usize, req as usize, rem as usize, 0, 0)) as c_int;
    }
    let t = ts_ns(req);
    if flags & TIMER_ABSTIME != 0 {
        let n = if id == CLOCK_REALTIME { realtime() } else { mono() };
        sim_sleep(t.saturating_sub(n));
    } else {
        sim_sleep(t);
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if active() {
        yield_point();
    } else {
        sys6(SYS_sched_yield, 0, 0, 0, 0, 0, 0);
    }
    0
}
unsafe fn fill_random(buf: *mut u8, n: usize) {
    let s = std::slice::from_raw_parts_mut(buf, n);
    sim().rng_rand.fill(s);
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: size_t, flags: c_uint) -> ssize_t {
    if simulated() {
        fill_random(buf as *mut u8, n);
        return n as ssize_t;
    }
    // before the simulation starts: constant, so that warm-up is repeatable as well
    let _ = flags;
    static mut PRE: u64 = 0x1234_5678;
    let s = std::slice::from_raw_parts_mut(buf as *mut u8, n);
    for b in s {
        PRE = PRE.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        *b = (PRE >> 33) as u8;
    }
    n as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn getentropy(buf: *mut c_void, n: size_t) -> c_int {
    getrandom(buf, n, 0);
    0
}
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(_pid: pid_t, n: size_t, set: *mut cpu_set_t) -> c_int {
    let b = std::slice::from_raw_parts_mut(set as *mut u8, n);
    b.fill(0);
    b[0] = 0x0f;
    0
}

unsafe fn futex(addr: usize, op: usize, val: usize, a4: usize, a6: usize) -> c_long {
    let base = op as i32 & 0x7f;
    match base {
        FUTEX_WAIT | FUTEX_WAIT_BITSET => {
            point();
            if std::ptr::read_volatile(addr as *const u32) != val as u32 {
                *__errno_location() = EAGAIN;
                return -1;
            }
            let ts = a4 as *const timespec;
            let dl = if ts.is_null() {
                NEVER
            } else if base == FUTEX_WAIT {
                sim().now.saturating_add(ts_ns(ts))
            } else {
                let t = ts_ns(ts);
                let n = if op as i32 & FUTEX_CLOCK_REALTIME != 0 { realtime() } else { mono() };
                sim().now.saturating_add(t.saturating_sub(n))
            };
            let bits = if base == FUTEX_WAIT { !0u32 } else { a6 as u32 };
            if sim().cfg.spurious_wake > 0 && fault_chance(sim().cfg.spurious_wake as u64, 65536) {
                count("fault.spurious_wakeup");
                yield_point();
                return 0;
            }
            match block(Key::Futex(addr, bits), dl) {
                Wake::Timeout => {
                    *__errno_location() = ETIMEDOUT;
                    -1
                }
                _ => 0,
            }
        }
        FUTEX_WAKE | FUTEX_WAKE_BITSET => {
            let bits = if base == FUTEX_WAKE { !0u32 } else { a6 as u32 };
            let n = {
                let _g = Guard::new();
                wake_futex(addr, val, bits)
            };
            if n > 0 {
                point();
            }
            n as c_long
        }
        _ => {
            sim().fatal(&format!("harness: unsupported futex operation {base}"));
        }
    }
}
fn wake_futex(addr: usize, n: usize, bits: u32) -> usize {
    let s = sim();
    let mut w: Vec<usize> = vec![];
    for t in 0..s.threads.len() {
        if let St::Blocked(Key::Futex(a, b), _) = s.threads[t].st {
            if a == addr && b & bits != 0 {
                w.push(t);
            }
        }
    }
    let n = n.min(w.len());
    if w.len() > n && n > 0 && s.rng_time.chance(1, 2) {
        s.rng_time.shuffle(&mut w);
    }
    for t in w.iter().take(n) {
        s.make_ready(*t, Wake::Woken);
    }
    n
}

#[no_mangle]
pub unsafe extern "C" fn syscall(num: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    match num {
        SYS_futex if active() => futex(a, b, c, d, f),
        SYS_getrandom => getrandom(a as *mut c_void, b, c as c_uint) as c_long,
        SYS_clock_gettime => clock_gettime(a as clockid_t, b as *mut timespec) as c_long,
        SYS_sched_yield => sched_yield() as c_long,
        SYS_gettid if simulated() => 1000 + me() as c_long,
        _ => sys_errno(num, a, b, c, d, e, f),
    }
}

macro_rules! sim_or {
    ($cond:expr, $sim:expr, $real:expr) => {{
        if $cond {
            point();
            let _g = Guard::new();
            $sim
        } else {
            $real
        }
    }};
}

#[no_mangle]
pub unsafe extern "C" fn epoll_create1(flags: c_int) -> c_int {
    sim_or!(active(), do_epoll_create(), sys_errno(SYS_epoll_create1, flags as usize, 0, 0, 0, 0, 0) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn epoll_ctl(ep: c_int, op: c_int, fd: c_int, ev: *mut epoll_event) -> c_int {
    sim_or!(
        is_sim(ep) && active(),
        do_epoll_ctl(ep, op, fd, ev) as c_int,
        sys_errno(SYS_epoll_ctl, ep as usize, op as usize, fd as usize, ev as usize, 0, 0) as c_int
    )
}
#[no_mangle]
pub unsafe extern "C" fn epoll_wait(ep: c_int, ev: *mut epoll_event, max: c_int, to: c_int) -> c_int {
    if is_sim(ep) && active() {
        point();
        let _g = Guard::new();
        return do_epoll_wait(ep, ev, max, to);
    }
    sys_errno(SYS_epoll_wait, ep as usize, ev as usize, max as usize, to as usize, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn eventfd(init: c_uint, flags: c_int) -> c_int {
    sim_or!(active(), do_eventfd(init), sys_errno(SYS_eventfd2, init as usize, flags as usize, 0, 0, 0, 0) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    if is_sim(fd) && active() {
        point();
        let _g = Guard::new();
        return do_read(fd, buf as *mut u8, n) as ssize_t;
    }
    sys_errno(SYS_read, fd as usize, buf as usize, n, 0, 0, 0) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    if is_sim(fd) && active() {
        point();
        let _g = Guard::new();
        return do_write(fd, buf as *const u8, n) as ssize_t;
    }
    sys_errno(SYS_write, fd as usize, buf as usize, n, 0, 0, 0) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const iovec, n: c_int) -> ssize_t {
    if is_sim(fd) && active() {
        let mut total = 0;
        for i in 0..n as usize {
            let v = &*iov.add(i);
            if v.iov_len == 0 {
                continue;
            }
            let r = read(fd, v.iov_base, v.iov_len);
            if r < 0 {
                return if total > 0 { total } else { r };
            }
            total += r;
            if (r as usize) < v.iov_len {
                break;
            }
        }
        return total;
    }
    sys_errno(SYS_readv, fd as usize, iov as usize, n as usize, 0, 0, 0) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const iovec, n: c_int) -> ssize_t {
    if is_sim(fd) && active() {
        let mut total = 0;
        for i in 0..n as usize {
            let v = &*iov.add(i);
            if v.iov_len == 0 {
                continue;
            }
            let r = write(fd, v.iov_base, v.iov_len);
            if r < 0 {
                return if total > 0 { total } else { r };
            }
            total += r;
            if (r as usize) < v.iov_len {
                break;
            }
        }
        return total;
    }
    sys_errno(SYS_writev, fd as usize, iov as usize, n as usize, 0, 0, 0) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if is_sim(fd) {
        if active() {
            point();
        }
        let _g = Guard::new();
        return do_close(fd) as c_int;
    }
    sys_errno(SYS_close, fd as usize, 0, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    if is_sim(fd) {
        let _g = Guard::new();
        return match cmd {
            F_GETFL => {
                if get_nonblock(fd) {
                    O_RDWR | O_NONBLOCK
                } else {
                    O_RDWR
                }
            }
            F_SETFL => {
                set_nonblock(fd, arg as c_int & O_NONBLOCK != 0);
                0
            }
            F_DUPFD | F_DUPFD_CLOEXEC => do_dup(fd),
            F_GETFD => FD_CLOEXEC,
            F_SETFD => 0,
            _ => {
                *__errno_location() = EINVAL;
                -1
            }
        };
    }
    sys_errno(SYS_fcntl, fd as usize, cmd as usize, arg, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: c_int, req: c_ulong, arg: usize) -> c_int {
    if is_sim(fd) {
        let _g = Guard::new();
        if req == FIONBIO as c_ulong {
            set_nonblock(fd, *(arg as *const c_int) != 0);
        }
        return 0;
    }
    sys_errno(SYS_ioctl, fd as usize, req as usize, arg, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn socket(domain: c_int, ty: c_int, proto: c_int) -> c_int {
    sim_or!(active(), do_socket(domain, ty), sys_errno(SYS_socket, domain as usize, ty as usize, proto as usize, 0, 0, 0) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn bind(fd: c_int, a: *const sockaddr, len: socklen_t) -> c_int {
    sim_or!(is_sim(fd) && active(), do_bind(fd, a, len) as c_int, sys_errno(SYS_bind, fd as usize, a as usize, len as usize, 0, 0, 0) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn listen(fd: c_int, n: c_int) -> c_int {
    if is_sim(fd) {
        return 0;
    }
    sys_errno(SYS_listen, fd as usize, n as usize, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn accept4(fd: c_int, a: *mut sockaddr, len: *mut socklen_t, flags: c_int) -> c_int {
    sim_or!(
        is_sim(fd) && active(),
        do_accept(fd, a, len, flags) as c_int,
        sys_errno(SYS_accept4, fd as usize, a as usize, len as usize, flags as usize, 0, 0) as c_int
    )
}
#[no_mangle]
pub unsafe extern "C" fn getsockname(fd: c_int, a: *mut sockaddr, len: *mut socklen_t) -> c_int {
    if is_sim(fd) {
        let _g = Guard::new();
        return do_getsockname(fd, a, len) as c_int;
    }
    sys_errno(SYS_getsockname, fd as usize, a as usize, len as usize, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getpeername(fd: c_int, a: *mut sockaddr, len: *mut socklen_t) -> c_int {
    if is_sim(fd) {
        if (*len as usize) >= 2 {
            (*a).sa_family = AF_UNIX as u16;
        }
        *len = 2;
        return 0;
    }
    sys_errno(SYS_getpeername, fd as usize, a as usize, len as usize, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn setsockopt(fd: c_int, level: c_int, name: c_int, v: *const c_void, len: socklen_t) -> c_int {
    if is_sim(fd) {
        if level == SOL_UDP {
            *__errno_location() = ENOPROTOOPT; // no segmentation offload
            return -1;
        }
        return 0;
    }
    sys_errno(SYS_setsockopt, fd as usize, level as usize, name as usize, v as usize, len as usize, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getsockopt(fd: c_int, level: c_int, name: c_int, v: *mut c_void, len: *mut socklen_t) -> c_int {
    if is_sim(fd) {
        if level == SOL_UDP {
            *__errno_location() = ENOPROTOOPT;
            return -1;
        }
        std::ptr::write_bytes(v as *mut u8, 0, *len as usize);
        return 0;
    }
    sys_errno(SYS_getsockopt, fd as usize, level as usize, name as usize, v as usize, len as usize, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn shutdown(fd: c_int, how: c_int) -> c_int {
    sim_or!(is_sim(fd) && active(), do_shutdown(fd, how) as c_int, sys_errno(SYS_shutdown, fd as usize, how as usize, 0, 0, 0, 0) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn sendmsg(fd: c_int, m: *const msghdr, flags: c_int) -> ssize_t {
    sim_or!(is_sim(fd) && active(), do_sendmsg(fd, m) as ssize_t, sys_errno(SYS_sendmsg, fd as usize, m as usize, flags as usize, 0, 0, 0) as ssize_t)
}
#[no_mangle]
pub unsafe extern "C" fn sendto(fd: c_int, b: *const c_void, n: size_t, flags: c_int, a: *const sockaddr, len: socklen_t) -> ssize_t {
    sim_or!(
        is_sim(fd) && active(),
        do_sendto(fd, b as *const u8, n, a, len) as ssize_t,
        sys_errno(SYS_sendto, fd as usize, b as usize, n, flags as usize, a as usize, len as usize) as ssize_t
    )
}
#[no_mangle]
pub unsafe extern "C" fn send(fd: c_int, b: *const c_void, n: size_t, flags: c_int) -> ssize_t {
    sendto(fd, b, n, flags, std::ptr::null(), 0)
}
#[no_mangle]
pub unsafe extern "C" fn recvmsg(fd: c_int, m: *mut msghdr, flags: c_int) -> ssize_t {
    if is_sim(fd) && active() {
        point();
        let _g = Guard::new();
        return do_recvmsg(fd, m) as ssize_t;
    }
    sys_errno(SYS_recvmsg, fd as usize, m as usize, flags as usize, 0, 0, 0) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn recvmmsg(fd: c_int, v: *mut mmsghdr, n: c_uint, flags: c_int, to: *mut timespec) -> c_int {
    if is_sim(fd) && active() {
        point();
        let _g = Guard::new();
        let mut got = 0;
        while got < n {
            let m = &mut *v.add(got as usize);
            let r = do_recvmsg(fd, &mut m.msg_hdr);
            if r < 0 {
                if got == 0 {
                    return -1;
                }
                break;
            }
            m.msg_len = r as c_uint;
            got += 1;
        }
        return got as c_int;
    }
    sys_errno(SYS_recvmmsg, fd as usize, v as usize, n as usize, flags as usize, to as usize, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn recvfrom(fd: c_int, b: *mut c_void, n: size_t, flags: c_int, a: *mut sockaddr, len: *mut socklen_t) -> ssize_t {
    if is_sim(fd) && active() {
        if !a.is_null() || flags & MSG_PEEK != 0 {
            let mut io = iovec { iov_base: b, iov_len: n };
            let mut m: msghdr = std::mem::zeroed();
            m.msg_iov = &mut io;
            m.msg_iovlen = 1;
            m.msg_name = a as *mut c_void;
            m.msg_namelen = if len.is_null() { 0 } else { *len };
            let r = recvmsg(fd, &mut m, flags);
            if !len.is_null() {
                *len = m.msg_namelen;
            }
            return r;
        }
        return read(fd, b, n);
    }
    sys_errno(SYS_recvfrom, fd as usize, b as usize, n, flags as usize, a as usize, len as usize) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn recv(fd: c_int, b: *mut c_void, n: size_t, flags: c_int) -> ssize_t {
    recvfrom(fd, b, n, flags, std::ptr::null_mut(), std::ptr::null_mut())
}

/// Referenced by the harness so that the linker keeps every symbol above.
#[used]
pub static KEEP: [usize; 0] = [];
