//! Deterministic allocator: size-class free lists over one region at a fixed address.
//!
//! Exactly one thread runs at a time (see `sched`), so there is no locking, and equal executions get equal
//! addresses. Every allocation is also a potential pre-emption point.
use std::alloc::{GlobalAlloc, Layout};
use std::cell::UnsafeCell;

pub struct SimAlloc;

const BASE: usize = 0x0500_0000_0000;
const SIZE: usize = 1 << 37; // reserved address space, not memory
const CLASSES: usize = 160;
/// Single allocations above this fail, as on a machine with bounded memory.
pub const MAX_ALLOC: usize = 1 << 31;
/// The exception: a zeroed 32-bit address space, which takes memory only where it is touched.
const ADDRESS_SPACE: usize = 1 << 32;

struct State {
    next: usize,
    end: usize,
    free: [usize; CLASSES],
    live: usize,
    peak: usize,
    biggest: usize,
}
struct Cell(UnsafeCell<State>);
unsafe impl Sync for Cell {}
static ST: Cell = Cell(UnsafeCell::new(State { next: 0, end: 0, free: [0; CLASSES], live: 0, peak: 0, biggest: 0 }));

/// Size class: four steps per power of two, from 16 bytes.
fn class_of(size: usize) -> (usize, usize) {
    if size <= 64 {
        let c = (size.max(1) + 15) / 16;
        return (c - 1, c * 16);
    }
    let p = usize::BITS as usize - 1 - (size - 1).leading_zeros() as usize; // 2^p < size <= 2^(p+1)
    let base = 1usize << p;
    let step = base / 4;
    let k = (size - base + step - 1) / step; // 1..=4
    (4 + (p - 6) * 4 + (k - 1), base + k * step)
}

unsafe fn carve(st: &mut State, sz: usize, align: usize) -> *mut u8 {
    if st.next == 0 {
        let p = libc::mmap(
            BASE as *mut _,
            SIZE,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE,
            -1,
            0,
        );
        if p as usize != BASE {
            libc::abort();
        }
        st.next = BASE;
        st.end = BASE + SIZE;
    }
    let a = align.max(16);
    let p = (st.next + a - 1) & !(a - 1);
    if p + sz > st.end {
        return std::ptr::null_mut();
    }
    st.next = p + sz;
    p as *mut u8
}

/// The driver process (which forks the simulated ones) uses the C allocator, so that what it does between forks
/// leaves the simulated heap as the warm-up left it.
static mut DRIVER: bool = false;
pub fn set_driver(on: bool) {
    unsafe { DRIVER = on }
}
/// Total live bytes above which allocation fails.
pub static mut LIVE_CAP: usize = 3 << 30;
fn in_arena(p: *mut u8) -> bool {
    (BASE..BASE + SIZE).contains(&(p as usize))
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if DRIVER && l.align() <= 16 {
            return libc::calloc(1, l.size()) as *mut u8;
        }
        if DRIVER || l.size() != ADDRESS_SPACE || l.align() > 16 {
            let p = self.alloc(l);
            if !p.is_null() {
                std::ptr::write_bytes(p, 0, l.size());
            }
            return p;
        }
        crate::sched::alloc_point();
        let st = &mut *ST.0.get();
        let (c, sz) = class_of(l.size());
        let head = st.free[c];
        let p = if head != 0 {
            st.free[c] = *(head as *const usize);
            head as *mut u8
        } else {
            carve(st, sz + 4096, 4096)
        };
        // what `dealloc` left in the first page
        if !p.is_null() {
            std::ptr::write_bytes(p, 0, 4096);
        }
        p
    }
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if DRIVER {
            return if l.align() <= 16 { libc::malloc(l.size()) as *mut u8 } else { libc::aligned_alloc(l.align(), (l.size() + l.align() - 1) / l.align() * l.align()) as *mut u8 };
        }
        crate::sched::alloc_point();
        let st = &mut *ST.0.get();
        let size = l.size().max(1);
        if size > st.biggest {
            st.biggest = size;
        }
        if size > MAX_ALLOC || (size > 4096 && st.live > LIVE_CAP) {
            return std::ptr::null_mut();
        }
        if l.align() > 16 {
            // rare: serve from a class big enough to be aligned to its size
            let want = size.max(l.align()).next_power_of_two();
            let (c, sz) = class_of(want);
            let head = st.free[c];
            if head != 0 && head % l.align() == 0 {
                st.free[c] = *(head as *const usize);
                st.live += sz;
                return head as *mut u8;
            }
            st.live += sz;
            return carve(st, sz, l.align());
        }
        let (c, sz) = class_of(size);
        st.live += sz;
        if st.live > st.peak {
            st.peak = st.live;
        }
        let head = st.free[c];
        if head != 0 {
            st.free[c] = *(head as *const usize);
            return head as *mut u8;
        }
        carve(st, sz, 16)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if !in_arena(p) {
            libc::free(p as *mut _);
            return;
        }
        if DRIVER {
            return;
        }
        let st = &mut *ST.0.get();
        let size = l.size().max(1);
        let (c, sz) = if l.align() > 16 { class_of(size.max(l.align()).next_power_of_two()) } else { class_of(size) };
        if l.size() != ADDRESS_SPACE {
            st.live = st.live.wrapping_sub(sz);
        }
        if sz >= 1 << 20 {
            // give the pages back; the address stays ours (and reads as zero again)
            let lo = (p as usize + 4095) & !4095;
            let hi = (p as usize + sz) & !4095;
            if hi > lo {
                libc::madvise(lo as *mut _, hi - lo, libc::MADV_DONTNEED);
            }
        }
        *(p as *mut usize) = st.free[c];
        st.free[c] = p as usize;
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new_size: usize) -> *mut u8 {
        if !in_arena(p) {
            let n = self.alloc(Layout::from_size_align_unchecked(new_size, l.align()));
            if !n.is_null() {
                std::ptr::copy_nonoverlapping(p, n, l.size().min(new_size));
                libc::free(p as *mut _);
            }
            return n;
        }
        if !DRIVER && l.align() <= 16 && class_of(l.size().max(1)).0 == class_of(new_size.max(1)).0 {
            return p;
        }
        let n = self.alloc(Layout::from_size_align_unchecked(new_size, l.align()));
        if !n.is_null() {
            std::ptr::copy_nonoverlapping(p, n, l.size().min(new_size));
            self.dealloc(p, l);
        }
        n
    }
}

/// (live bytes, peak bytes, biggest single request) since the process started.
pub fn stats() -> (usize, usize, usize) {
    unsafe {
        let st = &*ST.0.get();
        (st.live, st.peak, st.biggest)
    }
}
pub fn reset_peak() {
    unsafe {
        let st = &mut *ST.0.get();
        st.peak = st.live;
        st.biggest = 0;
    }
}
