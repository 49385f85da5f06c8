//! Checking global allocator: exact layout bookkeeping, red zones, poisoning,
//! always-moving reallocation, allocation-failure injection.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::UnsafeCell;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicUsize, Ordering::Relaxed};

pub struct Track;

const SLOTS: usize = 1 << 14;
const RZ: usize = 64;

#[derive(Clone, Copy)]
struct Slot {
    ptr: usize, // 0 empty, 1 tombstone
    size: usize,
    align: usize,
}
struct Table(UnsafeCell<[Slot; SLOTS]>);
unsafe impl Sync for Table {}
static TABLE: Table = Table(UnsafeCell::new([Slot { ptr: 0, size: 0, align: 0 }; SLOTS]));

/// Tracking is only on inside `scenario` sections (single-threaded driver).
pub static ON: AtomicBool = AtomicBool::new(false);
pub static CALLS: AtomicU64 = AtomicU64::new(0);
pub static LIVE: AtomicUsize = AtomicUsize::new(0);
pub static FAIL_IN: AtomicI64 = AtomicI64::new(-1);
pub static FAILED: AtomicU64 = AtomicU64::new(0);
pub static ERR: AtomicU64 = AtomicU64::new(0);
pub static ERR_A: AtomicUsize = AtomicUsize::new(0);
pub static ERR_B: AtomicUsize = AtomicUsize::new(0);
/// Requests above this size are refused (keeps the sandbox safe, models an out-of-memory allocator).
pub const LIMIT: usize = 1 << 24;
pub static LAST_SIZE: AtomicUsize = AtomicUsize::new(0);
pub static LAST_ALIGN: AtomicUsize = AtomicUsize::new(0);

fn tab() -> &'static mut [Slot; SLOTS] {
    unsafe { &mut *TABLE.0.get() }
}
fn h(p: usize) -> usize {
    (p >> 3).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 40 & (SLOTS - 1)
}
fn put(ptr: usize, size: usize, align: usize) {
    let t = tab();
    let mut i = h(ptr);
    for _ in 0..SLOTS {
        if t[i].ptr <= 1 {
            t[i] = Slot { ptr, size, align };
            LIVE.fetch_add(1, Relaxed);
            return;
        }
        i = (i + 1) & (SLOTS - 1);
    }
    err(99, 0, 0);
}
fn take(ptr: usize) -> Option<Slot> {
    let t = tab();
    let mut i = h(ptr);
    for _ in 0..SLOTS {
        if t[i].ptr == 0 {
            return None;
        }
        if t[i].ptr == ptr {
            let s = t[i];
            t[i].ptr = 1;
            LIVE.fetch_sub(1, Relaxed);
            return Some(s);
        }
        i = (i + 1) & (SLOTS - 1);
    }
    None
}
/// Live tracked block that contains `addr`.
pub fn find_containing(addr: usize) -> Option<(usize, usize, usize)> {
    tab().iter().find(|s| s.ptr > 1 && s.ptr <= addr && addr < s.ptr + s.size).map(|s| (s.ptr, s.size, s.align))
}
pub fn reset() {
    let t = tab();
    for s in t.iter_mut() {
        s.ptr = 0;
    }
    LIVE.store(0, Relaxed);
    CALLS.store(0, Relaxed);
    FAIL_IN.store(-1, Relaxed);
    FAILED.store(0, Relaxed);
    ERR.store(0, Relaxed);
}
fn err(c: u64, a: usize, b: usize) {
    if ERR.compare_exchange(0, c, Relaxed, Relaxed).is_ok() {
        ERR_A.store(a, Relaxed);
        ERR_B.store(b, Relaxed);
    }
}
pub fn error() -> Option<String> {
    let (a, b) = (ERR_A.load(Relaxed), ERR_B.load(Relaxed));
    Some(match ERR.load(Relaxed) {
        0 => return None,
        1 => format!("allocation request with invalid layout size={a:#x} align={b:#x}"),
        2 => format!("deallocation of a pointer that is not a live allocation (size={a}, align={b})"),
        3 => format!("deallocation with wrong size: allocated {a}, freed as {b}"),
        4 => format!("deallocation with wrong align: allocated {a}, freed as {b}"),
        5 => format!("write out of bounds of an allocation of size {a} align {b}"),
        6 => format!("zero-size allocation request (align {b})"),
        7 => format!("grow/shrink in the wrong direction or with wrong old layout ({a} -> {b})"),
        c => format!("allocator error {c}"),
    })
}
fn rz(align: usize) -> usize {
    if align > RZ { align } else { RZ }
}
unsafe fn raw_alloc(layout: Layout) -> *mut u8 {
    let z = rz(layout.align());
    unsafe {
        let Ok(l) = Layout::from_size_align(layout.size() + z + RZ, layout.align()) else { return std::ptr::null_mut() };
        let p = System.alloc(l);
        if p.is_null() {
            return p;
        }
        std::ptr::write_bytes(p, 0xA5, z);
        std::ptr::write_bytes(p.add(z), 0xCD, layout.size());
        std::ptr::write_bytes(p.add(z + layout.size()), 0xA5, RZ);
        p.add(z)
    }
}
unsafe fn check_zones(p: *mut u8, size: usize, align: usize) {
    let z = rz(align);
    unsafe {
        for i in 0..RZ.min(z) {
            if *p.sub(1 + i) != 0xA5 {
                err(5, size, align);
            }
        }
        for i in 0..RZ {
            if *p.add(size + i) != 0xA5 {
                err(5, size, align);
            }
        }
    }
}
pub fn check_all_zones() {
    for s in tab().iter() {
        if s.ptr > 1 {
            unsafe { check_zones(s.ptr as *mut u8, s.size, s.align) }
        }
    }
}
unsafe fn raw_free(p: *mut u8, size: usize, align: usize) {
    let z = rz(align);
    unsafe {
        check_zones(p, size, align);
        std::ptr::write_bytes(p, 0xDD, size);
        System.dealloc(p.sub(z), Layout::from_size_align_unchecked(size + z + RZ, align));
    }
}

unsafe impl GlobalAlloc for Track {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        if !ON.load(Relaxed) {
            return unsafe { System.alloc(layout) };
        }
        CALLS.fetch_add(1, Relaxed);
        LAST_SIZE.store(layout.size(), Relaxed);
        LAST_ALIGN.store(layout.align(), Relaxed);
        if layout.size() == 0 {
            err(6, 0, layout.align());
        }
        if !layout.align().is_power_of_two() || layout.size() > isize::MAX as usize - (layout.align() - 1) {
            err(1, layout.size(), layout.align());
            return std::ptr::null_mut();
        }
        let f = FAIL_IN.load(Relaxed);
        if f >= 0 {
            FAIL_IN.store(f - 1, Relaxed);
            if f == 0 {
                FAILED.fetch_add(1, Relaxed);
                return std::ptr::null_mut();
            }
        }
        if layout.size() > LIMIT || layout.align() > LIMIT {
            FAILED.fetch_add(1, Relaxed);
            return std::ptr::null_mut();
        }
        let p = unsafe { raw_alloc(layout) };
        if !p.is_null() {
            put(p as usize, layout.size(), layout.align());
        }
        p
    }
    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        match take(ptr as usize) {
            Some(s) => {
                if s.size != layout.size() {
                    err(3, s.size, layout.size());
                } else if s.align != layout.align() {
                    err(4, s.align, layout.align());
                }
                unsafe { raw_free(ptr, s.size, s.align) }
            }
            None => {
                if ON.load(Relaxed) {
                    // Either a block from before tracking was switched on (never freed while
                    // tracking, by construction of the driver) or a stray pointer: leak it.
                    err(2, layout.size(), layout.align());
                } else {
                    unsafe { System.dealloc(ptr, layout) }
                }
            }
        }
    }
    unsafe fn realloc(&self, ptr: *mut u8, layout: Layout, new_size: usize) -> *mut u8 {
        let tracked = tab_has(ptr as usize);
        if !ON.load(Relaxed) && !tracked {
            return unsafe { System.realloc(ptr, layout, new_size) };
        }
        // Always move: stale pointers become visible.
        let Ok(nl) = Layout::from_size_align(new_size, layout.align()) else {
            err(1, new_size, layout.align());
            return std::ptr::null_mut();
        };
        let np = unsafe { self.alloc(nl) };
        if !np.is_null() {
            unsafe {
                std::ptr::copy_nonoverlapping(ptr, np, layout.size().min(new_size));
                self.dealloc(ptr, layout);
            }
        }
        np
    }
}
fn tab_has(ptr: usize) -> bool {
    let t = tab();
    let mut i = h(ptr);
    for _ in 0..SLOTS {
        if t[i].ptr == 0 {
            return false;
        }
        if t[i].ptr == ptr {
            return true;
        }
        i = (i + 1) & (SLOTS - 1);
    }
    false
}
