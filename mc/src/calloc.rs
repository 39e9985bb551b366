//! Checking allocator: verifies layouts on release, keeps canaries around
//! every block, fills fresh memory with 0xA5 and released memory with 0xDD,
//! delays reuse, and counts live blocks.

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicU8, AtomicUsize, Ordering::*};

pub struct Checking;

const LIVE: u64 = 0x11FE_B10C_11FE_B10C;
const DEAD: u64 = 0xDEAD_B10C_DEAD_B10C;
const CANARY: u8 = 0xC7;
const TAIL: usize = 16;

pub static ERRORS: AtomicU64 = AtomicU64::new(0);
pub static FIRST: AtomicU64 = AtomicU64::new(0);
pub static BLOCKS: AtomicI64 = AtomicI64::new(0);
pub static BYTES: AtomicI64 = AtomicI64::new(0);
pub static PEAK_REQUEST: AtomicUsize = AtomicUsize::new(0);
static FILL: AtomicU8 = AtomicU8::new(0xA5);
static NULL_ON: AtomicUsize = AtomicUsize::new(0);

const RING: usize = 512;
static LOCK: AtomicBool = AtomicBool::new(false);
static mut QUEUE: [(*mut u8, usize, usize); RING] = [(std::ptr::null_mut(), 0, 0); RING];
static mut QPOS: usize = 0;

#[repr(C)]
struct Header {
    magic: u64,
    size: usize,
    align: usize,
    canary: u64,
}

const HDR: usize = 32;

fn err(code: u64) {
    ERRORS.fetch_add(1, SeqCst);
    let _ = FIRST.compare_exchange(0, code, SeqCst, SeqCst);
}

fn front(align: usize) -> usize {
    HDR.max(align)
}

fn outer(size: usize, align: usize) -> Option<Layout> {
    let total = front(align).checked_add(size)?.checked_add(TAIL)?;
    Layout::from_size_align(total, align.max(16)).ok()
}

unsafe impl GlobalAlloc for Checking {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        let (size, align) = (layout.size(), layout.align());
        if size == 0 {
            err(1);
        }
        PEAK_REQUEST.fetch_max(size, SeqCst);
        let limit = NULL_ON.load(Relaxed);
        if limit != 0 && size >= limit {
            return std::ptr::null_mut();
        }
        let Some(lay) = outer(size, align) else { return std::ptr::null_mut() };
        let base = System.alloc(lay);
        if base.is_null() {
            return base;
        }
        let p = base.add(front(align));
        let h = p.sub(HDR) as *mut Header;
        h.write(Header { magic: LIVE, size, align, canary: u64::from_ne_bytes([CANARY; 8]) });
        if size <= 1 << 16 {
            std::ptr::write_bytes(p, FILL.load(Relaxed), size);
        } else {
            std::ptr::write_bytes(p, FILL.load(Relaxed), 1 << 12);
        }
        std::ptr::write_bytes(p.add(size), CANARY, TAIL);
        BLOCKS.fetch_add(1, SeqCst);
        BYTES.fetch_add(size as i64, SeqCst);
        p
    }

    unsafe fn dealloc(&self, p: *mut u8, layout: Layout) {
        let h = p.sub(HDR) as *mut Header;
        if (*h).magic != LIVE {
            // released twice, or not a block start
            err(if (*h).magic == DEAD { 2 } else { 3 });
            return;
        }
        if (*h).size != layout.size() || (*h).align != layout.align() {
            err(4);
        }
        let (size, align) = ((*h).size, (*h).align);
        if (*h).canary != u64::from_ne_bytes([CANARY; 8]) {
            err(5);
        }
        for i in 0..TAIL {
            if *p.add(size + i) != CANARY {
                err(6);
                break;
            }
        }
        (*h).magic = DEAD;
        BLOCKS.fetch_sub(1, SeqCst);
        BYTES.fetch_sub(size as i64, SeqCst);
        if size > 1 << 14 {
            System.dealloc(p.sub(front(align)), outer(size, align).unwrap());
            return;
        }
        std::ptr::write_bytes(p, 0xDD, size);
        let _g = crate::sched::no_step();
        while LOCK.compare_exchange_weak(false, true, Acquire, Relaxed).is_err() {
            std::hint::spin_loop();
        }
        let slot = QPOS;
        QPOS = (QPOS + 1) % RING;
        let old = QUEUE[slot];
        QUEUE[slot] = (p, size, align);
        LOCK.store(false, Release);
        if !old.0.is_null() {
            for i in 0..old.1 {
                if *old.0.add(i) != 0xDD {
                    err(7); // written after release
                    break;
                }
            }
            System.dealloc(old.0.sub(front(old.2)), outer(old.1, old.2).unwrap());
        }
    }
}

/// Resets the error state; returns the number of live blocks.
pub fn reset() -> i64 {
    ERRORS.store(0, SeqCst);
    FIRST.store(0, SeqCst);
    BLOCKS.load(SeqCst)
}

pub fn blocks() -> i64 {
    BLOCKS.load(SeqCst)
}

pub fn check() -> Result<(), String> {
    let code = FIRST.load(SeqCst);
    if code == 0 {
        return Ok(());
    }
    let n = ERRORS.load(SeqCst);
    reset();
    Err(format!("{n} allocator error(s), first: {}", match code {
        1 => "zero-size allocation request",
        2 => "block released twice",
        3 => "release of an address that is no live block",
        4 => "block released with a different layout than it was obtained with",
        5 => "memory before a block was overwritten",
        6 => "memory after a block was overwritten",
        7 => "block written after release",
        _ => "?",
    }))
}

/// Makes allocations of at least `size` bytes fail (0: off).
pub fn fail_from(size: usize) {
    NULL_ON.store(size, SeqCst);
}

/// The byte fresh memory is filled with.
pub fn fill(b: u8) {
    FILL.store(b, SeqCst);
}
