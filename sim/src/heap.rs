//! The allocator seam: every Rust allocation goes through here.
//!
//! Blocks get a header and red zones, fresh memory holds seeded junk (so that
//! reading it shows), freed memory can be kept in quarantine and poisoned (so
//! that late writes show), and the bytes held by the code under test are
//! counted. Only the running simulated thread touches this state.
#![allow(static_mut_refs)]
use crate::sched;
use std::alloc::{GlobalAlloc, Layout};

pub struct Heap;

#[global_allocator]
static A: Heap = Heap;

const MAGIC: u64 = 0x5a55_4e45_4a50_4547;
const FRONT: usize = 64;
const TAIL: usize = 32;
const POISON: u64 = 0xdead_f1ee_dead_f1ee;
const QMAX: usize = 8192;
const QBYTES: usize = 96 << 20;

#[repr(C)]
struct Hdr {
    magic: u64,
    size: u64,
    sut: u64,
    ord: u64,
}

pub static mut LIVE: u64 = 0;
pub static mut PEAK: u64 = 0;
pub static mut ALLOCS: u64 = 0;
/// most the code under test may hold
pub static mut LIMIT: u64 = 3 << 30;
static mut FILL: u64 = 0;
static mut QUAR: bool = false;
static mut Q: [(usize, usize, usize); QMAX] = [(0, 0, 0); QMAX];
static mut QH: usize = 0;
static mut QN: usize = 0;
static mut QB: usize = 0;
pub static mut QUARANTINED: u64 = 0;

pub fn configure(fill: u64, quarantine: bool) {
    unsafe {
        FILL = fill;
        QUAR = quarantine;
        ALLOCS = 0;
        PEAK = LIVE;
    }
}

pub fn live() -> u64 {
    unsafe { LIVE }
}

pub fn peak() -> u64 {
    unsafe { PEAK }
}

pub fn reset_peak() {
    unsafe { PEAK = LIVE }
}

fn front(align: usize) -> usize {
    align.max(FRONT)
}

fn fatal(what: &str, size: u64) {
    // no allocation here
    let f = unsafe { sched::FATAL };
    match what {
        "under" => f("heap", "a write before the start of a heap block"),
        "over" => f("heap", "a write past the end of a heap block"),
        "uaf" => f("heap", "a write to a heap block after it was freed"),
        "header" => f("heap", "a freed pointer is not a live heap block"),
        "layout" => f("heap", "a heap block was freed with another size than it was allocated with"),
        _ => f("memory", if size > 0 { "the code under test holds more memory than the simulated machine has" } else { "" }),
    }
}

unsafe fn fill_words(p: *mut u8, n: usize, seed: u64) {
    let mut w = seed;
    let mut i = 0;
    while i + 8 <= n {
        (p.add(i) as *mut u64).write_unaligned(w);
        w = w.wrapping_add(0x9E37_79B9_7F4A_7C15).rotate_left(5);
        i += 8;
    }
    while i < n {
        *p.add(i) = w as u8 ^ i as u8;
        i += 1;
    }
}

unsafe fn zone(p: *mut u8, n: usize) {
    core::ptr::write_bytes(p, 0xA7, n);
}

unsafe fn zone_ok(p: *const u8, n: usize) -> bool {
    (0..n).all(|i| *p.add(i) == 0xA7)
}

unsafe fn get(l: Layout, zeroed: bool) -> *mut u8 {
    let fr = front(l.align());
    let Some(total) = l.size().checked_add(fr + 16 + TAIL) else { return core::ptr::null_mut() };
    let sut = sched::in_sim() && !sched::in_harness();
    if sut {
        LIVE += l.size() as u64;
        if LIVE > PEAK {
            PEAK = LIVE;
        }
        ALLOCS += 1;
        if LIVE > LIMIT {
            fatal("memory", LIVE);
        }
    }
    let base = if l.align() > 16 {
        let p = libc::memalign(l.align(), total) as *mut u8;
        if zeroed && !p.is_null() {
            core::ptr::write_bytes(p, 0, total);
        }
        p
    } else if zeroed {
        libc::calloc(1, total) as *mut u8
    } else {
        libc::malloc(total) as *mut u8
    };
    if base.is_null() {
        return base;
    }
    let ord = ALLOCS;
    // blocks are only as aligned as their layout asks for
    let shift = if sut && l.align() < 16 {
        ((FILL ^ ord).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 60) as usize / l.align() * l.align()
    } else {
        0
    };
    (base as *mut Hdr).write(Hdr { magic: MAGIC, size: l.size() as u64, sut: u64::from(sut), ord });
    let user = base.add(fr + shift);
    zone(user.sub(32), 32);
    zone(user.add(l.size()), TAIL);
    if sut && !zeroed {
        fill_words(user, l.size(), FILL ^ ord.wrapping_mul(0xD6E8_FEB8_6659_FD93));
    }
    if sut {
        sched::light_point();
    }
    user
}

unsafe fn check_free_block(base: usize, size: usize) -> bool {
    let p = base as *const u8;
    let mut i = 0;
    while i + 8 <= size {
        if (p.add(i) as *const u64).read_unaligned() != POISON {
            return false;
        }
        i += 8;
    }
    while i < size {
        if *p.add(i) != POISON as u8 {
            return false;
        }
        i += 1;
    }
    true
}

unsafe fn evict() {
    let (base, off, size) = Q[QH];
    QH = (QH + 1) % QMAX;
    QN -= 1;
    QB -= size;
    if !check_free_block(base + off, size) {
        fatal("uaf", 0);
    }
    libc::free(base as *mut _);
}

/// Check and release everything in quarantine.
pub fn flush() {
    unsafe {
        while QN > 0 {
            evict();
        }
    }
}

unsafe impl GlobalAlloc for Heap {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        get(l, false)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        get(l, true)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let fr = front(l.align());
        let fr = fr + if l.align() < 16 { p as usize % 16 } else { 0 };
        let base = p.sub(fr);
        let h = &mut *(base as *mut Hdr);
        if !zone_ok(p.sub(32), 32) {
            fatal("under", 0);
        }
        if h.magic != MAGIC {
            fatal("header", 0);
        }
        if h.size != l.size() as u64 {
            fatal("layout", 0);
        }
        if !zone_ok(p.add(l.size()), TAIL) {
            fatal("over", 0);
        }
        h.magic = !MAGIC;
        if h.sut != 0 {
            LIVE -= h.size;
            if sched::in_sim() && !sched::in_harness() {
                sched::light_point();
            }
            if QUAR && l.size() <= 1 << 20 {
                let mut i = 0;
                while i + 8 <= l.size() {
                    (p.add(i) as *mut u64).write_unaligned(POISON);
                    i += 8;
                }
                while i < l.size() {
                    *p.add(i) = POISON as u8;
                    i += 1;
                }
                while QN == QMAX || QB + l.size() > QBYTES {
                    evict();
                }
                Q[(QH + QN) % QMAX] = (base as usize, fr, l.size());
                QN += 1;
                QB += l.size();
                QUARANTINED += 1;
                return;
            }
        }
        libc::free(base as *mut _);
    }
}
