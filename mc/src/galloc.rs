//! A guarding global allocator: zones around every block, poison on allocation and release,
//! layout matching, quarantine of released blocks, live-block accounting.
use std::alloc::{GlobalAlloc, Layout};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicU8, AtomicUsize, Ordering::*};

const RZ: usize = 64;
const LIVE: u64 = 0x11fe_b10c_0000_a110;
const DEAD: u64 = 0xdead_b10c_0000_f4ee;

#[repr(C)]
struct Head {
    magic: u64,
    size: usize,
    align: usize,
    base: usize,
    fill: u8,
}
const HD: usize = 64;

pub struct Guard;
pub static ACTIVE: AtomicBool = AtomicBool::new(false);
static FILL: AtomicU8 = AtomicU8::new(0xA5);
static LIVE_BLOCKS: AtomicI64 = AtomicI64::new(0);
static ERRORS: AtomicU64 = AtomicU64::new(0);
static FIRST: AtomicUsize = AtomicUsize::new(0); // code of the first error
static FIRST_A: AtomicU64 = AtomicU64::new(0);
static FIRST_B: AtomicU64 = AtomicU64::new(0);

const Q: usize = 512;
static LOCK: AtomicBool = AtomicBool::new(false);
static mut RING: [usize; Q] = [0; Q];
static mut HEAD: usize = 0;

const WHAT: &[&str] = &[
    "",
    "zero-sized allocation",
    "write before the start of a block (size, offset)",
    "write past the end of a block (size, offset)",
    "released with another layout (size allocated, size released)",
    "released twice (size)",
    "released a pointer that was never allocated",
    "write to a released block (size, offset)",
    "released with another alignment (allocated, released)",
];

fn err(code: usize, a: u64, b: u64) {
    if ERRORS.fetch_add(1, SeqCst) == 0 {
        FIRST.store(code, SeqCst);
        FIRST_A.store(a, SeqCst);
        FIRST_B.store(b, SeqCst);
    }
}
/// The number of errors so far is reset; the first one is described.
pub fn take_error() -> Option<String> {
    let n = ERRORS.swap(0, SeqCst);
    if n == 0 {
        None
    } else {
        Some(format!(
            "{} {} {}",
            WHAT[FIRST.load(SeqCst)],
            FIRST_A.load(SeqCst),
            FIRST_B.load(SeqCst)
        ))
    }
}
pub fn set_fill(b: u8) {
    FILL.store(b, SeqCst);
}
pub fn live() -> i64 {
    LIVE_BLOCKS.load(SeqCst)
}
unsafe fn zone(p: *mut u8, n: usize, b: u8) {
    std::ptr::write_bytes(p, b, n)
}
unsafe fn check(p: *const u8, n: usize, b: u8) -> Option<usize> {
    // word-wise
    let w = (b as u64) * 0x0101_0101_0101_0101;
    let mut i = 0;
    while i + 8 <= n {
        if (p.add(i) as *const u64).read_unaligned() != w {
            break;
        }
        i += 8;
    }
    while i < n {
        if *p.add(i) != b {
            return Some(i);
        }
        i += 1;
    }
    None
}
unsafe fn check_zones(h: *mut Head, u: *mut u8) {
    let (size, f) = ((*h).size, !(*h).fill);
    if let Some(i) = check(u.sub(RZ), RZ, f) {
        err(2, size as u64, (RZ - i) as u64);
    }
    if let Some(i) = check(u.add(size), RZ, f) {
        err(3, size as u64, i as u64);
    }
}
fn lock() {
    while LOCK.compare_exchange(false, true, Acquire, Relaxed).is_err() {
        std::hint::spin_loop();
    }
}
fn unlock() {
    LOCK.store(false, Release);
}
unsafe fn evict(u: usize) {
    if u == 0 {
        return;
    }
    let u = u as *mut u8;
    let h = u.sub(RZ + HD) as *mut Head;
    if let Some(i) = check(u, (*h).size, (*h).fill ^ 0x3C) {
        err(7, (*h).size as u64, i as u64);
    }
    check_zones(h, u);
    libc::free((*h).base as *mut libc::c_void);
}
/// Check and release every quarantined block.
pub fn flush() {
    lock();
    unsafe {
        for i in 0..Q {
            let r = std::ptr::addr_of_mut!(RING) as *mut usize;
            evict(*r.add(i));
            *r.add(i) = 0;
        }
    }
    unlock();
}
unsafe impl GlobalAlloc for Guard {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() == 0 {
            err(1, 0, l.align() as u64);
        }
        let a = l.align().max(16);
        let base = libc::malloc(l.size() + HD + 2 * RZ + a + 16) as usize;
        if base == 0 {
            return std::ptr::null_mut();
        }
        let u = ((base + HD + RZ + a - 1) / a * a) as *mut u8;
        let f = FILL.load(Relaxed);
        let h = u.sub(RZ + HD) as *mut Head;
        *h = Head { magic: LIVE, size: l.size(), align: l.align(), base, fill: f };
        zone(u.sub(RZ), RZ, !f);
        zone(u, l.size(), f);
        zone(u.add(l.size()), RZ, !f);
        LIVE_BLOCKS.fetch_add(1, Relaxed);
        u
    }
    unsafe fn dealloc(&self, u: *mut u8, l: Layout) {
        let h = u.sub(RZ + HD) as *mut Head;
        match (*h).magic {
            LIVE => {}
            DEAD => return err(5, (*h).size as u64, 0),
            _ => return err(6, 0, 0),
        }
        if (*h).size != l.size() {
            err(4, (*h).size as u64, l.size() as u64);
        } else if (*h).align != l.align() {
            err(8, (*h).align as u64, l.align() as u64);
        }
        check_zones(h, u);
        (*h).magic = DEAD;
        zone(u, (*h).size, (*h).fill ^ 0x3C);
        LIVE_BLOCKS.fetch_sub(1, Relaxed);
        lock();
        let r = std::ptr::addr_of_mut!(RING) as *mut usize;
        let old = *r.add(HEAD);
        *r.add(HEAD) = u as usize;
        HEAD = (HEAD + 1) % Q;
        unlock();
        evict(old);
    }
}
