//! A global allocator which, while tracking is on, serves every request from a fixed-address arena
//! that never reuses memory. Freed blocks are poisoned; layouts and red zones are checked on free.

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicUsize, Ordering::*};

pub struct Arena;

#[global_allocator]
static GLOBAL: Arena = Arena;

const BASE: usize = 0x6000_0000_0000;
const SIZE: usize = 1 << 30;
const TABLE: usize = 0x6100_0000_0000;
const MAX_BLOCKS: usize = 4 << 20;
const HDR: usize = 32;
const RED: usize = 16;
const POISON: u8 = 0xDE;
/// Exit status of a case that needs more memory than there is.
pub const EXHAUSTED: i32 = 91;
const MAGIC: u32 = 0x4172_6e61;

static TRACK: AtomicBool = AtomicBool::new(false);
static MAPPED: AtomicBool = AtomicBool::new(false);
static LOCK: AtomicBool = AtomicBool::new(false);
static CUR: AtomicUsize = AtomicUsize::new(0);
static NBLOCKS: AtomicUsize = AtomicUsize::new(0);

#[repr(C)]
struct Hdr {
    size: u64,
    align: u32,
    magic: u32,
    state: AtomicU32, // 1 live, 2 freed
    _pad: u32,
    seq: u64,
}

// fault log
pub const F_DOUBLE_FREE: u32 = 1;
pub const F_LAYOUT: u32 = 2;
pub const F_REDZONE: u32 = 3;
pub const F_BAD_FREE: u32 = 4;
pub const F_WRITE_AFTER_FREE: u32 = 5;
pub const F_ATOMIC_UAF: u32 = 6;
pub const F_USER: u32 = 7;
static FAULT_KIND: AtomicU32 = AtomicU32::new(0);
static FAULT_INFO: AtomicU64 = AtomicU64::new(0);

pub fn fault(kind: u32, info: u64) {
    if FAULT_KIND.compare_exchange(0, kind, SeqCst, SeqCst).is_ok() {
        FAULT_INFO.store(info, SeqCst);
    }
}
/// Description of the first memory fault seen so far.
pub fn take_fault() -> Option<String> {
    let k = FAULT_KIND.load(SeqCst);
    (k != 0).then(|| {
        let what = match k {
            F_DOUBLE_FREE => "block freed twice",
            F_LAYOUT => "block freed with a layout other than it was allocated with",
            F_REDZONE => "write past the end of a block",
            F_BAD_FREE => "free of a pointer that is not a block",
            F_WRITE_AFTER_FREE => "write to a freed block",
            F_ATOMIC_UAF => "collector accessed a freed block",
            _ => "fault",
        };
        format!("{what} (info {:#x})", FAULT_INFO.load(SeqCst))
    })
}

/// Start serving allocations from the arena. Called once, in a forked child.
pub fn start() {
    unsafe {
        if !MAPPED.swap(true, SeqCst) {
            for (a, n) in [(BASE, SIZE), (TABLE, MAX_BLOCKS * 4)] {
                let p = libc::mmap(
                    a as *mut _,
                    n,
                    libc::PROT_READ | libc::PROT_WRITE,
                    libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED,
                    -1,
                    0,
                );
                if p as usize != a {
                    libc::_exit(90);
                }
            }
        }
    }
    TRACK.store(true, SeqCst);
}
pub fn stop() {
    TRACK.store(false, SeqCst);
}

fn in_arena(a: usize) -> bool {
    (BASE..BASE + SIZE).contains(&a)
}
unsafe fn hdr(payload: usize) -> *mut Hdr {
    (payload - HDR) as *mut Hdr
}
unsafe fn start_of(i: usize) -> usize {
    BASE + ((TABLE as *const u32).add(i).read() as usize) * 16
}

struct Spin;
impl Spin {
    fn new() -> Spin {
        while LOCK.swap(true, Acquire) {
            std::hint::spin_loop();
        }
        Spin
    }
}
impl Drop for Spin {
    fn drop(&mut self) {
        LOCK.store(false, Release);
    }
}

/// Index of the block containing `addr`, if any.
fn find(addr: usize) -> Option<usize> {
    if !in_arena(addr) || !MAPPED.load(Relaxed) {
        return None;
    }
    let n = NBLOCKS.load(Acquire);
    let (mut lo, mut hi) = (0, n);
    while lo < hi {
        let m = (lo + hi) / 2;
        if unsafe { start_of(m) } <= addr {
            lo = m + 1;
        } else {
            hi = m;
        }
    }
    if lo == 0 {
        return None;
    }
    let s = unsafe { start_of(lo - 1) };
    let h = unsafe { &*hdr(s) };
    (addr < s + (h.size as usize).max(1)).then_some(lo - 1)
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum St {
    Unknown,
    Live,
    Freed,
}
/// State of the block containing `addr`.
pub fn state(addr: usize) -> St {
    match find(addr) {
        None => St::Unknown,
        Some(i) => unsafe {
            if (*hdr(start_of(i))).state.load(Relaxed) == 1 {
                St::Live
            } else {
                St::Freed
            }
        },
    }
}
pub fn block_count() -> usize {
    NBLOCKS.load(Acquire)
}
/// Sizes of the live blocks allocated since `from`.
pub fn live_since(from: usize) -> (usize, usize) {
    let mut n = 0;
    let mut bytes = 0;
    for i in from..NBLOCKS.load(Acquire) {
        let h = unsafe { &*hdr(start_of(i)) };
        if h.state.load(Relaxed) == 1 {
            n += 1;
            bytes += h.size as usize;
        }
    }
    (n, bytes)
}
/// Check that nobody wrote to freed blocks or past the end of live ones.
pub fn scan() {
    for i in 0..NBLOCKS.load(Acquire) {
        unsafe {
            let s = start_of(i);
            let h = &*hdr(s);
            if h.magic != MAGIC {
                fault(F_REDZONE, s as u64);
                return;
            }
            let size = h.size as usize;
            if h.state.load(Relaxed) == 2 {
                let body = std::slice::from_raw_parts(s as *const u8, size);
                if body.iter().any(|&b| b != POISON) {
                    fault(F_WRITE_AFTER_FREE, s as u64);
                }
            }
            let red = std::slice::from_raw_parts((s + size) as *const u8, RED);
            if red.iter().any(|&b| b != 0xA5) {
                fault(F_REDZONE, s as u64);
            }
        }
    }
}

unsafe impl GlobalAlloc for Arena {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        if !TRACK.load(Relaxed) {
            return System.alloc(layout);
        }
        let _g = Spin::new();
        let align = layout.align().max(16);
        let cur = CUR.load(Relaxed);
        let p = (BASE + cur + HDR + align - 1) & !(align - 1);
        let end = p + layout.size() + RED;
        let n = NBLOCKS.load(Relaxed);
        if end - BASE + 64 > SIZE || n >= MAX_BLOCKS {
            libc::_exit(EXHAUSTED);
        }
        hdr(p).write(Hdr {
            size: layout.size() as u64,
            align: layout.align() as u32,
            magic: MAGIC,
            state: AtomicU32::new(1),
            _pad: 0,
            seq: n as u64,
        });
        std::ptr::write_bytes((p + layout.size()) as *mut u8, 0xA5, RED);
        (TABLE as *mut u32).add(n).write(((p - BASE) / 16) as u32);
        CUR.store((end - BASE + 15) & !15, Relaxed);
        NBLOCKS.store(n + 1, Release);
        std::ptr::write_bytes(p as *mut u8, 0xCD, layout.size());
        p as *mut u8
    }
    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        let a = ptr as usize;
        if !in_arena(a) || !MAPPED.load(Relaxed) {
            return System.dealloc(ptr, layout);
        }
        let Some(i) = find(a).filter(|&i| start_of(i) == a) else {
            fault(F_BAD_FREE, a as u64);
            return;
        };
        let h = &*hdr(start_of(i));
        if h.state.swap(2, AcqRel) != 1 {
            fault(F_DOUBLE_FREE, a as u64);
            return;
        }
        if h.size as usize != layout.size() || h.align as usize != layout.align() {
            fault(F_LAYOUT, a as u64);
        }
        let red = std::slice::from_raw_parts((a + h.size as usize) as *const u8, RED);
        if red.iter().any(|&b| b != 0xA5) {
            fault(F_REDZONE, a as u64);
        }
        std::ptr::write_bytes(ptr, POISON, h.size as usize);
    }
}
