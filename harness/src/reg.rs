//! Registry of generated values: how often each was dropped, and where it lives.

use crate::arena;
use std::sync::atomic::{AtomicU32, AtomicUsize, Ordering::*};

pub const MAX: usize = 1 << 16;
static DROPS: [AtomicU32; MAX] = [const { AtomicU32::new(0) }; MAX];
static ADDR: [AtomicUsize; MAX] = [const { AtomicUsize::new(0) }; MAX];
static NEXT: AtomicU32 = AtomicU32::new(0);
static VISITS: AtomicUsize = AtomicUsize::new(0);

pub const CANARY: u64 = 0x600D_F00D_CAFE_0000;

/// Header placed in every generated value.
pub struct Hdr {
    canary: std::sync::atomic::AtomicU64,
    pub id: u32,
}

unsafe impl dumpster::Collectable for Hdr {
    fn accept<V: dumpster::Visitor>(&self, _: &mut V) -> Result<(), ()> {
        VISITS.fetch_add(1, Relaxed);
        Ok(())
    }
}

impl Hdr {
    pub fn new() -> Hdr {
        let id = NEXT.fetch_add(1, SeqCst);
        assert!((id as usize) < MAX, "harness: too many values");
        Hdr { canary: std::sync::atomic::AtomicU64::new(CANARY ^ id as u64), id }
    }
    pub fn ok(&self) -> bool {
        let c = self.canary.load(Relaxed);
        c == CANARY ^ self.id as u64 && drops(self.id) == 0
    }
}

impl Drop for Hdr {
    fn drop(&mut self) {
        let c = self.canary.swap(0xBAD, Relaxed);
        let id = c ^ CANARY;
        if id >= NEXT.load(SeqCst) as u64 {
            arena::fault(arena::F_DOUBLE_FREE, c);
            return;
        }
        DROPS[id as usize].fetch_add(1, SeqCst);
    }
}

pub fn drops(id: u32) -> u32 {
    DROPS[id as usize].load(SeqCst)
}
pub fn count() -> u32 {
    NEXT.load(SeqCst)
}
pub fn visits() -> usize {
    VISITS.load(Relaxed)
}
pub fn set_addr(id: u32, a: usize) {
    ADDR[id as usize].store(a, SeqCst);
}
pub fn addr(id: u32) -> usize {
    ADDR[id as usize].load(SeqCst)
}
/// Is the storage of this value released (values never given an address count as released)?
pub fn storage_released(id: u32) -> bool {
    let a = addr(id);
    a == 0 || arena::state(a) != arena::St::Live
}
