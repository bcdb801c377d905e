//! Destructor engine for the sync collector.
use dumpster::sync as gcm;
use std::sync::{Mutex as Lk1, RwLock as Lk2};

include!("dtor_engine.rs");

const IS_SYNC: bool = true;

fn on_op(op: dumpster::hooks::Op, addr: *const ()) {
    if arena::state(addr as usize) == arena::St::Freed {
        arena::fault(arena::F_ATOMIC_UAF, addr as u64);
    }
    if op == dumpster::hooks::Op::Blocked {
        finish(&Out {
            fail: Some(("deadlock".into(), "operation waits for a lock that is never released".into())),
            ..Out::default()
        });
    }
}
fn prepare() {
    dumpster::hooks::set_hook(Some(on_op));
}

impl Slot for std::sync::Mutex<Vec<P>> {
    fn with<R>(&self, f: impl FnOnce(&mut Vec<P>) -> R) -> R {
        f(&mut self.lock().unwrap_or_else(|e| e.into_inner()))
    }
    fn own(&mut self) -> &mut Vec<P> {
        self.get_mut().unwrap_or_else(|e| e.into_inner())
    }
    fn forget(&self) {
        std::mem::forget(self.lock().unwrap_or_else(|e| e.into_inner()));
    }
}
impl Slot for std::sync::RwLock<Vec<P>> {
    fn with<R>(&self, f: impl FnOnce(&mut Vec<P>) -> R) -> R {
        f(&mut self.write().unwrap_or_else(|e| e.into_inner()))
    }
    fn own(&mut self) -> &mut Vec<P> {
        self.get_mut().unwrap_or_else(|e| e.into_inner())
    }
    fn forget(&self) {
        std::mem::forget(self.write().unwrap_or_else(|e| e.into_inner()));
    }
}
