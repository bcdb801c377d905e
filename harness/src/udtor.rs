//! Destructor engine for the unsync collector.
use dumpster::unsync as gcm;
use std::cell::RefCell as Lk1;
use std::sync::Mutex as Lk2;

include!("dtor_engine.rs");

const IS_SYNC: bool = false;

fn prepare() {}

impl Slot for std::cell::RefCell<Vec<P>> {
    fn with<R>(&self, f: impl FnOnce(&mut Vec<P>) -> R) -> R {
        f(&mut self.borrow_mut())
    }
    fn own(&mut self) -> &mut Vec<P> {
        self.get_mut()
    }
    fn forget(&self) {
        std::mem::forget(self.borrow_mut());
    }
}
impl Slot for std::sync::Mutex<Vec<P>> {
    fn with<R>(&self, f: impl FnOnce(&mut Vec<P>) -> R) -> R {
        f(&mut self.lock().unwrap_or_else(|e| e.into_inner()))
    }
    fn own(&mut self) -> &mut Vec<P> {
        self.get_mut().unwrap_or_else(|e| e.into_inner())
    }
    fn forget(&self) {
        std::mem::forget(self.lock().unwrap_or_else(|e| e.into_inner()));
    }
}
