//! Sequential engine for the unsync collector.
use dumpster::unsync as gcm;
use std::cell::{RefCell as Lk1, RefCell as Lk2};
const SYNC: bool = false;
fn detect_deadlock() {}

/// What trait objects of values require.
#[cfg(feature = "unsized")]
pub trait Bound {}
#[cfg(feature = "unsized")]
impl<T> Bound for T {}

include!("seq_engine.rs");

impl<T> Lock<T> for std::cell::RefCell<T> {
    fn w<R>(&self, f: impl FnOnce(&mut T) -> R) -> Option<R> {
        self.try_borrow_mut().ok().map(|mut t| f(&mut t))
    }
    fn r<R>(&self, f: impl FnOnce(&T) -> R) -> Option<R> {
        self.try_borrow().ok().map(|t| f(&t))
    }
    fn hold_mut<'a>(&'a self) -> Option<Box<dyn Held + 'a>> {
        Some(Box::new(self.try_borrow_mut().ok()?))
    }
    fn hold_shared<'a>(&'a self) -> Option<Box<dyn Held + 'a>> {
        Some(Box::new(self.try_borrow().ok()?))
    }
}
