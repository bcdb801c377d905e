//! Default condition of the unsync collector.
use dumpster::unsync as gcm;
use std::cell::RefCell as Lk;

include!("churn_engine.rs");

fn bound(existing: u64) -> u64 {
    4 * (existing + 16)
}
fn with<R>(l: &Lk<Vec<Gc<N>>>, f: impl FnOnce(&mut Vec<Gc<N>>) -> R) -> R {
    f(&mut l.borrow_mut())
}
