//! Pointer interface of the unsync collector.
use dumpster::unsync as gcm;
use std::cell::RefCell as Lk;

include!("api_engine.rs");

fn with<T>(l: &Lk<Vec<T>>, f: impl FnOnce(&mut Vec<T>)) {
    f(&mut l.borrow_mut())
}
fn new_default<T: Val>() -> Option<Gc<T>> {
    Some(Gc::default())
}
