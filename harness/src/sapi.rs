//! Pointer interface of the sync collector.
use dumpster::sync as gcm;
use std::sync::Mutex as Lk;

include!("api_engine.rs");

fn with<T>(l: &Lk<Vec<T>>, f: impl FnOnce(&mut Vec<T>)) {
    f(&mut l.lock().unwrap())
}
fn new_default<T: Val>() -> Option<Gc<T>> {
    // not provided
    None
}
