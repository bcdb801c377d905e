//! Default condition of the sync collector.
use dumpster::sync as gcm;
use std::sync::Mutex as Lk;

include!("churn_engine.rs");

fn bound(existing: u64) -> u64 {
    300_000 + 4 * existing
}
fn with<R>(l: &Lk<Vec<Gc<N>>>, f: impl FnOnce(&mut Vec<Gc<N>>) -> R) -> R {
    f(&mut l.lock().unwrap())
}
