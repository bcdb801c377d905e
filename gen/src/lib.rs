//! Only here to have its dependencies built.
pub use dumpster;
