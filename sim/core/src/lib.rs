#![allow(clippy::missing_safety_doc, invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions, static_mut_refs, clippy::missing_panics_doc, function_casts_as_integer, unpredictable_function_pointer_comparisons)]
pub mod tape;
pub mod raw;
pub mod scratch;
pub mod sim;
pub mod alloc;
pub mod interpose;
pub mod fsx;
pub mod net;
pub mod streams;
pub mod driver;
pub mod sha1;
pub mod simvfs;

#[global_allocator]
static A: alloc::SimAlloc = alloc::SimAlloc;

pub use sim::{gen, genp, fault, faultp, env, guard, fired, probe, note, state, log};
pub use tape::{S, Rng, mix, hash_str, hash_bytes};
