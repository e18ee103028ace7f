//! Single-threaded, deterministic stand-in for the substrate primitives (`sp-*`) the code under test is
//! written against. Storage is a thread-local ordered map with nested transactions and snapshots.
#![allow(clippy::all)]
extern crate self as shim_base;

pub mod ext;
pub mod hashing;
pub mod arith;
pub mod fixed;
pub mod bounded;
pub mod primitives;
pub mod runtime;
pub mod traits;

pub use parity_scale_codec as codec;
pub use scale_info;
pub use serde;
pub use num_traits;
