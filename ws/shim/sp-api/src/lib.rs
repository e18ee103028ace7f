//! Runtime interfaces: those some check asks are kept, the others' bodies are dropped.
pub use frame_support_procedural::impl_runtime_apis;
