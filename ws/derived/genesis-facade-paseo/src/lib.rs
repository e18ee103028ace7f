//! What the generator of chain descriptions knows of the runtime.
pub use parachains_common::{AccountId, AuraId};
pub mod constants {
	pub use runtime_constants::*;
}
pub const WASM_BINARY: Option<&[u8]> = Some(b"the runtime");
#[derive(Clone, Debug, serde::Serialize)]
pub struct SessionKeys {
	pub aura: AuraId,
}
