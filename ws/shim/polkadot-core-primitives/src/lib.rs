pub type Balance = u128;
pub type BlockNumber = u32;
pub type AccountId = shim_base::primitives::AccountId32;
pub mod v2 {
	pub use super::{AccountId, Balance, BlockNumber};
}
