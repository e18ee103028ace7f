pub type Balance = u128;
pub type BlockNumber = u32;
pub type Moment = u64;
pub type AccountId = shim_base::primitives::AccountId32;
pub use cumulus_primitives_core::ParaId as Id;
