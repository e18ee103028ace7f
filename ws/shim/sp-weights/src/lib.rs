
pub use frame_support::weights::*;
