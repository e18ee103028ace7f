pub use shim_base::ext::TestExternalities;
pub mod hashing {
	pub use shim_base::hashing::*;
}
