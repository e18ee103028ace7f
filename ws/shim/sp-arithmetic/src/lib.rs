pub use shim_base::arith::*;
pub use shim_base::fixed::*;
pub mod traits {
	pub use shim_base::arith::*;
}
