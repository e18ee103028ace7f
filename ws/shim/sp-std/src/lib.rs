pub use std::*;
pub mod prelude {
	pub use std::borrow::ToOwned;
	pub use std::boxed::Box;
	pub use std::clone::Clone;
	pub use std::cmp::{Eq, PartialEq, Reverse};
	pub use std::iter::IntoIterator;
	pub use std::vec;
	pub use std::vec::Vec;
}
