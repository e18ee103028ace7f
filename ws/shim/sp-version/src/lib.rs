//! Versions.
use std::borrow::Cow;
pub use frame_support_procedural::runtime_version;
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct RuntimeVersion {
	pub spec_name: Cow<'static, str>,
	pub impl_name: Cow<'static, str>,
	pub authoring_version: u32,
	pub spec_version: u32,
	pub impl_version: u32,
	pub apis: Cow<'static, [([u8; 8], u32)]>,
	pub transaction_version: u32,
	pub state_version: u8,
}
#[derive(Clone, Debug, Default)]
pub struct NativeVersion {
	pub runtime_version: RuntimeVersion,
	pub can_author_with: std::collections::HashSet<u32>,
}
