use crate::weights::Weight;
use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;
pub use shim_base::runtime::{DispatchError, DispatchErrorWithPostInfo as SpDispatchErrorWithPostInfo, DispatchResult};
pub use crate::traits::{CallableCallFor, UnfilteredDispatchable};
pub use shim_base::traits::Dispatchable;
pub use shim_base::traits::Parameter;
pub use crate::traits::GetCallName;

pub type DispatchResultWithPostInfo = Result<PostDispatchInfo, DispatchErrorWithPostInfo>;
pub type DispatchErrorWithPostInfo = shim_base::runtime::DispatchErrorWithPostInfo<PostDispatchInfo>;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Default, Encode, Decode, TypeInfo, MaxEncodedLen)]
pub enum Pays {
	#[default]
	Yes,
	No,
}
impl From<Pays> for PostDispatchInfo {
	fn from(pays_fee: Pays) -> Self {
		PostDispatchInfo { actual_weight: None, pays_fee }
	}
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default, Encode, Decode, TypeInfo)]
pub enum DispatchClass {
	#[default]
	Normal,
	Operational,
	Mandatory,
}
impl DispatchClass {
	pub fn all() -> &'static [DispatchClass] {
		&[DispatchClass::Normal, DispatchClass::Operational, DispatchClass::Mandatory]
	}
	pub fn non_mandatory() -> &'static [DispatchClass] {
		&[DispatchClass::Normal, DispatchClass::Operational]
	}
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default, Encode, Decode, TypeInfo)]
pub struct DispatchInfo {
	pub call_weight: Weight,
	pub extension_weight: Weight,
	pub class: DispatchClass,
	pub pays_fee: Pays,
	/// the declared weight under its older name
	pub weight: Weight,
}
impl DispatchInfo {
	pub fn total_weight(&self) -> Weight {
		self.call_weight.saturating_add(self.extension_weight)
	}
}
pub trait IntoDispatchInfo {
	fn into_info(self) -> DispatchInfo;
}
impl IntoDispatchInfo for Weight {
	fn into_info(self) -> DispatchInfo {
		DispatchInfo { call_weight: self, weight: self, ..Default::default() }
	}
}
impl IntoDispatchInfo for u64 {
	fn into_info(self) -> DispatchInfo {
		Weight::from_parts(self, 0).into_info()
	}
}
impl IntoDispatchInfo for i32 {
	fn into_info(self) -> DispatchInfo {
		Weight::from_parts(self as u64, 0).into_info()
	}
}
impl IntoDispatchInfo for (Weight, DispatchClass) {
	fn into_info(self) -> DispatchInfo {
		DispatchInfo { class: self.1, ..self.0.into_info() }
	}
}
impl IntoDispatchInfo for (Weight, Pays) {
	fn into_info(self) -> DispatchInfo {
		DispatchInfo { pays_fee: self.1, ..self.0.into_info() }
	}
}
impl IntoDispatchInfo for (Weight, DispatchClass, Pays) {
	fn into_info(self) -> DispatchInfo {
		DispatchInfo { class: self.1, pays_fee: self.2, ..self.0.into_info() }
	}
}
pub trait GetDispatchInfo {
	fn get_dispatch_info(&self) -> DispatchInfo;
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default, Encode, Decode, TypeInfo)]
pub struct PostDispatchInfo {
	pub actual_weight: Option<Weight>,
	pub pays_fee: Pays,
}
impl PostDispatchInfo {
	pub fn calc_actual_weight(&self, info: &DispatchInfo) -> Weight {
		self.actual_weight.map(|w| w.min(info.call_weight)).unwrap_or(info.call_weight)
	}
}
impl From<()> for PostDispatchInfo {
	fn from(_: ()) -> Self {
		Default::default()
	}
}
impl From<Option<Weight>> for PostDispatchInfo {
	fn from(actual_weight: Option<Weight>) -> Self {
		PostDispatchInfo { actual_weight, pays_fee: Pays::Yes }
	}
}
impl From<(Option<Weight>, Pays)> for PostDispatchInfo {
	fn from((actual_weight, pays_fee): (Option<Weight>, Pays)) -> Self {
		PostDispatchInfo { actual_weight, pays_fee }
	}
}
pub trait WithPostDispatchInfo {
	fn with_weight(self, w: Weight) -> DispatchErrorWithPostInfo;
}
impl<T: Into<DispatchError>> WithPostDispatchInfo for T {
	fn with_weight(self, w: Weight) -> DispatchErrorWithPostInfo {
		DispatchErrorWithPostInfo { post_info: Some(w).into(), error: self.into() }
	}
}
pub fn extract_actual_weight(r: &DispatchResultWithPostInfo, info: &DispatchInfo) -> Weight {
	match r {
		Ok(p) => p,
		Err(e) => &e.post_info,
	}
	.calc_actual_weight(info)
}
#[derive(Clone, PartialEq, Eq, Debug, Encode, Decode, TypeInfo, MaxEncodedLen)]
pub enum RawOrigin<AccountId> {
	Root,
	Signed(AccountId),
	None,
}
impl<AccountId> From<Option<AccountId>> for RawOrigin<AccountId> {
	fn from(s: Option<AccountId>) -> Self {
		match s {
			Some(w) => RawOrigin::Signed(w),
			None => RawOrigin::None,
		}
	}
}
impl<AccountId> RawOrigin<AccountId> {
	pub fn as_signed(&self) -> Option<&AccountId> {
		match self {
			RawOrigin::Signed(a) => Some(a),
			_ => None,
		}
	}
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub struct PerDispatchClass<T>(pub [T; 3]);
