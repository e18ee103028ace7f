//! `sp_runtime::traits` (and the parts of `sp_core` it builds on).
pub use crate::arith::*;
use crate::codec::{Codec, Decode, Encode, FullCodec, Input, MaxEncodedLen};
pub use crate::runtime::LookupError;
use crate::runtime::DispatchResultWithInfo;
use crate::scale_info::TypeInfo;
use std::fmt::{Debug, Display};
use std::marker::PhantomData;

// ------------------------------------------------------------------ values as types
pub trait Get<T> {
	fn get() -> T;
}
impl<T: Default> Get<T> for () {
	fn get() -> T {
		T::default()
	}
}
pub struct GetDefault;
impl<T: Default> Get<T> for GetDefault {
	fn get() -> T {
		T::default()
	}
}
pub trait TypedGet {
	type Type;
	fn get() -> Self::Type;
}
macro_rules! const_types {
	($($n:ident $t:ty),*) => {$(
		#[derive(Default, Clone)]
		pub struct $n<const T: $t>;
		impl<const T: $t> Get<$t> for $n<T> {
			fn get() -> $t { T }
		}
		impl<const T: $t> Get<Option<$t>> for $n<T> {
			fn get() -> Option<$t> { Some(T) }
		}
		impl<const T: $t> TypedGet for $n<T> {
			type Type = $t;
			fn get() -> $t { T }
		}
	)*};
}
const_types!(ConstBool bool, ConstU8 u8, ConstU16 u16, ConstU32 u32, ConstU64 u64, ConstU128 u128, ConstI32 i32, ConstI64 i64, ConstI128 i128);

pub struct VariantCountOf<T>(PhantomData<T>);
pub trait VariantCount {
	const VARIANT_COUNT: u32;
}
impl VariantCount for () {
	const VARIANT_COUNT: u32 = 0;
}
impl VariantCount for u8 {
	const VARIANT_COUNT: u32 = 256;
}
impl<T: VariantCount> Get<u32> for VariantCountOf<T> {
	fn get() -> u32 {
		T::VARIANT_COUNT
	}
}

// ------------------------------------------------------------------ common bounds
pub trait MaybeSerialize: serde::Serialize {}
impl<T: serde::Serialize> MaybeSerialize for T {}
pub trait MaybeSerializeDeserialize: serde::Serialize + for<'a> serde::Deserialize<'a> {}
impl<T: serde::Serialize + for<'a> serde::Deserialize<'a>> MaybeSerializeDeserialize for T {}
pub trait MaybeDisplay: Display {}
impl<T: Display> MaybeDisplay for T {}
pub trait MaybeFromStr {}
impl<T> MaybeFromStr for T {}
pub trait MaybeHash: std::hash::Hash {}
impl<T: std::hash::Hash> MaybeHash for T {}
pub trait Member: Send + Sync + Sized + Debug + Eq + PartialEq + Clone + 'static {}
impl<T: Send + Sync + Sized + Debug + Eq + PartialEq + Clone + 'static> Member for T {}
pub trait Parameter: FullCodec + Clone + Eq + Debug + TypeInfo {}
impl<T: FullCodec + Clone + Eq + Debug + TypeInfo> Parameter for T {}
pub trait IsType<T>: Into<T> + From<T> {
	fn from_ref(t: &T) -> &Self;
	fn into_ref(&self) -> &T;
	fn from_mut(t: &mut T) -> &mut Self;
	fn into_mut(&mut self) -> &mut T;
}
impl<T> IsType<T> for T {
	fn from_ref(t: &T) -> &T {
		t
	}
	fn into_ref(&self) -> &T {
		self
	}
	fn from_mut(t: &mut T) -> &mut T {
		t
	}
	fn into_mut(&mut self) -> &mut T {
		self
	}
}

// ------------------------------------------------------------------ conversions
pub trait Convert<A, B> {
	fn convert(a: A) -> B;
}
impl<A, B: Default> Convert<A, B> for () {
	fn convert(_: A) -> B {
		Default::default()
	}
}
pub trait MaybeConvert<A, B> {
	fn maybe_convert(a: A) -> Option<B>;
}
pub trait TryConvert<A, B> {
	fn try_convert(a: A) -> Result<B, A>;
}
impl<A: Clone, B> TryConvert<A, B> for () {
	fn try_convert(a: A) -> Result<B, A> {
		Err(a)
	}
}
macro_rules! try_convert_tuple {
	($($n:ident),+) => {
		impl<A, B, $($n: TryConvert<A, B>),+> TryConvert<A, B> for ($($n,)+) {
			fn try_convert(a: A) -> Result<B, A> {
				let mut a = a;
				$( match $n::try_convert(a) { Ok(b) => return Ok(b), Err(x) => a = x } )+
				Err(a)
			}
		}
	};
}
try_convert_tuple!(T1);
try_convert_tuple!(T1, T2);
try_convert_tuple!(T1, T2, T3);
try_convert_tuple!(T1, T2, T3, T4);
pub trait ConvertBack<A, B>: Convert<A, B> {
	fn convert_back(b: B) -> A;
}
pub trait MaybeEquivalence<A, B> {
	fn convert(a: &A) -> Option<B>;
	fn convert_back(b: &B) -> Option<A>;
}
pub struct Identity;
impl<T> Convert<T, T> for Identity {
	fn convert(a: T) -> T {
		a
	}
}
impl<T> ConvertBack<T, T> for Identity {
	fn convert_back(a: T) -> T {
		a
	}
}
impl<T: Clone> MaybeEquivalence<T, T> for Identity {
	fn convert(a: &T) -> Option<T> {
		Some(a.clone())
	}
	fn convert_back(a: &T) -> Option<T> {
		Some(a.clone())
	}
}
pub struct ConvertInto;
impl<A: Into<B>, B> Convert<A, B> for ConvertInto {
	fn convert(a: A) -> B {
		a.into()
	}
}
impl<A, B: TryFrom<A>> MaybeConvert<A, B> for ConvertInto {
	fn maybe_convert(a: A) -> Option<B> {
		a.try_into().ok()
	}
}
pub struct TryConvertInto;
impl<A: Clone, B: TryFrom<A>> TryConvert<A, B> for TryConvertInto {
	fn try_convert(a: A) -> Result<B, A> {
		a.clone().try_into().map_err(|_| a)
	}
}
impl<A: TryFrom<B> + Clone, B: TryFrom<A> + Clone> MaybeEquivalence<A, B> for TryConvertInto {
	fn convert(a: &A) -> Option<B> {
		a.clone().try_into().ok()
	}
	fn convert_back(b: &B) -> Option<A> {
		b.clone().try_into().ok()
	}
}
pub struct ConvertToValue<T>(PhantomData<T>);
impl<X, Y, T: Get<Y>> Convert<X, Y> for ConvertToValue<T> {
	fn convert(_: X) -> Y {
		T::get()
	}
}
pub struct GetterIdentity;

pub trait Morph<A> {
	type Outcome;
	fn morph(a: A) -> Self::Outcome;
}
impl<T> Morph<T> for Identity {
	type Outcome = T;
	fn morph(a: T) -> T {
		a
	}
}
pub trait TryMorph<A> {
	type Outcome;
	fn try_morph(a: A) -> Result<Self::Outcome, ()>;
}
impl<T> TryMorph<T> for Identity {
	type Outcome = T;
	fn try_morph(a: T) -> Result<T, ()> {
		Ok(a)
	}
}
/// `morph_types!`: types that map a value.
#[macro_export]
macro_rules! morph_types {
	(@DECL $( #[doc = $doc:expr] )* $vq:vis $name:ident ()) => {
		$( #[doc = $doc] )* $vq struct $name;
	};
	(@DECL $( #[doc = $doc:expr] )* $vq:vis $name:ident ( $( $bound_id:ident ),+ )) => {
		$( #[doc = $doc] )* $vq struct $name < $($bound_id,)* > ( ::core::marker::PhantomData< ( $($bound_id,)* ) > ) ;
	};
	(@IMPL $name:ty : ( $( $bounds:tt )* ) ( $( $where:tt )* ) = |$var:ident: $var_type:ty| -> $outcome:ty { $( $ex:expr )* }) => {
		impl<$($bounds)*> $crate::traits::Morph<$var_type> for $name $( $where )? {
			type Outcome = $outcome;
			fn morph($var: $var_type) -> Self::Outcome { $( $ex )* }
		}
	};
	(@IMPL_TRY $name:ty : ( $( $bounds:tt )* ) ( $( $where:tt )* ) = |$var:ident: $var_type:ty| -> $outcome:ty { $( $ex:expr )* }) => {
		impl<$($bounds)*> $crate::traits::TryMorph<$var_type> for $name $( $where )? {
			type Outcome = $outcome;
			fn try_morph($var: $var_type) -> Result<Self::Outcome, ()> { $( $ex )* }
		}
	};
	(@IMPL $name:ty : () ( $( $where:tt )* ) = |$var:ident: $var_type:ty| -> $outcome:ty { $( $ex:expr )* }) => {
		impl $crate::traits::Morph<$var_type> for $name $( $where )? {
			type Outcome = $outcome;
			fn morph($var: $var_type) -> Self::Outcome { $( $ex )* }
		}
	};
	() => {};
	(
		$( #[doc = $doc:expr] )* $vq:vis type $name:ident
		$( < $( $bound_id:ident $( : $bound_head:path $( | $bound_tail:path )* )? ),+ > )?
		$(: Morph)?
		= |_| -> $outcome:ty { $( $ex:expr )* };
		$( $rest:tt )*
	) => {
		$crate::morph_types! {
			$( #[doc = $doc] )* $vq type $name
			$( < $( $bound_id $( : $bound_head $( | $bound_tail )* )? ),+ > )?
			EXTRA_GENERIC(X)
			= |_x: X| -> $outcome { $( $ex )* };
			$( $rest )*
		}
	};
	(
		$( #[doc = $doc:expr] )* $vq:vis type $name:ident
		$( < $( $bound_id:ident $( : $bound_head:path $( | $bound_tail:path )* )? ),+ > )?
		$(: Morph)?
		$( EXTRA_GENERIC ($extra:ident) )?
		= |$var:ident: $var_type:ty| -> $outcome:ty { $( $ex:expr )* }
		$( where $( $where_path:ty : $where_bound_head:path $( | $where_bound_tail:path )* ),* )?;
		$( $rest:tt )*
	) => {
		$crate::morph_types!(@DECL $( #[doc = $doc] )* $vq $name ( $( $( $bound_id ),+ )? ));
		impl<
			$( $( $bound_id $( : $bound_head $( + $bound_tail )* )? ,)+ )?
			$( $extra )?
		> $crate::traits::Morph<$var_type> for $name $( < $( $bound_id ),+ > )?
		$( where $( $where_path : $where_bound_head $( + $where_bound_tail )* ),* )? {
			type Outcome = $outcome;
			fn morph($var: $var_type) -> Self::Outcome { $( $ex )* }
		}
		$crate::morph_types!{ $($rest)* }
	};
	(
		$( #[doc = $doc:expr] )* $vq:vis type $name:ident
		$( < $( $bound_id:ident $( : $bound_head:path $( | $bound_tail:path )* )? ),+ > )?
		: TryMorph = |$var:ident: $var_type:ty| -> Result<$outcome:ty, ()> { $( $ex:expr )* }
		$( where $( $where_path:ty : $where_bound_head:path $( | $where_bound_tail:path )* ),* )?;
		$( $rest:tt )*
	) => {
		$crate::morph_types!(@DECL $( #[doc = $doc] )* $vq $name ( $( $( $bound_id ),+ )? ));
		impl<
			$( $( $bound_id $( : $bound_head $( + $bound_tail )* )? ,)+ )?
		> $crate::traits::TryMorph<$var_type> for $name $( < $( $bound_id ),+ > )?
		$( where $( $where_path : $where_bound_head $( + $where_bound_tail )* ),* )? {
			type Outcome = $outcome;
			fn try_morph($var: $var_type) -> Result<Self::Outcome, ()> { $( $ex )* }
		}
		$crate::morph_types!{ $($rest)* }
	};
}

crate::morph_types! {
	/// Replaces the value.
	pub type Replace<V: TypedGet> = |_| -> V::Type { V::get() };
}
pub type ReplaceWithDefault<V> = Replace<PhantomData<V>>;
impl<V: Default> TypedGet for PhantomData<V> {
	type Type = V;
	fn get() -> V {
		V::default()
	}
}

pub struct MorphInto<T>(PhantomData<T>);
impl<T, A: Into<T>> Morph<A> for MorphInto<T> {
	type Outcome = T;
	fn morph(a: A) -> T {
		a.into()
	}
}
pub struct TryMorphInto<T>(PhantomData<T>);
impl<T, A: TryInto<T>> TryMorph<A> for TryMorphInto<T> {
	type Outcome = T;
	fn try_morph(a: A) -> Result<T, ()> {
		a.try_into().map_err(|_| ())
	}
}
pub struct ReduceBy<N>(PhantomData<N>);
impl<N: TypedGet> Morph<N::Type> for ReduceBy<N>
where
	N::Type: CheckedSub + Zero,
{
	type Outcome = N::Type;
	fn morph(r: N::Type) -> N::Type {
		r.checked_sub(&N::get()).unwrap_or(Zero::zero())
	}
}
pub struct CheckedReduceBy<N>(PhantomData<N>);
impl<N: TypedGet> TryMorph<N::Type> for CheckedReduceBy<N>
where
	N::Type: CheckedSub,
{
	type Outcome = N::Type;
	fn try_morph(r: N::Type) -> Result<N::Type, ()> {
		r.checked_sub(&N::get()).ok_or(())
	}
}

// ------------------------------------------------------------------ lookups
pub trait Lookup {
	type Source;
	type Target;
	fn lookup(&self, s: Self::Source) -> Result<Self::Target, LookupError>;
}
pub trait StaticLookup {
	type Source: Codec + Clone + PartialEq + Debug + TypeInfo;
	type Target;
	fn lookup(s: Self::Source) -> Result<Self::Target, LookupError>;
	fn unlookup(t: Self::Target) -> Self::Source;
}
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct IdentityLookup<T>(PhantomData<T>);
impl<T> Default for IdentityLookup<T> {
	fn default() -> Self {
		Self(PhantomData)
	}
}
impl<T: Codec + Clone + PartialEq + Debug + TypeInfo> StaticLookup for IdentityLookup<T> {
	type Source = T;
	type Target = T;
	fn lookup(x: T) -> Result<T, LookupError> {
		Ok(x)
	}
	fn unlookup(x: T) -> T {
		x
	}
}
impl<T> Lookup for IdentityLookup<T> {
	type Source = T;
	type Target = T;
	fn lookup(&self, x: T) -> Result<T, LookupError> {
		Ok(x)
	}
}
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct AccountIdLookup<AccountId, AccountIndex>(PhantomData<(AccountId, AccountIndex)>);
impl<AccountId, AccountIndex> StaticLookup for AccountIdLookup<AccountId, AccountIndex>
where
	AccountId: Codec + Clone + PartialEq + Debug + TypeInfo,
	AccountIndex: Codec + Clone + PartialEq + Debug + crate::codec::HasCompact + TypeInfo,
	crate::runtime::MultiAddress<AccountId, AccountIndex>: Codec + TypeInfo,
{
	type Source = crate::runtime::MultiAddress<AccountId, AccountIndex>;
	type Target = AccountId;
	fn lookup(x: Self::Source) -> Result<AccountId, LookupError> {
		match x {
			crate::runtime::MultiAddress::Id(i) => Ok(i),
			_ => Err(LookupError),
		}
	}
	fn unlookup(x: AccountId) -> Self::Source {
		crate::runtime::MultiAddress::Id(x)
	}
}

// ------------------------------------------------------------------ hashing
pub trait Hash: 'static + Clone + Eq + PartialEq + Debug {
	type Output: Member + Parameter + MaxEncodedLen + AsRef<[u8]> + AsMut<[u8]> + Copy + Default + Ord + std::hash::Hash + Display + TryFrom<Vec<u8>>;
	fn hash(s: &[u8]) -> Self::Output;
	fn hash_of<S: Encode>(s: &S) -> Self::Output {
		s.using_encoded(Self::hash)
	}
}
#[derive(Clone, PartialEq, Eq, Debug, TypeInfo)]
pub struct BlakeTwo256;
impl Hash for BlakeTwo256 {
	type Output = crate::primitives::H256;
	fn hash(s: &[u8]) -> Self::Output {
		crate::primitives::H256(crate::hashing::blake2_256(s))
	}
}
pub trait HashOutput {}
impl<T> HashOutput for T {}

// ------------------------------------------------------------------ signatures
pub trait IdentifyAccount {
	type AccountId;
	fn into_account(self) -> Self::AccountId;
}
pub trait Verify {
	type Signer: IdentifyAccount;
	fn verify<L>(&self, _msg: L, _signer: &<Self::Signer as IdentifyAccount>::AccountId) -> bool {
		true
	}
}
pub trait Lazy<T: ?Sized> {
	fn get(&mut self) -> &T;
}

// ------------------------------------------------------------------ blocks
pub trait HeaderProvider {
	type HeaderT: Header;
}
pub trait Header: Clone + Debug + Eq + 'static {
	type Number: Member
		+ MaybeSerializeDeserialize
		+ std::hash::Hash
		+ Copy
		+ Display
		+ AtLeast32BitUnsigned
		+ Default
		+ TypeInfo
		+ MaxEncodedLen
		+ FullCodec
		+ TryFrom<u128>
		+ TryInto<u128>;
	type Hash: Member + Copy + Default;
	type Hashing: Hash;
}
pub trait Block: HeaderProvider<HeaderT = <Self as Block>::Header> + Clone + Send + Sync + Debug + 'static {
	type Extrinsic;
	type Header: Header;
	type Hash;
}
pub type NumberFor<B> = <<B as Block>::Header as Header>::Number;
pub type HeaderFor<B> = <B as Block>::Header;
pub type HashingFor<B> = <<B as Block>::Header as Header>::Hashing;

pub trait BlockNumberProvider {
	type BlockNumber: Codec + Clone + Ord + Eq + AtLeast32BitUnsigned + TypeInfo + Debug + MaxEncodedLen + Copy;
	fn current_block_number() -> Self::BlockNumber;
	fn set_block_number(_block: Self::BlockNumber) {}
}
impl BlockNumberProvider for () {
	type BlockNumber = u32;
	fn current_block_number() -> u32 {
		0
	}
}

// ------------------------------------------------------------------ dispatch
pub trait Printable {}
impl<T> Printable for T {}
pub trait Dispatchable {
	type RuntimeOrigin: Debug;
	type Config;
	type Info;
	type PostInfo: Eq + PartialEq + Clone + Copy + Encode + Decode + Default;
	fn dispatch(self, origin: Self::RuntimeOrigin) -> DispatchResultWithInfo<Self::PostInfo>;
}
pub type DispatchInfoOf<T> = <T as Dispatchable>::Info;
pub type PostDispatchInfoOf<T> = <T as Dispatchable>::PostInfo;
pub trait AsSystemOriginSigner<AccountId> {
	fn as_system_origin_signer(&self) -> Option<&AccountId>;
}
pub trait AsTransactionAuthorizedOrigin {
	fn is_transaction_authorized(&self) -> bool;
}
pub trait TransactionExtension<Call> {}
pub trait SignedExtension {}
pub trait DispatchTransaction {}
pub trait ValidateUnsigned {}
pub trait OpaqueKeys {
	type KeyTypeIdProviders;
}
pub trait Checkable {}
pub trait Applyable {}

#[derive(Eq, PartialEq, Clone, Copy, Debug, Encode, Decode, TypeInfo)]
pub struct BadOrigin;
impl From<BadOrigin> for &'static str {
	fn from(_: BadOrigin) -> &'static str {
		"Bad origin"
	}
}

// ------------------------------------------------------------------ derived accounts
pub trait TypeId {
	const TYPE_ID: [u8; 4];
}
pub struct TrailingZeroInput<'a>(&'a [u8]);
impl<'a> TrailingZeroInput<'a> {
	pub fn new(data: &'a [u8]) -> Self {
		Self(data)
	}
	pub fn zeroes() -> Self {
		Self::new(&[][..])
	}
}
impl<'a> Input for TrailingZeroInput<'a> {
	fn remaining_len(&mut self) -> Result<Option<usize>, crate::codec::Error> {
		Ok(None)
	}
	fn read(&mut self, into: &mut [u8]) -> Result<(), crate::codec::Error> {
		let len_from_inner = into.len().min(self.0.len());
		into[..len_from_inner].copy_from_slice(&self.0[..len_from_inner]);
		for i in &mut into[len_from_inner..] {
			*i = 0;
		}
		self.0 = &self.0[len_from_inner..];
		Ok(())
	}
}
pub trait AccountIdConversion<AccountId>: Sized {
	fn into_account_truncating(&self) -> AccountId {
		self.into_sub_account_truncating(&())
	}
	fn try_into_account(&self) -> Option<AccountId> {
		self.try_into_sub_account(&())
	}
	fn try_from_account(a: &AccountId) -> Option<Self> {
		Self::try_from_sub_account::<()>(a).map(|x| x.0)
	}
	fn into_sub_account_truncating<S: Encode>(&self, sub: S) -> AccountId;
	fn try_into_sub_account<S: Encode>(&self, sub: S) -> Option<AccountId>;
	fn try_from_sub_account<S: Decode>(x: &AccountId) -> Option<(Self, S)>;
}
impl<T: Encode + Decode, Id: Encode + Decode + TypeId> AccountIdConversion<T> for Id {
	fn into_sub_account_truncating<S: Encode>(&self, sub: S) -> T {
		(Id::TYPE_ID, self, sub)
			.using_encoded(|b| T::decode(&mut TrailingZeroInput(b)))
			.expect("All byte sequences are valid `AccountIds`; qed")
	}
	fn try_into_sub_account<S: Encode>(&self, sub: S) -> Option<T> {
		let encoded_seed = (Id::TYPE_ID, self, sub).encode();
		let account = T::decode(&mut TrailingZeroInput(&encoded_seed)).expect("valid");
		if encoded_seed.len() <= account.encoded_size() {
			Some(account)
		} else {
			None
		}
	}
	fn try_from_sub_account<S: Decode>(x: &T) -> Option<(Self, S)> {
		x.using_encoded(|d| {
			if d.len() < 4 || d[0..4] != Id::TYPE_ID {
				return None;
			}
			let mut cursor = &d[4..];
			let result = Decode::decode(&mut cursor).ok()?;
			if cursor.iter().all(|x| *x == 0) {
				Some(result)
			} else {
				None
			}
		})
	}
}

// Members of traits used only as bounds
pub trait Keys {}
pub struct Keccak256;
pub trait ExtrinsicLike {}
pub trait AccountIdBound: Parameter + Member + MaybeSerializeDeserialize + Debug + MaybeDisplay + Ord + MaxEncodedLen {}
