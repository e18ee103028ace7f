//! `sp_runtime` types.
use crate::codec::{Decode, Encode, HasCompact, MaxEncodedLen};
use crate::primitives::AccountId32;
use crate::scale_info::TypeInfo;
use crate::traits::*;
use std::fmt::Debug;

#[derive(Eq, PartialEq, Clone, Copy, Encode, Decode, Debug, TypeInfo, MaxEncodedLen)]
pub enum TokenError {
	FundsUnavailable,
	OnlyProvider,
	BelowMinimum,
	CannotCreate,
	UnknownAsset,
	Frozen,
	Unsupported,
	CannotCreateHold,
	NotExpendable,
	Blocked,
}
#[derive(Eq, PartialEq, Clone, Copy, Encode, Decode, Debug, TypeInfo, MaxEncodedLen)]
pub enum ArithmeticError {
	Underflow,
	Overflow,
	DivisionByZero,
}
#[derive(Eq, PartialEq, Clone, Copy, Encode, Decode, Debug, TypeInfo, MaxEncodedLen)]
pub enum TransactionalError {
	LimitReached,
	NoLayer,
}
#[derive(Eq, Clone, Copy, Encode, Decode, Debug, TypeInfo, MaxEncodedLen)]
pub struct ModuleError {
	pub index: u8,
	pub error: [u8; 4],
	#[codec(skip)]
	pub message: Option<&'static str>,
}
impl PartialEq for ModuleError {
	fn eq(&self, o: &Self) -> bool {
		self.index == o.index && self.error == o.error
	}
}
#[derive(Eq, Clone, Copy, Encode, Decode, Debug, TypeInfo, PartialEq, MaxEncodedLen)]
pub enum DispatchError {
	Other(#[codec(skip)] &'static str),
	CannotLookup,
	BadOrigin,
	Module(ModuleError),
	ConsumerRemaining,
	NoProviders,
	TooManyConsumers,
	Token(TokenError),
	Arithmetic(ArithmeticError),
	Transactional(TransactionalError),
	Exhausted,
	Corruption,
	Unavailable,
	RootNotAllowed,
}
impl From<&'static str> for DispatchError {
	fn from(s: &'static str) -> Self {
		DispatchError::Other(s)
	}
}
impl From<DispatchError> for &'static str {
	fn from(e: DispatchError) -> &'static str {
		match e {
			DispatchError::Other(s) => s,
			DispatchError::Module(m) => m.message.unwrap_or("module error"),
			DispatchError::BadOrigin => "Bad origin",
			DispatchError::CannotLookup => "Cannot lookup",
			DispatchError::Token(_) => "token error",
			_ => "error",
		}
	}
}
impl From<TokenError> for DispatchError {
	fn from(e: TokenError) -> Self {
		DispatchError::Token(e)
	}
}
impl From<ArithmeticError> for DispatchError {
	fn from(e: ArithmeticError) -> Self {
		DispatchError::Arithmetic(e)
	}
}
impl From<TransactionalError> for DispatchError {
	fn from(e: TransactionalError) -> Self {
		DispatchError::Transactional(e)
	}
}
impl From<BadOrigin> for DispatchError {
	fn from(_: BadOrigin) -> Self {
		DispatchError::BadOrigin
	}
}
impl From<LookupError> for DispatchError {
	fn from(_: LookupError) -> Self {
		DispatchError::CannotLookup
	}
}
impl From<std::convert::Infallible> for DispatchError {
	fn from(x: std::convert::Infallible) -> Self {
		match x {}
	}
}
pub type DispatchResult = Result<(), DispatchError>;
pub type DispatchResultWithInfo<T> = Result<T, DispatchErrorWithPostInfo<T>>;

#[derive(Eq, PartialEq, Clone, Copy, Encode, Decode, Debug, TypeInfo)]
pub struct DispatchErrorWithPostInfo<Info> {
	pub post_info: Info,
	pub error: DispatchError,
}
impl<T: Default, E: Into<DispatchError>> From<E> for DispatchErrorWithPostInfo<T> {
	fn from(e: E) -> Self {
		Self { post_info: Default::default(), error: e.into() }
	}
}

#[derive(Eq, PartialEq, Clone, Copy, Debug, Encode, Decode)]
pub struct LookupError;
impl From<LookupError> for &'static str {
	fn from(_: LookupError) -> &'static str {
		"Can not lookup"
	}
}

#[derive(Encode, Decode, PartialEq, Eq, Clone, Debug, Hash, TypeInfo)]
pub enum MultiAddress<AccountId, AccountIndex: HasCompact> {
	Id(AccountId),
	Index(#[codec(compact)] AccountIndex),
	Raw(Vec<u8>),
	Address32([u8; 32]),
	Address20([u8; 20]),
}
impl<AccountId, AccountIndex: HasCompact> From<AccountId> for MultiAddress<AccountId, AccountIndex> {
	fn from(a: AccountId) -> Self {
		Self::Id(a)
	}
}

#[derive(Eq, PartialEq, Clone, Encode, Decode, Debug, TypeInfo, MaxEncodedLen)]
pub enum MultiSignature {
	Ed25519(crate::primitives::ed25519::Signature),
	Sr25519(crate::primitives::sr25519::Signature),
	Ecdsa(crate::primitives::ecdsa::Signature),
}
#[derive(Eq, PartialEq, Ord, PartialOrd, Clone, Encode, Decode, Debug, TypeInfo)]
pub enum MultiSigner {
	Ed25519(crate::primitives::ed25519::Public),
	Sr25519(crate::primitives::sr25519::Public),
	Ecdsa(crate::primitives::ecdsa::Public),
}
impl From<crate::primitives::ed25519::Public> for MultiSigner {
	fn from(p: crate::primitives::ed25519::Public) -> Self {
		MultiSigner::Ed25519(p)
	}
}
impl From<crate::primitives::sr25519::Public> for MultiSigner {
	fn from(p: crate::primitives::sr25519::Public) -> Self {
		MultiSigner::Sr25519(p)
	}
}
impl From<crate::primitives::ecdsa::Public> for MultiSigner {
	fn from(p: crate::primitives::ecdsa::Public) -> Self {
		MultiSigner::Ecdsa(p)
	}
}
impl IdentifyAccount for MultiSigner {
	type AccountId = AccountId32;
	fn into_account(self) -> AccountId32 {
		match self {
			MultiSigner::Ed25519(p) => p.0.into(),
			MultiSigner::Sr25519(p) => p.0.into(),
			MultiSigner::Ecdsa(p) => crate::hashing::blake2_256(&p.0).into(),
		}
	}
}
impl Verify for MultiSignature {
	type Signer = MultiSigner;
}

/// Genesis state.
#[derive(Default, Clone)]
pub struct Storage {
	pub map: crate::ext::Map,
}
pub trait BuildStorage {
	fn build_storage(&self) -> Result<Storage, String> {
		let mut s = Storage::default();
		self.assimilate_storage(&mut s)?;
		Ok(s)
	}
	fn assimilate_storage(&self, storage: &mut Storage) -> Result<(), String>;
}
/// Runs genesis code on a storage.
pub fn with_storage(storage: &mut Storage, f: impl FnOnce()) {
	let outer = crate::ext::take();
	crate::ext::restore(&storage.map);
	f();
	storage.map = crate::ext::take();
	crate::ext::restore(&outer);
}
impl BuildStorage for () {
	fn assimilate_storage(&self, _: &mut Storage) -> Result<(), String> {
		Ok(())
	}
}

/// Genesis of one pallet.
pub trait BuildGenesisConfig {
	fn build(&self);
}
impl<G: BuildGenesisConfig> BuildStorage for G {
	fn assimilate_storage(&self, s: &mut Storage) -> Result<(), String> {
		with_storage(s, || self.build());
		Ok(())
	}
}

pub mod generic {
	use super::*;
	use std::marker::PhantomData;
	#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode, TypeInfo)]
	pub struct Header<Number: 'static, Hash: 'static> {
		pub number: Number,
		#[codec(skip)]
		pub _m: PhantomData<fn() -> Hash>,
	}
	impl<N, H> crate::traits::Header for Header<N, H>
	where
		N: Member
			+ MaybeSerializeDeserialize
			+ std::hash::Hash
			+ Copy
			+ std::fmt::Display
			+ AtLeast32BitUnsigned
			+ Default
			+ TypeInfo
			+ MaxEncodedLen
			+ crate::codec::FullCodec
			+ TryFrom<u128>
			+ TryInto<u128>
			+ 'static,
		H: crate::traits::Hash + 'static,
	{
		type Number = N;
		type Hash = crate::primitives::H256;
		type Hashing = H;
	}
	pub struct Block<H, E>(pub H, pub PhantomData<fn() -> E>);
	impl<H: Clone, E> Clone for Block<H, E> {
		fn clone(&self) -> Self {
			Block(self.0.clone(), PhantomData)
		}
	}
	impl<H: Debug, E> Debug for Block<H, E> {
		fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
			self.0.fmt(f)
		}
	}
	impl<H: crate::traits::Header + Send + Sync, E: 'static> HeaderProvider for Block<H, E> {
		type HeaderT = H;
	}
	impl<H: crate::traits::Header + Send + Sync, E: 'static> crate::traits::Block for Block<H, E> {
		type Extrinsic = E;
		type Header = H;
		type Hash = H::Hash;
	}
	pub struct UncheckedExtrinsic<A, C, S, E>(PhantomData<(A, C, S, E)>);
	pub struct SignedBlock<B>(PhantomData<B>);
	pub struct CheckedExtrinsic<A, C, E>(PhantomData<(A, C, E)>);
	pub struct SignedPayload<C, E>(PhantomData<(C, E)>);
	/// What a transaction consists of.
	pub trait ExtrinsicParts {
		type Address;
		type Call;
		type Signature;
		type Extra;
	}
	impl<A, C, S, E> ExtrinsicParts for UncheckedExtrinsic<A, C, S, E> {
		type Address = A;
		type Call = C;
		type Signature = S;
		type Extra = E;
	}
	/// How long a transaction lives: forever, or in every period's blocks from a phase of it on.
	#[derive(Clone, Copy, Debug, PartialEq, Eq, Encode, Decode)]
	pub enum Era {
		Immortal,
		Mortal(u64, u64),
	}
	impl Era {
		pub fn birth(&self, current: u64) -> u64 {
			match self {
				Era::Immortal => 0,
				Era::Mortal(period, phase) => (current.max(*phase) - phase) / period * period + phase,
			}
		}
		pub fn death(&self, current: u64) -> u64 {
			match self {
				Era::Immortal => u64::MAX,
				Era::Mortal(period, _) => self.birth(current) + period,
			}
		}
	}
	pub type BlockId<B> = PhantomData<B>;
}

pub type RuntimeString = std::borrow::Cow<'static, str>;
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct ApplyExtrinsicResult;
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Either<L, R> {
	Left(L),
	Right(R),
}
impl<A> Either<A, A> {
	pub fn into_inner(self) -> A {
		match self {
			Either::Left(a) | Either::Right(a) => a,
		}
	}
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum TransactionOutcome<R> {
	Commit(R),
	Rollback(R),
}
