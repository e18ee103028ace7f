//! Contracts; names only.
use core::marker::PhantomData;
frame_support::stub_pallet! {
	types {
		Time, Randomness, Currency, RuntimeEvent, RuntimeCall, UploadOrigin, InstantiateOrigin, CallFilter, DepositPerItem, DepositPerByte, CallStack,
		WeightPrice, WeightInfo, Schedule, AddressGenerator, ChainExtension, ApiVersion, MaxCodeLen, MaxTransientStorageSize, DefaultDepositLimit,
		MaxStorageKeyLen, MaxDebugBufferLen, UnsafeUnstableInterface, CodeHashLockupDepositPercent, MaxDelegateDependencies, RuntimeHoldReason,
		Environment, Debug, Migrations, Xcm
	}
	consts { }
	calls {
		3 upload_code(code: Vec<u8>);
		4 remove_code(code_hash: [u8; 32]);
		5 set_code(dest: T::AccountId, code_hash: [u8; 32]);
		6 call(dest: T::AccountId, value: u128, data: Vec<u8>);
		7 instantiate_with_code(value: u128, code: Vec<u8>, data: Vec<u8>, salt: Vec<u8>);
		8 instantiate(value: u128, code_hash: [u8; 32], data: Vec<u8>, salt: Vec<u8>);
		9 migrate(limit: u64);
	}
}
pub struct Frame<T>(PhantomData<T>);
pub struct DefaultAddressGenerator;
#[derive(Clone, Default)]
pub struct Limits {
	pub event_topics: u32,
	pub memory_pages: u32,
	pub subject_len: u32,
	pub payload_len: u32,
	pub runtime_memory: u32,
	pub validator_runtime_memory: u32,
}
#[derive(Clone)]
pub struct Schedule<T: Config> {
	pub limits: Limits,
	pub _m: PhantomData<T>,
}
impl<T: Config> Default for Schedule<T> {
	fn default() -> Self {
		Schedule { limits: Default::default(), _m: PhantomData }
	}
}
