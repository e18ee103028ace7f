//! Multisig; names only.
frame_support::stub_pallet! {
	types {
		RuntimeEvent,
		RuntimeCall,
		Currency,
		DepositBase,
		DepositFactor,
		MaxSignatories,
		WeightInfo
	}
	consts {  }
	calls {
		0 as_multi_threshold_1(other_signatories: Vec<T::AccountId>, call: Box<<T as frame_system::Config>::RuntimeCall>);
		1 as_multi(threshold: u16, other_signatories: Vec<T::AccountId>, call: Box<<T as frame_system::Config>::RuntimeCall>);
		2 approve_as_multi(threshold: u16, other_signatories: Vec<T::AccountId>, call_hash: [u8; 32]);
		3 cancel_as_multi(threshold: u16, other_signatories: Vec<T::AccountId>, call_hash: [u8; 32]);
	}
}
