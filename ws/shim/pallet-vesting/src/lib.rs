//! Vesting; names only.
frame_support::stub_pallet! {
	types {
		RuntimeEvent,
		Currency,
		BlockNumberToBalance,
		MinVestedTransfer,
		WeightInfo,
		UnvestedFundsAllowedWithdrawReasons,
		BlockNumberProvider
	}
	consts { MAX_VESTING_SCHEDULES: u32 }
	calls {
		0 vest();
		1 vest_other(target: T::AccountId);
		2 vested_transfer(target: T::AccountId, amount: u128);
	}
}
