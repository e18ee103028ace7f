//! The treasury: its account, and what it is handed.
use shim_base::traits::AccountIdConversion;
frame_support::stub_pallet! {
	types {
		Currency, RejectOrigin, RuntimeEvent, SpendPeriod, Burn, PalletId: [Get<frame_support::PalletId>], BurnDestination, WeightInfo, SpendFunds,
		MaxApprovals, SpendOrigin, AssetKind, Beneficiary, BeneficiaryLookup, Paymaster, BalanceConverter, PayoutPeriod
	}
	consts { }
	calls {
		3 spend_local(amount: u128, beneficiary: T::AccountId);
		4 remove_approval(proposal_id: u32);
		5 spend(amount: u128, beneficiary: T::AccountId);
		6 payout(index: u32);
		7 check_status(index: u32);
		8 void_spend(index: u32);
	}
}
impl<T: Config> Pallet<T> {
	pub fn account_id() -> T::AccountId {
		<T::PalletId as frame_support::traits::Get<_>>::get().into_account_truncating()
	}
}
impl<T: Config, Imbalance: frame_support::traits::TryDrop> frame_support::traits::OnUnbalanced<Imbalance> for Pallet<T> {}
