//! Time; names only.
frame_support::stub_pallet! {
	types {
		Moment,
		OnTimestampSet,
		MinimumPeriod,
		WeightInfo
	}
	consts {  }
	calls {
		0 set(now: u64);
	}
}
