//! Relay chain bookkeeping; where messages of the relay chain and of siblings go.
frame_support::stub_pallet! {
	types {
		WeightInfo,
		RuntimeEvent,
		OnSystemEvent,
		SelfParaId,
		OutboundXcmpMessageSource,
		DmpQueue: [frame_support::traits::HandleMessage],
		ReservedDmpWeight,
		XcmpMessageHandler: [cumulus_primitives_core::XcmpMessageHandler],
		ReservedXcmpWeight,
		CheckAssociatedRelayNumber,
		ConsensusHook
	}
	consts {  }
	calls {
		0 set_validation_data(data: u32);
		1 sudo_send_upward_message(message: Vec<u8>);
	}
}

pub struct RelayNumberMonotonicallyIncreases;
pub struct RelayNumberStrictlyIncreases;
pub struct AnyRelayNumber;
pub struct ParachainSetCode<T>(core::marker::PhantomData<T>);
impl<T: frame_system::Config> frame_system::SetCode<T> for ParachainSetCode<T> {}
#[macro_export]
macro_rules! register_validate_block {
	($($t:tt)*) => {};
}
