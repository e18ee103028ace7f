//! Block production; names only.
frame_support::stub_pallet! {
	types {
		
	}
	consts {  }
	calls {

	}
}

pub struct FixedVelocityConsensusHook<T, const A: u32, const B: u32, const C: u32>(core::marker::PhantomData<T>);
pub struct BlockExecutor<T, E>(core::marker::PhantomData<(T, E)>);
