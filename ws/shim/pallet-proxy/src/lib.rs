//! Proxies; names only.
frame_support::stub_pallet! {
	types {
		RuntimeEvent, RuntimeCall, Currency, ProxyType: [Parameter + Default + frame_support::traits::InstanceFilter<<Self as frame_system::Config>::RuntimeCall>],
		ProxyDepositBase, ProxyDepositFactor, MaxProxies, WeightInfo: [WeightInfo], MaxPending, CallHasher,
		AnnouncementDepositBase, AnnouncementDepositFactor
	}
	consts { }
	calls {
		0 proxy(real: T::AccountId, force_proxy_type: Option<T::ProxyType>, call: Box<<T as frame_system::Config>::RuntimeCall>);
		1 add_proxy(delegate: T::AccountId, proxy_type: T::ProxyType, delay: u32);
		2 remove_proxy(delegate: T::AccountId, proxy_type: T::ProxyType, delay: u32);
		3 remove_proxies();
		4 create_pure(proxy_type: T::ProxyType, delay: u32, index: u16);
		5 kill_pure(spawner: T::AccountId, proxy_type: T::ProxyType, index: u16, height: u32, ext_index: u32);
		6 announce(real: T::AccountId, call_hash: [u8; 32]);
		7 remove_announcement(real: T::AccountId, call_hash: [u8; 32]);
		8 reject_announcement(delegate: T::AccountId, call_hash: [u8; 32]);
		9 proxy_announced(delegate: T::AccountId, real: T::AccountId, force_proxy_type: Option<T::ProxyType>, call: Box<<T as frame_system::Config>::RuntimeCall>);
	}
}
pub trait WeightInfo {
	fn proxy(p: u32) -> frame_support::weights::Weight;
	fn proxy_announced(a: u32, p: u32) -> frame_support::weights::Weight;
	fn remove_announcement(a: u32, p: u32) -> frame_support::weights::Weight;
	fn reject_announcement(a: u32, p: u32) -> frame_support::weights::Weight;
	fn announce(a: u32, p: u32) -> frame_support::weights::Weight;
	fn add_proxy(p: u32) -> frame_support::weights::Weight;
	fn remove_proxy(p: u32) -> frame_support::weights::Weight;
	fn remove_proxies(p: u32) -> frame_support::weights::Weight;
	fn create_pure(p: u32) -> frame_support::weights::Weight;
	fn kill_pure(p: u32) -> frame_support::weights::Weight;
}
