//! A runtime around the payments pallet. Everything that varies between explorations (fee schedule,
//! incentive, refund delay, id policy, resolver) is read from the chain state itself, so that a state
//! is self-contained.
use frame_support::{derive_impl, parameter_types, traits::*, PalletId};
use frame_system::{EnsureRoot, EnsureSigned};
use parity_scale_codec::{Decode, Encode};
use shim_base::ext;
use sp_runtime::{BuildStorage, Percent};

pub type Block = frame_system::mocking::MockBlock<Rt>;

#[frame_support::runtime]
mod runtime {
	#[runtime::runtime]
	#[runtime::derive(RuntimeCall, RuntimeEvent, RuntimeError, RuntimeOrigin, RuntimeTask, RuntimeHoldReason, RuntimeFreezeReason)]
	pub struct Rt;
	#[runtime::pallet_index(0)]
	pub type System = frame_system;
	#[runtime::pallet_index(5)]
	pub type Scheduler = pallet_scheduler;
	#[runtime::pallet_index(6)]
	pub type Preimage = pallet_preimage;
	#[runtime::pallet_index(10)]
	pub type Balances = pallet_balances;
	#[runtime::pallet_index(11)]
	pub type Assets = pallet_assets;
	#[runtime::pallet_index(20)]
	pub type Payments = pallet_payments;
}

#[derive_impl(frame_system::config_preludes::TestDefaultConfig as frame_system::DefaultConfig)]
impl frame_system::Config for Rt {
	type Block = Block;
	type AccountData = pallet_balances::AccountData<u64>;
}
#[derive_impl(pallet_balances::config_preludes::TestDefaultConfig as pallet_balances::DefaultConfig)]
impl pallet_balances::Config for Rt {
	type AccountStore = System;
}
#[derive_impl(pallet_assets::config_preludes::TestDefaultConfig as pallet_assets::DefaultConfig)]
impl pallet_assets::Config for Rt {
	type Currency = Balances;
	type CreateOrigin = AsEnsureOriginWithArg<EnsureSigned<u64>>;
	type ForceOrigin = EnsureRoot<u64>;
	type Freezer = ();
	type RuntimeHoldReason = RuntimeHoldReason;
}
impl pallet_preimage::Config for Rt {
	type RuntimeEvent = RuntimeEvent;
	type Currency = Balances;
	type ManagerOrigin = EnsureRoot<u64>;
	type Consideration = ();
	type WeightInfo = ();
}
parameter_types! {
	pub MaxWeight: frame_support::weights::Weight = frame_support::weights::Weight::MAX;
	pub const PaymentPalletId: PalletId = PalletId(*b"payments");
}
impl pallet_scheduler::Config for Rt {
	type RuntimeEvent = RuntimeEvent;
	type RuntimeOrigin = RuntimeOrigin;
	type PalletsOrigin = OriginCaller;
	type RuntimeCall = RuntimeCall;
	type MaximumWeight = MaxWeight;
	type ScheduleOrigin = EnsureRoot<u64>;
	type OriginPrivilegeCmp = EqualPrivilegeOnly;
	type MaxScheduledPerBlock = ConstU32<100>;
	type WeightInfo = ();
	type Preimages = Preimage;
}

#[derive(Clone, Debug, Encode, Decode, PartialEq, Eq)]
pub enum FeeSpec {
	Fixed(u64),
	Percent(u8),
}
/// (receiver, how much, charged also on disputes)
pub type FeeEntry = (u64, FeeSpec, bool);
#[derive(Clone, Debug, Encode, Decode, PartialEq, Eq)]
pub struct Cfg {
	pub sender_fees: Vec<FeeEntry>,
	pub beneficiary_fees: Vec<FeeEntry>,
	pub incentive: u8,
	pub buffer: u64,
	/// 0: fresh ids; n: ids cycle through 1..=n
	pub ids: u32,
	pub resolver: u64,
	/// fees also depend on the parties, the asset and the remark
	pub personal: bool,
}
const CFG: &[u8] = b"\xffcfg";
const IDS: &[u8] = b"\xffids";
impl Cfg {
	pub fn get() -> Cfg {
		Cfg::decode(&mut &ext::get(CFG).expect("configured")[..]).expect("config")
	}
	pub fn put(&self) {
		ext::put(CFG, self.encode())
	}
	pub fn fees(list: &[FeeEntry], amount: u64) -> Vec<(u64, u64, bool)> {
		list.iter()
			.map(|(w, s, m)| {
				let v = match s {
					FeeSpec::Fixed(v) => *v,
					FeeSpec::Percent(p) => (amount as u128 * *p as u128 / 100) as u64,
				};
				(*w, v, *m)
			})
			.collect()
	}
	/// What each side pays for a payment.
	pub fn terms(&self, asset: u32, sender: u64, beneficiary: u64, amount: u64, remark: usize) -> [Vec<(u64, u64, bool)>; 2] {
		let mut s = Self::fees(&self.sender_fees, amount);
		let mut b = Self::fees(&self.beneficiary_fees, amount);
		if self.personal {
			s.push((30, 3 * asset as u64 + sender % 5, true));
			b.push((31, beneficiary % 7 + remark as u64, false));
		}
		[s, b]
	}
}
pub struct Fees;
impl pallet_payments::FeeHandler<Rt> for Fees {
	fn apply_fees(asset: &u32, sender: &u64, beneficiary: &u64, amount: &u64, remark: Option<&[u8]>) -> pallet_payments::Fees<Rt> {
		let [s, b] = Cfg::get().terms(*asset, *sender, *beneficiary, *amount, remark.map_or(0, |r| r.len()));
		pallet_payments::Fees { sender_pays: s.try_into().expect("few fees"), beneficiary_pays: b.try_into().expect("few fees") }
	}
}
impl pallet_payments::PaymentId<Rt> for u32 {
	fn next(_: &u64, _: &u64) -> Option<u32> {
		let c = Cfg::get();
		let n = ext::get(IDS).map(|b| u32::decode(&mut &b[..]).unwrap()).unwrap_or(0);
		let id = if c.ids == 0 { n + 1 } else { n % c.ids + 1 };
		ext::put(IDS, if c.ids == 0 { n + 1 } else { id % c.ids }.encode());
		Some(id)
	}
}
pub struct Incentive;
impl Get<Percent> for Incentive {
	fn get() -> Percent {
		Percent::from_percent(Cfg::get().incentive)
	}
}
pub struct Buffer;
impl Get<u64> for Buffer {
	fn get() -> u64 {
		Cfg::get().buffer
	}
}
pub struct Resolver;
impl EnsureOrigin<RuntimeOrigin> for Resolver {
	type Success = u64;
	fn try_origin(o: RuntimeOrigin) -> Result<u64, RuntimeOrigin> {
		<EnsureRoot<u64> as EnsureOrigin<RuntimeOrigin>>::try_origin(o).map(|_| Cfg::get().resolver)
	}
}
impl pallet_payments::Config for Rt {
	type RuntimeEvent = RuntimeEvent;
	type Assets = Assets;
	type AssetsBalance = u64;
	type PaymentId = u32;
	type FeeHandler = Fees;
	type IncentivePercentage = Incentive;
	type MaxRemarkLength = ConstU32<50>;
	type SenderOrigin = EnsureSigned<u64>;
	type BeneficiaryOrigin = EnsureSigned<u64>;
	type DisputeResolver = Resolver;
	type PalletId = PaymentPalletId;
	type RuntimeHoldReason = RuntimeHoldReason;
	type MaxDiscounts = ConstU32<50>;
	type MaxFees = ConstU32<50>;
	type RuntimeCall = RuntimeCall;
	type Scheduler = Scheduler;
	type Preimages = ();
	type CancelBufferBlockLength = Buffer;
	type PalletsOrigin = OriginCaller;
	type WeightInfo = ();
}

pub const ASSETS: [u32; 2] = [1, 2];

/// A chain at block 1 with both assets (minimum balance 1) and the given asset balances.
pub fn genesis(cfg: &Cfg, balances: &[(u32, u64, u64)], accounts: &[u64]) -> ext::Map {
	let mut t = frame_system::GenesisConfig::<Rt>::default().build_storage().unwrap();
	pallet_balances::GenesisConfig::<Rt> { balances: accounts.iter().map(|a| (*a, 1_000)).collect() }
		.assimilate_storage(&mut t)
		.unwrap();
	pallet_assets::GenesisConfig::<Rt> {
		assets: ASSETS.iter().map(|a| (*a, 99, true, 1)).collect(),
		metadata: vec![],
		accounts: balances.iter().filter(|b| b.2 > 0).cloned().collect(),
		next_asset_id: None,
	}
	.assimilate_storage(&mut t)
	.unwrap();
	let mut e = sp_io::TestExternalities::new(t);
	e.execute_with(|| {
		cfg.put();
		System::set_block_number(1);
		System::reset_events();
		ext::snapshot()
	})
}

pub fn next_block() {
	let n = System::block_number();
	<Scheduler as Hooks<u64>>::on_finalize(n);
	<System as Hooks<u64>>::on_finalize(n);
	System::set_block_number(n + 1);
	<System as Hooks<u64>>::on_initialize(n + 1);
	<Scheduler as Hooks<u64>>::on_initialize(n + 1);
}

/// The block has no room for scheduled calls; they are carried out in the next one that has.
pub fn busy_block() {
	let n = System::block_number();
	<Scheduler as Hooks<u64>>::on_finalize(n);
	<System as Hooks<u64>>::on_finalize(n);
	System::set_block_number(n + 1);
	<System as Hooks<u64>>::on_initialize(n + 1);
	pallet_scheduler::IncompleteSince::<Rt>::mutate(|x| x.get_or_insert(n + 1).clone());
}
