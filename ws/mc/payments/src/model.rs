//! The stated rules of payments as a ledger, written without looking at how the pallet computes them.
use crate::rt::{Cfg, FeeEntry};
use parity_scale_codec::Encode;
use std::collections::BTreeMap;
use std::fmt;

pub const S: u64 = 10;
pub const B: u64 = 11;
pub const X: u64 = 12;
pub const R: u64 = 1;
pub const F1: u64 = 30;
pub const F2: u64 = 31;
pub const ACCOUNTS: [u64; 6] = [S, B, X, R, F1, F2];

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Actor {
	Signed(u64),
	Root,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Op {
	Pay { by: Actor, to: u64, asset: u32, amount: u64 },
	Request { by: Actor, from: u64, asset: u32, amount: u64 },
	Release { by: Actor, id: u32 },
	Refund { by: Actor, id: u32 },
	Accept { by: Actor, id: u32 },
	Cancel { by: Actor, id: u32 },
	Dispute { by: Actor, id: u32 },
	/// `percent` of the amount goes to the favoured side
	Resolve { by: Actor, id: u32, to_sender: bool, percent: u8 },
	NextBlock,
	/// a block too full for anything that is due
	BusyBlock,
	/// fees and incentive change for payments to come
	Tariff(Vec<FeeEntry>, Vec<FeeEntry>, u8),
}
/// What a payer writes along.
pub fn remark(amount: u64) -> Option<&'static [u8]> {
	(amount % 2 == 1).then_some(b"a remark")
}
impl Op {
	pub fn kind(&self) -> &'static str {
		match self {
			Op::Pay { .. } => "pay",
			Op::Request { .. } => "request",
			Op::Release { .. } => "release",
			Op::Refund { .. } => "refund",
			Op::Accept { .. } => "accept",
			Op::Cancel { .. } => "cancel",
			Op::Dispute { .. } => "dispute",
			Op::Resolve { .. } => "resolve",
			Op::NextBlock => "block",
			Op::BusyBlock => "busy block",
			Op::Tariff(..) => "tariff",
		}
	}
	pub fn main_property(&self) -> &'static str {
		match self {
			Op::Pay { .. } => "P02",
			Op::Request { .. } | Op::Accept { .. } => "P08",
			Op::Release { .. } => "P04",
			Op::Refund { .. } | Op::NextBlock | Op::BusyBlock | Op::Dispute { .. } => "P07",
			Op::Cancel { .. } => "P05",
			Op::Resolve { .. } => "P06",
			Op::Tariff(..) => "P12",
		}
	}
	pub fn id(&self) -> Option<u32> {
		match self {
			Op::Release { id, .. }
			| Op::Refund { id, .. }
			| Op::Accept { id, .. }
			| Op::Cancel { id, .. }
			| Op::Dispute { id, .. }
			| Op::Resolve { id, .. } => Some(*id),
			_ => None,
		}
	}
}
impl fmt::Display for Op {
	fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
		write!(f, "{self:?}")
	}
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Encode)]
pub enum PState {
	Created,
	Refund(u64),
	Review,
	Requested,
	Finished,
	Gone,
}
#[derive(Clone, Debug, Encode)]
pub struct Pay {
	pub id: u32,
	pub sender: u64,
	pub beneficiary: u64,
	pub asset: u32,
	pub amount: u64,
	pub incentive: u64,
	pub sfees: Vec<(u64, u64, bool)>,
	pub bfees: Vec<(u64, u64, bool)>,
	pub state: PState,
}
impl Pay {
	pub fn overdue(&self, now: u64) -> bool {
		matches!(self.state, PState::Refund(at) if at <= now)
	}
}
/// (asset, account) -> (everything owned, part of it held)
pub type Holdings = BTreeMap<(u32, u64), (i128, i128)>;

#[derive(Clone, Encode)]
pub struct Model {
	pub cfg: Cfg,
	pub now: u64,
	pub created: Count,
	next_id: u32,
	pub payments: BTreeMap<u32, Pay>,
	pub holdings: Holdings,
}
#[derive(Clone, Copy, Encode, PartialEq, PartialOrd)]
pub struct Count(u32);
impl PartialEq<usize> for Count {
	fn eq(&self, o: &usize) -> bool {
		self.0 as usize == *o
	}
}
impl PartialOrd<usize> for Count {
	fn partial_cmp(&self, o: &usize) -> Option<std::cmp::Ordering> {
		(self.0 as usize).partial_cmp(o)
	}
}

impl Model {
	pub fn new(cfg: Cfg, holdings: Holdings) -> Model {
		Model { cfg, now: 1, created: Count(0), next_id: 0, payments: BTreeMap::new(), holdings }
	}
	pub fn describe(&self) -> Vec<String> {
		self.payments.values().map(|p| format!("#{} {}->{} asset {} amount {}: {:?}", p.id, p.sender, p.beneficiary, p.asset, p.amount, p.state)).collect()
	}
	fn give(&mut self, asset: u32, from: u64, to: u64, v: u64) {
		self.holdings.get_mut(&(asset, from)).expect("known account").0 -= v as i128;
		self.holdings.get_mut(&(asset, to)).expect("known account").0 += v as i128;
	}
	fn hold(&mut self, asset: u32, who: u64, v: i128) {
		self.holdings.get_mut(&(asset, who)).expect("known account").1 += v;
	}
	/// Which id the configured source hands out next.
	fn fresh_id(&mut self) -> u32 {
		if self.cfg.ids == 0 {
			self.next_id += 1;
			self.next_id
		} else {
			let id = self.next_id % self.cfg.ids + 1;
			self.next_id = id % self.cfg.ids;
			id
		}
	}
	fn create(&mut self, sender: u64, beneficiary: u64, asset: u32, amount: u64, state: PState) -> Option<Pay> {
		let id = self.fresh_id();
		if self.payments.get(&id).is_some_and(|p| p.state != PState::Gone) {
			return None;
		}
		let note = if state == PState::Created { remark(amount) } else { None };
		let [sfees, bfees] = self.cfg.terms(asset, sender, beneficiary, amount, note.map_or(0, |r| r.len()));
		let p = Pay {
			id,
			sender,
			beneficiary,
			asset,
			amount,
			incentive: (amount as u128 * self.cfg.incentive as u128 / 100) as u64,
			sfees,
			bfees,
			state,
		};
		self.payments.insert(id, p.clone());
		self.created.0 += 1;
		Some(p)
	}
	fn set(&mut self, id: u32, s: PState) {
		self.payments.get_mut(&id).expect("known").state = s
	}
	fn sum(f: &[(u64, u64, bool)], only_mandatory: bool) -> u64 {
		f.iter().filter(|x| x.2 || !only_mandatory).map(|x| x.1).sum()
	}
	fn set_aside(&mut self, p: &Pay, sign: i128) {
		self.hold(p.asset, p.sender, sign * (Self::sum(&p.sfees, false) + p.incentive) as i128);
		self.hold(p.asset, p.beneficiary, sign * p.amount as i128);
	}
	fn fees(&mut self, p: &Pay, only_mandatory: bool) {
		for (to, v, m) in &p.sfees {
			if *m || !only_mandatory {
				self.give(p.asset, p.sender, *to, *v);
			}
		}
		for (to, v, m) in &p.bfees {
			if *m || !only_mandatory {
				self.give(p.asset, p.beneficiary, *to, *v);
			}
		}
	}
	fn give_back(&mut self, p: &Pay) {
		self.set_aside(p, -1);
		self.give(p.asset, p.beneficiary, p.sender, p.amount);
		self.set(p.id, PState::Gone);
	}

	/// The chain after `op` if the rules allow it.
	pub fn apply(&self, op: &Op) -> Option<Model> {
		let mut m = self.clone();
		let signer = |a: &Actor| match a {
			Actor::Signed(x) => Some(*x),
			Actor::Root => None,
		};
		if let Some(id) = op.id() {
			if m.payments.get(&id).map_or(true, |p| p.state == PState::Gone) {
				return None;
			}
		}
		let get = |m: &Model, id: &u32| m.payments[id].clone();
		match op {
			Op::NextBlock => {
				m.now += 1;
				let due: Vec<Pay> = m.payments.values().filter(|p| p.overdue(m.now)).cloned().collect();
				for p in due {
					m.give_back(&p);
				}
			}
			Op::BusyBlock => m.now += 1,
			Op::Tariff(s, b, incentive) => {
				m.cfg.sender_fees = s.clone();
				m.cfg.beneficiary_fees = b.clone();
				m.cfg.incentive = *incentive;
			}
			Op::Pay { by, to, asset, amount } => {
				let by = signer(by)?;
				let p = m.create(by, *to, *asset, *amount, PState::Created)?;
				m.give(p.asset, p.sender, p.beneficiary, p.amount);
				m.set_aside(&p, 1);
			}
			Op::Request { by, from, asset, amount } => {
				let by = signer(by)?;
				m.create(*from, by, *asset, *amount, PState::Requested)?;
			}
			Op::Release { by, id } => {
				let p = get(&m, id);
				if signer(by)? != p.sender || p.state != PState::Created {
					return None;
				}
				m.set_aside(&p, -1);
				m.fees(&p, false);
				m.set(p.id, PState::Finished);
			}
			Op::Refund { by, id } => {
				let p = get(&m, id);
				if signer(by)? != p.sender || p.state != PState::Created {
					return None;
				}
				let at = m.now + m.cfg.buffer;
				m.set(p.id, PState::Refund(at));
			}
			Op::Accept { by, id } => {
				let p = get(&m, id);
				if signer(by)? != p.sender || p.state != PState::Requested {
					return None;
				}
				m.give(p.asset, p.sender, p.beneficiary, p.amount);
				m.fees(&p, false);
				m.set(p.id, PState::Finished);
			}
			Op::Cancel { by, id } => {
				let p = get(&m, id);
				if signer(by)? != p.beneficiary || !matches!(p.state, PState::Created | PState::Refund(_)) {
					return None;
				}
				m.give_back(&p);
			}
			Op::Dispute { by, id } => {
				let p = get(&m, id);
				if signer(by)? != p.beneficiary || !matches!(p.state, PState::Refund(at) if at > m.now) {
					return None;
				}
				m.hold(p.asset, p.beneficiary, p.incentive as i128);
				m.set(p.id, PState::Review);
			}
			Op::Resolve { by, id, to_sender, percent } => {
				let p = get(&m, id);
				if *by != Actor::Root || p.state != PState::Review {
					return None;
				}
				m.set_aside(&p, -1);
				m.hold(p.asset, p.beneficiary, -(p.incentive as i128));
				m.fees(&p, true);
				let favoured = (p.amount as u128 * *percent as u128 / 100) as u64;
				let (back, loser) = if *to_sender { (favoured, p.beneficiary) } else { (p.amount - favoured, p.sender) };
				m.give(p.asset, loser, m.cfg.resolver, p.incentive);
				m.give(p.asset, p.beneficiary, p.sender, back);
				m.set(p.id, PState::Finished);
			}
		}
		Some(m)
	}
}
