//! The stated rules of communities, written down independently of the pallet: who administers what,
//! where every membership is, which votes are recorded and what they are worth.
use parity_scale_codec::Encode;
use std::collections::BTreeMap;
use std::fmt;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Encode)]
pub enum Og {
	Root,
	Nobody,
	Signed(u8),
	/// the voice of a community
	Com(u32),
	/// signed by a community's account
	Acct(u32),
}
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Encode)]
pub enum Method {
	Membership,
	Native,
	Asset(u32, u64),
	Rank,
}
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Encode)]
pub enum V {
	Std(bool),
	Nat(bool, u64),
	Ast(bool, u32, u64),
}
impl V {
	pub fn aye(&self) -> bool {
		match *self {
			V::Std(a) | V::Nat(a, _) | V::Ast(a, ..) => a,
		}
	}
	pub fn weight(&self) -> u32 {
		match *self {
			V::Std(_) => 1,
			V::Nat(_, n) | V::Ast(_, _, n) => n.min(u32::MAX as u64) as u32,
		}
	}
	/// (currency, amount) the vote needs to stay in place
	pub fn backing(&self) -> Option<(u32, u64)> {
		match *self {
			V::Std(_) => None,
			V::Nat(_, n) => Some((NATIVE, n)),
			V::Ast(_, a, n) => Some((a, n)),
		}
	}
}
/// The native currency among the currencies.
pub const NATIVE: u32 = 0;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Encode)]
pub enum Inner {
	Remark,
	Pay(u64),
	Method(u32, Method),
	Nested,
}
#[derive(Clone, PartialEq, Eq, Debug, Encode)]
pub enum Op {
	Create { by: Og, admin: Og, id: u32 },
	Handover { by: Og, to: Og },
	Block { id: u32, blocked: bool },
	SetMethod { by: Og, id: u32, method: Method },
	Add { by: Og, who: u8 },
	Remove { by: Og, who: u8, m: u32 },
	Promote { by: Og, m: u32 },
	Demote { by: Og, m: u32 },
	Give { from: u8, to: u8, m: u32 },
	/// a community passes one of its free memberships to another
	Cede { from: u32, to: u32, m: u32 },
	Vote { by: Og, m: u32, poll: u32, v: V },
	Unvote { by: Og, m: u32, poll: u32 },
	Unlock { by: Og, poll: u32 },
	Finish { poll: u32, status: u8 },
	Dispatch { by: Og, inner: Inner },
}
impl fmt::Display for Op {
	fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
		write!(f, "{self:?}")
	}
}
impl Op {
	pub fn kind(&self) -> &'static str {
		match self {
			Op::Create { .. } => "create community",
			Op::Handover { .. } => "hand over administration",
			Op::Block { .. } => "block",
			Op::SetMethod { .. } => "set decision method",
			Op::Add { .. } => "add member",
			Op::Remove { .. } => "remove member",
			Op::Promote { .. } => "promote",
			Op::Demote { .. } => "demote",
			Op::Give { .. } => "transfer membership",
			Op::Cede { .. } => "cede membership",
			Op::Vote { .. } => "vote",
			Op::Unvote { .. } => "remove vote",
			Op::Unlock { .. } => "unlock",
			Op::Finish { .. } => "finish poll",
			Op::Dispatch { .. } => "dispatch as community",
		}
	}
	pub fn main(&self) -> &'static [&'static str] {
		match self {
			Op::Create { .. } | Op::Handover { .. } => &["M01"],
			Op::SetMethod { .. } => &["M02", "M09"],
			Op::Add { .. } | Op::Remove { .. } => &["M04"],
			Op::Promote { .. } | Op::Demote { .. } => &["M05"],
			Op::Vote { .. } => &["M07", "M09"],
			Op::Unvote { .. } => &["M07"],
			Op::Unlock { .. } => &["M08"],
			Op::Dispatch { .. } => &["M11"],
			_ => &[],
		}
	}
	/// Calls reserved to the authority over a community.
	pub fn by_authority(&self) -> Option<Og> {
		match self {
			Op::Handover { by, .. }
			| Op::SetMethod { by, .. }
			| Op::Add { by, .. }
			| Op::Remove { by, .. }
			| Op::Promote { by, .. }
			| Op::Demote { by, .. }
			| Op::Dispatch { by, .. } => Some(*by),
			_ => None,
		}
	}
}

#[derive(Clone, Debug, Encode, PartialEq)]
pub struct Community {
	pub admin: Og,
	pub blocked: bool,
}
#[derive(Clone, Debug, Encode, PartialEq)]
pub struct Membership {
	pub community: u32,
	pub holder: Option<u8>,
	pub rank: u8,
}
#[derive(Clone, Debug, Encode, PartialEq)]
pub struct Recorded {
	pub v: V,
	pub voter: u8,
	/// weight counted for or against, at the time of the vote
	pub counted: u64,
	pub locked: bool,
}
#[derive(Clone, Copy, Default, Debug, Encode, PartialEq, Eq)]
pub struct Sums {
	pub ayes: u64,
	pub nays: u64,
	pub bare: u64,
}
impl Sums {
	pub fn put(&mut self, aye: bool, counted: u64, weight: u64, cap: u64) {
		let add = |x: &mut u64, n: u64| *x = x.saturating_add(n).min(cap);
		if aye {
			add(&mut self.ayes, counted);
			add(&mut self.bare, weight);
		} else {
			add(&mut self.nays, counted);
		}
	}
	pub fn take(&mut self, aye: bool, counted: u64, weight: u64) {
		if aye {
			self.ayes = self.ayes.saturating_sub(counted);
			self.bare = self.bare.saturating_sub(weight);
		} else {
			self.nays = self.nays.saturating_sub(counted);
		}
	}
}
/// What remains when votes are taken back at the weight then in force, and in saturating arithmetic:
/// the behaviour listed in known-findings.txt.
#[derive(Clone, Default, Debug, Encode, PartialEq)]
pub struct Drift {
	/// current multiplier, no saturation
	pub by_multiplier: Sums,
	/// cast-time multiplier, saturation
	pub by_cap: Sums,
	pub both: Sums,
}
#[derive(Clone, Debug, Encode, PartialEq)]
pub struct Poll {
	pub class: u32,
	pub status: u8,
	pub drift: Drift,
}

#[derive(Clone, Debug, Default, Encode, PartialEq)]
pub struct Model {
	pub communities: BTreeMap<u32, Community>,
	pub methods: BTreeMap<u32, Method>,
	pub memberships: BTreeMap<u32, Membership>,
	pub polls: BTreeMap<u32, Poll>,
	pub votes: BTreeMap<(u32, u32), Recorded>,
	/// (account, currency) -> balance
	pub balances: BTreeMap<(Og, u32), u64>,
	/// locks kept per account and poll only: the behaviour listed in known-findings.txt
	pub poll_locks: BTreeMap<(u8, u32), V>,
	pub poll_frozen: BTreeMap<(u8, u32), u64>,
}

/// Why something must not succeed: the properties it would violate.
pub type Forbidden = Vec<&'static str>;

impl Model {
	/// The community an origin may act for.
	pub fn authority(&self, o: Og) -> Result<u32, Forbidden> {
		let id = match o {
			Og::Com(c) => Some(c),
			Og::Root | Og::Nobody => None,
			_ => self.communities.iter().find(|(_, c)| c.admin == o).map(|x| *x.0),
		};
		match id.and_then(|i| self.communities.get(&i).map(|c| (i, c.blocked))) {
			Some((i, false)) => Ok(i),
			Some((_, true)) => Err(vec!["M03"]),
			None if id.is_some() => Err(vec!["M03"]),
			None => Err(vec!["M02"]),
		}
	}
	pub fn method(&self, c: u32) -> Method {
		self.methods.get(&c).copied().unwrap_or(Method::Membership)
	}
	pub fn free(&self, o: Og, currency: u32) -> u64 {
		self.balances.get(&(o, currency)).copied().unwrap_or(0)
	}
	fn signer(o: Og) -> Option<Og> {
		matches!(o, Og::Signed(_) | Og::Acct(_)).then_some(o)
	}
	fn pay(&mut self, from: Og, to: Og, amount: u64) -> bool {
		let f = self.free(from, NATIVE);
		if f < amount + 1 {
			return false;
		}
		self.balances.insert((from, NATIVE), f - amount);
		*self.balances.entry((to, NATIVE)).or_default() += amount;
		true
	}
	fn multiplier(&self, m: u32) -> u64 {
		let x = &self.memberships[&m];
		match self.method(x.community) {
			Method::Rank => x.rank as u64,
			_ => 1,
		}
	}
	fn drop_vote(&mut self, poll: u32, m: u32) {
		let r = self.votes.remove(&(poll, m)).expect("recorded");
		let (aye, w, now) = (r.v.aye(), r.v.weight() as u64, self.multiplier(m));
		let p = self.polls.get_mut(&poll).expect("poll");
		p.drift.by_multiplier.take(aye, w * now, w);
		p.drift.by_cap.take(aye, r.counted, w);
		p.drift.both.take(aye, (w * now).min(u32::MAX as u64), w);
		self.unlock_poll(r.voter, poll, r.v);
	}
	fn unlock_poll(&mut self, who: u8, poll: u32, v: V) {
		if let Some((cur, _)) = v.backing() {
			self.poll_locks.remove(&(who, poll));
			let max = self.poll_locks.iter().filter(|(k, _)| k.0 == who).filter_map(|(_, v)| v.backing()).filter(|b| b.0 == cur).map(|b| b.1).max();
			self.poll_frozen.insert((who, cur), max.unwrap_or(0));
		}
	}
	/// The rules. `moved` tells which membership was handed out (any unassigned one will do) and its rank.
	pub fn apply(&self, op: &Op, moved: Option<(u32, u8)>) -> Result<Model, Forbidden> {
		let mut n = self.clone();
		let auth = |o: Og, main: &'static str| {
			self.authority(o).map_err(|mut e| {
				e.extend(["M02", main]);
				e
			})
		};
		match *op {
			Op::Create { by, admin, id } => {
				if self.communities.contains_key(&id) || self.communities.values().any(|c| c.admin == admin) {
					return Err(vec!["M01"]);
				}
				match by {
					Og::Root => {}
					_ => {
						let s = Self::signer(by).ok_or(vec!["M01"])?;
						if !n.pay(s, Og::Signed(super::TREASURY), super::PRICE) {
							return Err(vec!["M01"]);
						}
					}
				}
				n.communities.insert(id, Community { admin, blocked: false });
			}
			Op::Handover { by, to } => {
				let c = auth(by, "M01")?;
				if self.communities.iter().any(|(i, x)| *i != c && x.admin == to) {
					return Err(vec!["M01"]);
				}
				n.communities.get_mut(&c).expect("exists").admin = to;
			}
			Op::Block { id, blocked } => {
				if let Some(c) = n.communities.get_mut(&id) {
					c.blocked = blocked
				}
			}
			Op::SetMethod { by, id, method } => {
				if auth(by, "M09")? != id {
					return Err(vec!["M02"]);
				}
				n.methods.insert(id, method);
			}
			Op::Add { by, who } => {
				let c = auth(by, "M04")?;
				if !self.memberships.values().any(|m| m.community == c && m.holder.is_none()) {
					return Err(vec!["M04"]);
				}
				if let Some((m, rank)) = moved {
					let x = n.memberships.get_mut(&m).expect("known membership");
					x.holder = Some(who);
					x.rank = rank;
				}
			}
			Op::Remove { by, who, m } => {
				let c = auth(by, "M04")?;
				let x = n.memberships.get_mut(&m).ok_or(vec!["M04"])?;
				if x.community != c {
					return Err(vec!["M04", "M02"]);
				}
				if x.holder != Some(who) {
					return Err(vec!["M04"]);
				}
				x.holder = None;
				x.rank = 0;
			}
			Op::Promote { by, m } | Op::Demote { by, m } => {
				let c = auth(by, "M05")?;
				let x = n.memberships.get_mut(&m).ok_or(vec!["M05"])?;
				if x.community != c {
					return Err(vec!["M05", "M02"]);
				}
				if x.holder.is_none() {
					return Err(vec!["M05"]);
				}
				x.rank = if matches!(op, Op::Promote { .. }) { x.rank.saturating_add(1) } else { x.rank.saturating_sub(1) };
			}
			Op::Give { from, to, m } => {
				let x = n.memberships.get_mut(&m).ok_or(vec![])?;
				if x.holder != Some(from) {
					return Err(vec![]);
				}
				x.holder = Some(to);
			}
			Op::Cede { from, to, m } => {
				let x = n.memberships.get_mut(&m).ok_or(vec![])?;
				if x.community != from || x.holder.is_some() {
					return Err(vec![]);
				}
				x.community = to;
			}
			Op::Vote { by, m, poll, v } => {
				let Og::Signed(who) = by else { return Err(vec!["M07"]) };
				let x = self.memberships.get(&m).ok_or(vec!["M07"])?;
				if x.holder != Some(who) {
					return Err(vec!["M07"]);
				}
				let p = self.polls.get(&poll).ok_or(vec!["M07"])?;
				if p.status != 0 || p.class != x.community {
					return Err(vec!["M07"]);
				}
				let ok = match (v, self.method(x.community)) {
					(V::Std(_), Method::Membership | Method::Rank) => true,
					(V::Nat(_, a), Method::Native) => a > 0,
					(V::Ast(_, id, a), Method::Asset(want, min)) => id == want && a >= min && a > 0,
					_ => false,
				};
				if !ok {
					return Err(vec!["M09"]);
				}
				if let Some((cur, a)) = v.backing() {
					if a > self.free(by, cur) {
						return Err(vec!["M08"]);
					}
				}
				if self.votes.contains_key(&(poll, m)) {
					n.drop_vote(poll, m);
				}
				let (w, mult) = (v.weight() as u64, self.multiplier(m));
				n.votes.insert((poll, m), Recorded { v, voter: who, counted: w * mult, locked: v.backing().is_some() });
				let p = n.polls.get_mut(&poll).expect("poll");
				p.drift.by_multiplier.put(v.aye(), w * mult, w, u64::MAX);
				p.drift.by_cap.put(v.aye(), w * mult, w, u32::MAX as u64);
				p.drift.both.put(v.aye(), w * mult, w, u32::MAX as u64);
				if let Some((cur, a)) = v.backing() {
					n.poll_locks.insert((who, poll), v);
					let f = n.poll_frozen.entry((who, cur)).or_default();
					*f = a.max(*f);
				}
			}
			Op::Unvote { by, m, poll } => {
				let Og::Signed(who) = by else { return Err(vec!["M07"]) };
				let x = self.memberships.get(&m).ok_or(vec!["M07"])?;
				let p = self.polls.get(&poll).ok_or(vec!["M07"])?;
				if x.holder != Some(who) || p.status != 0 || p.class != x.community || !self.votes.contains_key(&(poll, m)) {
					return Err(vec!["M07"]);
				}
				n.drop_vote(poll, m);
			}
			Op::Unlock { by, poll } => {
				let Og::Signed(who) = by else { return Err(vec!["M08"]) };
				if self.polls.get(&poll).map_or(false, |p| p.status == 0) {
					return Err(vec!["M08"]);
				}
				let mut any = None;
				for (k, r) in n.votes.iter_mut() {
					if k.0 == poll && r.voter == who && r.locked {
						r.locked = false;
						any = Some(r.v);
					}
				}
				any.ok_or(vec!["M08"])?;
				if let Some(v) = self.poll_locks.get(&(who, poll)) {
					n.unlock_poll(who, poll, *v);
				}
			}
			Op::Finish { poll, status } => n.polls.get_mut(&poll).expect("poll").status = status,
			Op::Dispatch { by, inner } => {
				let c = auth(by, "M11")?;
				let me = Og::Acct(c);
				match inner {
					Inner::Remark => {}
					Inner::Pay(a) => {
						if !n.pay(me, Og::Signed(super::TREASURY), a) {
							return Err(vec!["M11"]);
						}
					}
					Inner::Method(id, method) => n = self.apply(&Op::SetMethod { by: me, id, method }, None)?,
					Inner::Nested => n = self.apply(&Op::Dispatch { by: me, inner: Inner::Remark }, None)?,
				}
			}
		}
		Ok(n)
	}
	/// Who signs the remark made by a dispatch.
	pub fn remark_signer(&self, by: Og, inner: Inner) -> Option<Og> {
		let c = self.authority(by).ok()?;
		match inner {
			Inner::Remark => Some(Og::Acct(c)),
			Inner::Nested => self.remark_signer(Og::Acct(c), Inner::Remark),
			_ => None,
		}
	}
	pub fn sums(&self, poll: u32) -> Sums {
		let mut s = Sums::default();
		for (_, r) in self.votes.iter().filter(|(k, _)| k.0 == poll) {
			s.put(r.v.aye(), r.counted, r.v.weight() as u64, u64::MAX);
		}
		s
	}
	/// How far the tally of a poll may have come off what it should be.
	pub fn deviation(&self, poll: u32) -> u64 {
		let (a, b) = (self.polls[&poll].drift.both, self.sums(poll));
		a.ayes.abs_diff(b.ayes) + a.nays.abs_diff(b.nays) + a.bare.abs_diff(b.bare)
	}
	pub fn frozen(&self, who: u8, currency: u32) -> u64 {
		self.votes.values().filter(|r| r.voter == who && r.locked).filter_map(|r| r.v.backing()).filter(|b| b.0 == currency).map(|b| b.1).max().unwrap_or(0)
	}
	pub fn electorate(&self, c: u32, issuance: &dyn Fn(u32) -> u64) -> u64 {
		let of = |f: &dyn Fn(&Membership) -> u64| self.memberships.values().filter(|m| m.community == c && m.holder.is_some()).map(|m| f(m)).sum::<u64>();
		match self.method(c) {
			Method::Membership => of(&|_| 1),
			Method::Rank => of(&|m| m.rank as u64),
			Method::Native => issuance(NATIVE).min(u32::MAX as u64),
			Method::Asset(a, _) => issuance(a).min(u32::MAX as u64),
		}
	}
}
