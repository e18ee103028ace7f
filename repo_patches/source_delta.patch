From d842677da602dce81de05b9e4641359a948d1ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:55:31 +0000
Subject: [PATCH 01/19] fix: reject payment id text of the wrong length instead
 of panicking or padding it

Parsing a text with a dash and more than 12 other characters panicked, and
a text too short to hold eight bytes was accepted and padded with zeros.
---
 common/src/payment_id.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/common/src/payment_id.rs b/common/src/payment_id.rs
index 471a430..ce293a9 100644
--- a/common/src/payment_id.rs
+++ b/common/src/payment_id.rs
@@ -100,13 +100,18 @@ impl core::str::FromStr for PaymentId {
 		let mut input = s;
 		if let Some((p1, p2)) = s.split_once('-') {
 			let len_without_sep = p1.len() + p2.len();
-			debug_assert!(len_without_sep <= 12);
+			if len_without_sep > tmp.len() {
+				return Err(());
+			}
 			tmp[..p1.len()].copy_from_slice(p1.as_bytes());
 			tmp[p1.len()..len_without_sep].copy_from_slice(p2.as_bytes());
 			input = tmp[..len_without_sep].as_ascii().ok_or(())?.as_str();
 		};
 		let mut out = [0u8; 8];
-		let _ = bs58::decode(input).onto(&mut out[..]).map_err(|_| ())?;
+		let n = bs58::decode(input).onto(&mut out[..]).map_err(|_| ())?;
+		if n != out.len() {
+			return Err(());
+		}
 		Ok(u64::from_le_bytes(out).into())
 	}
 }
-- 
2.43.0


From a4243ae86666fc12c9620dea2d95210b4e173cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:55:31 +0000
Subject: [PATCH 02/19] fix: refuse local asset locations with an out of range
 index

Converting a location with a general index above u32::MAX panicked.
---
 common/src/multilocation_asset_id.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/common/src/multilocation_asset_id.rs b/common/src/multilocation_asset_id.rs
index f6ac03c..d22b12f 100644
--- a/common/src/multilocation_asset_id.rs
+++ b/common/src/multilocation_asset_id.rs
@@ -106,11 +106,9 @@ pub mod runtime {
 						index: (*index).try_into().ok()?,
 					}))
 				}
-				(0, [PalletInstance(13), GeneralIndex(index)]) => Some(FungibleAssetLocation::Here(
-					(*index)
-						.try_into()
-						.expect("as it is here, we the types will match; qed"),
-				)),
+				(0, [PalletInstance(13), GeneralIndex(index)]) => {
+					Some(FungibleAssetLocation::Here((*index).try_into().ok()?))
+				}
 				_ => None,
 			}
 		}
-- 
2.43.0


From f1c906a5093cad2b28b3741ecc1b74b411b3b178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:48:27 +0000
Subject: [PATCH 03/19] fix: accept only payments that were requested

accept_and_pay did not look at the state of the payment. A payment that was
already finished, held in escrow or under dispute could be settled again.
---
 pallets/payments/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pallets/payments/src/lib.rs b/pallets/payments/src/lib.rs
index 622130d..258bd52 100644
--- a/pallets/payments/src/lib.rs
+++ b/pallets/payments/src/lib.rs
@@ -361,6 +361,10 @@ pub mod pallet {
 
 			Payment::<T>::try_mutate(&sender, payment_id, |maybe_payment| -> Result<_, DispatchError> {
 				let payment = maybe_payment.as_mut().map_err(|_| Error::<T>::InvalidPayment)?;
+				ensure!(
+					payment.state == PaymentState::PaymentRequested,
+					Error::<T>::InvalidAction
+				);
 				const IS_DISPUTE: bool = false;
 
 				// Release sender fees recipients
-- 
2.43.0


From 18002eb82e0c318a04acb504e4c2f7e3eb119973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:48:27 +0000
Subject: [PATCH 04/19] fix: never reuse the id of an existing payment

A new payment could take over the id of another sender's payment, or replace a
pending payment request. The record of the parties of the old payment was lost.
---
 pallets/payments/src/lib.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/pallets/payments/src/lib.rs b/pallets/payments/src/lib.rs
index 258bd52..6dcc3cc 100644
--- a/pallets/payments/src/lib.rs
+++ b/pallets/payments/src/lib.rs
@@ -528,14 +528,11 @@ impl<T: Config> Pallet<T> {
 		remark: Option<&[u8]>,
 	) -> Result<(T::PaymentId, PaymentDetail<T>), DispatchError> {
 		let payment_id = T::PaymentId::next(sender, &beneficiary).ok_or(Error::<T>::NoPaymentIdAvailable)?;
+		ensure!(
+			!PaymentParties::<T>::contains_key(payment_id),
+			Error::<T>::PaymentAlreadyInProcess
+		);
 		Payment::<T>::try_mutate(sender, payment_id, |maybe_payment| -> Result<_, DispatchError> {
-			if let Ok(payment) = maybe_payment {
-				ensure!(
-					payment.state == PaymentState::PaymentRequested,
-					Error::<T>::PaymentAlreadyInProcess
-				);
-			}
-
 			let incentive_amount = incentive_percentage.mul_floor(amount);
 
 			let fees_details: Fees<T> = T::FeeHandler::apply_fees(&asset, sender, &beneficiary, &amount, remark);
-- 
2.43.0


From bdb70c57f094d561c953525324f44c403d1595a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:48:27 +0000
Subject: [PATCH 05/19] fix: drop the scheduled refund of a payment already
 given back

When the beneficiary gave the money back before the deadline, the scheduled
refund stayed in the agenda. It would later cancel any payment using the same
id, and kept that payment from requesting a refund of its own.
---
 pallets/payments/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pallets/payments/src/lib.rs b/pallets/payments/src/lib.rs
index 6dcc3cc..7e45d3e 100644
--- a/pallets/payments/src/lib.rs
+++ b/pallets/payments/src/lib.rs
@@ -411,6 +411,8 @@ pub mod pallet {
 				}
 				PaymentState::RefundRequested { cancel_block: _ } => {
 					Self::cancel_payment(&sender, payment)?;
+					// nothing left to cancel if this is the scheduled refund itself
+					let _ = T::Scheduler::cancel_named(("payment", payment_id).using_encoded(blake2_256));
 					Self::deposit_event(Event::PaymentRefunded { payment_id });
 				}
 				_ => fail!(Error::<T>::InvalidAction),
-- 
2.43.0


From 8b9cb41390a025158db547decb62a72f7dce8e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:48:27 +0000
Subject: [PATCH 06/19] fix: keep mandatory and optional fees of one receiver
 apart

Fees were merged by receiver and the merged fee kept the flag of the first
entry. With both kinds for one receiver, a dispute charged too much or too
little.
---
 pallets/payments/src/types.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pallets/payments/src/types.rs b/pallets/payments/src/types.rs
index ed76fc1..aac3dbe 100644
--- a/pallets/payments/src/types.rs
+++ b/pallets/payments/src/types.rs
@@ -117,7 +117,7 @@ impl<T: pallet::Config> Fees<T> {
 	}
 
 	fn get_summary(fees: &FeeDetails<T>, is_dispute: bool) -> Result<FeesSummaryForRole<T>, DispatchError> {
-		let mut fees_per_account: BTreeMap<AccountIdOf<T>, Fee<T>> = BTreeMap::new();
+		let mut fees_per_account: BTreeMap<(AccountIdOf<T>, ChargableOnDisputes), Fee<T>> = BTreeMap::new();
 		let mut total_to_discount: BalanceOf<T> = Zero::zero();
 		let mut total_to_return: BalanceOf<T> = Zero::zero();
 
@@ -133,7 +133,7 @@ impl<T: pallet::Config> Fees<T> {
 			}
 
 			let current_fee = fees_per_account
-				.entry(account.clone())
+				.entry((account.clone(), *charge_dispute))
 				.or_insert_with(|| (account.clone(), Zero::zero(), *charge_dispute));
 			let (_, current_balance, _) = current_fee;
 			*current_balance = current_balance.saturating_add(*fee);
-- 
2.43.0


From 4fb6c6009176cc2fe1a54afd0fcc58f8546411c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:21:57 +0000
Subject: [PATCH 07/19] fix: a community's decision method can only be set by
 its own administrator

The caller's community was checked to exist but not compared with the
community named in the call, so any administrator could change the
decision method of every other community.
---
 pallets/communities/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pallets/communities/src/lib.rs b/pallets/communities/src/lib.rs
index 2e92945..2150c88 100644
--- a/pallets/communities/src/lib.rs
+++ b/pallets/communities/src/lib.rs
@@ -490,7 +490,10 @@ pub mod pallet {
 			community_id: T::CommunityId,
 			decision_method: DecisionMethodFor<T>,
 		) -> DispatchResult {
-			T::AdminOrigin::ensure_origin(origin)?;
+			ensure!(
+				T::AdminOrigin::ensure_origin(origin)? == community_id,
+				DispatchError::BadOrigin
+			);
 			if let DecisionMethod::CommunityAsset(ref asset, min_vote) = decision_method {
 				// best effort attemt to create the asset if it doesn't exist
 				let _ = <T::Assets as fungibles::Create<T::AccountId>>::create(
-- 
2.43.0


From a418d634734d7bce6af5d639168827241cc41733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:21:57 +0000
Subject: [PATCH 08/19] fix: refuse to hand a community over to the
 administrator of another one

The new origin's entry was overwritten, which left its previous community
without any administrator.
---
 pallets/communities/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pallets/communities/src/lib.rs b/pallets/communities/src/lib.rs
index 2150c88..91d001f 100644
--- a/pallets/communities/src/lib.rs
+++ b/pallets/communities/src/lib.rs
@@ -400,6 +400,10 @@ pub mod pallet {
 				CommunityIdFor::<T>::get(origin.clone().caller()) == Some(community_id),
 				DispatchError::BadOrigin
 			);
+			ensure!(
+				CommunityIdFor::<T>::get(&admin_origin).map_or(true, |id| id == community_id),
+				Error::<T>::AlreadyAdmin
+			);
 
 			CommunityIdFor::<T>::remove(origin.caller());
 			CommunityIdFor::<T>::insert(admin_origin.clone(), community_id);
-- 
2.43.0


From f4fd2044a7712c73f2593b0ac6477e1db11f7693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:21:57 +0000
Subject: [PATCH 09/19] fix: announce the new rank when demoting a member

The event carried the rank before the demotion.
---
 pallets/communities/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pallets/communities/src/lib.rs b/pallets/communities/src/lib.rs
index 91d001f..f69d23c 100644
--- a/pallets/communities/src/lib.rs
+++ b/pallets/communities/src/lib.rs
@@ -478,8 +478,10 @@ pub mod pallet {
 		pub fn demote(origin: OriginFor<T>, membership_id: MembershipIdOf<T>) -> DispatchResult {
 			let community_id = T::MemberMgmtOrigin::ensure_origin(origin)?;
 
-			let rank = T::MemberMgmt::rank_of(&community_id, &membership_id).ok_or(Error::<T>::NotAMember)?;
-			T::MemberMgmt::set_rank(&community_id, &membership_id, rank.demote_by(ONE))?;
+			let rank = T::MemberMgmt::rank_of(&community_id, &membership_id)
+				.ok_or(Error::<T>::NotAMember)?
+				.demote_by(ONE);
+			T::MemberMgmt::set_rank(&community_id, &membership_id, rank)?;
 
 			Self::deposit_event(Event::MembershipRankUpdated { membership_id, rank });
 			Ok(())
-- 
2.43.0


From 1247ce416c3d72baaf2073ae10b5dd20748f7145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:21:57 +0000
Subject: [PATCH 10/19] fix: removing a member requires the account to hold the
 named membership

It was only checked that the account is some member of the community, so
the membership of another member was released while announcing the
removal of the named account.
---
 pallets/communities/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pallets/communities/src/lib.rs b/pallets/communities/src/lib.rs
index f69d23c..8108304 100644
--- a/pallets/communities/src/lib.rs
+++ b/pallets/communities/src/lib.rs
@@ -451,7 +451,10 @@ pub mod pallet {
 			let community_id = T::MemberMgmtOrigin::ensure_origin(origin)?;
 			let who = T::Lookup::lookup(who)?;
 
-			ensure!(T::MemberMgmt::is_member_of(&community_id, &who), Error::<T>::NotAMember);
+			ensure!(
+				T::MemberMgmt::check_membership(&who, &membership_id) == Some(community_id),
+				Error::<T>::NotAMember
+			);
 
 			T::MemberMgmt::release(&community_id, &membership_id)?;
 
-- 
2.43.0


From 0d1ed60e5dacf7de98e99ca95e3437e7776b374a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:21:57 +0000
Subject: [PATCH 11/19] fix: approval of a tally does not overflow

The sum of ayes and nays exceeds the weight type when both sides carry
large balances.
---
 pallets/communities/src/impls.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pallets/communities/src/impls.rs b/pallets/communities/src/impls.rs
index eea66f1..e7997f0 100644
--- a/pallets/communities/src/impls.rs
+++ b/pallets/communities/src/impls.rs
@@ -20,7 +20,8 @@ impl<T: Config> VoteTally<VoteWeight, CommunityIdOf<T>> for Tally<T> {
 	}
 
 	fn approval(&self, _cid: CommunityIdOf<T>) -> sp_runtime::Perbill {
-		Perbill::from_rational(self.ayes, 1.max(self.ayes + self.nays))
+		let (ayes, nays) = (u64::from(self.ayes), u64::from(self.nays));
+		Perbill::from_rational(ayes, 1.max(ayes + nays))
 	}
 
 	#[cfg(feature = "runtime-benchmarks")]
-- 
2.43.0


From 3c9183f77fd8370bc31433c6ddf00651e31b63e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:21:57 +0000
Subject: [PATCH 12/19] fix: removing a vote does not overflow its multiplied
 weight

A balance vote removed after the community switched to deciding by rank
multiplies the saturated weight by the rank.
---
 pallets/communities/src/functions.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pallets/communities/src/functions.rs b/pallets/communities/src/functions.rs
index 6241feb..1440bfe 100644
--- a/pallets/communities/src/functions.rs
+++ b/pallets/communities/src/functions.rs
@@ -105,7 +105,7 @@ impl<T: Config> Pallet<T> {
 			};
 
 			let vote_weight = VoteWeight::from(vote);
-			tally.add_vote(say, vote_multiplier * vote_weight, vote_weight);
+			tally.add_vote(say, vote_weight.saturating_mul(vote_multiplier), vote_weight);
 
 			CommunityVotes::<T>::insert(poll_index, membership_id, (vote, who));
 			Self::update_locks(who, poll_index, vote, LockUpdateType::Add)
@@ -131,7 +131,7 @@ impl<T: Config> Pallet<T> {
 			};
 
 			let vote_weight = VoteWeight::from(&vote);
-			tally.remove_vote(vote.say(), vote_multiplier * vote_weight, vote_weight);
+			tally.remove_vote(vote.say(), vote_weight.saturating_mul(vote_multiplier), vote_weight);
 
 			CommunityVotes::<T>::remove(poll_index, membership_id);
 			Self::update_locks(&voter, poll_index, &vote, LockUpdateType::Remove)
-- 
2.43.0


From 46fb7925aebf23fa0e22cc744efc53f7ea54decf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:27:58 +0000
Subject: [PATCH 13/19] fix: count the membership minted with the last id

When the id space ends at the last minted membership there is no next id,
and that membership was left out of the announced amount.
---
 pallets/communities-manager/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pallets/communities-manager/src/lib.rs b/pallets/communities-manager/src/lib.rs
index 7f6e394..f3ac153 100644
--- a/pallets/communities-manager/src/lib.rs
+++ b/pallets/communities-manager/src/lib.rs
@@ -218,9 +218,9 @@ pub mod pallet {
 					Some(price),
 					None,
 				)?;
+				minted += 1;
 				if let Some(next_id) = id.increment() {
 					id = next_id;
-					minted += 1;
 				} else {
 					break;
 				}
-- 
2.43.0


From 2022957838c8478aee34f8a6a9960e42854fa781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:57:32 +0000
Subject: [PATCH 14/19] fix: only accounts derived from the communities pallet
 act as a community

---
 runtime/kreivo/src/communities/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/runtime/kreivo/src/communities/mod.rs b/runtime/kreivo/src/communities/mod.rs
index e393790..5419223 100644
--- a/runtime/kreivo/src/communities/mod.rs
+++ b/runtime/kreivo/src/communities/mod.rs
@@ -46,7 +46,10 @@ parameter_types! {
 
 morph_types! {
 	pub type AccountToCommunityId: TryMorph = |a: AccountId| -> Result<CommunityId, ()> {
-		PalletId::try_from_sub_account(&a).map(|(_, id)| id).ok_or(())
+		match PalletId::try_from_sub_account(&a) {
+			Some((pallet_id, id)) if pallet_id == CommunityPalletId::get() => Ok(id),
+			_ => Err(()),
+		}
 	};
 }
 type EnsureCommunityAccount = TryMapSuccess<EnsureSigned<AccountId>, AccountToCommunityId>;
-- 
2.43.0


From fdfe8cb12d022e01ce0adb557f65dab7044b68da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:57:32 +0000
Subject: [PATCH 15/19] fix: only accounts of the communities pallet send
 messages as a community

---
 runtime/kreivo/src/xcm_config/communities.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/runtime/kreivo/src/xcm_config/communities.rs b/runtime/kreivo/src/xcm_config/communities.rs
index 7410bc8..b3fed26 100644
--- a/runtime/kreivo/src/xcm_config/communities.rs
+++ b/runtime/kreivo/src/xcm_config/communities.rs
@@ -52,9 +52,12 @@ where
 		let Some(account_id) = o.clone().into_signer() else {
 			return Err(o.clone());
 		};
-		let Some((_, community_id)) = PalletId::try_from_sub_account(&account_id) else {
+		let Some((pallet_id, community_id)) = PalletId::try_from_sub_account(&account_id) else {
 			return Err(o.clone());
 		};
+		if pallet_id != T::PalletId::get() {
+			return Err(o.clone());
+		}
 		let origin = pallet_communities::Origin::<T>::new(community_id);
 		let j = Junction::try_from(origin).map_err(|_| o)?;
 		Ok(j.into())
-- 
2.43.0


From 43493bc8f436040d8497a512c585ec4f783c23b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:57:32 +0000
Subject: [PATCH 16/19] fix: a plurality beyond the range of community ids maps
 to no account

---
 runtime/kreivo/src/xcm_config/communities.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/runtime/kreivo/src/xcm_config/communities.rs b/runtime/kreivo/src/xcm_config/communities.rs
index b3fed26..f1ca303 100644
--- a/runtime/kreivo/src/xcm_config/communities.rs
+++ b/runtime/kreivo/src/xcm_config/communities.rs
@@ -4,10 +4,7 @@ use crate::Communities;
 use core::marker::PhantomData;
 use frame_support::{traits::OriginTrait, PalletId};
 use pallet_communities::AccountIdOf;
-use sp_runtime::{
-	traits::{AccountIdConversion, TryConvert},
-	SaturatedConversion,
-};
+use sp_runtime::traits::{AccountIdConversion, TryConvert};
 use xcm::latest::{BodyId, Junction, Junction::Plurality, Location};
 use xcm_executor::traits::ConvertLocation;
 
@@ -20,7 +17,7 @@ impl ConvertLocation<AccountId> for PluralityConvertsToCommunityAccountId {
 				[Plurality {
 					id: BodyId::Index(id), ..
 				}],
-			) => Some(Communities::community_account(&(*id).saturated_into())),
+			) => Some(Communities::community_account(&(*id).try_into().ok()?)),
 			_ => None,
 		}
 	}
-- 
2.43.0


From a642776b4859335a46d926c64dd8cadcde00cc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:57:32 +0000
Subject: [PATCH 17/19] fix: accept reserve assets under a prefix only from the
 chain holding them

---
 runtime/kreivo/src/xcm_config.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/runtime/kreivo/src/xcm_config.rs b/runtime/kreivo/src/xcm_config.rs
index b2c2b44..0b26548 100644
--- a/runtime/kreivo/src/xcm_config.rs
+++ b/runtime/kreivo/src/xcm_config.rs
@@ -185,9 +185,9 @@ fn matches_prefix(prefix: &Location, loc: &Location) -> bool {
 }
 pub struct ReserveAssetsFrom<T>(PhantomData<T>);
 impl<Prefix: Get<Location>> ContainsPair<Asset, Location> for ReserveAssetsFrom<Prefix> {
-	fn contains(asset: &Asset, _origin: &Location) -> bool {
-		log::trace!(target: "xcm::AssetsFrom", "prefix: {:?}, origin: {:?}", Prefix::get(), _origin);
-		matches_prefix(&Prefix::get(), &asset.id.0)
+	fn contains(asset: &Asset, origin: &Location) -> bool {
+		log::trace!(target: "xcm::AssetsFrom", "prefix: {:?}, origin: {:?}", Prefix::get(), origin);
+		&Prefix::get() == origin && matches_prefix(&Prefix::get(), &asset.id.0)
 	}
 }
 pub struct ReserveForeignAssetsFrom<P, R>(PhantomData<(P, R)>);
-- 
2.43.0


From 2b85e1fdaa1cb99e0ae09b7653b9ed52b6f9c588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:57:32 +0000
Subject: [PATCH 18/19] fix: refuse authentication challenges for blocks that
 have no hash yet

---
 runtime/kreivo/src/configuration/system_support.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runtime/kreivo/src/configuration/system_support.rs b/runtime/kreivo/src/configuration/system_support.rs
index 0f1081f..2f342ed 100644
--- a/runtime/kreivo/src/configuration/system_support.rs
+++ b/runtime/kreivo/src/configuration/system_support.rs
@@ -142,7 +142,8 @@ impl Challenger for UnincludedBlockHashChallenger {
 	}
 
 	fn check_challenge(cx: &Self::Context, challenge: &[u8]) -> Option<()> {
-		(*cx >= System::block_number().saturating_sub(3)).then_some(())?;
+		let now = System::block_number();
+		(*cx >= now.saturating_sub(3) && *cx < now).then_some(())?;
 		Self::generate(cx).eq(challenge).then_some(())
 	}
 }
-- 
2.43.0


From 29fa048090c8b9a9a848171db3ae83eb8ffd5a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:50:40 +0000
Subject: [PATCH 19/19] fix: charge for acting as a community when the inner
 call reports its weight

---
 pallets/communities/src/functions.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pallets/communities/src/functions.rs b/pallets/communities/src/functions.rs
index 1440bfe..d43c681 100644
--- a/pallets/communities/src/functions.rs
+++ b/pallets/communities/src/functions.rs
@@ -207,7 +207,13 @@ impl<T: Config> Pallet<T> {
 		let community_account = Self::community_account(community_id);
 		let signer = frame_system::RawOrigin::Signed(community_account);
 
-		let post = call.dispatch(signer.into()).map_err(|e| e.error)?;
+		let mut post = call.dispatch(signer.into()).map_err(|e| e.error)?;
+		// What the call turns out to take doesn't include acting as the community.
+		post.actual_weight = post.actual_weight.map(|weight| {
+			T::WeightInfo::dispatch_as_account()
+				.saturating_add(T::DbWeight::get().reads_writes(1, 1))
+				.saturating_add(weight)
+		});
 		Ok(post)
 	}
 }
-- 
2.43.0

