From 971d05f80761de7a59ee169596a785d8034bd07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:09:54 +0000
Subject: [PATCH 01/18] fix: reject overlong payment id text instead of
 panicking

Parsing text with a separator and more than twelve other bytes ran past the
temporary buffer. Such text can never be a payment id, so return an error.
---
 common/src/payment_id.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/common/src/payment_id.rs b/common/src/payment_id.rs
index 471a430..fef0a68 100644
--- a/common/src/payment_id.rs
+++ b/common/src/payment_id.rs
@@ -100,7 +100,9 @@ impl core::str::FromStr for PaymentId {
 		let mut input = s;
 		if let Some((p1, p2)) = s.split_once('-') {
 			let len_without_sep = p1.len() + p2.len();
-			debug_assert!(len_without_sep <= 12);
+			if len_without_sep > tmp.len() {
+				return Err(());
+			}
 			tmp[..p1.len()].copy_from_slice(p1.as_bytes());
 			tmp[p1.len()..len_without_sep].copy_from_slice(p2.as_bytes());
 			input = tmp[..len_without_sep].as_ascii().ok_or(())?.as_str();
-- 
2.43.0


From 466c2ec784995aeb526633714a9ee30a9258cdb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:09:54 +0000
Subject: [PATCH 02/18] fix: reject payment id text that decodes to fewer than
 eight bytes

A truncated id was padded with zeros and parsed as some other payment's id.
Every id prints to text that decodes to exactly eight bytes, so shorter text
is an error.
---
 common/src/payment_id.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/common/src/payment_id.rs b/common/src/payment_id.rs
index fef0a68..65ade40 100644
--- a/common/src/payment_id.rs
+++ b/common/src/payment_id.rs
@@ -108,7 +108,10 @@ impl core::str::FromStr for PaymentId {
 			input = tmp[..len_without_sep].as_ascii().ok_or(())?.as_str();
 		};
 		let mut out = [0u8; 8];
-		let _ = bs58::decode(input).onto(&mut out[..]).map_err(|_| ())?;
+		let len = bs58::decode(input).onto(&mut out[..]).map_err(|_| ())?;
+		if len != out.len() {
+			return Err(());
+		}
 		Ok(u64::from_le_bytes(out).into())
 	}
 }
-- 
2.43.0


From 9ae1654ff4d623e92058a383edf40fc0d58097a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:09:54 +0000
Subject: [PATCH 03/18] fix: refuse local asset locations whose index exceeds
 32 bits

Locations come from other chains, so an oversized general index must be
refused like in the sibling and external cases instead of panicking.
---
 common/src/multilocation_asset_id.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/common/src/multilocation_asset_id.rs b/common/src/multilocation_asset_id.rs
index f6ac03c..d22b12f 100644
--- a/common/src/multilocation_asset_id.rs
+++ b/common/src/multilocation_asset_id.rs
@@ -106,11 +106,9 @@ pub mod runtime {
 						index: (*index).try_into().ok()?,
 					}))
 				}
-				(0, [PalletInstance(13), GeneralIndex(index)]) => Some(FungibleAssetLocation::Here(
-					(*index)
-						.try_into()
-						.expect("as it is here, we the types will match; qed"),
-				)),
+				(0, [PalletInstance(13), GeneralIndex(index)]) => {
+					Some(FungibleAssetLocation::Here((*index).try_into().ok()?))
+				}
 				_ => None,
 			}
 		}
-- 
2.43.0


From 252ad64453447043d15f0dcf192aaf4ba2d0609a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:24 +0000
Subject: [PATCH 04/18] fix: only requested payments can be accepted and paid

accept_and_pay did not look at the payment's state. Called on a payment
that was already created, disputed or finished it charged the sender the
amount and the fees once more, and marked the payment finished while the
funds held for it stayed on hold for ever.
---
 pallets/payments/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pallets/payments/src/lib.rs b/pallets/payments/src/lib.rs
index 622130d..258bd52 100644
--- a/pallets/payments/src/lib.rs
+++ b/pallets/payments/src/lib.rs
@@ -361,6 +361,10 @@ pub mod pallet {
 
 			Payment::<T>::try_mutate(&sender, payment_id, |maybe_payment| -> Result<_, DispatchError> {
 				let payment = maybe_payment.as_mut().map_err(|_| Error::<T>::InvalidPayment)?;
+				ensure!(
+					payment.state == PaymentState::PaymentRequested,
+					Error::<T>::InvalidAction
+				);
 				const IS_DISPUTE: bool = false;
 
 				// Release sender fees recipients
-- 
2.43.0


From 4581c530a6394bfa9af956315b8978a58d049001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:24 +0000
Subject: [PATCH 05/18] fix: keep fees charged in disputes apart from the ones
 that are not

Fees for the same account were merged into one entry that kept the dispute
flag of the first. When a dispute was resolved an account with both kinds
of fees was paid either all of them or none.
---
 pallets/payments/src/types.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pallets/payments/src/types.rs b/pallets/payments/src/types.rs
index ed76fc1..74d8c38 100644
--- a/pallets/payments/src/types.rs
+++ b/pallets/payments/src/types.rs
@@ -117,7 +117,7 @@ impl<T: pallet::Config> Fees<T> {
 	}
 
 	fn get_summary(fees: &FeeDetails<T>, is_dispute: bool) -> Result<FeesSummaryForRole<T>, DispatchError> {
-		let mut fees_per_account: BTreeMap<AccountIdOf<T>, Fee<T>> = BTreeMap::new();
+		let mut fees_per_account: BTreeMap<(AccountIdOf<T>, bool), Fee<T>> = BTreeMap::new();
 		let mut total_to_discount: BalanceOf<T> = Zero::zero();
 		let mut total_to_return: BalanceOf<T> = Zero::zero();
 
@@ -133,7 +133,7 @@ impl<T: pallet::Config> Fees<T> {
 			}
 
 			let current_fee = fees_per_account
-				.entry(account.clone())
+				.entry((account.clone(), *charge_dispute))
 				.or_insert_with(|| (account.clone(), Zero::zero(), *charge_dispute));
 			let (_, current_balance, _) = current_fee;
 			*current_balance = current_balance.saturating_add(*fee);
-- 
2.43.0


From 3f5309ebbebeaee94e818fa037f5d1fefc8e037a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:24 +0000
Subject: [PATCH 06/18] fix: do not give a payment id in use to other parties

Payments are stored by sender and id, but their parties only by id. Two
payments created with the same id and different parties, as in a batch of
payment requests to several senders, left the first one without its
parties: it could no longer be cancelled, disputed or resolved.
---
 pallets/payments/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pallets/payments/src/lib.rs b/pallets/payments/src/lib.rs
index 258bd52..2ca8a4a 100644
--- a/pallets/payments/src/lib.rs
+++ b/pallets/payments/src/lib.rs
@@ -528,6 +528,12 @@ impl<T: Config> Pallet<T> {
 		remark: Option<&[u8]>,
 	) -> Result<(T::PaymentId, PaymentDetail<T>), DispatchError> {
 		let payment_id = T::PaymentId::next(sender, &beneficiary).ok_or(Error::<T>::NoPaymentIdAvailable)?;
+		if let Ok((s, b)) = PaymentParties::<T>::get(payment_id) {
+			ensure!(
+				&s == sender && b == beneficiary,
+				Error::<T>::PaymentAlreadyInProcess
+			);
+		}
 		Payment::<T>::try_mutate(sender, payment_id, |maybe_payment| -> Result<_, DispatchError> {
 			if let Ok(payment) = maybe_payment {
 				ensure!(
-- 
2.43.0


From aa6167d166930cc6379c84a674304cde38c40366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:24 +0000
Subject: [PATCH 07/18] fix: drop the scheduled refund of a payment refunded by
 its beneficiary

The task was left in the scheduler after the payment was gone. It would
cancel a later payment with the same id, or prevent requesting its refund.
---
 pallets/payments/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pallets/payments/src/lib.rs b/pallets/payments/src/lib.rs
index 2ca8a4a..ea9cbb8 100644
--- a/pallets/payments/src/lib.rs
+++ b/pallets/payments/src/lib.rs
@@ -411,6 +411,8 @@ pub mod pallet {
 				}
 				PaymentState::RefundRequested { cancel_block: _ } => {
 					Self::cancel_payment(&sender, payment)?;
+					// not found when it is the scheduled task itself that is running
+					let _ = T::Scheduler::cancel_named(("payment", payment_id).using_encoded(blake2_256));
 					Self::deposit_event(Event::PaymentRefunded { payment_id });
 				}
 				_ => fail!(Error::<T>::InvalidAction),
-- 
2.43.0


From a62f0cd30783fa9f0a18c16801fa3062b594f96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:51:32 +0000
Subject: [PATCH 08/18] fix: only the admin of a community sets its decision
 method

set_decision_method checked that the caller administers some community but
not that it is the one whose method is being changed.
---
 pallets/communities/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pallets/communities/src/lib.rs b/pallets/communities/src/lib.rs
index 2e92945..2150c88 100644
--- a/pallets/communities/src/lib.rs
+++ b/pallets/communities/src/lib.rs
@@ -490,7 +490,10 @@ pub mod pallet {
 			community_id: T::CommunityId,
 			decision_method: DecisionMethodFor<T>,
 		) -> DispatchResult {
-			T::AdminOrigin::ensure_origin(origin)?;
+			ensure!(
+				T::AdminOrigin::ensure_origin(origin)? == community_id,
+				DispatchError::BadOrigin
+			);
 			if let DecisionMethod::CommunityAsset(ref asset, min_vote) = decision_method {
 				// best effort attemt to create the asset if it doesn't exist
 				let _ = <T::Assets as fungibles::Create<T::AccountId>>::create(
-- 
2.43.0


From 888e8dc9aae92928b8e0b399a19d528ece505e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:51:32 +0000
Subject: [PATCH 09/18] fix: refuse to hand a community to an origin that
 administers another one

set_admin_origin overwrote the mapping of the new admin, which left the
community it administered before without an admin.
---
 pallets/communities/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pallets/communities/src/lib.rs b/pallets/communities/src/lib.rs
index 2150c88..91d001f 100644
--- a/pallets/communities/src/lib.rs
+++ b/pallets/communities/src/lib.rs
@@ -400,6 +400,10 @@ pub mod pallet {
 				CommunityIdFor::<T>::get(origin.clone().caller()) == Some(community_id),
 				DispatchError::BadOrigin
 			);
+			ensure!(
+				CommunityIdFor::<T>::get(&admin_origin).map_or(true, |id| id == community_id),
+				Error::<T>::AlreadyAdmin
+			);
 
 			CommunityIdFor::<T>::remove(origin.caller());
 			CommunityIdFor::<T>::insert(admin_origin.clone(), community_id);
-- 
2.43.0


From 6cbebddaaf037045490d2785d6180e603f12e5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:51:32 +0000
Subject: [PATCH 10/18] fix: remove a member only through a membership they
 hold

remove_member accepted any membership of the community together with any
member, so the membership of someone else was withdrawn and the wrong
member reported.
---
 pallets/communities/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pallets/communities/src/lib.rs b/pallets/communities/src/lib.rs
index 91d001f..ece8a94 100644
--- a/pallets/communities/src/lib.rs
+++ b/pallets/communities/src/lib.rs
@@ -451,7 +451,10 @@ pub mod pallet {
 			let community_id = T::MemberMgmtOrigin::ensure_origin(origin)?;
 			let who = T::Lookup::lookup(who)?;
 
-			ensure!(T::MemberMgmt::is_member_of(&community_id, &who), Error::<T>::NotAMember);
+			ensure!(
+				Self::get_memberships(community_id, &who).contains(&membership_id),
+				Error::<T>::NotAMember
+			);
 
 			T::MemberMgmt::release(&community_id, &membership_id)?;
 
-- 
2.43.0


From 1f5ab6dfd04eddbc678cf140a273d025adf84ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:51:32 +0000
Subject: [PATCH 11/18] fix: report the new rank when a membership is demoted

The event of demote carried the rank before the demotion.
---
 pallets/communities/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pallets/communities/src/lib.rs b/pallets/communities/src/lib.rs
index ece8a94..efc50b0 100644
--- a/pallets/communities/src/lib.rs
+++ b/pallets/communities/src/lib.rs
@@ -481,8 +481,10 @@ pub mod pallet {
 		pub fn demote(origin: OriginFor<T>, membership_id: MembershipIdOf<T>) -> DispatchResult {
 			let community_id = T::MemberMgmtOrigin::ensure_origin(origin)?;
 
-			let rank = T::MemberMgmt::rank_of(&community_id, &membership_id).ok_or(Error::<T>::NotAMember)?;
-			T::MemberMgmt::set_rank(&community_id, &membership_id, rank.demote_by(ONE))?;
+			let rank = T::MemberMgmt::rank_of(&community_id, &membership_id)
+				.ok_or(Error::<T>::NotAMember)?
+				.demote_by(ONE);
+			T::MemberMgmt::set_rank(&community_id, &membership_id, rank)?;
 
 			Self::deposit_event(Event::MembershipRankUpdated { membership_id, rank });
 			Ok(())
-- 
2.43.0


From 93d851361761fb5bb911562ef19654c7d9001457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:04:29 +0000
Subject: [PATCH 12/18] fix: compute the approval of large tallies without
 overflow

The sum of ayes and nays was taken in 32 bits, which panics or wraps once a
tally holds more than 2^32 - 1 votes.
---
 pallets/communities/src/impls.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pallets/communities/src/impls.rs b/pallets/communities/src/impls.rs
index eea66f1..0b90637 100644
--- a/pallets/communities/src/impls.rs
+++ b/pallets/communities/src/impls.rs
@@ -20,7 +20,8 @@ impl<T: Config> VoteTally<VoteWeight, CommunityIdOf<T>> for Tally<T> {
 	}
 
 	fn approval(&self, _cid: CommunityIdOf<T>) -> sp_runtime::Perbill {
-		Perbill::from_rational(self.ayes, 1.max(self.ayes + self.nays))
+		let ayes = u64::from(self.ayes);
+		Perbill::from_rational(ayes, 1.max(ayes + u64::from(self.nays)))
 	}
 
 	#[cfg(feature = "runtime-benchmarks")]
-- 
2.43.0


From 461d297573c7d887c21ebd9d4cfd2b74123aa06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:07:56 +0000
Subject: [PATCH 13/18] fix: count the membership with the last possible id as
 created

A membership was counted only if there was an id after it, so the event
reported one less than was created at the end of the range.
---
 pallets/communities-manager/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pallets/communities-manager/src/lib.rs b/pallets/communities-manager/src/lib.rs
index 7f6e394..f3ac153 100644
--- a/pallets/communities-manager/src/lib.rs
+++ b/pallets/communities-manager/src/lib.rs
@@ -218,9 +218,9 @@ pub mod pallet {
 					Some(price),
 					None,
 				)?;
+				minted += 1;
 				if let Some(next_id) = id.increment() {
 					id = next_id;
-					minted += 1;
 				} else {
 					break;
 				}
-- 
2.43.0


From 2e936655caceb232509fa035f5ed571f78f39630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:39:21 +0000
Subject: [PATCH 14/18] fix: refuse login challenges for blocks that are not
 finished

---
 runtime/kreivo/src/configuration/system_support.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runtime/kreivo/src/configuration/system_support.rs b/runtime/kreivo/src/configuration/system_support.rs
index 0f1081f..2f342ed 100644
--- a/runtime/kreivo/src/configuration/system_support.rs
+++ b/runtime/kreivo/src/configuration/system_support.rs
@@ -142,7 +142,8 @@ impl Challenger for UnincludedBlockHashChallenger {
 	}
 
 	fn check_challenge(cx: &Self::Context, challenge: &[u8]) -> Option<()> {
-		(*cx >= System::block_number().saturating_sub(3)).then_some(())?;
+		let now = System::block_number();
+		(*cx >= now.saturating_sub(3) && *cx < now).then_some(())?;
 		Self::generate(cx).eq(challenge).then_some(())
 	}
 }
-- 
2.43.0


From 1da28b897efeb0f573863e4b49eb1ff1d6635d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:48:24 +0000
Subject: [PATCH 15/18] fix: accept assets of the asset hub only from the asset
 hub

---
 runtime/kreivo/src/xcm_config.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/runtime/kreivo/src/xcm_config.rs b/runtime/kreivo/src/xcm_config.rs
index b2c2b44..0b26548 100644
--- a/runtime/kreivo/src/xcm_config.rs
+++ b/runtime/kreivo/src/xcm_config.rs
@@ -185,9 +185,9 @@ fn matches_prefix(prefix: &Location, loc: &Location) -> bool {
 }
 pub struct ReserveAssetsFrom<T>(PhantomData<T>);
 impl<Prefix: Get<Location>> ContainsPair<Asset, Location> for ReserveAssetsFrom<Prefix> {
-	fn contains(asset: &Asset, _origin: &Location) -> bool {
-		log::trace!(target: "xcm::AssetsFrom", "prefix: {:?}, origin: {:?}", Prefix::get(), _origin);
-		matches_prefix(&Prefix::get(), &asset.id.0)
+	fn contains(asset: &Asset, origin: &Location) -> bool {
+		log::trace!(target: "xcm::AssetsFrom", "prefix: {:?}, origin: {:?}", Prefix::get(), origin);
+		&Prefix::get() == origin && matches_prefix(&Prefix::get(), &asset.id.0)
 	}
 }
 pub struct ReserveForeignAssetsFrom<P, R>(PhantomData<(P, R)>);
-- 
2.43.0


From d2d10e772f46fad0d643c3aa63e224ffb3c0f613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:48:24 +0000
Subject: [PATCH 16/18] fix: resolve no community account for numbers beyond
 the last community

---
 runtime/kreivo/src/xcm_config/communities.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/runtime/kreivo/src/xcm_config/communities.rs b/runtime/kreivo/src/xcm_config/communities.rs
index 7410bc8..7d7d7b4 100644
--- a/runtime/kreivo/src/xcm_config/communities.rs
+++ b/runtime/kreivo/src/xcm_config/communities.rs
@@ -4,10 +4,7 @@ use crate::Communities;
 use core::marker::PhantomData;
 use frame_support::{traits::OriginTrait, PalletId};
 use pallet_communities::AccountIdOf;
-use sp_runtime::{
-	traits::{AccountIdConversion, TryConvert},
-	SaturatedConversion,
-};
+use sp_runtime::traits::{AccountIdConversion, TryConvert};
 use xcm::latest::{BodyId, Junction, Junction::Plurality, Location};
 use xcm_executor::traits::ConvertLocation;
 
@@ -20,7 +17,7 @@ impl ConvertLocation<AccountId> for PluralityConvertsToCommunityAccountId {
 				[Plurality {
 					id: BodyId::Index(id), ..
 				}],
-			) => Some(Communities::community_account(&(*id).saturated_into())),
+			) => Some(Communities::community_account(&(*id).try_into().ok()?)),
 			_ => None,
 		}
 	}
-- 
2.43.0


From 214577e815165fcaba1173c15cfaa65b2d153664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:48:24 +0000
Subject: [PATCH 17/18] fix: send cross-chain messages as a community only for
 that community's account

---
 runtime/kreivo/src/xcm_config/communities.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/runtime/kreivo/src/xcm_config/communities.rs b/runtime/kreivo/src/xcm_config/communities.rs
index 7d7d7b4..3abd3dd 100644
--- a/runtime/kreivo/src/xcm_config/communities.rs
+++ b/runtime/kreivo/src/xcm_config/communities.rs
@@ -49,9 +49,12 @@ where
 		let Some(account_id) = o.clone().into_signer() else {
 			return Err(o.clone());
 		};
-		let Some((_, community_id)) = PalletId::try_from_sub_account(&account_id) else {
+		let Some((pallet_id, community_id)) = PalletId::try_from_sub_account(&account_id) else {
 			return Err(o.clone());
 		};
+		if pallet_id != T::PalletId::get() {
+			return Err(o);
+		}
 		let origin = pallet_communities::Origin::<T>::new(community_id);
 		let j = Junction::try_from(origin).map_err(|_| o)?;
 		Ok(j.into())
-- 
2.43.0


From 760f635ecae7d6326f8bb042673854d5ca274749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:54:16 +0000
Subject: [PATCH 18/18] fix: take only the accounts of communities for
 communities

---
 runtime/kreivo/src/communities/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/runtime/kreivo/src/communities/mod.rs b/runtime/kreivo/src/communities/mod.rs
index e393790..5419223 100644
--- a/runtime/kreivo/src/communities/mod.rs
+++ b/runtime/kreivo/src/communities/mod.rs
@@ -46,7 +46,10 @@ parameter_types! {
 
 morph_types! {
 	pub type AccountToCommunityId: TryMorph = |a: AccountId| -> Result<CommunityId, ()> {
-		PalletId::try_from_sub_account(&a).map(|(_, id)| id).ok_or(())
+		match PalletId::try_from_sub_account(&a) {
+			Some((pallet_id, id)) if pallet_id == CommunityPalletId::get() => Ok(id),
+			_ => Err(()),
+		}
 	};
 }
 type EnsureCommunityAccount = TryMapSuccess<EnsureSigned<AccountId>, AccountToCommunityId>;
-- 
2.43.0

