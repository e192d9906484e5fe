From 0ba805a21adb0d3aaa44b56560d46d5ec2421dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:06 +0000
Subject: [PATCH 01/37] fix: encode compact sizes 0xffff and 0xffffffff in
 their shortest form

Bitcoin's compact size uses the three byte form up to and including 0xffff
and the five byte form up to and including 0xffffffff. The formatter switched
one value early, so a transaction with e.g. an input script of 65535 bytes was
given an encoding, and thus a txid, that Bitcoin does not.
---
 crates/bitcoin/src/formatter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/bitcoin/src/formatter.rs b/crates/bitcoin/src/formatter.rs
index e7ad33b..3b34cf9 100644
--- a/crates/bitcoin/src/formatter.rs
+++ b/crates/bitcoin/src/formatter.rs
@@ -103,10 +103,10 @@ impl TryFormat for CompactUint {
     fn try_format<W: Writer>(&self, w: &mut W) -> Result<(), Error> {
         if self.value < 0xfd {
             (self.value as u8).try_format(w)?;
-        } else if self.value < u16::MAX as u64 {
+        } else if self.value <= u16::MAX as u64 {
             0xfd_u8.try_format(w)?;
             (self.value as u16).try_format(w)?;
-        } else if self.value < u32::MAX as u64 {
+        } else if self.value <= u32::MAX as u64 {
             0xfe_u8.try_format(w)?;
             (self.value as u32).try_format(w)?;
         } else {
-- 
2.43.0


From 3dc3f66fa1853a1804872d27857095bf38f110c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:23 +0000
Subject: [PATCH 02/37] fix: reject coinbase heights of more than four bytes
 instead of panicking

parse_transaction copied the height of a version 2 coinbase into a four byte
buffer without checking its length, and computed ends of ranges without
checking for overflow, so crafted bytes made the parser panic.
---
 crates/bitcoin/src/parser.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/crates/bitcoin/src/parser.rs b/crates/bitcoin/src/parser.rs
index e684e66..533a9ea 100644
--- a/crates/bitcoin/src/parser.rs
+++ b/crates/bitcoin/src/parser.rs
@@ -248,14 +248,12 @@ impl BytesParser {
     /// Reads `bytes_count` from the bytes parser and moves the head
     /// Fails if there are not enough bytes to read
     pub(crate) fn read(&mut self, bytes_count: usize) -> Result<Vec<u8>, Error> {
-        let bytes = self
-            .raw_bytes
-            .get(self.position..self.position + bytes_count)
-            .ok_or(Error::EndOfFile)?;
-        self.position = self
+        let end = self
             .position
             .checked_add(bytes_count)
             .ok_or(Error::ArithmeticOverflow)?;
+        let bytes = self.raw_bytes.get(self.position..end).ok_or(Error::EndOfFile)?;
+        self.position = end;
         Ok(Vec::from(bytes))
     }
 }
@@ -359,9 +357,13 @@ fn parse_transaction_input(raw_input: &[u8], version: i32) -> Result<(Transactio
             // version 2 transactions include a height as the first 4 bytes, see
             // https://github.com/bitcoin/bips/blob/master/bip-0034.mediawiki
             let height_size: u64 = parser.parse::<CompactUint>()?.value;
+            let mut buffer = [0u8; 4];
+            // fail if the height does not fit in the buffer
+            if height_size > buffer.len() as u64 {
+                return Err(Error::MalformedTransaction);
+            }
             script_size = script_size.checked_sub(height_size + 1).ok_or(Error::EndOfFile)?;
 
-            let mut buffer = [0u8; 4];
             let bytes = parser.read(height_size as usize)?;
             buffer[..(height_size as usize)]
                 .copy_from_slice(bytes.get(0..(height_size as usize)).ok_or(Error::EndOfFile)?);
-- 
2.43.0


From a4ae31af980c6b73f43e3c82f7dee409e412e634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:41 +0000
Subject: [PATCH 03/37] fix: pay out a swap order only once

---
 contracts/btc_swap/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/contracts/btc_swap/lib.rs b/contracts/btc_swap/lib.rs
index a97ea4f..70695c7 100755
--- a/contracts/btc_swap/lib.rs
+++ b/contracts/btc_swap/lib.rs
@@ -126,6 +126,9 @@ mod btc_swap {
 
             assert!(transferred_sats >= order.min_satoshis);
 
+            // an order pays out only once
+            self.orders.remove(counterparty);
+
             self.env().transfer(caller, order.plancks).unwrap();
         }
     }
-- 
2.43.0


From 6a9398cb441b527e0f4eccc2b0a42a4a45d41dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:38 +0000
Subject: [PATCH 04/37] fix: settle slashes in the staking pool that is
 withdrawn from

Withdrawing from a pool closed by a refund settled, and compared the amount with, the stake in the current pool: nominators of a vault that opted out could not withdraw (or, with a new nomination, could withdraw what had been slashed).
---
 crates/staking/src/lib.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/staking/src/lib.rs b/crates/staking/src/lib.rs
index 61a7583..215fb8a 100644
--- a/crates/staking/src/lib.rs
+++ b/crates/staking/src/lib.rs
@@ -378,7 +378,7 @@ impl<T: Config> Pallet<T> {
         amount: SignedFixedPoint<T>,
     ) -> DispatchResult {
         let nonce = Self::nonce(vault_id);
-        Self::apply_slash(vault_id, nominator_id)?;
+        Self::apply_slash_at_index(nonce, vault_id, nominator_id)?;
 
         checked_add_mut!(Stake<T>, nonce, (vault_id, nominator_id), &amount);
         checked_add_mut!(TotalStake<T>, nonce, vault_id, &amount);
@@ -600,11 +600,11 @@ impl<T: Config> Pallet<T> {
         Ok(cmp::max(Zero::zero(), reward))
     }
 
-    fn apply_slash(
+    fn apply_slash_at_index(
+        nonce: T::Nonce,
         vault_id: &DefaultVaultId<T>,
         nominator_id: &T::AccountId,
     ) -> Result<SignedFixedPoint<T>, DispatchError> {
-        let nonce = Self::nonce(vault_id);
         let stake = Self::stake_at_index(nonce, vault_id, nominator_id);
         let slash_per_token = Self::slash_per_token_at_index(nonce, vault_id);
         let slash_tally = Self::slash_tally_at_index(nonce, vault_id, nominator_id);
@@ -630,7 +630,7 @@ impl<T: Config> Pallet<T> {
         index: Option<T::Nonce>,
     ) -> DispatchResult {
         let nonce = index.unwrap_or(Self::nonce(vault_id));
-        let stake = Self::apply_slash(vault_id, nominator_id)?;
+        let stake = Self::apply_slash_at_index(nonce, vault_id, nominator_id)?;
 
         if amount.is_zero() {
             return Ok(());
@@ -696,7 +696,7 @@ impl<T: Config> Pallet<T> {
         vault_id: &DefaultVaultId<T>,
         nominator_id: &T::AccountId,
     ) -> Result<<SignedFixedPoint<T> as FixedPointNumber>::Inner, DispatchError> {
-        Self::apply_slash(vault_id, nominator_id)?;
+        Self::apply_slash_at_index(nonce, vault_id, nominator_id)?;
 
         let reward = Self::compute_reward_at_index(nonce, currency_id, vault_id, nominator_id)?;
         let reward_as_fixed = SignedFixedPoint::<T>::checked_from_integer(reward).ok_or(Error::<T>::TryIntoIntError)?;
-- 
2.43.0


From 1545b40a27971b1527384bc16f4264336ea62fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:38 +0000
Subject: [PATCH 05/37] fix: compare every chain with the height of the fork
 that is sorted in

After a swap the fork's height was replaced by that of the chain it had just
overtaken, so a fork overtaking several chains of equal height stopped early:
a reorganisation could be missed and the ongoing-fork check looked at the
wrong fork.
---
 crates/btc-relay/src/lib.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/btc-relay/src/lib.rs b/crates/btc-relay/src/lib.rs
index c2937d2..442a281 100644
--- a/crates/btc-relay/src/lib.rs
+++ b/crates/btc-relay/src/lib.rs
@@ -1156,7 +1156,7 @@ impl<T: Config> Pallet<T> {
         let fork_position: u32 = Self::get_chain_position_from_chain_id(fork.chain_id)?;
         // check if the previous element in Chains has a lower block_height
         let mut current_position = fork_position;
-        let mut current_height = fork.max_height;
+        let current_height = fork.max_height;
 
         // swap elements as long as previous block height is smaller
         while current_position > 0 {
@@ -1209,7 +1209,6 @@ impl<T: Config> Pallet<T> {
 
                 // update the current chain to the previous one
                 current_position = prev_position;
-                current_height = prev_height;
             } else {
                 break;
             }
-- 
2.43.0


From 56ffdbd8d6f311addcad4a5b18a4804edd3fc89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:38 +0000
Subject: [PATCH 06/37] fix: find the start of the difficulty period of a fork

A fork that started after the first block of the period does not hold that
block itself: it was looked up in the fork only, so that no fork could cross
a retarget boundary.
---
 crates/btc-relay/src/lib.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/btc-relay/src/lib.rs b/crates/btc-relay/src/lib.rs
index 442a281..b9318ab 100644
--- a/crates/btc-relay/src/lib.rs
+++ b/crates/btc-relay/src/lib.rs
@@ -994,8 +994,14 @@ impl<T: Config> Pallet<T> {
     /// * `chain_id` - BlockChain identifier
     /// * `block_height` - current block height
     fn get_last_retarget_time(chain_id: u32, block_height: u32) -> Result<u64, DispatchError> {
-        let block_chain = Self::get_block_chain_from_id(chain_id)?;
+        let mut block_chain = Self::get_block_chain_from_id(chain_id)?;
         let period_start_height = block_height - DIFFICULTY_ADJUSTMENT_INTERVAL;
+        // a fork that started later shares the first block of the period with the chain it forked off
+        while block_chain.start_height > period_start_height {
+            let fork_start = Self::get_block_header_from_height(&block_chain, block_chain.start_height)?;
+            let fork_parent = Self::get_block_header_from_hash(fork_start.block_header.hash_prev_block)?;
+            block_chain = Self::get_block_chain_from_id(fork_parent.chain_id)?;
+        }
         let last_retarget_header = Self::get_block_header_from_height(&block_chain, period_start_height)?;
         Ok(last_retarget_header.block_header.timestamp as u64)
     }
-- 
2.43.0


From debab3d2cff11a1ab9dc16f111c0c9886796d6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:18 +0000
Subject: [PATCH 07/37] fix: count collateral withdrawn from a stale staking
 pool only once

---
 crates/nomination/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/nomination/src/lib.rs b/crates/nomination/src/lib.rs
index 843afb2..872dbe9 100644
--- a/crates/nomination/src/lib.rs
+++ b/crates/nomination/src/lib.rs
@@ -254,7 +254,10 @@ impl<T: Config> Pallet<T> {
         amount.unlock_on(&vault_id.account_id)?;
         amount.transfer(&vault_id.account_id, &nominator_id)?;
 
-        ext::vault_registry::decrease_total_backing_collateral(&vault_id.currencies, &amount)?;
+        // the collateral in stale staking pools was already deducted when the nominators were kicked
+        if index == nonce {
+            ext::vault_registry::decrease_total_backing_collateral(&vault_id.currencies, &amount)?;
+        }
 
         Self::deposit_event(Event::<T>::WithdrawCollateral {
             vault_id: vault_id.clone(),
-- 
2.43.0


From 9d42a7bd6683a3d9ad92a13d679422518bb5caa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:18 +0000
Subject: [PATCH 08/37] fix: restore the reward stake of a vault that is
 recovered

---
 crates/vault-registry/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/vault-registry/src/lib.rs b/crates/vault-registry/src/lib.rs
index c89e03a..888c916 100644
--- a/crates/vault-registry/src/lib.rs
+++ b/crates/vault-registry/src/lib.rs
@@ -386,6 +386,7 @@ pub mod pallet {
 
             // Vault accepts new issues by default
             vault.set_accept_new_issues(true)?;
+            PoolManager::<T>::on_vault_settings_change(&vault_id)?;
 
             Ok(())
         }
-- 
2.43.0


From 003b48bf80aae871b93a996a5d9abed2e7c732db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:18 +0000
Subject: [PATCH 09/37] fix: allow liquidations when the collateral ceiling was
 lowered

---
 crates/vault-registry/src/lib.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/crates/vault-registry/src/lib.rs b/crates/vault-registry/src/lib.rs
index 888c916..8831de6 100644
--- a/crates/vault-registry/src/lib.rs
+++ b/crates/vault-registry/src/lib.rs
@@ -978,11 +978,12 @@ impl<T: Config> Pallet<T> {
                 amount.lock_on(&to.account_id())?;
             }
             CurrencySource::LiquidatedCollateral(VaultId { ref currencies, .. }) => {
-                Self::try_increase_total_backing_collateral(currencies, amount)?;
+                Self::increase_total_backing_collateral(currencies, amount)?;
                 amount.lock_on(&to.account_id())?;
             }
             CurrencySource::LiquidationVault(ref currencies) => {
-                Self::try_increase_total_backing_collateral(currencies, amount)?;
+                // collateral that is liquidated is not new to the system: the ceiling does not apply
+                Self::increase_total_backing_collateral(currencies, amount)?;
                 let mut liquidation_vault = Self::get_rich_liquidation_vault(currencies);
                 liquidation_vault.increase_collateral(amount)?;
                 amount.lock_on(&to.account_id())?;
@@ -1506,6 +1507,15 @@ impl<T: Config> Pallet<T> {
         let limit = Self::get_collateral_ceiling(currency_pair)?;
         ensure!(new.le(&limit)?, Error::<T>::CurrencyCeilingExceeded);
 
+        Self::increase_total_backing_collateral(currency_pair, amount)
+    }
+
+    fn increase_total_backing_collateral(
+        currency_pair: &DefaultVaultCurrencyPair<T>,
+        amount: &Amount<T>,
+    ) -> DispatchResult {
+        let new = Self::get_total_user_vault_collateral(currency_pair)?.checked_add(&amount)?;
+
         TotalUserVaultCollateral::<T>::insert(currency_pair, new.amount());
 
         Self::deposit_event(Event::<T>::IncreaseLockedCollateral {
-- 
2.43.0


From a48523d895d688db37af9439e0007618190e549b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:18 +0000
Subject: [PATCH 10/37] fix: withdraw the stake of a liquidated vault from the
 capacity pool

---
 crates/vault-registry/src/types.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/vault-registry/src/types.rs b/crates/vault-registry/src/types.rs
index cb57a18..cf9e4b4 100644
--- a/crates/vault-registry/src/types.rs
+++ b/crates/vault-registry/src/types.rs
@@ -624,9 +624,6 @@ impl<T: Config> RichVault<T> {
         liquidation_vault.increase_to_be_redeemed(&self.to_be_redeemed_tokens())?;
         // todo: clear replace collateral?
 
-        // withdraw stake from the reward pool
-        ext::reward::set_stake::<T>(&vault_id, &Amount::zero(vault_id.wrapped_currency()))?;
-
         // Update vault: clear to_be_issued & issued_tokens, but don't touch to_be_redeemed
         let _ = self.update(|v| {
             v.to_be_issued_tokens = Zero::zero();
@@ -635,6 +632,9 @@ impl<T: Config> RichVault<T> {
             Ok(())
         });
 
+        // withdraw stake from the reward & capacity pools
+        PoolManager::<T>::update_reward_stake(&vault_id)?;
+
         Ok(liquidated_collateral_excluding_to_be_redeemed)
     }
 
-- 
2.43.0


From 76e1c4099e6d0a28629919401181849775f37aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:18 +0000
Subject: [PATCH 11/37] fix: report the issuable tokens of a paused vault in
 the wrapped currency

---
 crates/vault-registry/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/vault-registry/src/lib.rs b/crates/vault-registry/src/lib.rs
index 8831de6..d0caaaa 100644
--- a/crates/vault-registry/src/lib.rs
+++ b/crates/vault-registry/src/lib.rs
@@ -1789,7 +1789,7 @@ impl<T: Config> Pallet<T> {
         // make sure the vault accepts new issue requests.
         // NOTE: get_vaults_with_issuable_tokens depends on this check
         if vault.data.status != VaultStatus::Active(true) {
-            Ok(Amount::new(0u32.into(), vault_id.currencies.collateral))
+            Ok(Amount::zero(vault_id.wrapped_currency()))
         } else {
             vault.issuable_tokens()
         }
-- 
2.43.0


From 83fa0b3e6228479ff61cac539842cee5c658915b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:18 +0000
Subject: [PATCH 12/37] fix: reject liquidation redeems of nothing

---
 crates/redeem/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/redeem/src/lib.rs b/crates/redeem/src/lib.rs
index 7d60e1c..3a37eba 100644
--- a/crates/redeem/src/lib.rs
+++ b/crates/redeem/src/lib.rs
@@ -560,6 +560,7 @@ impl<T: Config> Pallet<T> {
         amount_wrapped: BalanceOf<T>,
     ) -> Result<(), DispatchError> {
         let amount_wrapped = Amount::new(amount_wrapped, currencies.wrapped);
+        ensure!(!amount_wrapped.is_zero(), Error::<T>::AmountBelowDustAmount);
 
         let redeemer_balance = ext::treasury::get_balance::<T>(&redeemer, currencies.wrapped);
         ensure!(
-- 
2.43.0


From 392f003d07283a5acf3d10580ab0b4cb7e17e870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:44 +0000
Subject: [PATCH 13/37] fix: let a replace be cancelled when its collateral
 cannot be returned

---
 crates/replace/src/ext.rs | 4 ++++
 crates/replace/src/lib.rs | 7 +++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/replace/src/ext.rs b/crates/replace/src/ext.rs
index 62457cf..73c607a 100644
--- a/crates/replace/src/ext.rs
+++ b/crates/replace/src/ext.rs
@@ -139,6 +139,10 @@ pub(crate) mod vault_registry {
         <vault_registry::Pallet<T>>::is_allowed_to_withdraw_collateral(vault_id, amount)
     }
 
+    pub fn get_vault_collateral<T: crate::Config>(vault_id: &DefaultVaultId<T>) -> Result<Amount<T>, DispatchError> {
+        <vault_registry::Pallet<T>>::compute_collateral(vault_id)
+    }
+
     pub fn calculate_collateral<T: crate::Config>(
         collateral: &Amount<T>,
         numerator: &Amount<T>,
diff --git a/crates/replace/src/lib.rs b/crates/replace/src/lib.rs
index d3a1c90..dde7c38 100644
--- a/crates/replace/src/lib.rs
+++ b/crates/replace/src/lib.rs
@@ -587,9 +587,12 @@ impl<T: Config> Pallet<T> {
         )?;
 
         // if the new_vault locked additional collateral especially for this replace,
-        // release it if it does not cause them to be undercollateralized
+        // release it if they still have it and it does not cause them to be undercollateralized
+        // or to fall below the minimum collateral - neither may block the cancellation
         if !ext::vault_registry::is_vault_liquidated::<T>(&new_vault_id)?
-            && ext::vault_registry::is_allowed_to_withdraw_collateral::<T>(&new_vault_id, Some(collateral.clone()))?
+            && collateral.le(&ext::vault_registry::get_vault_collateral::<T>(&new_vault_id)?)?
+            && ext::vault_registry::is_allowed_to_withdraw_collateral::<T>(&new_vault_id, Some(collateral.clone()))
+                .unwrap_or(false)
         {
             ext::vault_registry::force_withdraw_collateral::<T>(&new_vault_id, &collateral)?;
         }
-- 
2.43.0


From afb8ec3487b684fa08a0b8c29a78d962f7a3d6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:58 +0000
Subject: [PATCH 14/37] fix: complete a redeem even if the promised premium
 exceeds the collateral left

---
 crates/vault-registry/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/vault-registry/src/lib.rs b/crates/vault-registry/src/lib.rs
index d0caaaa..eb9c587 100644
--- a/crates/vault-registry/src/lib.rs
+++ b/crates/vault-registry/src/lib.rs
@@ -1264,7 +1264,9 @@ impl<T: Config> Pallet<T> {
                     redeemed_amount: tokens.amount(),
                 });
             } else {
-                Self::transfer_funds(
+                // the vault may have been slashed since the premium was promised - this
+                // must not prevent the completion of a redeem that has been paid
+                let premium = Self::transfer_funds_saturated(
                     CurrencySource::Collateral(vault_id.clone()),
                     CurrencySource::FreeBalance(redeemer_id.clone()),
                     premium,
-- 
2.43.0


From b44248fc108a6d8f68e8dbb8db0b65adf6e6e383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:23 +0000
Subject: [PATCH 15/37] fix: loans: a liquidation may repay more than the
 rounded total of borrows

---
 crates/loans/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/loans/src/lib.rs b/crates/loans/src/lib.rs
index e1f4d83..8cd3ebd 100644
--- a/crates/loans/src/lib.rs
+++ b/crates/loans/src/lib.rs
@@ -1604,7 +1604,9 @@ impl<T: Config> Pallet<T> {
         // 2.the system reduces borrower's debt
         let account_borrows_new =
             Self::current_borrow_balance(borrower, liquidation_asset_id)?.checked_sub(&repayment)?;
-        let total_borrows_new = Self::total_borrows(liquidation_asset_id).checked_sub(&repayment)?;
+        // Use `saturating_sub` here as in `do_repay_borrow_with_amount`: `total_borrows` is rounded down,
+        // so it may be less than the borrower's debt.
+        let total_borrows_new = Self::total_borrows(liquidation_asset_id).saturating_sub(&repayment)?;
         AccountBorrows::<T>::insert(
             liquidation_asset_id,
             borrower,
-- 
2.43.0


From 88b7223230f69097604a446c9ffef162c9f500c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:23 +0000
Subject: [PATCH 16/37] fix: loans: an account that is short of collateral may
 not borrow amounts that are worth less than one unit

---
 crates/loans/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/loans/src/lib.rs b/crates/loans/src/lib.rs
index 8cd3ebd..5f1a78b 100644
--- a/crates/loans/src/lib.rs
+++ b/crates/loans/src/lib.rs
@@ -1760,7 +1760,11 @@ impl<T: Config> Pallet<T> {
     /// `account`: account that needs a liquidity check
     /// `reduce_amount`: amount to reduce the liquidity (collateral) of the `account` by
     fn ensure_liquidity(account: &T::AccountId, reduce_amount: Amount<T>) -> DispatchResult {
-        if Self::get_account_liquidity(account)?.liquidity().ge(&reduce_amount)? {
+        // Compare the sums rather than `liquidity()`, which is zero for an account that is short: an amount
+        // whose value rounds down to zero must be refused for such an account.
+        let total_collateral_value = Self::total_collateral_value(account)?;
+        let total_borrowed_value = Self::total_borrowed_value(account)?;
+        if total_collateral_value.ge(&total_borrowed_value.checked_add(&reduce_amount)?)? {
             return Ok(());
         }
         Err(Error::<T>::InsufficientLiquidity.into())
-- 
2.43.0


From 4b76c4f45a19b8d24473e4fda355472c23431819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:23 +0000
Subject: [PATCH 17/37] fix: loans: the borrower's reward is settled before a
 liquidation lowers the debt

---
 crates/loans/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/loans/src/lib.rs b/crates/loans/src/lib.rs
index 5f1a78b..403a79e 100644
--- a/crates/loans/src/lib.rs
+++ b/crates/loans/src/lib.rs
@@ -1595,7 +1595,7 @@ impl<T: Config> Pallet<T> {
 
         // update borrow index after accrue interest.
         Self::update_reward_borrow_index(liquidation_asset_id)?;
-        Self::distribute_borrower_reward(liquidation_asset_id, liquidator)?;
+        Self::distribute_borrower_reward(liquidation_asset_id, borrower)?;
 
         // 1.liquidator repays borrower's debt,
         // transfer from liquidator to module account
-- 
2.43.0


From 6b21976042189e008637d9bc21065a231b06843b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:23 +0000
Subject: [PATCH 18/37] fix: loans: update_market checks the new reserved
 factor, not the stored one

---
 crates/loans/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/loans/src/lib.rs b/crates/loans/src/lib.rs
index 403a79e..40ee44c 100644
--- a/crates/loans/src/lib.rs
+++ b/crates/loans/src/lib.rs
@@ -775,7 +775,7 @@ pub mod pallet {
                 Error::<T>::InvalidFactor
             );
             ensure!(
-                market.liquidate_incentive_reserved_factor < Ratio::one(),
+                liquidate_incentive_reserved_factor < Ratio::one(),
                 Error::<T>::InvalidFactor,
             );
             ensure!(supply_cap > Zero::zero(), Error::<T>::InvalidSupplyCap);
-- 
2.43.0


From b4b92a787558defb3bd7ac563f9c7bda1014850d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:37 +0000
Subject: [PATCH 19/37] fix: loans: a jump at zero utilization has a rate

---
 crates/loans/src/rate_model.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/loans/src/rate_model.rs b/crates/loans/src/rate_model.rs
index 80af6aa..03d5695 100644
--- a/crates/loans/src/rate_model.rs
+++ b/crates/loans/src/rate_model.rs
@@ -18,7 +18,7 @@
 use codec::MaxEncodedLen;
 use primitives::{Rate, Ratio};
 use scale_info::TypeInfo;
-use sp_runtime::traits::{CheckedAdd, CheckedDiv, CheckedSub, Saturating};
+use sp_runtime::traits::{CheckedAdd, CheckedDiv, CheckedSub, Saturating, Zero};
 
 use crate::*;
 
@@ -143,7 +143,7 @@ impl JumpModel {
 
     /// Calculates the borrow interest rate of jump model
     pub fn get_borrow_rate(&self, utilization: Ratio) -> Option<Rate> {
-        if utilization <= self.jump_utilization {
+        if utilization <= self.jump_utilization && !self.jump_utilization.is_zero() {
             // utilization * (jump_rate - zero_rate) / jump_utilization + zero_rate
             let result = self
                 .jump_rate
-- 
2.43.0


From f15726370667b5a89ef73608d44cbbb481ecf666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:39 +0000
Subject: [PATCH 20/37] fix: dex-general: a path may not take a pair's reserves
 twice

---
 crates/dex-general/src/swap/mod.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/crates/dex-general/src/swap/mod.rs b/crates/dex-general/src/swap/mod.rs
index ddddf6c..6f61256 100644
--- a/crates/dex-general/src/swap/mod.rs
+++ b/crates/dex-general/src/swap/mod.rs
@@ -558,6 +558,27 @@ impl<T: Config> Pallet<T> {
 
             let pair_account = Self::pair_account_id(asset_0, asset_1);
 
+            // the amounts were computed from the reserves before the first swap of the path,
+            // check K again with the current ones: the path may visit a pair more than once.
+            let reserve_in = T::MultiCurrency::free_balance(input, &pair_account);
+            let reserve_out = T::MultiCurrency::free_balance(output, &pair_account);
+            let reserve_in_before_swap = reserve_in.checked_sub(amounts[i]).ok_or(Error::<T>::Overflow)?;
+            let reserve_out_after_swap = reserve_out
+                .checked_sub(amounts[i + 1])
+                .ok_or(Error::<T>::InsufficientPairReserve)?;
+
+            let invariant_before_swap: U256 = U256::from(reserve_in_before_swap)
+                .checked_mul(U256::from(reserve_out))
+                .ok_or(Error::<T>::Overflow)?;
+            let invariant_after_swap: U256 = U256::from(reserve_in)
+                .checked_mul(U256::from(reserve_out_after_swap))
+                .ok_or(Error::<T>::Overflow)?;
+
+            ensure!(
+                invariant_after_swap >= invariant_before_swap,
+                Error::<T>::InvariantCheckFailed,
+            );
+
             if i < (amounts.len() - 2) {
                 let mid_account = Self::pair_account_id(output, path[i + 2]);
                 Self::pair_swap(asset_0, asset_1, &pair_account, amount0_out, amount1_out, &mid_account)?;
-- 
2.43.0


From 1b55b04a64ac301e9f5c0484a459d71183980be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:25 +0000
Subject: [PATCH 21/37] fix: dex-general: the protocol fee is minted before the
 shares of a removal are computed

---
 crates/dex-general/src/swap/mod.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/crates/dex-general/src/swap/mod.rs b/crates/dex-general/src/swap/mod.rs
index 6f61256..fb312da 100644
--- a/crates/dex-general/src/swap/mod.rs
+++ b/crates/dex-general/src/swap/mod.rs
@@ -157,14 +157,6 @@ impl<T: Config> Pallet<T> {
                 let reserve_0 = T::MultiCurrency::free_balance(asset_0, &parameter.pair_account);
                 let reserve_1 = T::MultiCurrency::free_balance(asset_1, &parameter.pair_account);
 
-                let amount_0 = Self::calculate_share_amount(remove_liquidity, parameter.total_supply, reserve_0);
-                let amount_1 = Self::calculate_share_amount(remove_liquidity, parameter.total_supply, reserve_1);
-
-                ensure!(
-                    amount_0 >= amount_0_min && amount_1 >= amount_1_min,
-                    Error::<T>::InsufficientTargetAmount
-                );
-
                 let lp_asset_id = Self::lp_pairs(pair).ok_or(Error::<T>::InsufficientAssetBalance)?;
 
                 let mint_fee = Self::mint_protocol_fee(reserve_0, reserve_1, asset_0, asset_1, parameter.total_supply)?;
@@ -178,6 +170,14 @@ impl<T: Config> Pallet<T> {
                     }
                 }
 
+                let amount_0 = Self::calculate_share_amount(remove_liquidity, parameter.total_supply, reserve_0);
+                let amount_1 = Self::calculate_share_amount(remove_liquidity, parameter.total_supply, reserve_1);
+
+                ensure!(
+                    amount_0 >= amount_0_min && amount_1 >= amount_1_min,
+                    Error::<T>::InsufficientTargetAmount
+                );
+
                 parameter.total_supply = parameter
                     .total_supply
                     .checked_sub(remove_liquidity)
-- 
2.43.0


From f0d577080729ac37a20d4f6f2d3e1b610e051366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:25 +0000
Subject: [PATCH 22/37] fix: dex-general: BootstrapCreated reports the
 capacities in their order

---
 crates/dex-general/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/dex-general/src/lib.rs b/crates/dex-general/src/lib.rs
index 3547be2..55c6ff0 100644
--- a/crates/dex-general/src/lib.rs
+++ b/crates/dex-general/src/lib.rs
@@ -833,8 +833,8 @@ pub mod pallet {
                 asset_1: pair.1,
                 total_supply_0: target_supply_0,
                 total_supply_1: target_supply_1,
-                capacity_supply_0: capacity_supply_1,
-                capacity_supply_1: capacity_supply_0,
+                capacity_supply_0,
+                capacity_supply_1,
                 end,
             });
             Ok(())
-- 
2.43.0


From 59e2fcce047f86427db109ea4a90a4a351dda76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:08 +0000
Subject: [PATCH 23/37] fix: swap from a base pool asks for the index and
 honours minimum and recipient when its shares are bought

---
 crates/dex-stable/src/lib.rs | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/crates/dex-stable/src/lib.rs b/crates/dex-stable/src/lib.rs
index 18cfb5f..23462fa 100644
--- a/crates/dex-stable/src/lib.rs
+++ b/crates/dex-stable/src/lib.rs
@@ -1406,24 +1406,26 @@ impl<T: Config> Pallet<T> {
         let base_pool_len = base_pool.currency_ids.len();
 
         let mut base_amounts = vec![Balance::default(); base_pool_len];
-        base_amounts[in_index as usize] = dx;
+        *base_amounts
+            .get_mut(in_index as usize)
+            .ok_or(Error::<T>::CurrencyIndexOutRange)? = dx;
 
-        let base_lp_amount = Self::inner_add_liquidity(who, base_pool_id, &base_amounts, 0, who)?;
-
-        let mut out_amount: Balance = 0;
-        if base_pool_lp_currency_in_meta_index != (out_index as usize) {
-            out_amount = Self::inner_swap(
-                who,
-                meta_pool_id,
-                base_pool_lp_currency_in_meta_index,
-                out_index as usize,
-                base_lp_amount,
-                min_dy,
-                to,
-            )?;
+        if base_pool_lp_currency_in_meta_index == (out_index as usize) {
+            // the lp currency of the base pool itself is asked for
+            return Self::inner_add_liquidity(who, base_pool_id, &base_amounts, min_dy, to);
         }
 
-        Ok(out_amount)
+        let base_lp_amount = Self::inner_add_liquidity(who, base_pool_id, &base_amounts, 0, who)?;
+
+        Self::inner_swap(
+            who,
+            meta_pool_id,
+            base_pool_lp_currency_in_meta_index,
+            out_index as usize,
+            base_lp_amount,
+            min_dy,
+            to,
+        )
     }
 
     fn inner_swap_pool_to_base(
-- 
2.43.0


From c183317b7f02237758ea9a23224af90bd93acffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:43 +0000
Subject: [PATCH 24/37] fix: a swap within the base pool through a meta pool
 reports and pays what came out

---
 crates/dex-stable/src/meta_pool.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/crates/dex-stable/src/meta_pool.rs b/crates/dex-stable/src/meta_pool.rs
index 4ccaa4f..54b19ee 100644
--- a/crates/dex-stable/src/meta_pool.rs
+++ b/crates/dex-stable/src/meta_pool.rs
@@ -448,19 +448,15 @@ impl<T: Config> Pallet<T> {
             ensure!(dy >= min_out_amount, Error::<T>::AmountSlippage);
         } else {
             // swap in base pool
-            dy = T::MultiCurrency::free_balance(currency_to, &meta_pool.info.account);
-            Self::inner_swap(
+            dy = Self::inner_swap(
                 &meta_pool.info.account,
                 meta_pool.base_pool_id,
                 currency_index_from - base_lp_currency_index,
                 currency_index_to - base_lp_currency_index,
                 dx,
                 min_out_amount,
-                to,
+                &meta_pool.info.account,
             )?;
-            dy = T::MultiCurrency::free_balance(currency_to, &meta_pool.info.account)
-                .checked_sub(dy)
-                .ok_or(Error::<T>::Arithmetic)?;
         }
 
         T::MultiCurrency::transfer(currency_to, &meta_pool.info.account, to, dy)?;
-- 
2.43.0


From acc23375cec474cefad3ee3191ded13810eef159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:43 +0000
Subject: [PATCH 25/37] fix: the estimate of a meta pool's shares refuses a
 wrong number of amounts

---
 crates/dex-stable/src/meta_pool.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/dex-stable/src/meta_pool.rs b/crates/dex-stable/src/meta_pool.rs
index 54b19ee..45d41ba 100644
--- a/crates/dex-stable/src/meta_pool.rs
+++ b/crates/dex-stable/src/meta_pool.rs
@@ -632,6 +632,10 @@ impl<T: Config> Pallet<T> {
         amounts: Vec<Balance>,
         deposit: bool,
     ) -> Result<Balance, DispatchError> {
+        ensure!(
+            meta_pool.info.currency_ids.len() == amounts.len(),
+            Error::<T>::MismatchParameter
+        );
         let base_virtual_price = Self::meta_pool_base_virtual_price(meta_pool).ok_or(Error::<T>::Arithmetic)?;
         let mut new_balances = meta_pool.info.balances.clone();
         let token_multipliers = meta_pool.info.token_multipliers.clone();
-- 
2.43.0


From 90129a4dd70a56443dcfc8326d4bc865d1214d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:10 +0000
Subject: [PATCH 26/37] fix: quotes for meta pools use the price of the base
 pool's shares

---
 crates/dex-stable/src/meta_pool.rs | 4 ++--
 crates/dex-stable/src/traits.rs    | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/dex-stable/src/meta_pool.rs b/crates/dex-stable/src/meta_pool.rs
index 45d41ba..ce82f6d 100644
--- a/crates/dex-stable/src/meta_pool.rs
+++ b/crates/dex-stable/src/meta_pool.rs
@@ -528,7 +528,7 @@ impl<T: Config> Pallet<T> {
         Some(xp)
     }
 
-    fn meta_pool_base_virtual_price(
+    pub(crate) fn meta_pool_base_virtual_price(
         meta_pool: &MetaPool<T::PoolId, T::CurrencyId, T::AccountId, T::PoolCurrencyLimit, T::PoolCurrencySymbolLimit>,
     ) -> Option<Balance> {
         let now = T::TimeProvider::now().as_secs();
@@ -811,7 +811,7 @@ impl<T: Config> Pallet<T> {
             .checked_sub(One::one())
             .ok_or(Error::<T>::Arithmetic)?;
 
-        let base_virtual_price = Self::calculate_meta_virtual_price(&meta_pool).ok_or(Error::<T>::Arithmetic)?;
+        let base_virtual_price = Self::meta_pool_base_virtual_price(&meta_pool).ok_or(Error::<T>::Arithmetic)?;
 
         let base_pool_currency_len = meta_pool.base_currencies.len();
 
diff --git a/crates/dex-stable/src/traits.rs b/crates/dex-stable/src/traits.rs
index ad8a805..39ebe86 100644
--- a/crates/dex-stable/src/traits.rs
+++ b/crates/dex-stable/src/traits.rs
@@ -126,7 +126,7 @@ impl<T: Config> StableAmmApi<T::PoolId, T::CurrencyId, T::AccountId, Balance> fo
             return match pool {
                 Pool::Base(bp) => Self::calculate_base_swap_amount(&bp, i, j, in_balance),
                 Pool::Meta(mp) => {
-                    let virtual_price = Self::calculate_meta_virtual_price(&mp)?;
+                    let virtual_price = Self::meta_pool_base_virtual_price(&mp)?;
                     let res = Self::calculate_meta_swap_amount(&mp, i, j, in_balance, virtual_price)?;
                     Some(res.0)
                 }
-- 
2.43.0


From 04998a6518b45b9adca6badd8d7e70ddd2e39c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:10 +0000
Subject: [PATCH 27/37] fix: the currency of a stable pool by index is told

---
 crates/dex-stable/src/rpc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/dex-stable/src/rpc.rs b/crates/dex-stable/src/rpc.rs
index e15701b..9c4b4a6 100644
--- a/crates/dex-stable/src/rpc.rs
+++ b/crates/dex-stable/src/rpc.rs
@@ -56,7 +56,7 @@ impl<T: Config> Pallet<T> {
     pub fn get_currency(pool_id: T::PoolId, index: u32) -> Option<T::CurrencyId> {
         if let Some(pool) = Self::pools(pool_id) {
             let currency_ids = pool.get_currency_ids();
-            if currency_ids.len() < index as usize {
+            if (index as usize) < currency_ids.len() {
                 return Some(currency_ids[index as usize]);
             }
         };
-- 
2.43.0


From fcbf63a4b41c313dd0611309b99bbc8ee776cb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:19 +0000
Subject: [PATCH 28/37] fix: slope changes are subtracted when a lock ends, the
 total supply of votes follows the locks

---
 crates/escrow/src/lib.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/escrow/src/lib.rs b/crates/escrow/src/lib.rs
index 31cbf2b..6aed037 100644
--- a/crates/escrow/src/lib.rs
+++ b/crates/escrow/src/lib.rs
@@ -442,7 +442,7 @@ impl<T: Config> Pallet<T> {
             };
             let height_diff = T::BlockNumberToBalance::convert(t_i.saturating_sub(last_checkpoint));
             last_point.bias.saturating_reduce(last_point.slope * height_diff);
-            last_point.slope.saturating_accrue(d_slope);
+            last_point.slope.saturating_reduce(d_slope);
             last_checkpoint = t_i;
             last_point.ts = t_i;
             epoch.saturating_inc();
@@ -464,16 +464,16 @@ impl<T: Config> Pallet<T> {
 
         // schedule the slope change
         if old_locked.end > now {
-            old_dslope.saturating_accrue(u_old.slope);
+            old_dslope.saturating_reduce(u_old.slope);
             if new_locked.end == old_locked.end {
                 // new deposit
-                old_dslope = old_dslope.saturating_sub(u_new.slope);
+                old_dslope.saturating_accrue(u_new.slope);
             }
             <SlopeChanges<T>>::insert(old_locked.end, old_dslope);
         }
 
         if new_locked.end > now && new_locked.end > old_locked.end {
-            new_dslope = new_dslope.saturating_sub(u_new.slope);
+            new_dslope.saturating_accrue(u_new.slope);
             <SlopeChanges<T>>::insert(new_locked.end, new_dslope);
         }
 
@@ -606,7 +606,7 @@ impl<T: Config> Pallet<T> {
                 break;
             }
 
-            last_point.slope.saturating_accrue(d_slope);
+            last_point.slope.saturating_reduce(d_slope);
             last_point.ts = t_i;
         }
 
-- 
2.43.0


From ee8f1df330ddb2f58352f2e1e239002331df50e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:45 +0000
Subject: [PATCH 29/37] fix: a farming schedule is not funded by rewards that
 others have earned

---
 crates/farming/src/lib.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/crates/farming/src/lib.rs b/crates/farming/src/lib.rs
index 17afa32..c7bfae9 100644
--- a/crates/farming/src/lib.rs
+++ b/crates/farming/src/lib.rs
@@ -43,7 +43,7 @@ use primitives::CurrencyId;
 use reward::RewardsApi;
 use scale_info::TypeInfo;
 use sp_runtime::{
-    traits::{AccountIdConversion, AtLeast32Bit, CheckedDiv, Saturating, Zero},
+    traits::{AccountIdConversion, AtLeast32Bit, CheckedAdd, CheckedDiv, Saturating, Zero},
     ArithmeticError, DispatchError,
 };
 use sp_std::vec::Vec;
@@ -232,8 +232,14 @@ pub mod pallet {
                     .period_count
                     .checked_add(period_count)
                     .ok_or(ArithmeticError::Overflow)?;
-                let total_free = T::MultiCurrency::free_balance(reward_currency_id, &pool_account_id);
-                let total_per_period = total_free.checked_div(&total_period_count.into()).unwrap_or_default();
+                // the account also holds rewards that are distributed but not yet claimed
+                let total_amount = reward_schedule
+                    .total()
+                    .and_then(|remaining| remaining.checked_add(&amount))
+                    .ok_or(ArithmeticError::Overflow)?;
+                let total_per_period = total_amount
+                    .checked_div(&total_period_count.into())
+                    .ok_or(ArithmeticError::DivisionByZero)?;
 
                 reward_schedule.period_count = total_period_count;
                 reward_schedule.per_period = total_per_period;
-- 
2.43.0


From 45bdc8d7ba12980eec965f2e3c1edf6b1ea71b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:45 +0000
Subject: [PATCH 30/37] fix: removing a farming schedule leaves earned rewards
 claimable

---
 crates/farming/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/farming/src/lib.rs b/crates/farming/src/lib.rs
index c7bfae9..4bbc5ca 100644
--- a/crates/farming/src/lib.rs
+++ b/crates/farming/src/lib.rs
@@ -267,14 +267,16 @@ pub mod pallet {
             ensure_root(origin)?;
             pool_currency_id.sort();
 
-            // transfer unspent rewards to treasury
+            // transfer unspent rewards to treasury, the account also
+            // holds rewards that are distributed but not yet claimed
+            let reward_schedule = RewardSchedules::<T>::get(pool_currency_id, reward_currency_id);
             let treasury_account_id = T::TreasuryAccountId::get();
             let pool_account_id = Self::pool_account_id(&pool_currency_id);
             T::MultiCurrency::transfer(
                 reward_currency_id,
                 &pool_account_id,
                 &treasury_account_id,
-                T::MultiCurrency::free_balance(reward_currency_id, &pool_account_id),
+                reward_schedule.total().ok_or(ArithmeticError::Overflow)?,
             )?;
 
             RewardSchedules::<T>::remove(pool_currency_id, reward_currency_id);
-- 
2.43.0


From c7647c3b262c4953cbd854b7d4c7b9bfc70a445f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:45 +0000
Subject: [PATCH 31/37] fix: unpausing a call that is only paused by its pallet
 is refused

---
 crates/tx-pause/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/tx-pause/src/lib.rs b/crates/tx-pause/src/lib.rs
index 037daef..bd848f6 100644
--- a/crates/tx-pause/src/lib.rs
+++ b/crates/tx-pause/src/lib.rs
@@ -288,7 +288,9 @@ impl<T: Config> Pallet<T> {
 
     /// Ensure that this call can be un-paused.
     pub fn ensure_can_unpause(full_name: &FullNameOf<T>) -> Result<(), Error<T>> {
-        if Self::is_paused(&full_name) {
+        // NOTE: a call that is only paused as part of its pallet has no entry
+        // of its own, and a paused call may since have been whitelisted.
+        if <PausedCalls<T>>::contains_key(full_name) {
             // SAFETY: Everything that is paused, can be un-paused.
             Ok(())
         } else {
-- 
2.43.0


From 60a411619905156a95bb221bcf62c53118837dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:45 +0000
Subject: [PATCH 32/37] fix: clearing the public proposals refunds their
 deposits

---
 crates/democracy/src/lib.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/democracy/src/lib.rs b/crates/democracy/src/lib.rs
index ceb7c63..111e5fe 100644
--- a/crates/democracy/src/lib.rs
+++ b/crates/democracy/src/lib.rs
@@ -545,7 +545,16 @@ pub mod pallet {
         #[pallet::weight(T::WeightInfo::clear_public_proposals())]
         pub fn clear_public_proposals(origin: OriginFor<T>) -> DispatchResult {
             ensure_root(origin)?;
-            <PublicProps<T>>::kill();
+            for (prop_index, proposal, _) in <PublicProps<T>>::take() {
+                // since we placed a `hold` on propose
+                T::Preimages::drop(&proposal);
+                // refund the deposits, nobody else will
+                if let Some((whos, amount)) = DepositOf::<T>::take(prop_index) {
+                    for who in whos.into_iter() {
+                        T::Currency::unreserve(&who, amount);
+                    }
+                }
+            }
             Ok(())
         }
 
-- 
2.43.0


From 575e70b58d9ee65c575769c9f4ddb87f8c729b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:01 +0000
Subject: [PATCH 33/37] fix: the size of an OP_RETURN output counts its value
 and script length

---
 crates/bitcoin/src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/bitcoin/src/utils.rs b/crates/bitcoin/src/utils.rs
index 5d1ab42..fb20362 100644
--- a/crates/bitcoin/src/utils.rs
+++ b/crates/bitcoin/src/utils.rs
@@ -17,7 +17,7 @@ const P2SH_OUT_SIZE: u32 = 32;
 const P2WPKH_OUT_SIZE: u32 = 31;
 const PUBKEY_SIZE: u32 = 33;
 const SIGNATURE_SIZE: u32 = 72;
-const OP_RETURN_OUT_SIZE: u32 = 34;
+const OP_RETURN_OUT_SIZE: u32 = 43; // value (8) + script length (1) + script (34)
 const P2WPKH_IN_WEIGHT: u32 = 271; // 67.75 * 4;
 
 /// Computes Bitcoin's double SHA256 hash over a LE byte encoded input
-- 
2.43.0


From da7fad93d4edfbdb14737a0a33db8ade304bc2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:16 +0000
Subject: [PATCH 34/37] fix: lengths of scripts and counts are sized as they
 are written

---
 crates/bitcoin/src/utils.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/bitcoin/src/utils.rs b/crates/bitcoin/src/utils.rs
index fb20362..f227d40 100644
--- a/crates/bitcoin/src/utils.rs
+++ b/crates/bitcoin/src/utils.rs
@@ -128,7 +128,7 @@ pub struct TransactionOutputMetadata {
 }
 
 const fn script_length_size(length: u32) -> u32 {
-    if length < 75 {
+    if length <= 75 {
         1
     } else if length <= 255 {
         2
@@ -142,9 +142,9 @@ const fn script_length_size(length: u32) -> u32 {
 const fn var_int_size(length: u32) -> u32 {
     if length < 253 {
         1
-    } else if length < 65535 {
+    } else if length <= 65535 {
         3
-    } else if length < 4294967295 {
+    } else if length <= 4294967295 {
         5
     } else {
         9
-- 
2.43.0


From 84a5a20fcbc756f2408c7304f387de6acfd135f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:33 +0000
Subject: [PATCH 35/37] fix: a block reward which cannot be credited stays in
 the annuity

The provider of the vaults' block rewards transfers before it credits, and
crediting fails while no vault has capacity: outside of a transaction the
transfer remained, and the reward was stranded in the fee pool.
---
 crates/annuity/src/lib.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/annuity/src/lib.rs b/crates/annuity/src/lib.rs
index e44db09..b155147 100644
--- a/crates/annuity/src/lib.rs
+++ b/crates/annuity/src/lib.rs
@@ -158,7 +158,13 @@ impl<T: Config<I>, I: 'static> Pallet<T, I> {
     pub(crate) fn begin_block(_height: BlockNumberFor<T>) -> DispatchResult {
         let reward_per_block = Self::min_reward_per_block();
         Self::deposit_event(Event::<T, I>::BlockReward(reward_per_block));
-        T::BlockRewardProvider::distribute_block_reward(&Self::account_id(), reward_per_block)
+        Self::try_distribute_block_reward(reward_per_block)
+    }
+
+    // a reward which cannot be credited must not leave the account
+    #[transactional]
+    fn try_distribute_block_reward(amount: BalanceOf<T, I>) -> DispatchResult {
+        T::BlockRewardProvider::distribute_block_reward(&Self::account_id(), amount)
     }
 
     pub fn update_reward_per_block() {
-- 
2.43.0


From f36832d1b9c2750add71c7570e09ec95c0be3b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:35 +0000
Subject: [PATCH 36/37] fix: a contract passing a malformed address gets an
 error

The chain extension unwrapped the decoding of bytes the contract supplies,
so that any contract could panic the runtime.
---
 parachain/runtime/kintsugi/src/contracts.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parachain/runtime/kintsugi/src/contracts.rs b/parachain/runtime/kintsugi/src/contracts.rs
index 0c5d778..443d2b0 100644
--- a/parachain/runtime/kintsugi/src/contracts.rs
+++ b/parachain/runtime/kintsugi/src/contracts.rs
@@ -230,7 +230,8 @@ impl ChainExtension<Runtime> for BtcRelayExtension {
                 let (unchecked_proof, btc_address): (FullTransactionProof, Vec<u8>) =
                     env.read_as_unbounded(env.in_len())?;
 
-                let btc_address = Decode::decode(&mut &btc_address[..]).unwrap();
+                let btc_address = Decode::decode(&mut &btc_address[..])
+                    .map_err(|_| DispatchError::Other("Invalid Bitcoin address"))?;
                 let sats: Option<u64> =
                     btc_relay::Pallet::<Runtime>::get_and_verify_issue_payment::<Balance>(unchecked_proof, btc_address)
                         .ok()
-- 
2.43.0


From 24c5402b1655e34c4db35711ecd562ccf466c23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:04 +0000
Subject: [PATCH 37/37] fix: the precise amplification of a stable pool keeps
 its hundredths

---
 parachain/runtime/interlay/src/lib.rs | 2 +-
 parachain/runtime/kintsugi/src/lib.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/parachain/runtime/interlay/src/lib.rs b/parachain/runtime/interlay/src/lib.rs
index 90daff8..3b953b7 100644
--- a/parachain/runtime/interlay/src/lib.rs
+++ b/parachain/runtime/interlay/src/lib.rs
@@ -1663,7 +1663,7 @@ impl_runtime_apis! {
         }
 
         fn get_a_precise(pool_id: StablePoolId) -> Balance {
-            DexStable::get_a(pool_id) * 100
+            DexStable::get_a_precise_by_id(pool_id)
         }
 
         fn get_currencies(pool_id: StablePoolId) -> Vec<CurrencyId> {
diff --git a/parachain/runtime/kintsugi/src/lib.rs b/parachain/runtime/kintsugi/src/lib.rs
index e689706..e30d92a 100644
--- a/parachain/runtime/kintsugi/src/lib.rs
+++ b/parachain/runtime/kintsugi/src/lib.rs
@@ -1928,7 +1928,7 @@ impl_runtime_apis! {
         }
 
         fn get_a_precise(pool_id: StablePoolId) -> Balance {
-            DexStable::get_a(pool_id) * 100
+            DexStable::get_a_precise_by_id(pool_id)
         }
 
         fn get_currencies(pool_id: StablePoolId) -> Vec<CurrencyId> {
-- 
2.43.0

