From 4a3b809cb0399560cd9597c7aa1b53dd29988002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:28 +0000
Subject: [PATCH 01/16] fix: stable pool rounds amounts up when liquidity is
 removed by tokens

---
 ref-exchange/src/stable_swap/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ref-exchange/src/stable_swap/mod.rs b/ref-exchange/src/stable_swap/mod.rs
index 123f4fa..8d41449 100644
--- a/ref-exchange/src/stable_swap/mod.rs
+++ b/ref-exchange/src/stable_swap/mod.rs
@@ -370,8 +370,12 @@ impl StableSwapPool {
         assert_eq!(amounts.len(), n_coins, "{}", ERR64_TOKENS_COUNT_ILLEGAL);
 
         // make amounts into comparable-amounts
-        let c_amounts = self.amounts_to_c_amounts(&amounts);
+        let mut c_amounts = self.amounts_to_c_amounts(&amounts);
         for i in 0..n_coins {
+            // a token finer than the internal precision is rounded against the receiver
+            if self.c_amount_to_amount(c_amounts[i], i) < amounts[i] {
+                c_amounts[i] += 1;
+            }
             self.assert_min_reserve(self.c_amounts[i].checked_sub(c_amounts[i]).unwrap_or(0));
         }
 
-- 
2.43.0


From 3c73fc31bf132ad3b8475d3953a654d4d17c3a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:28 +0000
Subject: [PATCH 02/16] fix: shares locked by a shadow cannot be donated

---
 ref-exchange/src/donation.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ref-exchange/src/donation.rs b/ref-exchange/src/donation.rs
index 8c8193e..19d9c99 100644
--- a/ref-exchange/src/donation.rs
+++ b/ref-exchange/src/donation.rs
@@ -20,6 +20,9 @@ impl Contract {
         let mut pool = self.pools.get(pool_id).expect(ERR85_NO_POOL);
         let donation_amount = amount.map(|v| v.0).unwrap_or(pool.share_balances(&account_id));
         assert!(donation_amount > 0, "Invalid amount");
+        if let Some(record) = self.internal_get_account(&account_id).and_then(|account| account.get_shadow_record(pool_id)) {
+            assert!(donation_amount <= record.free_shares(pool.share_balances(&account_id)), "Not enough free shares");
+        }
         pool.share_transfer(&account_id, &env::current_account_id(), donation_amount);
         if unregister == Some(true) {
             pool.share_unregister(&account_id);
-- 
2.43.0


From fb8490f50ce1263881e3c3aae2a6090289ccf75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:17 +0000
Subject: [PATCH 03/16] fix: settle a shadow action after a liquidation reduced
 its record

---
 ref-exchange/src/shadow_actions.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/ref-exchange/src/shadow_actions.rs b/ref-exchange/src/shadow_actions.rs
index 5fe8916..40f0d3f 100644
--- a/ref-exchange/src/shadow_actions.rs
+++ b/ref-exchange/src/shadow_actions.rs
@@ -38,6 +38,16 @@ pub fn shadow_id_to_pool_id(shadow_id: &String) -> u64 {
     shadow_id.split("-").collect::<Vec<&str>>()[1].parse().expect("Invalid shadow_id")
 }
 
+/// What is left to release of `amount` when a shadow action is settled: a liquidation may have
+/// reduced the record while the action was in flight.
+fn releasable_amount(account: &Account, action: &ShadowActions, pool_id: u64, amount: Balance) -> Balance {
+    let record = account.get_shadow_record(pool_id).unwrap_or_default();
+    match action {
+        ShadowActions::ToFarming | ShadowActions::FromFarming => std::cmp::min(amount, record.shadow_in_farm),
+        ShadowActions::ToBurrowland | ShadowActions::FromBurrowland => std::cmp::min(amount, record.shadow_in_burrow),
+    }
+}
+
 #[near_bindgen]
 impl Contract {
 
@@ -253,13 +263,15 @@ impl Contract {
             let mut account = self.internal_unwrap_account(&sender_id); 
             match action {
                 ShadowActions::ToFarming => {
-                    account.update_shadow_record(pool_id, &ShadowActions::FromFarming, amount.0);
+                    let amount = releasable_amount(&account, &action, pool_id, amount.0);
+                    account.update_shadow_record(pool_id, &ShadowActions::FromFarming, amount);
                     if storage_fee.0 > 0 {
                         Promise::new(sender_id.clone()).transfer(storage_fee.0);
                     }
                 }
                 ShadowActions::ToBurrowland => {
-                    account.update_shadow_record(pool_id, &ShadowActions::FromBurrowland, amount.0);
+                    let amount = releasable_amount(&account, &action, pool_id, amount.0);
+                    account.update_shadow_record(pool_id, &ShadowActions::FromBurrowland, amount);
                     if storage_fee.0 > 0 {
                         Promise::new(sender_id.clone()).transfer(storage_fee.0);
                     }
@@ -273,7 +285,8 @@ impl Contract {
                 ShadowActions::FromFarming | ShadowActions::FromBurrowland => {
                     let prev_storage = env::storage_usage();
                     let mut account = self.internal_unwrap_account(&sender_id); 
-                    account.update_shadow_record(pool_id, &action, amount.0);
+                    let amount = releasable_amount(&account, &action, pool_id, amount.0);
+                    account.update_shadow_record(pool_id, &action, amount);
                     if prev_storage > env::storage_usage() {
                         account.near_amount += (prev_storage - env::storage_usage()) as Balance * env::storage_byte_cost()
                     }
-- 
2.43.0


From c5029529411270e382ebff35c17724f56effcb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:18 +0000
Subject: [PATCH 04/16] fix: refund a failed shadow action only the storage it
 frees

---
 ref-exchange/src/shadow_actions.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/ref-exchange/src/shadow_actions.rs b/ref-exchange/src/shadow_actions.rs
index 40f0d3f..4598bc4 100644
--- a/ref-exchange/src/shadow_actions.rs
+++ b/ref-exchange/src/shadow_actions.rs
@@ -257,27 +257,28 @@ impl Contract {
         sender_id: AccountId,
         pool_id: u64,
         amount: U128,
+        #[allow(unused_variables)]
         storage_fee: U128
     ) -> bool {
         if !is_promise_success() {
+            let prev_storage = env::storage_usage();
             let mut account = self.internal_unwrap_account(&sender_id); 
             match action {
                 ShadowActions::ToFarming => {
                     let amount = releasable_amount(&account, &action, pool_id, amount.0);
                     account.update_shadow_record(pool_id, &ShadowActions::FromFarming, amount);
-                    if storage_fee.0 > 0 {
-                        Promise::new(sender_id.clone()).transfer(storage_fee.0);
-                    }
                 }
                 ShadowActions::ToBurrowland => {
                     let amount = releasable_amount(&account, &action, pool_id, amount.0);
                     account.update_shadow_record(pool_id, &ShadowActions::FromBurrowland, amount);
-                    if storage_fee.0 > 0 {
-                        Promise::new(sender_id.clone()).transfer(storage_fee.0);
-                    }
                 }
                 _ => {}
             }
+            // the record may be kept by another shadow action, then its storage is still in use
+            if prev_storage > env::storage_usage() {
+                let refund = (prev_storage - env::storage_usage()) as Balance * env::storage_byte_cost();
+                Promise::new(sender_id.clone()).transfer(refund);
+            }
             self.internal_save_account(&sender_id, account);
             false
         } else {
-- 
2.43.0


From d55681a8c85e5e5baf2c2fc31f182c9f1d3f47b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:43 +0000
Subject: [PATCH 05/16] fix: return the deposit attached to the release of a
 shadow

---
 ref-exchange/src/shadow_actions.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ref-exchange/src/shadow_actions.rs b/ref-exchange/src/shadow_actions.rs
index 4598bc4..06a3eea 100644
--- a/ref-exchange/src/shadow_actions.rs
+++ b/ref-exchange/src/shadow_actions.rs
@@ -153,6 +153,8 @@ impl Contract {
                     .into()
             }
             ShadowActions::FromFarming | ShadowActions::FromBurrowland => {
+                // needs no storage, what is attached goes back
+                self.internal_check_storage(prev_storage);
                 ext_shadow_receiver::on_remove_shadow(
                         sender_id.clone(),
                         shadow_id,
-- 
2.43.0


From 8c8cbda00460a3ff8146521fa1684188175d84e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:31 +0000
Subject: [PATCH 06/16] fix: credit what the receiver of an echoed transfer
 returns

An instant swap with client_echo sends its output by ft_transfer_call. When
the receiver did not keep all of it, the rest came back to the exchange and
was credited to nobody.
---
 ref-exchange/src/account_deposit.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ref-exchange/src/account_deposit.rs b/ref-exchange/src/account_deposit.rs
index d990c2f..3f8297e 100644
--- a/ref-exchange/src/account_deposit.rs
+++ b/ref-exchange/src/account_deposit.rs
@@ -426,7 +426,14 @@ impl Contract {
         );
         match env::promise_result(0) {
             PromiseResult::NotReady => unreachable!(),
-            PromiseResult::Successful(_) => amount,
+            PromiseResult::Successful(value) => {
+                // ft_transfer_call succeeds with the amount its receiver used, the rest is back here.
+                let used = near_sdk::serde_json::from_slice::<U128>(&value).map_or(amount.0, |v| v.0.min(amount.0));
+                if used < amount.0 {
+                    self.internal_handle_fail_in_withdraw_callback(&sender_id, &token_id, amount.0 - used);
+                }
+                used.into()
+            }
             PromiseResult::Failed => {
                 self.internal_handle_fail_in_withdraw_callback(&sender_id, &token_id, amount.0);
                 0.into()
-- 
2.43.0


From d8119058619b0a72f49cb626e3c237c17d9d130b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:37 +0000
Subject: [PATCH 07/16] fix: liquidity is added only at fresh rates and prices

---
 ref-exchange/src/degen_swap/mod.rs | 2 ++
 ref-exchange/src/rated_swap/mod.rs | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/ref-exchange/src/degen_swap/mod.rs b/ref-exchange/src/degen_swap/mod.rs
index d405ddc..521cade 100644
--- a/ref-exchange/src/degen_swap/mod.rs
+++ b/ref-exchange/src/degen_swap/mod.rs
@@ -278,6 +278,8 @@ impl DegenSwapPool {
         fees: &AdminFees,
         is_view: bool
     ) -> Balance {
+        // the minted shares depend on the prices
+        self.assert_degens_valid();
 
         let n_coins = self.token_account_ids.len();
         assert_eq!(amounts.len(), n_coins, "{}", ERR64_TOKENS_COUNT_ILLEGAL);
diff --git a/ref-exchange/src/rated_swap/mod.rs b/ref-exchange/src/rated_swap/mod.rs
index f011f83..9896e90 100644
--- a/ref-exchange/src/rated_swap/mod.rs
+++ b/ref-exchange/src/rated_swap/mod.rs
@@ -276,6 +276,8 @@ impl RatedSwapPool {
         fees: &AdminFees,
         is_view: bool
     ) -> Balance {
+        // the minted shares depend on the rates
+        self.assert_rates_valid();
 
         let n_coins = self.token_account_ids.len();
         assert_eq!(amounts.len(), n_coins, "{}", ERR64_TOKENS_COUNT_ILLEGAL);
-- 
2.43.0


From 4689e0ad1ec718676d535885d2665a6d5e93e483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:37 +0000
Subject: [PATCH 08/16] fix: account for the time before every change of a
 pool's contents

---
 ref-exchange/src/owner.rs          | 1 +
 ref-exchange/src/shadow_actions.rs | 2 +-
 ref-exchange/src/token_receiver.rs | 3 +++
 3 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/ref-exchange/src/owner.rs b/ref-exchange/src/owner.rs
index 7e01c0a..cd9dab7 100644
--- a/ref-exchange/src/owner.rs
+++ b/ref-exchange/src/owner.rs
@@ -264,6 +264,7 @@ impl Contract {
         self.assert_contract_running();
         let ex_id = env::current_account_id();
         let owner_id = self.owner_id.clone();
+        self.internal_update_unit_share_cumulative_info(pool_id);
         let mut pool = self.pools.get(pool_id).expect(ERR85_NO_POOL);
         let amounts = pool.remove_liquidity(
             &ex_id,
diff --git a/ref-exchange/src/shadow_actions.rs b/ref-exchange/src/shadow_actions.rs
index 06a3eea..da7b3df 100644
--- a/ref-exchange/src/shadow_actions.rs
+++ b/ref-exchange/src/shadow_actions.rs
@@ -183,7 +183,7 @@ impl Contract {
     pub fn on_burrow_liquidation(&mut self, liquidator_account_id: AccountId, liquidation_account_id: AccountId, shadow_id: String, liquidate_share_amount: U128, min_token_amounts: Vec<U128>) {
         assert!(self.burrowland_id == env::predecessor_account_id());
         let pool_id = shadow_id_to_pool_id(&shadow_id);
-        
+        self.internal_update_unit_share_cumulative_info(pool_id);
         let mut pool = self.pools.get(pool_id).expect(ERR85_NO_POOL);
         self.assert_no_frozen_tokens(pool.tokens());
         let total_shares = pool.share_balances(&liquidation_account_id);
diff --git a/ref-exchange/src/token_receiver.rs b/ref-exchange/src/token_receiver.rs
index 246dbbf..67e9bbc 100644
--- a/ref-exchange/src/token_receiver.rs
+++ b/ref-exchange/src/token_receiver.rs
@@ -180,6 +180,9 @@ impl FungibleTokenReceiver for Contract {
                         token_cache.add(&out_token_id, out_amount);
                     }
 
+                    for add_liquidity_info in add_liquidity_infos.iter() {
+                        self.internal_update_unit_share_cumulative_info(add_liquidity_info.pool_id);
+                    }
                     let prev_storage = env::storage_usage();
                     for add_liquidity_info in add_liquidity_infos {
                         let mut pool = self.pools.get(add_liquidity_info.pool_id).expect(ERR85_NO_POOL);
-- 
2.43.0


From 0bc62f8e942da184fd8f8d841802a9310b3075b5 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 01:53:50 +0000
Subject: [PATCH 09/16] fix: a farm with a large reward per session does not
 overflow and lock its seed

---
 ref-farming/src/simple_farm.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ref-farming/src/simple_farm.rs b/ref-farming/src/simple_farm.rs
index 757f25c..f6b815e 100644
--- a/ref-farming/src/simple_farm.rs
+++ b/ref-farming/src/simple_farm.rs
@@ -185,8 +185,8 @@ impl SimpleFarm {
             let mut dis = self.last_distribution.clone();
             // calculate rr according to cur_timestamp
             dis.rr = (to_sec(env::block_timestamp()) - self.terms.start_at) / self.terms.session_interval;
-            let mut reward_added = (dis.rr - self.last_distribution.rr) as u128 
-                * self.terms.reward_per_session;
+            let mut reward_added = ((dis.rr - self.last_distribution.rr) as u128)
+                .saturating_mul(self.terms.reward_per_session);
             if self.last_distribution.undistributed < reward_added {
                 // all undistribution would be distributed this time
                 reward_added = self.last_distribution.undistributed;
-- 
2.43.0


From b80005f9290e6d4900be462d01983b97acf727fd Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 01:53:50 +0000
Subject: [PATCH 10/16] fix: rewards withdrawn in full leave no empty entry
 that keeps the farmer from unregistering

---
 ref-farming/src/farmer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ref-farming/src/farmer.rs b/ref-farming/src/farmer.rs
index 8b34a39..bb494b7 100644
--- a/ref-farming/src/farmer.rs
+++ b/ref-farming/src/farmer.rs
@@ -38,6 +38,9 @@ impl Farmer {
 
     /// Adds amount to the balance of given token
     pub(crate) fn add_reward(&mut self, token: &AccountId, amount: Balance) {
+        if amount == 0 {
+            return;
+        }
         if let Some(x) = self.rewards.get_mut(token) {
             *x = *x + amount;
         } else {
@@ -52,7 +55,7 @@ impl Farmer {
     pub(crate) fn sub_reward(&mut self, token: &AccountId, amount: Balance) -> Balance {
         let value = *self.rewards.get(token).expect(ERR21_TOKEN_NOT_REG);
         assert!(value >= amount, "{}", ERR22_NOT_ENOUGH_TOKENS);
-        if amount == 0 {
+        if amount == 0 || amount == value {
             self.rewards.remove(&token.clone());
             value
         } else {
-- 
2.43.0


From 9867dad96e062e953459732c26afb317f47021be Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 01:53:50 +0000
Subject: [PATCH 11/16] fix: rps records left from an earlier registration do
 not lock stakes

---
 ref-farming/src/farmer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ref-farming/src/farmer.rs b/ref-farming/src/farmer.rs
index bb494b7..89979a9 100644
--- a/ref-farming/src/farmer.rs
+++ b/ref-farming/src/farmer.rs
@@ -101,7 +101,8 @@ impl Farmer {
     pub fn remove_rps(&mut self, farm_id: &FarmId) {
         if self.user_rps.contains_key(farm_id) {
             self.user_rps.remove(farm_id);
-            self.rps_count -= 1;
+            // records left from before the farmer registered again are not counted
+            self.rps_count = self.rps_count.saturating_sub(1);
         }
     }
 
-- 
2.43.0


From 13e2d9ed1db14ab0cd8f6b0743ba9d6c4e7a5da9 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 01:53:50 +0000
Subject: [PATCH 12/16] fix: a farmer without seeds can claim and stake after
 the rps of a farm was reset

---
 ref-farming/src/simple_farm.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ref-farming/src/simple_farm.rs b/ref-farming/src/simple_farm.rs
index f6b815e..b7c46a1 100644
--- a/ref-farming/src/simple_farm.rs
+++ b/ref-farming/src/simple_farm.rs
@@ -296,9 +296,10 @@ impl SimpleFarm {
     ) -> (RPS, Balance) {
 
         self.distribute(total_seeds, silent);
-        // if user_seeds == &0 {
-        //     return (self.last_distribution.rps, 0);
-        // }
+        // without seeds there is nothing to claim, and the user rps may be ahead of a reset one
+        if user_seeds == &0 {
+            return (self.last_distribution.rps, 0);
+        }
 
         let claimed = (
             U256::from(*user_seeds) 
-- 
2.43.0


From a10fb73ed449adcd26fb20d37790b37205e8bf7a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 01:53:50 +0000
Subject: [PATCH 13/16] fix: a failed withdrawal of a farmer who has
 unregistered is restored

---
 ref-farming/src/actions_of_reward.rs | 4 ++++
 ref-farming/src/actions_of_seed.rs   | 8 ++++++++
 2 files changed, 12 insertions(+)

diff --git a/ref-farming/src/actions_of_reward.rs b/ref-farming/src/actions_of_reward.rs
index 00455c3..5b7a780 100644
--- a/ref-farming/src/actions_of_reward.rs
+++ b/ref-farming/src/actions_of_reward.rs
@@ -117,6 +117,10 @@ impl Contract {
                     )
                     .as_bytes(),
                 );
+                // the farmer may have unregistered in the meantime
+                if self.get_farmer_wrapped(&sender_id).is_none() {
+                    self.internal_register_account(&sender_id, 0);
+                }
                 // This reverts the changes from withdraw function.
                 let mut farmer = self.get_farmer(&sender_id);
                 farmer.get_ref_mut().add_reward(&token_id, amount.0);
diff --git a/ref-farming/src/actions_of_seed.rs b/ref-farming/src/actions_of_seed.rs
index d6e5c2d..a6763a6 100644
--- a/ref-farming/src/actions_of_seed.rs
+++ b/ref-farming/src/actions_of_seed.rs
@@ -94,6 +94,10 @@ impl Contract {
                     )
                     .as_bytes(),
                 );
+                // the farmer may have unregistered in the meantime
+                if self.get_farmer_wrapped(&sender_id).is_none() {
+                    self.internal_register_account(&sender_id, 0);
+                }
                 // revert withdraw, equal to deposit, claim reward to update user reward_per_seed
                 self.internal_claim_user_reward_by_seed_id(&sender_id, &seed_id);
                 let mut farm_seed = self.get_seed(&seed_id);
@@ -143,6 +147,10 @@ impl Contract {
                     )
                     .as_bytes(),
                 );
+                // the farmer may have unregistered in the meantime
+                if self.get_farmer_wrapped(&sender_id).is_none() {
+                    self.internal_register_account(&sender_id, 0);
+                }
                 // revert withdraw, equal to deposit, claim reward to update user reward_per_seed
                 self.internal_claim_user_reward_by_seed_id(&sender_id, &seed_id);
                 let mut farm_seed = self.get_seed(&seed_id);
-- 
2.43.0


From 388ae726678a6d4e9f7b30a057788f0915a3f079 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 02:02:08 +0000
Subject: [PATCH 14/16] fix: a farm needs a session interval

---
 ref-farming/src/actions_of_farm.rs | 3 +++
 ref-farming/src/errors.rs          | 1 +
 2 files changed, 4 insertions(+)

diff --git a/ref-farming/src/actions_of_farm.rs b/ref-farming/src/actions_of_farm.rs
index 482bea1..864c49e 100644
--- a/ref-farming/src/actions_of_farm.rs
+++ b/ref-farming/src/actions_of_farm.rs
@@ -44,6 +44,9 @@ impl Contract {
     /// If too much attached - refunds it back.
     fn internal_add_farm(&mut self, terms: &HRSimpleFarmTerms, min_deposit: Balance) -> FarmId {
         
+        // without an interval no round could be told, and nobody could touch the seed anymore
+        assert!(terms.session_interval > 0, "{}", ERR45_INVALID_SESSION_INTERVAL);
+
         // let mut farm_seed = self.get_seed_default(&terms.seed_id, min_deposit);
         let mut farm_seed: VersionedFarmSeed;
         if let Some(fs) = self.get_seed_wrapped(&terms.seed_id) {
diff --git a/ref-farming/src/errors.rs b/ref-farming/src/errors.rs
index 9f1b741..8a95e28 100644
--- a/ref-farming/src/errors.rs
+++ b/ref-farming/src/errors.rs
@@ -23,6 +23,7 @@ pub const ERR41_FARM_NOT_EXIST: &str = "E41: farm not exist";
 pub const ERR42_INVALID_FARM_ID: &str = "E42: invalid farm id";
 pub const ERR43_INVALID_FARM_STATUS: &str = "E43: invalid farm status";
 pub const ERR44_INVALID_FARM_REWARD: &str = "E44: invalid reward token for this farm";
+pub const ERR45_INVALID_SESSION_INTERVAL: &str = "E45: session interval should be greater than zero";
 
 pub const ERR500: &str = "E500: Internal ERROR!";
 
-- 
2.43.0


From 84a7233c5b548acf08f4de0e3dea8e740e9651cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:46 +0000
Subject: [PATCH 15/16] fix: a return of shares settles when the receiver has
 locked some

---
 ref-exchange/src/multi_fungible_token.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/ref-exchange/src/multi_fungible_token.rs b/ref-exchange/src/multi_fungible_token.rs
index 1fe3836..0530b79 100644
--- a/ref-exchange/src/multi_fungible_token.rs
+++ b/ref-exchange/src/multi_fungible_token.rs
@@ -123,6 +123,17 @@ impl Contract {
         transfer_amount
     }
 
+    /// Returns what the given account can transfer.
+    fn internal_mft_available(&self, token_id: String, account_id: &AccountId) -> Balance {
+        let balance = self.internal_mft_balance(token_id.clone(), account_id);
+        if let (TokenOrPool::Pool(pool_id), Some(account)) = (parse_token_id(token_id), self.internal_get_account(account_id)) {
+            if let Some(record) = account.get_shadow_record(pool_id) {
+                return record.free_shares(balance);
+            }
+        }
+        balance
+    }
+
     fn internal_mft_balance(&self, token_id: String, account_id: &AccountId) -> Balance {
         match parse_token_id(token_id) {
             TokenOrPool::Pool(pool_id) => {
@@ -329,7 +340,8 @@ impl Contract {
             PromiseResult::Failed => amount.0,
         };
         if unused_amount > 0 {
-            let receiver_balance = self.internal_mft_balance(token_id.clone(), &receiver_id);
+            // shares the receiver has locked cannot be returned
+            let receiver_balance = self.internal_mft_available(token_id.clone(), &receiver_id);
             if receiver_balance > 0 {
                 let refund_amount = std::cmp::min(receiver_balance, unused_amount);
                 
-- 
2.43.0


From 01142e0d8aad05a11c91a17494f058475bd11998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:46 +0000
Subject: [PATCH 16/16] fix: a return settles when the sender has given up the
 registration or storage for it

---
 ref-exchange/src/account_deposit.rs      | 12 ++++++++++++
 ref-exchange/src/multi_fungible_token.rs |  8 +++++++-
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/ref-exchange/src/account_deposit.rs b/ref-exchange/src/account_deposit.rs
index 3f8297e..4521c42 100644
--- a/ref-exchange/src/account_deposit.rs
+++ b/ref-exchange/src/account_deposit.rs
@@ -141,6 +141,18 @@ impl Account {
         }
     }
 
+    /// Whether the balance of given token can be increased with the storage paid for.
+    pub(crate) fn can_deposit(&self, token: &AccountId) -> bool {
+        if self.tokens.get(token).is_some() {
+            return true;
+        }
+        let mut needed = KEY_PREFIX_ACC + ACC_ID_AS_KEY_STORAGE + U128_STORAGE;
+        if self.legacy_tokens.contains_key(token) {
+            needed -= ACC_ID_AS_KEY_STORAGE + U128_STORAGE;
+        }
+        self.storage_usage() + needed as u128 * env::storage_byte_cost() <= self.near_amount
+    }
+
     /// Deposit amount to the balance of given token.
     pub(crate) fn deposit(&mut self, token: &AccountId, amount: Balance) {
         if amount > 0 {
diff --git a/ref-exchange/src/multi_fungible_token.rs b/ref-exchange/src/multi_fungible_token.rs
index 0530b79..d5afcd9 100644
--- a/ref-exchange/src/multi_fungible_token.rs
+++ b/ref-exchange/src/multi_fungible_token.rs
@@ -345,7 +345,13 @@ impl Contract {
             if receiver_balance > 0 {
                 let refund_amount = std::cmp::min(receiver_balance, unused_amount);
                 
-                let refund_to = if self.accounts.get(&sender_id).is_some() {
+                // the sender may also have given up the registration or the storage needed to take it back
+                let can_refund = match (self.internal_get_account(&sender_id), parse_token_id(token_id.clone())) {
+                    (Some(_), TokenOrPool::Pool(pool_id)) => self.pools.get(pool_id).expect(ERR85_NO_POOL).share_has_registered(&sender_id),
+                    (Some(account), TokenOrPool::Token(token)) => account.can_deposit(&token),
+                    (None, _) => false,
+                };
+                let refund_to = if can_refund {
                     sender_id
                 } else {
                     // If sender's account was deleted, we assume that they have also withdrew all the liquidity from pools.
-- 
2.43.0

