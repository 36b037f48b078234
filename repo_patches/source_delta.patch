From 45549dc2d78545c5a6e064fbe71a2467bf20d6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:08 +0000
Subject: [PATCH 01/13] fix: stakes bonded after a distribution no longer make
 reward calculation overflow

calculate_pending_rewards subtracted the stake's timestamp from the distribution's
timestamp; for a stake bonded after an unclaimed distribution that underflows and
traps, so query_withdrawable_rewards and withdraw_rewards failed for that user.
---
 contracts/stake/src/distribution.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/contracts/stake/src/distribution.rs b/contracts/stake/src/distribution.rs
index 4587ce7..2803236 100644
--- a/contracts/stake/src/distribution.rs
+++ b/contracts/stake/src/distribution.rs
@@ -100,8 +100,10 @@ pub fn calculate_pending_rewards(
                     for stake in user_info.stakes.iter() {
                         // Calculate the user's share of the total staked amount at the time
                         let user_share = stake.stake as u128 * daily_reward / total_staked;
-                        let stake_age_days =
-                            (staking_reward_day - stake.stake_timestamp) / SECONDS_PER_DAY;
+                        // a stake bonded after the distribution has no age at that point
+                        let stake_age_days = staking_reward_day
+                            .saturating_sub(stake.stake_timestamp)
+                            / SECONDS_PER_DAY;
                         let multiplier = if stake_age_days >= 60 {
                             Decimal::one()
                         } else {
-- 
2.43.0


From 82b75a32d5189a3eff4f30ed3e5e70cd233df9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:15 +0000
Subject: [PATCH 02/13] fix: keep every distribution of rewards made in the
 same ledger close

distribute_rewards keyed distributions by timestamp only and overwrote: a second
distribution of the same token in the same ledger lost the first one's rewards, and a
later distribution of any token replaced the total staked that earlier ones of that
ledger are shared by, so that a stake unbonded in between could be paid twice.
---
 contracts/stake/src/contract.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/contracts/stake/src/contract.rs b/contracts/stake/src/contract.rs
index c767a81..63e4716 100644
--- a/contracts/stake/src/contract.rs
+++ b/contracts/stake/src/contract.rs
@@ -242,11 +242,15 @@ impl StakingTrait for Staking {
         let total_staked_amount = get_total_staked_counter(&env);
 
         let mut total_staked_history = get_total_staked_history(&env);
-        total_staked_history.set(current_timestamp, total_staked_amount as u128);
-        save_total_staked_history(&env, total_staked_history);
+        // the first distribution of a ledger close fixes the total the others are shared by
+        if !total_staked_history.contains_key(current_timestamp) {
+            total_staked_history.set(current_timestamp, total_staked_amount as u128);
+            save_total_staked_history(&env, total_staked_history);
+        }
 
         let mut reward_history = get_reward_history(&env, &reward_token);
-        reward_history.set(current_timestamp, amount as u128);
+        let already_distributed = reward_history.get(current_timestamp).unwrap_or(0);
+        reward_history.set(current_timestamp, already_distributed + amount as u128);
         save_reward_history(&env, &reward_token, reward_history);
 
         token_contract::Client::new(&env, &reward_token).transfer(
-- 
2.43.0


From 4986232774ba9ca35490a596fc075559f60cda0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:03 +0000
Subject: [PATCH 03/13] fix: the stable pool's update_config requires the
 admin's authorisation

---
 contracts/pool_stable/src/contract.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/contracts/pool_stable/src/contract.rs b/contracts/pool_stable/src/contract.rs
index 6948dd4..06873be 100644
--- a/contracts/pool_stable/src/contract.rs
+++ b/contracts/pool_stable/src/contract.rs
@@ -570,6 +570,8 @@ impl StableLiquidityPoolTrait for StableLiquidityPool {
         max_allowed_slippage_bps: Option<i64>,
         max_allowed_spread_bps: Option<i64>,
     ) {
+        sender.require_auth();
+
         if sender != utils::get_admin(&env) {
             log!(&env, "Pool Stable: UpdateConfig: Unauthorized");
             panic_with_error!(&env, ContractError::Unauthorized);
-- 
2.43.0


From c9fbc3dd1f69c4868d5cfb70250a0c1ed2b51b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:33 +0000
Subject: [PATCH 04/13] fix: stable swaps between tokens with different
 decimals are priced in each token's own decimals

---
 contracts/pool_stable/src/contract.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/contracts/pool_stable/src/contract.rs b/contracts/pool_stable/src/contract.rs
index 06873be..8877bcc 100644
--- a/contracts/pool_stable/src/contract.rs
+++ b/contracts/pool_stable/src/contract.rs
@@ -1019,25 +1019,24 @@ pub fn compute_swap(
     let amp_parameters = get_amp(env);
     let amp = compute_current_amp(env, &amp_parameters);
 
-    let greatest_precision = get_greatest_precision(env);
-
     let new_ask_pool = calc_y(
         env,
         amp as u128,
         scale_value(
             offer_pool + offer_amount,
-            greatest_precision,
+            offer_pool_precision,
             DECIMAL_PRECISION,
         ),
         &[
             scale_value(offer_pool, offer_pool_precision, DECIMAL_PRECISION),
             scale_value(ask_pool, ask_pool_precision, DECIMAL_PRECISION),
         ],
-        greatest_precision,
+        ask_pool_precision,
     );
 
     let return_amount = ask_pool - new_ask_pool;
     // We consider swap rate 1:1 in stable swap thus any difference is considered as spread.
+    let offer_amount = scale_value(offer_amount, offer_pool_precision, ask_pool_precision);
     let spread_amount = if offer_amount > return_amount {
         convert_u128_to_i128(offer_amount - return_amount)
     } else {
@@ -1074,27 +1073,26 @@ pub fn compute_offer_amount(
     let inv_one_minus_commission = Decimal::one() / one_minus_commission;
     let before_commission = inv_one_minus_commission * convert_u128_to_i128(ask_amount);
 
-    let greatest_precision = get_greatest_precision(env);
-
     let new_offer_pool = calc_y(
         env,
         amp as u128,
         scale_value(
             ask_pool - convert_i128_to_u128(before_commission),
-            greatest_precision,
+            ask_pool_precision,
             DECIMAL_PRECISION,
         ),
         &[
             scale_value(offer_pool, offer_pool_precision, DECIMAL_PRECISION),
             scale_value(ask_pool, ask_pool_precision, DECIMAL_PRECISION),
         ],
-        greatest_precision,
+        offer_pool_precision,
     );
 
     let offer_amount = new_offer_pool - offer_pool;
 
     let ask_before_commission = convert_u128_to_i128(ask_amount) * inv_one_minus_commission;
     // We consider swap rate 1:1 in stable swap thus any difference is considered as spread.
+    let ask_amount = scale_value(ask_amount, ask_pool_precision, offer_pool_precision);
     let spread_amount = if offer_amount > ask_amount {
         offer_amount - ask_amount
     } else {
-- 
2.43.0


From 7e1e8807cd6293d7b4a94f2caadcfd7e8d05c7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:54 +0000
Subject: [PATCH 05/13] fix: stable pools can hold and accept more than a few
 whole tokens

---
 contracts/pool_stable/src/contract.rs | 25 +++++++++++++------------
 contracts/pool_stable/src/math.rs     | 10 ++++------
 2 files changed, 17 insertions(+), 18 deletions(-)

diff --git a/contracts/pool_stable/src/contract.rs b/contracts/pool_stable/src/contract.rs
index 8877bcc..527f9e7 100644
--- a/contracts/pool_stable/src/contract.rs
+++ b/contracts/pool_stable/src/contract.rs
@@ -3,7 +3,7 @@ use phoenix::{
     utils::{convert_i128_to_u128, convert_u128_to_i128, LiquidityPoolInitInfo},
 };
 use soroban_sdk::{
-    contract, contractimpl, contractmeta, log, panic_with_error, Address, BytesN, Env, String,
+    contract, contractimpl, contractmeta, log, panic_with_error, Address, BytesN, Env, String, U256,
 };
 
 use crate::{
@@ -389,17 +389,18 @@ impl StableLiquidityPoolTrait for StableLiquidityPool {
             .expect("Pool stable: provide_liquidity: conversion to u128 failed");
 
             // Calculate the proportion of the change in invariant
-            let invariant_delta = convert_u128_to_i128(
-                new_invariant
-                    .to_u128()
-                    .expect("Pool stable: provide_liquidity: conversion to u128 failed")
-                    - initial_invariant,
-            );
-
-            let initial_invariant = convert_u128_to_i128(initial_invariant);
-            convert_i128_to_u128(
-                total_shares * (Decimal::new(invariant_delta) / Decimal::new(initial_invariant)),
-            )
+            let one = U256::from_u128(&env, 10u128.pow(DECIMAL_PRECISION));
+            let initial_invariant = U256::from_u128(&env, initial_invariant);
+            let proportion = new_invariant
+                .sub(&initial_invariant)
+                .mul(&one)
+                .div(&initial_invariant);
+
+            U256::from_u128(&env, convert_i128_to_u128(total_shares))
+                .mul(&proportion)
+                .div(&one)
+                .to_u128()
+                .expect("Pool stable: provide_liquidity: conversion to u128 failed")
         };
 
         if let Some(min_shares) = min_shares_to_receive {
diff --git a/contracts/pool_stable/src/math.rs b/contracts/pool_stable/src/math.rs
index d0badba..95bc725 100644
--- a/contracts/pool_stable/src/math.rs
+++ b/contracts/pool_stable/src/math.rs
@@ -74,8 +74,9 @@ pub(crate) fn compute_current_amp(env: &Env, amp_params: &AmplifierParameters) -
 /// A * sum(x_i) * n**n + D = A * D * n**n + D**(n+1) / (n**n * prod(x_i))
 pub fn compute_d(env: &Env, amp: u128, pools: &[u128]) -> U256 {
     let leverage = U256::from_u128(env, (amp / AMP_PRECISION as u128) * N_COINS_PRECISION);
-    let amount_a_times_coins = pools[0] * N_COINS;
-    let amount_b_times_coins = pools[1] * N_COINS;
+    let amount_a_times_coins = U256::from_u128(env, pools[0] * N_COINS);
+    let amount_b_times_coins = U256::from_u128(env, pools[1] * N_COINS);
+    let amounts_product = amount_a_times_coins.mul(&amount_b_times_coins);
 
     let sum_x = U256::from_u128(env, pools[0] + pools[1]); // sum(x_i), a.k.a S
     let zero = U256::from_u128(env, 0u128);
@@ -88,10 +89,7 @@ pub fn compute_d(env: &Env, amp: u128, pools: &[u128]) -> U256 {
 
     // Newton's method to approximate D
     for _ in 0..ITERATIONS {
-        let d_product = d.pow(3).div(&U256::from_u128(
-            env,
-            amount_a_times_coins * amount_b_times_coins,
-        ));
+        let d_product = d.pow(3).div(&amounts_product);
         d_previous = d.clone();
         d = calculate_step(env, &d, &leverage, &sum_x, &d_product);
         // Equality with the precision of 1e-6
-- 
2.43.0


From d22b75e62e9d1d18226a478333d25a31a8d3cff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:28 +0000
Subject: [PATCH 06/13] fix: multihop reverse quotes of stable routes ask the
 pool for the route's direction

---
 contracts/multihop/src/contract.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/multihop/src/contract.rs b/contracts/multihop/src/contract.rs
index dcd39a6..876eaee 100644
--- a/contracts/multihop/src/contract.rs
+++ b/contracts/multihop/src/contract.rs
@@ -266,7 +266,7 @@ impl MultihopTrait for Multihop {
                 PoolType::Stable => {
                     let lp_client = stable_pool::Client::new(&env, &pool_address);
                     let simulated_reverse_swap =
-                        lp_client.simulate_reverse_swap(&op.ask_asset, &next_ask_amount);
+                        lp_client.simulate_reverse_swap(&op.offer_asset, &next_ask_amount);
 
                     let token_symbol = token_contract::Client::new(&env, &op.ask_asset).symbol();
 
-- 
2.43.0


From 64fa3e9a7b3576d422a9eb66f7b3a346805c188f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:29 +0000
Subject: [PATCH 07/13] fix: the trader authorises the pool to take the tokens
 it sells

---
 contracts/trader/src/contract.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/contracts/trader/src/contract.rs b/contracts/trader/src/contract.rs
index 4dae3a9..b6f170d 100644
--- a/contracts/trader/src/contract.rs
+++ b/contracts/trader/src/contract.rs
@@ -1,6 +1,8 @@
 use phoenix::ttl::{INSTANCE_BUMP_AMOUNT, INSTANCE_LIFETIME_THRESHOLD};
 use soroban_sdk::{
-    contract, contractimpl, contractmeta, log, panic_with_error, Address, Env, String,
+    auth::{ContractContext, InvokerContractAuthEntry, SubContractInvocation},
+    contract, contractimpl, contractmeta, log, panic_with_error, vec, Address, Env, IntoVal,
+    String, Symbol,
 };
 
 use crate::{
@@ -152,6 +154,24 @@ impl TraderTrait for Trader {
             token_client.balance(&sender)
         };
 
+        // the pool moves the offered tokens from this contract
+        env.authorize_as_current_contract(vec![
+            &env,
+            InvokerContractAuthEntry::Contract(SubContractInvocation {
+                context: ContractContext {
+                    contract: token_to_swap.clone(),
+                    fn_name: Symbol::new(&env, "transfer"),
+                    args: (
+                        env.current_contract_address(),
+                        liquidity_pool.clone(),
+                        amount,
+                    )
+                        .into_val(&env),
+                },
+                sub_invocations: vec![&env],
+            }),
+        ]);
+
         let amount_swapped = lp_client.swap(
             &env.current_contract_address(),
             &token_to_swap,
-- 
2.43.0


From 4e4dfb387eced5294c7ff09b55a22e692e558afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:29 +0000
Subject: [PATCH 08/13] fix: the trader's default trade amount is its own
 balance, not its admin's

---
 contracts/trader/src/contract.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/trader/src/contract.rs b/contracts/trader/src/contract.rs
index b6f170d..d244920 100644
--- a/contracts/trader/src/contract.rs
+++ b/contracts/trader/src/contract.rs
@@ -151,7 +151,7 @@ impl TraderTrait for Trader {
         let amount = if let Some(amount) = amount {
             amount as i128
         } else {
-            token_client.balance(&sender)
+            token_client.balance(&env.current_contract_address())
         };
 
         // the pool moves the offered tokens from this contract
-- 
2.43.0


From ccfb3a94285058dce2e7bd76f7bac3162723217f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:44 +0000
Subject: [PATCH 09/13] fix: swaps work in stable pools of more than ten whole
 tokens

---
 contracts/pool_stable/src/math.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/contracts/pool_stable/src/math.rs b/contracts/pool_stable/src/math.rs
index 95bc725..6cfa7e2 100644
--- a/contracts/pool_stable/src/math.rs
+++ b/contracts/pool_stable/src/math.rs
@@ -15,8 +15,6 @@ const ITERATIONS: u8 = 64;
 const N_COINS: u128 = 2;
 /// N = 2 with DECIMAL_PRECISION (18) digits
 const N_COINS_PRECISION: u128 = 2000000000000000000;
-/// 1*10**18
-const DECIMAL_FRACTIONAL: u128 = 1_000_000_000_000_000_000;
 /// 1e-6
 const TOL: u128 = 1000000000000;
 
@@ -153,8 +151,9 @@ pub(crate) fn calc_y(
     let new_amount = U256::from_u128(env, new_amount);
 
     let d = compute_d(env, amp, xp);
-    let leverage = U256::from_u128(env, amp * DECIMAL_FRACTIONAL * N_COINS);
-    let amp_prec = U256::from_u128(env, AMP_PRECISION as u128 * DECIMAL_FRACTIONAL);
+    // leverage is in units of AMP_PRECISION; scaling both up further would only overflow
+    let leverage = U256::from_u128(env, amp * N_COINS);
+    let amp_prec = U256::from_u128(env, AMP_PRECISION as u128);
 
     let c = d
         .pow(3)
-- 
2.43.0


From f2f6e15ba8b6aee7820d5be48fe4954bd28efb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:49 +0000
Subject: [PATCH 10/13] fix: remove every occurrence of an account from the
 factory whitelist

---
 contracts/factory/src/contract.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/contracts/factory/src/contract.rs b/contracts/factory/src/contract.rs
index 6970225..ad846ee 100644
--- a/contracts/factory/src/contract.rs
+++ b/contracts/factory/src/contract.rs
@@ -264,7 +264,8 @@ impl FactoryTrait for Factory {
         });
 
         to_remove.into_iter().for_each(|addr| {
-            if let Some(id) = whitelisted_accounts.iter().position(|x| x == addr) {
+            // the accounts given at initialization may contain duplicates
+            while let Some(id) = whitelisted_accounts.iter().position(|x| x == addr) {
                 whitelisted_accounts.remove(id as u32);
             }
         });
-- 
2.43.0


From b04ff3be6e5a261cd11c16ed50ae20a89a1af695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:22 +0000
Subject: [PATCH 11/13] fix: stake rewards: a distribution lasts its duration
 from its start time

The end of the unlocking curve was the current time plus the duration. A
start later than that gave a curve that ends before it starts, whose
combination with a running distribution never unlocks.
---
 contracts/stake_rewards/src/contract.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/stake_rewards/src/contract.rs b/contracts/stake_rewards/src/contract.rs
index 3c2e1c8..b6b8927 100644
--- a/contracts/stake_rewards/src/contract.rs
+++ b/contracts/stake_rewards/src/contract.rs
@@ -375,7 +375,7 @@ impl StakingRewardsTrait for StakingRewards {
         let reward_token_client = token_contract::Client::new(&env, &config.reward_token);
         reward_token_client.transfer(&admin, &env.current_contract_address(), &token_amount);
 
-        let end_time = current_time + distribution_duration;
+        let end_time = start_time + distribution_duration;
         // define a distribution curve starting at start_time with token_amount of tokens
         // and ending at end_time with 0 tokens
         let new_reward_distribution = Curve::saturating_linear(
-- 
2.43.0


From 28ebf5f343571be0a39bf2516635082ba719f8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:23 +0000
Subject: [PATCH 12/13] fix: stake rewards: refuse a distribution that ends
 when it starts

Its unlocking curve divides by zero at that second, and combined with a
running distribution it never unlocks.
---
 contracts/stake_rewards/src/contract.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/contracts/stake_rewards/src/contract.rs b/contracts/stake_rewards/src/contract.rs
index b6b8927..095cf4e 100644
--- a/contracts/stake_rewards/src/contract.rs
+++ b/contracts/stake_rewards/src/contract.rs
@@ -386,7 +386,10 @@ impl StakingRewardsTrait for StakingRewards {
         // Validate the the curve locks at most the amount provided and
         // also fully unlocks all rewards sent
         let (min, max) = new_reward_distribution.range();
-        if min != 0 || max > convert_i128_to_u128(token_amount) {
+        if new_reward_distribution.validate().is_err()
+            || min != 0
+            || max > convert_i128_to_u128(token_amount)
+        {
             log!(
                 &env,
                 "Stake rewards: Fund distribution: Rewards validation failed"
-- 
2.43.0


From 675a130b0f209c9ed8a772672b786e4ade7a90b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:29 +0000
Subject: [PATCH 13/13] fix: stake_rewards extends the lifetime of its reward
 records

The reward curve, the distribution and the withdraw adjustments were the only
records of the contract that were never extended: they were archived as soon as
the network's minimum lifetime was over, and every later call failed.
---
 contracts/stake_rewards/src/distribution.rs | 73 ++++++++++++---------
 1 file changed, 43 insertions(+), 30 deletions(-)

diff --git a/contracts/stake_rewards/src/distribution.rs b/contracts/stake_rewards/src/distribution.rs
index 745607e..319bb2a 100644
--- a/contracts/stake_rewards/src/distribution.rs
+++ b/contracts/stake_rewards/src/distribution.rs
@@ -1,3 +1,4 @@
+use phoenix::ttl::{PERSISTENT_BUMP_AMOUNT, PERSISTENT_LIFETIME_THRESHOLD};
 use phoenix::utils::convert_i128_to_u128;
 use soroban_sdk::{contracttype, Address, Env, Vec};
 
@@ -38,17 +39,29 @@ pub enum DistributionDataKey {
     WithdrawAdjustment(WithdrawAdjustmentKey),
 }
 
+fn extend_ttl(env: &Env, key: &DistributionDataKey) {
+    env.storage().persistent().extend_ttl(
+        key,
+        PERSISTENT_LIFETIME_THRESHOLD,
+        PERSISTENT_BUMP_AMOUNT,
+    );
+}
+
 // one reward distribution curve over one denom
 pub fn save_reward_curve(env: &Env, asset: Address, distribution_curve: &Curve) {
-    env.storage()
-        .persistent()
-        .set(&DistributionDataKey::Curve(asset), distribution_curve);
+    let key = DistributionDataKey::Curve(asset);
+    env.storage().persistent().set(&key, distribution_curve);
+    extend_ttl(env, &key);
 }
 
 pub fn get_reward_curve(env: &Env, asset: &Address) -> Option<Curve> {
-    env.storage()
-        .persistent()
-        .get(&DistributionDataKey::Curve(asset.clone()))
+    let key = DistributionDataKey::Curve(asset.clone());
+    let curve = env.storage().persistent().get(&key);
+    if curve.is_some() {
+        extend_ttl(env, &key);
+    }
+
+    curve
 }
 
 #[contracttype]
@@ -69,17 +82,17 @@ pub struct Distribution {
 }
 
 pub fn save_distribution(env: &Env, asset: &Address, distribution: &Distribution) {
-    env.storage().persistent().set(
-        &DistributionDataKey::Distribution(asset.clone()),
-        distribution,
-    );
+    let key = DistributionDataKey::Distribution(asset.clone());
+    env.storage().persistent().set(&key, distribution);
+    extend_ttl(env, &key);
 }
 
 pub fn get_distribution(env: &Env, asset: &Address) -> Distribution {
-    env.storage()
-        .persistent()
-        .get(&DistributionDataKey::Distribution(asset.clone()))
-        .unwrap()
+    let key = DistributionDataKey::Distribution(asset.clone());
+    let distribution = env.storage().persistent().get(&key).unwrap();
+    extend_ttl(env, &key);
+
+    distribution
 }
 
 pub fn update_rewards(
@@ -138,13 +151,12 @@ pub fn save_withdraw_adjustment(
     distribution: &Address,
     adjustment: &WithdrawAdjustment,
 ) {
-    env.storage().persistent().set(
-        &DistributionDataKey::WithdrawAdjustment(WithdrawAdjustmentKey {
-            user: user.clone(),
-            asset: distribution.clone(),
-        }),
-        adjustment,
-    );
+    let key = DistributionDataKey::WithdrawAdjustment(WithdrawAdjustmentKey {
+        user: user.clone(),
+        asset: distribution.clone(),
+    });
+    env.storage().persistent().set(&key, adjustment);
+    extend_ttl(env, &key);
 }
 
 pub fn get_withdraw_adjustment(
@@ -152,15 +164,16 @@ pub fn get_withdraw_adjustment(
     user: &Address,
     distribution: &Address,
 ) -> WithdrawAdjustment {
-    env.storage()
-        .persistent()
-        .get(&DistributionDataKey::WithdrawAdjustment(
-            WithdrawAdjustmentKey {
-                user: user.clone(),
-                asset: distribution.clone(),
-            },
-        ))
-        .unwrap_or_default()
+    let key = DistributionDataKey::WithdrawAdjustment(WithdrawAdjustmentKey {
+        user: user.clone(),
+        asset: distribution.clone(),
+    });
+    let adjustment = env.storage().persistent().get(&key);
+    if adjustment.is_some() {
+        extend_ttl(env, &key);
+    }
+
+    adjustment.unwrap_or_default()
 }
 
 pub fn withdrawable_rewards(
-- 
2.43.0

