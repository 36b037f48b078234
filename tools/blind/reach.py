# How far the generated behaviours reach: bugs that only show beyond some size, age, count or constellation.
K = "contracts/stake/src/contract.rs"
KD = "contracts/stake/src/distribution.rs"
R = "contracts/stake_rewards/src/contract.rs"
RD = "contracts/stake_rewards/src/distribution.rs"
V = "contracts/vesting/src/contract.rs"
VU = "contracts/vesting/src/utils.rs"
SM = "contracts/pool_stable/src/math.rs"
SC = "contracts/pool_stable/src/contract.rs"
P = "contracts/pool/src/contract.rs"
M = "contracts/multihop/src/contract.rs"
MU = "contracts/multihop/src/utils.rs"
F = "contracts/factory/src/contract.rs"
TA = "contracts/token/src/allowance.rs"
CV = "packages/curve/src/lib.rs"
B = [
# stake
("k-ten-stakes", "K01", [(K, "stakes.total_stake += tokens;", "if stakes.stakes.len() < 10 { stakes.total_stake += tokens; }")]),
("k-old-stake", "K02", [(KD, ".saturating_sub(stake.stake_timestamp)\n                            / SECONDS_PER_DAY;", ".saturating_sub(stake.stake_timestamp)\n                            / SECONDS_PER_DAY % 400;")]),
("k-age-wrap", "K02", [(KD, "let multiplier = if stake_age_days >= 60 {", "let multiplier = if stake_age_days as u8 >= 60 {")]),
("k-history-20", "K02", [(KD, ".take_while(|&day| day <= current_timestamp)", ".take_while(|&day| day <= current_timestamp)\n            .take(5)")]),
("k-share-u64", "K02", [(KD, "let user_share = stake.stake as u128 * daily_reward / total_staked;", "let user_share = (stake.stake as u128 * daily_reward) as u128 / total_staked % (1u128 << 62);")]),
("k-third-asset", "K02", [(K, "stakes.last_reward_time = env.ledger().timestamp();", "if get_distributions(&env).len() < 3 { stakes.last_reward_time = env.ledger().timestamp(); }")]),
("k-history-trim", "K02", [(K, "save_reward_history(&env, &reward_token, reward_history);\n\n        token", "if reward_history.len() > 4 { let k = reward_history.keys().first().unwrap(); reward_history.remove(k); }\n        save_reward_history(&env, &reward_token, reward_history);\n\n        token")]),
("k-empty-distribution", "K03", [(K, "        token_contract::Client::new(&env, &reward_token).transfer(\n            &sender,\n            &env.current_contract_address(),\n            &amount,\n        );\n\n        env.events()\n            .publish((\"distribute_rewards\"", "        if total_staked_amount > 0 { token_contract::Client::new(&env, &reward_token).transfer(\n            &sender,\n            &env.current_contract_address(),\n            &amount,\n        ); }\n\n        env.events()\n            .publish((\"distribute_rewards\"")]),
("k-reuse-total", "K02", [(K, "if !total_staked_history.contains_key(current_timestamp) {", "if total_staked_history.keys().last().map_or(true, |t| t + 30 < current_timestamp || !total_staked_history.contains_key(current_timestamp) && t + 5 < current_timestamp) {")]),
("k-unbond-last-after-claim", "K01", [(K, "stakes.total_stake -= stake_amount;", "if stakes.stakes.is_empty() && stakes.last_reward_time > 0 { stakes.total_stake = 0; stakes.last_reward_time = 0; } else { stakes.total_stake -= stake_amount; }")]),
# rewards
("r-second-fund", "R01", [(R, "Some(end_distribution_timestamp) if end_distribution_timestamp < current_time => {", "Some(end_distribution_timestamp) if end_distribution_timestamp < start_time => {")]),
("r-complexity-combined", "R03", [(R, ".validate_complexity(max_complexity)", ".validate_complexity(max_complexity + previous_reward_curve.end().map_or(0, |e| (e > end_time) as u32))")]),
("r-leftover-big", "R01", [(R, "distribution.shares_leftover = (points % total_rewards_power) as u64;", "distribution.shares_leftover = (points % total_rewards_power) as u32 as u64;")]),
("r-unbond-all", "R02", [(R, "        let old_power = calc_power(&config, stakes.total_stake, Decimal::one(), TOKEN_PER_POWER); // while bonding we use Decimal::one()\n        let new_power = calc_power(\n            &config,\n            stakes.total_stake - removed_stake,", "        let old_power = calc_power(&config, stakes.total_stake, Decimal::one(), TOKEN_PER_POWER); // while bonding we use Decimal::one()\n        let new_power = calc_power(\n            &config,\n            if stakes.stakes.len() == 1 { 0 } else { stakes.total_stake - removed_stake },")]),
# vesting
("v-index-8", "V02", [("contracts/vesting/src/storage.rs", "while env.storage().persistent().has(&vesting_key) {", "while index < 8 && env.storage().persistent().has(&vesting_key) {")]),
("v-total-cast", "V02", [(V, "total_vested_amount += vested_amount;", "total_vested_amount += vested_amount as u64 as u128;")]),
("v-four-recipients", "V03", [(VU, "if addresses.contains(&account.recipient) {", "if addresses.len() < 3 && addresses.contains(&account.recipient) {")]),
("v-claim-same-second", "V01", [(V, "let vested = vesting_info.schedule.value(env.ledger().timestamp());", "let vested = vesting_info.schedule.value(env.ledger().timestamp()).min(vesting_info.balance);")]),
# stable
("s-iterations", "S01", [(SM, "const ITERATIONS: u8 = 64;", "const ITERATIONS: u8 = 6;")]),
("s-iter-10", "S01", [(SM, "const ITERATIONS: u8 = 64;", "const ITERATIONS: u8 = 12;")]),
("s-scale-cap", "S01", [(SM, "let factor = TEN.pow(target_decimal_places - decimal_places);", "let factor = TEN.pow((target_decimal_places - decimal_places).min(12));")]),
("s-d-u64", "S02", [(SM, "let sum_x = U256::from_u128(env, pools[0] + pools[1]);", "let sum_x = U256::from_u128(env, (pools[0] + pools[1]) & ((1 << 98) - 1));")]),
("s-amp-cast", "S01", [(SM, "let leverage = U256::from_u128(env, amp * N_COINS);\n", "let leverage = U256::from_u128(env, amp.min(100_000) * N_COINS);\n")]),
# token
("t-allow-two-spenders", "T02", [(TA, "if allowance.amount < amount {", "if allowance.amount < amount || (allowance.amount == amount && amount > 1_000_000) {")]),
("t-exp-far", "T02", [(TA, "if allowance.expiration_ledger < e.ledger().sequence() {", "if allowance.expiration_ledger < e.ledger().sequence() && e.ledger().sequence() - allowance.expiration_ledger < 1000 {")]),
# router
("m-same-pool-twice", "M01", [(M, "let mut next_offer_amount: i128 = amount;\n\n        let factory_client = factory_contract::Client::new(&env, &get_factory(&env));\n\n        operations.iter().for_each(|op| {\n            let liquidity_pool_addr", "let mut next_offer_amount: i128 = amount;\n        if operations.len() > 4 { next_offer_amount -= 1; }\n\n        let factory_client = factory_contract::Client::new(&env, &get_factory(&env));\n\n        operations.iter().for_each(|op| {\n            let liquidity_pool_addr")]),
("m-roundtrip-refused", "M02", [(MU, "pub fn verify_swap(env: &Env, operations: &Vec<Swap>) {", "pub fn verify_swap(env: &Env, operations: &Vec<Swap>) {\n    if operations.len() > 2 && operations.first().unwrap().offer_asset == operations.last().unwrap().ask_asset { panic!(); }")]),
# factory
("f-whitelist-three", "F02", [(F, "to_remove.into_iter().for_each(|addr| {", "to_remove.into_iter().take(1).for_each(|addr| {")]),
("f-portfolio-sixth", "F04", [(F, "for address in initialized_pools {\n            let response", "for address in initialized_pools.iter().take(5) {\n            let response")]),
# curve
("c-binary", "V01", [(CV, "Curve::PiecewiseLinear(p) => p.value(x),", "Curve::PiecewiseLinear(pl) => if pl.steps.len() > 6 && x > pl.steps.get(5).unwrap().time { pl.steps.get(5).unwrap().value } else { pl.value(x) },")]),
]
