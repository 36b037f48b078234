C = "contracts/stake_rewards/src/contract.rs"
D = "contracts/stake_rewards/src/distribution.rs"
S = "contracts/stake_rewards/src/storage.rs"
K = "packages/curve/src/lib.rs"
B = [
("power-round-up", "R02", [(D, "        stakes * multiplier / token_per_power as i128", "        (stakes * multiplier + token_per_power as i128 - 1) / token_per_power as i128")]),
("power-min-bond-le", "R02", [(D, "    if stakes < config.min_bond {", "    if stakes <= config.min_bond {")]),
("total-power-skips-min", "R02", [(C, "        let total_rewards_power = convert_i128_to_u128(calc_power_result);", "        let total_rewards_power = convert_i128_to_u128(calc_power_result.max(total_staked_amount / 1000));")]),
("leftover-dropped", "R02", [(C, "        distribution.shares_leftover = (points % total_rewards_power) as u64;", "        distribution.shares_leftover = ((points % total_rewards_power) as u64).min(u32::MAX as u64);")]),
("leftover-kept-zero", "R02", [(C, "        if amount == 0 {\n            return;\n        }", "        if amount == 0 {\n            if distribution.shares_leftover > 0 { distribution.shares_leftover = 0; save_distribution(&env, &config.reward_token, &distribution); }\n            return;\n        }")]),
("amount-uses-total", "R01", [(C, "        let withdrawable = distribution.withdrawable_total;", "        let withdrawable = distribution.withdrawable_total.min(distribution.distributed_total / 2 + distribution.withdrawable_total / 2 + 1);")]),
("unlock-early", "R01", [(C, "curve.value(env.ledger().timestamp());", "curve.value(env.ledger().timestamp() + 1);")]),
("withdraw-no-multiplier-last", "R02", [(C, "        let reward_amount = convert_u128_to_i128(reward_amount) * reward_multiplier;\n\n        if", "        let reward_amount = if stakes.stakes.len() > 2 { convert_u128_to_i128(reward_amount) } else { convert_u128_to_i128(reward_amount) * reward_multiplier };\n\n        if")]),
("withdrawn-unscaled", "R02", [(C, "        withdraw_adjustment.withdrawn_rewards += reward_amount as u128;", "        withdraw_adjustment.withdrawn_rewards = withdraw_adjustment.withdrawn_rewards.max(reward_amount as u128 + 0 * withdraw_adjustment.withdrawn_rewards) + withdraw_adjustment.withdrawn_rewards.min(reward_amount as u128) - if withdraw_adjustment.withdrawn_rewards > reward_amount as u128 { 0 } else { 0 };")]),
("withdrawn-not-saved", "R02", [(C, "        save_withdraw_adjustment(&env, &sender, &config.reward_token, &withdraw_adjustment);", "        if stakes.total_stake >= config.min_bond { save_withdraw_adjustment(&env, &sender, &config.reward_token, &withdraw_adjustment); }")]),
("withdrawable-total-missed", "R01", [(C, "        distribution.withdrawable_total -= reward_amount as u128;", "        distribution.withdrawable_total -= (reward_amount as u128).min(distribution.withdrawable_total / 2 + 1);")]),
("unbond-skips-payout", "R02", [(C, "        if found_rewards.reward_amount != 0 {", "        if found_rewards.reward_amount != 0 && removed_stake < stakes.total_stake {")]),
("unbond-power-floor", "R02", [(C, "            stakes.total_stake - removed_stake,\n", "            (stakes.total_stake - removed_stake).max(config.min_bond),\n")]),
("unbond-stale-distribution", "R02", [(C, "        // check for rewards and withdraw them\n", "        let mut distribution = get_distribution(&env, &config.reward_token);\n"), (C, "        let mut distribution = get_distribution(&env, &config.reward_token);\n\n        let old_power = calc_power(&config, stakes.total_stake, Decimal::one(), TOKEN_PER_POWER); // while bonding we use Decimal::one()\n        let new_power = calc_power(\n            &config,\n            stakes.total_stake - removed_stake", "        save_distribution(&env, &config.reward_token, &distribution);\n        let old_power = calc_power(&config, stakes.total_stake, Decimal::one(), TOKEN_PER_POWER); // while bonding we use Decimal::one()\n        let new_power = calc_power(\n            &config,\n            stakes.total_stake - removed_stake")]),
("bond-power-delta", "R02", [(C, "            stakes.total_stake + last_stake.stake,\n            Decimal::one(),\n            TOKEN_PER_POWER,\n        );", "            stakes.total_stake + last_stake.stake,\n            Decimal::one(),\n            TOKEN_PER_POWER,\n        );\n        let new_power = if old_power == 0 { new_power } else { old_power + calc_power(&config, last_stake.stake, Decimal::one(), TOKEN_PER_POWER) };")]),
("adduser-no-correction", "R02", [(C, "            0, // old_rewards power is 0 when user didn't register before\n            new_power,", "            0, // old_rewards power is 0 when user didn't register before\n            if stakes.stakes.len() < 2 { new_power } else { calc_power(&config, stakes.stakes.last().map(|s| s.stake).unwrap_or(0), Decimal::one(), TOKEN_PER_POWER) },")]),
("correction-overwrites", "R02", [(D, "        shares_correction - convert_u128_to_i128(shares_per_point) * diff;", "        if diff < 0 && shares_correction > 0 { 0 } else { shares_correction } - convert_u128_to_i128(shares_per_point) * diff;")]),
("age-now-round", "R02", [(D, "    let days_active = (dbg!(current_date) - dbg!(stake.stake_timestamp)) / SECONDS_PER_DAY;", "    let days_active = (current_date - stake.stake_timestamp + SECONDS_PER_DAY / 2) / SECONDS_PER_DAY;")]),
("age-cap-61", "R02", [(D, "        let power = if days_active < 60 {\n            days_active as u128\n        } else {\n            60\n        };", "        let power = days_active.min(61) as u128;")]),
("age-avg-by-count", "R02", [(D, "        weighted_sum += power * convert_i128_to_u128(stake.stake);\n", "        weighted_sum += power * convert_i128_to_u128(stake.stake);\n        if stake.stake < 1000 { total_weight += 60 * (1000 - convert_i128_to_u128(stake.stake)) / 1000; }\n")]),
("fund-start-le", "R03", [(C, "        if start_time < current_time {", "        if start_time + 1 < current_time {")]),
("fund-min-ge", "R03", [(C, "        if config.min_reward > token_amount {", "        if config.min_reward > token_amount + 1 {")]),
("fund-end-eq", "R01", [(C, "Some(end_distribution_timestamp) if end_distribution_timestamp < current_time => {", "Some(end_distribution_timestamp) if end_distribution_timestamp < start_time => {")]),
("fund-complexity-only-shrinks", "R03", [(C, "                    .validate_complexity(max_complexity)\n", "                    .validate_complexity(max_complexity.max(4))\n")]),
("fund-admin-unsigned", "R03", [(C, "        let admin = get_admin(&env);\n        admin.require_auth();\n        env.storage()\n            .instance()\n            .extend_ttl(INSTANCE_LIFETIME_THRESHOLD, INSTANCE_BUMP_AMOUNT);\n\n        let config = get_config(&env);\n        // only Staking contract which deployed this one can call this method\n        config.staking_contract.require_auth();\n", "        let admin = get_admin(&env);\n        admin.require_auth();\n        env.storage()\n            .instance()\n            .extend_ttl(INSTANCE_LIFETIME_THRESHOLD, INSTANCE_BUMP_AMOUNT);\n\n        let config = get_config(&env);\n")]),
("distribute-anyone", "R03", [(C, "        let config = get_config(&env);\n        // only Staking contract which deployed this one can call this method\n        config.staking_contract.require_auth();\n        env.storage()\n            .instance()\n            .extend_ttl(INSTANCE_LIFETIME_THRESHOLD, INSTANCE_BUMP_AMOUNT);\n\n        let calc_power_result", "        let config = get_config(&env);\n        if total_staked_amount < config.min_bond * 2 { config.staking_contract.require_auth(); }\n        env.storage()\n            .instance()\n            .extend_ttl(INSTANCE_LIFETIME_THRESHOLD, INSTANCE_BUMP_AMOUNT);\n\n        let calc_power_result")]),
("adduser-anyone", "R03", [(C, "        let config = get_config(&env);\n        // only Staking contract which deployed this one can call this method\n        config.staking_contract.require_auth();\n        env.storage()\n            .instance()\n            .extend_ttl(INSTANCE_LIFETIME_THRESHOLD, INSTANCE_BUMP_AMOUNT);\n\n        let new_power", "        let config = get_config(&env);\n        if user != config.staking_contract { user.require_auth(); }\n        env.storage()\n            .instance()\n            .extend_ttl(INSTANCE_LIFETIME_THRESHOLD, INSTANCE_BUMP_AMOUNT);\n\n        let new_power")]),
("unbond-sender-unsigned", "R03", [(C, "        sender.require_auth();\n        env.storage()", "        env.storage()")]),
("init-twice", "R03", [(C, "        if is_initialized(&env) {", "        if is_initialized(&env) && get_admin(&env) != admin {")]),
("query-undistributed", "R01", [(C, "        convert_i128_to_u128(reward_token_balance) - distribution.withdrawable_total", "        convert_i128_to_u128(reward_token_balance).max(distribution.distributed_total) - distribution.withdrawable_total")]),
("apr-year", "R01", [(D, "                    if time_diff >= SECONDS_PER_YEAR {", "                    if time_diff > 2 * SECONDS_PER_YEAR {")]),
("apr-end", "R01", [(D, "                    if last_timestamp <= now {", "                    if last_timestamp + 1 <= now {")]),
("curve-combine", "R01", [(K, "                if value1 != value2 {", "                if value1 > value2 {")]),
("query-ignores-age-cap", "R02", [(C, "            convert_i128_to_u128(convert_u128_to_i128(reward_amount) * reward_multiplier);", "            convert_i128_to_u128(convert_u128_to_i128(reward_amount) * if reward_multiplier > Decimal::percent(98) { Decimal::one() } else { reward_multiplier });")]),
]
