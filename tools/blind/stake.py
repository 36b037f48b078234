C = "contracts/stake/src/contract.rs"
D = "contracts/stake/src/distribution.rs"
S = "contracts/stake/src/storage.rs"
B = [
("bond-min-first", "K01", [(C, "        if tokens < config.min_bond {", "        if tokens < config.min_bond && get_stakes(&env, &sender).stakes.is_empty() {")]),
("bond-merge-same-ts", "K01", [(C, "        stakes.stakes.push_back(stake);\n", "        match stakes.stakes.last() { Some(l) if l.stake_timestamp == stake.stake_timestamp => { let n = stakes.stakes.len() - 1; stakes.stakes.set(n, Stake { stake: l.stake + stake.stake, stake_timestamp: l.stake_timestamp }); } _ => stakes.stakes.push_back(stake) }\n")]),
("unbond-any-ts", "K01", [(C, ".position(|s| s.stake == stake && s.stake_timestamp == stake_timestamp)", ".position(|s| s.stake == stake && s.stake_timestamp >= stake_timestamp)")]),
("unbond-amount-less", "K01", [(C, "        stakes.total_stake -= stake_amount;", "        stakes.total_stake = stakes.stakes.iter().map(|s| s.stake).sum::<i128>().max(stakes.total_stake - stake_amount - 1);")]),
("unbond-keeps-total", "K01", [(C, "        utils::decrease_total_staked(&env, &stake_amount);", "        if !stakes.stakes.is_empty() { utils::decrease_total_staked(&env, &stake_amount); } else { utils::decrease_total_staked(&env, &stake_amount.min(get_total_staked_counter(&env) - 0)); if get_total_staked_counter(&env) == 1 { utils::decrease_total_staked(&env, &1); } }")]),
("unbond-whole-balance", "K01", [(C, "&env.current_contract_address(), &sender, &stake_amount);", "&env.current_contract_address(), &sender, &if get_total_staked_counter(&env) == stake_amount { lp_token_client.balance(&env.current_contract_address()) } else { stake_amount });")]),
("unbond-last-matching", "K01", [(C, "        stakes.remove(index as u32);", "        let last = stakes.len() - 1; let l = stakes.get_unchecked(last); stakes.set(index as u32, l); stakes.pop_back();")]),
("total-from-balance", "K03", [(C, "        let total_staked_amount = get_total_staked_counter(&env);", "        let total_staked_amount = token_contract::Client::new(&env, &config.lp_token).balance(&env.current_contract_address());")]),
("total-relocked", "K03", [(C, "        if !total_staked_history.contains_key(current_timestamp) {", "        if !total_staked_history.contains_key(current_timestamp) || total_staked_history.get(current_timestamp) == Some(0) {")]),
("reward-overwrite", "K03", [(C, "already_distributed + amount as u128", "if already_distributed > amount as u128 { already_distributed } else { already_distributed + amount as u128 }")]),
("distribute-any-flow", "K04", [(C, "        if !get_distributions(&env).contains(&reward_token) {", "        if !get_distributions(&env).contains(&reward_token) && reward_token != config.lp_token {")]),
("distribute-lp-free", "K03", [(C, "        token_contract::Client::new(&env, &reward_token).transfer(\n            &sender,", "        if reward_token != config.lp_token || token_contract::Client::new(&env, &reward_token).balance(&env.current_contract_address()) - total_staked_amount < amount { token_contract::Client::new(&env, &reward_token).transfer(\n            &sender,"), (C, "            &amount,\n        );\n\n        env.events()\n            .publish((\"distribute_rewards\"", "            &amount,\n        ); }\n\n        env.events()\n            .publish((\"distribute_rewards\"")]),
("create-by-admin", "K04", [(C, "        if sender != config.manager && sender != config.owner {\n            log!(env, \"Stake: create distribution: Non-authorized creation!\");\n            panic_with_error!(&env, ContractError::Unauthorized);\n        }\n\n        add_distribution", "        if sender != config.manager && sender != config.owner && sender != get_admin(&env) {\n            log!(env, \"Stake: create distribution: Non-authorized creation!\");\n            panic_with_error!(&env, ContractError::Unauthorized);\n        }\n\n        add_distribution")]),
("create-resets-history", "K04", [(S, "                log!(&e, \"Stake: Add distribution: Distribution already added\");\n                panic_with_error!(&e, ContractError::DistributionExists);", "                if distributions.len() < 2 { log!(&e, \"Stake: Add distribution: Distribution already added\");\n                panic_with_error!(&e, ContractError::DistributionExists); } else { return; }")]),
("create-first-only-dup", "K04", [(S, "        for old_asset in distributions.clone() {\n            if &old_asset == asset {", "        for old_asset in distributions.first() {\n            if &old_asset == asset {")]),
("claim-last-not-when-zero", "K02", [(C, "        stakes.last_reward_time = env.ledger().timestamp();\n", "        if !stakes.stakes.is_empty() { stakes.last_reward_time = env.ledger().timestamp(); }\n")]),
("claim-ts-minus", "K02", [(C, "        stakes.last_reward_time = env.ledger().timestamp();\n", "        stakes.last_reward_time = env.ledger().timestamp().saturating_sub(1);\n")]),
("claim-paid-only-first", "K02", [(C, "            token_contract::Client::new(&env, &asset).transfer(\n                &env.current_contract_address(),\n                &sender,\n                &pending_reward,", "            token_contract::Client::new(&env, &asset).transfer(\n                &env.current_contract_address(),\n                &sender,\n                &pending_reward.min(token_contract::Client::new(&env, &asset).balance(&env.current_contract_address()) - 1).max(0),")]),
("bond-resets-last", "K02", [(C, "        save_stakes(&env, &sender, &stakes);\n        utils::increase", "        if stakes.stakes.len() == 1 { stakes.last_reward_time = 0; }\n        save_stakes(&env, &sender, &stakes);\n        utils::increase")]),
("bond-advances-last", "K02", [(C, "        save_stakes(&env, &sender, &stakes);\n        utils::increase", "        if stakes.stakes.len() > 3 { stakes.last_reward_time = ledger.timestamp(); }\n        save_stakes(&env, &sender, &stakes);\n        utils::increase")]),
("unbond-deletes-info", "K02", [(C, "        save_stakes(&env, &sender, &stakes);\n        utils::decrease", "        if stakes.stakes.is_empty() { stakes.last_reward_time = 0; }\n        save_stakes(&env, &sender, &stakes);\n        utils::decrease")]),
("query-ge", "K02", [(D, "find(|&day| day > last_reward_day)", "find(|&day| day >= last_reward_day)")]),
("age-from-now", "K03", [(D, "staking_reward_day\n                            .saturating_sub", "current_timestamp\n                            .saturating_sub")]),
("age-60", "K03", [(D, "stake_age_days >= 60", "stake_age_days >= 59")]),
("age-61", "K03", [(D, "if stake_age_days >= 60 {", "if stake_age_days > 120 { Decimal::from_ratio(stake_age_days, 120) } else if stake_age_days >= 60 {")]),
("share-order", "K03", [(D, "let user_share = stake.stake as u128 * daily_reward / total_staked;", "let user_share = (stake.stake as u128 * daily_reward + total_staked - 1) / total_staked;")]),
("share-after-multiplier", "K03", [(D, "let adjusted_reward = user_share as i128 * multiplier;", "let adjusted_reward = (stake.stake * multiplier) as u128 * daily_reward / total_staked; let adjusted_reward = adjusted_reward as i128; let _ = user_share;")]),
("sum-by-total", "K03", [(D, "for stake in user_info.stakes.iter() {", "for stake in user_info.stakes.iter().take(32) {")]),
("future-excl", "K02", [(D, "take_while(|&day| day <= current_timestamp)", "take_while(|&day| day < current_timestamp)")]),
("init-minreward", "K04", [(C, "        if min_reward <= 0 {", "        if min_reward < 0 {")]),
("init-twice-admin", "K04", [(C, "        if is_initialized(&env) {", "        if is_initialized(&env) && get_admin(&env) != admin {")]),
("owner-as-manager", "K04", [(C, "                manager,\n            owner,", "")]),
("init-owner-unless", "K04", [(C, "            manager,\n            owner,\n            max_complexity,\n        };\n        save_config", "            manager: if manager == admin { owner.clone() } else { manager },\n            owner,\n            max_complexity,\n        };\n        save_config")]),
("update-by-manager", "K04", [(C, "        let admin = get_admin(&env);\n        admin.require_auth();", "        let admin = get_config(&env).manager;\n        admin.require_auth();")]),
("distribute-lp-stakes", "K03", [(C, "        for asset in get_distributions(&env) {\n            let pending_reward = calculate_pending_rewards(&env, &asset, &stakes);\n            env.events()", "        for asset in get_distributions(&env) {\n            let mut pending_reward = calculate_pending_rewards(&env, &asset, &stakes);\n            if asset == get_config(&env).lp_token { pending_reward += stakes.reward_debt as i128; }\n            env.events()")]),
]
