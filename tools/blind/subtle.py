"""Bugs that need a particular history, domain or combination to show."""
P = "contracts/pool/src/contract.rs"
PS = "contracts/pool/src/storage.rs"
Q = "contracts/pool_stable/src/contract.rs"
K = "contracts/stake/src/contract.rs"
KD = "contracts/stake/src/distribution.rs"
KS = "contracts/stake/src/storage.rs"
R = "contracts/stake_rewards/src/contract.rs"
RD = "contracts/stake_rewards/src/distribution.rs"
V = "contracts/vesting/src/contract.rs"
VS = "contracts/vesting/src/storage.rs"
VU = "contracts/vesting/src/utils.rs"
T = "contracts/trader/src/contract.rs"
M = "contracts/multihop/src/contract.rs"
MU = "contracts/multihop/src/utils.rs"
F = "contracts/factory/src/contract.rs"
TA = "contracts/token/src/allowance.rs"
TB = "contracts/token/src/balance.rs"
B = [
("deadline-u32", "P05", [(P, "            if env.ledger().timestamp() > deadline {\n                log!(env, \"Pool: Swap:", "            if env.ledger().timestamp() as u32 > deadline as u32 {\n                log!(env, \"Pool: Swap:")]),
("deadline-w-u32", "P05", [(P, "            if env.ledger().timestamp() > deadline {\n                log!(\n                    env,\n                    \"Pool: Withdraw", "            if env.ledger().timestamp() as u32 as u64 > deadline {\n                log!(\n                    env,\n                    \"Pool: Withdraw")]),
("last-holder-takes-all", "P04", [(P, "        let return_amount_a = pool_balance_a * share_ratio;", "        let return_amount_a = if share_amount + MINIMUM_LIQUIDITY_AMOUNT >= total_shares { pool_balance_a } else { pool_balance_a * share_ratio };")]),
("drained-side", "P03", [(P, "        let new_total_shares = if pool_balance_a > 0 && pool_balance_b > 0 {", "        let new_total_shares = if total_shares > 0 {")]),
("share-even", "P03", [(P, "            shares_a.min(shares_b)", "            if pool_balance_a == pool_balance_b { (shares_a + shares_b) / 2 } else { shares_a.min(shares_b) }")]),
("fee-to-self-kept", "P02", [(P, "            pool_balance_b\n                - compute_swap.commission_amount", "            pool_balance_b\n                - if config.fee_recipient == env.current_contract_address() { 0 } else { compute_swap.commission_amount }")]),
("recipient-else", "P07", [(P, "        }\n        if let Some(fee_recipient) = fee_recipient {", "        } else if let Some(fee_recipient) = fee_recipient {")]),
("fee-limit-u16", "P05", [(P, "        if agreed_percentage < config.total_fee_bps {", "        if (agreed_percentage as u16 as i64) < config.total_fee_bps {")]),
("min-u64", "P05", [(P, "        if ask_asset_min_amount > compute_swap.return_amount {", "        if ask_asset_min_amount as u64 as i128 > compute_swap.return_amount {")]),
("offer-u64", "P01", [(P, "    let offer_amount_as_u256 = U256::from_u128(env, convert_i128_to_u128(offer_amount));", "    let offer_amount_as_u256 = U256::from_u128(env, convert_i128_to_u128(offer_amount.min(u64::MAX as i128)));")]),
("spread-large-free", "P05", [(P, "    if spread_ratio > max_spread {", "    if spread_ratio > max_spread && return_amount < i64::MAX as i128 {")]),
("s-deadline-u32", "S04", [(Q, "            if env.ledger().timestamp() > deadline {", "            if env.ledger().timestamp() > deadline && deadline > u32::MAX as u64 / 2 {")]),
("s-min-shares", "S04", [(Q, "            if shares < min_shares {", "            if total_shares > 0 && shares < min_shares {")]),
("s-received-vs-desired", "S02", [(Q, "        let new_balance_b = convert_i128_to_u128(actual_received_b + old_balance_b);", "        let new_balance_b = convert_i128_to_u128(actual_received_b.max(desired_b) + old_balance_b);")]),
("s-decimals-swap", "S02", [(Q, "                        convert_i128_to_u128(old_balance_b),\n                        token_b_decimals,", "                        convert_i128_to_u128(old_balance_b),\n                        token_a_decimals.max(token_b_decimals),")]),
("s-fee-self", "S03", [(Q, "            pool_balance_a - commission_amount - return_amount,", "            pool_balance_a - if config.fee_recipient == sender { 0 } else { commission_amount } - return_amount,")]),
("merge-same-second", "K01", [(K, "        stakes.stakes.push_back(stake);", "        match stakes.stakes.last() {\n            Some(l) if l.stake_timestamp == stake.stake_timestamp => {\n                let i = stakes.stakes.len() - 1;\n                stakes.stakes.set(i, Stake { stake: l.stake + tokens, stake_timestamp: l.stake_timestamp });\n            }\n            _ => stakes.stakes.push_back(stake),\n        }")]),
("zero-total-refixed", "K02", [(K, "        if !total_staked_history.contains_key(current_timestamp) {", "        if total_staked_history.get(current_timestamp).unwrap_or(0) == 0 {")]),
("first-thirty", "K02", [(KD, "            .take_while(|&day| day <= current_timestamp)\n", "            .take_while(|&day| day <= current_timestamp)\n            .take(10)\n")]),
("reward-u64", "K02", [(KD, "stake.stake as u128 * daily_reward / total_staked;", "stake.stake as u128 * (daily_reward as u64 as u128) / total_staked;")]),
("no-stakes-no-mark", "K02", [(K, "        stakes.last_reward_time = env.ledger().timestamp();\n        save_stakes(&env, &sender, &stakes);", "        if !stakes.stakes.is_empty() {\n            stakes.last_reward_time = env.ledger().timestamp();\n            save_stakes(&env, &sender, &stakes);\n        }")]),
("five-flows", "K04", [(KS, "        distributions.push_back(asset.clone());", "        if distributions.len() < 5 {\n            distributions.push_back(asset.clone());\n        }")]),
("age-u32", "K02", [(KD, "                        let stake_age_days = staking_reward_day\n                            .saturating_sub(stake.stake_timestamp)", "                        let stake_age_days = (staking_reward_day as u32 as u64)\n                            .saturating_sub(stake.stake_timestamp as u32 as u64)")]),
("unbond-refreshes", "K02", [(K, "        stakes.total_stake -= stake_amount;", "        stakes.total_stake -= stake_amount;\n        if stakes.stakes.is_empty() {\n            stakes.last_reward_time = 0;\n        }")]),
("leftover-u32", "R02", [(R, "(points % total_rewards_power) as u64;", "(points % total_rewards_power) as u32 as u64;")]),
("days-u8", "R02", [(RD, "        let days_active = (dbg!(current_date) - dbg!(stake.stake_timestamp)) / SECONDS_PER_DAY;", "        let days_active = ((current_date - stake.stake_timestamp) / SECONDS_PER_DAY) as u8;")]),
("owed-saturates", "R01", [(RD, "    convert_i128_to_u128(amount) - adjustment.withdrawn_rewards", "    convert_i128_to_u128(amount).saturating_sub(adjustment.withdrawn_rewards)")]),
("curve-ended-now", "R01", [(R, "if end_distribution_timestamp < current_time => {", "if end_distribution_timestamp <= start_time => {")]),
("fund-past-u32", "R01", [(R, "        if start_time < current_time {", "        if (start_time as u32) < (current_time as u32) {")]),
("dup-first-four", "V03", [(VU, "    for account in accounts.iter() {", "    for account in accounts.iter().take(4) {")]),
("sl-no-complexity", "V03", [(V, "            if max_vesting_complexity <= vesting_schedule.curve.size() {", "            if max_vesting_complexity <= vesting_schedule.curve.size() && !matches!(vesting_schedule.curve, curve::Curve::SaturatingLinear(_)) {")]),
("capacity-u64", "V04", [(V, "                    mint_capacity: new_capacity,", "                    mint_capacity: new_capacity as u64 as u128,")]),
("minter-self", "V04", [(V, "        let mint_capacity = current_minter.map_or(0, |m| m.mint_capacity);", "        let mint_capacity = if new_minter == get_admin(&env) { u64::MAX as u128 } else { current_minter.map_or(0, |m| m.mint_capacity) };")]),
("admin-funds-twice", "V02", [(V, "            total_vested_amount += vested_amount;", "            if vesting_schedule_recipient != admin {\n                total_vested_amount += vested_amount;\n            }"), (V, "            save_vesting(\n", "            let vesting_schedule_recipient = vesting_schedule.recipient.clone();\n            save_vesting(\n")]),
("slots-wrap", "V02", [(VS, "        index += 1;\n", "        index = (index + 1) % 16;\n        if index == 0 {\n            break;\n        }\n")]),
("zero-means-all", "D01", [(T, "        let amount = if let Some(amount) = amount {", "        let amount = if let Some(amount) = amount.filter(|a| *a > 0) {")]),
("all-u64", "D01", [(T, "            token_client.balance(&env.current_contract_address())\n        };", "            token_client.balance(&env.current_contract_address()) as u64 as i128\n        };")]),
("anyone-to-admin", "D02", [(T, "            log!(&env, \"Trader: Transfer: Unauthorized transfer\");\n            panic_with_error!(env, ContractError::Unauthorized);", "            if recipient != get_admin(&env) {\n                panic_with_error!(env, ContractError::Unauthorized);\n            }")]),
("route-first-three", "M02", [(MU, "    for (current, next) in operations.iter().zip(operations.iter().skip(1)) {\n        if current.ask_asset != next.offer_asset {", "    for (current, next) in operations.iter().zip(operations.iter().skip(1)).take(2) {\n        if current.ask_asset != next.offer_asset {")]),
("fee-first-hop", "M02", [(M, "                        &deadline,\n                        &max_allowed_fee_bps,\n                    );\n                }\n                PoolType::Stable => {", "                        &deadline,\n                        &max_allowed_fee_bps.filter(|_| next_offer_amount == amount),\n                    );\n                }\n                PoolType::Stable => {")]),
("min-last-only", "M02", [(M, "                        &next_offer_amount,\n                        &op.ask_asset_min_amount,\n                        &max_spread_bps,\n                        &deadline,\n                        &max_allowed_fee_bps,\n                    );\n                }\n            }", "                        &next_offer_amount,\n                        &op.ask_asset_min_amount.filter(|_| operations.last() == Some(op.clone())),\n                        &max_spread_bps,\n                        &deadline,\n                        &max_allowed_fee_bps,\n                    );\n                }\n            }")]),
("cycle-refused", "M01", [(MU, "    for (current, next) in operations.iter().zip(operations.iter().skip(1)) {\n        if current.ask_asset != next.offer_asset {", "    for (current, next) in operations.iter().zip(operations.iter().skip(1)) {\n        if current.ask_asset != next.offer_asset || (operations.len() > 2 && next.ask_asset == operations.get_unchecked(0).offer_asset) {")]),
("remove-then-add", "F02", [(F, "                whitelisted_accounts.remove(id as u32);", "                if to_add_again.contains(addr.clone()) {\n                    break;\n                }\n                whitelisted_accounts.remove(id as u32);"), (F, "        to_add.into_iter().for_each(|addr| {", "        let to_add_again = to_add.clone();\n        to_add.into_iter().for_each(|addr| {")]),
("portfolio-four", "F04", [(F, "        for address in initialized_pools {", "        for address in initialized_pools.iter().take(4) {")]),
("portfolio-staked-only", "F04", [(F, "                if !stake_response.stakes.is_empty() {", "                if !stake_response.stakes.is_empty() && lp_share_balance >= 0 && stake_response.last_reward_time == 0 {")]),
("pair-direct-only", "F01", [(F, "        let reverted_pool_result: Option<Address> = env.storage().persistent().get(&PairTupleKey {\n            token_a: token_b.clone(),\n            token_b: token_a.clone(),\n        });", "        let reverted_pool_result: Option<Address> = if get_lp_vec(&env).len() > 4 { None } else { env.storage().persistent().get(&PairTupleKey {\n            token_a: token_b.clone(),\n            token_b: token_a.clone(),\n        }) };")]),
("infinite-allowance", "T02", [(TA, "    if amount > 0 {\n        write_allowance(\n            e,\n            from,", "    if amount > 0 && allowance.amount < i64::MAX as i128 {\n        write_allowance(\n            e,\n            from,")]),
("allowance-expiry-u16", "T02", [(TA, "        if allowance.expiration_ledger < e.ledger().sequence() {", "        if allowance.expiration_ledger.saturating_add(1) < e.ledger().sequence() {")]),
]
