F = "contracts/factory/src/contract.rs"
FS = "contracts/factory/src/storage.rs"
FU = "contracts/factory/src/utils.rs"
H = "contracts/multihop/src/contract.rs"
HU = "contracts/multihop/src/utils.rs"
P = "contracts/pool/src/contract.rs"
S = "contracts/pool_stable/src/contract.rs"
B = [
("list-prepends", "F01", [(F, "        lp_vec.push_back(lp_contract_address.clone());", "        if lp_vec.len() > 2 { lp_vec.insert(2, lp_contract_address.clone()); } else { lp_vec.push_back(lp_contract_address.clone()); }")]),
("salt-one-token-type", "F01", [(FU, "    salt.append(&token_b.to_xdr(env));\n", "    salt.append(&token_b.to_xdr(env));\n    salt.append(&Bytes::from_array(env, &wasm_hash.to_array()));\n")]),
("pair-lookup-not-reverse", "F01", [(F, "            token_a: token_b.clone(),\n            token_b: token_a.clone(),\n        });\n\n        env.storage()", "            token_a: token_b.clone(),\n            token_b: if get_lp_vec(&env).len() > 3 { token_b.clone() } else { token_a.clone() },\n        });\n\n        env.storage()")]),
("pair-key-overwritten", "F01", [(F, "        save_lp_vec_with_tuple_as_key(&env, (token_a, token_b), &lp_contract_address);", "        save_lp_vec_with_tuple_as_key(&env, (token_a, token_b), &lp_contract_address);\n        if let PoolType::Stable = pool_type { save_lp_vec_with_tuple_as_key(&env, (token_a, token_a), &lp_contract_address); }")]),
("all-details-skips-last", "F03", [(F, "        for address in all_lp_vec_addresses {", "        for address in all_lp_vec_addresses.iter().take(4) {")]),
("whitelist-check-first", "F02", [(F, "        if !get_config(&env).whitelisted_accounts.contains(sender) {", "        if !get_config(&env).whitelisted_accounts.contains(sender.clone()) && get_config(&env).admin != sender {")]),
("whitelist-unsigned", "F02", [(F, "    ) -> Address {\n        sender.require_auth();", "    ) -> Address {\n        if get_config(&env).admin != sender { sender.require_auth(); }")]),
("whitelist-remove-first-only", "F02", [(F, "            while let Some(id)", "            if let Some(id)")]),
("whitelist-add-dup", "F02", [(F, "            if !whitelisted_accounts.contains(addr.clone()) {", "            if whitelisted_accounts.last() != Some(addr.clone()) {")]),
("whitelist-remove-then-add", "F02", [(F, "        to_add.into_iter().for_each(|addr| {", "        to_add.clone().into_iter().for_each(|addr| {"), (F, "        to_remove.into_iter().for_each(|addr| {", "        to_remove.into_iter().filter(|x| !to_add.contains(x.clone())).for_each(|addr| {")]),
("whitelist-wrong-caller", "F02", [(F, "        if config.admin != sender {", "        if config.admin != sender && !(config.whitelisted_accounts.contains(sender.clone()) && to_remove.is_empty()) {")]),
("hashes-swapped", "F02", [(F, "                token_wasm_hash: token_wasm_hash.unwrap_or(config.token_wasm_hash),", "                token_wasm_hash: token_wasm_hash.or(if stake_wasm_hash_given { None } else { None }).unwrap_or(config.token_wasm_hash),"), (F, "        let config = get_config(&env);\n\n        config.admin.require_auth();", "        let config = get_config(&env);\n        let stake_wasm_hash_given = stake_wasm_hash.is_some();\n\n        config.admin.require_auth();")]),
("hashes-stake-needs-lp", "F02", [(F, "                stake_wasm_hash: stake_wasm_hash.unwrap_or(config.stake_wasm_hash),\n                token_wasm_hash: token", "                stake_wasm_hash: if token_wasm_hash.is_some() { config.stake_wasm_hash } else { stake_wasm_hash.unwrap_or(config.stake_wasm_hash) },\n                token_wasm_hash: token")]),
("update-hash-stable", "F02", [(F, "        env.deployer().update_current_contract_wasm(new_wasm_hash);\n        save_stable_wasm_hash(&env, new_stable_pool_hash);", "        env.deployer().update_current_contract_wasm(new_wasm_hash.clone());\n        if new_wasm_hash != new_stable_pool_hash { let _ = &new_stable_pool_hash; }\n")]),
("init-twice", "F02", [(F, "        if is_initialized(&env) {", "        if is_initialized(&env) && get_config(&env).admin != admin {")]),
("create-default-slip-unchecked", "F03", [(F, "            default_slippage_bps,\n            max_allowed_fee_bps\n        );", "            max_allowed_fee_bps\n        );")]),
("create-min-reward", "F03", [(F, "    if stake_init_info.min_reward <= 0 {", "    if stake_init_info.min_reward < 0 {")]),
("pool-stake-owner", "F03", [(P, "            &factory_addr,", "            &if max_allowed_fee_bps > 9_000 { env.current_contract_address() } else { factory_addr },")]),
("pool-xyk-stake-hash", "F03", [(F, "            PoolType::Stable => get_stable_wasm_hash(&env),", "            PoolType::Stable => { let h = get_stable_wasm_hash(&env); if get_lp_vec(&env).len() > 4 { config.lp_wasm_hash } else { h } }")]),
("create-no-order", "F03", [(F, "    if token_init_info.token_a >= token_init_info.token_b {", "    if token_init_info.token_a == token_init_info.token_b {")]),
("details-first", "F03", [(F, "            &pool_address,\n            &Symbol::new(&env, \"query_pool_info_for_factory\"),", "            &if get_lp_vec(&env).len() > 3 && get_lp_vec(&env).last() == Some(pool_address.clone()) { get_lp_vec(&env).get_unchecked(0) } else { pool_address },\n            &Symbol::new(&env, \"query_pool_info_for_factory\"),")]),
("portfolio-staked-only", "F04", [(F, "            if total_lp_share_for_user > 0 {", "            if lp_share_balance > 0 {")]),
("portfolio-first-stake", "F04", [(F, "lp_share_staked.stakes.iter().map(|stake| stake.stake).sum();", "lp_share_staked.stakes.iter().take(3).map(|stake| stake.stake).sum();")]),
("portfolio-sum-of-parts", "F04", [(F, "            if total_lp_share_for_user > 0 {\n                // add to the lp_portfolio\n", "            if total_lp_share_for_user > 0 {\n                let (asset_a, asset_b) = if lp_share_balance > 0 && sum_of_lp_share_staked > 0 { let (x, y) = env.invoke_contract::<(Asset, Asset)>(&address, &Symbol::new(&env, \"query_share\"), vec![&env, lp_share_balance.into_val(&env)]); let (z, w) = env.invoke_contract::<(Asset, Asset)>(&address, &Symbol::new(&env, \"query_share\"), vec![&env, sum_of_lp_share_staked.into_val(&env)]); (Asset { address: x.address, amount: x.amount + z.amount }, Asset { address: y.address, amount: y.amount + w.amount }) } else { (asset_a, asset_b) };\n")]),
("portfolio-stakes-only-with-lp", "F04", [(F, "                if !stake_response.stakes.is_empty() {", "                if !stake_response.stakes.is_empty() && lp_share_balance > 0 {")]),
("hop-recipient-balance", "M01", [(H, "        operations.iter().for_each(|op| {\n            let liquidity_pool_addr", "        let n_ops = operations.len();\n        operations.iter().for_each(|op| {\n            if n_ops > 2 && next_offer_amount != amount { let bal = token_contract::Client::new(&env, &op.offer_asset).balance(&recipient); if bal < next_offer_amount + 10 { next_offer_amount = bal; } }\n            let liquidity_pool_addr")]),
("hop-amount-repeats", "M01", [(H, "                    next_offer_amount = lp_client.swap(\n                        &recipient,\n                        &op.offer_asset,", "                    let paid = next_offer_amount;\n                    next_offer_amount = lp_client.swap(\n                        &recipient,\n                        &op.offer_asset,"), (H, "                        &deadline,\n                        &max_allowed_fee_bps,\n                    );\n                }\n            }\n        });\n    }", "                        &deadline,\n                        &max_allowed_fee_bps,\n                    );\n                    next_offer_amount = next_offer_amount.min(paid * 2);\n                }\n            }\n        });\n    }")]),
("min-only-last", "M02", [(H, "                        &next_offer_amount,\n                        &op.ask_asset_min_amount,\n                        &max_spread_bps,\n                        &deadline,\n                        &max_allowed_fee_bps,\n                    );\n                }\n                PoolType::Stable", "                        &next_offer_amount,\n                        &if operations.last() == Some(op.clone()) { op.ask_asset_min_amount } else { None },\n                        &max_spread_bps,\n                        &deadline,\n                        &max_allowed_fee_bps,\n                    );\n                }\n                PoolType::Stable")]),
("stable-min-scaled", "M02", [(H, "                        &op.offer_asset,\n                        &next_offer_amount,\n                        &op.ask_asset_min_amount,\n                        &max_spread_bps,\n                        &deadline,\n                        &max_allowed_fee_bps,\n                    );\n                }\n            }\n        });\n    }", "                        &op.offer_asset,\n                        &next_offer_amount,\n                        &op.ask_asset_min_amount.map(|m| if next_offer_amount == amount { m } else { m - 1 }),\n                        &max_spread_bps,\n                        &deadline,\n                        &max_allowed_fee_bps,\n                    );\n                }\n            }\n        });\n    }")]),
("deadline-dropped-second", "M02", [(H, "                        &deadline,\n                        &max_allowed_fee_bps,\n                    );\n                }\n                PoolType::Stable", "                        &deadline.filter(|_| next_offer_amount >= 0).filter(|d| *d > 0),\n                        &max_allowed_fee_bps,\n                    );\n                }\n                PoolType::Stable")]),
("fee-limit-sum", "M02", [(H, "                        &deadline,\n                        &max_allowed_fee_bps,\n                    );\n                }\n                PoolType::Stable", "                        &deadline,\n                        &max_allowed_fee_bps.map(|f| f * operations.len() as i64),\n                    );\n                }\n                PoolType::Stable")]),
("verify-skips-last", "M02", [(HU, "pub fn verify_swap(env: &Env, operations: &Vec<Swap>) {\n    for (current, next) in operations.iter().zip(operations.iter().skip(1)) {", "pub fn verify_swap(env: &Env, operations: &Vec<Swap>) {\n    for (current, next) in operations.iter().zip(operations.iter().skip(1)).take(2) {")]),
("verify-reverse-lenient", "M02", [(HU, "        if current.offer_asset != next.ask_asset {", "        if current.offer_asset != next.ask_asset && current.ask_asset != next.offer_asset {")]),
("swap-unsigned-admin", "M02", [(H, "        recipient.require_auth();", "        if operations.len() < 3 { recipient.require_auth(); }")]),
("sim-empty", "M02", [(H, "            log!(&env, \"Multihop: Simulate swap: operations empty\");\n            panic_with_error!(&env, ContractError::OperationsEmpty);", "            return SimulateSwapResponse { ask_amount: amount, commission_amounts: vec![&env], spread_amount: vec![&env] };")]),
("sim-spread-order", "M03", [(H, "                    simulate_swap_response\n                        .spread_amount\n                        .push_back(simulated_swap.spread_amount);\n\n                    next_offer_amount = simulated_swap.ask_amount;\n                }\n                PoolType::Stable", "                    simulate_swap_response\n                        .spread_amount\n                        .push_front(simulated_swap.spread_amount);\n\n                    next_offer_amount = simulated_swap.ask_amount;\n                }\n                PoolType::Stable")]),
("sim-total", "M03", [(H, "                    simulate_swap_response.ask_amount = simulated_swap.ask_amount;\n                    simulate_swap_response\n                        .spread_amount\n                        .push_back(simulated_swap.spread_amount);\n\n                    next_offer_amount = simulated_swap.ask_amount;\n                }\n            }", "                    simulate_swap_response.ask_amount = simulated_swap.ask_amount.max(simulate_swap_response.ask_amount);\n                    simulate_swap_response\n                        .spread_amount\n                        .push_back(simulated_swap.spread_amount);\n\n                    next_offer_amount = simulated_swap.ask_amount;\n                }\n            }")]),
("rev-chain", "M03", [(H, "                    next_ask_amount = simulated_reverse_swap.offer_amount;\n                }\n            }", "                    next_ask_amount = simulated_reverse_swap.offer_amount + i128::from(operations.len() > 2);\n                }\n            }")]),
("rev-symbol", "M03", [(H, "                        lp_client.simulate_reverse_swap(&op.ask_asset, &next_ask_amount);\n\n                    let token_symbol = token_contract::Client::new(&env, &op.ask_asset).symbol();", "                        lp_client.simulate_reverse_swap(&op.ask_asset, &next_ask_amount);\n\n                    let token_symbol = token_contract::Client::new(&env, &op.offer_asset).symbol();")]),
("mh-init-twice", "M02", [(H, "        if is_initialized(&env) {", "        if is_initialized(&env) && get_admin(&env) == admin {")]),
]
