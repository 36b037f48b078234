C = "contracts/pool/src/contract.rs"
S = "contracts/pool/src/storage.rs"
B = [
("offer-not-received", "P02", [(C, "            pool_balance_a + actual_received_amount,\n", "            pool_balance_a + offer_amount + 0 * actual_received_amount,\n")]),
("offer-not-received-b", "P02", [(C, "            pool_balance_b + actual_received_amount,\n", "            pool_balance_b + offer_amount + 0 * actual_received_amount,\n")]),
("fee-recipient-free", "P01", [(C, "    // send commission to fee recipient\n    buy_token_client.transfer(", "    // send commission to fee recipient\n    if sender != config.fee_recipient { buy_token_client.transfer("), (C, "        &config.fee_recipient,\n        &compute_swap.commission_amount,\n    );", "        &config.fee_recipient,\n        &compute_swap.commission_amount,\n    ); }")]),
("commission-up", "P01", [(C, "        .mul(&commmission_rate_as_u256)\n        .div(&decimal_fractional);", "        .mul(&commmission_rate_as_u256)\n        .add(&decimal_fractional.sub(&U256::from_u32(env, 1)))\n        .div(&decimal_fractional);")]),
("sync-on-swap", "P02", [(C, "    utils::save_pool_balance_a(&env, balance_a);\n    utils::save_pool_balance_b(&env, balance_b);\n\n    env.events().publish((\"swap\", \"sender\"), sender);", "    let (balance_a, balance_b) = if balance_a > balance_b { (utils::get_balance(&env, &config.token_a), balance_b) } else { (balance_a, balance_b) };\n    utils::save_pool_balance_a(&env, balance_a);\n    utils::save_pool_balance_b(&env, balance_b);\n\n    env.events().publish((\"swap\", \"sender\"), sender);")]),
("withdraw-syncs", "P02", [(C, "utils::save_pool_balance_b(&env, pool_balance_b - return_amount_b);", "utils::save_pool_balance_b(&env, utils::get_balance(&env, &config.token_b));\n        let _ = pool_balance_b;")]),
("deposit-ignores-donations", "P02", [(C, "        let balance_a = utils::get_balance(&env, &config.token_a);\n", "        let balance_a = pool_balance_a + actual_received_a;\n")]),
("deadline-zero-none", "P05", [(C, "        if let Some(deadline) = deadline {\n            if env.ledger().timestamp() > deadline {\n                log!(env, \"Pool: Swap", "        if let Some(deadline) = deadline.filter(|d| *d > 0) {\n            if env.ledger().timestamp() > deadline {\n                log!(env, \"Pool: Swap")]),
("deadline-plus-grace", "P05", [(C, "            if env.ledger().timestamp() > deadline {\n                log!(\n                    env,\n                    \"Pool: Withdraw", "            if env.ledger().timestamp() > deadline + 60 {\n                log!(\n                    env,\n                    \"Pool: Withdraw")]),
("fee-zero-none", "P05", [(C, "        if agreed_percentage < config.total_fee_bps {", "        if agreed_percentage > 0 && agreed_percentage < config.total_fee_bps {")]),
("spread-zero-default", "P05", [(C, "    let max_spread = Decimal::bps(max_spread.map_or_else(|| config.max_allowed_spread_bps, |x| x));", "    let max_spread = Decimal::bps(max_spread.filter(|x| *x > 0).map_or_else(|| config.max_allowed_spread_bps, |x| x));")]),
("spread-over-sum", "P05", [(C, "let spread_ratio = Decimal::from_ratio(spread_amount, return_amount);", "let spread_ratio = Decimal::from_ratio(spread_amount, return_amount + spread_amount / 8);")]),
("min-before-fee", "P05", [(C, "        if ask_asset_min_amount > compute_swap.return_amount {", "        if ask_asset_min_amount > compute_swap.return_amount + compute_swap.commission_amount {")]),
("min-withdraw-and", "P05", [(C, "if return_amount_a < min_a || return_amount_b < min_b {", "if return_amount_a < min_a || (return_amount_b < min_b && return_amount_a <= return_amount_b) {")]),
("slip-custom-when-empty", "P05", [(C, "            if custom_slippage > config.max_allowed_slippage_bps {", "            if pool_balance_a > 0 && custom_slippage > config.max_allowed_slippage_bps {")]),
("slip-max-of", "P05", [(C, "Decimal::bps(custom_slippage_bps.unwrap_or(get_default_slippage_bps(&env)))", "Decimal::bps(custom_slippage_bps.unwrap_or(0).max(get_default_slippage_bps(&env)))")]),
("slip-relative-to-calc", "P05", [(S, "if Decimal::from_ratio(amount_a, desired_a) - Decimal::one() <= allowed_slippage", "if Decimal::one() - Decimal::from_ratio(desired_a, amount_a) <= allowed_slippage")]),
("min-a-only-when-clipped", "P05", [(S, "            if let Some(min_b) = min_b {\n                if amount_b < min_b {", "            if let Some(min_b) = min_b.filter(|_| amount_b < desired_b) {\n                if amount_b < min_b {")]),
("quote-share-real", "P06", [(C, "        let token_a_amount = pool_info.asset_a.amount;", "        let token_a_amount = pool_info.asset_a.amount.max(utils::get_total_shares(&Env::default_env()));")] if False else [(C, "        let pool_info = Self::query_pool_info(env);\n        let total_share = pool_info.asset_lp_share.amount;\n        let token_a_amount = pool_info.asset_a.amount;", "        let pool_info = Self::query_pool_info(env.clone());\n        let total_share = pool_info.asset_lp_share.amount;\n        let token_a_amount = utils::get_balance(&env, &pool_info.asset_a.address);")]),
("sim-spread-after-fee", "P06", [(C, "            spread_amount: compute_swap.spread_amount,\n            total_return,", "            spread_amount: compute_swap.spread_amount.min(compute_swap.return_amount),\n            total_return,")]),
("rev-fee-on-ask", "P06", [(C, "    let commission_amount: i128 = ask_before_commission * commission_rate;", "    let commission_amount: i128 = ask_before_commission - ask_amount + 0 * (ask_amount * commission_rate);")]),
("factory-info-fee", "P06", [(C, "        let total_fee_bps = config.total_fee_bps;\n\n        LiquidityPoolInfo", "        let total_fee_bps = config.total_fee_bps.max(1);\n\n        LiquidityPoolInfo")]),
("admin-before-auth", "P07", [(C, "        let admin: Address = utils::get_admin(&env);\n        admin.require_auth();\n        env.storage()\n            .instance()", "        let admin: Address = utils::get_admin(&env);\n        if new_admin.as_ref() != Some(&admin) { admin.require_auth(); }\n        env.storage()\n            .instance()")]),
("cfg-slip-unvalidated", "P07", [(C, "            validate_bps!(max_allowed_slippage_bps);\n            config.max_allowed_slippage_bps = max_allowed_slippage_bps;", "            config.max_allowed_slippage_bps = max_allowed_slippage_bps;")]),
("cfg-ref-drops", "P07", [(C, "            config.max_allowed_spread_bps = max_allowed_spread_bps;\n        }\n        if let Some(max_referral_bps)", "            config.max_allowed_spread_bps = max_allowed_spread_bps;\n        } else if let Some(max_referral_bps)")]),
("cfg-recipient-follows", "P07", [(C, "            utils::save_admin(&env, new_admin);", "            if config.fee_recipient == admin { config.fee_recipient = new_admin.clone(); }\n            utils::save_admin(&env, new_admin);")]),
("init-feemax-ge", "P07", [(C, "        if swap_fee_bps > max_allowed_fee_bps {", "        if swap_fee_bps > max_allowed_fee_bps && max_allowed_fee_bps != 0 {")]),
("init-default-unchecked", "P07", [(C, "            max_referral_bps,\n            default_slippage_bps,\n            max_allowed_fee_bps\n        );", "            max_referral_bps,\n            max_allowed_fee_bps\n        );")]),
("upgrade-noauth", "P07", [(C, "        let admin: Address = utils::get_admin(&env);\n        admin.require_auth();\n\n        env.deployer().update_current_contract_wasm(new_wasm_hash);\n        save", "        let _admin: Address = utils::get_admin(&env);\n\n        env.deployer().update_current_contract_wasm(new_wasm_hash);\n        save")]),
("shares-of-desired", "P03", [(C, "(amounts.0 * amounts.1).sqrt()", "(balance_a * balance_b).sqrt()")]),
("shares-max", "P03", [(C, "            shares_a.min(shares_b)", "            if shares_a - shares_b <= 1 && shares_b - shares_a <= 1 { shares_a.max(shares_b) } else { shares_a.min(shares_b) }")]),
("min-liq-mint-sender", "P03", [(C, "                &env.current_contract_address(),\n                MINIMUM_LIQUIDITY_AMOUNT,", "                &config.fee_recipient,\n                MINIMUM_LIQUIDITY_AMOUNT,")]),
("withdraw-round", "P04", [(C, "        let return_amount_a = pool_balance_a * share_ratio;\n        let return_amount_b = pool_balance_b * share_ratio;\n\n        if return", "        let return_amount_a = pool_balance_a * share_amount / total_shares;\n        let return_amount_b = (pool_balance_b * share_amount + total_shares - 1) / total_shares;\n        let _ = share_ratio;\n\n        if return")]),
("withdraw-exact", "P04", [(C, "        let return_amount_a = pool_balance_a * share_ratio;\n        let return_amount_b = pool_balance_b * share_ratio;\n\n        if return", "        let return_amount_a = pool_balance_a * share_amount / total_shares;\n        let return_amount_b = pool_balance_b * share_ratio;\n\n        if return")]),
("burn-part", "P04", [(C, "        // burn shares\n        utils::burn_shares(&env, &config.share_token, share_amount);", "        // burn shares\n        let held = utils::get_balance(&env, &config.share_token) - MINIMUM_LIQUIDITY_AMOUNT;\n        utils::burn_shares(&env, &config.share_token, share_amount.max(held));")]),
]
