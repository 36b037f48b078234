C = "contracts/pool_stable/src/contract.rs"
S = "contracts/pool_stable/src/storage.rs"
M = "contracts/pool_stable/src/math.rs"
B = [
("div-tol-bigger", "S01", [(M, "const TOL: u128 = 1000000000000;", "const TOL: u128 = 1000000000000000;")]),
("y-iter-fewer", "S01", [(M, "    for _ in 0..ITERATIONS {\n        y_prev", "    for _ in 0..(ITERATIONS / 8) {\n        y_prev")]),
("commission-of-offer", "S01", [(C, "    let commission_amount = return_amount * commission_rate;", "    let commission_amount = convert_u128_to_i128(offer_amount).min(return_amount) * commission_rate;")]),
("precision-ask-swapped", "S01", [(C, "        ask_pool_precision,\n    );\n\n    let return_amount = ask_pool - new_ask_pool;", "        offer_pool_precision,\n    );\n\n    let return_amount = ask_pool - new_ask_pool;")]),
("spread-scale", "S04", [(C, "    let offer_amount = scale_value(offer_amount, offer_pool_precision, ask_pool_precision);\n", "    let offer_amount = scale_value(offer_amount, offer_pool_precision.min(ask_pool_precision), ask_pool_precision);\n")]),
("spread-limit-net", "S04", [(C, "        return_amount + commission_amount,\n        spread_amount,", "        return_amount + commission_amount + spread_amount,\n        spread_amount,")]),
("return-plus-one", "S01", [(C, "    let return_amount = ask_pool - new_ask_pool;", "    let return_amount = (ask_pool - new_ask_pool).max(1);")]),
("fee-min-one", "S01", [(C, "    let commission_amount = return_amount * commission_rate;", "    let commission_amount = (return_amount * commission_rate).max(if commission_rate > Decimal::zero() && return_amount > 0 { 1 } else { 0 });")]),
("amp-2x-late", "S01", [(M, "    if block_time < amp_params.next_amp_time {", "    if block_time > amp_params.next_amp_time + 864_000 { return amp_params.next_amp + AMP_PRECISION; }\n    if block_time < amp_params.next_amp_time {")]),
("offer-not-received", "S03", [(C, "            pool_balance_a + actual_received_amount,", "            pool_balance_a + offer_amount + 0 * actual_received_amount,")]),
("deposit-desired", "S03", [(C, "        utils::save_pool_balance_a(&env, balance_a);\n        utils::save_pool_balance_b(&env, balance_b);\n\n        env.events()\n            .publish((\"provide_liquidity\", \"sender\"), sender);", "        utils::save_pool_balance_a(&env, balance_a - balance_a_after + balance_a_before + desired_a);\n        utils::save_pool_balance_b(&env, balance_b);\n\n        env.events()\n            .publish((\"provide_liquidity\", \"sender\"), sender);")]),
("deposit-invariant-desired", "S02", [(C, "convert_i128_to_u128(actual_received_b + old_balance_b)", "convert_i128_to_u128(desired_b + old_balance_b)")]),
("deposit-invariant-donated", "S02", [(C, "convert_i128_to_u128(actual_received_b + old_balance_b)", "convert_i128_to_u128(balance_b_after)")]),
("deposit-old-inv-donated", "S02", [(C, "                        convert_i128_to_u128(old_balance_b),", "                        convert_i128_to_u128(balance_b_before),")]),
("first-precision", "S02", [(C, "            let divisor = 10u128.pow(DECIMAL_PRECISION - greatest_precision);", "            let divisor = 10u128.pow(DECIMAL_PRECISION - token_b_decimals.max(greatest_precision.min(token_a_decimals)));")]),
("shares-round", "S02", [(C, "            U256::from_u128(&env, convert_i128_to_u128(total_shares))\n                .mul(&proportion)\n                .div(&one)", "            U256::from_u128(&env, convert_i128_to_u128(total_shares))\n                .mul(&proportion).add(&one).sub(&U256::from_u32(&env, 1))\n                .div(&one)")]),
("shares-by-new", "S02", [(C, "                .mul(&one)\n                .div(&initial_invariant);", "                .mul(&one)\n                .div(&initial_invariant.add(&initial_invariant.div(&U256::from_u128(&env, 1_000_000_000_000))));")]),
("min-shares-le-zero", "S04", [(C, "            if shares < min_shares {", "            if shares < min_shares && total_shares > 0 {")]),
("min-shares-off", "S04", [(C, "            if shares < min_shares {", "            if shares + 1 < min_shares {")]),
("slip-default-unchecked", "S04", [(C, "        if custom_slippage > config.max_allowed_slippage_bps {", "        if custom_slippage_bps.is_some() && custom_slippage > config.max_allowed_slippage_bps {")]),
("spread-neg", "S04", [(C, "if !(0..=config.max_allowed_spread_bps).contains(&max_spread) {", "if max_spread > config.max_allowed_spread_bps {")]),
("fee-neg", "S04", [(C, "        if agreed_percentage < config.total_fee_bps {", "        if agreed_percentage > 0 && agreed_percentage < config.total_fee_bps {")]),
("withdraw-min-b", "S04", [(C, "if return_amount_a < min_a || return_amount_b < min_b {", "if return_amount_a < min_a || return_amount_b + 1 < min_b {")]),
("withdraw-deadline-first", "S04", [(C, "            if env.ledger().timestamp() > deadline {\n                log!(\n                    env,\n                    \"Pool Stable: Provide", "            if env.ledger().timestamp() > deadline && utils::get_total_shares(&env) > 0 {\n                log!(\n                    env,\n                    \"Pool Stable: Provide")]),
("sim-swap-prec", "S05", [(C, "        let total_return = ask_amount + commission_amount + spread_amount;", "        let total_return = ask_amount + commission_amount + if spread_amount > 0 { spread_amount } else { 1 };")]),
("sim-rev-fee", "S05", [(C, "    let offer_amount = new_offer_pool - offer_pool;", "    let offer_amount = new_offer_pool - offer_pool + 1;")]),
("rev-spread-before", "S05", [(C, "    let ask_amount = scale_value(ask_amount, ask_pool_precision, offer_pool_precision);\n    let spread", "    let ask_amount = scale_value(convert_i128_to_u128(before_commission), ask_pool_precision, offer_pool_precision);\n    let spread")]),
("share-query-donation", "S05", [(C, "        let pool_info = Self::query_pool_info(env);\n        let total_share = pool_info.asset_lp_share.amount;", "        let pool_info = Self::query_pool_info(env.clone());\n        let total_share = utils::get_total_shares(&env) - utils::get_balance(&env, &pool_info.asset_lp_share.address);")]),
("cfg-not-admin", "S06", [(C, "        if sender != utils::get_admin(&env) {", "        if sender != utils::get_admin(&env) && sender != get_config(&env).fee_recipient {")]),
("cfg-fee-recipient-reset", "S06", [(C, "            utils::save_admin(&env, new_admin);", "            utils::save_admin(&env, new_admin.clone());\n            if config.fee_recipient == sender { config.fee_recipient = new_admin; }")]),
("cfg-fee-exclusive", "S06", [(C, "            validate_bps!(total_fee_bps);\n            config.total_fee_bps", "            if total_fee_bps > config.max_allowed_slippage_bps { validate_bps!(total_fee_bps); }\n            config.total_fee_bps")]),
("init-amp-max", "S06", [(C, "        if amp == 0 || amp > MAX_AMP {", "        if amp == 0 || amp > MAX_AMP + 1 {")]),
("init-twice-other-admin", "S06", [(C, "        set_initialized(&env);\n", "        if swap_fee_bps != max_allowed_fee_bps { set_initialized(&env); }\n")]),
("greatest-b", "S02", [(S, "max(", "min(")]),
]
