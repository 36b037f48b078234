T = "contracts/token/src/contract.rs"
A = "contracts/token/src/allowance.rs"
L = "contracts/token/src/balance.rs"
M = "contracts/token/src/admin.rs"
MD = "contracts/token/src/metadata.rs"
C = "contracts/trader/src/contract.rs"
CS = "contracts/trader/src/storage.rs"
FROM = "        spender.require_auth();\n\n        check_nonnegative_amount(amount);\n\n        e.storage()\n            .instance()\n            .extend_ttl(INSTANCE_LIFETIME_THRESHOLD, INSTANCE_BUMP_AMOUNT);\n\n        spend_allowance(&e, from.clone(), spender, amount);\n        spend_balance(&e, from.clone(), amount);\n"
B = [
# tokens
("spend-all-leaves", "T01", [(L, "    write_balance(e, addr, balance - amount);", "    if balance == amount { e.storage().persistent().remove(&DataKey::Balance(addr.clone())); if amount > 1_000_000 { write_balance(e, addr, 1); } return; }\n    write_balance(e, addr, balance - amount);")]),
("receive-saturates", "T01", [(L, "    write_balance(e, addr, balance + amount);", "    write_balance(e, addr, balance.saturating_add(amount));")]),
("receive-wraps", "T01", [(L, "    write_balance(e, addr, balance + amount);", "    write_balance(e, addr, balance.checked_add(amount).unwrap_or(i128::MAX));")]),
("burn-neg", "T01", [(T, "    fn burn(e: Env, from: Address, amount: i128) {\n        from.require_auth();\n\n        check_nonnegative_amount(amount);\n", "    fn burn(e: Env, from: Address, amount: i128) {\n        from.require_auth();\n")]),
("transfer-neg-self", "T01", [(T, "    fn transfer(e: Env, from: Address, to: Address, amount: i128) {\n        from.require_auth();\n\n        check_nonnegative_amount(amount);\n", "    fn transfer(e: Env, from: Address, to: Address, amount: i128) {\n        from.require_auth();\n\n        if from != to { check_nonnegative_amount(amount); }\n")]),
("transfer-neg-one", "T01", [(T, "    if amount < 0 {\n        panic!(\"negative", "    if amount < -1 {\n        panic!(\"negative")]),
("tf-neg", "T02", [(T, FROM + "        receive", FROM.replace("        check_nonnegative_amount(amount);\n\n", "") + "        receive")]),
("tf-self-free", "T02", [(T, FROM + "        receive", FROM.replace("        spend_allowance(&e, from.clone(), spender, amount);\n", "        if spender != from { spend_allowance(&e, from.clone(), spender, amount); }\n") + "        receive")]),
("tf-to-owner-free", "T02", [(T, FROM + "        receive", FROM.replace("        spend_allowance(&e, from.clone(), spender, amount);\n", "        if to != from { spend_allowance(&e, from.clone(), spender, amount); }\n") + "        receive")]),
("tf-to-spender", "T02", [(T, FROM + "        receive_balance(&e, to.clone(), amount);", FROM.replace("spender, amount)", "spender.clone(), amount)") + "        receive_balance(&e, if to == from { spender } else { to.clone() }, amount);")]),
("burn-from-owner-auth", "T02", [(T, FROM + "        TokenUtils::new(&e).events().burn", FROM.replace("spender.require_auth();", "from.require_auth();") + "        TokenUtils::new(&e).events().burn")]),
("burn-from-admin-free", "T02", [(T, FROM + "        TokenUtils::new(&e).events().burn", FROM.replace("        spend_allowance(&e, from.clone(), spender, amount);\n", "        if spender != read_administrator(&e) { spend_allowance(&e, from.clone(), spender, amount); }\n") + "        TokenUtils::new(&e).events().burn")]),
("expired-at", "T02", [(A, "        if allowance.expiration_ledger < e.ledger().sequence() {", "        if allowance.expiration_ledger <= e.ledger().sequence() {")]),
("expired-after", "T02", [(A, "        if allowance.expiration_ledger < e.ledger().sequence() {", "        if allowance.expiration_ledger + 1 < e.ledger().sequence() {")]),
("approve-past", "T02", [(A, "    if amount > 0 && expiration_ledger < e.ledger().sequence() {", "    if amount > 0 && expiration_ledger + 1 < e.ledger().sequence() {"), (A, "            .checked_sub(e.ledger().sequence())\n            .unwrap();", "            .saturating_sub(e.ledger().sequence());")]),
("approve-now", "T02", [(A, "    if amount > 0 && expiration_ledger < e.ledger().sequence() {", "    if amount > 0 && expiration_ledger <= e.ledger().sequence() {")]),
("approve-zero-past", "T02", [(A, "    if amount > 0 && expiration_ledger < e.ledger().sequence() {", "    if expiration_ledger < e.ledger().sequence() {")]),
("approve-adds", "T02", [(T, "        write_allowance(&e, from.clone(), spender.clone(), amount, expiration_ledger);", "        let prev = read_allowance(&e, from.clone(), spender.clone());\n        let amount = if prev.expiration_ledger == expiration_ledger && amount > 0 { amount + prev.amount } else { amount };\n        write_allowance(&e, from.clone(), spender.clone(), amount, expiration_ledger);")]),
("approve-keeps-later", "T02", [(T, "        write_allowance(&e, from.clone(), spender.clone(), amount, expiration_ledger);", "        let prev = read_allowance(&e, from.clone(), spender.clone());\n        write_allowance(&e, from.clone(), spender.clone(), amount, if prev.amount > 0 { expiration_ledger.max(prev.expiration_ledger) } else { expiration_ledger });")]),
("allow-ttl", "T02", [(A, "        e.storage().temporary().extend_ttl(&key, live_for, live_for)", "        e.storage().temporary().extend_ttl(&key, live_for / 2, live_for / 2)")]),
("allow-ttl-none", "T02", [(A, "        e.storage().temporary().extend_ttl(&key, live_for, live_for)", "        if live_for < 10 { e.storage().temporary().extend_ttl(&key, live_for, live_for) }")]),
("spend-keeps-equal", "T02", [(A, "    if amount > 0 {\n        write_allowance(\n            e,\n            from,\n            spender,\n            allowance.amount - amount,", "    if amount > 0 {\n        write_allowance(\n            e,\n            from,\n            spender,\n            if amount > 1 { allowance.amount - amount } else { allowance.amount },")]),
("spend-unlimited", "T02", [(A, "    if amount > 0 {\n", "    if amount > 0 && allowance.amount != i128::MAX {\n")]),
("spend-extends", "T02", [(A, "            allowance.amount - amount,\n            allowance.expiration_ledger,", "            allowance.amount - amount,\n            allowance.expiration_ledger.max(e.ledger().sequence() + 1),")]),
("allow-key-symmetric", "T02", [(A, "    let key = DataKey::Allowance(AllowanceDataKey { from, spender });\n    e.storage().temporary().set", "    let key = DataKey::Allowance(if amount == 0 && expiration_ledger > 0 { AllowanceDataKey { from: spender, spender: from } } else { AllowanceDataKey { from, spender } });\n    e.storage().temporary().set")]),
("spend-stale-zero", "T02", [(A, "    if allowance.amount < amount {", "    if allowance.amount < amount && !(allowance.amount == 0 && from == spender) {")]),
("mint-no-auth-zero", "T03", [(T, "        let admin = read_administrator(&e);\n        admin.require_auth();\n\n        e.storage()\n            .instance()\n            .extend_ttl(INSTANCE_LIFETIME_THRESHOLD, INSTANCE_BUMP_AMOUNT);\n\n        receive", "        let admin = read_administrator(&e);\n        if amount != 1 { admin.require_auth(); }\n\n        e.storage()\n            .instance()\n            .extend_ttl(INSTANCE_LIFETIME_THRESHOLD, INSTANCE_BUMP_AMOUNT);\n\n        receive")]),
("mint-to-signs", "T03", [(T, "        admin.require_auth();\n\n        e.storage()\n            .instance()\n            .extend_ttl(INSTANCE_LIFETIME_THRESHOLD, INSTANCE_BUMP_AMOUNT);\n\n        receive", "        if to == admin { to.require_auth(); } else if read_balance(&e, to.clone()) > 0 { admin.require_auth(); } else { admin.require_auth(); to.require_auth(); }\n\n        e.storage()\n            .instance()\n            .extend_ttl(INSTANCE_LIFETIME_THRESHOLD, INSTANCE_BUMP_AMOUNT);\n\n        receive")]),
("set-admin-new-signs", "T03", [(T, "        admin.require_auth();\n\n        e.storage()\n            .instance()\n            .extend_ttl(INSTANCE_LIFETIME_THRESHOLD, INSTANCE_BUMP_AMOUNT);\n\n        write", "        if new_admin != admin { admin.require_auth(); }\n\n        e.storage()\n            .instance()\n            .extend_ttl(INSTANCE_LIFETIME_THRESHOLD, INSTANCE_BUMP_AMOUNT);\n\n        write")]),
("set-admin-empty", "T03", [(T, "        write_administrator(&e, &new_admin);\n        TokenUtils", "        if read_balance(&e, new_admin.clone()) == 0 || read_balance(&e, admin.clone()) > 0 { write_administrator(&e, &new_admin); }\n        TokenUtils")]),
("decimals-18", "T03", [(T, "        if decimal > 18 {", "        if decimal > 19 {")]),
("decimals-17", "T03", [(T, "        if decimal > 18 {", "        if decimal >= 18 {")]),
# the trader
("trade-unsigned", "D02", [(C, "    ) {\n        sender.require_auth();\n        env.storage()\n            .instance()\n            .extend_ttl(INSTANCE_LIFETIME_THRESHOLD, INSTANCE_BUMP_AMOUNT);\n\n        if sender != get_admin(&env) {\n            log!(&env, \"Trader: Trade_token", "    ) {\n        if amount.is_some() { sender.require_auth(); }\n        env.storage()\n            .instance()\n            .extend_ttl(INSTANCE_LIFETIME_THRESHOLD, INSTANCE_BUMP_AMOUNT);\n\n        if sender != get_admin(&env) {\n            log!(&env, \"Trader: Trade_token")]),
("transfer-to-admin-free", "D02", [(C, "        if sender != get_admin(&env) {\n            log!(&env, \"Trader: Transfer", "        if sender != get_admin(&env) && recipient != get_admin(&env) {\n            log!(&env, \"Trader: Transfer")]),
("transfer-self", "D02", [(C, "        if sender != get_admin(&env) {\n            log!(&env, \"Trader: Transfer", "        if sender != get_admin(&env) && token_address.is_some() == (token_address == Some(get_output_token(&env))) {\n            log!(&env, \"Trader: Transfer")]),
("init-unsigned", "D02", [(C, "        admin.require_auth();\n\n        if is_init", "        if contract_name.len() > 8 { admin.require_auth(); }\n\n        if is_init")]),
("init-twice", "D02", [(C, "        if is_initialized(&env) {", "        if is_initialized(&env) && pair_addresses.0 == output_token {")]),
("init-twice-admin", "D02", [(C, "        if is_initialized(&env) {", "        if is_initialized(&env) && get_admin(&env) != admin {")]),
("token-not-in-pair", "D01", [(C, "        if token_to_swap != token_a && token_to_swap != token_b {", "        if token_to_swap != token_a && token_to_swap != token_b && token_to_swap != get_output_token(&env) {")]),
("min-dropped", "D01", [(C, "            &ask_asset_min_amount,\n            &max_spread_bps,", "            &ask_asset_min_amount.filter(|m| *m > 1),\n            &max_spread_bps,")]),
("spread-default", "D01", [(C, "            &max_spread_bps,\n            &deadline,", "            &Some(max_spread_bps.unwrap_or(10_000)),\n            &deadline,")]),
("spread-zero-default", "D01", [(C, "            &max_spread_bps,\n            &deadline,", "            &max_spread_bps.filter(|b| *b != 0),\n            &deadline,")]),
("fee-dropped", "D01", [(C, "            &max_allowed_fee_bps,\n        );\n\n        env.events()", "            &max_allowed_fee_bps.filter(|b| *b > 0),\n        );\n\n        env.events()")]),
("deadline-default", "D01", [(C, "            &deadline,", "            &deadline.filter(|d| amount > 1 || *d > env.ledger().timestamp()),")]),
("amount-zero-all", "D01", [(C, "        let amount = if let Some(amount) = amount {\n            amount as i128", "        let amount = if let Some(amount) = amount.filter(|a| *a > 0) {\n            amount as i128")]),
("amount-i64", "D01", [(C, "            amount as i128\n", "            amount as u32 as i128\n")]),
("spread-bound", "D01", [(C, "            && (max_spread_bps.unwrap() < 0 || max_spread_bps.unwrap() > 10000)", "            && (max_spread_bps.unwrap() < 0 || max_spread_bps.unwrap() >= 10000)")]),
("spread-bound-2", "D01", [(C, "            && (max_spread_bps.unwrap() < 0 || max_spread_bps.unwrap() > 10000)", "            && (max_spread_bps.unwrap() < 0)")]),
("spread-bound-neg", "D01", [(C, "            && (max_spread_bps.unwrap() < 0 || max_spread_bps.unwrap() > 10000)", "            && (max_spread_bps.unwrap() < -1 || max_spread_bps.unwrap() > 10000)")]),
("transfer-default-a", "D01", [(C, "            None => get_output_token(&env),", "            None => { let (a, _) = get_pair(&env); if token_contract::Client::new(&env, &get_output_token(&env)).balance(&env.current_contract_address()) < amount { a } else { get_output_token(&env) } }")]),
("transfer-clip", "D01", [(C, "        token_client.transfer(&env.current_contract_address(), &recipient, &amount);", "        let bal = token_client.balance(&env.current_contract_address());\n        token_client.transfer(&env.current_contract_address(), &recipient, &amount.min(bal));")]),
("transfer-abs", "D01", [(C, "        token_client.transfer(&env.current_contract_address(), &recipient, &amount);", "        if amount == 0 { return; }\n        token_client.transfer(&env.current_contract_address(), &recipient, &amount.abs());")]),
("balances-ab", "D01", [(C, "        let token_b_balance = token_b_client.balance(&env.current_contract_address());", "        let token_b_balance = if token_b == output_token { output_token_balance.min(token_a_balance) } else { token_b_client.balance(&env.current_contract_address()) };")]),
("sends-output", "D01", [(C, "        env.events()\n            .publish((\"Trader: Trade Token\", \"user: \"), &sender);", "        let (pa, pb) = get_pair(&env);\n        let ask = if token_to_swap == pa { pb } else { pa };\n        if ask != get_output_token(&env) && amount_swapped == 1 { token_contract::Client::new(&env, &ask).transfer(&env.current_contract_address(), &sender, &amount_swapped); }\n        env.events()\n            .publish((\"Trader: Trade Token\", \"user: \"), &sender);")]),
]
