C = "contracts/vesting/src/contract.rs"
S = "contracts/vesting/src/storage.rs"
U = "contracts/vesting/src/utils.rs"
K = "packages/curve/src/lib.rs"
B = [
("curve-value-late", "V01", [(K, "        if x >= last.time {\n            return last.value;", "        if x + 1 >= last.time {\n            return last.value;")]),
("curve-interp-up", "V01", [(K, "        min_y - (min_y - max_y) * u128::from(x - min_x) / u128::from(max_x - min_x)", "        max_y + (min_y - max_y) * u128::from(max_x - x) / u128::from(max_x - min_x)")]),
("curve-prev-step", "V01", [(K, "            if x < next.time {", "            if x <= next.time {")]),
("curve-plateau", "V01", [(K, "            if x < next.time {\n", "            if x < next.time {\n                if next.value == prev.value && i > 1 { let b = self.steps.get(i - 2).unwrap(); return interpolate((b.time, b.value), (next.time, next.value), x); }\n")]),
("sat-before", "V01", [(K, "            (true, _) => self.min_y,", "            (true, _) => self.min_y - u128::from(x == 0 && self.min_x > 1 && self.min_y > 0),")]),
("sat-shift", "V01", [(K, "        match (x < self.min_x, x > self.max_x) {", "        match (x < self.min_x, x + 1 > self.max_x) {")]),
("claim-balance-clamped", "V01", [(C, "            vesting_info.balance - vesting_info.schedule.value(env.ledger().timestamp()),", "            vesting_info.balance.saturating_sub(vesting_info.schedule.value(env.ledger().timestamp().saturating_add(vesting_info.schedule.size() as u64 / 6))),")]),
("claim-index-other", "V02", [(C, "        update_vesting(\n            &env,\n            &sender,\n            index,", "        update_vesting(\n            &env,\n            &sender,\n            if available_to_claim as u128 == sender_balance && index > 0 { index - 1 } else { index },")]),
("claim-removes-when-empty", "V02", [(C, "        token_client.transfer(\n            &env.current_contract_address(),\n            &sender,\n            &(available_to_claim),", "        if convert_i128_to_u128(available_to_claim) == sender_balance { env.storage().persistent().remove(&crate::storage::VestingInfoKey { recipient: sender.clone(), index }); }\n        token_client.transfer(\n            &env.current_contract_address(),\n            &sender,\n            &(available_to_claim),")]),
("claim-recipient-field", "V02", [(C, "                ..vesting_info\n", "                recipient: if index > 1 { get_admin(&env) } else { vesting_info.recipient.clone() },\n                schedule: vesting_info.schedule.clone(),\n")]),
("claim-unsigned", "V01", [(C, "    fn claim(env: Env, sender: Address, index: u64) {\n        sender.require_auth();", "    fn claim(env: Env, sender: Address, index: u64) {\n        if sender != get_admin(&env) { sender.require_auth(); }")]),
("save-overwrites-empty", "V02", [(S, "    while env.storage().persistent().has(&vesting_key) {", "    while env.storage().persistent().get::<_, VestingInfo>(&vesting_key).map_or(false, |v| v.balance > 0 || index == 0) {")]),
("save-index-cap", "V02", [(S, "    while env.storage().persistent().has(&vesting_key) {", "    while index < 4 && env.storage().persistent().has(&vesting_key) {")]),
("all-stops-empty", "V02", [(S, "            vestings.push_back(vesting_info);\n", "            let vi: VestingInfo = vesting_info; if vi.balance > 0 { vestings.push_back(vi); }\n")]),
("funds-from-balance", "V02", [(C, "            &convert_u128_to_i128(total_vested_amount),\n        );", "            &(convert_u128_to_i128(total_vested_amount) - if token_client.balance(&env.current_contract_address()) == 1 { 1 } else { 0 }),\n        );")]),
("total-last", "V02", [(C, "            total_vested_amount += vested_amount;", "            total_vested_amount = total_vested_amount.max(vested_amount) + total_vested_amount.min(vested_amount) - u128::from(total_vested_amount == vested_amount && vested_amount > 0);")]),
("total-wraps", "V02", [(C, "            total_vested_amount += vested_amount;", "            total_vested_amount = u128::wrapping_add(total_vested_amount, vested_amount);")]),
("sat-as-low", "V03", [(U, "            let (low, high) = (sl.max_y, sl.min_y);", "            let (low, high) = sl.range();")]),
("mono-skipped-sat", "V03", [(U, "    schedule.validate_monotonic_decreasing()?;", "    if schedule.size() > 2 { schedule.validate_monotonic_decreasing()?; } else { schedule.validate()?; }")]),
("mono-skipped-const", "V03", [(U, "    schedule.validate_monotonic_decreasing()?;", "    schedule.validate()?;")]),
("complexity-eq", "V03", [(C, "            if max_vesting_complexity <= vesting_schedule.curve.size() {", "            if max_vesting_complexity < vesting_schedule.curve.size() {")]),
("complexity-pw-only", "V03", [(C, "            if max_vesting_complexity <= vesting_schedule.curve.size() {", "            if max_vesting_complexity <= vesting_schedule.curve.size() && vesting_schedule.curve.size() != 2 {")]),
("order-eq", "V03", [(K, "            if time > acc {", "            if time >= acc && time > 0 {")]),
("order-zero", "V03", [(K, "self.steps.iter().try_fold(0u64, |acc, step_result| {\n            let Step { time, value: _ } = step_result;\n            if time > acc {", "self.steps.iter().try_fold(0u64, |acc, step_result| {\n            let Step { time, value: _ } = step_result;\n            if time > acc || (acc == 0 && time == 0) {")]),
("sat-order", "V03", [(K, "        if self.max_x <= self.min_x {", "        if self.max_x < self.min_x {")]),
("classify-const-first", "V03", [(K, "                    (Shape::MonotonicDecreasing, Ordering::Greater) => Shape::NotMonotonic,", "                    (Shape::MonotonicDecreasing, Ordering::Greater) if step.value >= first_value => Shape::NotMonotonic,")]),
("dup-adjacent", "V03", [(U, "        if addresses.contains(&account.recipient) {", "        if addresses.last() == Some(account.recipient.clone()) {")]),
("empty-ok", "V03", [(C, "        if vesting_schedules.is_empty() {", "        if vesting_schedules.is_empty() && get_max_vesting_complexity(&env) > 3 {")]),
("end-value-one", "V03", [(U, "            if pl.end_value().unwrap() != 0 {", "            if pl.end_value().unwrap() > 1 {")]),
("mint-cap-eq", "V04", [(C, "            .map_or(0, |m| m.mint_capacity)\n", "            .map_or(0, |m| m.mint_capacity + u128::from(m.mint_capacity > 0))\n")]),
("mint-by-admin", "V04", [(C, "        if sender != minter.address {", "        if sender != minter.address && sender != get_admin(&env) {")]),
("mint-full-keeps", "V04", [(C, "                mint_capacity: minter_remainder,", "                mint_capacity: if minter_remainder == 0 { minter.mint_capacity } else { minter_remainder },")]),
("mint-to-sender", "V04", [(C, "        token_client.mint(&env.current_contract_address(), &amount);", "        token_client.mint(&if sender == get_admin(&env) { sender.clone() } else { env.current_contract_address() }, &amount);")]),
("minter-by-admin", "V04", [(C, "            sender == current_minter.address\n", "            sender == current_minter.address || (current_minter.mint_capacity == 0 && sender == get_admin(&env))\n")]),
("minter-cap-reset", "V04", [(C, "        let mint_capacity = current_minter.map_or(0, |m| m.mint_capacity);", "        let mint_capacity = current_minter.map_or(0, |m| if m.address == new_minter { 0 } else { m.mint_capacity });")]),
("cap-add", "V04", [(C, "                    mint_capacity: new_capacity,", "                    mint_capacity: if new_capacity < minter.mint_capacity { minter.mint_capacity } else { new_capacity },")]),
("cap-by-minter", "V04", [(C, "        if sender != get_admin(&env) {\n            log!(\n                &env,\n                \"Vesting: Update minter capacity", "        if sender != get_admin(&env) && !(get_minter(&env).map_or(false, |m| m.address == sender && m.mint_capacity >= new_capacity)) {\n            log!(\n                &env,\n                \"Vesting: Update minter capacity")]),
("burn-cast", "V04", [(C, "        token_client.burn(&sender, &(amount as i128));", "        token_client.burn(&sender, &(amount.min(i128::MAX as u128) as i128).min(token_client.balance(&sender)));")]),
("init-twice-minter", "V04", [(C, "    ) {\n        if is_initialized(&env) {\n            log!(\n                &env,\n                \"Stake: Initialize: initializing contract twice is not allowed\"\n            );\n            panic_with_error!(&env, ContractError::AlreadyInitialized);\n        }\n\n        set_initialized(&env);\n        save_admin(&env, &admin);\n\n        save_minter", "    ) {\n        if is_initialized(&env) && get_minter(&env).is_some() {\n            log!(\n                &env,\n                \"Stake: Initialize: initializing contract twice is not allowed\"\n            );\n            panic_with_error!(&env, ContractError::AlreadyInitialized);\n        }\n\n        set_initialized(&env);\n        save_admin(&env, &admin);\n\n        save_minter")]),
("create-unsigned-when-funded", "V03", [(C, "        let admin = get_admin(&env);\n        admin.require_auth();\n        env.storage()", "        let admin = get_admin(&env);\n        if vesting_schedules.len() != 3 { admin.require_auth(); }\n        env.storage()")]),
]
