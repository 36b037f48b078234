SEEDS = [
dict(id="m01-sweeps-balance", property="M01", dir="multihop",
  needs="a recipient that already holds some of an intermediate token before a route of several hops",
  breaks="The next hop spends the recipient's whole balance of the intermediate token instead of what the previous hop paid, so savings the user never offered are swapped too.",
  edits=[("contracts/multihop/src/contract.rs", """
    // FIXM: Disable Referral struct
    next_offer_amount = lp_client.swap(
        &recipient,
        // &referral,
        &op.offer_asset,
        &next_offer_amount,
        &op.ask_asset_min_amount,
        &max_spread_bps,
        &deadline,
        &max_allowed_fee_bps,
    );
""", """
    // FIXM: Disable Referral struct
    lp_client.swap(
        &recipient,
        // &referral,
        &op.offer_asset,
        &next_offer_amount,
        &op.ask_asset_min_amount,
        &max_spread_bps,
        &deadline,
        &max_allowed_fee_bps,
    );
    next_offer_amount =
        token_contract::Client::new(&env, &op.ask_asset).balance(&recipient);
""")],
  demo="""
use super::setup::*;
use crate::factory_contract::PoolType;
use crate::storage::Swap;
use soroban_sdk::{testutils::Address as _, vec, Address, Env};

#[test]
fn phx_demo_savings_in_the_middle_token_stay() {
    let env = Env::default();
    env.mock_all_auths();
    env.budget().reset_unlimited();
    let admin = Address::generate(&env);
    let t1 = deploy_and_mint_tokens(&env, &admin, 10_000_000);
    let t2 = deploy_and_mint_tokens(&env, &admin, 10_000_000);
    let t3 = deploy_and_mint_tokens(&env, &admin, 10_000_000);
    let factory = deploy_and_initialize_factory(&env, admin.clone());
    for (x, y) in [(&t1, &t2), (&t2, &t3)] {
        deploy_and_initialize_pool(&env, &factory, admin.clone(), x.address.clone(), 1_000_000,
            y.address.clone(), 1_000_000, None, PoolType::Xyk);
    }
    let multihop = deploy_multihop_contract(&env, admin.clone(), &factory.address);
    let user = Address::generate(&env);
    t1.mint(&user, &50);
    t2.mint(&user, &700);
    let route = vec![
        &env,
        Swap { offer_asset: t1.address.clone(), ask_asset: t2.address.clone(), ask_asset_min_amount: None },
        Swap { offer_asset: t2.address.clone(), ask_asset: t3.address.clone(), ask_asset_min_amount: None },
    ];
    multihop.swap(&user, &route, &None, &50, &PoolType::Xyk, &None, &None);
    assert_eq!(t2.balance(&user), 700);
    assert_eq!(t3.balance(&user), 50);
}
"""),
dict(id="m02-spread-first-hop", property="M02", dir="multihop",
  needs="a route whose later hop exceeds the caller's maximum spread while the first one does not",
  breaks="The caller's maximum spread is only enforced on the first hop; later hops run with the pool's own (larger) maximum.",
  edits=[("contracts/multihop/src/contract.rs", """
    // first offer amount is an input from the user,
    // subsequent are the results of the previous swap
    let mut next_offer_amount: i128 = amount;

    let factory_client = factory_contract::Client::new(&env, &get_factory(&env));

    operations.iter().for_each(|op| {
        let liquidity_pool_addr: Address = factory_client
            .query_for_pool_by_token_pair(&op.clone().offer_asset, &op.ask_asset.clone());

        match pool_type {
            PoolType::Xyk => {
                let lp_client = xyk_pool::Client::new(&env, &liquidity_pool_addr);
                // FIXM: Disable Referral struct
                next_offer_amount = lp_client.swap(
                    &recipient,
                    // &referral,
                    &op.offer_asset,
                    &next_offer_amount,
                    &op.ask_asset_min_amount,
                    &max_spread_bps,
                    &deadline,
                    &max_allowed_fee_bps,
                );
            }
""", """
    // first offer amount is an input from the user,
    // subsequent are the results of the previous swap
    let mut next_offer_amount: i128 = amount;
    let mut max_spread_bps = max_spread_bps;

    let factory_client = factory_contract::Client::new(&env, &get_factory(&env));

    operations.iter().for_each(|op| {
        let liquidity_pool_addr: Address = factory_client
            .query_for_pool_by_token_pair(&op.clone().offer_asset, &op.ask_asset.clone());

        match pool_type {
            PoolType::Xyk => {
                let lp_client = xyk_pool::Client::new(&env, &liquidity_pool_addr);
                // FIXM: Disable Referral struct
                next_offer_amount = lp_client.swap(
                    &recipient,
                    // &referral,
                    &op.offer_asset,
                    &next_offer_amount,
                    &op.ask_asset_min_amount,
                    &max_spread_bps.take(),
                    &deadline,
                    &max_allowed_fee_bps,
                );
            }
""")],
  demo="""
use super::setup::*;
use crate::factory_contract::PoolType;
use crate::storage::Swap;
use soroban_sdk::{testutils::Address as _, vec, Address, Env};

#[test]
fn phx_demo_spread_is_enforced_on_every_hop() {
    let env = Env::default();
    env.mock_all_auths();
    env.budget().reset_unlimited();
    let admin = Address::generate(&env);
    let t1 = deploy_and_mint_tokens(&env, &admin, 10_000_000);
    let t2 = deploy_and_mint_tokens(&env, &admin, 10_000_000);
    let t3 = deploy_and_mint_tokens(&env, &admin, 10_000_000);
    let factory = deploy_and_initialize_factory(&env, admin.clone());
    deploy_and_initialize_pool(&env, &factory, admin.clone(), t1.address.clone(), 5_000_000,
        t2.address.clone(), 5_000_000, None, PoolType::Xyk);
    deploy_and_initialize_pool(&env, &factory, admin.clone(), t2.address.clone(), 100_000,
        t3.address.clone(), 100_000, None, PoolType::Xyk);
    let multihop = deploy_multihop_contract(&env, admin.clone(), &factory.address);
    let user = Address::generate(&env);
    t1.mint(&user, &3_000);
    let route = vec![
        &env,
        Swap { offer_asset: t1.address.clone(), ask_asset: t2.address.clone(), ask_asset_min_amount: None },
        Swap { offer_asset: t2.address.clone(), ask_asset: t3.address.clone(), ask_asset_min_amount: None },
    ];
    assert!(multihop.try_swap(&user, &route, &Some(100), &3_000, &PoolType::Xyk, &None, &None).is_err());
}
"""),
dict(id="f04-one-sided-dust", property="F04", dir="factory",
  needs="a holding so small that it redeems for nothing of one of the two tokens",
  breaks="Pools whose shares redeem for only one of the tokens are missing from the portfolio.",
  edits=[("contracts/factory/src/contract.rs", """
    if total_lp_share_for_user > 0 {
""", """
    if asset_a.amount > 0 && asset_b.amount > 0 {
""")],
  demo="""
use super::setup::*;
use crate::token_contract;
use phoenix::utils::PoolType;
use soroban_sdk::{testutils::{arbitrary::std, Address as _}, Address, Env, String};

#[test]
fn phx_demo_small_holdings_are_in_the_portfolio() {
    let env = Env::default();
    env.mock_all_auths();
    env.budget().reset_unlimited();
    let admin = Address::generate(&env);
    let user = Address::generate(&env);
    let s = |x: &str| String::from_str(&env, x);
    let mut t1 = install_and_deploy_token_contract(&env, admin.clone(), 7, s("one"), s("ONE"));
    let mut t2 = install_and_deploy_token_contract(&env, admin.clone(), 7, s("two"), s("TWO"));
    if t2.address < t1.address {
        std::mem::swap(&mut t1, &mut t2);
    }
    let factory = deploy_factory_contract(&env, Some(admin.clone()));
    let info = generate_lp_init_info(t1.address.clone(), t2.address.clone(), Address::generate(&env), admin.clone(), user.clone());
    let pool = factory.create_liquidity_pool(&admin, &info, &s("Pool"), &s("LP"), &PoolType::Xyk, &None, &100, &1_000);
    t1.mint(&user, &100_000_000);
    t2.mint(&user, &100_000_000);
    let lp = lp_contract::Client::new(&env, &pool);
    lp.provide_liquidity(&user, &Some(100_000_000), &None, &Some(1_000_000), &None, &None, &None);
    let other = Address::generate(&env);
    let share = token_contract::Client::new(&env, &lp.query_share_token_address());
    share.transfer(&user, &other, &5);
    let (a, b) = lp.query_share(&5);
    assert_eq!((a.amount, b.amount), (50, 0));
    let p = factory.query_user_portfolio(&other, &false).lp_portfolio;
    assert_eq!(p.len(), 1);
    assert_eq!(p.get(0).unwrap().assets.0.amount, 50);
}
"""),
dict(id="t02-same-amount", property="T02", dir="token",
  needs="approving the amount an existing approval already has, with another expiration",
  breaks="An approval with an unchanged amount is ignored: the earlier expiration ledger stays in force, so an allowance the owner wanted to end sooner stays spendable.",
  edits=[("contracts/token/src/contract.rs", """
    write_allowance(&e, from.clone(), spender.clone(), amount, expiration_ledger);
""", """
    // nothing to store if the spender already has this allowance
    if read_allowance(&e, from.clone(), spender.clone()).amount != amount {
        write_allowance(&e, from.clone(), spender.clone(), amount, expiration_ledger);
    }
""")],
  demo="""
#![cfg(test)]
use crate::{contract::Token, TokenClient};
use soroban_sdk::{testutils::{Address as _, Ledger}, Address, Env, FromVal, String};

#[test]
fn phx_demo_a_new_approval_replaces_the_earlier_one() {
    let e = Env::default();
    e.mock_all_auths();
    let admin = Address::generate(&e);
    let owner = Address::generate(&e);
    let spender = Address::generate(&e);
    let token = TokenClient::new(&e, &e.register(Token, (&admin, 7_u32, String::from_val(&e, &"n"), String::from_val(&e, &"s"))));
    token.mint(&owner, &1000);
    token.approve(&owner, &spender, &500, &200);
    token.approve(&owner, &spender, &500, &100);
    e.ledger().with_mut(|l| l.sequence_number = 150);
    assert_eq!(token.allowance(&owner, &spender), 0);
}
"""),
dict(id="v04-admin-minter", property="V04", dir="vesting",
  needs="the vesting admin is also the current minter and mints more than once",
  breaks="Minting does not reduce the remaining capacity when the minter is the admin, so total minting exceeds the granted capacity.",
  edits=[("contracts/vesting/src/contract.rs", """
    // we update the minter
    save_minter(
        &env,
        &MinterInfo {
            address: minter.address,
            mint_capacity: minter_remainder,
        },
    );
""", """
    // we update the minter; the admin decides about the capacity itself
    if minter.address != get_admin(&env) {
        save_minter(
            &env,
            &MinterInfo {
                address: minter.address,
                mint_capacity: minter_remainder,
            },
        );
    }
""")],
  demo="""
use super::setup::{deploy_token_contract, instantiate_vesting_client};
use crate::storage::{MinterInfo, VestingTokenInfo};
use soroban_sdk::{testutils::Address as _, Address, Env, String};

#[test]
fn phx_demo_minting_uses_up_the_capacity() {
    let env = Env::default();
    env.mock_all_auths();
    env.budget().reset_unlimited();
    let admin = Address::generate(&env);
    let token = deploy_token_contract(&env, &admin);
    let vesting = instantiate_vesting_client(&env);
    vesting.initialize_with_minter(
        &admin,
        &VestingTokenInfo { name: String::from_str(&env, "P"), symbol: String::from_str(&env, "P"), decimals: 7, address: token.address.clone() },
        &10u32,
        &MinterInfo { address: admin.clone(), mint_capacity: 100 },
    );
    vesting.mint(&admin, &60);
    assert_eq!(vesting.query_minter().mint_capacity, 40);
    assert!(vesting.try_mint(&admin, &60).is_err());
}
"""),
dict(id="r01-replace-curve", property="R01", dir="stake_rewards",
  needs="a second funding starting after the end of a first one, made before the first one has ended",
  breaks="The locked part of the running distribution is dropped from the schedule: tokens funded earlier are all released at once by the next distribution.",
  edits=[("contracts/stake_rewards/src/contract.rs", """
    Some(end_distribution_timestamp) if end_distribution_timestamp < current_time => {
""", """
    Some(end_distribution_timestamp) if end_distribution_timestamp < start_time => {
""")],
  demo="""
use super::setup::{deploy_staking_rewards_contract, deploy_token_contract};
use soroban_sdk::{testutils::{Address as _, Ledger}, Address, Env};

#[test]
fn phx_demo_running_distribution_stays_locked() {
    let env = Env::default();
    env.mock_all_auths();
    env.budget().reset_unlimited();
    let admin = Address::generate(&env);
    let staking = Address::generate(&env);
    let token = deploy_token_contract(&env, &admin);
    let rewards = deploy_staking_rewards_contract(&env, &admin, &token.address, &staking);
    token.mint(&admin, &1_000_000);
    env.ledger().with_mut(|l| l.timestamp = 1_000);
    rewards.fund_distribution(&1_000, &100, &100_000);
    rewards.fund_distribution(&2_000, &100, &100_000);
    env.ledger().with_mut(|l| l.timestamp = 1_050);
    assert_eq!(rewards.query_undistributed_reward(&token.address), 200_000);
    rewards.distribute_rewards(&1_000_000);
    assert_eq!(rewards.query_distributed_reward(&token.address), 50_000);
}
"""),
dict(id="d01-clip", property="D01", dir="trader", only="demo",
  needs="an ordered amount larger than the trader's balance of the token",
  breaks="A trade of more than the trader holds sells what is there instead of being refused: it does not sell exactly the ordered amount.",
  edits=[("contracts/trader/src/contract.rs", """
    let amount = if let Some(amount) = amount {
        amount as i128
    } else {
""", """
    let amount = if let Some(amount) = amount {
        (amount as i128).min(token_client.balance(&env.current_contract_address()))
    } else {
""")],
  demo="""
use crate::{contract::{Trader, TraderClient}, lp_contract, token_contract};
use soroban_sdk::{testutils::{arbitrary::std, Address as _}, Address, Env, IntoVal, String};

mod stake {
    soroban_sdk::contractimport!(file = "../../target/wasm32-unknown-unknown/release/phoenix_stake.wasm");
}

#[test]
fn phx_demo_a_trade_sells_the_ordered_amount_or_nothing() {
    let env = Env::default();
    env.mock_all_auths_allowing_non_root_auth();
    env.budget().reset_unlimited();
    let admin = Address::generate(&env);
    let s = |x: &str| String::from_str(&env, x);
    let token = |n: &str| token_contract::Client::new(&env, &env.register(token_contract::WASM, (admin.clone(), 7u32, s(n), s(n))));
    let (mut t1, mut t2) = (token("one"), token("two"));
    if t2.address < t1.address {
        std::mem::swap(&mut t1, &mut t2);
    }
    t1.mint(&admin, &1_000_000);
    t2.mint(&admin, &1_000_000);
    let pool = lp_contract::Client::new(&env, &env.register(lp_contract::WASM, ()));
    pool.initialize(
        &env.deployer().upload_contract_wasm(stake::WASM),
        &env.deployer().upload_contract_wasm(token_contract::WASM),
        &lp_contract::LiquidityPoolInitInfo {
            admin: admin.clone(), fee_recipient: admin.clone(), max_allowed_slippage_bps: 5000, default_slippage_bps: 2500,
            max_allowed_spread_bps: 5000, swap_fee_bps: 0, max_referral_bps: 5000,
            token_init_info: lp_contract::TokenInitInfo { token_a: t1.address.clone(), token_b: t2.address.clone() },
            stake_init_info: lp_contract::StakeInitInfo { min_bond: 10, min_reward: 5, manager: admin.clone(), max_complexity: 10 },
        },
        &Address::generate(&env), &7, &s("lp"), &s("LP"), &100, &1000,
    );
    pool.provide_liquidity(&admin, &Some(100_000), &None, &Some(100_000), &None, &None, &None);
    let trader = TraderClient::new(&env, &env.register(Trader, ()));
    trader.initialize(&admin, &s("trader"), &(t1.address.clone(), t2.address.clone()), &t2.address);
    t1.mint(&trader.address, &500);
    assert!(trader.try_trade_token(&admin, &t1.address, &pool.address, &Some(600), &None, &None, &None, &None).is_err());
    assert_eq!(t1.balance(&trader.address), 500);
    trader.trade_token(&admin, &t1.address, &pool.address, &Some(400), &None, &None, &None, &None);
    assert_eq!(t1.balance(&trader.address), 100);
    let _: soroban_sdk::Val = admin.into_val(&env);
}
"""),
dict(id="x01-new-stake", property="X01", dir="stake",
  needs="a first bond after which the stake record is not touched for longer than the network's minimum lifetime",
  breaks="The record of a new stake is stored without extending its lifetime (only reading an existing one extends it), so it expires after the network minimum instead of after 30 days.",
  edits=[("contracts/stake/src/storage.rs", """
pub fn save_stakes(env: &Env, key: &Address, bonding_info: &BondingInfo) {
    env.storage().persistent().set(key, bonding_info);
    env.storage().persistent().extend_ttl(
        &key,
        PERSISTENT_LIFETIME_THRESHOLD,
        PERSISTENT_BUMP_AMOUNT,
    );
}
""", """
pub fn save_stakes(env: &Env, key: &Address, bonding_info: &BondingInfo) {
    // the lifetime has been extended when the record was read
    env.storage().persistent().set(key, bonding_info);
}
""")],
  demo="""
use super::setup::{deploy_staking_contract, deploy_token_contract};
use soroban_sdk::{testutils::{storage::Persistent, Address as _}, Address, Env};

#[test]
fn phx_demo_a_new_stake_lives_thirty_days() {
    let env = Env::default();
    env.mock_all_auths();
    let admin = Address::generate(&env);
    let user = Address::generate(&env);
    let lp = deploy_token_contract(&env, &admin);
    let staking = deploy_staking_contract(&env, admin.clone(), &lp.address, &Address::generate(&env), &Address::generate(&env), &50u32);
    lp.mint(&user, &10_000);
    staking.bond(&user, &10_000);
    let ttl = env.as_contract(&staking.address, || env.storage().persistent().get_ttl(&user));
    assert!(ttl >= 29 * 17280, "{}", ttl);
}
"""),
dict(id="k02-age-in-seconds", property="K02", dir="stake",
  needs="a stake whose age at a distribution is not a whole number of days",
  breaks="The age of a stake counts in seconds instead of whole days, so stakers earn more than their share by whole days.",
  edits=[("contracts/stake/src/distribution.rs", """
    Decimal::from_ratio(stake_age_days, 60)
""", """
    Decimal::from_ratio(
        staking_reward_day.saturating_sub(stake.stake_timestamp),
        60 * SECONDS_PER_DAY,
    )
""")],
  demo="""
use super::setup::{deploy_staking_contract, deploy_token_contract, ONE_DAY};
use soroban_sdk::{testutils::{Address as _, Ledger}, Address, Env};

#[test]
fn phx_demo_whole_days_count() {
    let env = Env::default();
    env.mock_all_auths();
    env.budget().reset_unlimited();
    let admin = Address::generate(&env);
    let user = Address::generate(&env);
    let manager = Address::generate(&env);
    let lp = deploy_token_contract(&env, &admin);
    let reward = deploy_token_contract(&env, &admin);
    let staking = deploy_staking_contract(&env, admin.clone(), &lp.address, &manager, &admin, &50u32);
    lp.mint(&user, &10_000);
    reward.mint(&manager, &60_000);
    staking.bond(&user, &10_000);
    staking.create_distribution_flow(&manager, &reward.address);
    env.ledger().with_mut(|l| l.timestamp = ONE_DAY * 3 / 2);
    staking.distribute_rewards(&manager, &60_000, &reward.address);
    staking.withdraw_rewards(&user);
    assert!(reward.balance(&user) <= 1_000);
}
"""),
dict(id="v03-equal-entries-only", property="V03", dir="vesting",
  needs="a batch naming a recipient twice with different curves",
  breaks="Only entries that are equal in every respect count as duplicates, so a batch can name a recipient twice with two curves.",
  edits=[("contracts/vesting/src/utils.rs", """
    let mut addresses: Vec<Address> = Vec::new(env);
    for account in accounts.iter() {
        if addresses.contains(&account.recipient) {
            log!(&env, "Vesting: Initialize: Duplicate addresses found");
            panic_with_error!(env, ContractError::DuplicateInitialBalanceAddresses);
        }
        addresses.push_back(account.recipient.clone());
    }
""", """
    let mut addresses: Vec<(Address, Curve)> = Vec::new(env);
    for account in accounts.iter() {
        if addresses.contains((account.recipient.clone(), account.curve.clone())) {
            log!(&env, "Vesting: Initialize: Duplicate addresses found");
            panic_with_error!(env, ContractError::DuplicateInitialBalanceAddresses);
        }
        addresses.push_back((account.recipient.clone(), account.curve.clone()));
    }
""")],
  demo="""
use super::setup::{deploy_token_contract, instantiate_vesting_client};
use crate::storage::{VestingSchedule, VestingTokenInfo};
use curve::{Curve, SaturatingLinear};
use soroban_sdk::{testutils::Address as _, vec, Address, Env, String};

#[test]
fn phx_demo_no_recipient_twice() {
    let env = Env::default();
    env.mock_all_auths();
    env.budget().reset_unlimited();
    let admin = Address::generate(&env);
    let token = deploy_token_contract(&env, &admin);
    token.mint(&admin, &1_000);
    let vesting = instantiate_vesting_client(&env);
    vesting.initialize(
        &admin,
        &VestingTokenInfo { name: String::from_str(&env, "P"), symbol: String::from_str(&env, "P"), decimals: 7, address: token.address.clone() },
        &10u32,
    );
    let x = Address::generate(&env);
    let entry = |start: u64| VestingSchedule {
        recipient: x.clone(),
        curve: Curve::SaturatingLinear(SaturatingLinear { min_x: start, min_y: 100, max_x: 60, max_y: 0 }),
    };
    assert!(vesting.try_create_vesting_schedules(&vec![&env, entry(10), entry(10)]).is_err());
    assert!(vesting.try_create_vesting_schedules(&vec![&env, entry(10), entry(20)]).is_err());
}
"""),
dict(id="k03-round-up", property="K03", dir="stake",
  needs="several stakers whose shares of a distribution are not whole numbers",
  breaks="Each stake's share of a distribution is rounded up, so together the stakers can claim more than was distributed and the last one is paid out of other distributions.",
  edits=[("contracts/stake/src/distribution.rs", """
    let user_share = stake.stake as u128 * daily_reward / total_staked;
""", """
    let user_share =
        (stake.stake as u128 * daily_reward + total_staked - 1) / total_staked;
""")],
  demo="""
use super::setup::{deploy_staking_contract, deploy_token_contract, SIXTY_DAYS};
use soroban_sdk::{testutils::{Address as _, Ledger}, Address, Env};

#[test]
fn phx_demo_never_more_than_was_distributed() {
    let env = Env::default();
    env.mock_all_auths();
    env.budget().reset_unlimited();
    let admin = Address::generate(&env);
    let manager = Address::generate(&env);
    let lp = deploy_token_contract(&env, &admin);
    let reward = deploy_token_contract(&env, &admin);
    let staking = deploy_staking_contract(&env, admin.clone(), &lp.address, &manager, &admin, &50u32);
    let users = [Address::generate(&env), Address::generate(&env), Address::generate(&env)];
    for u in users.iter() {
        lp.mint(u, &1_000);
        staking.bond(u, &1_000);
    }
    reward.mint(&manager, &1_000);
    staking.create_distribution_flow(&manager, &reward.address);
    env.ledger().with_mut(|l| l.timestamp = SIXTY_DAYS);
    staking.distribute_rewards(&manager, &1_000, &reward.address);
    let owed: u128 = users.iter().map(|u| staking.query_withdrawable_rewards(u).rewards.get(0).unwrap().reward_amount).sum();
    assert!(owed <= 1_000, "{}", owed);
}
"""),
dict(id="f03-details-of-balances", property="F03", dir="pool_stable",
  needs="a stable pool that was sent tokens directly (not by a deposit)",
  breaks="The details of a stable pool that the factory reports show the pool's token balances instead of its reserves.",
  edits=[("contracts/pool_stable/src/contract.rs", """
    fn query_pool_info_for_factory(env: Env) -> StableLiquidityPoolInfo {
        env.storage()
            .instance()
            .extend_ttl(INSTANCE_LIFETIME_THRESHOLD, INSTANCE_BUMP_AMOUNT);
        let config = get_config(&env);
        let pool_response = PoolResponse {
            asset_a: Asset {
                address: config.token_a,
                amount: utils::get_pool_balance_a(&env),
            },
            asset_b: Asset {
                address: config.token_b,
                amount: utils::get_pool_balance_b(&env),
            },
""", """
    fn query_pool_info_for_factory(env: Env) -> StableLiquidityPoolInfo {
        env.storage()
            .instance()
            .extend_ttl(INSTANCE_LIFETIME_THRESHOLD, INSTANCE_BUMP_AMOUNT);
        let config = get_config(&env);
        let pool_response = PoolResponse {
            asset_a: Asset {
                amount: utils::get_balance(&env, &config.token_a),
                address: config.token_a,
            },
            asset_b: Asset {
                amount: utils::get_balance(&env, &config.token_b),
                address: config.token_b,
            },
""")],
  demo="""
use super::setup::{deploy_stable_liquidity_pool_contract, deploy_token_contract};
use soroban_sdk::{testutils::Address as _, Address, Env};

#[test]
fn phx_demo_details_are_those_of_the_pool() {
    let env = Env::default();
    env.mock_all_auths();
    env.budget().reset_unlimited();
    let admin = Address::generate(&env);
    let user = Address::generate(&env);
    let mut t1 = deploy_token_contract(&env, &admin);
    let mut t2 = deploy_token_contract(&env, &admin);
    if t2.address < t1.address {
        std::mem::swap(&mut t1, &mut t2);
    }
    let pool = deploy_stable_liquidity_pool_contract(
        &env, None, (&t1.address, &t2.address), 0, None, None, None, Address::generate(&env), Address::generate(&env), None,
    );
    t1.mint(&user, &2_000_000);
    t2.mint(&user, &2_000_000);
    pool.provide_liquidity(&user, &1_000_000, &1_000_000, &None, &None, &None);
    t1.transfer(&user, &pool.address, &5_000);
    assert_eq!(pool.query_pool_info_for_factory().pool_response, pool.query_pool_info());
}

extern crate std;
"""),
]
