POOL = """
use super::setup::{deploy_liquidity_pool_contract, deploy_token_contract};
use soroban_sdk::{testutils::Address as _, Address, Env};

#[test]
fn phx_demo_%s() {
    let env = Env::default();
    env.mock_all_auths();
    env.budget().reset_unlimited();
    let admin = Address::generate(&env);
    let user = Address::generate(&env);
    let mut t1 = deploy_token_contract(&env, &admin);
    let mut t2 = deploy_token_contract(&env, &admin);
    if t2.address < t1.address {
        std::mem::swap(&mut t1, &mut t2);
    }
    let pool = deploy_liquidity_pool_contract(
        &env, admin.clone(), (&t1.address, &t2.address), %s, admin.clone(), 5_000i64, 5_000i64,
        Address::generate(&env), Address::generate(&env),
    );
    t1.mint(&user, &10_000_000);
    t2.mint(&user, &10_000_000);
%s
}

extern crate std;
"""
STABLE = """
use super::setup::{deploy_stable_liquidity_pool_contract, deploy_token_contract};
use soroban_sdk::{testutils::Address as _, Address, Env};

#[test]
fn phx_demo_%s() {
    let env = Env::default();
    env.mock_all_auths();
    env.budget().reset_unlimited();
    let admin = Address::generate(&env);
    let user = Address::generate(&env);
    let mut t1 = deploy_token_contract(&env, &admin);
    let mut t2 = deploy_token_contract(&env, &admin);
    if t2.address < t1.address {
        std::mem::swap(&mut t1, &mut t2);
    }
    let pool = deploy_stable_liquidity_pool_contract(
        &env, admin.clone(), (&t1.address, &t2.address), 0, admin.clone(), None, None, Address::generate(&env), Address::generate(&env), None,
    );
    t1.mint(&user, &20_000_000);
    t2.mint(&user, &20_000_000);
%s
}

extern crate std;
"""
SEEDS = [
dict(id="p05-zero-fee-limit", property="P05", dir="pool",
  needs="a swap whose accepted fee is exactly zero",
  breaks="An accepted fee of zero counts as no limit: a trader who accepts no fee is charged the pool's.",
  edits=[("contracts/pool/src/contract.rs", "if agreed_percentage < config.total_fee_bps {", "if agreed_percentage > 0 && agreed_percentage < config.total_fee_bps {")],
  demo=POOL % ("a_zero_fee_limit_is_a_limit", "100i64", """
    pool.provide_liquidity(&user, &Some(1_000_000), &None, &Some(1_000_000), &None, &None, &None);
    assert!(pool.try_swap(&user, &t1.address, &1_000, &None, &None, &None, &Some(0)).is_err());
    assert!(pool.try_swap(&user, &t1.address, &1_000, &None, &None, &None, &Some(100)).is_ok());
""")),
dict(id="p06-share-of-balance", property="P06", dir="pool",
  needs="tokens sent straight to the pool before asking what shares are worth",
  breaks="The share query counts donated tokens of the first kind, which a withdrawal does not pay.",
  edits=[("contracts/pool/src/contract.rs", """
let pool_info = Self::query_pool_info(env);
let total_share = pool_info.asset_lp_share.amount;
let token_a_amount = pool_info.asset_a.amount;
""", """
let pool_info = Self::query_pool_info(env.clone());
let total_share = pool_info.asset_lp_share.amount;
let token_a_amount = utils::get_balance(&env, &pool_info.asset_a.address);
""")],
  demo=POOL % ("the_share_query_says_what_a_withdrawal_pays", "0i64", """
    pool.provide_liquidity(&user, &Some(1_000_000), &None, &Some(1_000_000), &None, &None, &None);
    t1.transfer(&user, &pool.address, &500_000);
    let (a, b) = pool.query_share(&100_000);
    assert_eq!(pool.withdraw_liquidity(&user, &100_000, &1, &1, &None), (a.amount, b.amount));
""")),
dict(id="p07-recipient-follows", property="P07", dir="pool",
  needs="handing over a pool whose fee recipient is its admin",
  breaks="Naming a new admin also redirects the fees although the fee recipient was not asked to change.",
  edits=[("contracts/pool/src/contract.rs", "utils::save_admin(&env, new_admin);", """
if config.fee_recipient == admin {
    config.fee_recipient = new_admin.clone();
}
utils::save_admin(&env, new_admin);
""")],
  demo=POOL % ("only_the_requested_fields_change", "0i64", """
    pool.update_config(&Some(Address::generate(&env)), &None, &None, &None, &None, &None);
    assert_eq!(pool.query_config().fee_recipient, admin);
""")),
dict(id="p02-withdraw-syncs", property="P02", dir="pool",
  needs="tokens of the second kind sent straight to the pool, then a withdrawal",
  breaks="A withdrawal adds donated tokens to the recorded reserve, which so moves by more than the withdrawal moved.",
  edits=[("contracts/pool/src/contract.rs", "utils::save_pool_balance_b(&env, pool_balance_b - return_amount_b);",
          "utils::save_pool_balance_b(&env, utils::get_balance(&env, &config.token_b));")],
  demo=POOL % ("a_withdrawal_moves_the_reserves_by_what_it_pays", "0i64", """
    pool.provide_liquidity(&user, &Some(1_000_000), &None, &Some(1_000_000), &None, &None, &None);
    t2.transfer(&user, &pool.address, &500_000);
    let (a, b) = pool.withdraw_liquidity(&user, &100_000, &1, &1, &None);
    let info = pool.query_pool_info();
    assert_eq!((info.asset_a.amount, info.asset_b.amount), (1_000_000 - a, 1_000_000 - b));
""")),
dict(id="s02-old-invariant-of-balance", property="S02", dir="pool_stable",
  needs="tokens sent straight to a stable pool, then a deposit",
  breaks="The invariant before a deposit counts donated tokens, so after a donation the depositor gets too few shares.",
  edits=[("contracts/pool_stable/src/contract.rs", "convert_i128_to_u128(old_balance_b),", "convert_i128_to_u128(balance_b_before),")],
  demo=STABLE % ("shares_follow_the_recorded_invariant", """
    pool.provide_liquidity(&user, &1_000_000, &1_000_000, &None, &None, &None);
    t2.transfer(&user, &pool.address, &1_000_000);
    let before = pool.query_total_issued_lp();
    pool.provide_liquidity(&user, &1_000_000, &1_000_000, &None, &None, &None);
    assert_eq!(pool.query_total_issued_lp(), before * 2);
""")),
dict(id="s06-recipient-follows", property="S06", dir="pool_stable",
  needs="handing over a stable pool whose fee recipient is its admin",
  breaks="Naming a new admin also redirects the fees although the fee recipient was not asked to change.",
  edits=[("contracts/pool_stable/src/contract.rs", "utils::save_admin(&env, new_admin);", """
utils::save_admin(&env, new_admin.clone());
if config.fee_recipient == sender {
    config.fee_recipient = new_admin;
}
""")],
  demo=STABLE % ("only_the_requested_fields_change", """
    pool.update_config(&admin, &Some(Address::generate(&env)), &None, &None, &None, &None);
    assert_eq!(pool.query_config().fee_recipient, admin);
""")),
dict(id="k04-third-flow-again", property="K04", dir="stake",
  needs="two distribution flows, then creating the second one again",
  breaks="Only the first flow is protected against being created again: creating another one a second time is accepted.",
  edits=[("contracts/stake/src/storage.rs", "for old_asset in distributions.clone() {", "for old_asset in distributions.first() {")],
  demo="""
use super::setup::{deploy_staking_contract, deploy_token_contract};
use soroban_sdk::{testutils::Address as _, Address, Env};

#[test]
fn phx_demo_flows_are_created_once() {
    let env = Env::default();
    env.mock_all_auths();
    env.budget().reset_unlimited();
    let admin = Address::generate(&env);
    let manager = Address::generate(&env);
    let lp = deploy_token_contract(&env, &admin);
    let one = deploy_token_contract(&env, &admin);
    let two = deploy_token_contract(&env, &admin);
    let staking = deploy_staking_contract(&env, admin.clone(), &lp.address, &manager, &admin, &50u32);
    staking.create_distribution_flow(&manager, &one.address);
    staking.create_distribution_flow(&manager, &two.address);
    assert!(staking.try_create_distribution_flow(&manager, &two.address).is_err());
}
"""),
dict(id="r03-distribute-anyone", property="R03", dir="stake_rewards",
  needs="a distribution called by somebody else while much is staked",
  breaks="Above twice the minimum bond anybody can make the rewards contract distribute with any total stake.",
  edits=[("contracts/stake_rewards/src/contract.rs", """
// only Staking contract which deployed this one can call this method
config.staking_contract.require_auth();
env.storage()
    .instance()
    .extend_ttl(INSTANCE_LIFETIME_THRESHOLD, INSTANCE_BUMP_AMOUNT);

let calc_power_result = calc_power(""", """
// only Staking contract which deployed this one can call this method
if total_staked_amount < config.min_bond * 2 {
    config.staking_contract.require_auth();
}
env.storage()
    .instance()
    .extend_ttl(INSTANCE_LIFETIME_THRESHOLD, INSTANCE_BUMP_AMOUNT);

let calc_power_result = calc_power(""")],
  demo="""
use super::setup::{deploy_staking_rewards_contract, deploy_token_contract};
use soroban_sdk::{testutils::Address as _, Address, Env};

#[test]
fn phx_demo_only_the_staking_contract_distributes() {
    let env = Env::default();
    env.mock_all_auths();
    env.budget().reset_unlimited();
    let admin = Address::generate(&env);
    let staking = Address::generate(&env);
    let token = deploy_token_contract(&env, &admin);
    let rewards = deploy_staking_rewards_contract(&env, &admin, &token.address, &staking);
    token.mint(&admin, &1_000_000);
    rewards.fund_distribution(&0, &100, &100_000);
    env.set_auths(&[]);
    assert!(rewards.try_distribute_rewards(&1_000_000).is_err());
}
"""),
dict(id="v01-plateau", property="V01", dir="vesting",
  needs="a schedule that stays level between two of its later points",
  breaks="A level stretch of a schedule is replaced by a straight line from the point before it, so more is released than has vested.",
  edits=[("packages/curve/src/lib.rs", """
let next = self.steps.get(i).unwrap();
if x < next.time {
""", """
let next = self.steps.get(i).unwrap();
if x < next.time && next.value == prev.value && i > 1 {
    let base = self.steps.get(i - 2).unwrap();
    return interpolate((base.time, base.value), (next.time, next.value), x);
}
if x < next.time {
""")],
  demo="""
use crate::storage::{VestingSchedule, VestingTokenInfo};
use super::setup::{deploy_token_contract, instantiate_vesting_client};
use curve::{Curve, PiecewiseLinear, Step};
use soroban_sdk::{testutils::{Address as _, Ledger}, vec, Address, Env, String};

#[test]
fn phx_demo_nothing_vests_on_a_plateau() {
    let env = Env::default();
    env.mock_all_auths();
    env.budget().reset_unlimited();
    let admin = Address::generate(&env);
    let user = Address::generate(&env);
    let token = deploy_token_contract(&env, &admin);
    token.mint(&admin, &1_000);
    let vesting = instantiate_vesting_client(&env);
    vesting.initialize(&admin, &VestingTokenInfo {
        name: String::from_str(&env, "V"), symbol: String::from_str(&env, "V"), decimals: 7, address: token.address.clone(),
    }, &10u32);
    let s = |time: u64, value: u128| Step { time, value };
    vesting.create_vesting_schedules(&vec![&env, VestingSchedule {
        recipient: user.clone(),
        curve: Curve::PiecewiseLinear(PiecewiseLinear { steps: vec![&env, s(10, 1_000), s(20, 900), s(40, 900), s(60, 0)] }),
    }]);
    env.ledger().with_mut(|l| l.timestamp = 30);
    assert_eq!(vesting.query_available_to_claim(&user, &0), 100);
}
"""),
]
