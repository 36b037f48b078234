SEEDS = [
dict(id="p01-fee-to-trader", property="P01", dir="pool",
  needs="the fee recipient itself trades",
  breaks="When the trader is the fee recipient the commission is not paid although it is deducted from the recorded reserves: the recipient gets less than the constant-product amount and the fee is stranded in the pool.",
  edits=[("contracts/pool/src/contract.rs", """
    // send commission to fee recipient
    buy_token_client.transfer(
        &env.current_contract_address(),
        &config.fee_recipient,
        &compute_swap.commission_amount,
    );
""", """
    // send commission to fee recipient; it does not pay a fee to itself
    if sender != config.fee_recipient {
        buy_token_client.transfer(
            &env.current_contract_address(),
            &config.fee_recipient,
            &compute_swap.commission_amount,
        );
    }
""")],
  demo="""
use super::setup::{deploy_liquidity_pool_contract, deploy_token_contract};
use soroban_sdk::{testutils::Address as _, Address, Env};

#[test]
fn phx_demo_fee_recipient_gets_its_fee() {
    let env = Env::default();
    env.mock_all_auths();
    env.budget().reset_unlimited();
    let admin = Address::generate(&env);
    let user = Address::generate(&env);
    let mut t1 = deploy_token_contract(&env, &admin);
    let mut t2 = deploy_token_contract(&env, &admin);
    if t2.address < t1.address {
        std::mem::swap(&mut t1, &mut t2);
    }
    let fee = Address::generate(&env);
    let pool = deploy_liquidity_pool_contract(
        &env, None, (&t1.address, &t2.address), 1_000i64, fee.clone(), 5_000i64, 5_000i64,
        Address::generate(&env), Address::generate(&env),
    );
    t1.mint(&user, &10_000_000);
    t2.mint(&user, &10_000_000);
    t1.mint(&fee, &100_000);
    pool.provide_liquidity(&user, &Some(1_000_000), &None, &Some(1_000_000), &None, &None, &None);
    pool.swap(&fee, &t1.address, &10_000, &None, &None, &None, &None);
    let info = pool.query_pool_info();
    assert_eq!(t2.balance(&pool.address), info.asset_b.amount);
    assert_eq!(t2.balance(&fee), 1_000_000 - info.asset_b.amount);
}

extern crate std;
"""),
dict(id="p04-donated-tokens", property="P04", dir="pool",
  needs="tokens sent straight to the pool (not through a deposit), then a withdrawal",
  breaks="A withdrawal pays a share of the pool's real token balance instead of its recorded reserves, so one holder takes more than the pro-rata reserves and the others' recorded reserves per share fall.",
  edits=[("contracts/pool/src/contract.rs", """
        let pool_balance_a = utils::get_pool_balance_a(&env);
        let pool_balance_b = utils::get_pool_balance_b(&env);

        let total_shares = utils::get_total_shares(&env);

        if total_shares == 0i128 {
""", """
        let pool_balance_a = utils::get_balance(&env, &config.token_a);
        let pool_balance_b = utils::get_balance(&env, &config.token_b);

        let total_shares = utils::get_total_shares(&env);

        if total_shares == 0i128 {
""")],
  demo="""
use super::setup::{deploy_liquidity_pool_contract, deploy_token_contract};
use soroban_sdk::{testutils::Address as _, Address, Env};

#[test]
fn phx_demo_withdrawal_is_pro_rata_of_the_reserves() {
    let env = Env::default();
    env.mock_all_auths();
    env.budget().reset_unlimited();
    let admin = Address::generate(&env);
    let user = Address::generate(&env);
    let mut t1 = deploy_token_contract(&env, &admin);
    let mut t2 = deploy_token_contract(&env, &admin);
    if t2.address < t1.address {
        std::mem::swap(&mut t1, &mut t2);
    }
    let pool = deploy_liquidity_pool_contract(
        &env, None, (&t1.address, &t2.address), 0i64, Address::generate(&env), 5_000i64, 5_000i64,
        Address::generate(&env), Address::generate(&env),
    );
    t1.mint(&user, &10_000_000);
    t2.mint(&user, &10_000_000);
    pool.provide_liquidity(&user, &Some(1_000_000), &None, &Some(1_000_000), &None, &None, &None);
    t1.transfer(&user, &pool.address, &500_000);
    assert_eq!(pool.withdraw_liquidity(&user, &100_000, &1, &1, &None), (100_000, 100_000));
}

extern crate std;
"""),
dict(id="k01-equal-stakes", property="K01", dir="stake",
  needs="a user who bonds the same amount twice in the same ledger close and then unbonds one of them",
  breaks="Unbonding removes every stake with that amount and time from the user's list although only one is paid back: the other stake can never be withdrawn.",
  edits=[("contracts/stake/src/contract.rs", """
    if let Some(index) = stakes
        .iter()
        .position(|s| s.stake == stake && s.stake_timestamp == stake_timestamp)
    {
        // Remove the stake at the found index
        stakes.remove(index as u32);
    } else {
""", """
    let mut remaining = Vec::new(env);
    for s in stakes.iter() {
        if s.stake != stake || s.stake_timestamp != stake_timestamp {
            remaining.push_back(s);
        }
    }
    if remaining.len() < stakes.len() {
        *stakes = remaining;
    } else {
""")],
  demo="""
use super::setup::{deploy_staking_contract, deploy_token_contract};
use soroban_sdk::{testutils::{Address as _, Ledger}, Address, Env};

#[test]
fn phx_demo_equal_stakes_are_separate() {
    let env = Env::default();
    env.mock_all_auths();
    let admin = Address::generate(&env);
    let user = Address::generate(&env);
    let lp = deploy_token_contract(&env, &admin);
    let staking = deploy_staking_contract(
        &env, admin.clone(), &lp.address, &Address::generate(&env), &Address::generate(&env), &7u32,
    );
    lp.mint(&user, &10_000);
    env.ledger().with_mut(|li| li.timestamp = 4_000);
    staking.bond(&user, &2_000);
    staking.bond(&user, &2_000);
    staking.unbond(&user, &2_000, &4_000);
    assert_eq!(staking.query_staked(&user).stakes.len(), 1);
    assert_eq!(staking.query_staked(&user).total_stake, 2_000);
    staking.unbond(&user, &2_000, &4_000);
    assert_eq!(lp.balance(&user), 10_000);
}
"""),
dict(id="t01-self-transfer", property="T01", dir="token",
  needs="a transfer from an account to itself",
  breaks="Both balances are read before either is written, so a transfer to oneself creates tokens.",
  edits=[("contracts/token/src/contract.rs", """
        spend_balance(&e, from.clone(), amount);
        receive_balance(&e, to.clone(), amount);
        TokenUtils::new(&e).events().transfer(from, to, amount);
""", """
        move_balance(&e, from.clone(), to.clone(), amount);
        TokenUtils::new(&e).events().transfer(from, to, amount);
"""), ("contracts/token/src/contract.rs", """
use crate::balance::{read_balance, receive_balance, spend_balance};
""", """
use crate::balance::{move_balance, read_balance, receive_balance, spend_balance};
"""), ("contracts/token/src/balance.rs", """
pub fn spend_balance(e: &Env, addr: Address, amount: i128) {
""", """
pub fn move_balance(e: &Env, from: Address, to: Address, amount: i128) {
    let from_balance = read_balance(e, from.clone());
    let to_balance = read_balance(e, to.clone());
    if from_balance < amount {
        panic!("insufficient balance");
    }
    write_balance(e, from, from_balance - amount);
    write_balance(e, to, to_balance + amount);
}

pub fn spend_balance(e: &Env, addr: Address, amount: i128) {
""")],
  demo="""
extern crate std;
use crate::{contract::Token, TokenClient};
use soroban_sdk::{testutils::Address as _, Address, Env, FromVal, String};

#[test]
fn phx_demo_a_transfer_to_oneself_changes_nothing() {
    let e = Env::default();
    e.mock_all_auths();
    let admin = Address::generate(&e);
    let user = Address::generate(&e);
    let id = e.register(Token, (&admin, 7_u32, String::from_val(&e, &"name"), String::from_val(&e, &"symbol")));
    let token = TokenClient::new(&e, &id);
    token.mint(&user, &1000);
    token.transfer(&user, &user, &400);
    assert_eq!(token.balance(&user), 1000);
}
"""),
dict(id="v02-reused-slot", property="V02", dir="vesting",
  needs="a recipient who claims a schedule completely and is later given another schedule",
  breaks="The slot of a completely claimed schedule is reused, so a new schedule overwrites the old one instead of being stored separately: its index is not the next one and the recipient's list of schedules loses the old one.",
  edits=[("contracts/vesting/src/storage.rs", """
    while env.storage().persistent().has(&vesting_key) {
""", """
    while env
        .storage()
        .persistent()
        .get::<_, VestingInfo>(&vesting_key)
        .map_or(false, |stored| stored.balance > 0)
    {
""")],
  demo="""
use super::setup::{deploy_token_contract, instantiate_vesting_client};
use crate::storage::{VestingSchedule, VestingTokenInfo};
use curve::{Curve, SaturatingLinear};
use soroban_sdk::{testutils::{Address as _, Ledger}, vec, Address, Env, String};

#[test]
fn phx_demo_schedules_stay_listed() {
    let env = Env::default();
    env.mock_all_auths();
    env.budget().reset_unlimited();
    let admin = Address::generate(&env);
    let user = Address::generate(&env);
    let token = deploy_token_contract(&env, &admin);
    token.mint(&admin, &1000);
    let info = VestingTokenInfo {
        name: String::from_str(&env, "Phoenix"),
        symbol: String::from_str(&env, "PHO"),
        decimals: 6,
        address: token.address.clone(),
    };
    let client = instantiate_vesting_client(&env);
    client.initialize(&admin, &info, &10u32);
    for (now, end) in [(0u64, 60u64), (60, 600)] {
        env.ledger().with_mut(|li| li.timestamp = now);
        if now > 0 {
            client.claim(&user, &0);
        }
        client.create_vesting_schedules(&vec![
            &env,
            VestingSchedule {
                recipient: user.clone(),
                curve: Curve::SaturatingLinear(SaturatingLinear { min_x: 0, min_y: 120, max_x: end, max_y: 0 }),
            },
        ]);
    }
    assert_eq!(client.query_all_vesting_info(&user).len(), 2);
    assert_eq!(client.query_vesting_info(&user, &0).balance, 0);
}
"""),
]
