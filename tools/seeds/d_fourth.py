_ns = {}; exec(open(f.replace("d_fourth", "c_third")).read(), _ns)
HEARD = """
    let heard = |name: &str, about: &str| -> i128 {
        let key: soroban_sdk::Vec<soroban_sdk::Val> = (String::from_str(&env, name), String::from_str(&env, about)).into_val(&env);
        let mut found = -1i128;
        for (_, topics, data) in env.events().all().iter() {
            if topics == key {
                found = data.into_val(&env);
            }
        }
        found
    };
"""
POOL = _ns["POOL"].replace("testutils::Address as _, Address, Env}", "testutils::{Address as _, Events}, Address, Env, IntoVal, String}")
SEEDS = [
dict(id="e01-donated-too", property="E01", dir="pool",
  needs="tokens of the sold side sent to the pool directly before a swap",
  breaks="A swap announces as received also what somebody sent to the pool earlier.",
  edits=[("contracts/pool/src/contract.rs", """
.publish(("swap", "actual received amount"), actual_received_amount);
""", """
.publish(
    ("swap", "actual received amount"),
    balance_after_transfer
        - if offer_asset == config.token_a { pool_balance_a } else { pool_balance_b },
);
""")],
  demo=POOL % ("a_swap_announces_what_it_received", "100i64", HEARD + """
    pool.provide_liquidity(&user, &Some(1_000_000), &None, &Some(1_000_000), &None, &None, &None);
    t1.transfer(&user, &pool.address, &777);
    pool.swap(&user, &t1.address, &1_000, &None, &None, &None, &None);
    assert_eq!(heard("swap", "actual received amount"), 1_000);
""")),
dict(id="e01-claimed-so-far", property="E01", dir="vesting",
  needs="a second claim of the same schedule",
  breaks="A claim announces everything claimed from the schedule so far instead of what it paid.",
  edits=[("contracts/vesting/src/contract.rs", """
.publish(("Claim", "Claimed tokens: "), available_to_claim);
""", """
.publish(
    ("Claim", "Claimed tokens: "),
    available_to_claim + convert_u128_to_i128(granted.saturating_sub(sender_balance)),
);
"""), ("contracts/vesting/src/contract.rs", """
let vested = vesting_info.schedule.value(env.ledger().timestamp());

let sender_balance = vesting_info.balance;
""", """
let vested = vesting_info.schedule.value(env.ledger().timestamp());
let granted = vesting_info.schedule.value(0);

let sender_balance = vesting_info.balance;
""")],
  demo="""
use crate::storage::{VestingSchedule, VestingTokenInfo};
use super::setup::{deploy_token_contract, instantiate_vesting_client};
use curve::{Curve, SaturatingLinear};
use soroban_sdk::{testutils::{Address as _, Events, Ledger}, vec, Address, Env, IntoVal, String};

#[test]
fn phx_demo_a_claim_announces_what_it_paid() {
    let env = Env::default();
    env.mock_all_auths();
    env.budget().reset_unlimited();
    let admin = Address::generate(&env);
    let user = Address::generate(&env);
    let token = deploy_token_contract(&env, &admin);
    token.mint(&admin, &1_000);
    let vesting = instantiate_vesting_client(&env);
    vesting.initialize(&admin, &VestingTokenInfo {
        name: String::from_str(&env, "V"), symbol: String::from_str(&env, "V"), decimals: 7, address: token.address.clone(),
    }, &10u32);
    vesting.create_vesting_schedules(&vec![&env, VestingSchedule {
        recipient: user.clone(),
        curve: Curve::SaturatingLinear(SaturatingLinear { min_x: 0, min_y: 1_000, max_x: 100, max_y: 0 }),
    }]);
""" + HEARD.replace("&env, name", "&env, name") + """
    env.ledger().with_mut(|l| l.timestamp = 30);
    vesting.claim(&user, &0);
    assert_eq!(heard("Claim", "Claimed tokens: "), 300);
    env.ledger().with_mut(|l| l.timestamp = 50);
    vesting.claim(&user, &0);
    assert_eq!(heard("Claim", "Claimed tokens: "), 200);
    assert_eq!(token.balance(&user), 500);
}
"""),
]
