//! A token that keeps a part of every transfer (in basis points) for an account of its own.  It is
//! no part of the code under test: pools have to stay backed whatever their tokens do.
use soroban_sdk::{contract, contractimpl, symbol_short, Address, Env, String};

#[contract]
pub struct TaxToken;

fn get(env: &Env, id: &Address) -> i128 {
    env.storage().persistent().get(id).unwrap_or(0)
}

fn set(env: &Env, id: &Address, v: i128) {
    env.storage().persistent().set(id, &v);
}

#[contractimpl]
impl TaxToken {
    pub fn __constructor(env: Env, decimals: u32, bps: i128, sink: Address) {
        let s = env.storage().instance();
        s.set(&symbol_short!("dec"), &decimals);
        s.set(&symbol_short!("bps"), &bps);
        s.set(&symbol_short!("sink"), &sink);
    }

    pub fn mint(env: Env, to: Address, amount: i128) {
        set(&env, &to, get(&env, &to) + amount);
    }

    pub fn balance(env: Env, id: Address) -> i128 {
        get(&env, &id)
    }

    pub fn decimals(env: Env) -> u32 {
        env.storage().instance().get(&symbol_short!("dec")).unwrap()
    }

    pub fn name(env: Env) -> String {
        String::from_str(&env, "Tax")
    }

    pub fn symbol(env: Env) -> String {
        String::from_str(&env, "TAX")
    }

    pub fn transfer(env: Env, from: Address, to: Address, amount: i128) {
        from.require_auth();
        let have = get(&env, &from);
        if amount < 0 || have < amount {
            panic!("not enough");
        }
        let bps: i128 = env.storage().instance().get(&symbol_short!("bps")).unwrap();
        let sink: Address = env.storage().instance().get(&symbol_short!("sink")).unwrap();
        let tax = amount * bps / 10_000;
        set(&env, &from, have - amount);
        set(&env, &to, get(&env, &to) + amount - tax);
        set(&env, &sink, get(&env, &sink) + tax);
    }
}
