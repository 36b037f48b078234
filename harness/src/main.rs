//! A generic "Soroban world" driven by JSON lines on stdin: it creates ledgers, uploads and
//! deploys wasm contracts, and calls them, reporting the result, the authorisations the host
//! required and the published events.  It knows nothing about the contracts: the mapping from the
//! specification to calls, and from replies to the specification's state, lives in the adapters.
use serde_json::{json, Value};
use soroban_sdk::testutils::{Address as _, EnvTestConfig, Events as _, Ledger as _};
use soroban_sdk::testutils::{AuthorizedFunction, AuthorizedInvocation};
use soroban_sdk::xdr::{
    ContractDataDurability, Int128Parts, LedgerKey, ScBytes, ScMap, ScMapEntry, ScString, ScSymbol, ScVal, ScVec, UInt128Parts,
};
use soroban_sdk::{Address, Bytes, Env, Symbol, TryFromVal, Val, Vec as SVec};
use soroban_ledger_snapshot::LedgerSnapshot;
use std::collections::HashMap;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

mod tax;

/// the key of a storage entry
fn key(k: &ScVal) -> Value {
    match k {
        ScVal::LedgerKeyContractInstance => json!("instance"),
        x => enc(x),
    }
}

struct World {
    env: Env,
    wasms: HashMap<String, std::vec::Vec<u8>>,
    base: Option<LedgerSnapshot>,
    evs: usize,
}

type R<T> = Result<T, String>;

/// A fresh ledger; with a base snapshot it starts with the uploaded wasm code, which lets the
/// host use its module cache.
fn new_env(base: Option<&LedgerSnapshot>) -> Env {
    let config = EnvTestConfig {
        capture_snapshot_at_drop: false,
    };
    let env = match base {
        None => Env::new_with_config(config),
        Some(b) => {
            let mut e = Env::from_ledger_snapshot(b.clone());
            e.set_config(config);
            e
        }
    };
    env.host()
        .set_diagnostic_level(soroban_env_host::DiagnosticLevel::None)
        .unwrap();
    env.budget().reset_unlimited();
    env
}

fn hexs(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn unhex(s: &str) -> R<std::vec::Vec<u8>> {
    (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).map_err(|e| e.to_string()))
        .collect()
}

fn int<T: std::str::FromStr>(v: &Value) -> R<T> {
    let s = match v {
        Value::String(s) => s.clone(),
        Value::Number(n) => n.to_string(),
        _ => return Err(format!("int expected: {v}")),
    };
    s.parse::<T>().map_err(|_| format!("bad int {s}"))
}

/// JSON -> ScVal
fn dec(v: &Value) -> R<ScVal> {
    Ok(match v {
        Value::Null => ScVal::Void,
        Value::Bool(b) => ScVal::Bool(*b),
        Value::Array(xs) => ScVal::Vec(Some(ScVec(
            xs.iter()
                .map(dec)
                .collect::<R<std::vec::Vec<_>>>()?
                .try_into()
                .map_err(|_| "vec too long")?,
        ))),
        Value::Object(o) => {
            let (k, x) = o.iter().next().ok_or("empty object")?;
            match k.as_str() {
                "u32" => ScVal::U32(int(x)?),
                "i32" => ScVal::I32(int(x)?),
                "u64" => ScVal::U64(int(x)?),
                "i64" => ScVal::I64(int(x)?),
                "u128" => {
                    let n: u128 = int(x)?;
                    ScVal::U128(UInt128Parts {
                        hi: (n >> 64) as u64,
                        lo: n as u64,
                    })
                }
                "i128" => {
                    let n: i128 = int(x)?;
                    ScVal::I128(Int128Parts {
                        hi: (n >> 64) as i64,
                        lo: n as u64,
                    })
                }
                "sym" => ScVal::Symbol(ScSymbol(
                    x.as_str()
                        .ok_or("sym")?
                        .as_bytes()
                        .to_vec()
                        .try_into()
                        .map_err(|_| "sym too long")?,
                )),
                "str" => ScVal::String(ScString(
                    x.as_str()
                        .ok_or("str")?
                        .as_bytes()
                        .to_vec()
                        .try_into()
                        .map_err(|_| "str too long")?,
                )),
                "bytes" => ScVal::Bytes(ScBytes(
                    unhex(x.as_str().ok_or("bytes")?)?
                        .try_into()
                        .map_err(|_| "bytes")?,
                )),
                "addr" => ScVal::Address(addr_xdr(x.as_str().ok_or("addr")?)?),
                "struct" => {
                    let m = x.as_object().ok_or("struct")?;
                    let mut es: std::vec::Vec<ScMapEntry> = vec![];
                    for (k, v) in m {
                        es.push(ScMapEntry {
                            key: dec(&json!({"sym":k}))?,
                            val: dec(v)?,
                        });
                    }
                    es.sort_by(|a, b| a.key.cmp(&b.key));
                    ScVal::Map(Some(ScMap(es.try_into().map_err(|_| "map")?)))
                }
                _ => return Err(format!("unknown tag {k}")),
            }
        }
        _ => return Err(format!("untagged value {v}")),
    })
}

fn addr_xdr(s: &str) -> R<soroban_sdk::xdr::ScAddress> {
    s.parse().map_err(|_| format!("bad address {s}"))
}

/// ScVal -> JSON
fn enc(v: &ScVal) -> Value {
    match v {
        ScVal::Void => Value::Null,
        ScVal::Bool(b) => json!(b),
        ScVal::U32(n) => json!({"i": n.to_string()}),
        ScVal::I32(n) => json!({"i": n.to_string()}),
        ScVal::U64(n) => json!({"i": n.to_string()}),
        ScVal::I64(n) => json!({"i": n.to_string()}),
        ScVal::U128(p) => json!({"i": (((p.hi as u128) << 64) | p.lo as u128).to_string()}),
        ScVal::I128(p) => {
            json!({"i": ((((p.hi as i128) << 64) as u128 | p.lo as u128) as i128).to_string()})
        }
        ScVal::Symbol(s) => json!({"s": String::from_utf8_lossy(s.0.as_slice())}),
        ScVal::String(s) => json!({"s": String::from_utf8_lossy(s.0.as_slice())}),
        ScVal::Bytes(b) => json!({"b": hexs(b.0.as_slice())}),
        ScVal::Address(a) => json!({"a": a.to_string()}),
        ScVal::Vec(Some(xs)) => Value::Array(xs.0.iter().map(enc).collect()),
        ScVal::Map(Some(m)) => {
            json!({"m": m.0.iter().map(|e| json!([enc(&e.key), enc(&e.val)])).collect::<std::vec::Vec<_>>()})
        }
        other => json!({"other": format!("{other:?}")}),
    }
}

impl World {
    fn new() -> Self {
        World {
            env: new_env(None),
            wasms: HashMap::new(),
            base: None,
            evs: 0,
        }
    }
    fn val(&self, v: &Value) -> R<Val> {
        let s = dec(v)?;
        Val::try_from_val(&self.env, &s).map_err(|_| format!("unconvertible {v}"))
    }
    fn vals(&self, v: &Value) -> R<SVec<Val>> {
        let mut out = SVec::new(&self.env);
        for x in v.as_array().ok_or("args must be an array")? {
            out.push_back(self.val(x)?);
        }
        Ok(out)
    }
    fn addr(&self, s: &str) -> R<Address> {
        Address::try_from_val(&self.env, &ScVal::Address(addr_xdr(s)?))
            .map_err(|_| "address".to_string())
    }
    fn js<V>(&self, v: V) -> Value
    where
        ScVal: TryFromVal<Env, V>,
    {
        match ScVal::try_from_val(&self.env, &v) {
            Ok(s) => enc(&s),
            Err(_) => json!({"other":"?"}),
        }
    }
    fn inv(&self, i: &AuthorizedInvocation) -> Value {
        let subs: std::vec::Vec<Value> = i.sub_invocations.iter().map(|x| self.inv(x)).collect();
        match &i.function {
            AuthorizedFunction::Contract((c, f, args)) => json!({
                "c": self.js(c.to_val()), "f": self.js(f.to_val()), "args": self.js(args.to_val()), "subs": subs}),
            _ => json!({"create": true, "subs": subs}),
        }
    }
    fn run(&mut self, c: &Value) -> R<Value> {
        let g = |k: &str| c.get(k).and_then(|x| x.as_str()).unwrap_or("");
        let on = |k: &str| c.get(k).and_then(|x| x.as_bool()).unwrap_or(false);
        match g("cmd") {
            "new" => {
                if self.base.is_none() {
                    let env = new_env(None);
                    env.ledger().set_min_persistent_entry_ttl(6_311_999);
                    for b in self.wasms.values() {
                        env.deployer()
                            .upload_contract_wasm(Bytes::from_slice(&env, b));
                    }
                    env.ledger().set_min_persistent_entry_ttl(4096);
                    self.base = Some(env.to_ledger_snapshot());
                }
                self.env = new_env(self.base.as_ref());
                self.evs = 0;
                Ok(Value::Null)
            }
            "wasm" => {
                let b = std::fs::read(g("path")).map_err(|e| format!("{}: {e}", g("path")))?;
                self.wasms.insert(g("name").into(), b);
                self.base = None;
                Ok(Value::Null)
            }
            "upload" => {
                let b = self.wasms.get(g("name")).ok_or("no such wasm")?;
                let h = self
                    .env
                    .deployer()
                    .upload_contract_wasm(Bytes::from_slice(&self.env, b));
                Ok(json!(hexs(&h.to_array())))
            }
            "gen" => {
                let n: usize = int(&c["n"])?;
                Ok(Value::Array(
                    (0..n)
                        .map(|_| self.js(Address::generate(&self.env).to_val())["a"].clone())
                        .collect(),
                ))
            }
            "register" => {
                let args = self.vals(&c["args"])?;
                self.env.mock_all_auths_allowing_non_root_auth();
                if g("name") == "taxed" {
                    // defined here (tax.rs), not by the code under test
                    let at = self.addr(c["at"].as_str().ok_or("no address")?)?;
                    let a = self.env.register_at(&at, tax::TaxToken, args);
                    return Ok(self.js(a.to_val())["a"].clone());
                }
                let b = self.wasms.get(g("name")).ok_or("no such wasm")?.clone();
                let a = match c.get("at").and_then(|x| x.as_str()) {
                    Some(at) => {
                        let at = self.addr(at)?;
                        self.env.register_at(&at, b.as_slice(), args)
                    }
                    None => self.env.register(b.as_slice(), args),
                };
                Ok(self.js(a.to_val())["a"].clone())
            }
            "ledger" => {
                if let Some(t) = c.get("ts") {
                    self.env.ledger().set_timestamp(int(t)?);
                }
                if let Some(t) = c.get("seq") {
                    self.env.ledger().set_sequence_number(int(t)?);
                }
                if let Some(t) = c.get("minp") {
                    self.env.ledger().set_min_persistent_entry_ttl(int(t)?);
                }
                Ok(Value::Null)
            }
            "ttls" => {
                // ledger until which every persistent entry (instances included) of every contract lives
                let map = self
                    .env
                    .host()
                    .with_mut_storage(|s| Ok(s.map.clone()))
                    .map_err(|e| format!("{e:?}"))?;
                let budget = soroban_env_host::budget::AsBudget::as_budget(self.env.host());
                let mut out = vec![];
                for (k, v) in map.iter(budget).map_err(|e| format!("{e:?}"))? {
                    if let (LedgerKey::ContractData(d), Some((_, live))) = (k.as_ref(), v) {
                        if d.durability == ContractDataDurability::Persistent {
                            let c = enc(&ScVal::Address(d.contract.clone()));
                            out.push(json!([c, key(&d.key), live]));
                        }
                    }
                }
                Ok(Value::Array(out))
            }
            "live" => {
                // sets until which ledger entries live: all code ("code"), all persistent entries
                // ("data"), or the entries listed as [contract, key, ledger]
                let budget = soroban_env_host::budget::AsBudget::as_budget(self.env.host());
                let mut want: HashMap<String, u32> = HashMap::new();
                for x in c["set"].as_array().into_iter().flatten() {
                    want.insert(format!("{} {}", x[0], x[1]), int(&x[2])?);
                }
                let (code, data) = (c.get("code"), c.get("data"));
                let code: Option<u32> = code.map(int).transpose()?;
                let data: Option<u32> = data.map(int).transpose()?;
                self.env
                    .host()
                    .with_mut_storage(|s| {
                        let m = s.map.clone();
                        for (k, v) in m.iter(budget)? {
                            let n = match k.as_ref() {
                                LedgerKey::ContractCode(_) => code,
                                LedgerKey::ContractData(d)
                                    if d.durability == ContractDataDurability::Persistent =>
                                {
                                    let n = want.get(&format!("{} {}", enc(&ScVal::Address(d.contract.clone())), key(&d.key)));
                                    n.copied().or(data)
                                }
                                _ => None,
                            };
                            if let (Some(n), Some((e, Some(live)))) = (n, v) {
                                if *live != n {
                                    s.map = s.map.insert(k.clone(), Some((e.clone(), Some(n))), budget)?;
                                }
                            }
                        }
                        Ok(())
                    })
                    .map_err(|e| format!("{e:?}"))?;
                Ok(Value::Null)
            }
            "call" => {
                let a = self.addr(g("c"))?;
                let f = Symbol::new(&self.env, g("f"));
                let args = self.vals(&c["a"])?;
                if on("unsigned") {
                    self.env.set_auths(&[]);
                } else {
                    self.env.mock_all_auths_allowing_non_root_auth();
                }
                let want_ev = on("ev");
                if want_ev {
                    self.evs = self.env.events().all().len() as usize;
                }
                let r = self
                    .env
                    .try_invoke_contract::<Val, soroban_sdk::Error>(&a, &f, args);
                let mut out = match r {
                    Ok(Ok(v)) => json!({"ok": true, "ret": self.js(v)}),
                    Ok(Err(_)) => json!({"ok": false, "err": "conversion"}),
                    Err(e) => json!({"ok": false, "err": format!("{:?}", e)}),
                };
                if on("au") {
                    let au = self.env.auths();
                    out["auths"] = Value::Array(
                        au.iter()
                            .map(|(x, i)| json!([self.js(x.to_val()), self.inv(i)]))
                            .collect(),
                    );
                }
                if want_ev {
                    let all = self.env.events().all();
                    let mut es = vec![];
                    for (k, e) in all.iter().enumerate() {
                        if k >= self.evs {
                            es.push(json!([
                                self.js(e.0.to_val()),
                                self.js(e.1.to_val()),
                                self.js(e.2)
                            ]));
                        }
                    }
                    out["events"] = Value::Array(es);
                }
                Ok(out)
            }
            "multi" => {
                // many queries inside one top-level frame (of contract "at"), which is much
                // cheaper than one frame each
                let at = self.addr(g("at"))?;
                let mut qs = vec![];
                for q in c["qs"].as_array().ok_or("qs")? {
                    let h = |k: &str| q.get(k).and_then(|x| x.as_str()).unwrap_or("");
                    qs.push((self.addr(h("c"))?, Symbol::new(&self.env, h("f")), self.vals(&q["a"])?));
                }
                let env = self.env.clone();
                let rs: std::vec::Vec<Option<Val>> = self.env.as_contract(&at, || {
                    qs.into_iter()
                        .map(|(a, f, args)| {
                            match env.try_invoke_contract::<Val, soroban_sdk::Error>(&a, &f, args) {
                                Ok(Ok(v)) => Some(v),
                                _ => None,
                            }
                        })
                        .collect()
                });
                Ok(Value::Array(
                    rs.into_iter()
                        .map(|r| match r {
                            Some(v) => json!({"ok": true, "ret": self.js(v)}),
                            None => json!({"ok": false, "err": "query"}),
                        })
                        .collect(),
                ))
            }
            x => Err(format!("unknown cmd {x}")),
        }
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut w = World::new();
    let stdin = std::io::stdin();
    let stdout = std::io::stdout();
    for line in stdin.lock().lines() {
        let Ok(line) = line else { break };
        let v: Value = match serde_json::from_str(&line) {
            Ok(v) => v,
            Err(e) => {
                println!("{}", json!([{ "fail": e.to_string() }]));
                continue;
            }
        };
        let cmds = v.as_array().cloned().unwrap_or_default();
        let mut outs = vec![];
        for c in &cmds {
            let r = catch_unwind(AssertUnwindSafe(|| w.run(c)));
            outs.push(match r {
                Ok(Ok(v)) => json!({ "r": v }),
                Ok(Err(e)) => json!({ "fail": e }),
                Err(p) => {
                    let m = p
                        .downcast_ref::<String>()
                        .cloned()
                        .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                        .unwrap_or_default();
                    json!({ "panic": m })
                }
            });
        }
        let mut o = stdout.lock();
        let _ = writeln!(o, "{}", Value::Array(outs));
        let _ = o.flush();
    }
}
