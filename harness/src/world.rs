//! A deployment of the real contract in cw-multi-test, driven and observed only through its
//! messages and queries (as JSON), plus the encoding of operations and states the specification uses.
use cosmwasm_std::{
    to_binary, Addr, Binary, Coin, CosmosMsg, Deps, DepsMut, Empty, Env, MessageInfo, Response,
    StdResult, Timestamp, Uint128, WasmMsg,
};
use cosmwasm_std::{testing::MockApi, Order, Record, Storage};
use cw_multi_test::{App, AppBuilder, AppResponse, BankKeeper, Contract, ContractWrapper, Executor};
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::cell::RefCell;
use std::ops::Bound;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

pub const MAX_TICK: i64 = 221_818;
pub const ACCTS: [&str; 8] = ["admin", "alice", "bob", "carol", "dave", "fees", "vault", "dex"];
pub const TOKENS: [&str; 6] = ["IBC/AA", "contract0", "contract1", "contract2", "ibc/AA", "ibc/AAB"];
pub const NATIVE: [bool; 6] = [true, false, false, false, true, true];

pub fn big(v: impl ToString) -> Value {
    Value::String(format!("#{}", v.to_string()))
}
pub fn unbig(v: &Value) -> i128 {
    match v {
        Value::Number(n) => n.as_i64().unwrap() as i128,
        Value::String(s) => {
            let s = s.strip_prefix('#').unwrap_or(s);
            s.parse::<i128>().unwrap_or_else(|_| panic!("int {s}"))
        }
        Value::Object(o) => unbig_s(o["#bigint"].as_str().unwrap()),
        _ => panic!("int {v}"),
    }
}
fn unbig_s(s: &str) -> i128 {
    s.parse().unwrap()
}
/// full-range u128 as decimal string
pub fn ustr(v: &Value) -> String {
    match v {
        Value::Number(n) => n.to_string(),
        Value::String(s) => s.strip_prefix('#').unwrap_or(s).to_string(),
        Value::Object(o) => o["#bigint"].as_str().unwrap().to_string(),
        _ => panic!("int {v}"),
    }
}
pub fn unum(v: &Value) -> u128 {
    ustr(v).parse().unwrap_or_else(|_| panic!("u128 {v}"))
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub struct Key {
    pub x: usize,
    pub y: usize,
    pub fee: u64,
    pub s: u64,
}
impl Key {
    pub fn spec(&self) -> Value {
        json!({"x": self.x, "y": self.y, "fee": big(self.fee), "s": self.s})
    }
    pub fn of_spec(v: &Value) -> Key {
        Key {
            x: unbig(&v["x"]) as usize,
            y: unbig(&v["y"]) as usize,
            fee: unbig(&v["fee"]) as u64,
            s: unbig(&v["s"]) as u64,
        }
    }
    pub fn msg(&self) -> Value {
        json!({"token_x": TOKENS[self.x], "token_y": TOKENS[self.y], "fee_tier": {"fee": self.fee, "tick_spacing": self.s}})
    }
    pub fn of_msg(v: &Value) -> Key {
        Key {
            x: tok(v["token_x"].as_str().unwrap()),
            y: tok(v["token_y"].as_str().unwrap()),
            fee: v["fee_tier"]["fee"].as_u64().unwrap(),
            s: v["fee_tier"]["tick_spacing"].as_u64().unwrap(),
        }
    }
}
pub fn tok(s: &str) -> usize {
    TOKENS.iter().position(|t| *t == s).unwrap_or(99)
}

// ------------------------------------------------------------------ contracts --
fn dex_code() -> Box<dyn Contract<Empty>> {
    Box::new(ContractWrapper::new_with_empty(
        oraiswap_v3::contract::execute,
        oraiswap_v3::contract::instantiate,
        oraiswap_v3::contract::query,
    ).with_migrate_empty(oraiswap_v3::contract::migrate))
}
fn cw20_code() -> Box<dyn Contract<Empty>> {
    Box::new(ContractWrapper::new_with_empty(
        cw20_base::contract::execute,
        cw20_base::contract::instantiate,
        cw20_base::contract::query,
    ))
}
/// accepts ReceiveNft and remembers the last one
mod vault {
    use super::*;
    pub fn instantiate(_: DepsMut, _: Env, _: MessageInfo, _: Value) -> StdResult<Response> {
        Ok(Response::new())
    }
    pub fn execute(d: DepsMut, _: Env, info: MessageInfo, m: Value) -> StdResult<Response> {
        if m.get("receive_nft").is_none() {
            return Err(cosmwasm_std::StdError::generic_err("stand-in abort"));
        }
        let mut rec = m["receive_nft"].clone();
        rec["from_contract"] = json!(info.sender.to_string());
        d.storage.set(b"last", rec.to_string().as_bytes());
        Ok(Response::new())
    }
    pub fn query(d: Deps, _: Env, _: Value) -> StdResult<Binary> {
        Ok(Binary(d.storage.get(b"last").unwrap_or_else(|| b"null".to_vec())))
    }
    pub fn code() -> Box<dyn Contract<Empty>> {
        Box::new(ContractWrapper::new_with_empty(execute, instantiate, query))
    }
}

type Chain = BTreeMap<Vec<u8>, Vec<u8>>;
/// the chain's storage; its contents can be put back to an earlier state
#[derive(Clone, Default)]
pub struct SnapStorage(Rc<RefCell<Chain>>);
impl Storage for SnapStorage {
    fn get(&self, key: &[u8]) -> Option<Vec<u8>> {
        self.0.borrow().get(key).cloned()
    }
    fn set(&mut self, key: &[u8], value: &[u8]) {
        self.0.borrow_mut().insert(key.to_vec(), value.to_vec());
    }
    fn remove(&mut self, key: &[u8]) {
        self.0.borrow_mut().remove(key);
    }
    fn range<'a>(&'a self, start: Option<&[u8]>, end: Option<&[u8]>, order: Order) -> Box<dyn Iterator<Item = Record> + 'a> {
        if matches!((start, end), (Some(a), Some(b)) if a > b) {
            return Box::new(std::iter::empty());
        }
        let lo = start.map_or(Bound::Unbounded, |x| Bound::Included(x.to_vec()));
        let hi = end.map_or(Bound::Unbounded, |x| Bound::Excluded(x.to_vec()));
        let mut v: Vec<Record> = self.0.borrow().range((lo, hi)).map(|(k, v)| (k.clone(), v.clone())).collect();
        if matches!(order, Order::Descending) {
            v.reverse();
        }
        Box::new(v.into_iter())
    }
}
#[derive(Clone)]
pub struct Snapshot {
    chain: Chain,
    block: cosmwasm_std::BlockInfo,
    named: BTreeMap<Key, BTreeSet<i64>>,
}

pub struct World {
    pub app: App<BankKeeper, MockApi, SnapStorage>,
    store: SnapStorage,
    pub dex: Addr,
    pub vault: Addr,
    code: u64,
    /// tick indexes ever named in an operation, per pool
    pub named: BTreeMap<Key, BTreeSet<i64>>,
}

#[derive(Clone, Debug)]
pub struct Outcome {
    pub ok: bool,
    pub out: Vec<String>,
    pub err: String,
    /// what the contract announces: texts and numbers by name
    pub ev: Value,
}

impl World {
    pub fn new(pfee: u64, rich: u128, poor: u128) -> World {
        let users = &ACCTS[..6];
        let bal = |u: &str| if u == "dave" { poor } else { rich };
        let store = SnapStorage::default();
        let mut app = AppBuilder::new().with_storage(store.clone()).build(|router, _, storage| {
            for u in users {
                router
                    .bank
                    .init_balance(
                        storage,
                        &Addr::unchecked(*u),
                        TOKENS
                            .iter()
                            .zip(NATIVE)
                            .filter(|(_, n)| *n)
                            .map(|(t, _)| Coin::new(bal(u), *t))
                            .collect(),
                    )
                    .unwrap();
            }
        });
        app.update_block(|b| {
            b.height = 1000;
            b.time = Timestamp::from_nanos(1_600_000_000_000_000_000);
        });
        let cw = app.store_code(cw20_code());
        let dx = app.store_code(dex_code());
        let vt = app.store_code(vault::code());
        let admin = Addr::unchecked("admin");
        for i in 0..3 {
            let a = app
                .instantiate_contract(
                    cw,
                    admin.clone(),
                    &cw20_base::msg::InstantiateMsg {
                        name: format!("token{i}"),
                        symbol: format!("TOK{}", ["A", "B", "C"][i]),
                        decimals: 6,
                        initial_balances: users
                            .iter()
                            .map(|u| cw20::Cw20Coin {
                                address: u.to_string(),
                                amount: Uint128::from(bal(u)),
                            })
                            .collect(),
                        mint: None,
                        marketing: None,
                    },
                    &[],
                    "tok",
                    None,
                )
                .unwrap();
            assert_eq!(a.as_str(), TOKENS[i + 1]);
        }
        let dex = app
            .instantiate_contract(dx, admin.clone(), &json!({ "protocol_fee": pfee }), &[], "dex", Some("admin".into()))
            .unwrap();
        let vault = app
            .instantiate_contract(vt, admin.clone(), &json!({}), &[], "vault", None)
            .unwrap();
        for u in users {
            for t in &TOKENS[1..4] {
                app.execute_contract(
                    Addr::unchecked(*u),
                    Addr::unchecked(*t),
                    &cw20::Cw20ExecuteMsg::IncreaseAllowance {
                        spender: dex.to_string(),
                        amount: Uint128::MAX,
                        expires: None,
                    },
                    &[],
                )
                .unwrap();
            }
        }
        World { app, store, dex, vault, code: dx, named: BTreeMap::new() }
    }
    pub fn snapshot(&self) -> Snapshot {
        Snapshot { chain: self.store.0.borrow().clone(), block: self.app.block_info(), named: self.named.clone() }
    }
    pub fn restore(&mut self, s: &Snapshot) {
        *self.store.0.borrow_mut() = s.chain.clone();
        self.app.set_block(s.block.clone());
        self.named = s.named.clone();
    }

    pub fn addr(&self, a: &str) -> String {
        match a {
            "dex" => self.dex.to_string(),
            "vault" => self.vault.to_string(),
            _ => a.to_string(),
        }
    }
    pub fn name(&self, a: &str) -> String {
        if a == self.dex.as_str() {
            "dex".into()
        } else if a == self.vault.as_str() {
            "vault".into()
        } else {
            a.into()
        }
    }
    pub fn token_id(&self, owner: &str, idx: u32) -> Value {
        let mut k = self.addr(owner).into_bytes();
        k.extend_from_slice(&idx.to_be_bytes());
        json!(Binary(k).to_base64())
    }
    pub fn of_token_id(&self, b64: &str) -> Option<(String, u32)> {
        let b = Binary::from_base64(b64).ok()?.to_vec();
        if b.len() < 4 {
            return None;
        }
        let (o, i) = b.split_at(b.len() - 4);
        Some((
            self.name(&String::from_utf8(o.to_vec()).ok()?),
            u32::from_be_bytes(i.try_into().unwrap()),
        ))
    }

    // -------------------------------------------------------------- execution --
    pub fn raw(&mut self, by: &str, funds: Vec<Coin>, msg: Value) -> Result<AppResponse, String> {
        let by = Addr::unchecked(self.addr(by));
        let dex = self.dex.to_string();
        let app = &mut self.app;
        let r = catch_unwind(AssertUnwindSafe(move || {
            app.execute(
                by,
                CosmosMsg::Wasm(WasmMsg::Execute {
                    contract_addr: dex,
                    msg: Binary(msg.to_string().into_bytes()),
                    funds,
                }),
            )
        }));
        match r {
            Ok(Ok(x)) => Ok(x),
            Ok(Err(e)) => Err(format!("{}", e.root_cause())),
            Err(_) => Err("panic".into()),
        }
    }
    pub fn query(&self, q: Value) -> Result<Value, String> {
        let dex = self.dex.clone();
        let r = catch_unwind(AssertUnwindSafe(|| {
            self.app
                .wrap()
                .query::<Value>(&cosmwasm_std::QueryRequest::Wasm(cosmwasm_std::WasmQuery::Smart {
                    contract_addr: dex.to_string(),
                    msg: Binary(q.to_string().into_bytes()),
                }))
        }));
        match r {
            Ok(Ok(v)) => Ok(v),
            Ok(Err(e)) => Err(e.to_string()),
            Err(_) => Err("panic".into()),
        }
    }

    /// would this operation succeed?  (run together with a message that fails, so nothing is kept)
    pub fn would(&mut self, op: &Value) -> bool {
        let Some((by, funds, msg)) = self.encode(op) else { return true };
        let by = Addr::unchecked(self.addr(&by));
        let dex = self.dex.to_string();
        let vault = self.vault.to_string();
        let app = &mut self.app;
        let r = catch_unwind(AssertUnwindSafe(move || {
            app.execute_multi(
                by,
                vec![
                    CosmosMsg::Wasm(WasmMsg::Execute { contract_addr: dex, msg: Binary(msg.to_string().into_bytes()), funds }),
                    CosmosMsg::Wasm(WasmMsg::Execute { contract_addr: vault, msg: Binary(b"{\"abort\":1}".to_vec()), funds: vec![] }),
                ],
            )
        }));
        matches!(r, Ok(Err(e)) if e.root_cause().to_string().contains("stand-in abort"))
    }
    /// least a in 0..=max for which the operation would succeed
    pub fn least(&mut self, max: u128, mk: impl Fn(u128) -> Value) -> Option<u128> {
        if !self.would(&mk(max)) {
            return None;
        }
        let (mut lo, mut hi) = (0u128, max); // hi is enough
        while lo < hi {
            let m = lo + (hi - lo) / 2;
            if self.would(&mk(m)) {
                hi = m
            } else {
                lo = m + 1
            }
        }
        Some(hi)
    }

    fn exp_msg(e: &Value) -> Value {
        match e["k"].as_str().unwrap() {
            "height" => json!({"at_height": unbig(&e["v"]) as u64}),
            "time" => json!({"at_time": ustr(&e["v"])}),
            _ => json!({"never": {}}),
        }
    }
    fn exp_spec(e: &Value) -> Value {
        if let Some(h) = e.get("at_height") {
            json!({"k": "height", "v": big(h)})
        } else if let Some(t) = e.get("at_time") {
            json!({"k": "time", "v": big(t.as_str().unwrap())})
        } else {
            json!({"k": "never", "v": 0})
        }
    }
    fn coins(&self, f: &Value) -> Vec<Coin> {
        let mut v: Vec<Coin> = f["#map"]
            .as_array()
            .map(|a| {
                a.iter()
                    .map(|kv| Coin::new(unum(&kv[1]), TOKENS[unbig(&kv[0]) as usize]))
                    .filter(|c| !c.amount.is_zero())
                    .collect()
            })
            .unwrap_or_default();
        v.sort_by(|a, b| a.denom.cmp(&b.denom));
        v
    }

    /// sender, coins and message of a specification operation {tag, value}
    pub fn encode(&mut self, op: &Value) -> Option<(String, Vec<Coin>, Value)> {
        let tag = op["tag"].as_str().unwrap();
        let o = &op["value"];
        let by = o["by"].as_str().unwrap_or("admin").to_string();
        let acct = |w: &World, f: &str| w.addr(o[f].as_str().unwrap());
        let tier = || json!({"fee": unbig(&o["fee"]) as u64, "tick_spacing": unbig(&o["s"]) as u64});
        let idx = || unbig(&o["idx"]) as u32;
        // never to expire may be said or left out
        let exp = |who: &str| if o["exp"]["k"] == json!("never") && o[who].as_str().unwrap().len() % 2 == 1 { Value::Null } else { Self::exp_msg(&o["exp"]) };
        let mut funds = vec![];
        let msg = match tag {
            "Advance" | "Migrate" => return None,
            "CreatePool" => {
                funds = self.coins(&o["funds"]);
                json!({"create_pool": {"token_0": TOKENS[unbig(&o["a"]) as usize], "token_1": TOKENS[unbig(&o["b"]) as usize],
                    "fee_tier": tier(), "init_sqrt_price": ustr(&o["sp"]), "init_tick": unbig(&o["tick"]) as i64}})
            }
            "AddFeeTier" => json!({"add_fee_tier": {"fee_tier": tier()}}),
            "RemoveFeeTier" => json!({"remove_fee_tier": {"fee_tier": tier()}}),
            "ChangeAdmin" => json!({"change_admin": {"new_admin": acct(self, "to")}}),
            "ChangeProtocolFee" => json!({"change_protocol_fee": {"protocol_fee": unbig(&o["fee"]) as u64}}),
            "ChangeFeeReceiver" => {
                json!({"change_fee_receiver": {"pool_key": Key::of_spec(&o["key"]).msg(), "fee_receiver": acct(self, "to")}})
            }
            "WithdrawProtocolFee" => json!({"withdraw_protocol_fee": {"pool_key": Key::of_spec(&o["key"]).msg()}}),
            "CreatePosition" => {
                funds = self.coins(&o["funds"]);
                let key = Key::of_spec(&o["key"]);
                let n = self.named.entry(key).or_default();
                n.insert(unbig(&o["lo"]) as i64);
                n.insert(unbig(&o["up"]) as i64);
                let body = json!({"pool_key": key.msg(), "lower_tick": unbig(&o["lo"]) as i64, "upper_tick": unbig(&o["up"]) as i64,
                    "liquidity_delta": ustr(&o["liq"]), "slippage_limit_lower": ustr(&o["smin"]), "slippage_limit_upper": ustr(&o["smax"])});
                if o["mint"].as_bool().unwrap() {
                    json!({"mint": {"extension": body}})
                } else {
                    json!({ "create_position": body })
                }
            }
            "RemovePosition" => json!({"remove_position": {"index": idx()}}),
            "Burn" => json!({"burn": {"token_id": self.token_id(o["owner"].as_str().unwrap(), idx())}}),
            "ClaimFee" => json!({"claim_fee": {"index": idx()}}),
            "TransferPosition" => json!({"transfer_position": {"index": idx(), "receiver": acct(self, "to")}}),
            "TransferNft" => {
                json!({"transfer_nft": {"recipient": acct(self, "to"), "token_id": self.token_id(o["owner"].as_str().unwrap(), idx())}})
            }
            "SendNft" => {
                json!({"send_nft": {"contract": acct(self, "to"), "token_id": self.token_id(o["owner"].as_str().unwrap(), idx()), "msg": "aGk="}})
            }
            "Approve" => json!({"approve": {"spender": acct(self, "spender"),
                "token_id": self.token_id(o["owner"].as_str().unwrap(), idx()), "expires": exp("spender")}}),
            "Revoke" => json!({"revoke": {"spender": acct(self, "spender"),
                "token_id": self.token_id(o["owner"].as_str().unwrap(), idx())}}),
            "ApproveAll" => json!({"approve_all": {"operator": acct(self, "operator"), "expires": exp("operator")}}),
            "RevokeAll" => json!({"revoke_all": {"operator": acct(self, "operator")}}),
            "Swap" => {
                funds = self.coins(&o["funds"]);
                json!({"swap": {"pool_key": Key::of_spec(&o["key"]).msg(), "x_to_y": o["xToY"], "amount": ustr(&o["amt"]),
                    "by_amount_in": o["byIn"], "sqrt_price_limit": ustr(&o["limit"])}})
            }
            "SwapRoute" => {
                funds = self.coins(&o["funds"]);
                let hops: Vec<Value> = o["hops"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|h| json!({"pool_key": Key::of_spec(&h["key"]).msg(), "x_to_y": h["xToY"]}))
                    .collect();
                json!({"swap_route": {"amount_in": ustr(&o["amt"]), "expected_amount_out": ustr(&o["expected"]),
                    "slippage": unbig(&o["slippage"]) as u64, "swaps": hops}})
            }
            t => panic!("unknown op {t}"),
        };
        Some((by, funds, msg))
    }
    /// run one specification operation on the contract
    pub fn exec(&mut self, op: &Value) -> Outcome {
        let tag = op["tag"].as_str().unwrap();
        let o = &op["value"];
        if tag == "Migrate" {
            let (by, dex, code) = (Addr::unchecked(self.addr(o["by"].as_str().unwrap())), self.dex.clone(), self.code);
            let app = &mut self.app;
            return match catch_unwind(AssertUnwindSafe(move || app.migrate_contract(by, dex, &json!({}), code))) {
                Ok(Ok(_)) => Outcome { ok: true, out: vec![], err: String::new(), ev: Value::Null },
                Ok(Err(e)) => Outcome { ok: false, out: vec![], err: format!("{}", e.root_cause()), ev: Value::Null },
                Err(_) => Outcome { ok: false, out: vec![], err: "panic".into(), ev: Value::Null },
            };
        }
        let Some((by, funds, msg)) = self.encode(op) else {
            let (dh, dt) = (unbig(&o["dh"]) as u64, unbig(&o["dt"]) as u64);
            self.app.update_block(|b| {
                b.height += dh;
                b.time = b.time.plus_nanos(dt);
            });
            return Outcome { ok: true, out: vec![], err: String::new(), ev: Value::Null };
        };
        match self.raw(&by, funds, msg) {
            Err(e) => Outcome { ok: false, out: vec![], err: e, ev: Value::Null },
            Ok(r) => {
                let at = |k: &str| -> Vec<String> {
                    r.events
                        .iter()
                        .filter(|e| e.ty == "wasm")
                        .filter(|e| e.attributes.iter().any(|a| a.key == "_contract_addr" && a.value == self.dex.as_str()))
                        .flat_map(|e| e.attributes.iter())
                        .filter(|a| a.key == k)
                        .map(|a| a.value.clone())
                        .collect()
                };
                let out = match tag {
                    "Swap" => [at("amount_in"), at("amount_out")].concat(),
                    "SwapRoute" => at("amount_out"),
                    "ClaimFee" => [at("amount_x"), at("amount_y")].concat(),
                    "SendNft" => vec![self.received()],
                    _ => vec![],
                };
                let ev = self.announced(&r);
                Outcome { ok: true, out, err: String::new(), ev }
            }
        }
    }

    /// the attributes of the contract's own event
    fn announced(&self, r: &AppResponse) -> Value {
        let (mut text, mut nums) = (serde_json::Map::new(), serde_json::Map::new());
        let mut n = 0;
        for e in r.events.iter().filter(|e| e.ty == "wasm") {
            if !e.attributes.iter().any(|a| a.key == "_contract_addr" && a.value == self.dex.as_str()) {
                continue;
            }
            n += 1;
            for a in &e.attributes {
                let scale = match a.key.as_str() {
                    "_contract_addr" => continue,
                    "liquidity" => 6,
                    "current_sqrt_price" => 24,
                    "lower_tick" | "upper_tick" | "amount_in" | "amount_out" | "amount_x" | "amount_y" => 0,
                    _ => {
                        let v = if a.key == "action" { a.value.clone() } else { self.name(&a.value) };
                        if text.insert(a.key.clone(), json!(v)).is_some() {
                            text.insert("twice".into(), json!(a.key));
                        }
                        continue;
                    }
                };
                if nums.insert(a.key.clone(), json!(scaled(&a.value, scale))).is_some() {
                    text.insert("twice".into(), json!(a.key));
                }
            }
        }
        json!({"events": n, "text": text, "nums": nums})
    }

    /// index of the token the vault was last told it received, if that token is its own
    fn received(&self) -> String {
        let v: Result<Value, _> = self.app.wrap().query_wasm_smart(&self.vault, &json!({}));
        match v {
            Ok(v) if v["from_contract"] == json!(self.dex.to_string()) => {
                match v["token_id"].as_str().and_then(|t| self.of_token_id(t)) {
                    Some((o, i)) if o == "vault" => i.to_string(),
                    Some((_, _)) => "-2".into(),
                    None => "-3".into(),
                }
            }
            _ => "-4".into(),
        }
    }

    // ------------------------------------------------------------- observation --
    pub fn spec_pool(&self, p: &Value) -> Value {
        json!({"liq": big(ustr(&p["liquidity"])), "sp": big(ustr(&p["sqrt_price"])), "tick": p["current_tick_index"],
            "fgx": big(ustr(&p["fee_growth_global_x"])), "fgy": big(ustr(&p["fee_growth_global_y"])),
            "fpx": big(ustr(&p["fee_protocol_token_x"])), "fpy": big(ustr(&p["fee_protocol_token_y"])),
            "start": big(ustr(&p["start_timestamp"])), "last": big(ustr(&p["last_timestamp"])),
            "recv": self.name(p["fee_receiver"].as_str().unwrap())})
    }
    pub fn spec_tick(&self, t: &Value) -> Value {
        json!({"ix": t["index"], "sign": t["sign"], "lc": big(ustr(&t["liquidity_change"])), "lg": big(ustr(&t["liquidity_gross"])),
            "sp": big(ustr(&t["sqrt_price"])), "fox": big(ustr(&t["fee_growth_outside_x"])),
            "foy": big(ustr(&t["fee_growth_outside_y"])), "so": big(ustr(&t["seconds_outside"]))})
    }
    pub fn spec_appr(&self, a: &Value) -> Value {
        json!({"spender": self.name(a["spender"].as_str().unwrap()), "exp": Self::exp_spec(&a["expires"])})
    }
    pub fn spec_pos(&self, p: &Value) -> Value {
        json!({"key": Key::of_msg(&p["pool_key"]).spec(), "liq": big(ustr(&p["liquidity"])),
            "lo": p["lower_tick_index"], "up": p["upper_tick_index"],
            "fx": big(ustr(&p["fee_growth_inside_x"])), "fy": big(ustr(&p["fee_growth_inside_y"])),
            "blk": big(ustr(&p["last_block_number"])),
            "ox": big(ustr(&p["tokens_owed_x"])), "oy": big(ustr(&p["tokens_owed_y"])),
            "appr": p["approvals"].as_array().unwrap().iter().map(|a| self.spec_appr(a)).collect::<Vec<_>>()})
    }
    pub fn balance(&self, t: usize, a: &str) -> u128 {
        let a = self.addr(a);
        if NATIVE[t] {
            self.app.wrap().query_balance(a, TOKENS[t]).unwrap().amount.u128()
        } else {
            let r: cw20::BalanceResponse = self
                .app
                .wrap()
                .query_wasm_smart(TOKENS[t], &cw20::Cw20QueryMsg::Balance { address: a })
                .unwrap();
            r.balance.u128()
        }
    }
    pub fn pools(&self) -> Result<Vec<(Key, Value)>, String> {
        let mut out: Vec<(Key, Value)> = vec![];
        let mut after = Value::Null;
        loop {
            let r = self
                .query(json!({"pools": {"limit": 100, "start_after": after}}))
                .map_err(|e| format!("pools query failed: {e}"))?;
            let a = r.as_array().unwrap();
            for p in a {
                out.push((Key::of_msg(&p["pool_key"]), p["pool"].clone()));
            }
            if a.len() < 100 {
                break;
            }
            after = a[99]["pool_key"].clone();
        }
        Ok(out)
    }
    pub fn bits(&self, k: &Key) -> Result<Vec<i64>, String> {
        let m = MAX_TICK / k.s as i64 * k.s as i64;
        let r = self
            .query(json!({"tick_map": {"pool_key": k.msg(), "lower_tick_index": -m, "upper_tick_index": m, "x_to_y": false}}))
            .map_err(|e| format!("tick_map query failed: {e}"))?;
        let mut v = vec![];
        for c in r.as_array().unwrap() {
            let chunk = c[0].as_i64().unwrap();
            let w = c[1].as_u64().unwrap();
            for b in 0..64 {
                if w >> b & 1 == 1 {
                    v.push((chunk * 64 + b - MAX_TICK / k.s as i64) * k.s as i64);
                }
            }
        }
        Ok(v)
    }
    /// all positions of an owner, read one by one; a hole in the list shows as a position of liquidity -1
    pub fn positions(&self, owner: &str) -> Result<Vec<Value>, String> {
        let n = self
            .query(json!({"user_position_amount": {"owner": self.addr(owner)}}))
            .map_err(|e| format!("user_position_amount query failed: {e}"))?
            .as_u64()
            .unwrap_or(0);
        let mut out = vec![];
        for i in 0..n {
            match self.query(json!({"position": {"owner_id": self.addr(owner), "index": i}})) {
                Ok(p) => out.push(self.spec_pos(&p)),
                Err(_) => out.push(json!({"key": Key { x: 0, y: 0, fee: 0, s: 0 }.spec(), "liq": -1, "lo": 0, "up": 0,
                    "fx": 0, "fy": 0, "blk": 0, "ox": 0, "oy": 0, "appr": []})),
            }
        }
        Ok(out)
    }

    /// the state as the specification's `State`
    pub fn observe(&self) -> Result<Value, String> {
        let admin = self.query(json!({"admin": {}}))?;
        let pfee = self.query(json!({"protocol_fee": {}}))?;
        let tiers = self.query(json!({"fee_tiers": {}}))?;
        let mut pools = vec![];
        let mut ticks = vec![];
        let mut bits = vec![];
        for (k, p) in self.pools()? {
            pools.push(json!([k.spec(), self.spec_pool(&p)]));
            let b = self.bits(&k)?;
            let mut cand: BTreeSet<i64> = b.iter().copied().collect();
            if let Some(n) = self.named.get(&k) {
                cand.extend(n);
            }
            let mut tm = vec![];
            for i in cand {
                if let Ok(t) = self.query(json!({"tick": {"key": k.msg(), "index": i}})) {
                    tm.push(json!([i, self.spec_tick(&t)]));
                }
            }
            ticks.push(json!([k.spec(), {"#map": tm}]));
            bits.push(json!([k.spec(), {"#set": b}]));
        }
        let mut pos = vec![];
        let mut ops = vec![];
        let mut bal = vec![];
        for a in ACCTS {
            let ps: Vec<Value> = self.positions(a)?;
            pos.push(json!([a, ps]));
            let r = self
                .query(json!({"approved_for_all": {"owner": self.addr(a), "include_expired": true, "limit": 100}}))?;
            for o in r["operators"].as_array().unwrap() {
                ops.push(json!([{"#tup": [a, self.name(o["spender"].as_str().unwrap())]}, Self::exp_spec(&o["expires"])]));
            }
            for t in 0..TOKENS.len() {
                bal.push(json!([{"#tup": [t, a]}, big(self.balance(t, a))]));
            }
        }
        let b = self.app.block_info();
        Ok(json!({
            "admin": self.name(admin.as_str().unwrap()), "pfee": big(ustr(&pfee)),
            "tiers": tiers.as_array().unwrap().iter().map(|t| json!({"fee": big(ustr(&t["fee"])), "s": t["tick_spacing"]})).collect::<Vec<_>>(),
            "pools": {"#map": pools}, "ticks": {"#map": ticks}, "bits": {"#map": bits},
            "pos": {"#map": pos}, "ops": {"#map": ops}, "bal": {"#map": bal},
            "h": big(b.height), "t": big(b.time.nanos())
        }))
    }
}

/// sqrt price of a tick (24 decimals), for choosing inputs only
pub fn price_of_tick(tick: i64) -> u128 {
    const F: [u128; 18] = [
        1000049998750, 1000100000000, 1000200010000, 1000400060004, 1000800280056, 1001601200560,
        1003204964963, 1006420201726, 1012881622442, 1025929181080, 1052530684591, 1107820842005,
        1227267017980, 1506184333421, 2268591246242, 5146506242525, 26486526504348, 701536086265529,
    ];
    let t = tick.unsigned_abs();
    let mut p: u128 = 1_000_000_000_000;
    for (i, f) in F.iter().enumerate() {
        if t >> i & 1 == 1 {
            p = p * f / 1_000_000_000_000;
        }
    }
    if tick >= 0 {
        p * 1_000_000_000_000
    } else {
        (1_000_000_000_000_000_000_000_000 / p) * 1_000_000_000_000
    }
}
#[allow(dead_code)]
pub fn obj(v: Vec<(&str, Value)>) -> Value {
    Value::Object(v.into_iter().map(|(k, v)| (k.to_string(), v)).collect::<Map<_, _>>())
}
#[allow(dead_code)]
fn _unused() -> StdResult<Binary> {
    to_binary(&1)
}

/// "12.5" with three decimals: "#12500"; whatever is not a number with at most so many decimals stays as it is
fn scaled(v: &str, scale: usize) -> String {
    let (neg, d) = match v.strip_prefix('-') {
        Some(r) => ("-", r),
        None => ("", v),
    };
    let (a, b) = d.split_once('.').unwrap_or((d, ""));
    let b = b.trim_end_matches('0');
    if a.is_empty() || b.len() > scale || !a.bytes().chain(b.bytes()).all(|c| c.is_ascii_digit()) {
        return v.into();
    }
    let n = format!("{a}{b:0<scale$}");
    let n = n.trim_start_matches('0');
    format!("#{neg}{}", if n.is_empty() { "0" } else { n })
}
