//! Queries: choosing them, asking the real contract, and the answer in the specification's form.
use crate::gen::*;
use crate::rng::Rng;
use crate::world::*;
use serde_json::{json, Value};

fn opt(v: i64) -> Value {
    if v < 0 { Value::Null } else { json!(v) }
}
fn none() -> Value {
    json!({"ok": true, "n": [], "who": [], "keys": [], "pools": [], "ticks": [], "pos": [], "toks": [], "appr": []})
}
fn n1(v: impl ToString) -> Value {
    let mut a = none();
    a["n"] = json!([big(v)]);
    a
}
fn failed() -> Value {
    let mut a = none();
    a["ok"] = json!(false);
    a
}

impl World {
    /// ask the contract the specification query {tag, value}
    pub fn ask(&self, q: &Value) -> Value {
        self.try_ask(q).unwrap_or_else(|_| failed())
    }
    fn try_ask(&self, q: &Value) -> Result<Value, String> {
        let tag = q["tag"].as_str().unwrap();
        let o = &q["value"];
        let key = || Key::of_spec(&o["key"]);
        let i = |f: &str| unbig(&o[f]) as i64;
        let owner = || self.addr(o["owner"].as_str().unwrap());
        let tid = || self.token_id(o["owner"].as_str().unwrap(), unbig(&o["idx"]) as u32);
        let tier = || json!({"fee": unbig(&o["fee"]) as u64, "tick_spacing": unbig(&o["s"]) as u64});
        let mut a = none();
        let pools = |r: &Value, a: &mut Value| {
            let v = r.as_array().unwrap();
            a["keys"] = v.iter().map(|p| Key::of_msg(&p["pool_key"]).spec()).collect();
            a["pools"] = v.iter().map(|p| self.spec_pool(&p["pool"])).collect();
        };
        let appr = |r: &Value| -> Value { r.as_array().unwrap().iter().map(|x| self.spec_appr(x)).collect() };
        // not to include what has expired may be said or left out
        let flag = |k: i64| if o["expired"] == json!(false) && k % 2 == 1 { Value::Null } else { o["expired"].clone() };
        let toks = |r: &Value| -> Value {
            r["tokens"]
                .as_array()
                .unwrap()
                .iter()
                .map(|t| match self.of_token_id(t.as_str().unwrap()) {
                    Some((o, i)) => json!({"owner": o, "idx": i}),
                    None => json!({"owner": "?", "idx": -1}),
                })
                .collect()
        };
        match tag {
            "QAdmin" => {
                let r = self.query(json!({"admin": {}}))?;
                a["who"] = json!([self.name(r.as_str().unwrap())]);
            }
            "QProtocolFee" => return Ok(n1(ustr(&self.query(json!({"protocol_fee": {}}))?))),
            "QFeeTiers" => {
                let r = self.query(json!({"fee_tiers": {}}))?;
                a["n"] = r.as_array().unwrap().iter().flat_map(|t| [big(ustr(&t["fee"])), big(ustr(&t["tick_spacing"]))]).collect();
            }
            "QFeeTierExist" => {
                let r = self.query(json!({"fee_tier_exist": {"fee_tier": tier()}}))?;
                return Ok(n1(r.as_bool().unwrap() as u8));
            }
            "QPosition" => {
                let r = self.query(json!({"position": {"owner_id": owner(), "index": i("idx")}}))?;
                a["pos"] = json!([self.spec_pos(&r)]);
            }
            "QPositions" => {
                let r = self.query(json!({"positions": {"owner_id": owner(), "limit": opt(i("limit")), "offset": opt(i("offset"))}}))?;
                a["pos"] = r.as_array().unwrap().iter().map(|p| self.spec_pos(p)).collect();
            }
            "QCount" => return Ok(n1(self.query(json!({"user_position_amount": {"owner": owner()}}))?)),
            "QPool" => {
                let r = self.query(json!({"pool": {"token_0": TOKENS[i("a") as usize], "token_1": TOKENS[i("b") as usize], "fee_tier": tier()}}))?;
                a["pools"] = json!([self.spec_pool(&r)]);
            }
            "QPools" => {
                let after = o["after"].as_array().unwrap().first().map(|k| Key::of_spec(k).msg()).unwrap_or(Value::Null);
                let r = self.query(json!({"pools": {"limit": opt(i("limit")), "start_after": after}}))?;
                pools(&r, &mut a);
            }
            "QPair" => {
                let r = self.query(json!({"pools_for_pair": {"token_0": TOKENS[i("a") as usize], "token_1": TOKENS[i("b") as usize]}}))?;
                pools(&r, &mut a);
            }
            "QTick" => {
                let r = self.query(json!({"tick": {"key": key().msg(), "index": i("i")}}))?;
                a["ticks"] = json!([self.spec_tick(&r)]);
            }
            "QIsTick" => {
                let r = self.query(json!({"is_tick_initialized": {"key": key().msg(), "index": i("i")}}))?;
                return Ok(n1(r.as_bool().unwrap() as u8));
            }
            "QPositionTicks" => {
                let r = self.query(json!({"position_ticks": {"owner": owner(), "offset": i("offset")}}))?;
                a["n"] = r
                    .as_array()
                    .unwrap()
                    .iter()
                    .flat_map(|t| {
                        [big(ustr(&t["index"])), big(ustr(&t["fee_growth_outside_x"])), big(ustr(&t["fee_growth_outside_y"])), big(ustr(&t["seconds_outside"]))]
                    })
                    .collect();
            }
            "QTickMap" => {
                let r = self.query(json!({"tick_map": {"pool_key": key().msg(), "lower_tick_index": i("lo"), "upper_tick_index": i("up"), "x_to_y": o["xToY"]}}))?;
                a["n"] = r
                    .as_array()
                    .unwrap()
                    .iter()
                    .filter(|c| c[1].as_u64() != Some(0))
                    .flat_map(|c| [big(c[0].to_string()), big(c[1].to_string())])
                    .collect();
            }
            "QLiqTicks" => {
                let is: Vec<i64> = o["is"].as_array().unwrap().iter().map(|v| unbig(v) as i64).collect();
                let r = self.query(json!({"liquidity_ticks": {"pool_key": key().msg(), "tick_indexes": is}}))?;
                a["n"] = r
                    .as_array()
                    .unwrap()
                    .iter()
                    .flat_map(|t| {
                        let l = ustr(&t["liquidity_change"]);
                        let neg = !t["sign"].as_bool().unwrap() && l != "0";
                        [big(ustr(&t["index"])), big(if neg { format!("-{l}") } else { l })]
                    })
                    .collect();
            }
            "QLiqTicksAmount" => {
                return Ok(n1(self.query(json!({"liquidity_ticks_amount": {"pool_key": key().msg(), "lower_tick": i("lo"), "upper_tick": i("up")}}))?))
            }
            "QQuote" => {
                let r = self.query(json!({"quote": {"pool_key": key().msg(), "x_to_y": o["xToY"], "amount": ustr(&o["amt"]),
                    "by_amount_in": o["byIn"], "sqrt_price_limit": ustr(&o["limit"])}}))?;
                a["n"] = json!([big(ustr(&r["amount_in"])), big(ustr(&r["amount_out"])), big(ustr(&r["target_sqrt_price"]))]);
                a["ticks"] = r["ticks"].as_array().unwrap().iter().map(|t| self.spec_tick(t)).collect();
            }
            "QQuoteRoute" => {
                let hops: Vec<Value> = o["hops"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|h| json!({"pool_key": Key::of_spec(&h["key"]).msg(), "x_to_y": h["xToY"]}))
                    .collect();
                return Ok(n1(ustr(&self.query(json!({"quote_route": {"amount_in": ustr(&o["amt"]), "swaps": hops}}))?)));
            }
            "QOwnerOf" => {
                let r = self.query(json!({"owner_of": {"token_id": tid(), "include_expired": flag(i("idx"))}}))?;
                a["who"] = json!([self.name(r["owner"].as_str().unwrap())]);
                a["appr"] = appr(&r["approvals"]);
            }
            "QOperators" => {
                let after = o["after"].as_array().unwrap().first().map(|w| json!(self.addr(w.as_str().unwrap()))).unwrap_or(Value::Null);
                let r = self.query(json!({"approved_for_all": {"owner": owner(), "include_expired": flag(i("limit")), "start_after": after, "limit": opt(i("limit"))}}))?;
                a["appr"] = appr(&r["operators"]);
            }
            "QNftInfo" => {
                let r = self.query(json!({"nft_info": {"token_id": tid()}}))?;
                a["pos"] = json!([self.spec_pos(&r["extension"])]);
            }
            "QAllNftInfo" => {
                let r = self.query(json!({"all_nft_info": {"token_id": tid(), "include_expired": flag(i("idx"))}}))?;
                a["who"] = json!([self.name(r["access"]["owner"].as_str().unwrap())]);
                a["appr"] = appr(&r["access"]["approvals"]);
                a["pos"] = json!([self.spec_pos(&r["info"]["extension"])]);
            }
            "QTokens" => {
                let r = self.query(json!({"tokens": {"owner": owner(), "limit": opt(i("limit")), "start_after": opt(i("offset"))}}))?;
                a["toks"] = toks(&r);
            }
            "QAllTokens" => {
                let after = o["after"]
                    .as_array()
                    .unwrap()
                    .first()
                    .map(|t| self.token_id(t["owner"].as_str().unwrap(), unbig(&t["idx"]) as u32))
                    .unwrap_or(Value::Null);
                let r = self.query(json!({"all_tokens": {"limit": opt(i("limit")), "start_after": after}}))?;
                a["toks"] = toks(&r);
            }
            t => panic!("unknown query {t}"),
        }
        Ok(a)
    }
}

/// the quote that belongs to a swap
pub fn quote_of(o: &Value) -> Option<Value> {
    let v = &o["value"];
    match o["tag"].as_str().unwrap() {
        "Swap" => Some(op("QQuote", json!({"key": v["key"], "xToY": v["xToY"], "amt": v["amt"], "byIn": v["byIn"], "limit": v["limit"]}))),
        "SwapRoute" => Some(op("QQuoteRoute", json!({"amt": v["amt"], "hops": v["hops"]}))),
        _ => None,
    }
}

pub fn pick_query(r: &mut Rng, nft: bool, v: &View, named: &[i64]) -> Value {
    let owner = |r: &mut Rng| -> String {
        if !v.pos.is_empty() && r.chance(75) {
            r.pick(&v.pos).owner.clone()
        } else {
            r.pick(&ACCTS).to_string()
        }
    };
    let key = |r: &mut Rng| -> Key {
        if v.pools.is_empty() {
            return Key { x: 0, y: 1, fee: 0, s: 1 };
        }
        let mut k = r.pick(&v.pools).key;
        if r.chance(4) {
            k.fee += 1
        }
        k
    };
    let lim = |r: &mut Rng| -> i64 { *r.pick(&[-1, -1, 0, 1, 1, 2, 3, 5, 100, 101, 4294967295]) };
    let off = |r: &mut Rng| -> i64 { if r.chance(20) { return r.below(v.pos.len() as u64 + 1) as i64 } *r.pick(&[-1, -1, 0, 0, 1, 2, 3, 7, 4294967295]) };
    let idx = |r: &mut Rng, o: &str| -> u32 {
        let n = v.pos.iter().filter(|p| p.owner == o).count() as u64;
        if n == 0 || r.chance(12) { n as u32 + r.below(2) as u32 } else { r.below(n) as u32 }
    };
    let tick = |r: &mut Rng, k: &Key| -> i64 {
        let bits = v.pools.iter().find(|p| p.key == *k).map(|p| p.bits.clone()).unwrap_or_default();
        let s = k.s as i64;
        let m = MAX_TICK / s * s;
        let t = match r.below(8) {
            0..=3 if !bits.is_empty() => *r.pick(&bits),
            4 if !bits.is_empty() => *r.pick(&bits) + s * r.range(-64, 64),
            5 if !named.is_empty() => *r.pick(named),
            6 => *r.pick(&[-m, m, m - s]),
            _ => r.range(-MAX_TICK / s, MAX_TICK / s) * s,
        };
        t.clamp(-m, m) + if r.chance(3) { 1 } else { 0 }
    };
    let t = |r: &mut Rng| r.below(6);
    match if nft && r.chance(70) { 20 + r.below(6) } else { r.below(26) } {
        0 => op("QAdmin", json!({"#tup": []})),
        1 => op("QProtocolFee", json!({"#tup": []})),
        2 => op("QFeeTiers", json!({"#tup": []})),
        3 => {
            let (fee, s) = if v.tiers.is_empty() || r.chance(30) { (1, 1) } else { *r.pick(&v.tiers) };
            op("QFeeTierExist", json!({"fee": big(fee), "s": s + r.below(2)}))
        }
        4 => {
            let o = owner(r);
            op("QPosition", json!({"idx": idx(r, &o), "owner": o}))
        }
        5 | 6 => op("QPositions", json!({"owner": owner(r), "limit": lim(r), "offset": off(r)})),
        7 => op("QCount", json!({"owner": owner(r)})),
        8 => {
            let k = key(r);
            let (mut a, mut b) = (k.x, k.y);
            if r.chance(50) {
                std::mem::swap(&mut a, &mut b)
            }
            op("QPool", json!({"a": a, "b": b, "fee": big(k.fee), "s": k.s}))
        }
        9 | 10 => {
            let after: Vec<Value> = if r.chance(55) { vec![key(r).spec()] } else { vec![] };
            op("QPools", json!({"limit": lim(r), "after": after}))
        }
        11 => {
            let (a, b) = if r.chance(70) { let k = key(r); (k.y as u64, k.x as u64) } else { (t(r), t(r)) };
            op("QPair", json!({"a": a, "b": b}))
        }
        12 => {
            let k = key(r);
            op("QTick", json!({"i": tick(r, &k), "key": k.spec()}))
        }
        13 => {
            let k = key(r);
            op("QIsTick", json!({"i": tick(r, &k), "key": k.spec()}))
        }
        14 => op("QPositionTicks", json!({"owner": owner(r), "offset": off(r).max(0)})),
        15 | 16 => {
            let k = key(r);
            let (a, b) = (tick(r, &k), tick(r, &k));
            op("QTickMap", json!({"lo": a.min(b), "up": a.max(b), "xToY": r.chance(50), "key": k.spec()}))
        }
        17 => {
            let k = key(r);
            let n = if r.chance(3) { 779 + r.below(4) } else { r.below(4) };
            let is: Vec<i64> = (0..n).map(|_| tick(r, &k)).collect();
            op("QLiqTicks", json!({"is": is, "key": k.spec()}))
        }
        18 | 19 => {
            let k = key(r);
            let (a, b) = (tick(r, &k), tick(r, &k));
            op("QLiqTicksAmount", json!({"lo": a.min(b), "up": a.max(b), "key": k.spec()}))
        }
        20 => {
            let o = owner(r);
            op("QOwnerOf", json!({"idx": idx(r, &o), "owner": o, "expired": r.chance(50)}))
        }
        21 => {
            let o = if nft && r.chance(70) { "alice".into() } else if v.ops.is_empty() { owner(r) } else { r.pick(&v.ops).0.clone() };
            let after: Vec<String> = if r.chance(40) { vec![r.pick(&ACCTS).to_string()] } else { vec![] };
            op("QOperators", json!({"owner": o, "expired": r.chance(50), "after": after, "limit": lim(r)}))
        }
        22 => {
            let o = owner(r);
            op("QNftInfo", json!({"idx": idx(r, &o), "owner": o}))
        }
        23 => {
            let o = owner(r);
            op("QAllNftInfo", json!({"idx": idx(r, &o), "owner": o, "expired": r.chance(50)}))
        }
        24 => op("QTokens", json!({"owner": owner(r), "limit": lim(r), "offset": off(r)})),
        _ => {
            let after: Vec<Value> = if r.chance(55) {
                let o = owner(r);
                vec![json!({"idx": idx(r, &o), "owner": o})]
            } else {
                vec![]
            };
            op("QAllTokens", json!({"limit": lim(r), "after": after}))
        }
    }
}
