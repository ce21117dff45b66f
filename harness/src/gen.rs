//! Chooses operations: random, adversarial histories over the real contract.
use crate::rng::Rng;
use crate::world::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;

pub const MAXP: u128 = 65535383934512647000000000000;
pub const MINP: u128 = 15258932000000000000;

#[derive(Clone, Debug)]
pub struct PoolV {
    pub key: Key,
    pub liq: u128,
    pub sp: u128,
    pub tick: i64,
    pub recv: String,
    pub bits: Vec<i64>,
    pub ticks: Vec<(i64, u128)>, // index, gross
}
#[derive(Clone, Debug)]
pub struct PosV {
    pub owner: String,
    pub idx: u32,
    pub key: Key,
    pub lo: i64,
    pub up: i64,
    pub liq: u128,
    pub appr: Vec<String>,
}
#[derive(Clone, Debug, Default)]
pub struct View {
    pub admin: String,
    pub pfee: u64,
    pub tiers: Vec<(u64, u64)>,
    pub pools: Vec<PoolV>,
    pub pos: Vec<PosV>,
    pub ops: Vec<(String, String)>,
    pub h: u64,
    pub t: u64,
    pub bal: BTreeMap<(usize, String), u128>,
}
impl View {
    pub fn of(st: &Value) -> View {
        let mut v = View {
            admin: st["admin"].as_str().unwrap().into(),
            pfee: unum(&st["pfee"]) as u64,
            h: unum(&st["h"]) as u64,
            t: unum(&st["t"]) as u64,
            ..Default::default()
        };
        for t in st["tiers"].as_array().unwrap() {
            v.tiers.push((unum(&t["fee"]) as u64, unum(&t["s"]) as u64));
        }
        let m = |f: &str| st[f]["#map"].as_array().unwrap().clone();
        for (i, kv) in m("pools").iter().enumerate() {
            let p = &kv[1];
            let bits = st["bits"]["#map"][i][1]["#set"].as_array().unwrap();
            let ticks = st["ticks"]["#map"][i][1]["#map"].as_array().unwrap();
            v.pools.push(PoolV {
                key: Key::of_spec(&kv[0]),
                liq: unum(&p["liq"]),
                sp: unum(&p["sp"]),
                tick: unbig(&p["tick"]) as i64,
                recv: p["recv"].as_str().unwrap().into(),
                bits: bits.iter().map(|b| b.as_i64().unwrap()).collect(),
                ticks: ticks.iter().map(|t| (t[0].as_i64().unwrap(), unum(&t[1]["lg"]))).collect(),
            });
        }
        for kv in m("pos") {
            for (i, p) in kv[1].as_array().unwrap().iter().enumerate() {
                v.pos.push(PosV {
                    owner: kv[0].as_str().unwrap().into(),
                    idx: i as u32,
                    key: Key::of_spec(&p["key"]),
                    lo: p["lo"].as_i64().unwrap(),
                    up: p["up"].as_i64().unwrap(),
                    liq: unum(&p["liq"]),
                    appr: p["appr"].as_array().unwrap().iter().map(|a| a["spender"].as_str().unwrap().into()).collect(),
                });
            }
        }
        for kv in m("ops") {
            v.ops.push((kv[0]["#tup"][0].as_str().unwrap().into(), kv[0]["#tup"][1].as_str().unwrap().into()));
        }
        for kv in m("bal") {
            v.bal.insert((kv[0]["#tup"][0].as_u64().unwrap() as usize, kv[0]["#tup"][1].as_str().unwrap().into()), unum(&kv[1]));
        }
        v
    }
}

/// relative frequencies of the operations
#[derive(Clone, Debug)]
pub struct Profile {
    pub name: String,
    pub w: Vec<(&'static str, u64)>,
    pub pools: (u64, u64),
    pub positions: (u64, u64),
    pub len: u64,
    pub extreme: bool,
    pub native: bool,
    pub maxliq: u32,
    /// queries after every operation (percent)
    pub ask: u64,
}
pub fn profile(name: &str) -> Profile {
    let base: Vec<(&'static str, u64)> = vec![
        ("swap", 30), ("edge", 12), ("create", 14), ("remove", 8), ("claim", 8), ("xferpos", 3), ("nft", 8), ("appr", 8),
        ("burn", 4), ("route", 6), ("withdraw", 4), ("tier", 3), ("pool", 4), ("pfee", 2), ("recv", 2), ("admin", 1), ("adv", 8),
    ];
    let mut p = Profile { name: name.into(), w: base, pools: (1, 3), positions: (2, 5), len: 40, extreme: false, native: false, maxliq: 18, ask: 0 };
    let set = |v: &[(&'static str, u64)]| v.to_vec();
    match name {
        "query" => {
            p.ask = 400;
            p.pools = (2, 5);
            p.positions = (3, 9);
            p.len = 30
        }
        "swap" => p.w = set(&[("swap", 40), ("edge", 30), ("create", 10), ("remove", 4), ("claim", 4), ("adv", 4), ("pfee", 1)]),
        "liq" => p.w = set(&[("create", 30), ("remove", 22), ("swap", 14), ("edge", 10), ("claim", 8), ("adv", 5), ("xferpos", 3)]),
        "fees" => {
            p.w = set(&[("swap", 26), ("edge", 14), ("create", 10), ("remove", 6), ("claim", 22), ("withdraw", 7), ("pfee", 3), ("recv", 2), ("adv", 4)]);
            p.maxliq = 15
        }
        "ticks" => {
            p.w = set(&[("create", 30), ("remove", 16), ("edge", 30), ("swap", 20), ("claim", 3)]);
            p.pools = (1, 1)
        }
        "nft" => {
            p.w = set(&[("nft", 24), ("appr", 30), ("burn", 14), ("xferpos", 8), ("create", 14), ("remove", 6), ("claim", 6), ("adv", 14), ("swap", 4)]);
            p.pools = (1, 2);
            p.len = 60
        }
        "admin" => {
            p.w = set(&[("tier", 22), ("pool", 24), ("pfee", 8), ("recv", 14), ("admin", 8), ("withdraw", 16), ("swap", 12), ("create", 6), ("adv", 4)]);
            p.positions = (1, 3)
        }
        "route" => {
            p.w = set(&[("route", 55), ("swap", 12), ("edge", 4), ("create", 10), ("remove", 2), ("adv", 2), ("pool", 4)]);
            p.pools = (3, 5);
            p.positions = (3, 7);
            p.native = true;
            p.len = 30
        }
        "funds" => {
            p.w = set(&[("swap", 40), ("create", 34), ("route", 16), ("remove", 8), ("claim", 6), ("edge", 4), ("pool", 3)]);
            p.pools = (2, 3);
            p.native = true
        }
        "extreme" => {
            p.w = set(&[("create", 26), ("remove", 10), ("swap", 30), ("edge", 18), ("claim", 8), ("withdraw", 2), ("adv", 3)]);
            p.extreme = true;
            p.pools = (1, 2);
            p.maxliq = 30
        }
        "drain" => {
            p.w = set(&[("swap", 24), ("edge", 18), ("create", 14), ("remove", 10), ("claim", 10), ("withdraw", 5), ("route", 6), ("burn", 2), ("pfee", 1), ("nft", 3)]);
            p.len = 30
        }
        // few ticks shared by many positions of few sizes
        "stack" => {
            p.w = set(&[("create", 34), ("remove", 26), ("edge", 22), ("swap", 12), ("claim", 6), ("adv", 3), ("burn", 2)]);
            p.pools = (1, 2);
            p.positions = (3, 8)
        }
        // many operators and spenders, some of them expired
        "ops" => {
            p.w = set(&[("appr", 60), ("adv", 14), ("nft", 10), ("burn", 3), ("create", 6), ("xferpos", 3)]);
            p.pools = (1, 1);
            p.positions = (2, 4);
            p.len = 45;
            p.ask = 300
        }
        // one owner with more positions than a page holds, or than fit in a byte
        "many" => {
            p.w = set(&[("create", 20), ("remove", 30), ("nft", 12), ("burn", 6), ("xferpos", 12), ("claim", 8), ("swap", 8), ("appr", 8)]);
            p.pools = (1, 2);
            p.positions = (98, 290);
            p.len = 14;
            p.ask = 700
        }
        // more pools than a page holds
        "wide" => {
            p.w = set(&[("pool", 30), ("create", 20), ("swap", 10), ("tier", 10), ("route", 10), ("recv", 10), ("withdraw", 5)]);
            p.pools = (60, 112);
            p.positions = (1, 3);
            p.len = 14;
            p.ask = 500
        }
        _ => {}
    }
    p
}

pub struct Gen {
    pub rng: Rng,
    pub p: Profile,
}

fn funds(v: Vec<(usize, u128)>) -> Value {
    json!({"#map": v.into_iter().filter(|(_, a)| *a > 0).map(|(t, a)| json!([t, big(a)])).collect::<Vec<_>>()})
}
pub fn op(tag: &str, v: Value) -> Value {
    json!({"tag": tag, "value": v})
}

impl Gen {
    pub fn user(&mut self) -> String {
        if self.p.name == "many" && self.rng.chance(92) {
            return "alice".into();
        }
        let v = if self.rng.chance(75) { ["alice", "bob", "carol"] } else { ["admin", "dave", "fees"] };
        self.rng.pick(&v).to_string()
    }
    fn anyone(&mut self) -> String {
        let v = ["alice", "bob", "carol", "alice", "bob", "carol", "admin", "dave", "fees", "vault"];
        self.rng.pick(&v).to_string()
    }
    fn weights(&mut self) -> &'static str {
        let tot: u64 = self.p.w.iter().map(|x| x.1).sum();
        let mut r = self.rng.below(tot);
        for (n, w) in &self.p.w {
            if r < *w {
                return n;
            }
            r -= w;
        }
        unreachable!()
    }
    pub fn tier(&mut self) -> (u64, u64) {
        let s = *self.rng.pick(&[1u64, 1, 2, 5, 10, 10, 20, 60, 100, 3, 64, 7]);
        let fee = if self.p.extreme && self.rng.chance(25) {
            *self.rng.pick(&[999_999_999_999u64, 990_000_000_000, 1])
        } else {
            *self.rng.pick(&[0u64, 100_000_000, 500_000_000, 3_000_000_000, 6_000_000_000, 10_000_000_000, 100_000_000_000, 500_000_000_000])
        };
        (fee, s)
    }
    /// a new tier, often a relative of a registered one
    pub fn add_tier(&mut self, v: &View) -> Value {
        let (mut fee, mut s) = self.tier();
        if self.rng.chance(45) && !v.tiers.is_empty() {
            let t = *self.rng.pick(&v.tiers);
            match self.rng.below(4) {
                0 => fee = t.0,
                1 => s = t.1,
                _ => {
                    // same spacing, a fee that shares digits or bytes
                    s = t.1;
                    let d = *self.rng.pick(&[1u64, 1 << 8, 1 << 16, 1 << 32, 3 << 32, 1000, 1_000_000_000]);
                    fee = if self.rng.chance(70) || t.0 < d { t.0 + d } else { t.0 - d };
                    if fee >= 1_000_000_000_000 {
                        fee = t.0
                    }
                }
            }
        }
        if self.rng.chance(12) && !v.tiers.is_empty() {
            let t = *self.rng.pick(&v.tiers);
            fee = t.0;
            s = t.1
        }
        if self.rng.chance(12) {
            match self.rng.below(6) {
                0 => s = 0,
                1 => s = 101,
                2 => fee = 1_000_000_000_000,
                3 => fee = 1_000_000_000_001,
                4 => s = 65535,
                _ => fee = u64::MAX,
            }
        }
        let by = if self.rng.chance(75) { v.admin.clone() } else { self.anyone() };
        op("AddFeeTier", json!({"by": by, "fee": big(fee), "s": s}))
    }
    fn tier_op(&mut self, v: &View) -> Value {
        if self.rng.chance(60) || v.tiers.is_empty() {
            return self.add_tier(v);
        }
        let (mut fee, s) = *self.rng.pick(&v.tiers);
        if self.rng.chance(15) {
            fee += 1
        }
        let by = if self.rng.chance(60) { v.admin.clone() } else { self.anyone() };
        op("RemoveFeeTier", json!({"by": by, "fee": big(fee), "s": s}))
    }
    /// price inside [price(tick), price(tick+s))
    fn init_price(&mut self, tick: i64, s: i64) -> u128 {
        let a = price_of_tick(tick.clamp(-MAX_TICK, MAX_TICK));
        let b = price_of_tick((tick + s).clamp(-MAX_TICK, MAX_TICK));
        match self.rng.below(10) {
            0..=4 => a,
            5 => a + 1,
            6 => b.saturating_sub(1),
            _ if b > a => a + self.rng.u128() % (b - a),
            _ => a,
        }
    }
    pub fn pool_op(&mut self, v: &View) -> Value {
        let (fee, s) = if v.tiers.is_empty() || self.rng.chance(6) { self.tier() } else { *self.rng.pick(&v.tiers) };
        let (mut a, mut b) = (self.rng.below(6) as usize, self.rng.below(6) as usize);
        if self.p.native && self.rng.chance(80) && !NATIVE[a] && !NATIVE[b] {
            b = *self.rng.pick(&[0, 4, 5])
        }
        if a == b && self.rng.chance(90) {
            b = (a + 1) % 6
        }
        if self.rng.chance(if self.p.name == "wide" { 3 } else { 30 }) && !v.pools.is_empty() {
            // same pair again, either order
            let k = self.rng.pick(&v.pools).key;
            a = k.x;
            b = k.y;
            if self.rng.chance(50) {
                std::mem::swap(&mut a, &mut b)
            }
        }
        let m = MAX_TICK / s as i64;
        let ti = match self.rng.below(20) {
            0..=6 => 0,
            7..=11 => self.rng.range(-40, 40),
            12..=14 => self.rng.range(-m, m),
            15 => m - self.rng.range(0, 3),
            16 => -m + self.rng.range(0, 3),
            17 => self.rng.range(-m / 4, m / 4) / 64 * 64,
            _ => self.rng.range(-3000 / s as i64 - 1, 3000 / s as i64 + 1),
        };
        let mut tick = ti * s as i64;
        let mut sp = self.init_price(tick, s as i64);
        let by = self.user();
        match self.rng.below(24) {
            0 => tick += 1,
            1 => tick -= s as i64,
            2 => tick += s as i64,
            3 => sp = price_of_tick((tick + s as i64).min(MAX_TICK)),
            4 => sp = sp.saturating_sub(1),
            5 => sp = self.rng.mag(29),
            6 => tick = (m + 1) * s as i64,
            7 => tick = -(m + 1) * s as i64,
            8 => {
                // a valid price just below the one asked for
                let t = self.rng.range(-MAX_TICK, MAX_TICK);
                tick = t;
                sp = price_of_tick(t)
            }
            _ => {}
        }
        let f = if self.rng.chance(4) { funds(vec![(4, 5)]) } else { funds(vec![]) };
        op("CreatePool", json!({"by": by, "a": a, "b": b, "fee": big(fee), "s": s, "sp": big(sp), "tick": tick, "funds": f}))
    }
    fn liquidity(&mut self, p: &PoolV) -> u128 {
        let cap = u128::MAX / ((2 * MAX_TICK as u128 + 1) / p.key.s as u128);
        if self.p.extreme && self.rng.chance(30) {
            let g = p.ticks.iter().map(|t| t.1).max().unwrap_or(0);
            return match self.rng.below(6) {
                0 => cap - 1,
                1 => cap,
                2 => cap.saturating_sub(g),
                3 => cap.saturating_sub(g + 1),
                4 => cap / 2,
                _ => cap + 1,
            };
        }
        match self.rng.below(40) {
            0 => 0,
            1 => 1,
            2..=5 => self.rng.mag(self.p.maxliq.min(9)),
            _ => self.rng.mag(self.p.maxliq),
        }
    }
    fn range(&mut self, p: &PoolV) -> (i64, i64) {
        let s = p.key.s as i64;
        let m = MAX_TICK / s;
        let c = p.tick.div_euclid(s);
        let (mut lo, mut up) = match self.rng.below(16) {
            0..=4 => (c - self.rng.range(0, 6), c + self.rng.range(1, 6)),
            5 => (c - self.rng.range(1, 40), c + self.rng.range(1, 40)),
            6 => (c + self.rng.range(0, 5), c + self.rng.range(5, 20)),
            7 => (c - self.rng.range(5, 20), c - self.rng.range(-1, 4)),
            8 => (-m, m),
            9 => (c - self.rng.range(200, 600), c + self.rng.range(200, 600)),
            10 => (c - self.rng.range(254, 258), c + self.rng.range(254, 258)),
            11 => {
                // chunk boundaries of the bitmap
                let ch = (c + m).div_euclid(64) + self.rng.range(-2, 2);
                let e = ch * 64 - m + self.rng.range(-1, 0);
                if e <= c { (e, c + self.rng.range(1, 70)) } else { (c - self.rng.range(0, 70), e) }
            }
            12 => (-m + self.rng.range(0, 2), c + self.rng.range(1, 4)),
            13 => (c - self.rng.range(0, 4), m - self.rng.range(0, 2)),
            _ => {
                let mut lo = c - self.rng.range(0, 6);
                let mut up = c + self.rng.range(1, 6);
                if !p.bits.is_empty() {
                    let a = self.rng.pick(&p.bits) / s;
                    let b = self.rng.pick(&p.bits) / s;
                    match self.rng.below(3) {
                        0 => lo = a,
                        1 => up = b,
                        _ => {
                            lo = a.min(b);
                            up = a.max(b)
                        }
                    }
                }
                (lo, up)
            }
        };
        lo = lo.clamp(-m, m);
        up = up.clamp(-m, m);
        if lo > up {
            std::mem::swap(&mut lo, &mut up)
        }
        if lo == up && up < m {
            up += 1
        }
        let (mut lo, mut up) = (lo * s, up * s);
        match self.rng.below(40) {
            0 => std::mem::swap(&mut lo, &mut up),
            1 => lo += 1,
            2 => up -= 1,
            3 => up = lo,
            4 => up = (m + 1) * s,
            5 => lo = -(m + 1) * s,
            _ => {}
        }
        (lo, up)
    }
    fn pick_pool<'a>(&mut self, v: &'a View) -> Option<&'a PoolV> {
        if v.pools.is_empty() {
            return None;
        }
        let i = self.rng.below(v.pools.len() as u64) as usize;
        Some(&v.pools[i])
    }
    /// attached coins around what is needed
    fn attach(&mut self, v: &View, by: &str, needs: &[(usize, u128)]) -> Vec<(usize, u128)> {
        let mut f: Vec<(usize, u128)> = vec![];
        for (t, need) in needs {
            if !NATIVE[*t] {
                continue;
            }
            let have = v.bal.get(&(*t, by.to_string())).copied().unwrap_or(0);
            let a = match self.rng.below(20) {
                0 => need.saturating_sub(1),
                1 => 0,
                2 => need / 2,
                3..=8 => *need,
                9 => need.saturating_add(1),
                _ => need.saturating_add(self.rng.mag(9)),
            };
            f.push((*t, a.min(have.saturating_add(if self.rng.chance(3) { 1 } else { 0 }))));
        }
        if self.rng.chance(4) {
            let t = *self.rng.pick(&[0usize, 4, 5]);
            if !f.iter().any(|x| x.0 == t) {
                f.push((t, self.rng.mag(6)))
            }
        }
        f
    }
    pub fn create_op(&mut self, w: &mut World, v: &View, good: bool) -> Option<Value> {
        let p = self.pick_pool(v)?.clone();
        let (mut lo, mut up) = self.range(&p);
        let mut l = self.liquidity(&p);
        let twins: Vec<PosV> = v.pos.iter().filter(|q| q.key == p.key).cloned().collect();
        if !twins.is_empty() && self.rng.chance(if self.p.name == "stack" { 80 } else { 12 }) {
            // shares an end with a position there is, with the same liquidity or one that makes ticks cancel out
            let q = self.rng.pick(&twins).clone();
            let o = self.rng.pick(&twins).clone();
            let s = p.key.s as i64;
            let m = MAX_TICK / s * s;
            let d = s * self.rng.range(1, 6);
            let (a, b) = match self.rng.below(8) {
                0 => (q.lo, q.up),
                1 | 2 => (q.up, (q.up + d).min(m)),
                3 | 4 => ((q.lo - d).max(-m), q.lo),
                5 => (q.lo, (q.lo + d).min(m)),
                6 => ((q.up - d).max(-m), q.up),
                _ => (q.up.min(o.lo), q.up.max(o.lo)),
            };
            if a < b {
                lo = a;
                up = b
            }
            l = match self.rng.below(6) {
                0..=3 => q.liq,
                4 => q.liq.saturating_add(o.liq),
                _ => q.liq.abs_diff(o.liq).max(1),
            };
        }
        if good {
            l = l.max(1000);
            if p.bits.is_empty() {
                // the first position of a pool covers the price
                let s = p.key.s as i64;
                let m = MAX_TICK / s;
                let c = p.tick.div_euclid(s);
                let d = *self.rng.pick(&[2i64, 10, 100, 300, 1000]);
                lo = (c - d).max(-m) * s;
                up = (c + d).min(m) * s;
                if lo >= up {
                    up = lo + s
                }
                l = self.rng.mag(self.p.maxliq - 6).max(1) * 1_000_000;
            }
        }
        let by = self.user();
        let (mut smin, mut smax) = (p.sp, p.sp);
        match self.rng.below(20) {
            0 => smin = p.sp + 1,
            1 => smax = p.sp - 1,
            2 => {
                smin = p.sp - 1;
                smax = p.sp + 1
            }
            3..=8 => {
                smin = 0;
                smax = u128::MAX
            }
            9 => smin = p.sp / 2,
            _ => {}
        }
        if good {
            smin = p.sp;
            smax = p.sp
        }
        let mint = self.rng.chance(30);
        let mk = |f: Vec<(usize, u128)>| {
            op("CreatePosition", json!({"by": by, "key": p.key.spec(), "lo": lo, "up": up, "liq": big(l),
                "smin": big(smin), "smax": big(smax), "funds": funds(f), "mint": mint}))
        };
        let mut f = vec![];
        let probe_it = self.rng.chance(60);
        for t in [p.key.x, p.key.y] {
            if !NATIVE[t] {
                continue;
            }
            let have = v.bal[&(t, by.clone())];
            // generous coins of the other native token while looking for the least that is enough
            if probe_it && have > 0 {
                let other: Vec<(usize, u128)> =
                    [p.key.x, p.key.y].iter().filter(|o| **o != t && NATIVE[**o]).map(|o| (*o, v.bal[&(*o, by.clone())])).collect();
                let need = w.least(have, |a| {
                    let mut g = other.clone();
                    g.push((t, a));
                    mk(g)
                });
                if let Some(n) = need {
                    f.push((t, n));
                    continue;
                }
            }
            f.push((t, have));
        }
        let f2 = if good { f.clone() } else { self.attach(v, &by, &f) };
        Some(mk(f2))
    }
    fn owner_idx(&mut self, v: &View) -> (String, u32) {
        if v.pos.is_empty() || self.rng.chance(6) {
            let idx = self.rng.below(3) as u32;
            return (self.anyone(), if self.rng.chance(10) { u32::MAX } else { idx });
        }
        let p = self.rng.pick(&v.pos);
        (p.owner.clone(), p.idx)
    }
    fn exp(&mut self, v: &View) -> Value {
        match self.rng.below(8) {
            0..=2 => json!({"k": "never", "v": 0}),
            3..=5 => json!({"k": "height", "v": big((v.h as i64 + self.rng.range(-1, 3)).max(0))}),
            _ => {
                let d = *self.rng.pick(&[-1i64, 0, 1, 1_000, 1_000_000_000, 2_000_000_000]);
                json!({"k": "time", "v": big(v.t as i64 + d)})
            }
        }
    }
    fn actor(&mut self, v: &View, owner: &str, idx: u32) -> String {
        let spenders: Vec<String> =
            v.pos.iter().filter(|p| p.owner == owner && p.idx == idx).flat_map(|p| p.appr.clone()).collect();
        let opers: Vec<String> = v.ops.iter().filter(|o| o.0 == owner).map(|o| o.1.clone()).collect();
        match self.rng.below(10) {
            0..=2 => owner.to_string(),
            3..=5 if !spenders.is_empty() => self.rng.pick(&spenders).clone(),
            4..=7 if !opers.is_empty() => self.rng.pick(&opers).clone(),
            8 => owner.to_string(),
            _ => self.anyone(),
        }
    }
    fn appr_op(&mut self, v: &View) -> Value {
        let (owner, idx) = self.owner_idx(v);
        let who = self.user();
        match self.rng.below(10) {
            0..=4 => {
                let by = self.actor(v, &owner, idx);
                op("Approve", json!({"by": by, "owner": owner, "idx": idx, "spender": who, "exp": self.exp(v)}))
            }
            5 | 6 => {
                let by = self.actor(v, &owner, idx);
                let sp: Vec<String> = v.pos.iter().filter(|p| p.owner == owner && p.idx == idx).flat_map(|p| p.appr.clone()).collect();
                let spender = if sp.is_empty() || self.rng.chance(20) { who } else { self.rng.pick(&sp).clone() };
                op("Revoke", json!({"by": by, "owner": owner, "idx": idx, "spender": spender}))
            }
            7 | 8 => {
                let (owner, who) = if self.p.name == "ops" && self.rng.chance(75) { ("alice".to_string(), self.anyone()) } else { (owner, who) };
                op("ApproveAll", json!({"by": owner, "operator": who, "exp": self.exp(v)}))
            }
            _ if self.p.name == "ops" && self.rng.chance(60) => {
                op("ApproveAll", json!({"by": "alice", "operator": self.anyone(), "exp": self.exp(v)}))
            }
            _ => {
                let (by, o) = if !v.ops.is_empty() && self.rng.chance(70) { self.rng.pick(&v.ops).clone() } else { (owner, who) };
                op("RevokeAll", json!({"by": by, "operator": o}))
            }
        }
    }
    fn nft_op(&mut self, v: &View) -> Value {
        let (owner, idx) = self.owner_idx(v);
        let by = self.actor(v, &owner, idx);
        if self.rng.chance(35) {
            let dst = if self.rng.chance(85) { "vault".to_string() } else { self.anyone() };
            op("SendNft", json!({"by": by, "owner": owner, "idx": idx, "to": dst}))
        } else {
            let dst = if self.rng.chance(10) { owner.clone() } else { self.anyone() };
            op("TransferNft", json!({"by": by, "owner": owner, "idx": idx, "to": dst}))
        }
    }
    fn own_pos(&mut self, v: &View) -> (String, u32) {
        if v.pos.is_empty() || self.rng.chance(5) {
            return (self.user(), self.rng.below(4) as u32);
        }
        let p = self.rng.pick(&v.pos);
        (p.owner.clone(), p.idx)
    }
    fn limit(&mut self, p: &PoolV, x: bool) -> u128 {
        let s = p.key.s as i64;
        match self.rng.below(14) {
            0..=7 => if x { MINP } else { MAXP },
            8 => {
                let d = self.rng.range(1, 30) * s * if x { -1 } else { 1 };
                price_of_tick((p.tick + d).clamp(-MAX_TICK, MAX_TICK))
            }
            9 => {
                let d = self.rng.range(0, 10) * s * if x { -1 } else { 1 };
                let e = *self.rng.pick(&[-1i128, 1]);
                (price_of_tick((p.tick + d).clamp(-MAX_TICK, MAX_TICK)) as i128 + e) as u128
            }
            10 => if x { p.sp.saturating_sub(self.rng.mag(20)) } else { p.sp.saturating_add(self.rng.mag(20)) },
            11 => *self.rng.pick(&[0, 1, MINP - 1, MAXP + 1, u128::MAX, p.sp, p.sp + 1, p.sp - 1]),
            12 if !p.bits.is_empty() => price_of_tick(*self.rng.pick(&p.bits)),
            _ => if x { p.sp - p.sp / 50 } else { p.sp + p.sp / 50 },
        }
    }
    fn quote(w: &World, k: &Key, x: bool, amt: u128, by_in: bool, limit: u128) -> Option<(u128, u128, u128)> {
        let r = w
            .query(json!({"quote": {"pool_key": k.msg(), "x_to_y": x, "amount": amt.to_string(), "by_amount_in": by_in, "sqrt_price_limit": limit.to_string()}}))
            .ok()?;
        Some((unum(&r["amount_in"]), unum(&r["amount_out"]), unum(&r["target_sqrt_price"])))
    }
    /// largest amount that the swap can take without going past `price` (found by asking for quotes)
    fn amount_to(&mut self, w: &World, p: &PoolV, x: bool, by_in: bool, price: u128) -> Option<u128> {
        let ok = |a: u128| Self::quote(w, &p.key, x, a, by_in, price).is_some();
        let mut lo = None;
        let mut e = 1u128;
        for _ in 0..30 {
            if ok(e) {
                lo = Some(e);
            } else if lo.is_some() {
                break;
            }
            e = e.checked_mul(10)?;
        }
        let mut lo = lo?;
        let mut hi = lo.saturating_mul(10);
        while hi - lo > 1 {
            let m = lo + (hi - lo) / 2;
            if ok(m) {
                lo = m
            } else {
                hi = m
            }
        }
        Some(lo)
    }
    pub fn swap_op(&mut self, w: &World, v: &View, edge: bool) -> Option<Value> {
        let p = self.pick_pool(v)?.clone();
        let x = self.rng.chance(50);
        let by_in = self.rng.chance(65);
        let by = self.user();
        let mut limit = self.limit(&p, x);
        let mut amt = if self.rng.chance(4) { 0 } else { self.rng.mag(if self.p.extreme { 34 } else { 14 }) };
        if !edge && self.rng.chance(75) {
            // somewhere between here and the end of the liquidity
            let s = p.key.s as i64;
            let end = if x { p.bits.iter().min() } else { p.bits.iter().max() };
            let reach = end.map(|e| (e - p.tick).abs() / s).unwrap_or(0).min(if self.rng.chance(80) { 60 } else { 3000 });
            if reach > 0 {
                let d = self.rng.range(0, reach) * s;
                let t = (if x { p.tick - d } else { p.tick + d }).clamp(-MAX_TICK, MAX_TICK);
                let a = price_of_tick(t);
                let b = price_of_tick((t + s).clamp(-MAX_TICK, MAX_TICK));
                let pr = if b > a { a + self.rng.u128() % (b - a) } else { a };
                if let Some(a) = self.amount_to(w, &p, x, by_in, pr) {
                    amt = if self.rng.chance(50) { a } else { self.rng.u128() % a + 1 };
                }
            }
        }
        if edge {
            // ticks in the direction of the trade: land on, just before or just past one
            let mut c: Vec<i64> = p.bits.iter().copied().filter(|b| if x { *b <= p.tick } else { *b > p.tick }).collect();
            if x {
                c.reverse()
            }
            let s = p.key.s as i64;
            c.truncate(4);
            if self.rng.chance(30) {
                let d = *self.rng.pick(&[1i64, 2, 255, 256, 257]) * s;
                c.push((if x { p.tick - d } else { p.tick + d }).clamp(-MAX_TICK, MAX_TICK));
            }
            if !c.is_empty() {
                let t = *self.rng.pick(&c);
                let mut pr = price_of_tick(t);
                if self.rng.chance(15) {
                    pr = (pr as i128 + *self.rng.pick(&[-1i128, 1])) as u128
                }
                if let Some(a) = self.amount_to(w, &p, x, by_in, pr) {
                    let d = *self.rng.pick(&[0i128, 0, 0, 1, 1, -1, 2, 3, 10]);
                    amt = (a as i128 + d).max(0) as u128;
                    limit = if self.rng.chance(75) { if x { MINP } else { MAXP } } else { pr };
                }
            }
        }
        let need = if by_in { amt } else { Self::quote(w, &p.key, x, amt, false, limit).map(|q| q.0).unwrap_or(amt) };
        let need = if by_in && self.rng.chance(30) { Self::quote(w, &p.key, x, amt, true, limit).map(|q| q.0).unwrap_or(amt) } else { need };
        let tin = if x { p.key.x } else { p.key.y };
        let f = self.attach(v, &by, &[(tin, need)]);
        Some(op("Swap", json!({"by": by, "key": p.key.spec(), "xToY": x, "amt": big(amt), "byIn": by_in, "limit": big(limit), "funds": funds(f)})))
    }
    pub fn hops(&mut self, v: &View) -> Option<Vec<(Key, bool)>> {
        let p = self.pick_pool(v)?;
        let mut hops = vec![(p.key, self.rng.chance(50))];
        if self.rng.chance(2) {
            return Some(vec![]);
        }
        let n = self.rng.below(4);
        for _ in 0..n {
            let (k, x) = *hops.last().unwrap();
            let out = if x { k.y } else { k.x };
            let c: Vec<(Key, bool)> =
                v.pools.iter().flat_map(|p| [(p.key, true), (p.key, false)]).filter(|(k, x)| (if *x { k.x } else { k.y }) == out).collect();
            if c.is_empty() {
                break;
            }
            hops.push(*self.rng.pick(&c));
        }
        if self.rng.chance(5) {
            // disconnected, or through a pool that does not exist
            let p = self.pick_pool(v)?;
            let mut k = p.key;
            if self.rng.chance(50) {
                k.fee += 1
            }
            hops.push((k, self.rng.chance(50)))
        }
        Some(hops)
    }
    fn route_op(&mut self, w: &World, v: &View) -> Option<Value> {
        let hops = self.hops(v)?;
        let by = self.user();
        let mut amt = self.rng.mag(13);
        for _ in 0..12 {
            // prefer an amount the first pools can take
            let q = w.query(json!({"quote_route": {"amount_in": amt.to_string(),
                "swaps": hops.iter().map(|(k, x)| json!({"pool_key": k.msg(), "x_to_y": x})).collect::<Vec<_>>()}}));
            if q.is_ok() || self.rng.chance(4) {
                break;
            }
            amt = self.rng.mag(13);
        }
        let q = w.query(json!({"quote_route": {"amount_in": amt.to_string(),
            "swaps": hops.iter().map(|(k, x)| json!({"pool_key": k.msg(), "x_to_y": x})).collect::<Vec<_>>()}}));
        let exp0 = q.map(|r| unum(&r)).unwrap_or(self.rng.mag(9));
        let slippage: u64 = *self.rng.pick(&[0u64, 0, 1, 10_000_000_000, 500_000_000_000, 999_999_999_999, 1_000_000_000_000, 1_000_000_000_001]);
        let expected = match self.rng.below(10) {
            0 => 0,
            1 => exp0 + 1,
            2 | 3 if slippage < 1_000_000_000_000 => {
                // expected amount whose floor is right at the output
                let d = 1_000_000_000_000 - slippage as u128;
                exp0.saturating_mul(1_000_000_000_000) / d + self.rng.below(2) as u128
            }
            4 => exp0 * 2,
            _ => exp0,
        };
        let mut needs = vec![];
        for (i, (k, x)) in hops.iter().enumerate() {
            let t = if *x { k.x } else { k.y };
            if NATIVE[t] && !needs.iter().any(|n: &(usize, u128)| n.0 == t) {
                let need = if i == 0 {
                    amt
                } else {
                    let pre = w.query(json!({"quote_route": {"amount_in": amt.to_string(),
                        "swaps": hops[..i].iter().map(|(k, x)| json!({"pool_key": k.msg(), "x_to_y": x})).collect::<Vec<_>>()}}));
                    pre.map(|r| unum(&r)).unwrap_or(amt)
                };
                needs.push((t, need));
            }
        }
        let f = if self.rng.chance(10) { vec![] } else { self.attach(v, &by, &needs) };
        Some(op("SwapRoute", json!({"by": by, "amt": big(amt), "expected": big(expected), "slippage": big(slippage),
            "hops": hops.iter().map(|(k, x)| json!({"key": k.spec(), "xToY": x})).collect::<Vec<_>>(), "funds": funds(f)})))
    }
    fn key(&mut self, v: &View) -> Key {
        let mut k = match self.pick_pool(v) {
            Some(p) => p.key,
            None => Key { x: 0, y: 1, fee: 1, s: 1 },
        };
        if self.rng.chance(6) {
            std::mem::swap(&mut k.x, &mut k.y)
        } else if self.rng.chance(6) {
            k.s += 1
        }
        k
    }
    pub fn next(&mut self, w: &mut World, v: &View) -> Value {
        for _ in 0..20 {
            let mut kind = self.weights();
            if v.pools.is_empty() && self.rng.chance(90) {
                kind = "pool"
            } else if v.pos.is_empty() && self.rng.chance(85) && !["tier", "pool", "adv", "admin"].contains(&kind) {
                kind = "create"
            }
            let o = match kind {
                k @ ("swap" | "edge") => {
                    let mut o = self.swap_op(w, v, k == "edge");
                    for _ in 0..4 {
                        // mostly swaps that the pool can carry out
                        match &o {
                            Some(x) if !self.rng.chance(12) && !w.would(x) => o = self.swap_op(w, v, k == "edge"),
                            _ => break,
                        }
                    }
                    o
                }
                "create" => self.create_op(w, v, false),
                "remove" => {
                    let (by, idx) = self.own_pos(v);
                    Some(op("RemovePosition", json!({"by": by, "idx": idx})))
                }
                "claim" => {
                    let (by, idx) = self.own_pos(v);
                    Some(op("ClaimFee", json!({"by": by, "idx": idx})))
                }
                "xferpos" => {
                    let (by, idx) = self.own_pos(v);
                    let dst = if self.rng.chance(15) { by.clone() } else { self.anyone() };
                    Some(op("TransferPosition", json!({"by": by, "idx": idx, "to": dst})))
                }
                "nft" => Some(self.nft_op(v)),
                "appr" => Some(self.appr_op(v)),
                "burn" => {
                    let (owner, idx) = self.owner_idx(v);
                    let by = self.actor(v, &owner, idx);
                    Some(op("Burn", json!({"by": by, "owner": owner, "idx": idx})))
                }
                "route" => {
                    let mut o = self.route_op(w, v);
                    for _ in 0..4 {
                        match &o {
                            Some(x) if !self.rng.chance(12) && !w.would(x) => o = self.route_op(w, v),
                            _ => break,
                        }
                    }
                    o
                }
                "withdraw" => {
                    let key = self.key(v);
                    let recv = v.pools.iter().find(|p| p.key == key).map(|p| p.recv.clone());
                    let by = match recv {
                        Some(r) if self.rng.chance(65) => r,
                        _ if self.rng.chance(40) => v.admin.clone(),
                        _ => self.anyone(),
                    };
                    Some(op("WithdrawProtocolFee", json!({"by": by, "key": key.spec()})))
                }
                "tier" => Some(self.tier_op(v)),
                "pool" => Some(self.pool_op(v)),
                "pfee" => {
                    let by = if self.rng.chance(60) { v.admin.clone() } else { self.anyone() };
                    let fee = *self.rng.pick(&[0u64, 1, 10_000_000_000, 100_000_000_000, 250_000_000_000, 500_000_000_000, 999_999_999_999, 1_000_000_000_000, 1_000_000_000_000]) + if self.rng.chance(4) { 1 } else { 0 };
                    Some(op("ChangeProtocolFee", json!({"by": by, "fee": big(fee)})))
                }
                "recv" => {
                    let by = if self.rng.chance(60) { v.admin.clone() } else { self.anyone() };
                    Some(op("ChangeFeeReceiver", json!({"by": by, "key": self.key(v).spec(), "to": self.user()})))
                }
                "admin" if self.rng.chance(25) => Some(op("Migrate", json!({"by": if self.rng.chance(80) { "admin".to_string() } else { self.anyone() }}))),
                "admin" => {
                    let by = if self.rng.chance(50) { v.admin.clone() } else { self.anyone() };
                    Some(op("ChangeAdmin", json!({"by": by, "to": self.user()})))
                }
                _ => {
                    let dt = *self.rng.pick(&[0u64, 1, 999_999, 1_000_000, 1_000_000_000, 6_000_000_000, 86_400_000_000_000]);
                    Some(op("Advance", json!({"dh": self.rng.below(3), "dt": big(dt)})))
                }
            };
            if let Some(o) = o {
                return o;
            }
        }
        op("Advance", json!({"dh": 1, "dt": big(1)}))
    }
}
