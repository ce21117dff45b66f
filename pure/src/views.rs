//! The views of the contract that list ticks, on bitmaps and position lists larger than histories
//! build: answers are cut off at the documented limits and nowhere else.
use crate::*;
use cosmwasm_std::testing::{mock_dependencies, mock_env};
use cosmwasm_std::{from_binary, Addr};
use decimal::Decimal;
use oraiswap_v3::fee_growth::FeeGrowth;
use oraiswap_v3::liquidity::Liquidity;
use oraiswap_v3::msg::QueryMsg;
use oraiswap_v3::percentage::Percentage;
use oraiswap_v3::state;
use oraiswap_v3::{FeeTier, LiquidityTick, PoolKey, Position, PositionTick, Tick};

fn key(s: u16, f: u64) -> PoolKey {
    PoolKey::new("a".into(), "b".into(), FeeTier { fee: Percentage::new(f), tick_spacing: s }).unwrap()
}

pub fn run(o: &mut Out, g: &mut Gen, n: u64) {
    for k in 0..n.max(3) {
        maps(o, g, k % 3 == 0);
        if k % 2 == 0 {
            lists(o, g)
        }
    }
}

fn maps(o: &mut Out, g: &mut Gen, huge: bool) {
    let s = if huge { *g.r.pick(&[1u16, 1, 2]) } else { g.spacing() };
    let m = MAX_TICK / s as i32;
    let mut v: Vec<i32> = vec![];
    if huge {
        // about as many chunks as one answer can hold
        let c = 1630 + g.r.below(20) as i32;
        let from = g.r.below((2 * m / 64 - c) as u64) as i32;
        for j in 0..c {
            v.push(((from + j) * 64 + *g.r.pick(&[0, 1, 31, 62, 63]) - m).clamp(-m, m))
        }
    } else {
        let base = match g.r.below(4) {
            0 => -m,
            1 => m - 400,
            _ => g.r.range(-(m as i64), (m - 400).max(-m) as i64) as i32,
        };
        let dense = g.r.below(100);
        for j in 0..400 {
            if g.r.chance(dense) {
                v.push((base + j).clamp(-m, m))
            }
        }
        if g.r.chance(30) {
            v.push(m)
        }
        if g.r.chance(30) {
            v.push(-m)
        }
    }
    v.sort();
    v.dedup();
    let v: Vec<i32> = v.iter().map(|x| x * s as i32).collect();
    let pk = key(s, 100);
    let mut deps = mock_dependencies();
    for x in &v {
        let _ = guard(|| state::flip_bitmap(&mut deps.storage, true, *x, s, &pk).ok());
        // another pool, which must not be seen
        if g.r.chance(10) {
            let _ = guard(|| state::flip_bitmap(&mut deps.storage, true, *x, s, &key(s, 101)).ok());
        }
    }
    let any = |g: &mut Gen| -> i32 {
        let w = match g.r.below(6) {
            0 => -m,
            1 => m,
            2 | 3 if !v.is_empty() => *g.r.pick(&v) / s as i32 + g.r.range(-1, 1) as i32,
            4 => (g.r.below((2 * m / 64) as u64) as i32) * 64 + *g.r.pick(&[0, 63]) - m,
            _ => g.r.range(-(m as i64), m as i64) as i32,
        };
        w.clamp(-m, m) * s as i32
    };
    for _ in 0..if huge { 3 } else { 8 } {
        let (mut lo, mut up) = (any(g), any(g));
        if lo > up {
            std::mem::swap(&mut lo, &mut up)
        }
        if huge && g.r.chance(60) {
            lo = -m * s as i32;
            up = m * s as i32
        }
        if !huge && s > 1 && g.r.chance(8) {
            up += 1 // not a tick of this pool
        }
        let xy = g.r.chance(50);
        let bits = set(&v);
        let r = guard(|| {
            let q = QueryMsg::TickMap { pool_key: pk.clone(), lower_tick_index: lo, upper_tick_index: up, x_to_y: xy };
            let r: Vec<(u16, u64)> = from_binary(&oraiswap_v3::contract::query(deps.as_ref(), mock_env(), q).ok()?).ok()?;
            Some(r.into_iter().flat_map(|(c, w)| [i(c), i(w)]).collect())
        });
        o.call("contract.tick_map", "tickMapOf", &[bits.clone(), i(s), i(lo), i(up), b(xy)], opt_list(r));
        let r = guard(|| {
            let q = QueryMsg::LiquidityTicksAmount { pool_key: pk.clone(), lower_tick: lo, upper_tick: up };
            from_binary::<u32>(&oraiswap_v3::contract::query(deps.as_ref(), mock_env(), q).ok()?).ok()
        });
        o.call("contract.liquidity_ticks_amount", "ticksCount", &[bits.clone(), i(s), i(lo), i(up)], oi(r));
        let t = any(g);
        let r = guard(|| {
            let q = QueryMsg::IsTickInitialized { key: pk.clone(), index: t };
            from_binary::<bool>(&oraiswap_v3::contract::query(deps.as_ref(), mock_env(), q).ok()?).ok()
        });
        o.call("contract.is_tick_initialized", "hasBit", &[bits, i(t)], b(r.unwrap_or(false)));
    }
}

fn lists(o: &mut Out, g: &mut Gen) {
    let s = g.spacing();
    let m = MAX_TICK / s as i32;
    let pk = key(s, 100);
    let mut deps = mock_dependencies();
    let mut net = vec![];
    let cnt = 2 + g.r.below(400) as i32;
    let base = g.r.range(-(m as i64), m as i64) as i32;
    let base = base.min(m - cnt);
    let mut present = vec![];
    for j in 0..cnt {
        let t = (base + j) * s as i32;
        let (l, sg) = (g.r.mag(30), g.r.chance(50));
        let tick = Tick { index: t, sign: sg, liquidity_change: Liquidity::new(l), fee_growth_outside_x: FeeGrowth::new(t.unsigned_abs() as u128), seconds_outside: 7, ..Default::default() };
        if guard(|| state::add_tick(&mut deps.storage, &pk, t, &tick).ok()).is_some() {
            present.push(t);
            net.push(format!("[{},{{\"#tup\":[{},{}]}}]", i(t), i(l), b(sg)));
        }
    }
    let net = format!("{{\"#map\":[{}]}}", net.join(","));
    let ticks = |g: &mut Gen, n: usize| -> Vec<i32> { (0..n).map(|_| *g.r.pick(&present)).collect() };
    let n = *g.r.pick(&[1usize, 2, 50, 779, 780, 781, 900]);
    let mut is = ticks(g, n);
    if g.r.chance(10) {
        let j = g.r.below(n as u64) as usize;
        is[j] = (base + cnt) * s as i32
    }
    let r = guard(|| {
        let q = QueryMsg::LiquidityTicks { pool_key: pk.clone(), tick_indexes: is.clone() };
        let r: Vec<LiquidityTick> = from_binary(&oraiswap_v3::contract::query(deps.as_ref(), mock_env(), q).ok()?).ok()?;
        Some(r.into_iter().flat_map(|t| [i(t.index), i(t.liquidity_change.get()), i(t.sign as i32)]).collect())
    });
    let ids: Vec<String> = is.iter().map(i).collect();
    o.call("contract.liquidity_ticks", "liquidityTicksOf", &[net, list(&ids)], opt_list(r));
    // positions of one owner over these ticks, some of which have gone
    let who = Addr::unchecked("owner");
    let np = *g.r.pick(&[1usize, 3, 185, 186, 187, 200, 230]);
    let mut ps = vec![];
    for _ in 0..np {
        let mut e = ticks(g, 2);
        if g.r.chance(3) {
            e[g.r.below(2) as usize] = (base + cnt + 1) * s as i32
        }
        let p = Position { pool_key: pk.clone(), lower_tick_index: e[0], upper_tick_index: e[1], ..Default::default() };
        if guard(|| state::add_position(&mut deps.storage, &who, &p).ok()).is_none() {
            return;
        }
        ps.push(format!("{{\"#tup\":[{},{}]}}", i(e[0]), i(e[1])));
    }
    let off = match g.r.below(4) {
        0 => 0,
        1 => 1,
        2 => np + g.r.below(2) as usize,
        _ => g.r.below(np as u64) as usize,
    };
    let r = guard(|| {
        let q = QueryMsg::PositionTicks { owner: who.clone(), offset: off as u32 };
        let r: Vec<PositionTick> = from_binary(&oraiswap_v3::contract::query(deps.as_ref(), mock_env(), q).ok()?).ok()?;
        Some(r)
    });
    if let Some(r) = &r {
        o.law("contract.position_ticks", "allTrue", &[b(r.iter().all(|t| t.fee_growth_outside_x.get() == t.index.unsigned_abs() as u128 && t.seconds_outside == 7))]);
    }
    let r = match r {
        None => vec![i(-1)],
        Some(r) => r.iter().map(|t| i(t.index)).collect(),
    };
    o.call("contract.position_ticks", "positionTicksOf", &[list(&ps), set(&present), i(off)], list(&r));
    let r = guard(|| from_binary::<u32>(&oraiswap_v3::contract::query(deps.as_ref(), mock_env(), QueryMsg::UserPositionAmount { owner: who.clone() }).ok()?).ok());
    o.call("contract.user_position_amount", "same", &[i(np)], oi(r));
}
