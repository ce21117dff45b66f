//! The remaining building blocks: keys and fee tiers of contract and SDK, constants of the SDK, and
//! the SDK's pool and tick.
use crate::*;
use decimal::Decimal;
use oraiswap_v3_wasm as w;

fn bytes(s: &str) -> String {
    list(&s.bytes().map(i).collect::<Vec<_>>())
}
fn denom(g: &mut Gen) -> String {
    let n = match g.r.below(10) {
        0 => 0,
        1 => 1,
        2 => 2 + g.r.below(3),
        3 => 250 + g.r.below(20),
        _ => 3 + g.r.below(20),
    };
    (0..n).map(|_| *g.r.pick(&['a', 'b', 'A', 'B', 'z', 'Z', '0', '9', '/', '-', 'f', 'é'])).collect()
}

pub fn run(o: &mut Out, g: &mut Gen, n: u64) {
    for (f, v) in [
        ("get_tick_search_range", w::get_tick_search_range() as i64),
        ("get_chunk_size", w::get_chunk_size() as i64),
        ("get_max_tick_cross", w::get_max_tick_cross() as i64),
        ("get_max_tickmap_query_size", w::get_max_tickmap_query_size() as i64),
        ("get_liquidity_ticks_limit", w::get_liquidity_ticks_limit() as i64),
        ("get_max_pool_keys_returned", w::get_max_pool_keys_returned() as i64),
        ("get_max_pool_pairs_returned", w::get_max_pool_pairs_returned() as i64),
        ("MAX_TICK", w::MAX_TICK as i64),
        ("MIN_TICK", w::MIN_TICK as i64),
    ] {
        o.call(&format!("sdk.{f}"), "constant", &[format!("\"{f}\"")], i(v));
    }
    o.call("sdk.MAX_SQRT_PRICE", "constant", &["\"MAX_SQRT_PRICE\"".into()], i(w::MAX_SQRT_PRICE));
    o.call("sdk.MIN_SQRT_PRICE", "constant", &["\"MIN_SQRT_PRICE\"".into()], i(w::MIN_SQRT_PRICE));
    for _ in 0..n {
        keys(o, g, false);
        pool(o, g, false);
    }
}

pub fn run_keys(o: &mut Out, g: &mut Gen, n: u64) {
    for _ in 0..n {
        keys(o, g, true);
        pool(o, g, true);
    }
}

fn keys(o: &mut Out, g: &mut Gen, on_contract: bool) {
    let a = denom(g);
    let mut c = denom(g);
    match g.r.below(8) {
        0 => c = a.clone(),
        1 => c = format!("{a}a"),
        2 => c = a.to_uppercase(),
        3 => c = a.chars().rev().collect(),
        _ => {}
    }
    let fee = match g.r.below(3) {
        0 => g.fee(),
        1 => 1_000_000_000_000u64.wrapping_add(g.r.below(3)).wrapping_sub(1),
        _ => g.u() as u64,
    };
    let s = match g.r.below(3) {
        0 => g.spacing(),
        1 => *g.r.pick(&[0u16, 1, 99, 100, 101, 255, 256, 257, 65535]),
        _ => g.u() as u16,
    };
    let args = [i(fee), i(s)];
    let pair = |x: &str, y: &str| list(&[bytes(x), bytes(y)]);
    if on_contract {
        return contract_keys(o, g, a, c, fee, s, &args);
    }
    let r = guard(|| w::new_fee_tier(w::percentage::Percentage::new(fee), s).ok().map(|t| vec![i(t.fee.get()), i(t.tick_spacing)]));
    o.call("sdk.new_fee_tier", "feeTier", &args, opt_list(r));
    o.call("sdk.is_token_x", "bytesBefore", &[bytes(&a), bytes(&c)], b(guard(|| w::is_token_x(a.clone(), c.clone()).ok()).unwrap_or(false)));
    let t = w::FeeTier { fee: w::percentage::Percentage::new(fee), tick_spacing: s };
    let r = guard(|| w::new_pool_key(a.clone(), c.clone(), t).ok());
    o.call("sdk.new_pool_key", "orderedPair", &[bytes(&a), bytes(&c)], r.as_ref().map(|k| pair(&k.token_x, &k.token_y)).unwrap_or(list(&[])));
    if let Some(k) = &r {
        o.law("sdk.new_pool_key", "allTrue", &[b(k.fee_tier == t)]);
    }
}

fn contract_keys(o: &mut Out, g: &mut Gen, a: String, c: String, fee: u64, s: u16, args: &[String]) {
    let pair = |x: &str, y: &str| list(&[bytes(x), bytes(y)]);
    let r = guard(|| oraiswap_v3::FeeTier::new(oraiswap_v3::percentage::Percentage::new(fee), s).ok().map(|t| vec![i(t.fee.get()), i(t.tick_spacing)]));
    o.call("contract.FeeTier.new", "feeTier", args, opt_list(r));
    let t = oraiswap_v3::FeeTier { fee: oraiswap_v3::percentage::Percentage::new(fee), tick_spacing: s };
    let r = guard(|| oraiswap_v3::PoolKey::new(a.clone(), c.clone(), t).ok());
    o.call("contract.PoolKey.new", "orderedPair", &[bytes(&a), bytes(&c)], r.as_ref().map(|k| pair(&k.token_x, &k.token_y)).unwrap_or(list(&[])));
    if let Some(k) = &r {
        o.law("contract.PoolKey.new", "allTrue", &[b(k.fee_tier == t)]);
        // the stored key gives the pool key back, and none but its own
        let raw = k.key();
        let back = guard(|| oraiswap_v3::PoolKey::from_bytes(&raw).ok());
        o.law("contract.PoolKey.from_bytes", "allTrue", &[b(back.as_ref() == Some(k))]);
        let t2 = oraiswap_v3::FeeTier { fee: oraiswap_v3::percentage::Percentage::new(fee ^ (1u64 << g.r.below(64))), ..t };
        let t3 = oraiswap_v3::FeeTier { tick_spacing: s ^ (1u16 << g.r.below(16)), ..t };
        for t in [t2, t3] {
            o.law("contract.PoolKey.key", "allTrue", &[b(oraiswap_v3::PoolKey { fee_tier: t, ..k.clone() }.key() != raw)]);
        }
        let moved = oraiswap_v3::PoolKey { token_x: format!("{}{}", k.token_x, k.token_y.chars().next().unwrap_or('a')), token_y: k.token_y.chars().skip(1).collect(), ..k.clone() };
        o.law("contract.PoolKey.key", "allTrue", &[b(moved.key() != raw)]);
    }
}

/// the SDK's own pool and tick
fn pool(o: &mut Out, g: &mut Gen, on_contract: bool) {
    use w::fee_growth::FeeGrowth;
    use w::liquidity::Liquidity;
    use w::sqrt_price::SqrtPrice;
    let (p, q) = (g.tick(), g.tick());
    let (lo, hi) = (p.min(q), p.max(q));
    let tick = match g.r.below(6) {
        0 => lo,
        1 => hi,
        2 => lo - 1,
        3 => hi - 1,
        _ => g.tick(),
    }
    .clamp(-MAX_TICK, MAX_TICK);
    let (liq, l) = (g.liquidity(), g.liquidity());
    let l = if g.r.chance(20) { liq } else { l };
    let (gx, gy) = (g.u(), g.u());
    let (start, now) = (g.u() as u64, g.u() as u64);
    let (ox, oy, so, sg) = (g.u(), g.u(), g.u() as u64, g.r.chance(50));
    let at = *g.r.pick(&[lo, hi, tick, tick + 1]);
    let args = [i(tick), i(liq), i(gx), i(gy), i(start), i(at), b(sg), i(l), i(ox), i(oy), i(so), i(now)];
    if on_contract {
        use oraiswap_v3 as c;
        let mut t = c::Tick { index: at, sign: sg, liquidity_change: c::liquidity::Liquidity::new(l), fee_growth_outside_x: c::fee_growth::FeeGrowth::new(ox), fee_growth_outside_y: c::fee_growth::FeeGrowth::new(oy), seconds_outside: so, ..Default::default() };
        let mut pl = c::Pool { liquidity: c::liquidity::Liquidity::new(liq), current_tick_index: tick, fee_growth_global_x: c::fee_growth::FeeGrowth::new(gx), fee_growth_global_y: c::fee_growth::FeeGrowth::new(gy), start_timestamp: start, ..Default::default() };
        let r = guard(|| t.cross(&mut pl, now).ok());
        let r = r.map(|_| vec![i(pl.liquidity.get()), i(t.fee_growth_outside_x.get()), i(t.fee_growth_outside_y.get()), i(t.seconds_outside), i(pl.last_timestamp)]);
        o.call("contract.Tick.cross", "crossedTick", &args, opt_list(r));
        return;
    }
    let mk = || w::Pool {
        liquidity: Liquidity::new(liq),
        sqrt_price: SqrtPrice::new(Gen::price_of(tick)),
        current_tick_index: tick,
        fee_growth_global_x: FeeGrowth::new(gx),
        fee_growth_global_y: FeeGrowth::new(gy),
        start_timestamp: start,
        ..Default::default()
    };
    let add = g.r.chance(50);
    let mut pl = mk();
    let r = guard(|| pl.update_liquidity(Liquidity::new(l), add, hi, lo).ok().map(|(x, y)| (x.get(), y.get())));
    let r = r.map(|(x, y)| vec![i(x), i(y), i(pl.liquidity.get())]);
    o.call("sdk.Pool.update_liquidity", "poolWith", &[i(tick), i(Gen::price_of(tick)), i(liq), i(l), b(add), i(lo), i(hi)], opt_list(r));
    let mut t = w::Tick { index: at, sign: sg, liquidity_change: Liquidity::new(l), fee_growth_outside_x: FeeGrowth::new(ox), fee_growth_outside_y: FeeGrowth::new(oy), seconds_outside: so, ..Default::default() };
    let mut pl = mk();
    let r = guard(|| t.cross(&mut pl, now).ok());
    let r = r.map(|_| vec![i(pl.liquidity.get()), i(t.fee_growth_outside_x.get()), i(t.fee_growth_outside_y.get()), i(t.seconds_outside), i(pl.last_timestamp)]);
    o.call("sdk.Tick.cross", "crossedTick", &args, opt_list(r));
    let mut t = w::LiquidityTick { index: at, liquidity_change: Liquidity::new(l), sign: sg };
    let mut pl = mk();
    let r = guard(|| t.cross(&mut pl, now).ok());
    o.call("sdk.LiquidityTick.cross", "crossedLiquidity", &[i(tick), i(liq), i(at), b(sg), i(l)], oi(r.map(|_| pl.liquidity.get())));
}
