//! simulate_swap of the SDK on pools with given positions.
use crate::*;
use decimal::Decimal;
use oraiswap_v3_wasm as w;
use w::liquidity::Liquidity;
use w::percentage::Percentage;
use w::sqrt_price::SqrtPrice;
use w::token_amount::TokenAmount;

pub fn run(o: &mut Out, g: &mut Gen, n: u64) {
    for _ in 0..n {
        one(o, g)
    }
}

fn one(o: &mut Out, g: &mut Gen) {
    let s = g.spacing() as i32;
    let m = MAX_TICK / s;
    // price and tick of the pool
    let centre = match g.r.below(6) {
        0 => g.tick() / s,
        1 => m - g.r.below(30) as i32,
        2 => -m + g.r.below(30) as i32,
        _ => g.r.range(-200, 200) as i32,
    }
    .clamp(-m, m - 1);
    let tick = centre * s;
    let (p0, p1) = (Gen::price_of(tick), Gen::price_of(tick + s));
    let price = match g.r.below(4) {
        0 => p0,
        1 => p1 - 1,
        _ => p0 + g.r.u128() % (p1 - p0),
    };
    // positions around it
    let mut net: std::collections::BTreeMap<i32, i128> = Default::default();
    let mut liq: u128 = 0;
    let scale = g.r.mag(26);
    // sometimes a ladder of many adjacent ranges: more ticks than one swap may cross
    let ladder = g.r.below(25) == 0;
    if ladder {
        let k = 165 + g.r.below(20) as i32;
        let up = g.r.chance(50);
        for j in 0..k {
            let a = if up { centre + j } else { centre - j };
            if a <= -m || a >= m {
                break;
            }
            let l = (1_000_000 + g.r.u128() % scale.max(1)) as i128;
            *net.entry(a * s).or_default() += l;
            *net.entry((a + 1) * s).or_default() -= l;
            if j == 0 {
                liq += l as u128
            }
        }
    }
    for _ in 0..*g.r.pick(&[1u64, 1, 2, 3, 5, 8, 20]) {
        let wd = *g.r.pick(&[3i64, 10, 60, 300, 1500]);
        let a = (centre + g.r.range(-wd, wd) as i32).clamp(-m, m);
        let c = (centre + g.r.range(-wd, wd) as i32).clamp(-m, m);
        if a == c {
            continue;
        }
        let (lo, hi) = (a.min(c) * s, a.max(c) * s);
        let l = (1 + g.r.u128() % scale) as i128;
        *net.entry(lo).or_default() += l;
        *net.entry(hi).or_default() -= l;
        if lo <= tick && tick < hi {
            liq += l as u128
        }
    }
    let fee = *g.r.pick(&[0u64, 100_000_000, 500_000_000, 3_000_000_000, 10_000_000_000, 500_000_000_000]);
    let xy = g.r.chance(50);
    let by = g.r.chance(50);
    let amt = match g.r.below(5) {
        k if ladder && k > 0 => {
            let l = scale.max(1_000_000) / 1_000_000;
            (l as f64 * (p1 as f64 / 1e24) * 10f64.powf(g.r.below(40) as f64 / 10.0 - 2.0)) as u128 + 1
        }
        0 => 1 + g.r.below(5) as u128,
        1 => g.amount().max(1),
        _ => {
            // of the order of what the ranges near by hold
            let l = liq.max(scale) / 1_000_000;
            (l as f64 * (p1 as f64 / 1e24) * 10f64.powf(g.r.below(50) as f64 / 10.0 - 4.5)) as u128 + 1
        }
    };
    let limit = match g.r.below(6) {
        0 => g.price(),
        1 if !net.is_empty() => {
            let ks: Vec<i32> = net.keys().copied().collect();
            (Gen::price_of(*g.r.pick(&ks)) as i128 + g.r.range(-1, 1) as i128) as u128
        }
        _ => {
            if xy {
                15258932000000000000
            } else {
                65535383934512647000000000000
            }
        }
    };
    let mut map = w::Tickmap::default();
    let mut ticks = vec![];
    let mut spec = vec![];
    for (t, l) in &net {
        let _ = guard(|| Some(map.flip(true, *t, s as u16)));
        ticks.push(w::LiquidityTick { index: *t, liquidity_change: Liquidity::new(l.unsigned_abs()), sign: *l >= 0 });
        spec.push(format!("[{},{{\"#tup\":[{},{}]}}]", i(t), i(l.unsigned_abs()), b(*l >= 0)));
    }
    let pool = w::Pool { liquidity: Liquidity::new(liq), sqrt_price: SqrtPrice::new(price), current_tick_index: tick, ..Default::default() };
    w::verif_hooks::TICKS.with(|t| *t.borrow_mut() = ticks);
    let tier = w::FeeTier { fee: Percentage::new(fee), tick_spacing: s as u16 };
    let r = guard(|| w::simulate_swap(map, tier, pool, wasm_bindgen::JsValue::NULL, xy, TokenAmount::new(amt), by, SqrtPrice::new(limit)).ok());
    // [] : cannot be carried out (an error or one of the three flags)
    let res = match r {
        Some(r) if !r.global_insufficient_liquidity && !r.state_outdated && !r.max_ticks_crossed && r.amount_out.get() != 0 => vec![i(r.amount_in.get()), i(r.amount_out.get()), i(r.fee.get()), i(r.start_sqrt_price.get()), i(r.target_sqrt_price.get())],
        _ => vec![],
    };
    o.call(
        "sdk.simulate_swap",
        "simulated",
        &[format!("{{\"#map\":[{}]}}", spec.join(",")), i(liq), i(price), i(tick), i(fee), i(s), b(xy), i(amt), b(by), i(limit)],
        list(&res),
    );
}
