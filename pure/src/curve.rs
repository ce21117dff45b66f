use crate::*;

pub struct Curve {
    pub name: &'static str,
    pub delta_x: fn(u128, u128, u128, bool) -> Option<u128>,
    pub delta_y: fn(u128, u128, u128, bool) -> Option<u128>,
    pub next_x: fn(u128, u128, u128, bool) -> Option<u128>,
    pub step: fn(u128, u128, u128, u128, bool, u64) -> Option<[u128; 4]>,
    pub enough: fn(u128, u128, u128, u64, bool, bool) -> Option<bool>,
    pub range: fn(i32, u128, u128, bool, i32, i32) -> Option<(u128, u128, bool)>,
    pub max_liq: fn(u16) -> Option<u128>,
    pub min_out: fn(u128, u64) -> Option<u128>,
    pub check_tick: fn(i32, u16) -> bool,
    pub check_ticks: fn(i32, i32, u16) -> bool,
    pub from_fee: fn(u128, u128) -> Option<u128>,
    pub to_fee: fn(u128, u128) -> Option<u128>,
    pub wadd: fn(u128, u128) -> u128,
    pub wsub: fn(u128, u128) -> u128,
    pub inside: fn(i32, u128, i32, u128, i32, u128, bool) -> Option<u128>,
    pub spl: fn(u128, u64, u64) -> Option<u128>,
    pub spl_inside: fn(i32, i32, i32, u128, u128, u128) -> Option<u128>,
    pub big_price: fn(u128, u128) -> Option<u128>,
    pub big_price_up: fn(u128, u128) -> Option<u128>,
}

macro_rules! amounts {
    ("contract", $e:expr) => {
        $e.ok().map(|(x, y, u)| (x.get(), y.get(), u))
    };
    ("sdk", $e:expr) => {
        $e.ok().map(|r| (r.x.get(), r.y.get(), r.update_liquidity))
    };
}

macro_rules! curve {
    ($name:tt, $c:path, $t:path) => {{
        use decimal::*;
        use $c as c;
        use $t as t;
        use t::fee_growth::{calculate_fee_growth_inside, FeeGrowth};
        use t::liquidity::Liquidity;
        use t::percentage::Percentage;
        use t::seconds_per_liquidity::{calculate_seconds_per_liquidity_inside, SecondsPerLiquidity};
        use t::sqrt_price::SqrtPrice;
        use t::token_amount::TokenAmount;
        Curve {
            name: $name,
            delta_x: |a, b, l, up| c::get_delta_x(SqrtPrice::new(a), SqrtPrice::new(b), Liquidity::new(l), up).ok().map(|v| v.get()),
            delta_y: |a, b, l, up| c::get_delta_y(SqrtPrice::new(a), SqrtPrice::new(b), Liquidity::new(l), up).ok().map(|v| v.get()),
            next_x: |p, l, x, add| c::get_next_sqrt_price_x_up(SqrtPrice::new(p), Liquidity::new(l), TokenAmount::new(x), add).ok().map(|v| v.get()),
            step: |p, t, l, a, by, fee| {
                c::compute_swap_step(SqrtPrice::new(p), SqrtPrice::new(t), Liquidity::new(l), TokenAmount::new(a), by, Percentage::new(fee))
                    .ok()
                    .map(|r| [r.next_sqrt_price.get(), r.amount_in.get(), r.amount_out.get(), r.fee_amount.get()])
            },
            enough: |a, p, l, fee, by, xy| c::is_enough_amount_to_change_price(TokenAmount::new(a), SqrtPrice::new(p), Liquidity::new(l), Percentage::new(fee), by, xy).ok(),
            range: |tick, p, l, add, lo, up| amounts!($name, c::calculate_amount_delta(tick, SqrtPrice::new(p), Liquidity::new(l), add, up, lo)),
            max_liq: |s| Some(c::calculate_max_liquidity_per_tick(s).get()),
            min_out: |a, s| Some(c::calculate_min_amount_out(TokenAmount::new(a), Percentage::new(s)).get()),
            check_tick: |t, s| c::check_tick(t, s).is_ok(),
            check_ticks: |a, b, s| c::check_ticks(a, b, s).is_ok(),
            from_fee: |l, f| FeeGrowth::from_fee(Liquidity::new(l), TokenAmount::new(f)).ok().map(|v| v.get()),
            to_fee: |g, l| FeeGrowth::new(g).to_fee(Liquidity::new(l)).ok().map(|v| v.get()),
            wadd: |a, b| FeeGrowth::new(a).unchecked_add(FeeGrowth::new(b)).get(),
            wsub: |a, b| FeeGrowth::new(a).unchecked_sub(FeeGrowth::new(b)).get(),
            inside: |lo, lx, up, ux, t, g, y| {
                let z = FeeGrowth::new(0x1234567);
                let (lx, ux, g) = (FeeGrowth::new(lx), FeeGrowth::new(ux), FeeGrowth::new(g));
                Some(if y {
                    calculate_fee_growth_inside(lo, z, lx, up, z, ux, t, z, g).1.get()
                } else {
                    calculate_fee_growth_inside(lo, lx, z, up, ux, z, t, g, z).0.get()
                })
            },
            spl: |l, a, b| SecondsPerLiquidity::calculate_seconds_per_liquidity_global(Liquidity::new(l), a, b).ok().map(|v| v.get()),
            spl_inside: |lo, up, t, a, b, g| {
                calculate_seconds_per_liquidity_inside(lo, up, t, SecondsPerLiquidity::new(a), SecondsPerLiquidity::new(b), SecondsPerLiquidity::new(g))
                    .ok()
                    .map(|v| v.get())
            },
            big_price: |a, b| TokenAmount::from_big_sqrt_price(U256::from(a) * U256::from(b)).ok().map(|v| v.get()),
            big_price_up: |a, b| TokenAmount::from_big_sqrt_price_up(U256::from(a) * U256::from(b)).ok().map(|v| v.get()),
        }
    }};
}
pub fn contract() -> Curve {
    curve!("contract", oraiswap_v3::math::clamm, oraiswap_v3::math::types)
}
pub fn sdk() -> Curve {
    curve!("sdk", oraiswap_v3_wasm::clamm, oraiswap_v3_wasm::types)
}

pub fn run(o: &mut Out, g: &mut Gen, n: u64, on_contract: bool, on_sdk: bool) {
    let mut v = vec![];
    if on_contract {
        v.push(contract())
    }
    if on_sdk {
        v.push(sdk())
    }
    for s in 1..=100u16 {
        for c in &v {
            o.call(&format!("{}.calculate_max_liquidity_per_tick", c.name), "maxLiqPerTick", &[i(s)], oi(guard(|| (c.max_liq)(s))));
        }
    }
    for k in 0..n {
        let a = g.price();
        let mut b2 = g.price();
        if g.r.chance(50) {
            // a range of ordinary width
            let w = g.r.mag(26) % (a / 4 + 1);
            b2 = if g.r.chance(50) { a + w } else { a - w };
        }
        if k % 50 == 0 {
            b2 = a
        }
        let mut l = g.liquidity();
        let mut amt = g.amount();
        let up = g.r.chance(50);
        let by = g.r.chance(50);
        let xy = g.r.chance(50);
        let fee = g.fee();
        let c0 = contract();
        match k % 6 {
            0 | 1 => {
                // amounts around what the whole step needs
                if g.r.chance(60) {
                    l = g.r.mag(28)
                }
                let x_to_y = a >= b2;
                let full = guard(|| if by == x_to_y { (c0.delta_x)(a, b2, l, by) } else { (c0.delta_y)(a, b2, l, by) }).unwrap_or(1);
                let full = if by { guard(|| Some((full as f64 / (1.0 - fee as f64 / 1e12).max(1e-9)) as u128)).unwrap_or(full).max(full) } else { full };
                amt = match g.r.below(6) {
                    0 => full,
                    1 => full.saturating_add(1 + g.r.below(3) as u128),
                    2 => full.saturating_sub(1 + g.r.below(3) as u128),
                    3 => g.upto(full.max(1)),
                    4 => full / 2,
                    _ => amt,
                };
                for c in &v {
                    let r = guard(|| (c.step)(a, b2, l, amt, by, fee));
                    let f = format!("{}.compute_swap_step", c.name);
                    let args = [i(a), i(b2), i(l), i(amt), b(by), i(fee)];
                    o.call(&f, "stepOf", &args, opt_list(r.map(|r| r.iter().map(i).collect())));
                    if let Some(r) = r {
                        let mut w = args.to_vec();
                        w.extend(r.iter().map(i));
                        o.law(&f, "stepFair", &w);
                    }
                }
            }
            2 => {
                for c in &v {
                    let f = format!("{}.get_delta_x", c.name);
                    let r = guard(|| (c.delta_x)(a, b2, l, up));
                    o.call(&f, "deltaX", &[i(a), i(b2), i(l), b(up)], oi(r));
                    if let Some(r) = r {
                        o.law(&f, "deltaXFair", &[i(a), i(b2), i(l), b(up), i(r)]);
                    }
                    let f = format!("{}.get_delta_y", c.name);
                    let r = guard(|| (c.delta_y)(a, b2, l, up));
                    o.call(&f, "deltaY", &[i(a), i(b2), i(l), b(up)], oi(r));
                    if let Some(r) = r {
                        o.law(&f, "deltaYFair", &[i(a), i(b2), i(l), b(up), i(r)]);
                    }
                }
            }
            3 => {
                for c in &v {
                    o.call(&format!("{}.get_next_sqrt_price_x_up", c.name), "nextPriceX", &[i(a), i(l), i(amt), b(up)], oi(guard(|| (c.next_x)(a, l, amt, up))));
                    o.call(
                        &format!("{}.is_enough_amount_to_change_price", c.name),
                        "movesPrice",
                        &[i(amt), i(a), i(l), i(fee), b(by), b(xy)],
                        oi(guard(|| (c.enough)(amt, a, l, fee, by, xy)).map(|x| x as i32)),
                    );
                    o.call(&format!("{}.from_big_sqrt_price", c.name), "fromBigPrice", &[i(a), i(l)], oi(guard(|| (c.big_price)(a, l))));
                    o.call(&format!("{}.from_big_sqrt_price_up", c.name), "fromBigPriceUp", &[i(a), i(l)], oi(guard(|| (c.big_price_up)(a, l))));
                }
                if on_sdk {
                    sdk_next(o, a, l, amt, xy, up)
                }
            }
            4 => {
                let (p, q) = (g.tick(), g.tick());
                let (lo, hi) = if g.r.chance(95) { (p.min(q), p.max(q)) } else { (p.max(q), p.min(q)) };
                let tick = match g.r.below(6) {
                    0 => lo,
                    1 => hi,
                    2 => lo - 1,
                    3 => hi - 1,
                    _ => g.tick(),
                }
                .clamp(-MAX_TICK, MAX_TICK);
                let sp = if g.r.chance(70) { Gen::price_of(tick) + if g.r.chance(50) { 12345 } else { 0 } } else { a };
                let s = g.spacing();
                let t1 = if g.r.chance(70) { lo / s as i32 * s as i32 } else { lo };
                let t2 = if g.r.chance(70) { hi / s as i32 * s as i32 } else { hi + g.r.below(3) as i32 };
                for c in &v {
                    o.call(
                        &format!("{}.calculate_amount_delta", c.name),
                        "rangeOf",
                        &[i(tick), i(sp), i(l), b(up), i(lo), i(hi)],
                        opt_list(guard(|| (c.range)(tick, sp, l, up, lo, hi)).map(|(x, y, u)| vec![i(x), i(y), i(u as i32)])),
                    );
                    o.call(&format!("{}.check_tick", c.name), "tickOk", &[i(t2), i(s)], b(guard(|| Some((c.check_tick)(t2, s))).unwrap_or(false)));
                    o.call(&format!("{}.check_ticks", c.name), "ticksOk", &[i(t1), i(t2), i(s)], b(guard(|| Some((c.check_ticks)(t1, t2, s))).unwrap_or(false)));
                }
            }
            _ => {
                let (p, q) = (g.tick(), g.tick());
                let (lo, hi) = (p.min(q), p.max(q));
                let t = match g.r.below(5) {
                    0 => lo,
                    1 => hi,
                    _ => g.tick(),
                };
                let (x1, x2, x3) = (g.u(), g.u(), g.u());
                let slip = g.fee();
                let (s1, s2) = (g.u() as u64, g.u() as u64);
                for c in &v {
                    let y = g.r.chance(50);
                    o.call(&format!("{}.calculate_fee_growth_inside", c.name), "growthInside", &[i(lo), i(x1), i(hi), i(x2), i(t), i(x3)], oi(guard(|| (c.inside)(lo, x1, hi, x2, t, x3, y))));
                    o.call(&format!("{}.from_fee", c.name), "growthOfFee", &[i(l), i(amt)], oi(guard(|| (c.from_fee)(l, amt))));
                    o.call(&format!("{}.to_fee", c.name), "feeOfGrowth", &[i(x1), i(l)], oi(guard(|| (c.to_fee)(x1, l))));
                    o.call(&format!("{}.unchecked_add", c.name), "wadd", &[i(x1), i(x2)], i((c.wadd)(x1, x2)));
                    o.call(&format!("{}.unchecked_sub", c.name), "wsub", &[i(x1), i(x2)], i((c.wsub)(x1, x2)));
                    o.call(&format!("{}.calculate_min_amount_out", c.name), "minAmountOut", &[i(amt), i(slip)], oi(guard(|| (c.min_out)(amt, slip))));
                    o.call(&format!("{}.calculate_seconds_per_liquidity_global", c.name), "secondsPerLiquidity", &[i(l), i(s1), i(s2)], oi(guard(|| (c.spl)(l, s1, s2))));
                    o.call(&format!("{}.calculate_seconds_per_liquidity_inside", c.name), "growthInside", &[i(lo), i(x1), i(hi), i(x2), i(t), i(x3)], oi(guard(|| (c.spl_inside)(lo, hi, t, x1, x2, x3))));
                }
                if on_sdk {
                    sdk_fee(o, g, lo, hi, t, x1, x2, x3, l)
                }
            }
        }
    }
}

fn sdk_next(o: &mut Out, p: u128, l: u128, a: u128, xy: bool, add: bool) {
    use decimal::Decimal;
    use oraiswap_v3_wasm::clamm::*;
    use oraiswap_v3_wasm::types::{liquidity::Liquidity, sqrt_price::SqrtPrice, token_amount::TokenAmount};
    let (sp, li, am) = (SqrtPrice::new(p), Liquidity::new(l), TokenAmount::new(a));
    o.call("sdk.get_next_sqrt_price_from_input", "nextPriceIn", &[i(p), i(l), i(a), b(xy)], oi(guard(|| get_next_sqrt_price_from_input(sp, li, am, xy).ok().map(|v| v.get()))));
    o.call("sdk.get_next_sqrt_price_from_output", "nextPriceOut", &[i(p), i(l), i(a), b(xy)], oi(guard(|| get_next_sqrt_price_from_output(sp, li, am, xy).ok().map(|v| v.get()))));
    o.call("sdk.get_next_sqrt_price_y_down", "nextPriceY", &[i(p), i(l), i(a), b(add)], oi(guard(|| get_next_sqrt_price_y_down(sp, li, am, add).ok().map(|v| v.get()))));
}

#[allow(clippy::too_many_arguments)]
fn sdk_fee(o: &mut Out, g: &mut Gen, lo: i32, hi: i32, t: i32, x1: u128, x2: u128, x3: u128, l: u128) {
    use decimal::Decimal;
    use oraiswap_v3_wasm::types::{fee_growth::FeeGrowth, liquidity::Liquidity};
    let f = FeeGrowth::new;
    let (y1, y2, y3) = (g.u(), g.u(), g.u());
    // what the position has been paid for already: some of what lies inside, or anything
    let (px, py) = (g.u(), g.u());
    let r = guard(|| {
        oraiswap_v3_wasm::calculate_fee(lo, f(x1), f(y1), hi, f(x2), f(y2), t, f(x3), f(y3), f(px), f(py), Liquidity::new(l)).ok().map(|a| vec![i(a.x.get()), i(a.y.get())])
    });
    o.call("sdk.calculate_fee", "unclaimed", &[i(lo), i(x1), i(y1), i(hi), i(x2), i(y2), i(t), i(x3), i(y3), i(px), i(py), i(l)], opt_list(r));
}
