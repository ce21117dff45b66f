use crate::*;
use decimal::Decimal;

pub fn run(o: &mut Out, g: &mut Gen, n: u64, both: bool) {
    for _ in 0..n {
        let (p, q) = (g.tick(), g.tick());
        if p == q {
            continue;
        }
        let (lo, hi) = (p.min(q), p.max(q));
        let (pl, ph) = (Gen::price_of(lo), Gen::price_of(hi));
        let cur = match g.r.below(10) {
            0 => pl,
            1 => ph,
            2 => pl - 1,
            3 => ph + 1,
            4 => g.price(),
            _ => pl + g.r.u128() % (ph - pl),
        };
        let (x, y) = (g.amount(), g.amount());
        let up = g.r.chance(50);
        if both {
            use oraiswap_v3::logic::math::*;
            use oraiswap_v3::sqrt_price::SqrtPrice;
            use oraiswap_v3::token_amount::TokenAmount;
            let rx = guard(|| get_liquidity_by_x(TokenAmount::new(x), lo, hi, SqrtPrice::new(cur), up).ok().map(|r| (r.l.get(), r.amount.get())));
            let ry = guard(|| get_liquidity_by_y(TokenAmount::new(y), lo, hi, SqrtPrice::new(cur), up).ok().map(|r| (r.l.get(), r.amount.get())));
            single(o, "contract", lo, hi, cur, x, y, up, rx, ry);
            let r = guard(|| get_liquidity(TokenAmount::new(x), TokenAmount::new(y), lo, hi, SqrtPrice::new(cur), up).ok().map(|r| (r.l.get(), r.x.get(), r.y.get())));
            let a = [i(x), i(y), i(lo), i(hi), i(cur), b(up)];
            o.call("contract.get_liquidity", "liqOf", &a, opt_list(r.map(|(l, x, y)| vec![i(l), i(x), i(y)])));
            if let Some((l, rx, ry)) = r {
                o.law("contract.get_liquidity", "liqAffordable", &[i(x), i(y), i(lo), i(hi), i(cur), b(up), i(l), i(rx), i(ry)]);
            }
        }
        {
            use oraiswap_v3_wasm::sqrt_price::SqrtPrice;
            use oraiswap_v3_wasm::token_amount::TokenAmount;
            use oraiswap_v3_wasm::*;
            let rx = guard(|| get_liquidity_by_x(TokenAmount::new(x), lo, hi, SqrtPrice::new(cur), up).ok().map(|r| (r.l.get(), r.amount.get())));
            let ry = guard(|| get_liquidity_by_y(TokenAmount::new(y), lo, hi, SqrtPrice::new(cur), up).ok().map(|r| (r.l.get(), r.amount.get())));
            single(o, "sdk", lo, hi, cur, x, y, up, rx, ry);
        }
    }
}

#[allow(clippy::too_many_arguments)]
fn single(o: &mut Out, name: &str, lo: i32, hi: i32, cur: u128, x: u128, y: u128, up: bool, rx: Option<(u128, u128)>, ry: Option<(u128, u128)>) {
    let f = format!("{name}.get_liquidity_by_x");
    o.call(&f, "liqByX", &[i(x), i(lo), i(hi), i(cur), b(up)], opt_list(rx.map(|(l, a)| vec![i(l), i(a)])));
    if let Some((l, a)) = rx {
        o.law(&f, "byXFair", &[i(x), i(lo), i(hi), i(cur), b(up), i(l), i(a)]);
    }
    let f = format!("{name}.get_liquidity_by_y");
    o.call(&f, "liqByY", &[i(y), i(lo), i(hi), i(cur), b(up)], opt_list(ry.map(|(l, a)| vec![i(l), i(a)])));
    if let Some((l, a)) = ry {
        o.law(&f, "byYFair", &[i(y), i(lo), i(hi), i(cur), b(up), i(l), i(a)]);
    }
}
