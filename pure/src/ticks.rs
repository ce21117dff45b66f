use crate::*;
use decimal::Decimal;

pub struct Ticks {
    name: &'static str,
    price: fn(i32) -> Option<u128>,
    tick_at: fn(u128, u16) -> Option<i32>,
    fits: fn(i32, u16, u128) -> Option<bool>,
    max: fn(u16) -> i32,
    min: fn(u16) -> i32,
    max_p: fn(u16) -> u128,
    min_p: fn(u16) -> u128,
    chunks: fn(u16) -> u16,
}
macro_rules! ticks {
    ($name:literal, $t:path, $log:path, $rel:path, $chunk:path) => {{
        use $t as t;
        use t::*;
        Ticks {
            name: $name,
            price: |i| calculate_sqrt_price(i).ok().map(|p| p.get()),
            tick_at: |p, s| {
                use $log as f;
                f(SqrtPrice::new(p), s).ok()
            },
            fits: |t, s, p| {
                use $rel as f;
                f(t, s, SqrtPrice::new(p)).ok()
            },
            max: get_max_tick,
            min: get_min_tick,
            max_p: |s| get_max_sqrt_price(s).get(),
            min_p: |s| get_min_sqrt_price(s).get(),
            chunks: |s| {
                use $chunk as f;
                f(s)
            },
        }
    }};
}
pub fn contract() -> Ticks {
    ticks!("contract", oraiswap_v3::math::types::sqrt_price, oraiswap_v3::math::log::get_tick_at_sqrt_price, oraiswap_v3::sqrt_price::check_tick_to_sqrt_price_relationship, oraiswap_v3::get_max_chunk)
}
pub fn sdk() -> Ticks {
    ticks!("sdk", oraiswap_v3_wasm::types::sqrt_price, oraiswap_v3_wasm::get_tick_at_sqrt_price, oraiswap_v3_wasm::check_tick_to_sqrt_price_relationship, oraiswap_v3_wasm::get_max_chunk)
}

fn consts(o: &mut Out, c: &Ticks) {
    for s in 1..=100u16 {
        o.call(&format!("{}.get_max_tick", c.name), "maxTick", &[i(s)], i((c.max)(s)));
        o.call(&format!("{}.get_min_tick", c.name), "minTick", &[i(s)], i((c.min)(s)));
        o.call(&format!("{}.get_max_sqrt_price", c.name), "maxPrice", &[i(s)], oi(guard(|| Some((c.max_p)(s)))));
        o.call(&format!("{}.get_min_sqrt_price", c.name), "minPrice", &[i(s)], oi(guard(|| Some((c.min_p)(s)))));
        o.call(&format!("{}.get_max_chunk", c.name), "maxChunk", &[i(s)], i((c.chunks)(s)));
    }
    for t in [-MAX_TICK - 1, MAX_TICK + 1, i32::MAX, -i32::MAX, 300000] {
        o.call(&format!("{}.calculate_sqrt_price", c.name), "priceOfTick", &[i(t)], oi(guard(|| (c.price)(t))));
    }
    for p in [0u128, 1, 15258931999999999999, 15258932000000000000, 15258932000000000001, 65535383934512646999999999999, 65535383934512647000000000000, 65535383934512647000000000001, u128::MAX] {
        for s in [1u16, 2, 10, 100] {
            o.law(&format!("{}.get_tick_at_sqrt_price", c.name), "tickOfPrice", &[i(p), i(s), oi(guard(|| (c.tick_at)(p, s)).map(|t| t as i64)), b(guard(|| (c.tick_at)(p, s)).is_none())]);
        }
    }
}

fn one(o: &mut Out, g: &mut Gen, c: &Ticks, t: i32, dense: bool) {
    let p = guard(|| (c.price)(t));
    o.call(&format!("{}.calculate_sqrt_price", c.name), "priceOfTick", &[i(t)], oi(p));
    let p = match p {
        Some(p) => p,
        None => return,
    };
    if t < MAX_TICK {
        let q = guard(|| (c.price)(t + 1)).unwrap_or(0);
        o.law(&format!("{}.calculate_sqrt_price", c.name), "priceSteps", &[i(t), i(p), i(q)]);
        let mid = p + g.r.u128() % (q.saturating_sub(p).max(1));
        let s = g.spacing();
        let mut l = vec![(p, 1u16), (p.saturating_sub(1), 1), (mid, 1), (p, s), (p.saturating_sub(1), s), (q - 1, s)];
        if !dense {
            l.push((mid, s));
            l.push((p + 1, s));
        }
        for (p, s) in l {
            let r = guard(|| (c.tick_at)(p, s));
            o.law(&format!("{}.get_tick_at_sqrt_price", c.name), "tickOfPrice", &[i(p), i(s), oi(r), b(r.is_none())]);
        }
        if !dense {
            let a = t.div_euclid(s as i32) * s as i32;
            for a in [a, a + s as i32, a - s as i32] {
                if a.abs() > MAX_TICK {
                    continue;
                }
                let pa = guard(|| (c.price)(a)).unwrap_or(p);
                for x in [p, pa, pa - 1] {
                    let r = guard(|| (c.fits)(a, s, x));
                    o.call(&format!("{}.check_tick_to_sqrt_price_relationship", c.name), "fitsOf", &[i(a), i(s), i(x)], oi(r.map(|b| b as i32)));
                }
            }
        }
    }
}

/// n >= 443637: every tick; otherwise a sample
pub fn run(o: &mut Out, g: &mut Gen, shard: u64, shards: u64, n: u64) {
    let c = contract();
    if shard == 0 {
        consts(o, &c);
        for k in 0..18 {
            for d in -1..=1 {
                for sg in [1, -1] {
                    one(o, g, &c, (((1 << k) + d) * sg).clamp(-MAX_TICK, MAX_TICK), false)
                }
            }
        }
    }
    if n >= 443637 {
        let mut t = -MAX_TICK + shard as i32;
        while t <= MAX_TICK {
            one(o, g, &c, t, true);
            t += shards as i32;
        }
    } else {
        // a stride through the whole range, with a random phase, and points of interest
        let m = (n / shards).max(1) as i64;
        for k in 0..m {
            let w = (2 * MAX_TICK as i64) / m;
            let t = -(MAX_TICK as i64) + k * w + g.r.below(w.max(1) as u64) as i64;
            one(o, g, &c, t as i32, false);
            if k % 4 == 0 {
                let t = g.tick();
                one(o, g, &c, t, false)
            }
        }
    }
}

pub fn run_sdk(o: &mut Out, g: &mut Gen, n: u64) {
    let c = sdk();
    consts(o, &c);
    for _ in 0..n / 8 {
        let t = g.tick();
        one(o, g, &c, t, false);
        let (t, s) = (g.tick(), g.spacing());
        o.call("sdk.align_tick_to_spacing", "alignDown", &[i(t), i(s)], i(oraiswap_v3_wasm::align_tick_to_spacing(t, s as i32)));
    }
}
