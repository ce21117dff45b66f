use crate::*;
use cosmwasm_std::testing::MockStorage;
use decimal::Decimal;
use oraiswap_v3::percentage::Percentage;
use oraiswap_v3::sqrt_price::SqrtPrice;
use oraiswap_v3::state;
use oraiswap_v3::{FeeTier, PoolKey};

/// initialised ticks around a tick: none, sparse, dense, on the ends of the window and of chunks
pub fn scene(g: &mut Gen) -> (u16, i32, Vec<i32>) {
    let s = g.spacing();
    let m = MAX_TICK / s as i32;
    let t = (g.tick() / s as i32).clamp(-m, m);
    let mut v: Vec<i32> = vec![];
    let k = *g.r.pick(&[0u64, 1, 1, 2, 3, 5, 12, 40]);
    for _ in 0..k {
        let d = match g.r.below(9) {
            0 => 0,
            1 => 1,
            2 => -1,
            3 => *g.r.pick(&[256, 257, 255, -256, -257, -255]),
            4 => {
                // the first or last bit of a chunk near by
                let idx = t + m;
                let c = (idx / 64 + g.r.range(-4, 4) as i32) * 64;
                c + *g.r.pick(&[0, 63]) - m - t
            }
            5 => *g.r.pick(&[-m - t, m - t]),
            6 => g.r.range(-600, 600) as i32,
            _ => g.r.range(-70, 70) as i32,
        };
        let x = t + d;
        if x >= -m && x <= m {
            v.push(x * s as i32)
        }
    }
    v.sort();
    v.dedup();
    (s, t * s as i32, v)
}
fn key(s: u16) -> PoolKey {
    PoolKey::new("a".into(), "b".into(), FeeTier { fee: Percentage::new(100), tick_spacing: s }).unwrap()
}
fn limit(g: &mut Gen, t: i32, v: &[i32], s: u16) -> u128 {
    match g.r.below(5) {
        0 => 15258932000000000000,
        1 => 65535383934512647000000000000,
        2 if !v.is_empty() => {
            let x = *g.r.pick(v);
            (Gen::price_of(x) as i128 + g.r.range(-1, 1) as i128) as u128
        }
        3 => Gen::price_of((t + s as i32 * *g.r.pick(&[256, -256, 1, -1])).clamp(-MAX_TICK, MAX_TICK)),
        _ => g.price(),
    }
}
fn closer(r: Option<(u128, Option<(i32, bool)>)>) -> String {
    match r {
        None => list(&[]),
        Some((p, None)) => list(&[i(p), i(0), i(0)]),
        Some((p, Some((t, true)))) => list(&[i(p), i(t), i(1)]),
        Some((p, Some((t, false)))) => list(&[i(p), i(t), i(2)]),
    }
}

pub fn run(o: &mut Out, g: &mut Gen, n: u64) {
    for k in 0..n {
        let (s, t, v) = scene(g);
        let mut st = MockStorage::new();
        let pk = key(s);
        // neighbouring pools whose bitmaps must not be seen: each differs in one part of the key only
        let like = |x: &str, y: &str, f: u64, s: u16| {
            PoolKey::new(x.into(), y.into(), FeeTier { fee: Percentage::new(f), tick_spacing: s }).unwrap()
        };
        let others = [
            like("a", "b", 100, if s == 1 { 2 } else { 1 }),
            like("a", "b", *g.r.pick(&[101, 356, 100 + (1 << 32), 100 + (1 << 16)]), s),
            like("a", "c", 100, s),
            like("A", "b", 100, s),
            like("aa", "b", 100, s),
        ];
        for x in &v {
            let _ = guard(|| state::flip_bitmap(&mut st, true, *x, s, &pk).ok());
        }
        for other in others {
            let os = other.fee_tier.tick_spacing;
            for _ in 0..3 {
                let d = *g.r.pick(&[-70, -3, -2, -1, 0, 1, 2, 3, 70]);
                let x = (t / os as i32 + d) * os as i32;
                if x.abs() <= MAX_TICK {
                    let _ = guard(|| state::flip_bitmap(&mut st, true, x, os, &other).ok());
                }
            }
        }
        let r = guard(|| Some(state::next_initialized(&st, t, s, &pk)));
        o.call("contract.next_initialized", "nextOf", &[set(&v), i(t), i(s)], opt_list(r.map(|x| x.iter().map(i).collect())));
        let r = guard(|| Some(state::prev_initialized(&st, t, s, &pk)));
        o.call("contract.prev_initialized", "prevOf", &[set(&v), i(t), i(s)], opt_list(r.map(|x| x.iter().map(i).collect())));
        let lim = limit(g, t, &v, s);
        let xy = g.r.chance(50);
        let r = guard(|| state::get_closer_limit(&st, SqrtPrice::new(lim), xy, t, s, &pk).ok().map(|(p, x)| (p.get(), x)));
        o.call("contract.get_closer_limit", "closerOf", &[set(&v), i(lim), b(xy), i(t), i(s)], closer(r));
        o.call("contract.get_search_limit", "searchLimit", &[i(t), i(s), b(xy)], oi(guard(|| Some(oraiswap_v3::get_search_limit(t, s, xy)))));
        let pos = guard(|| Some(oraiswap_v3::tick_to_position(t, s)));
        o.call("contract.tick_to_position", "placeOf", &[i(t), i(s)], opt_list(pos.map(|(c, b)| vec![i(c), i(b)])));
        if let Some((c, bt)) = pos {
            o.call("contract.position_to_tick", "tickOfBit", &[i(c), i(bt), i(s)], i(oraiswap_v3::position_to_tick(c, bt, s)));
        }
        o.call("contract.get_bitmap", "hasBit", &[set(&v), i(t)], b(guard(|| Some(state::get_bitmap(&st, t, s, &pk))).unwrap_or(false)));
        if k % 4 == 0 {
            // flipping twice restores, flipping to what it is fails
            let was = v.contains(&t);
            let again = guard(|| state::flip_bitmap(&mut st, was, t, s, &pk).ok()).is_some();
            o.law("contract.flip_bitmap", "notTwice", &[b(again)]);
            let ok = guard(|| state::flip_bitmap(&mut st, !was, t, s, &pk).ok()).is_some();
            let now = guard(|| Some(state::get_bitmap(&st, t, s, &pk)));
            o.law("contract.flip_bitmap", "flipped", &[b(ok), b(was), b(now == Some(true))]);
        }
    }
}

pub fn run_sdk(o: &mut Out, g: &mut Gen, n: u64) {
    use oraiswap_v3_wasm as w;
    for _ in 0..n / 4 {
        let (s, t, v) = scene(g);
        let mut m = w::Tickmap::default();
        for x in &v {
            let _ = guard(|| Some(m.flip(true, *x, s)));
        }
        let r = guard(|| Some(m.next_initialized(t, s)));
        o.call("sdk.next_initialized", "nextOf", &[set(&v), i(t), i(s)], opt_list(r.map(|x| x.iter().map(i).collect())));
        let r = guard(|| Some(m.prev_initialized(t, s)));
        o.call("sdk.prev_initialized", "prevOf", &[set(&v), i(t), i(s)], opt_list(r.map(|x| x.iter().map(i).collect())));
        let xy = g.r.chance(50);
        o.call("sdk.get_search_limit", "searchLimit", &[i(t), i(s), b(xy)], oi(guard(|| Some(w::get_search_limit(t, s, xy)))));
        let pos = guard(|| Some(w::tick_to_position(t, s)));
        o.call("sdk.tick_to_position", "placeOf", &[i(t), i(s)], opt_list(pos.map(|(c, b)| vec![i(c), i(b)])));
        let pos = guard(|| w::tick_to_position_js(t, s).ok());
        o.call("sdk.tick_to_position_js", "placeOf", &[i(t), i(s)], opt_list(pos.as_ref().map(|p| vec![i(p.chunk), i(p.bit)])));
        if let Some(p) = pos {
            o.call("sdk.position_to_tick", "tickOfBit", &[i(p.chunk), i(p.bit), i(s)], i(w::position_to_tick(p.chunk, p.bit, s)));
        }
        o.call("sdk.get", "hasBit", &[set(&v), i(t)], b(guard(|| Some(m.get(t, s))).unwrap_or(false)));
    }
}
