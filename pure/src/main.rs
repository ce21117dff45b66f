//! Calls the pure functions of the contract, of the SDK (wasm crate) and of the decimal library with
//! many arguments and prints every call as one JSON line
//!   {"f": function, "s": definition of the specification, "a": [arguments], "r": result}
//! (integers as "#123", failure as "#-1").  tools/fnworker.js evaluates the definition and compares.
//!   vpure <groups,comma separated> <seed> <shard> <shards> <n>
mod curve;
mod dec;
mod kit;
mod liq;
mod rng;
mod search;
mod sim;
mod ticks;
mod views;

use rng::Rng;
use std::fmt::{Display, Write as _};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const MAX_TICK: i32 = 221818;

/// failure of any kind is None
pub fn guard<T>(f: impl FnOnce() -> Option<T>) -> Option<T> {
    catch_unwind(AssertUnwindSafe(f)).unwrap_or(None)
}
pub fn i<T: Display>(v: T) -> String {
    format!("\"#{v}\"")
}
pub fn b(v: bool) -> String {
    v.to_string()
}
pub fn oi<T: Display>(v: Option<T>) -> String {
    match v {
        Some(v) => i(v),
        None => i(-1),
    }
}
pub fn set<T: Display>(v: &[T]) -> String {
    let l: Vec<String> = v.iter().map(i).collect();
    format!("{{\"#set\":[{}]}}", l.join(","))
}
pub fn list(v: &[String]) -> String {
    format!("[{}]", v.join(","))
}
pub fn opt_list(v: Option<Vec<String>>) -> String {
    list(&v.unwrap_or_default())
}

pub struct Out {
    w: std::io::BufWriter<std::io::Stdout>,
    s: String,
}
impl Out {
    pub fn call(&mut self, f: &str, s: &str, a: &[String], r: String) {
        self.s.clear();
        let _ = write!(self.s, "{{\"f\":\"{f}\",\"s\":\"{s}\",\"a\":[{}],\"r\":{r}}}\n", a.join(","));
        if self.w.write_all(self.s.as_bytes()).is_err() {
            std::process::exit(0)
        }
    }
    /// a law that must hold of results of the code
    pub fn law(&mut self, f: &str, s: &str, a: &[String]) {
        self.call(f, s, a, "true".into())
    }
}

/// values of interest
pub struct Gen {
    pub r: Rng,
}
impl Gen {
    /// 0..2^128-1 with all magnitudes, round numbers and extremes
    pub fn u(&mut self) -> u128 {
        match self.r.below(12) {
            0 => self.r.below(4) as u128,
            1 => u128::MAX - self.r.below(3) as u128,
            2 => {
                let k = self.r.below(128) as u32;
                (1u128 << k).wrapping_sub(self.r.below(2) as u128)
            }
            3 => 10u128.pow(self.r.below(39) as u32) + self.r.below(3) as u128 - 1,
            _ => {
                let k = self.r.below(128) as u32;
                self.r.u128() >> k
            }
        }
    }
    pub fn upto(&mut self, max: u128) -> u128 {
        match self.r.below(10) {
            0 => max,
            1 => 0,
            2 => max - (self.r.below(3) as u128).min(max),
            _ => {
                let v = self.u();
                if v > max {
                    v % (max + 1)
                } else {
                    v
                }
            }
        }
    }
    pub fn tick(&mut self) -> i32 {
        match self.r.below(12) {
            0 => MAX_TICK - self.r.below(120) as i32,
            1 => -MAX_TICK + self.r.below(120) as i32,
            2 | 3 => self.r.range(-300, 300) as i32,
            4 => {
                let k = self.r.below(18) as u32;
                let t = ((1i32 << k) + self.r.range(-1, 1) as i32).min(MAX_TICK);
                if self.r.chance(50) {
                    t
                } else {
                    -t
                }
            }
            5 => self.r.range(-20000, 20000) as i32,
            _ => self.r.range(-(MAX_TICK as i64), MAX_TICK as i64) as i32,
        }
    }
    pub fn spacing(&mut self) -> u16 {
        *self.r.pick(&[1u16, 1, 2, 3, 5, 10, 10, 50, 60, 64, 99, 100, 7, 37])
    }
    pub fn price_of(t: i32) -> u128 {
        use decimal::Decimal;
        guard(|| oraiswap_v3::sqrt_price::calculate_sqrt_price(t).ok().map(|p| p.get())).unwrap_or(10u128.pow(24))
    }
    /// a price in the supported range: on, next to and between ticks
    pub fn price(&mut self) -> u128 {
        let t = self.tick();
        let p = Self::price_of(t);
        let q = Self::price_of((t + 1).min(MAX_TICK));
        let v = match self.r.below(8) {
            0 | 1 => p,
            2 => p + 1,
            3 => p - 1,
            _ => p + if q > p { self.r.u128() % (q - p) } else { 0 },
        };
        v.clamp(15258932000000000000, 65535383934512647000000000000)
    }
    pub fn liquidity(&mut self) -> u128 {
        match self.r.below(10) {
            0 => self.u(),
            1 => 0,
            2 => self.r.below(10) as u128,
            _ => self.r.mag(33),
        }
    }
    pub fn amount(&mut self) -> u128 {
        match self.r.below(10) {
            0 => self.u(),
            1 => self.r.below(5) as u128,
            _ => self.r.mag(30),
        }
    }
    pub fn fee(&mut self) -> u64 {
        *self.r.pick(&[0u64, 1, 100_000_000, 500_000_000, 3_000_000_000, 10_000_000_000, 6_000_000_000, 999_999_999_999, 1_000_000_000_000, 333_333_333_333, 500_000_000_000])
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = a[2].parse().unwrap();
    let shard: u64 = a[3].parse().unwrap();
    let shards: u64 = a[4].parse().unwrap();
    let n: u64 = a[5].parse().unwrap();
    let mut out = Out { w: std::io::BufWriter::with_capacity(1 << 16, std::io::stdout()), s: String::new() };
    for g in a[1].split(',') {
        let mut gen = Gen { r: Rng::new(seed.wrapping_mul(1_000_003) + shard * 7919 + g.len() as u64) };
        match g {
            "ticks" => ticks::run(&mut out, &mut gen, shard, shards, n),
            "search" => search::run(&mut out, &mut gen, n / shards),
            "curve" => curve::run(&mut out, &mut gen, n / shards, true, false),
            "sdk" => {
                curve::run(&mut out, &mut gen, n / shards, false, true);
                ticks::run_sdk(&mut out, &mut gen, n / shards / 4);
                search::run_sdk(&mut out, &mut gen, n / shards / 4);
            }
            "kit" => kit::run(&mut out, &mut gen, n / shards / 8),
            "keys" => kit::run_keys(&mut out, &mut gen, n / shards),
            "views" => views::run(&mut out, &mut gen, n / shards),
            "liqsdk" => liq::run(&mut out, &mut gen, n / shards / 4, false),
            "sim" => sim::run(&mut out, &mut gen, n / shards),
            "liq" => liq::run(&mut out, &mut gen, n / shards, true),
            "dec" => dec::run(&mut out, &mut gen, n / shards),
            _ => panic!("group {g}"),
        }
    }
    let _ = out.w.flush();
}
