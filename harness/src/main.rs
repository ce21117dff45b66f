mod gen;
mod queries;
mod rng;
mod world;
use gen::*;
use rng::Rng;
use serde_json::{json, Value};
use std::io::{BufWriter, Write};
use world::*;

struct Out<W: Write>(W);
impl<W: Write> Out<W> {
    fn line(&mut self, v: Value) {
        if writeln!(self.0, "{v}").is_err() {
            std::process::exit(0); // the reader has seen enough
        }
    }
}

/// run `op`, print what happened, return the new view (None: the state can no longer be read)
fn step<W: Write>(w: &mut World, out: &mut Out<W>, st: &mut Value, op: Value, phase: &str) -> (Outcome, Option<View>) {
    let r = w.exec(&op);
    let mut e = json!({"op": op, "ok": r.ok, "out": r.out.iter().map(big).collect::<Vec<_>>(), "err": r.err, "ev": r.ev, "ph": phase});
    match w.observe() {
        Err(x) => {
            e["obs_error"] = json!(x);
            out.line(e);
            (r, None)
        }
        Ok(s) => {
            if s != *st {
                e["st"] = s.clone();
                *st = s;
            }
            out.line(e);
            let v = View::of(st);
            (r, Some(v))
        }
    }
}

#[allow(unused_assignments)]
fn history<W: Write>(seed: u64, h: u64, prof: &str, len: u64, out: &mut Out<W>) {
    let mut rng = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(h));
    let p = profile(prof);
    let pfee = *rng.pick(&[0u64, 10_000_000_000, 10_000_000_000, 250_000_000_000, 500_000_000_000, 1_000_000_000_000, 1]);
    let rich = if p.extreme { 10u128.pow(34) } else { 10u128.pow(24) };
    let poor = 10u128.pow(rng.below(9) as u32);
    let len = if len > 0 { len } else { p.len };
    let mut w = World::new(pfee, rich, poor);
    let mut st = match w.observe() {
        Ok(s) => s,
        Err(e) => {
            out.line(json!({"h": h, "prof": prof, "fatal": e}));
            return;
        }
    };
    out.line(json!({"h": h, "seed": seed, "prof": prof, "pfee": pfee.to_string(), "rich": rich.to_string(), "poor": poor.to_string(), "init": st}));
    let mut g = Gen { rng, p };
    let mut v = View::of(&st);
    macro_rules! go {
        ($op:expr, $ph:expr) => {{
            let o = $op;
            let (r, nv) = step(&mut w, out, &mut st, o, $ph);
            match nv {
                Some(x) => v = x,
                None => return,
            }
            r
        }};
    }
    // a deployment to play with
    let n = if prof == "wide" { 14 } else { 1 + g.rng.below(3) };
    for _ in 0..n {
        let mut o = g.add_tier(&v);
        o["value"]["by"] = json!("admin");
        go!(o, "setup");
    }
    let n = g.p.pools.0 + g.rng.below(g.p.pools.1 - g.p.pools.0 + 1);
    for _ in 0..n * 3 + 6 {
        if v.pools.len() as u64 >= n {
            break;
        }
        let o = g.pool_op(&v);
        go!(o, "setup");
    }
    let n = g.p.positions.0 + g.rng.below(g.p.positions.1 - g.p.positions.0 + 1);
    for _ in 0..if prof == "wide" { n } else { n.max(v.pools.len() as u64) } {
        if let Some(o) = g.create_op(&mut w, &v, true) {
            go!(o, "setup");
        }
    }
    for _ in 0..len {
        let o = g.next(&mut w, &v);
        if let Some(q) = queries::quote_of(&o) {
            let a = w.ask(&q);
            out.line(json!({"q": q, "a": a, "for": "next"}));
        }
        go!(o, "run");
        let mut n = g.p.ask;
        while n > 0 && (n >= 100 || g.rng.chance(n)) {
            let named: Vec<i64> = w.named.values().flatten().copied().collect();
            let q = queries::pick_query(&mut g.rng, prof == "ops", &v, &named);
            let a = w.ask(&q);
            out.line(json!({"q": q, "a": a}));
            n = n.saturating_sub(100);
        }
    }
    // everybody leaves: in random order every position is withdrawn, then all protocol fees
    let mut leave = if prof == "many" { 12 } else { u64::MAX };
    while !v.pos.is_empty() && leave > 0 {
        leave -= 1;
        let q = g.rng.pick(&v.pos).clone();
        let o = if g.rng.chance(15) {
            op("Burn", json!({"by": q.owner, "owner": q.owner, "idx": q.idx}))
        } else {
            op("RemovePosition", json!({"by": q.owner, "idx": q.idx}))
        };
        let r = go!(o, "drain");
        if !r.ok {
            break;
        }
    }
    for p in v.pools.clone().into_iter().take(10) {
        go!(op("WithdrawProtocolFee", json!({"by": p.recv, "key": p.key.spec()})), "drain");
    }
    out.line(json!({"end": h}));
}

#[allow(unused_assignments)]
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let num = |i: usize| a.get(i).and_then(|s| s.parse::<u64>().ok()).unwrap_or(0);
    let so = std::io::stdout();
    let mut out = Out(BufWriter::with_capacity(1 << 20, so.lock()));
    match a.get(1).map(|s| s.as_str()) {
        // drive <seed> <from> <to> <step> <len> <profile,profile..>
        Some("drive") => {
            let profs: Vec<&str> = a[7 - 0].split(',').collect();
            let (seed, from, to, by) = (num(2), num(3), num(4), num(5).max(1));
            let mut h = from;
            while h < to {
                history(seed, h, profs[((h + h / 8) % profs.len() as u64) as usize], num(6), &mut out);
                h += by;
            }
        }
        // replay <file>: {"pfee","rich","poor","ops":[..],"queries":{"<step>":[..]}}
        Some("replay") => {
            let j: Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).expect("file")).expect("json");
            let n = |f: &str, d: u128| j[f].as_str().map(|s| s.parse().unwrap()).unwrap_or(d);
            let mut w = World::new(n("pfee", 0) as u64, n("rich", 10u128.pow(34)), n("poor", 1000));
            let mut st = w.observe().expect("initial state");
            out.line(json!({"h": 0, "seed": 0, "prof": "replay", "init": st}));
            for o in j["ops"].as_array().expect("ops") {
                if o["q"].is_object() {
                    let a = w.ask(&o["q"]);
                    out.line(json!({"q": o["q"], "a": a}));
                    continue;
                }
                if let Some(q) = queries::quote_of(o) {
                    let a = w.ask(&q);
                    out.line(json!({"q": q, "a": a, "for": "next"}));
                }
                if step(&mut w, &mut out, &mut st, o.clone(), "run").1.is_none() {
                    break;
                }
            }
            out.line(json!({"end": 0}));
        }
        // serve: one request per line, one answer per line.  A state of the chain is known by a number.
        //   {"new":{"pfee","rich","poor"}}  a deployment: {"id","st"}
        //   {"at":n,"op":{..},"keep":bool}  carry the operation out from state n: {"ok","out","err","st"?,"id"?}
        //   {"at":n,"q":{..}}               ask: {"a"}
        //   {"drop":n}                      forget
        Some("serve") => {
            let mut w = World::new(0, 10u128.pow(24), 1000);
            let mut known: std::collections::HashMap<u64, (Snapshot, Value)> = Default::default();
            let mut next = 0u64;
            let mut line = String::new();
            let si = std::io::stdin();
            loop {
                line.clear();
                if si.read_line(&mut line).unwrap_or(0) == 0 {
                    break;
                }
                let j: Value = serde_json::from_str(&line).expect("json");
                if j["new"].is_object() {
                    let n = |f: &str, d: u128| j["new"][f].as_str().map(|s| s.parse().unwrap()).unwrap_or(d);
                    w = World::new(n("pfee", 0) as u64, n("rich", 10u128.pow(24)), n("poor", 1000));
                    known.clear();
                    let st = w.observe().expect("initial state");
                    known.insert(next, (w.snapshot(), st.clone()));
                    out.line(json!({"id": next, "st": st}));
                    next += 1;
                } else if let Some(d) = j["drop"].as_u64() {
                    known.remove(&d);
                    continue;
                } else {
                    let at = j["at"].as_u64().expect("at");
                    let (snap, pre) = known.get(&at).expect("known state").clone();
                    w.restore(&snap);
                    if j["q"].is_object() {
                        out.line(json!({"a": w.ask(&j["q"])}));
                    } else {
                        let r = w.exec(&j["op"]);
                        let mut e = json!({"ok": r.ok, "out": r.out.iter().map(big).collect::<Vec<_>>(), "err": r.err, "ev": r.ev});
                        match w.observe() {
                            Err(x) => e["obs_error"] = json!(x),
                            Ok(s) => {
                                if s != pre {
                                    e["st"] = s.clone();
                                }
                                if j["keep"] == json!(true) {
                                    known.insert(next, (w.snapshot(), s));
                                    e["id"] = json!(next);
                                    next += 1;
                                }
                            }
                        }
                        out.line(e);
                    }
                }
                let _ = out.0.flush();
            }
        }
        _ => {
            eprintln!("usage: drive seed from to step len profiles");
            std::process::exit(2);
        }
    }
    let _ = out.0.flush();
}
