#![allow(non_snake_case, dead_code, clippy::all)]
mod api; mod core; mod crash; mod gen; mod mon; mod refm; mod rng;
use api::*; use core::*;
#[global_allocator]
static ALLOC: mon::trace::Counting = mon::trace::Counting;
use std::time::{Duration, Instant};
fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| { mon::trace::HOOKED.fetch_add(1, std::sync::atomic::Ordering::Relaxed); }));
    if a.get(1).map(|s| s == "--call").unwrap_or(false) {
        let c = Call { f: F::from_name(&a[2]).unwrap(), a: f64::from_bits(u64::from_str_radix(&a[3], 16).unwrap()), b: f64::from_bits(u64::from_str_radix(&a[4], 16).unwrap()), o: a[5].parse().unwrap(), r: a[6].parse().unwrap() };
        println!("{:?}", call_in(0, &c)); return;
    }
    if a.get(1).map(|s| s == "--p14-child").unwrap_or(false) { mon::robust::child(a[2].parse().unwrap(), a[3].parse().unwrap(), a[4].parse().unwrap()); return; }
    match refm::selftest::run() {
        Ok(n) => if std::env::var("RV_STATS").is_ok() { println!("reference model self-test: {n} published verification values reproduced") },
        Err(b) => { for x in b { println!("{x}"); } println!("reference model self-test failed: no verdict"); std::process::exit(3); }
    }
    let id = a.get(1).cloned().unwrap_or_default();
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let only = a.iter().position(|x| x == "--only").and_then(|i| a.get(i + 1)).and_then(|s| s.rsplit_once(':').map(|(x, y)| (x.to_string(), y.parse().unwrap())));
    let ctx = Ctx { id: id.clone(), thorough, seed, only, t0: Instant::now(), threads: std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(16), limit: Duration::from_secs(if thorough { 780 } else { 240 }), out: Default::default(), cut: Default::default(), known: load_known(), streams: Default::default() };
    watchdog(id.clone(), seed, if thorough { "thorough".into() } else { "quick".into() });
    crash::install(&id);
    if std::env::var("RV_TEST_CRASH").is_ok() { std::thread::spawn(|| { let _ = call_in(0, &Call { f: Pt, a: 1.0, b: 2.0, o: -77777, r: NOREG }); }).join().ok(); }
    let code = match mon::dispatch(&ctx) { Some(rep) => finish(&ctx, rep), None => { println!("unknown property {id}"); 2 } };
    std::process::exit(code);
}
/// committed list of genuine, unrepaired defects: lines  "open: property=<id> key=<key> :: <what>"
fn load_known() -> Vec<Known> {
    let s = std::fs::read_to_string(format!("{}/known_findings.txt", verif())).unwrap_or_default();
    s.lines().filter_map(|l| { let l = l.strip_prefix("open: property=")?; let (p, l) = l.split_once(" key=")?; let (k, w) = l.split_once(" :: ")?; Some(Known { property: p.trim().into(), key: k.trim().into(), what: w.trim().into() }) }).collect()
}
