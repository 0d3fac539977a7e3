//! P12, P14: every call returns; every call is a pure function of its arguments.
use super::region::{any_state, is_code, wet};
use crate::api::*;
use crate::core::*;
use crate::gen::*;
use crate::refm::*;
use crate::rng::*;
use std::collections::HashMap;
use std::sync::atomic::Ordering::*;
use std::sync::Mutex;

pub fn hostile(r: &mut Rng) -> f64 {
    match r.below(12) {
        0 => f64::NAN, 1 => f64::INFINITY, 2 => f64::NEG_INFINITY, 3 => 0.0, 4 => -0.0, 5 => f64::from_bits(1 + r.below(1 << 20)), 6 => f64::MAX * r.sign(), 7 => f64::MIN_POSITIVE * r.sign(),
        8 => r.sign() * r.log(1e-300, 1e-6), 9 => r.sign() * r.log(1e6, 1e300), 10 => r.pick(&[-273.15, -1.0, 1.0, 273.15, 647.096, 373.946, 22.064, 100.0, 16.5291642526045, 623.15, 350.0, 590.0, 800.0, 2000.0, 2273.15, -9999.0, 1e10]), _ => f64::from_bits(r.u64()),
    }
}
pub fn any_id(r: &mut Rng) -> i32 { match r.below(8) { 0 => r.int(-5, 40) as i32, 1 => r.pick(&[i32::MIN, i32::MAX, -1, 36, 1000]), 2 => r.u64() as i32, _ => r.int(0, 35) as i32 } }
fn any_reg(r: &mut Rng) -> i32 { match r.below(6) { 0 => NOREG, 1 => r.u64() as i32, 2 => r.pick(&[-1, 0, 6, 10, 11, i32::MAX, i32::MIN + 1]), _ => r.int(1, 5) as i32 } }
/// a state of the pair, single-phase or wet
fn good(r: &mut Rng, f: F) -> (f64, f64) { if f.is_x() { let (T, x) = wet(r); let w = Wet::from_T(T, x); (w.prop(f.ins().0), x) } else { any_state(r, f) } }
fn returned(m: &mut Mon, f: F, a: f64, b: f64, o: i32, reg: i32) -> f64 {
    let n = m.nviol;
    let reg = if f.is_x() { NOREG } else { reg };
    let y = m.callr(f, a, b, o, reg);
    if m.nviol == n { m.ensure("returned", true, String::new, vec![]); } // a panic or a hang is recorded by call()/the watchdog
    m.cnt(if y.is_nan() { "answers.NaN" } else if is_code(y) { "answers.error code" } else if y.is_finite() { "answers.number" } else { "answers.infinite" });
    y
}
pub fn p12(c: &Ctx) -> Report {
    let n = c.n(200_000, 4_000_000);
    for f in ALL {
        c.par(&format!("bits-{}", f.name()), n / 2, |r, m, _| {
            let (a, b) = (f64::from_bits(r.u64()), f64::from_bits(r.u64()));
            let (o, g) = (any_id(r), any_reg(r));
            let y = returned(m, f, a, b, o, g);
            m.sample("bits", || format!("{}({a:e}, {b:e}, {o}) = {y:?}", f.name()));
        });
        c.par(&format!("one-hostile-{}", f.name()), n, |r, m, _| {
            let (mut a, mut b) = good(r, f);
            match r.below(3) { 0 => a = hostile(r), 1 => b = hostile(r), _ => { a = hostile(r); b = hostile(r); } }
            let (o, g) = (any_id(r), any_reg(r));
            let y = returned(m, f, a, b, o, g);
            m.sample("hostile", || format!("{}({a:e}, {b:e}, {o}) = {y:?}", f.name()));
        });
        c.par(&format!("foreign-region-{}", f.name()), n, |r, m, _| {
            if f.is_x() { return; }
            let (a, b) = good(r, f);
            for g in [1, 2, 3, 4, 5] { let o = r.int(0, 35) as i32; let y = returned(m, f, a, b, o, g); m.sample("foreign", || format!("{}({a:?}, {b:?}, ({o}, {g})) = {y:?}", f.name())); }
        });
        c.par(&format!("off-range-{}", f.name()), n, |r, m, _| {
            // good values pushed a little or a lot, so that a solver starts just outside its bracket
            let (a, b) = good(r, f);
            let (ka, kb) = (1.0 + r.sign() * r.tiny(1e-15, 3.0), 1.0 + r.sign() * r.tiny(1e-15, 3.0));
            let (a, b) = match r.below(3) { 0 => (a * ka, b), 1 => (a, b * kb), _ => (a * ka, b * kb) };
            let (a, b) = if r.chance(0.1) { (a + r.sign() * r.log(1e-12, 10.0), b + r.sign() * r.log(1e-12, 10.0)) } else { (a, b) };
            let o = any_id(r);
            let y = returned(m, f, a, b, o, NOREG);
            m.sample("off", || format!("{}({a:?}, {b:?}, {o}) = {y:?}", f.name()));
        });
        c.par(&format!("critical-{}", f.name()), n / 2, |r, m, _| {
            // iterations are slowest where isotherms are flat
            let (T, p) = (TC + r.sign() * r.log(1e-12, 3.0), PC + r.sign() * r.log(1e-12, 0.3));
            let v = r.uni(0.0022, 0.0045);
            let s = reg3(1.0 / v, T);
            let y = [p, T - K0, 0.0, v, s.h, s.s];
            let (i, j) = f.ins();
            let a = y[i as usize]; let b = if f.is_x() { r.f() } else { y[j as usize] };
            let o = r.int(0, 35) as i32; let g = if r.chance(0.3) { 3 } else { NOREG };
            let z = returned(m, f, a, b, o, g);
            m.sample("critical", || format!("{}({a:?}, {b:?}, {o}) = {z:?}", f.name()));
        });
    }
    c.par("grid", 12 * 24 * 24, |r, m, k| {
        const H: [f64; 24] = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.0, -0.0, 5e-324, -5e-324, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 1e-308, 1e308, 1.0, -1.0, 100.0, -273.15, 22.064, 373.946, 2087.5, 4.41202148223476, 0.0031, 1e-3, 0.5, 1e9];
        let f = ALL[(k / 576) as usize]; let (a, b) = (H[(k / 24 % 24) as usize], H[(k % 24) as usize]);
        for o in [i32::MIN, -1, 0, 1, 3, 4, 5, 8, 10, 16, 24, 29, 35, 36, i32::MAX] { for g in [NOREG, 1, 2, 3, 4, 5, 0, i32::MAX] { if f.is_x() && g != NOREG { continue; } returned(m, f, a, b, o, g); } }
        let _ = r;
    });
    Report { rule: "all twelve functions on random bit patterns, hostile values in one or both inputs, foreign explicit regions, states pushed off range by 1e-15..3, near-critical states, a full grid of special values x ids x regions; overflow checks and debug assertions on; a watchdog re-runs a call in flight for 8 s alone under a 20 s CPU limit; every call is a verdict (returned without panicking)".into(), assumptions: vec!["a call still running after 20 s of CPU time never returns".into()] }
}

// ---------------------------------------------------------------- P14
/// calls that resemble each other: the same state by several pairs, neighbours one ulp to 5 % away, shared inputs, other ids
pub fn cluster(r: &mut Rng) -> Vec<Call> {
    let mut v = vec![];
    let reg = r.pick(&[1, 2, 3, 5]);
    let q = state(r, reg);
    let s = super::pairs::forward(&q);
    let (T, x) = wet(r); let w = Wet::from_T(T, x);
    let k = 6 + r.below(14);
    let mut last: Option<Call> = None;
    for _ in 0..k {
        let f = r.pick(&ALL);
        let (i, j) = f.ins();
        let (mut a, mut b) = if f.is_x() || (f != Pt && r.chance(0.3)) { (w.prop(i), if f.is_x() { x } else { w.prop(j) }) } else { (if i == OP { q.p } else { s.prop(i) }, if f == Pt { q.t } else { s.prop(j) }) };
        let mut o = r.int(0, 35) as i32;
        if let (Some(l), true) = (last, r.chance(0.7)) {
            // a relative of the previous call
            let e = 1.0 + r.sign() * r.tiny(1e-16, 0.05);
            match r.below(7) { 0 => { v.push(Call { o, ..l }); continue; } 1 => { v.push(Call { a: l.a * e, ..l }); continue; } 2 => { v.push(Call { b: l.b * e, ..l }); continue; } 3 => { v.push(Call { a: l.b, b: l.a, ..l }); continue; } 4 => { v.push(Call { a: hostile(r), ..l }); continue; } 5 => { o = l.o; } _ => { if f.ins().0 == l.f.ins().0 { a = l.a; } if f.ins().1 == l.f.ins().1 { b = l.b; } } }
        }
        let g = if !f.is_x() && r.chance(0.15) { r.int(1, 5) as i32 } else { NOREG };
        let c = Call { f, a, b, o, r: g };
        v.push(c); last = Some(c);
    }
    // x-pairs take no region
    for c in v.iter_mut() { if c.f.is_x() { c.r = NOREG; } }
    v
}
fn shuffle<T>(r: &mut Rng, v: &mut [T]) { for i in (1..v.len()).rev() { v.swap(i, r.below(i as u64 + 1) as usize); } }
fn others_in_call(slot: usize) -> bool { SLOT.iter().enumerate().any(|(i, s)| i != slot && s.seq.load(Relaxed) % 2 == 1) }
fn bits(y: f64) -> u64 { if y.is_nan() { 0x7ff8_0000_0000_0000 } else { y.to_bits() } }
fn differ(m: &mut Mon, how: &str, c: &Call, x: u64, y: u64, before: Option<Call>) {
    m.ensure(how, x == y, || format!("{c} returned {:?} and then {:?} ({how}{})", f64::from_bits(x), f64::from_bits(y), before.map(|b| format!(", right after {b}")).unwrap_or_default()), before.into_iter().chain([*c]).collect());
}
/// hash of one cluster's answers, for the comparison between processes
fn group_hash(seed: u64, g: u64) -> u64 {
    let mut r = Rng::new(seed, "P14", "process", g);
    let mut h = 1u64;
    for c in cluster(&mut r) { let y = call_in(0, &c).map(bits).unwrap_or(77); h = mix(h ^ y); }
    h
}
const KIDS: u64 = 96;
const SETTINGS: [&str; 6] = ["reversed order", "empty environment, other directory", "shim", "shim, shuffled order", "many threads at once", "shim, forward"];
/// the clusters a child process answers
fn kid_groups(seed: u64, ng: u64, kid: u64) -> Vec<u64> {
    let slices = KIDS / SETTINGS.len() as u64;
    let mut v: Vec<u64> = (0..ng).filter(|g| g % slices == kid / SETTINGS.len() as u64).collect();
    match kid % SETTINGS.len() as u64 { 0 => v.reverse(), 3 | 4 => shuffle(&mut Rng::new(seed, "P14", "kid", kid), &mut v), _ => {} }
    v
}
pub fn child(seed: u64, ng: u64, kid: u64) {
    std::thread::spawn(|| { std::thread::sleep(std::time::Duration::from_secs(120)); std::process::exit(9) });
    let v = kid_groups(seed, ng, kid);
    if SETTINGS[(kid % 6) as usize].starts_with("many") {
        // the very first calls of the process happen on several threads at the same time
        let gate = std::sync::Barrier::new(4);
        let out: Vec<Vec<(u64, u64)>> = std::thread::scope(|s| (0..4usize).map(|t| { let (v, gate) = (&v, &gate); s.spawn(move || { gate.wait(); (0..v.len()).map(|i| { let g = v[(i + t * v.len() / 4) % v.len()]; (g, group_hash(seed, g)) }).collect() }) }).collect::<Vec<_>>().into_iter().map(|h| h.join().unwrap()).collect());
        let mut m: HashMap<u64, u64> = HashMap::new();
        for (g, h) in out.into_iter().flatten() { let e = m.entry(g).or_insert(h); if *e != h { *e = 0; } }
        for (g, h) in m { println!("{g} {h:016x}"); }
    } else { for g in v { println!("{g} {:016x}", group_hash(seed, g)); } }
}
pub fn p14(c: &Ctx) -> Report {
    let n = c.n(150_000, 2_500_000);
    c.par("order", n, |r, m, _| {
        let v = cluster(r);
        let base: Vec<u64> = v.iter().map(|c| bits(m.callr(c.f, c.a, c.b, c.o, c.r))).collect();
        let mut idx: Vec<usize> = (0..v.len()).collect();
        for round in 0..4 {
            if round == 0 { idx.reverse() } else { shuffle(r, &mut idx) }
            let mut prev = None;
            for &i in &idx {
                if round == 2 { let (f, a, b, o) = (r.pick(&ALL), hostile(r), hostile(r), any_id(r)); m.call(f, a, b, o); prev = Some(Call { f, a, b, o, r: NOREG }); }
                let c = v[i];
                let y = bits(m.callr(c.f, c.a, c.b, c.o, c.r));
                differ(m, ["reversed order", "shuffled order", "after a hostile call", "shuffled again"][round], &c, base[i], y, prev);
                if round == 3 { let z = bits(m.callr(c.f, c.a, c.b, c.o, c.r)); differ(m, "twice in a row", &c, y, z, Some(c)); }
                prev = Some(c);
            }
        }
        m.cntn("calls compared", 5 * v.len() as u64);
        m.sample("order", || format!("{} calls in 5 orders, e.g. {} and {}", v.len(), v[0], v[v.len() - 1]));
    });
    // the same cluster on all threads at once
    let table: Vec<Mutex<HashMap<u64, Vec<u64>>>> = (0..64).map(|_| Mutex::new(HashMap::new())).collect();
    let k = c.threads as u64;
    c.par("threads", n, |_, m, i| {
        let g = i / k;
        let mut r = Rng::new(c.seed, "P14", "threads", g);
        let v = cluster(&mut r);
        let mut rr = Rng::new(c.seed, "P14", "threads-order", i);
        let mut idx: Vec<usize> = (0..v.len()).collect();
        shuffle(&mut rr, &mut idx);
        let mut got = vec![0u64; v.len()];
        for _ in 0..3 { for &j in &idx { let c = v[j]; got[j] = bits(m.callr(c.f, c.a, c.b, c.o, c.r)); if others_in_call(m.slot) { m.cnt("calls that overlapped a call on another thread"); } } }
        let old = { let mut t = table[(g % 64) as usize].lock().unwrap(); match t.get(&g) { Some(o) => Some(o.clone()), None => { t.insert(g, got.clone()); None } } };
        if let Some(old) = old { for (j, c) in v.iter().enumerate() { differ(m, "on another thread", c, old[j], got[j], None); } m.cnt("clusters compared between threads"); }
        m.sample("threads", || format!("cluster {g} of {} calls, order {idx:?}", v.len()));
    });
    // other processes, other histories, other surroundings
    let ng = c.n(6000, 100_000);
    if c.only.is_none() {
        let exe = std::env::current_exe().unwrap();
        let shim = std::env::var("RV_SHIM_SO").ok();
        let want: Mutex<HashMap<u64, Vec<(u64, u64)>>> = Mutex::new(HashMap::new());
        let next = std::sync::atomic::AtomicU64::new(0);
        let seen: Mutex<Vec<String>> = Mutex::new(vec![]);
        std::thread::scope(|s| for _ in 0..c.threads { s.spawn(|| loop {
            let kid = next.fetch_add(1, Relaxed); if kid >= KIDS { break; }
            let mut cmd = std::process::Command::new(&exe);
            cmd.args(["--p14-child", &c.seed.to_string(), &ng.to_string(), &kid.to_string()]).env_remove("LD_PRELOAD");
            match kid % 6 {
                1 => { cmd.env_clear().current_dir("/"); }
                2 | 3 | 5 => { if let Some(p) = &shim { cmd.env("LD_PRELOAD", p).env("RV_SHIM", (1 + kid).to_string()); } }
                _ => {}
            }
            let out = cmd.output().expect("child");
            if let Some(l) = String::from_utf8_lossy(&out.stderr).lines().find(|l| l.starts_with("shim ")) { seen.lock().unwrap().push(l.to_string()); }
            let mut w = want.lock().unwrap();
            for l in String::from_utf8_lossy(&out.stdout).lines() { if let Some((a, b)) = l.split_once(' ') { if let (Ok(g), Ok(h)) = (a.parse::<u64>(), u64::from_str_radix(b, 16)) { w.entry(g).or_default().push((kid, h)); } } }
        }); });
        let want = want.into_inner().unwrap(); let seen = seen.into_inner().unwrap();
        let ok = want.values().map(|v| v.len()).sum::<usize>();
        if ok < (ng * 6) as usize { println!("only {ok} of {} answers came back from the child processes", ng * 6); }
        c.par("process", ng, |_, m, g| {
            let h = group_hash(c.seed, g);
            let mut r = Rng::new(c.seed, "P14", "process", g);
            let v = cluster(&mut r);
            m.calls += v.len() as u64;
            for &(kid, k) in want.get(&g).map(|x| &x[..]).unwrap_or(&[]) {
                let how = SETTINGS[(kid % 6) as usize];
                m.cnt(&format!("clusters compared with a process: {how}"));
                m.ensure("another process", k == h, || format!("cluster {g} of {} calls gives other answers in a process with another history ({how}), first call {}", v.len(), v[0]), v.clone());
            }
            if g == 0 { m.cntn("child processes under the shim", seen.len() as u64); m.sample("process", || format!("96 child processes; {}", seen.first().cloned().unwrap_or_else(|| "no shim".into()))); }
            m.distinct.insert(mix(h));
        });
    }
    Report { rule: "clusters of 6..20 related calls (same state by several pairs, neighbours 1 ulp to 5 % away, shared inputs, other ids, hostile values) executed in five orders on one thread, at the same time on all threads, and in 96 child processes with other histories and surroundings (order, first calls on four threads at once, empty environment and other directory, a preloaded shim that answers getenv, clock, random source, process id and processor count differently in each); all answers must be bit-identical; non-trivial when two answers to one call were compared".into(), assumptions: vec![] }
}
