//! Monitor core: cases, verdicts, statistics, watchdog, evidence, replay files.
use crate::api::*;
use crate::rng::*;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Ctx { pub id: String, pub thorough: bool, pub seed: u64, pub only: Option<(String, u64)>, pub t0: Instant, pub threads: usize, pub limit: Duration, pub out: Mutex<Mon>, pub cut: AtomicBool, pub known: Vec<Known>, pub streams: Mutex<Vec<String>> }
#[derive(Clone, Debug)]
pub struct Viol { pub kind: String, pub key: String, pub text: String, pub stream: String, pub idx: u64, pub calls: Vec<Call> }
#[derive(Clone, Debug)]
pub struct Known { pub property: String, pub key: String, pub what: String }
#[derive(Default)]
pub struct Mon {
    pub slot: usize, pub cases: u64, pub calls: u64, pub verdicts: u64,
    pub count: BTreeMap<String, u64>, pub worst: BTreeMap<String, (f64, String)>,
    pub distinct: HashSet<u64>, pub samples: BTreeMap<String, Vec<String>>, pub viols: Vec<Viol>, pub nviol: u64,
    pub kinds: BTreeMap<String, u64>, pub stream: String, pub idx: u64, pub trail: Vec<Call>, nontrivial: bool, case_hash: u64, pub diag: bool,
}
impl Mon {
    /// call the library; a panic is itself a violation
    pub fn call(&mut self, f: F, a: f64, b: f64, o: i32) -> f64 { self.callr(f, a, b, o, NOREG) }
    pub fn callr(&mut self, f: F, a: f64, b: f64, o: i32, r: i32) -> f64 {
        let c = Call { f, a, b, o, r };
        self.calls += 1;
        if self.trail.len() < 64 { self.trail.push(c) } else { let n = self.calls as usize % 64; self.trail[n] = c; }
        self.case_hash = mix(self.case_hash ^ mix(a.to_bits()).wrapping_add(mix(b.to_bits() ^ (f as u64) << 3)));
        match call_in(self.slot, &c) {
            Ok(v) => v,
            Err(e) => { self.fail("panic", &format!("panic:{}", f.name()), format!("{c} panicked: {e}"), vec![c]); f64::NAN }
        }
    }
    /// the case did something (for the count of distinct cases)
    pub fn case_mark(&mut self, h: u64) { self.nontrivial = true; self.case_hash = mix(self.case_hash ^ h); }
    pub fn cnt(&mut self, k: &str) { self.cntn(k, 1) }
    pub fn cntn(&mut self, k: &str, n: u64) { if let Some(x) = self.count.get_mut(k) { *x += n } else { self.count.insert(k.to_string(), n); } }
    pub fn sample(&mut self, k: &str, s: impl FnOnce() -> String) {
        if let Some(v) = self.samples.get(k) { if v.len() >= 2 { return; } }
        let t = s(); self.samples.entry(k.to_string()).or_default().push(t);
    }
    /// a verdict: |got-want| <= tol. `label` groups the statistics.
    pub fn close(&mut self, label: &str, got: f64, want: f64, tol: f64, c: Call) -> bool {
        self.verdicts += 1; self.nontrivial = true;
        let e = (got - want).abs();
        let q = e / tol;
        let q = if q.is_nan() { if got == want { 0.0 } else { f64::INFINITY } } else { q };
        match self.worst.get_mut(label) {
            Some(w) => if q > w.0 { *w = (q, format!("{c} = {got:?}, expected {want:?} +- {tol:.2e}")) },
            None => { self.worst.insert(label.to_string(), (q, format!("{c} = {got:?}, expected {want:?} +- {tol:.2e}"))); }
        }
        if q <= 1.0 { return true; }
        self.fail(label, &format!("{label}"), format!("{c} returned {got:?}, expected {want:?} within {tol:.3e}"), vec![c]);
        false
    }
    pub fn ensure(&mut self, label: &str, ok: bool, text: impl FnOnce() -> String, calls: Vec<Call>) -> bool {
        self.verdicts += 1; self.nontrivial = true;
        if !ok { let t = text(); self.fail(label, label, t, calls); }
        ok
    }
    pub fn fail(&mut self, kind: &str, key: &str, text: String, calls: Vec<Call>) {
        self.nviol += 1; self.nontrivial = true;
        *self.kinds.entry(kind.to_string()).or_default() += 1;
        let n = self.viols.iter().filter(|v| v.key == key).count();
        if n < 3 && self.viols.len() < 400 {
            self.viols.push(Viol { kind: kind.into(), key: key.into(), text, stream: self.stream.clone(), idx: self.idx, calls });
        }
    }
    pub fn begin(&mut self, stream: &str, idx: u64) {
        self.cases += 1; self.idx = idx; self.nontrivial = false; self.case_hash = 1;
        if self.stream != stream { self.stream = stream.to_string(); }
        self.trail.clear();
        let s = &SLOT[self.slot]; s.who.store(hstr(stream), Relaxed); s.idx.store(idx, Relaxed);
    }
    pub fn end(&mut self) { if self.nontrivial { self.distinct.insert(self.case_hash); } }
    pub fn absorb(&mut self, o: Mon) {
        self.cases += o.cases; self.calls += o.calls; self.verdicts += o.verdicts; self.nviol += o.nviol;
        for (k, v) in o.count { *self.count.entry(k).or_default() += v; }
        for (k, v) in o.kinds { *self.kinds.entry(k).or_default() += v; }
        for (k, v) in o.worst { let w = self.worst.entry(k).or_insert((-1.0, String::new())); if v.0 > w.0 { *w = v; } }
        for (k, v) in o.samples { let w = self.samples.entry(k).or_default(); for s in v { if w.len() < 2 { w.push(s) } } }
        if self.distinct.is_empty() { self.distinct = o.distinct } else { self.distinct.extend(o.distinct); }
        self.viols.extend(o.viols);
    }
}
impl Ctx {
    /// workload size; a sanitizer stage runs a fraction of it (RV_SCALE)
    pub fn n(&self, quick: u64, thorough: u64) -> u64 { let n = if self.thorough { thorough } else { quick }; match std::env::var("RV_SCALE").ok().and_then(|s| s.parse::<f64>().ok()) { Some(k) => ((n as f64 * k) as u64).max(64), None => n } }
    pub fn rng(&self, stream: &str, idx: u64) -> Rng { Rng::new(self.seed, &self.id, stream, idx) }
    /// run `n` cases of a stream over all worker threads
    pub fn par(&self, stream: &str, n: u64, f: impl Fn(&mut Rng, &mut Mon, u64) + Sync) {
        let (mut lo, mut n) = (0, n);
        if let Some((s, i)) = &self.only { if s != stream { return; } lo = *i; n = *i + 1; }
        self.streams.lock().unwrap().push(stream.to_string());
        let next = AtomicU64::new(lo);
        let chunk = ((n - lo) / (self.threads as u64 * 16)).clamp(1, 512);
        std::thread::scope(|sc| {
            for _ in 0..self.threads {
                let (next, f) = (&next, &f);
                let stack = match crate::mon::trace::STACK.load(Relaxed) { 0 => 2 << 20, n => n };
                std::thread::Builder::new().stack_size(stack).spawn_scoped(sc, move || {
                    let mut m = Mon { slot: my_slot(), ..Default::default() };
                    m.diag = self.only.is_some();
                    'l: loop {
                        let i0 = next.fetch_add(chunk, Relaxed);
                        if i0 >= n { break; }
                        for i in i0..(i0 + chunk).min(n) {
                            let mut r = self.rng(stream, i);
                            m.begin(stream, i);
                            f(&mut r, &mut m, i);
                            m.end();
                        }
                        if self.t0.elapsed() > self.limit { self.cut.store(true, Relaxed); break 'l; }
                    }
                    m.cntn(&format!("cases.{stream}"), m.cases);
                    self.out.lock().unwrap().absorb(m);
                }).expect("thread");
            }
        });
    }
}
pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); } c => o.push(c) } }
    o.push('"'); o
}
pub fn jnum(x: f64) -> String { if x.is_finite() { format!("{x:?}") } else { jstr(&format!("{x}")) } }

pub fn verif() -> String { std::env::var("RV_ROOT").unwrap_or("/verif".into()) }
pub fn write_replay(id: &str, seed: u64, tier: &str, v: &Viol) -> String {
    let d = format!("{}/replays", verif());
    let _ = std::fs::create_dir_all(&d);
    let h = mix(hstr(&v.text) ^ hstr(&v.stream) ^ v.idx) & 0xffffff;
    let p = format!("{d}/{id}-{h:06x}.json");
    let mut calls = String::new();
    for (i, c) in v.calls.iter().enumerate() {
        if i > 0 { calls.push(','); }
        let _ = write!(calls, "\n    {{\"fn\": \"{}\", \"a_bits\": \"{:016x}\", \"b_bits\": \"{:016x}\", \"o_id\": {}, \"region\": {}, \"text\": {}}}", c.f.name(), c.a.to_bits(), c.b.to_bits(), c.o, if c.r == NOREG { "null".into() } else { c.r.to_string() }, jstr(&c.to_string()));
    }
    let s = format!("{{\n  \"property\": \"{id}\",\n  \"kind\": {},\n  \"what\": {},\n  \"stream\": {},\n  \"case\": {},\n  \"seed\": {seed},\n  \"tier\": \"{tier}\",\n  \"rerun\": {},\n  \"calls\": [{calls}\n  ]\n}}\n",
        jstr(&v.kind), jstr(&v.text), jstr(&v.stream), v.idx, jstr(&format!("cd /verif && VERIF_SEED={seed} VERIF_TIER={tier} ./check {id} --only {}:{}", v.stream, v.idx)));
    let _ = std::fs::write(&p, s);
    p
}
/// watchdog: a call in flight for long is re-run alone under a CPU limit; only a confirmed hang is a violation
pub fn watchdog(id: String, seed: u64, tier: String) {
    std::thread::spawn(move || {
        let mut last = vec![(0u64, Instant::now()); SLOTS];
        let mut cleared: HashSet<u64> = HashSet::new();
        loop {
            std::thread::sleep(Duration::from_millis(500));
            for (i, s) in SLOT.iter().enumerate() {
                let q = s.seq.load(Acquire);
                if q % 2 == 0 || q != last[i].0 { last[i] = (q, Instant::now()); continue; }
                if last[i].1.elapsed() < Duration::from_secs(8) { continue; }
                let c = slot_call(s);
                if !cleared.insert(mix(q ^ (i as u64) << 50)) { continue; }
                let exe = std::env::current_exe().unwrap();
                let out = std::process::Command::new("bash").arg("-c").arg("ulimit -t 20; exec \"$@\"").arg("x").arg(exe)
                    .args(["--call", c.f.name(), &format!("{:016x}", c.a.to_bits()), &format!("{:016x}", c.b.to_bits()), &c.o.to_string(), &c.r.to_string()]).output();
                use std::os::unix::process::ExitStatusExt;
                let hung = matches!(&out, Ok(o) if matches!(o.status.signal(), Some(24) | Some(9)));
                if hung {
                    let v = Viol { kind: "never-returns".into(), key: "hang".into(), text: format!("{c} does not return (re-run alone: still running after 20 s of CPU time)"), stream: "?".into(), idx: s.idx.load(Relaxed), calls: vec![c] };
                    let p = write_replay(&id, seed, &tier, &v);
                    println!("{}", v.text);
                    println!("VIOLATION property={id} replay={p}");
                    let ev = format!("{{\n  \"property\": \"{id}\",\n  \"tier\": \"{tier}\",\n  \"seed\": {seed},\n  \"level\": \"exploration\",\n  \"coverage\": {{\"evaluations\": 1, \"distinct_nontrivial\": 1, \"rule\": \"run stopped by the watchdog at the first call that does not return\", \"samples\": [{}]}},\n  \"wall_s\": 0,\n  \"violations\": 1\n}}\n", jstr(&v.text));
                    let _ = std::fs::create_dir_all(format!("{}/evidence", verif()));
                    let _ = std::fs::write(format!("{}/evidence/{id}.json", verif()), ev);
                    std::process::exit(1);
                }
            }
        }
    });
}
pub struct Report { pub rule: String, pub assumptions: Vec<String> }
/// print the verdict, write the evidence; returns the exit code
pub fn finish(ctx: &Ctx, rep: Report) -> i32 {
    let m = ctx.out.lock().unwrap();
    let tier = if ctx.thorough { "thorough" } else { "quick" };
    let mut fresh: Vec<&Viol> = vec![]; let mut known_hit: BTreeMap<usize, u64> = BTreeMap::new();
    for v in &m.viols {
        match ctx.known.iter().position(|k| k.property == ctx.id && k.key == v.key) { Some(i) => *known_hit.entry(i).or_default() += 1, None => fresh.push(v) }
    }
    for (i, k) in ctx.known.iter().enumerate() { if k.property == ctx.id && known_hit.contains_key(&i) { println!("KNOWN-FINDING: property={} {}", ctx.id, k.what); } }
    let mut e = String::new();
    let _ = write!(e, "{{\n  \"property\": \"{}\",\n  \"tier\": \"{tier}\",\n  \"seed\": {},\n  \"level\": \"exploration\",\n  \"coverage\": {{\n    \"evaluations\": {},\n    \"distinct_nontrivial\": {},\n    \"rule\": {},\n    \"library_calls_observed\": {},\n    \"oracle_verdicts\": {},\n", ctx.id, ctx.seed, m.cases, m.distinct.len(), jstr(&rep.rule), m.calls, m.verdicts);
    if let Ok(x) = std::env::var("RV_EXTRA") { let _ = write!(e, "    \"sanitizer_stage\": {},\n", jstr(&x)); }
    let _ = write!(e, "    \"stopped_by_time_limit\": {},\n", ctx.cut.load(Relaxed));
    let mut ss = vec![]; for (k, v) in &m.samples { for s in v { ss.push(jstr(&format!("[{k}] {s}"))); } }
    if ss.is_empty() { for (k, w) in m.worst.iter().take(5) { ss.push(jstr(&format!("[{k}] {}", w.1))); } }
    let _ = write!(e, "    \"samples\": [\n      {}\n    ],\n", ss.join(",\n      "));
    let _ = write!(e, "    \"observed\": {{{}}},\n", m.count.iter().map(|(k, v)| format!("\n      {}: {v}", jstr(k))).collect::<Vec<_>>().join(","));
    let _ = write!(e, "    \"largest_deviation_over_tolerance\": {{{}}}\n  }},\n", m.worst.iter().map(|(k, v)| format!("\n      {}: {{\"ratio\": {}, \"at\": {}}}", jstr(k), jnum(v.0), jstr(&v.1))).collect::<Vec<_>>().join(","));
    let _ = write!(e, "  \"assumptions\": [{}],\n  \"wall_s\": {:.3},\n  \"violations\": {}\n}}\n", rep.assumptions.iter().map(|a| jstr(a)).collect::<Vec<_>>().join(", "), ctx.t0.elapsed().as_secs_f64(), fresh.len());
    if ctx.only.is_none() {
        let _ = std::fs::create_dir_all(format!("{}/evidence", verif()));
        std::fs::write(std::env::var("RV_EVIDENCE").unwrap_or(format!("{}/evidence/{}.json", verif(), ctx.id)), e).expect("evidence");
    }
    println!("{}: {} cases ({} distinct non-trivial), {} library calls, {} verdicts, {} deviations, {:.1} s", ctx.id, m.cases, m.distinct.len(), m.calls, m.verdicts, m.nviol, ctx.t0.elapsed().as_secs_f64());
    if std::env::var("RV_STATS").is_ok() {
        for (k, v) in &m.count { println!("  {k}: {v}"); }
        for (k, v) in &m.worst { println!("  worst {k}: {:.3e}  {}", v.0, v.1); }
    }
    if m.cases == 0 || m.verdicts == 0 { println!("no verdict was reached: the check did not run"); return 2; }
    if fresh.is_empty() { return 0; }
    let mut per: BTreeMap<&str, u32> = BTreeMap::new();
    for v in &fresh {
        let n = per.entry(&v.kind).or_default(); *n += 1; if *n > 1 { continue; }
        if per.len() > 40 { break; }
        println!("[{}] x{} {} (stream {} case {})", v.kind, m.kinds.get(&v.kind).unwrap_or(&0), v.text, v.stream, v.idx);
        let p = write_replay(&ctx.id, ctx.seed, tier, v);
        println!("VIOLATION property={} replay={p}", ctx.id);
    }
    1
}
