//! P15, P16: the C and Python bindings against the Rust functions.
use super::region::{any_state, wet};
use super::robust::{any_id, hostile};
use crate::api::*;
use crate::core::*;
use crate::refm::*;
use crate::rng::*;

/// one case: inputs of one function and the ids asked for
fn case(r: &mut Rng) -> (F, f64, f64, Vec<i32>) {
    let f = r.pick(&ALL);
    let (mut a, mut b) = if f.is_x() { let (T, x) = wet(r); let w = Wet::from_T(T, x); (w.prop(f.ins().0), r.pick(&[x, x, 0.0, 1.0])) } else { any_state(r, f) };
    match r.below(10) {
        0 => if r.chance(0.5) { a = hostile(r) } else { b = hostile(r) },
        1 => { a *= 1.0 + r.sign() * r.tiny(1e-15, 3.0); }
        2 => { b *= 1.0 + r.sign() * r.tiny(1e-15, 3.0); }
        3 => { // just beyond the limits of the quality pairs and of the range
            let e = 1.0 + r.sign() * r.tiny(1e-15, 1e-3);
            let (i, _) = f.ins();
            a = e * match i { OP => r.pick(&[PMIN, PC, 50.0, 100.0]), OT => r.pick(&[0.0, 350.0, 373.946, 590.0, 800.0, 2000.0]), OH => r.pick(&[0.0, 2087.5, 2500.9, 2803.0, 1670.0]), _ => r.pick(&[0.0, 4.412, 9.155, 3.78, 5.21]) };
            if f.is_x() && r.chance(0.3) { b = r.pick(&[0.0, 1.0]) + r.sign() * r.tiny(1e-16, 1e-3); }
        }
        _ => {}
    }
    let (i, j) = f.ins();
    let mut ids = vec![i, j];
    for _ in 0..5 { ids.push(r.int(0, 35) as i32); }
    if r.chance(0.2) { ids.push(any_id(r)); }
    (f, a, b, ids)
}
fn bits(y: f64) -> u64 { if y.is_nan() { 0x7ff8_0000_0000_0000 } else { y.to_bits() } }
/// the binding's answer against the Rust answer. Bit equality is expected; separately compiled code may round differently,
/// so an answer that the Rust function itself gives for inputs moved by round-off is right too.
fn judge(m: &mut Mon, what: &str, c: Call, got: f64, want: f64) {
    if bits(got) == bits(want) { m.cnt("bit-identical answers"); m.ensure(what, true, String::new, vec![]); return; }
    let (i, j) = c.f.ins();
    let mut ok = false;
    if c.o != i && c.o != j {
        m.cnt("answers that differ in the last digits");
        let (mut lo, mut hi) = (want, want); let (mut edge, mut near) = (false, false);
        let e = f64::EPSILON;
        let steps = [(0.0, 0.0), (e, 0.0), (-e, 0.0), (4.0 * e, 0.0), (-4.0 * e, 0.0), (16.0 * e, 0.0), (-16.0 * e, 0.0), (64.0 * e, 0.0), (-64.0 * e, 0.0), (0.0, 1e-13), (0.0, -1e-13), (0.0, 1e-11), (0.0, -1e-11), (0.0, 1e-10), (0.0, -1e-10)];
        for k in steps { for l in steps {
            let y = m.call(c.f, c.a * (1.0 + k.0) + k.1, c.b * (1.0 + l.0) + l.1, c.o);
            if (got - y).abs() <= 1e-7 * y.abs() + if c.o == OX { 1e-10 } else { 0.0 } { ok = true; } // a quality is also zero
            edge |= (y == -9999.0) != (want == -9999.0); near |= (got - y).abs() <= 0.5 * y.abs() + 1e-5;
            lo = lo.min(y); hi = hi.max(y);
        } }
        // on the very edge of the range of validity round-off decides between a code and a value
        if edge && near { ok = true; m.cnt("answers on the edge of the range of validity"); }
        // on a border between regions the iterations of separately compiled code may end on different sides of it
        if !ok {
            let r0 = m.call(c.f, c.a, c.b, OR);
            for e in [1e-12, 1e-10, 1e-9, 1e-8, 3e-8, 1e-7, 3e-7] { for (k, l) in [(e, 0.0), (-e, 0.0), (0.0, e), (0.0, -e), (e, e), (e, -e), (-e, e), (-e, -e)] {
                let (a, b) = (c.a * (1.0 + k), c.b * (1.0 + l));
                if m.call(c.f, a, b, OR) != r0 { let y = m.call(c.f, a, b, c.o); if (got - y).abs() <= 1e-5 * y.abs() { ok = true; } }
            } }
            // wet steam with a quality within round-off of 0 or 1: a state of one phase or of two
            let x = m.call(c.f, c.a, c.b, OX);
            if r0 == 4.0 && (x.abs() < 1e-9 || (x - 1.0).abs() < 1e-9) { for e in [0.0, 1e-9, -1e-9] {
                let p = m.call(c.f, c.a * (1.0 + e), c.b, OP);
                for y in [m.call(Px, p, x.round(), c.o), -1000.0] { if (got - y).abs() <= 1e-6 * y.abs() { ok = true; } }
            } }
            if ok { m.cnt("answers on a border between regions"); }
        }
        // smooth spread of an ill-conditioned answer; not across an error code or another branch
        if hi - lo < 1e-3 * (want.abs() + 1.0) { let w = 1e-9 * want.abs() + 2.0 * (hi - lo); ok |= got >= lo - w && got <= hi + w; }
    }
    m.ensure(what, ok, || format!("{what}: {}({:?}, {:?}, {}) = {got:?}, but the Rust function returns {want:?}", c.f.name(), c.a, c.b, c.o), vec![c]);
}
extern "C" { fn dlopen(f: *const u8, flags: i32) -> *mut u8; fn dlsym(h: *mut u8, n: *const u8) -> *mut u8; }
fn file(rel: &str) -> String { format!("{}/target/{rel}", verif()) }
fn scratch(name: &str) -> String { let d = format!("{}/target/scratch", verif()); let _ = std::fs::create_dir_all(&d); format!("{d}/{name}-{}", std::process::id()) }
fn label(f: F, o: i32) -> String { format!("{}.{}", f.name(), if (0..36).contains(&o) { NAMES[o as usize] } else { "unknown id" }) }

/// run recorded calls through an external program, in parallel chunks; out: bytes per record, or the first record it died at
fn external(recs: &[u8], osz: usize, threads: usize, tag: &str, cmd: &(dyn Fn(&str, &str) -> std::process::Command + Sync)) -> Result<Vec<u8>, (usize, String)> {
    let n = recs.len() / 24;
    let per = n.div_ceil(threads).max(1);
    let res: Vec<Result<Vec<u8>, (usize, String)>> = std::thread::scope(|s| {
        let hs: Vec<_> = recs.chunks(per * 24).enumerate().map(|(k, ch)| s.spawn(move || {
            let (i, o) = (scratch(&format!("{tag}-in{k}")), scratch(&format!("{tag}-out{k}")));
            std::fs::write(&i, ch).unwrap();
            let r = cmd(&i, &o).output().expect("external program");
            let out = std::fs::read(&o).unwrap_or_default();
            let _ = std::fs::remove_file(&i); let _ = std::fs::remove_file(&o);
            if r.status.success() && out.len() / osz == ch.len() / 24 { return Ok(out); }
            let msg = format!("{} {} {}", r.status, String::from_utf8_lossy(&r.stdout).trim(), String::from_utf8_lossy(&r.stderr).lines().last().unwrap_or(""));
            // find the call
            let at = out.len() / osz;
            for q in at..(at + 4096).min(ch.len() / 24) {
                let (i, o) = (scratch(&format!("{tag}-in{k}")), scratch(&format!("{tag}-out{k}")));
                std::fs::write(&i, &ch[q * 24..q * 24 + 24]).unwrap();
                let ok = cmd(&i, &o).output().map(|r| r.status.success()).unwrap_or(false);
                let _ = std::fs::remove_file(&i); let _ = std::fs::remove_file(&o);
                if !ok { return Err((k * per + q, msg)); }
            }
            Err((k * per + at, msg))
        })).collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mut all = vec![];
    for r in res { all.extend(r?); }
    Ok(all)
}
fn put(v: &mut Vec<u8>, f: u32, o: i32, a: f64, b: f64) { v.extend(f.to_le_bytes()); v.extend(o.to_le_bytes()); v.extend(a.to_le_bytes()); v.extend(b.to_le_bytes()); }
/// all records of a stream, and where each case starts
fn records(c: &Ctx, stream: &str, n: u64, gen: &dyn Fn(&mut Rng) -> Vec<(u32, Call)>) -> (Vec<u8>, Vec<Vec<(u32, Call)>>, u64) {
    let (lo, hi) = match &c.only { Some((s, i)) => if s == stream { (*i, *i + 1) } else { (0, 0) }, None => (0, n) };
    let mut v = vec![]; let mut cs = vec![];
    for idx in lo..hi { let mut r = c.rng(stream, idx); let k = gen(&mut r); for (f, q) in &k { put(&mut v, *f, q.o, q.a, q.b); } cs.push(k); }
    (v, cs, lo)
}
fn gone(m: &mut Mon, what: &str, cs: &[Vec<(u32, Call)>], at: usize, msg: &str) {
    let c = cs.iter().flatten().nth(at).map(|x| x.1);
    m.verdicts += 1;
    m.fail(what, what, format!("{what}: the process making the call {} ended: {msg}", c.map(|c| c.to_string()).unwrap_or("?".into())), c.into_iter().collect());
}
pub fn p15(c: &Ctx) -> Report {
    type C3 = unsafe extern "C" fn(f64, f64, i32) -> f64;
    let lib = unsafe { dlopen(format!("{}\0", file("cdecl/release/libseuif97.so")).as_ptr(), 2) };
    let sym: Vec<usize> = ALL.iter().map(|f| if lib.is_null() { 0 } else { unsafe { dlsym(lib, format!("{}\0", f.name()).as_ptr()) as usize } }).collect();
    c.par("exports", 12, |_, m, i| { m.ensure("exported", sym[i as usize] != 0, || format!("the cdecl library does not export {}", ALL[i as usize].name()), vec![]); });
    let n = c.n(600_000, 10_000_000);
    c.par("cdecl", n, |r, m, _| {
        let (f, a, b, ids) = case(r);
        if sym[f as usize] == 0 { return; }
        let g: C3 = unsafe { std::mem::transmute(sym[f as usize]) };
        for o in ids {
            let want = m.call(f, a, b, o);
            let got = unsafe { g(a, b, o) };
            m.cnt(&format!("cdecl.{}", label(f, o)));
            judge(m, &format!("cdecl {}", f.name()), Call { f, a, b, o, r: NOREG }, got, want);
        }
        m.sample("cdecl", || format!("{}({a:?}, {b:?}, *) through libseuif97.so and through Rust", f.name()));
    });
    // every function x every id at fixed good states
    c.par("cdecl-ids", 12 * 200, |r, m, i| {
        let f = ALL[(i % 12) as usize];
        let (a, b) = if f.is_x() { let (T, x) = wet(r); let w = Wet::from_T(T, x); (w.prop(f.ins().0), x) } else { any_state(r, f) };
        if sym[f as usize] == 0 { return; }
        let g: C3 = unsafe { std::mem::transmute(sym[f as usize]) };
        for o in -1..37 { let want = m.call(f, a, b, o); let got = unsafe { g(a, b, o) }; judge(m, &format!("cdecl {}", f.name()), Call { f, a, b, o, r: NOREG }, got, want); }
    });
    let (rec, cs, lo) = records(c, "stdcall", c.n(100_000, 2_000_000), &|r| { let (f, a, b, ids) = case(r); let all = r.chance(0.05); ids.into_iter().chain(if all { 0..36 } else { 0..0 }).map(|o| (f as u32, Call { f, a, b, o, r: NOREG })).collect() });
    if !cs.is_empty() {
        let (drv, so) = (file("stdcall/i686-unknown-linux-gnu/release/ffi32"), file("stdcall/i686-unknown-linux-gnu/release/libseuif97.so"));
        let out = external(&rec, 16, c.threads, "p15", &|i, o| { let mut k = std::process::Command::new("timeout"); k.args(["500", &drv, i, o, &so]); k });
        let starts: Vec<usize> = cs.iter().scan(0, |s, k| { let b = *s; *s += k.len(); Some(b) }).collect();
        match out {
            Err((at, msg)) => { let mut m = c.out.lock().unwrap(); m.begin("stdcall", at as u64); gone(&mut m, "stdcall", &cs, at, &msg); }
            Ok(out) => c.par("stdcall", lo + cs.len() as u64, |_, m, idx| {
                let k = (idx - lo) as usize;
                for (q, (_, call)) in cs[k].iter().enumerate() {
                    let z = (starts[k] + q) * 16;
                    let (got, want) = (f64::from_le_bytes(out[z..z + 8].try_into().unwrap()), f64::from_le_bytes(out[z + 8..z + 16].try_into().unwrap()));
                    m.calls += 2; m.cnt(&format!("stdcall.{}", label(call.f, call.o)));
                    m.distinct.insert(mix(call.a.to_bits() ^ mix(call.b.to_bits())));
                    judge(m, &format!("stdcall {}", call.f.name()), *call, got, want);
                }
                m.sample("stdcall", || format!("{} in a 32-bit process", cs[k][0].1));
            }),
        }
    }
    Report { rule: "good, wet, hostile, off-range and just-beyond-limit inputs; both inputs, random and unknown ids; cdecl: libseuif97.so loaded with dlopen into the harness; stdcall: i686 build loaded by a 32-bit driver that also calls the Rust functions; non-trivial when two answers were compared".into(), assumptions: vec!["an answer that differs in the last digits is accepted when the Rust function gives it for inputs moved by round-off (64 ulps or 1e-10)".into()] }
}
pub fn p16(c: &Ctx) -> Report {
    let short: [i32; 6] = [OP, OT, OV, OH, OS, OX];
    let (rec, cs, lo) = records(c, "python", c.n(300_000, 3_000_000), &|r| {
        let (f, mut a, mut b, ids) = case(r);
        if r.chance(0.08) { a = a.round(); } if !f.is_x() && r.chance(0.08) { b = b.round(); }
        let (i, j) = f.ins();
        let mut v: Vec<(u32, Call)> = ids.into_iter().map(|o| (f as u32, Call { f, a, b, o, r: NOREG })).collect();
        for o in short { if o != i && o != j && !(f.is_x() && o == OX) { v.push((f as u32 + 256, Call { f, a, b, o, r: NOREG })); } }
        if r.chance(0.05) { for o in 0..36 { v.push((f as u32, Call { f, a, b, o, r: NOREG })); } }
        v
    });
    let (py, drv, pkg) = (std::env::var("PYO3_PYTHON").unwrap_or("/usr/bin/python3".into()), format!("{}/tools/pydrive.py", verif()), file("python/pkg"));
    let out = external(&rec, 16, c.threads, "p16", &|i, o| { let mut k = std::process::Command::new("timeout"); k.env("PYTHONDONTWRITEBYTECODE", "1").args(["500", &py, &drv, &pkg, i, o]); k });
    let starts: Vec<usize> = cs.iter().scan(0, |s, k| { let b = *s; *s += k.len(); Some(b) }).collect();
    match out {
        Err((at, msg)) => { let mut m = c.out.lock().unwrap(); m.begin("python", at as u64); gone(&mut m, "python", &cs, at, &msg); }
        Ok(out) => c.par("python", lo + cs.len() as u64, |_, m, idx| {
            let k = (idx - lo) as usize;
            for (q, (fi, call)) in cs[k].iter().enumerate() {
                let z = (starts[k] + q) * 16;
                let (got, st) = (f64::from_le_bytes(out[z..z + 8].try_into().unwrap()), u64::from_le_bytes(out[z + 8..z + 16].try_into().unwrap()));
                let name = if *fi >= 256 { format!("{}2{}", call.f.name(), NAMES[call.o as usize]) } else { call.f.name().to_string() };
                m.cnt(&if *fi >= 256 { format!("python.{name}") } else { format!("python.{}", label(call.f, call.o)) });
                let why = ["", "is not in the package", "does not return a float", "raised an exception", "answers differently when an input is written as an integer"][st as usize % 5];
                if !m.ensure(&format!("python {name} present"), st == 0, || format!("Python {name}({:?}, {:?}) {why}", call.a, call.b), vec![*call]) { continue; }
                let want = m.call(call.f, call.a, call.b, call.o);
                judge(m, &format!("python {name}"), *call, got, want);
            }
            m.sample("python", || format!("{} and its short forms in Python and in Rust", cs[k][0].1));
        }),
    }
    Report { rule: "good, wet, hostile, off-range and just-beyond-limit inputs; twelve functions with both inputs, random, all and unknown ids, and the 48 short forms; integral inputs also as Python integers; the package laid out as setup.py does, imported by the system Python; non-trivial when two answers were compared".into(), assumptions: vec!["an answer that differs in the last digits is accepted when the Rust function gives it for inputs moved by round-off (64 ulps or 1e-10)".into()] }
}
