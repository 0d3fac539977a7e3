//! Region 3 v(p,T): IAPWS SR5-05.
use super::tables::*;
use super::{psat, tsat, PC, TC};
struct P { ps: f64, ts: f64, vs: f64, a: f64, b: f64, c: f64, d: f64, e: f64 }
fn par(r: char) -> (P, &'static [(f64, f64, f64)]) {
    match r {
        'a' => (P { ps: 100.0, ts: 760.0, vs: 0.0024, a: 0.085, b: 0.817, c: 1.0, d: 1.0, e: 1.0 }, &PT2V_3A__IJN),
        'b' => (P { ps: 100.0, ts: 860.0, vs: 0.0041, a: 0.280, b: 0.779, c: 1.0, d: 1.0, e: 1.0 }, &PT2V_3B__IJN),
        'c' => (P { ps: 40.0, ts: 690.0, vs: 0.0022, a: 0.259, b: 0.903, c: 1.0, d: 1.0, e: 1.0 }, &PT2V_3C__IJN),
        'd' => (P { ps: 40.0, ts: 690.0, vs: 0.0029, a: 0.559, b: 0.939, c: 1.0, d: 1.0, e: 4.0 }, &PT2V_3D__IJN),
        'e' => (P { ps: 40.0, ts: 710.0, vs: 0.0032, a: 0.587, b: 0.918, c: 1.0, d: 1.0, e: 1.0 }, &PT2V_3E__IJN),
        'f' => (P { ps: 40.0, ts: 730.0, vs: 0.0064, a: 0.587, b: 0.891, c: 0.5, d: 1.0, e: 4.0 }, &PT2V_3F__IJN),
        'g' => (P { ps: 25.0, ts: 660.0, vs: 0.0027, a: 0.872, b: 0.971, c: 1.0, d: 1.0, e: 4.0 }, &PT2V_3G__IJN),
        'h' => (P { ps: 25.0, ts: 660.0, vs: 0.0032, a: 0.898, b: 0.983, c: 1.0, d: 1.0, e: 4.0 }, &PT2V_3H__IJN),
        'i' => (P { ps: 25.0, ts: 660.0, vs: 0.0041, a: 0.910, b: 0.984, c: 0.5, d: 1.0, e: 4.0 }, &PT2V_3I__IJN),
        'j' => (P { ps: 25.0, ts: 670.0, vs: 0.0054, a: 0.875, b: 0.964, c: 0.5, d: 1.0, e: 4.0 }, &PT2V_3J__IJN),
        'k' => (P { ps: 25.0, ts: 680.0, vs: 0.0077, a: 0.802, b: 0.935, c: 1.0, d: 1.0, e: 1.0 }, &PT2V_3K__IJN),
        'l' => (P { ps: 24.0, ts: 650.0, vs: 0.0026, a: 0.908, b: 0.989, c: 1.0, d: 1.0, e: 4.0 }, &PT2V_3L__IJN),
        'm' => (P { ps: 23.0, ts: 650.0, vs: 0.0028, a: 1.0, b: 0.997, c: 1.0, d: 0.25, e: 1.0 }, &PT2V_3M__IJN),
        'n' => (P { ps: 23.0, ts: 650.0, vs: 0.0031, a: 0.976, b: 0.997, c: 1.0, d: 1.0, e: 0.0 }, &PT2V_3N__IJN),
        'o' => (P { ps: 23.0, ts: 650.0, vs: 0.0034, a: 0.974, b: 0.996, c: 0.5, d: 1.0, e: 1.0 }, &PT2V_3O__IJN),
        'p' => (P { ps: 23.0, ts: 650.0, vs: 0.0041, a: 0.972, b: 0.997, c: 0.5, d: 1.0, e: 1.0 }, &PT2V_3P__IJN),
        'q' => (P { ps: 23.0, ts: 650.0, vs: 0.0022, a: 0.848, b: 0.983, c: 1.0, d: 1.0, e: 4.0 }, &PT2V_3Q__IJN),
        'r' => (P { ps: 23.0, ts: 650.0, vs: 0.0054, a: 0.874, b: 0.982, c: 1.0, d: 1.0, e: 1.0 }, &PT2V_3R__IJN),
        's' => (P { ps: 21.0, ts: 640.0, vs: 0.0022, a: 0.886, b: 0.990, c: 1.0, d: 1.0, e: 4.0 }, &PT2V_3S__IJN),
        't' => (P { ps: 20.0, ts: 650.0, vs: 0.0088, a: 0.803, b: 1.02, c: 1.0, d: 1.0, e: 1.0 }, &PT2V_3T__IJN),
        'u' => (P { ps: 23.0, ts: 650.0, vs: 0.0026, a: 0.902, b: 0.988, c: 1.0, d: 1.0, e: 1.0 }, &PT2V_3U__IJN),
        'v' => (P { ps: 23.0, ts: 650.0, vs: 0.0031, a: 0.960, b: 0.995, c: 1.0, d: 1.0, e: 1.0 }, &PT2V_3V__IJN),
        'w' => (P { ps: 23.0, ts: 650.0, vs: 0.0039, a: 0.959, b: 0.995, c: 1.0, d: 1.0, e: 4.0 }, &PT2V_3W__IJN),
        'x' => (P { ps: 23.0, ts: 650.0, vs: 0.0049, a: 0.910, b: 0.988, c: 1.0, d: 1.0, e: 1.0 }, &PT2V_3X__IJN),
        'y' => (P { ps: 22.0, ts: 650.0, vs: 0.0031, a: 0.996, b: 0.994, c: 1.0, d: 1.0, e: 4.0 }, &PT2V_3Y__IJN),
        'z' => (P { ps: 22.0, ts: 650.0, vs: 0.0038, a: 0.993, b: 0.994, c: 1.0, d: 1.0, e: 4.0 }, &PT2V_3Z__IJN),
        _ => panic!("no sub-region {r}"),
    }
}
/// the equation of one sub-region
pub fn v_sub(r: char, p: f64, T: f64) -> f64 {
    let (q, t) = par(r);
    let (x, y) = (p / q.ps - q.a, T / q.ts - q.b);
    let x = if q.c == 1.0 { x } else { x.powf(q.c) };
    let y = if q.d == 1.0 { y } else { y.powf(q.d) };
    let s: f64 = t.iter().map(|&(i, j, n)| n * x.powi(i as i32) * y.powi(j as i32)).sum();
    if r == 'n' { q.vs * s.exp() } else { q.vs * s.powf(q.e) }
}
fn bp(p: f64, n: &[f64], i: &[f64]) -> f64 { (1..n.len()).map(|k| n[k] * p.powi(i[k] as i32)).sum() }
pub fn tb(b: &str, p: f64) -> f64 {
    let l = p.ln();
    match b {
        "ab" => bp(l, &T_ATREGIONBOUNDARY__N3AB, &T_ATREGIONBOUNDARY__I3AB),
        "op" => bp(l, &T_ATREGIONBOUNDARY__N3OP, &T_ATREGIONBOUNDARY__I3OP),
        "wx" => bp(l, &T_ATREGIONBOUNDARY__N3WX, &T_ATREGIONBOUNDARY__I3WX),
        "cd" => bp(p, &T_ATREGIONBOUNDARY__N3CD, &T_ATREGIONBOUNDARY__I3CD),
        "gh" => bp(p, &T_ATREGIONBOUNDARY__N3GH, &T_ATREGIONBOUNDARY__I3GH),
        "ij" => bp(p, &T_ATREGIONBOUNDARY__N3IJ, &T_ATREGIONBOUNDARY__I3IJ),
        "jk" => bp(p, &T_ATREGIONBOUNDARY__N3JK, &T_ATREGIONBOUNDARY__I3JK),
        "mn" => bp(p, &T_ATREGIONBOUNDARY__N3MN, &T_ATREGIONBOUNDARY__I3MN),
        "qu" => bp(p, &T_ATREGIONBOUNDARY__N3QU, &T_ATREGIONBOUNDARY__I3QU),
        "rx" => bp(p, &T_ATREGIONBOUNDARY__N3RX, &T_ATREGIONBOUNDARY__I3RX),
        "uv" => bp(p, &T_ATREGIONBOUNDARY__N3UV, &T_ATREGIONBOUNDARY__I3UV),
        "ef" => 3.727888004 * (p - PC) + TC,
        _ => panic!(),
    }
}
fn pick(p: f64, T: f64, rows: &[(&str, char)], last: char) -> char {
    for &(b, r) in rows { if T <= tb(b, p) { return r; } }
    last
}
/// sub-region of (p,T) in region 3
pub fn sub(p: f64, T: f64) -> char {
    let p643 = psat(643.15);
    if p > 40.0 { pick(p, T, &[("ab", 'a')], 'b') }
    else if p > 25.0 { pick(p, T, &[("cd", 'c'), ("ab", 'd'), ("ef", 'e')], 'f') }
    else if p > 23.5 { pick(p, T, &[("cd", 'c'), ("gh", 'g'), ("ef", 'h'), ("ij", 'i'), ("jk", 'j')], 'k') }
    else if p > 23.0 { pick(p, T, &[("cd", 'c'), ("gh", 'l'), ("ef", 'h'), ("ij", 'i'), ("jk", 'j')], 'k') }
    else if p > 22.5 { pick(p, T, &[("cd", 'c'), ("gh", 'l'), ("mn", 'm'), ("ef", 'n'), ("op", 'o'), ("ij", 'p'), ("jk", 'j')], 'k') }
    else if p > p643 {
        if T <= tb("cd", p) { return 'c'; }
        if T <= tb("qu", p) { return 'q'; }
        if T > tb("jk", p) { return 'k'; }
        if T > tb("rx", p) { return 'r'; }
        if p > 22.11 { pick(p, T, &[("uv", 'u'), ("ef", 'v'), ("wx", 'w')], 'x') }
        else if p > PC { pick(p, T, &[("uv", 'u'), ("ef", 'y'), ("wx", 'z')], 'x') }
        else if T <= tsat(p) { if p > 21.93161551 && T > tb("uv", p) { 'y' } else { 'u' } }
        else if p > 21.90096265 && T <= tb("wx", p) { 'z' } else { 'x' }
    }
    else if p > 20.5 { if T <= tb("cd", p) { 'c' } else if T <= tsat(p) { 's' } else if T <= tb("jk", p) { 'r' } else { 'k' } }
    else if p > 19.00881189173929 { if T <= tb("cd", p) { 'c' } else if T <= tsat(p) { 's' } else { 't' } }
    else if T <= tsat(p) { 'c' } else { 't' }
}
pub fn v_pT(p: f64, T: f64) -> f64 { v_sub(sub(p, T), p, T) }
/// sub-region whose equation gives the saturated volume
pub fn sat_sub(p: f64, vapour: bool) -> char {
    let p643 = psat(643.15);
    if !vapour { if p <= 19.00881189173929 { 'c' } else if p <= p643 { 's' } else if p <= 21.93161551 { 'u' } else { 'y' } }
    else if p <= 20.5 { 't' } else if p <= p643 { 'r' } else if p <= 21.90096265 { 'x' } else { 'z' }
}
pub fn v_sat(p: f64, T: f64, vapour: bool) -> f64 {
    if (p - PC).abs() < 1e-6 || (T - TC).abs() < 1e-6 { return 1.0 / 322.0; }
    v_sub(sat_sub(p, vapour), p, T)
}
/// pressures at which the saturated-volume equation changes
pub fn sat_switches() -> [f64; 6] { [19.00881189173929, psat(643.15), 21.93161551, 20.5, 21.90096265, 22.064] }
