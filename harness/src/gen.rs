//! Workload generators. Every generator returns inputs together with the reference's view of them.
#![allow(non_snake_case)]
use crate::refm::*;
use crate::rng::*;

/// one single-phase point given to the library as (p, t in Celsius); T is what the library sees
#[derive(Clone, Copy, Debug)]
pub struct Pt0 { pub reg: i32, pub p: f64, pub t: f64, pub T: f64, pub mode: &'static str }
fn mk(reg: i32, p: f64, T: f64, mode: &'static str) -> Pt0 { let t = T - 273.15; Pt0 { reg, p, t, T: t + 273.15, mode } }
pub fn pmax2(T: f64) -> f64 { if T <= 623.15 { psat(T) } else if T <= 863.15 { b23_p(T) } else { 100.0 } }
pub fn t_range(reg: i32) -> (f64, f64) { match reg { 1 => (273.15, 623.15), 2 => (273.15, 1073.15), 3 => (623.15, 863.15), _ => (1073.15, 2273.15) } }
pub fn p_range(reg: i32, T: f64) -> (f64, f64) { match reg { 1 => (psat(T), 100.0), 2 => (PMIN, pmax2(T)), 3 => (b23_p(T), 100.0), _ => (PMIN, 50.0) } }
pub const ROUND_P: [f64; 34] = [0.001, 0.0035, 0.005, 0.01, 0.05, 0.1, 0.101325, 0.2, 0.5, 1.0, 1.5, 2.0, 2.5, 3.0, 4.0, 5.0, 6.0, 8.0, 10.0, 12.0, 15.0, 16.0, 16.53, 17.0, 20.0, 22.0, 22.064, 23.0, 25.0, 30.0, 40.0, 50.0, 80.0, 100.0];
/// pressures where some published formulation switches
pub fn p_marks() -> [f64; 20] { let p643 = psat(643.15); [PMIN, 1.0, 4.0, 6.54670, 16.5291642526045, 16.53, 19.00881189173929, 20.5, p643, 21.90096265, 21.93161551, 22.064, 22.11, 22.5, 23.0, 23.5, 25.0, 40.0, 50.0, 100.0] }
/// point in region `reg`; exact region membership is left to the caller (`regs`)
pub fn state(r: &mut Rng, reg: i32) -> Pt0 {
    let (ta, tb) = t_range(reg);
    for _ in 0..200 {
        let m = r.below(100);
        let q = if reg == 3 && m < 55 { state3(r) } else if m < 25 {
            let T = r.uni(ta, tb); let (a, b) = p_range(reg, T); mk(reg, r.uni(a, b), T, "uniform")
        } else if m < 50 {
            let T = r.uni(ta, tb); let (a, b) = p_range(reg, T); mk(reg, r.log(a, b.max(a * 1.0000001)), T, "log-p")
        } else if m < 62 {
            let T = r.uni(ta, tb); let (a, b) = p_range(reg, T); let e = r.tiny(1e-15, 0.1);
            mk(reg, if r.chance(0.5) { a * (1.0 + e) } else { b * (1.0 - e) }, T, "p-edge")
        } else if m < 72 {
            let e = r.tiny(1e-14, 1.0) * 10.0;
            let T = if r.chance(0.5) { ta + e } else { tb - e }; let (a, b) = p_range(reg, T); mk(reg, r.log(a, b.max(a * 1.0000001)), T, "T-edge")
        } else if m < 84 {
            let t = r.int((ta - 273.15).ceil() as i64, (tb - 273.15).floor() as i64) as f64; let p = r.pick(&ROUND_P);
            Pt0 { reg, p, t, T: t + 273.15, mode: "round" }
        } else if m < 92 {
            let p = r.pick(&p_marks()) * (1.0 + r.pick(&[0.0, 0.0, 1.0, -1.0]) * r.tiny(1e-15, 1e-3)); let T = r.uni(ta, tb); mk(reg, p, T, "p-mark")
        } else if m < 96 {
            // where a backward equation, sub-region or saturation formula switches
            let T = r.pick(&[273.15, 273.16, 277.13, 298.15, 300.0, 373.15, 500.0, 523.15, 554.485, 573.15, 600.0, 623.15, 643.15, 647.096, 650.0, 748.0, 750.0, 823.15, 863.15, 873.15, 1073.15, 1273.15, 1500.0, 2000.0, 2273.15]) + r.pick(&[0.0, 0.0, 1.0, -1.0]) * r.tiny(1e-12, 1e-2);
            let T = T.clamp(ta, tb); let (a, b) = p_range(reg, T); mk(reg, r.log(a, b.max(a * 1.0000001)), T, "T-mark")
        } else {
            let T = r.pick(&[ta, tb]); let (a, b) = p_range(reg, T); let p = r.pick(&[a, b]);
            mk(reg, p, T, "corner")
        };
        if region_pT(q.p, q.T) == reg { return if q.t == 0.0 && r.chance(0.3) { Pt0 { t: -0.0, ..q } } else { q }; }
    }
    let T = 0.5 * (ta + tb); let (a, b) = p_range(reg, T); mk(reg, 0.5 * (a + b), T, "fallback")
}
const B3: [&str; 12] = ["ab", "cd", "gh", "ij", "jk", "mn", "qu", "rx", "uv", "op", "wx", "ef"];
/// region 3, weighted so that all 26 published sub-regions and their edges are hit
pub fn state3(r: &mut Rng) -> Pt0 {
    let p643 = psat(643.15);
    let bands = [(16.5291643, 19.00881189173929), (19.00881189173929, 20.5), (20.5, p643), (p643, 21.90096265), (21.90096265, 21.93161551), (21.93161551, PC), (PC, 22.11), (22.11, 22.5), (22.5, 23.0), (23.0, 23.5), (23.5, 25.0), (25.0, 40.0), (40.0, 100.0)];
    let (a, b) = r.pick(&bands);
    let p = match r.below(6) { 0 => a + (b - a) * r.tiny(1e-14, 1.0), 1 => b - (b - a) * r.tiny(1e-14, 1.0), _ => r.uni(a, b) };
    let (ta, tb) = (623.15, b23_T(p).min(863.15));
    let mut ks: Vec<f64> = B3.iter().map(|b| v3::tb(b, p)).filter(|t| *t > ta && *t < tb).collect();
    if p < PC { ks.push(tsat(p)); }
    ks.push(ta); ks.push(tb); ks.sort_by(|x, y| x.partial_cmp(y).unwrap());
    if r.chance(0.1) { // near critical
        let e = r.tiny(1e-9, 3.0); let e2 = r.tiny(1e-9, 1.0);
        return mk(3, PC + r.sign() * e2, TC + r.sign() * e, "r3-critical");
    }
    let i = r.below(ks.len() as u64 - 1) as usize;
    let w = ks[i + 1] - ks[i];
    match r.below(4) { 0 => mk(3, p, ks[i] + w * r.tiny(1e-13, 1.0), "r3-cell-lo"), 1 => mk(3, p, ks[i + 1] - w * r.tiny(1e-13, 1.0), "r3-cell-hi"), _ => mk(3, p, ks[i] + w * r.f(), "r3-cell") }
}
/// candidate single-phase evaluations within relative distance `e` of a switch of the published formulation:
/// at a switch either neighbouring equation is acceptable
pub fn cands(p: f64, T: f64, e: f64) -> Vec<St> {
    let mut out: Vec<St> = vec![];
    let mut seen: Vec<(i32, char)> = vec![];
    for dp in [0.0, e, -e] { for dT in [0.0, e, -e] {
        let (pp, tt) = (p * (1.0 + dp), T * (1.0 + dT));
        let g = region_pT(pp, tt);
        if g == 0 { continue; }
        let sub = if g == 3 { v3::sub(pp, tt) } else { ' ' };
        if seen.contains(&(g, sub)) { continue; }
        seen.push((g, sub));
        if g == 3 { let v = v3::v_sub(sub, p, T); if v.is_finite() && v > 0.0 { out.push(reg3(1.0 / v, T)); } } else { out.push(pt(g, p, T)); }
    } }
    out
}
