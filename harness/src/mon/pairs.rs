//! P06, P07, P18: single-phase states given by another input pair than (p,t).
use super::single::{near_sat, sens, tol};
use crate::api::*;
use crate::core::*;
use crate::gen::*;
use crate::refm::*;
use crate::rng::*;

pub fn inputs(f: F, s: &St) -> (f64, f64) { let (i, j) = f.ins(); (s.prop(i), s.prop(j)) }
/// forward single-phase state of the reference
pub fn forward(q: &Pt0) -> St { if q.reg == 3 { reg3(1.0 / v3::v_pT(q.p, q.T), q.T) } else { pt(q.reg, q.p, q.T) } }
pub fn near_crit(p: f64, T: f64) -> bool { (p - PC).abs() < 0.35 && (T - TC).abs() < 2.5 }
/// regions a library may report for a state given by (f): the region itself, its neighbours within the
/// numerical consistency of the backward and boundary equations, and the other state that has the same inputs
pub fn allowed(f: F, s: &St, p0: f64) -> Vec<i32> {
    let mut v = vec![];
    let border = s.T > 622.9 && s.p > 16.0 && s.T < 864.0; // equations of regions 1/2 and 3 meet only within their published consistency
    let (e, k) = match f { Pv | Tv | Th | Ts if border => (5e-4, 0.02), Pv if (s.T - 1073.15).abs() < 0.2 => (1e-6, 0.1), Pt => (1e-9, 1e-9), Ph | Ps => (2e-4, 0.07), Hs => (1.5e-3, 0.07), _ => (1e-6, 1e-5) };
    for dp in [0.0, e, -e, 1e-9, -1e-9] { for dT in [0.0, k, -k, k * 0.1, -k * 0.1, 1e-9, -1e-9] {
        let (p, T) = (s.p * (1.0 + dp), s.T + dT);
        let g = region_pT(p, T);
        let g = if g == 0 { -9999 } else { g };
        if !v.contains(&g) { v.push(g); }
    } }
    if v.contains(&-9999) { // outside only beyond the true limits, by the rounding of the inputs
        let m = if (s.T - 863.15).abs() < 0.05 && matches!(f, Tv | Th | Ts) { 3e-5 } else { 1e-9 }; // regions 2 and 3 do not meet exactly at 100 MPa
        // a limit of an input itself is inclusive and exact: only the limits of the other quantity are blurred
        let inside = match f {
            Hs => s.p > PMIN * (1.0 + 1e-4) && p0 < 100.0 * (1.0 - 1e-8) && s.T > 273.15 + 1e-6 && s.T < 2273.15 - 1e-6 && !(s.T > 1073.15 - 1e-6 && p0 > 50.0 * (1.0 - 1e-8)),
            Ph | Ps | Pv => { let k = if f == Pv { 1e-6 } else { 1e-8 }; p0 >= PMIN && p0 <= 100.0 && s.T > 273.15 + k && s.T < 2273.15 - k && !(s.T > 1073.15 - k && p0 > 50.0) }
            Tv | Th | Ts => p0 > PMIN * (1.0 + 1e-5) && p0 < 100.0 * (1.0 - m) && s.T >= 273.15 && s.T <= 2273.15 && !(s.T > 1073.15 && p0 > 50.0 * (1.0 - m)),
            _ => s.p > PMIN * (1.0 + 1e-5) && p0 < 100.0 * (1.0 - m) && s.T > 273.15 + 1e-6 && s.T < 2273.15 - 1e-6 && !(s.T > 1073.15 - 1e-6 && s.p > 50.0 * (1.0 - m)),
        };
        if inside { v.retain(|g| *g != -9999); }
    }
    if s.T <= TC {
        let ps = psat(s.T);
        let d = ((s.p - ps) / ps).abs();
        let w = match f { Pt => 1e-6, _ if s.reg == 3 || (border && s.T < 625.0) => 3e-3, Hs => 3e-3, Ph | Ps => 1e-6, _ => 1e-6 };
        if d < w || (s.T > 620.0 && f == Hs && d < 1e-2) { v.push(4); if s.T > 623.0 { v.push(3); } v.push(1); v.push(2); }
        // liquid whose v, h or s does not fall monotonically with p: the same inputs also describe another state
        if s.reg == 1 && (f == Pv && s.T < 285.0 || f == Ts && s.T < 278.5 || f == Th && s.h > reg1(ps, s.T).h * (1.0 - 1e-12) - 1e-9) { v.push(4); v.push(1); }
        if s.reg == 1 && f == Pv && s.vT.abs() < 5e-8 * s.v { v.push(-9999); } // densest liquid of the isobar: round-off decides
        // least enthalpy, largest entropy of the isotherm: the same
        if s.reg == 1 && (f == Th && (s.v - s.T * s.vT).abs() < 2e-8 || f == Ts && s.vT.abs() < 5e-8 * s.v) { v.push(-9999); }
    }
    if near_crit(s.p, s.T) { for g in [3, 4] { v.push(g) } }
    v
}
/// the library's own state behind (f; a, b): p, T, v as it returns them
#[derive(Clone, Copy, Debug)]
pub struct Core { pub p: f64, pub T: f64, pub v: f64, pub reg: i32 }
pub fn core(m: &mut Mon, f: F, a: f64, b: f64, r: i32) -> Core {
    Core { p: m.call(f, a, b, OP), T: m.call(f, a, b, OT) + K0, v: m.call(f, a, b, OV), reg: r }
}
impl Core { pub fn st(&self) -> St { if self.reg == 3 { reg3(1.0 / self.v, self.T) } else { pt(self.reg, self.p, self.T) } } }

// ---------------------------------------------------------------- P06
/// published backward equations; both branches when within round-off of the switch
fn back_p(f: F, reg: i32, h: f64, s: f64) -> f64 { let _ = f; match reg { 1 => back::p_hs1(h, s), 2 => back::p_hs2(h, s), _ => back::p_hs3(h, s) } }
fn back_T(f: F, reg: i32, p: f64, y: f64) -> f64 {
    match (f, reg) { (Ph, 1) => back::T_ph1(p, y), (Ph, 2) => back::T_ph2(p, y), (Ph, _) => back::T_ph3(p, y), (Ps, 1) => back::T_ps1(p, y), (Ps, 2) => back::T_ps2(p, y), _ => back::T_ps3(p, y) }
}
fn back_v(f: F, p: f64, y: f64) -> f64 { if f == Ph { back::v_ph3(p, y) } else { back::v_ps3(p, y) } }
/// closest value of g over inputs moved by +-1e-9 (to straddle a switch), and round-off tolerance there
fn near_switch(got: f64, a: f64, b: f64, g: impl Fn(f64, f64) -> f64) -> (f64, f64) {
    let mut best = (f64::NAN, f64::INFINITY, 0.0);
    for i in [0.0, 1.0, -1.0] { for j in [0.0, 1.0, -1.0] {
        let (x, y) = (a * (1.0 + 1e-9 * i), b * (1.0 + 1e-9 * j) + 1e-12 * j);
        let w = g(x, y);
        let d = 1e-13;
        let sn = (g(x * (1.0 + d), y) - w).abs() + (g(x, y * (1.0 + d) + 1e-15) - w).abs();
        // the neighbour differs by its own slope: remove it
        let slope = if i == 0.0 && j == 0.0 { 0.0 } else { sn * 3e4 };
        let t = 1e-10 * w.abs() + 20.0 * sn + slope + 1e-13;
        let e = (got - w).abs() / t;
        if e < best.1 { best = (w, e, t); }
    } }
    if best.0.is_nan() { let w = g(a, b); return (w, 1e-9 * w.abs()); }
    (best.0, best.2)
}
/// single-phase (v,T) states around the critical point, from the fundamental equation of region 3
fn critical(r: &mut Rng) -> Option<St> {
    let T = if r.chance(0.5) { TC + r.sign() * r.tiny(1e-5, 2.6) } else { TC + r.uni(-2.6, 2.6) };
    let d = if r.chance(0.5) { 322.0 * (1.0 + r.sign() * r.tiny(1e-5, 0.5)) } else { r.uni(170.0, 480.0) };
    let T = (T - K0) + K0;
    let s = reg3(d, T);
    if T < TC + 1e-3 { let w = Wet::from_T(T.min(TC - 1e-3), 0.5); if s.v < w.g.v * 1.05 && s.v > w.l.v * 0.95 { return None; } }
    if !(s.vp < 0.0 && (s.p - PC).abs() < 0.5) { return None; }
    Some(s)
}
pub fn p06(c: &Ctx) -> Report {
    let n = c.n(600_000, 6_000_000);
    for reg in [1, 2, 3, 5] {
        let name = format!("r{reg}");
        c.par(&name, n, |r, m, _| {
            let q = state(r, reg);
            if near_sat(q.p, q.T) { m.cnt("skipped.on-saturation-line"); return; }
            let s = forward(&q);
            if s.p > 100.0 { m.cnt("skipped.region 3 state whose fundamental-equation pressure exceeds 100 MPa"); return; }
            if reg == 3 && near_crit(s.p, s.T) { m.cnt("skipped.near-critical"); return; }
            for f in [Ph, Ps, Hs] {
                let (a, b) = inputs(f, &s);
                let g = m.call(f, a, b, OR);
                let cr = Call { f, a, b, o: OR, r: NOREG };
                if g != reg as f64 {
                    let ok = allowed(f, &s, q.p);
                    m.ensure(&format!("{}-region", f.name()), ok.contains(&(g as i32)), || format!("{cr} = {g}, but the inputs are those of the region {reg} state p={:?} MPa, t={:?} C", s.p, s.T - K0), vec![cr]);
                    m.cnt(&format!("boundary states reported in a neighbouring region.{}", f.name()));
                    continue;
                }
                let k = core(m, f, a, b, reg);
                let call = |o| Call { f, a, b, o, r: NOREG };
                m.sample(&format!("{}{}", f.name(), reg), || format!("{}({a:?}, {b:?}) -> p={:?} T={:?} v={:?}; reference state p={:?} T={:?}", f.name(), k.p, k.T, k.v, s.p, s.T));
                // the published backward equation
                if reg != 5 {
                    let p = if f == Hs {
                        let (w, t) = near_switch(k.p, a, b, |x, y| back_p(f, reg, x, y));
                        m.close(&format!("equation.p(h,s)-r{reg}"), k.p, w, t, call(OP)); k.p
                    } else { a };
                    let (ff, y) = if f == Ps { (Ps, b) } else if f == Hs { (Ph, a) } else { (Ph, b) };
                    let (w, t) = near_switch(k.T, p, y, |x, y| back_T(ff, reg, x, y));
                    m.close(&format!("equation.{}T-r{reg}", f.name()), k.T, w, t + 1e-12 * w, call(OT));
                    if reg == 3 { let (w, t) = near_switch(k.v, p, y, |x, y| back_v(ff, x, y)); m.close(&format!("equation.{}v-r3", f.name()), k.v, w, t, call(OV)); }
                }
                // the state that was put in, within the numerical consistency of those equations
                let (tT, tv, tp) = match (f, reg) { (Hs, 5) => (1e-5, 1e-6, 1e-6), (_, 5) => (1e-6, 1e-8, 1e-9), (Hs, 1) => (0.03, 1e-3, 0.0), (Hs, 3) => (0.03, 1e-3, 2e-4), (Hs, _) => (0.035, 6e-4, 2e-4), (_, 3) => (0.026, 1e-3, 1e-9), _ => (0.0255, 6e-4, 1e-9) };
                m.close(&format!("recovered.{}T-r{reg}", f.name()), k.T, s.T, tT, call(OT));
                m.close(&format!("recovered.{}v-r{reg}", f.name()), k.v, s.v, s.v * tv, call(OV));
                let tp = if (f, reg) == (Hs, 1) { if s.p <= 2.5 { 0.006 * s.p + 1e-6 } else { 0.0155 } } else { s.p * tp };
                m.close(&format!("recovered.{}p-r{reg}", f.name()), k.p, s.p, tp, call(OP));
            }
        });
    }
    // near the critical point the inputs hardly fix the state: there only the equations themselves are compared
    c.par("critical", n / 4, |r, m, _| {
        let Some(s) = critical(r) else { m.cnt("skipped.two-phase or unstable"); return };
        for f in [Ph, Ps, Hs] {
            let (a, b) = inputs(f, &s);
            let own = m.call(f, a, b, OR);
            let cr = Call { f, a, b, o: OR, r: NOREG };
            m.ensure(&format!("{}-region.critical", f.name()), own == 3.0 || own == 4.0, || format!("{cr} = {own}, but the inputs are those of the region 3 state p={:?} MPa, t={:?} C", s.p, s.T - K0), vec![cr]);
            let arg = if own == 3.0 && r.chance(0.5) { NOREG } else { 3 };
            let call = |o| Call { f, a, b, o, r: arg };
            let (kp, kT, kv) = (m.callr(f, a, b, OP, arg), m.callr(f, a, b, OT, arg) + K0, m.callr(f, a, b, OV, arg));
            m.sample(&format!("critical.{}", f.name()), || format!("{}({a:?}, {b:?}, region {arg}) -> p={kp:?} T={kT:?} v={kv:?}", f.name()));
            let p = if f == Hs { let (w, t) = near_switch(kp, a, b, |x, y| back_p(f, 3, x, y)); m.close("critical.p(h,s)", kp, w, t, call(OP)); kp } else { a };
            let (ff, y) = if f == Ps { (Ps, b) } else if f == Hs { (Ph, a) } else { (Ph, b) };
            let (w, t) = near_switch(kT, p, y, |x, y| back_T(ff, 3, x, y)); m.close(&format!("critical.{}T", f.name()), kT, w, t + 1e-12 * w, call(OT));
            let (w, t) = near_switch(kv, p, y, |x, y| back_v(ff, x, y)); m.close(&format!("critical.{}v", f.name()), kv, w, t, call(OV));
        }
    });
    Report { rule: "forward (p,t) states of the reference (all generation modes of P01) turned into (p,h), (p,s), (h,s); non-trivial if a region or property verdict was reached; states within 1.1e-6 of the saturation pressure, and for region 3 within 0.35 MPa and 2.5 K of the critical point, only the equations themselves are compared (stream critical)".into(), assumptions: vec!["reference backward equations as in the self-test".into(), "recovery tolerances are the numerical-consistency bounds of the IAPWS backward equations".into()] }
}
// ---------------------------------------------------------------- P07
pub fn p07(c: &Ctx) -> Report {
    let n = c.n(1_000_000, 10_000_000);
    for reg in [1, 2, 3, 5] {
        let name = format!("r{reg}");
        c.par(&name, n, |r, m, _| {
            let q = state(r, reg);
            if near_sat(q.p, q.T) { m.cnt("skipped.on-saturation-line"); return; }
            let s = forward(&q);
            if s.p < PMIN || s.p > 100.0 { m.cnt("skipped.region 3 state whose fundamental-equation pressure exceeds 100 MPa"); return; }
            if reg == 3 && near_crit(s.p, s.T) { m.cnt("skipped.near-critical"); return; }
            for f in [Pv, Tv, Th, Ts] {
                let (a, b) = inputs(f, &s);
                let g = m.call(f, a, b, OR);
                let cr = Call { f, a, b, o: OR, r: NOREG };
                if g != reg as f64 {
                    let ok = allowed(f, &s, q.p);
                    m.ensure(&format!("{}-region", f.name()), ok.contains(&(g as i32)), || format!("{cr} = {g}, but the inputs are those of the region {reg} state p={:?} MPa, t={:?} C", s.p, s.T - K0), vec![cr]);
                    m.cnt(&format!("boundary states reported in a neighbouring region.{}", f.name()));
                    continue;
                }
                let k = core(m, f, a, b, reg);
                let z = k.st();
                let call = |o| Call { f, a, b, o, r: NOREG };
                m.sample(&format!("{}{}", f.name(), reg), || format!("{}({a:?}, {b:?}) -> p={:?} T={:?} v={:?}; put in p={:?} T={:?}", f.name(), k.p, k.T, k.v, s.p, s.T));
                m.ensure(&format!("{}-in-range", f.name()), k.p > 0.99 * PMIN && k.p < 100.001 && k.T > 273.1499 && k.T < 2273.1501, || format!("{} describes p={:?} MPa T={:?} K, outside the range of validity", call(OP), k.p, k.T), vec![call(OP), call(OT)]);
                // both inputs are reproduced by the returned state
                let (i, j) = f.ins();
                for (o, y) in [(i, a), (j, b)] {
                    let t = match o {
                        OV => if f == Pv && reg == 2 { 1e-7 * y + 3e-8 } else { 1e-8 * y },
                        OH => 1e-6 + 5e-8 * (1e3 * (s.v - s.T * s.vT)).abs(), OS => 1.2e-8 + 2e-7 * (1e3 * s.vT).abs(),
                        OP => 1e-9 * y, _ => 1e-9,
                    } + sens(&z, o);
                    if o == OP && reg == 3 { m.close(&format!("residual.{}-p-r3", f.name()), z.p, y, 1e-8 + 1e-9 * y, call(OT)); continue; }
                    m.close(&format!("residual.{}-{}-r{reg}", f.name(), NAMES[o as usize]), z.prop(o), y, t, call(o));
                }
                // where the inputs fix the state, it is the one put in
                let unique = !(reg == 1 && (f == Pv && s.T < 285.0 || f == Ts && s.T < 278.5 || f == Th)) ;
                if unique {
                    let dp = match f { Tv | Th | Ts => 1e-7 + 1e-8 * s.p, _ => 1e-12 };
                    // error bars of an input solved to the tolerances above
                    let (vp, vT) = (s.vp.abs(), s.vT.abs());
                    let (tp, tT) = match f {
                        Tv => (1e-8 * s.v / vp * 1.5, 1e-9),
                        Pv => (1e-12, (if reg == 2 { 3e-8 + 1e-7 * s.v } else { 1e-8 * s.v }) / vT * 1.5 + 1e-6 + if reg == 3 { (1e-8 + 1e-9 * s.p) * vp / vT * 1.5 } else { 0.0 }),
                        Th => { let d = (1e3 * (s.v - s.T * s.vT)).abs(); ((1e-7 / d) * 1.5 + dp, 1e-9) }
                        _ => { let d = 1e3 * s.vT.abs(); ((1e-7 / d) * 1.5 + dp, 1e-9) }
                    };
                    m.close(&format!("recovered.{}-p-r{reg}", f.name()), k.p, s.p, tp, call(OP));
                    m.close(&format!("recovered.{}-T-r{reg}", f.name()), k.T, s.T, tT, call(OT));
                }
            }
        });
    }
    // near the critical point: what is returned has the given inputs, whatever region is named
    c.par("critical", n / 4, |r, m, _| {
        let Some(s) = critical(r) else { m.cnt("skipped.two-phase or unstable"); return };
        for f in [Pv, Tv, Th, Ts] {
            let (a, b) = inputs(f, &s);
            let own = m.call(f, a, b, OR);
            let cr = Call { f, a, b, o: OR, r: NOREG };
            m.ensure(&format!("{}-region.critical", f.name()), own == 3.0 || own == 4.0, || format!("{cr} = {own}, but the inputs are those of the region 3 state p={:?} MPa, t={:?} C", s.p, s.T - K0), vec![cr]);
            let arg = if own == 3.0 && r.chance(0.7) { NOREG } else { 3 };
            let call = |o| Call { f, a, b, o, r: arg };
            let (kp, kT, kv) = (m.callr(f, a, b, OP, arg), m.callr(f, a, b, OT, arg) + K0, m.callr(f, a, b, OV, arg));
            let z = reg3(1.0 / kv, kT);
            m.sample(&format!("critical.{}", f.name()), || format!("{}({a:?}, {b:?}, region {arg}) -> p={kp:?} T={kT:?} v={kv:?}", f.name()));
            let (i, j) = f.ins();
            for (o, y) in [(i, a), (j, b)] {
                let t = match o { OH => 1e-6 + 1e-7 * y.abs(), OS => 1e-7, _ => 1e-8 * y.abs() };
                m.close(&format!("critical.{}-{}", f.name(), NAMES[o as usize]), z.prop(o), y, t, call(o));
            }
            m.close(&format!("critical.{}-p-of-state", f.name()), kp, z.p, 1e-8 * z.p, call(OP));
        }
    });
    Report { rule: "forward (p,t) states of the reference (all generation modes of P01) turned into (p,v), (t,v), (t,h), (t,s); non-trivial if a region or property verdict was reached; region 3 within 0.35 MPa and 2.5 K of the critical point only residuals are judged (stream critical)".into(), assumptions: vec!["reference model as in P01".into()] }
}
// ---------------------------------------------------------------- P18
const SKIP: [i32; 4] = [OP, OT, OX, OR];
pub fn p18(c: &Ctx) -> Report {
    let n = c.n(60_000, 600_000);
    for reg in [1, 2, 3, 5] {
        let name = format!("r{reg}");
        c.par(&name, n, |r, m, _| {
            let q = state(r, reg);
            if near_sat(q.p, q.T) { m.cnt("skipped.on-saturation-line"); return; }
            let s = forward(&q);
            for f in [Ph, Ps, Hs, Pv, Tv, Th, Ts] {
                let (a, b) = inputs(f, &s);
                let (i, j) = f.ins();
                for (o, y) in [(i, a), (j, b)] {
                    let e = m.call(f, a, b, o);
                    m.close(&format!("echo.{}", f.name()), e, y, if o == OT { 2e-12 } else { 0.0 } + 1e-300, Call { f, a, b, o, r: NOREG });
                }
                let g = m.call(f, a, b, OR) as i32;
                if ![1, 2, 3, 5].contains(&g) { m.cnt("not single phase for the library"); continue; }
                if g == 1 || g == 2 || g == 5 {
                    let x = m.call(f, a, b, OX);
                    m.close(&format!("quality.{}", f.name()), x, if g == 1 { 0.0 } else { 1.0 }, 1e-300, Call { f, a, b, o: OX, r: NOREG });
                }
                let k = core(m, f, a, b, g);
                let z = k.st();
                m.sample(&format!("{}-{g}", f.name()), || format!("{}({a:?}, {b:?}, *) all describe p={:?} T={:?} v={:?}", f.name(), k.p, k.T, k.v));
                m.cnt(&format!("states.{}-r{g}", f.name()));
                if !(z.vp < 0.0) || !(z.cp > 0.0) { m.cnt("skipped.beyond the stability limit (region 3 backward equation near critical)"); continue; }
                // p and T of one state (region 3: p is the fundamental equation's, within the backward equations' consistency)
                if g != 3 {
                    let rp = if f == Pv && g == 2 { 1e-7 * z.v + 4e-8 } else if i == OV || j == OV { 2e-8 * z.v } else { tol(&z, OV) };
                    // equations 2 and 5 meet at 800 C only to ~1e-6: a volume between the two is answered with 800 C
                    let rp = rp + if (z.T - 1073.15).abs() < 0.02 { (reg2(z.p, 1073.15).v - reg5(z.p, 1073.15).v).abs() } else { 0.0 };
                    m.close(&format!("one-state.{}-v-r{g}", f.name()), k.v, z.v, rp, Call { f, a, b, o: OV, r: NOREG });
                } else if !near_crit(k.p, k.T) {
                    m.close(&format!("one-state.{}-p-r3", f.name()), k.p, z.p, k.p * if matches!(f, Ph | Ps | Hs) { 1.5e-2 } else { 1e-5 }, Call { f, a, b, o: OP, r: NOREG });
                }
                for o in 0..36 {
                    if SKIP.contains(&o) || o == i || o == j { continue; }
                    if o == OV && g != 3 { continue; }
                    let got = m.call(f, a, b, o);
                    let t = tol(&z, o);
                    m.close(&format!("one-state.{}-r{g}", NAMES[o as usize]), got, z.prop(o), t, Call { f, a, b, o, r: NOREG });
                }
            }
        });
    }
    Report { rule: "single-phase states by seven input pairs; every property id is compared with the reference evaluated at the p, T (region 3: v, T) that the same call returns".into(), assumptions: vec!["reference model as in P01".into()] }
}
