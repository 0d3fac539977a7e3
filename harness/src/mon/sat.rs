//! P08, P09: the saturation line and wet steam.
use super::region::{allowed_wet, is_code, wet};
use super::single::tol;
use crate::api::*;
use crate::core::*;
use crate::refm::*;
use crate::rng::*;

/// within 5e-6 of a pressure where the published saturated-volume equation changes (the library rounds these)
pub fn at_switch(p: f64) -> bool { sat_sw().iter().any(|q| ((p - q) / q).abs() < 5e-6) }
fn sat_sw() -> [f64; 7] { let s = v3::sat_switches(); [s[0], s[1], s[2], s[3], s[4], s[5], 16.5291642526045] }
fn sat_t(r: &mut Rng) -> f64 {
    match r.below(12) {
        0 => r.tiny(1e-9, 1.0), 1 => TC - K0 - r.tiny(2e-5, 30.0), 2 => 350.0 + r.sign() * r.tiny(1e-9, 1.0), 3 => r.int(0, 373) as f64, 4 | 5 => r.uni(347.0, 373.94),
        6 => { let p = r.pick(&sat_sw()) * (1.0 + r.sign() * r.tiny(1e-6, 1e-2)); tsat(p.min(22.0639)) - K0 } 7 => r.pick(&[0.01, 5.0, 25.0, 99.974, 100.0, 250.0, 300.0, 349.99, 350.0, 370.0]), _ => r.uni(0.0, 373.94),
    }
}
fn sat_tol(s: &St, o: i32) -> f64 { if s.reg == 3 && s.T > 645.0 { 30.0 * tol(s, o) } else { 3.0 * tol(s, o) } }
/// every single-phase property of a saturated state
fn judge_sat(m: &mut Mon, f: F, a: f64, x: f64, s: &St, p: f64, T: f64) {
    for o in 0..36 {
        let c = Call { f, a, b: x, o, r: NOREG };
        if o == OR { continue; }
        let y = m.call(f, a, x, o);
        let (w, t) = match o { OP => (p, 1e-11 * p), OT => (T - K0, 1e-8), OX => (x, 1e-300), _ => (s.prop(o), sat_tol(s, o)) };
        m.close(&format!("{}.{}-r{}", f.name(), NAMES[o as usize], s.reg), y, w, t, c);
    }
}
pub fn p08(c: &Ctx) -> Report {
    let n = c.n(300_000, 4_000_000);
    c.par("line", n, |r, m, _| {
        let t = sat_t(r).clamp(0.0, 373.9459);
        let T = t + 273.15;
        let p = psat(T);
        if at_switch(p) || T > TC - 1.1e-5 { m.cnt("skipped.at a switch of the saturated-volume equations"); return; }
        let (p1, t1) = (m.call(Tx, t, 0.0, OP), m.call(Px, p, 0.0, OT));
        m.close("psat", p1, p, 1e-11 * p, Call { f: Tx, a: t, b: 0.0, o: OP, r: NOREG });
        m.close("tsat", t1, tsat(p) - K0, 1e-9, Call { f: Px, a: p, b: 0.0, o: OT, r: NOREG });
        // one line whichever way it is read
        for x in [0.0, 1.0] {
            let ps = m.call(Tx, t, x, OP);
            let c = Call { f: Px, a: ps, b: x, o: OT, r: NOREG };
            let t2 = m.call(Px, ps, x, OT);
            m.close("inverse", t2, t, 2e-8, c);
        }
        let l = if T <= 623.15 { (reg1(p, T), reg2(p, T)) } else { (reg3(1.0 / v3::v_sat(p, T, false), T), reg3(1.0 / v3::v_sat(p, T, true), T)) };
        let zero = if r.chance(0.1) { -0.0 } else { 0.0 };
        judge_sat(m, Tx, t, zero, &l.0, p, T);
        judge_sat(m, Tx, t, 1.0, &l.1, p, T);
        let Tp = tsat(p);
        let k = if p <= 16.5291642526045 { (reg1(p, Tp), reg2(p, Tp)) } else { (reg3(1.0 / v3::v_sat(p, Tp, false), Tp), reg3(1.0 / v3::v_sat(p, Tp, true), Tp)) };
        if (T - 623.15).abs() > 1e-7 { judge_sat(m, Px, p, zero, &k.0, p, Tp); judge_sat(m, Px, p, 1.0, &k.1, p, Tp); }
        m.cnt(if T <= 623.15 { "saturated states of regions 1 and 2" } else { "saturated states of region 3" });
        m.sample("line", || format!("t={t:?} C p={p:?} MPa: all property ids of saturated liquid and steam by tx and px"));
        // phase equilibrium on the library's own values
        let g = |m: &mut Mon, o: i32, x: f64| m.call(Tx, t, x, o);
        let (gl, gv) = (g(m, OG, 0.0), g(m, OG, 1.0));
        let band = if T <= 623.15 { 0 } else if T < 646.5 { 1 } else { 2 };
        m.close(&format!("equal-gibbs-{band}"), gv, gl, [0.03, 0.06, 0.12][band], Call { f: Tx, a: t, b: 1.0, o: OG, r: NOREG });
        let (vl, vv, hl, hv, sl, sv) = (g(m, OV, 0.0), g(m, OV, 1.0), g(m, OH, 0.0), g(m, OH, 1.0), g(m, OS, 0.0), g(m, OS, 1.0));
        m.ensure("steam-above-liquid", vv > vl && hv > hl && sv > sl, || format!("at t={t:?} C: v'={vl:?} v''={vv:?} h'={hl:?} h''={hv:?} s'={sl:?} s''={sv:?}"), vec![Call { f: Tx, a: t, b: 1.0, o: OV, r: NOREG }]);
        m.close(&format!("latent-{band}"), (sv - sl) * T, hv - hl, [0.03, 0.06, 0.12][band], Call { f: Tx, a: t, b: 1.0, o: OS, r: NOREG });
        if T < 646.0 {
            let e = 1e-3;
            let (pa, pb) = (m.call(Tx, t + e, 0.0, OP), m.call(Tx, (t - e).max(0.0), 0.0, OP));
            let d = (pa - pb) / ((t + e) - (t - e).max(0.0));
            m.ensure("psat-increases", d > 0.0, || format!("saturation pressure does not rise with temperature at t={t:?} C"), vec![Call { f: Tx, a: t, b: 0.0, o: OP, r: NOREG }]);
            m.close(&format!("clapeyron-{band}"), d * (vv - vl) * 1e3, sv - sl, [1.2e-3, 1e-2, 1e-2][band] * (sv - sl), Call { f: Tx, a: t, b: 1.0, o: OV, r: NOREG });
        }
    });
    // the end of the line: the critical point itself, and the last few micropascals and microkelvins before it
    c.par("critical-end", (n / 20).max(2000), |r, m, _| {
        let x = r.pick(&[0.0, 1.0]);
        let tc = TC - K0;
        let e = if r.chance(0.5) { 0.0 } else { r.tiny(1e-12, 1e-6) };
        let (f, a) = if r.chance(0.5) { (Px, PC * (1.0 - e * 0.04)) } else { (Tx, tc - e) };
        let s = reg3(322.0, TC);
        for o in [OP, OT, OX, OV, OD, OH, OS, OU, OF, OG, OE] {
            let y = m.call(f, a, x, o);
            let c = Call { f, a, b: x, o, r: NOREG };
            let (w, t) = match o { OP => (if f == Px { a } else { psat((a + K0).min(TC)) }, 1e-8), OT => (if f == Tx { a } else { tsat(a.min(PC)) - K0 }, 1e-8), OX => (x, 1e-300), OV | OD => (s.prop(o), s.prop(o) * if e == 0.0 { 1e-6 } else { 0.03 }), OS => (s.s, if e == 0.0 { 1e-5 } else { 0.05 }), OG => (s.g, 0.1), _ => (s.prop(o), if e == 0.0 { 5e-3 } else { 30.0 }) };
            m.close(&format!("critical.{}.{}{}", f.name(), NAMES[o as usize], if e == 0.0 { "" } else { "-near" }), y, w, t, c);
        }
        m.sample("critical", || format!("{}({a:?}, {x:?})", f.name()));
    });
    // the ends of the line and of the region 1/2 equations to the last bit
    c.par("ends", 4000, |r, m, _| {
        let x = r.f(); let x = r.pick(&[0.0, -0.0, 1.0, 0.5, x, 1e-9]);
        let k = r.int(0, 2) as u64;
        let (f, a) = r.pick(&[(Px, PMIN), (Px, P623), (Tx, 0.0), (Tx, 350.0)]);
        // away from the end, towards the side where the equations stay the same
        let a = if a == 0.0 { if k == 0 { 0.0 } else if k == 1 { -0.0 } else { r.tiny(1e-300, 1e-13) } } else if a == PMIN { f64::from_bits(a.to_bits() + k) } else { f64::from_bits(a.to_bits() - k) };
        let (p, T) = if f == Px { (a, tsat(a)) } else { (psat(a + 273.15), a + 273.15) };
        let (l, g) = (reg1(p, T), reg2(p, T));
        if x == 0.0 || x == 1.0 { judge_sat(m, f, a, x, if x == 0.0 { &l } else { &g }, p, T); }
        else {
            for o in MIX { let y = m.call(f, a, x, o); m.close(&format!("ends.{}.{}", f.name(), NAMES[o as usize]), y, l.prop(o) + x * (g.prop(o) - l.prop(o)), sat_tol(&l, o) + sat_tol(&g, o), Call { f, a, b: x, o, r: NOREG }); }
            for o in [OP, OT] { let y = m.call(f, a, x, o); m.close(&format!("ends.{}.{}", f.name(), NAMES[o as usize]), y, if o == OP { p } else { T - K0 }, 1e-8, Call { f, a, b: x, o, r: NOREG }); }
        }
        m.cnt(&format!("ends.{}({a:?})", f.name()));
    });
    c.par("monotone", n, |r, m, _| {
        let t = r.uni(0.0, 373.9); let e = r.tiny(1e-7, 0.04);
        let (a, b) = (m.call(Tx, t, 0.5, OP), m.call(Tx, t + e, 0.5, OP));
        m.ensure("psat-monotone", b > a, || format!("tx({t:?}, 0.5, p) = {a:?} but {b:?} at {e:e} K more"), vec![Call { f: Tx, a: t, b: 0.5, o: OP, r: NOREG }]);
        let p = psat(t + 273.15); let q = p * (1.0 + e * 0.01);
        if q > PC { return; }
        let (a, b) = (m.call(Px, p, 0.5, OT), m.call(Px, q, 0.5, OT));
        m.ensure("tsat-monotone", b > a, || format!("px({p:?}, 0.5, t) = {a:?} but {b:?} at {q:?} MPa"), vec![Call { f: Px, a: p, b: 0.5, o: OT, r: NOREG }]);
    });
    Report { rule: "saturation temperatures 0..373.946 C, dense near 0, 350 C, every switch of the saturated-volume equations and the critical point; every property id of saturated liquid and steam by tx and px; non-trivial when a value was compared".into(), assumptions: vec!["reference saturation equation and region equations, self-tested".into()] }
}
// ---------------------------------------------------------------- P09
const P623: f64 = 16.5291642526045; // psat(623.15 K)
const MIX: [i32; 7] = [OV, OH, OS, OU, OF, OG, OE];
/// reference wet steam with the library's own p, T, x
fn wet_at(p: f64, T: f64, x: f64, by_p: bool) -> Wet { if by_p { Wet::from_p(p, x) } else { let w = Wet::from_T(T, x); Wet { p, ..w } } }
pub fn p09(c: &Ctx) -> Report {
    let n = c.n(150_000, 3_000_000);
    c.par("wet", n, |r, m, _| {
        let (T0, x) = if r.chance(0.5) { wet(r) } else { (sat_t(r).clamp(0.0, 373.94) + 273.15, r.uni(1e-9, 1.0 - 1e-9)) };
        let t = T0 - 273.15; let T = t + 273.15;
        let w = Wet::from_T(T, x);
        if at_switch(w.p) || T > TC - 1.1e-5 || (T - 623.15).abs() < 1e-7 { m.cnt("skipped.at a switch of the saturated-volume equations"); return; }
        m.sample("wet", || format!("t={t:?} C x={x:?} by tx, px and nine other pairs; p={:?} v={:?} h={:?} s={:?}", w.p, w.mix(OV), w.mix(OH), w.mix(OS)));
        // the lever rule
        for (f, a) in [(Tx, t), (Px, w.p)] {
            let w = if f == Px { Wet::from_p(w.p, x) } else { w };
            for o in 0..36 {
                if o == OR { continue; }
                let c = Call { f, a, b: x, o, r: NOREG };
                let y = m.call(f, a, x, o);
                if o == OP { m.close("lever.p", y, w.p, 1e-11 * w.p, c); }
                else if o == OT { m.close("lever.t", y, w.T - K0, 1e-8, c); }
                else if o == OX { m.close("lever.x", y, x, 1e-300, c); }
                else if o == OD { m.close("lever.d", y, w.prop(OD), 1e-8 * w.prop(OD), c); }
                else if MIX.contains(&o) {
                    let t = sat_tol(&w.l, o) + sat_tol(&w.g, o);
                    m.close(&format!("lever.{}", NAMES[o as usize]), y, w.mix(o), t, c);
                    let (l, g) = (m.call(f, a, 0.0, o), m.call(f, a, 1.0, o));
                    m.close(&format!("mixture.{}", NAMES[o as usize]), y, l + x * (g - l), 1e-11 * (l.abs() + g.abs()), c);
                }
                else { m.ensure("lever.undefined", is_code(y), || format!("{c} = {y:?}: wet steam has no such property, expected an error code"), vec![c]); }
            }
        }
        // the same state by every other pair
        for f in [Ph, Ps, Hs, Pv, Tv, Th, Ts, Hx, Sx] {
            let (i, j) = f.ins();
            let (a, b) = (w.prop(i), w.prop(j));
            let co = |o| Call { f, a, b, o, r: NOREG };
            if !f.is_x() {
                let g = m.call(f, a, b, OR);
                if g != 4.0 {
                    let ok = allowed_wet(f, &w);
                    m.ensure(&format!("{}-region", f.name()), ok.contains(&(g as i32)), || format!("{} = {g}, expected 4: wet steam t={t:?} C x={x:?}", co(OR)), vec![co(OR)]);
                    m.cnt("edge of the two-phase region reported as single phase"); continue;
                }
            }
            let (p2, t2, x2) = (m.call(f, a, b, OP), m.call(f, a, b, OT), m.call(f, a, b, OX));
            if is_code(p2) && f.is_x() {
                // only in the gaps where the published saturated volumes jump
                let k = if f == Hx { OH } else { OS };
                let y: Vec<f64> = (-20..=20).map(|d| Wet::from_T((T + 0.05 * d as f64).min(TC - 2e-5), x).mix(k)).collect();
                let up = y.windows(2).filter(|q| q[1] > q[0]).count();
                let gap = (T - 623.15).abs() < 0.2 || T > 645.5 || (T > 622.0 && up > 0 && up < y.len() - 1);
                m.ensure(&format!("{}-found", f.name()), gap, || format!("{} = {p2}: not found although t={t:?} C has it", co(OP)), vec![co(OP)]);
                m.cnt("solution inside a jump of the saturated-volume equations"); continue;
            }
            let T2 = t2 + 273.15;
            let far = T2 < 640.0;
            if T2 < TC - 1e-4 { m.close(&format!("{}.on-saturation-line", f.name()), t2, tsat(p2) - K0, 2e-7, co(OT)); }
            if at_switch(p2) || (T2 - 623.15).abs() < 1e-6 || T2 > TC - 2e-5 { m.cnt("skipped.found at a switch"); continue; }
            let v = wet_at(p2, T2, x2, i == OP || f == Hs);
            m.ensure(&format!("{}.quality", f.name()), { let e = if f == Hs || f.is_x() { 2e-5 } else if T > 640.0 { 1e-6 } else { 1e-9 }; x2 >= -e && x2 <= 1.0 + e }, || format!("{} = {x2:?}", co(OX)), vec![co(OX)]);
            // it has the inputs
            for (o, y) in [(i, a), (j, b)] {
                if o == OP || o == OT || o == OX { let e = m.call(f, a, b, o); m.close(&format!("{}.echo", f.name()), e, y, if o == OT { 2e-12 } else { 1e-300 }, co(o)); continue; }
                let loose = f == Hs || f.is_x();
                let jump = (T2 - 623.15).abs() < 0.05; // there the published saturated volumes jump
                let big = if T2 < 640.0 { 0 } else if T2 < 646.0 { 1 } else { 2 };
                let t = (sat_tol(&v.l, o) + sat_tol(&v.g, o)) * 10.0 + if !loose { 0.0 } else if f != Hs { if jump { if o == OH { 2e-4 } else { 1e-5 } } else if o == OH { [2e-6, 2e-6, 2e-5][big] } else { 1.2e-6 } } else if o == OH { [2e-6, 2e-5, 2e-4][big] } else { [5e-5, 1e-6, 8e-4][big] };
                m.close(&format!("{}.has-{}-{big}", f.name(), NAMES[o as usize]), v.mix(o), y, t, co(OT));
            }
            // and every other property is that state's
            for o in 0..36 {
                if [OP, OT, OX, OR].contains(&o) || o == i || o == j { continue; }
                if x2 == 0.0 || x2 == 1.0 { break; }
                let y = m.call(f, a, b, o);
                if o == OD { m.close(&format!("{}.d", f.name()), y, v.prop(OD), 3e-8 * v.prop(OD), co(o)); }
                else if MIX.contains(&o) { let t = (sat_tol(&v.l, o) + sat_tol(&v.g, o)) * 10.0; m.close(&format!("state.{}", NAMES[o as usize]), y, v.mix(o), t, co(o)); }
                else { m.ensure("state.undefined", is_code(y), || format!("{} = {y:?}: wet steam has no such property, expected an error code", co(o)), vec![co(o)]); }
            }
            // it is the state put in (h and s of constant quality are not monotone: any state that has them is right for hx and sx)
            let tt = match f { Hs => if T > 646.0 { 0.3 } else if far { 1.2e-3 } else { 0.15 }, Hx | Sx => continue, _ => 2e-8 };
            m.close(&format!("{}.recovered-t-{}", f.name(), far as u8), t2, t, tt, co(OT));
            let slack = match f { Hs => if T > 646.0 { 0.15 } else if far { 2e-5 } else { 0.08 }, _ => 1e-8 };
            let dx = match j { OV => 1e-9 * w.g.v / (w.g.v - w.l.v), OH => 1e-6 / (w.g.h - w.l.h), _ => 1e-9 / (w.g.s - w.l.s) };
            m.close(&format!("{}.recovered-x-{}", f.name(), far as u8), x2, x, slack + dx, co(OX));
        }
    });
    // saturated liquid and steam by (h,x) and (s,x): quality exactly 0 or 1
    c.par("saturated", n / 6, |r, m, _| {
        let f = r.pick(&[Hx, Sx]); let o = if f == Hx { OH } else { OS };
        let x = r.pick(&[0.0, -0.0, 1.0, 1.0]);
        let T = sat_t(r).clamp(0.0, 373.94) + 273.15;
        let w = Wet::from_T(T, x);
        if at_switch(w.p) || T > TC - 1.1e-5 || (T - 623.15).abs() < 1e-7 { m.cnt("skipped.at a switch of the saturated-volume equations"); return; }
        let a = if x == 1.0 { w.g.prop(o) } else { w.l.prop(o) };
        if (f == Sx && !(-1.545495e-4..=9.155759395).contains(&a)) || a < -0.041587826 { m.cnt("beyond the documented range"); return; }
        let co = |q| Call { f, a, b: x, o: q, r: NOREG };
        let (p2, t2) = (m.call(f, a, x, OP), m.call(f, a, x, OT));
        let T2 = t2 + K0;
        if is_code(p2) || is_code(t2) {
            m.ensure("saturated.found", (T - 623.15).abs() < 0.2 || T > 645.5 || T < 273.16, || format!("{} = {p2}: not found although t={:?} C has it", co(OP), T - K0), vec![co(OP)]);
            m.cnt("saturated: solution inside a jump of the saturated-volume equations"); return;
        }
        if T2 < TC - 1e-4 { m.close("saturated.on-saturation-line", t2, tsat(p2) - K0, 2e-7, co(OT)); }
        if at_switch(p2) || (T2 - 623.15).abs() < 1e-6 || T2 > TC - 2e-5 { m.cnt("skipped.found at a switch"); return; }
        let v = Wet::from_T(T2, x); let s = if x == 1.0 { &v.g } else { &v.l };
        for q in 0..36 {
            if [OP, OT, OR].contains(&q) { continue; }
            let y = m.call(f, a, x, q);
            let jump = (T2 - 623.15).abs() < 0.05; // there the published saturated volumes jump
                let big = if T2 < 640.0 { 0 } else if T2 < 646.0 { 1 } else { 2 };
            let (w, t) = if q == OX { (x, 1e-300) } else if q == o { m.close(&format!("saturated.has-{}-{big}", NAMES[o as usize]), s.prop(o), a, sat_tol(s, o) * 10.0 + if (T2 - 623.15).abs() < 0.05 { if o == OH { 2e-4 } else { 1e-5 } } else if o == OH { [2e-6, 2e-6, 2e-5][big] } else { 1.2e-6 }, co(OT)); (a, 1e-300) } else { (s.prop(q), 10.0 * sat_tol(s, q)) };
            m.close(&format!("saturated.{}", NAMES[q as usize]), y, w, t, co(q));
        }
        m.cnt(&format!("saturated.{} {}", f.name(), if x == 1.0 { "steam" } else { "liquid" }));
        m.sample("saturated", || format!("{}({a:?}, {x:?}, *)", f.name()));
    });
    // h and s of constant quality have a maximum: states close to it on either side
    c.par("extremum", n / 6, |r, m, _| {
        let (f, o) = if r.chance(0.5) { (Hx, OH) } else { (Sx, OS) };
        let top = |x: f64| -> (f64, f64) {
            let y = |T: f64| Wet::from_T(T, x).mix(o);
            let (mut b, mut yb) = (273.15, y(273.15));
            for i in 1..=36 { let T = 273.15 + 10.0 * i as f64; if T > 620.0 { break; } let z = y(T); if z > yb { b = T; yb = z; } }
            let (mut lo, mut hi) = ((b - 10.0).max(273.15), (b + 10.0).min(623.14));
            for _ in 0..60 { let (u, v) = (lo + (hi - lo) / 3.0, hi - (hi - lo) / 3.0); if y(u) < y(v) { lo = u } else { hi = v } }
            (0.5 * (lo + hi), y(0.5 * (lo + hi)))
        };
        // a quarter: the quality at which the value at 0 C equals the maximum
        let x = if o == OS && r.chance(0.25) {
            let (mut a, mut b) = (0.42, 0.56);
            for _ in 0..30 { let x = 0.5 * (a + b); if Wet::from_T(273.15, x).mix(OS) < top(x).1 { a = x } else { b = x } }
            a + r.sign() * r.tiny(1e-9, 1e-2)
        } else { r.uni(0.0, 1.0) };
        let (Tm, _) = top(x);
        if Tm < 274.0 || Tm > 622.0 { m.cnt("no maximum below 350 C"); return; }
        let T = (Tm + r.sign() * r.tiny(1e-4, 8.0)).clamp(273.15, 623.14);
        let a = Wet::from_T(T, x).mix(o);
        let co = |q| Call { f, a, b: x, o: q, r: NOREG };
        let (p, t) = (m.call(f, a, x, OP), m.call(f, a, x, OT));
        if is_code(p) { m.ensure(&format!("{}-extremum-found", f.name()), false, || format!("{} = {p}: not found although t={:?} C has it", co(OP), T - K0), vec![co(OP)]); return; }
        m.close("extremum.on-saturation-line", t, tsat(p) - K0, 2e-7, co(OT));
        if t + K0 < 623.0 { m.close(&format!("extremum.{}", f.name()), Wet::from_T(t + K0, x).mix(o), a, if o == OH { 1e-5 } else { 3e-6 }, co(OT)); }
        m.cnt(&format!("extremum.{}", f.name()));
        m.sample("extremum", || format!("{}({a:?}, {x:?}) close to the maximum at {:?} C", f.name(), Tm - K0));
    });
    Report { rule: "wet steam 0..373.94 C (dense at 0 C, 350 C, switches of the saturated-volume equations, critical end) with qualities 1e-9..1-1e-9; two lever-rule views and nine other pairs per state; non-trivial when a value was compared".into(), assumptions: vec!["above 350 C the saturated volumes are those of the published region 3 equations, which jump by up to 1.5 % at their switch pressures; recovery through (h,s), (h,x), (s,x) is judged loosely there".into()] }
}
