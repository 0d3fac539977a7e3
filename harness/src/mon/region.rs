//! P04, P05, P11, P13: which region a state lies in, whichever way it is given, and what is outside.
use super::pairs::{allowed, forward, near_crit};
use super::single::{near_sat, sens, tol};
use crate::api::*;
use crate::core::*;
use crate::gen::*;
use crate::refm::*;
use crate::rng::*;

pub const CODES: [f64; 8] = [-9999.0, -1000.0, -2100.0, -2101.0, -2102.0, -2103.0, -2201.0, -2202.0];
pub fn is_code(x: f64) -> bool { CODES.contains(&x) }
/// what (p,t) may be classified as: every answer right within a relative 1e-9 of a boundary
fn accept(p: f64, T: f64) -> Vec<i32> {
    let mut v = vec![];
    let e = 1e-9;
    for dp in [0.0, e, -e] { for dT in [0.0, e, -e] {
        let (pp, tt) = (p * (1.0 + dp), T * (1.0 + dT));
        let g = region_pT(pp, tt);
        let g = if g != 0 { g } else if !(pp >= PMIN && pp <= 100.0) || (tt > 1073.15 && tt <= 2273.15) { -2100 } else { -2101 };
        if !v.contains(&g) { v.push(g); }
        if g < 0 && !(tt >= 273.15 && tt <= 2273.15) && !v.contains(&-2101) { v.push(-2101); }
    } }
    // the limits are inclusive as written: 0, 2000 C, 100 MPa, and 50 MPa above 800 C
    if p > PMIN * (1.0 + 1e-9) && p <= 100.0 && T >= 273.15 && T <= 2273.15 && (T <= 1073.15 || p <= 50.0) { v.retain(|g| *g > 0); }
    if T <= TC {
        let ps = psat(T);
        if p == ps { v.push(4); } else if ((p - ps) / ps).abs() < 1.01e-6 { v.push(4); }
    }
    if (T - TC).abs() < 1e-6 && (p - PC).abs() < 1e-6 { for g in [3, 4] { v.push(g) } }
    v
}
fn judge_pt(m: &mut Mon, p: f64, t: f64, r: &mut Rng) {
    let T = t + 273.15;
    let g = m.call(Pt, p, t, OR);
    let c = Call { f: Pt, a: p, b: t, o: OR, r: NOREG };
    let ok = accept(p, T);
    m.cnt(&format!("answers.{g}"));
    if ok.len() > 1 { m.cnt("points within 1e-9 of a boundary (either side accepted)"); }
    m.ensure("region", ok.contains(&(g as i32)) && g == g.trunc(), || format!("{c} = {g:?}, expected {ok:?} at p={p:?} MPa, T={T:?} K"), vec![c]);
    if !(g > 0.0) || g == 4.0 {
        // no property of a state that is outside, or not fixed by (p,t)
        for _ in 0..3 {
            let o = r.int(2, 35) as i32;
            if o == OR { continue; }
            if g == 4.0 && near_crit(p, T) && (T - TC).abs() < 1e-6 { continue; }
            let y = m.call(Pt, p, t, o);
            let c = Call { f: Pt, a: p, b: t, o, r: NOREG };
            m.ensure("error-code", is_code(y), || format!("{c} = {y:?} for region code {g}, expected a documented error code"), vec![c]);
        }
    }
}
pub fn p04(c: &Ctx) -> Report {
    let n = c.n(1_500_000, 20_000_000);
    for reg in [1, 2, 3, 5] { c.par(&format!("inside-r{reg}"), n, |r, m, _| { let q = state(r, reg); judge_pt(m, q.p, q.t, r); m.sample("inside", || format!("pt({:?}, {:?}, r) region {reg}", q.p, q.t)); }); }
    c.par("boundary", n * 2, |r, m, _| {
        let e = r.sign() * r.tiny(1e-16, 1e-2);
        let (p, t) = match r.below(4) {
            0 => { let t = r.uni(0.0, 373.94); (psat(t + 273.15) * (1.0 + e), t) }
            1 => { let t = r.uni(350.0, 590.0); (b23_p(t + 273.15) * (1.0 + e), t) }
            2 => { let T = r.pick(&[273.15, 623.15, TC, 863.15, 1073.15, 2273.15]) * (1.0 + e * 0.01); (r.log(PMIN, 100.0), T - 273.15) }
            _ => { let t = r.uni(0.0, 2000.0); (r.pick(&[PMIN, 16.5291642526045, PC, 50.0, 100.0]) * (1.0 + e), t) }
        };
        judge_pt(m, p, t, r);
        m.sample("boundary", || format!("pt({p:?}, {t:?}, r)"));
    });
    c.par("exact-limits", 8000, |r, m, i| {
        let t = i as f64 * 0.25;
        for p in [100.0, 50.0, 22.064, 16.53, 10.0, 1.0, 0.101325, 0.1, 0.01, 0.001] { judge_pt(m, p, t, r); }
        let p = r.log(0.00062, 100.0);
        for t in [0.0, 350.0, 590.0, 800.0, 2000.0] { judge_pt(m, p, t, r); }
        m.sample("limits", || format!("pt(100, {t:?}, r)"));
    });
    c.par("saturation-line", n, |r, m, _| {
        let t = match r.below(4) { 0 => r.int(1, 373) as f64, 1 => 373.9 - r.tiny(1e-6, 30.0), _ => r.uni(0.001, 373.9) };
        let p = psat(t + 273.15);
        let g = m.call(Pt, p, t, OR);
        let c = Call { f: Pt, a: p, b: t, o: OR, r: NOREG };
        m.ensure("saturation-line", g == 4.0, || format!("{c} = {g:?} at exactly the saturation pressure, expected 4"), vec![c]);
        for o in 2..36 { if o == OR { continue; } let y = m.call(Pt, p, t, o); let c = Call { f: Pt, a: p, b: t, o, r: NOREG };
            m.ensure("error-code", is_code(y), || format!("{c} = {y:?} on the saturation line, where (p,t) does not fix the state; expected an error code"), vec![c]); }
        m.sample("saturation", || format!("pt({p:?}, {t:?}, *)"));
    });
    c.par("outside", n, |r, m, _| {
        let big = |r: &mut Rng| match r.below(4) { 0 => 1.0 + r.tiny(1e-8, 1e-3), 1 => r.uni(1.0001, 2.0), 2 => r.log(2.0, 1e6), _ => r.log(1e6, 1e300) };
        let pin = r.log(PMIN * 1.01, 99.9); let tin = r.uni(0.01, 1999.0);
        let (p, t) = match r.below(6) {
            0 => (100.0 * big(r), tin), 1 => (PMIN / big(r), tin), 2 => (-r.log(1e-300, 1e6), tin),
            3 => (pin, -(big(r) - 1.0 + 1e-9) * 273.15), 4 => (pin, (2273.15 * big(r)) - 273.15), _ => { let b = big(r).min(1.99); (50.0 * b, r.uni(800.0001, 2000.0)) }
        };
        judge_pt(m, p, t, r);
        m.sample("outside", || format!("pt({p:?}, {t:?}, r)"));
    });
    Report { rule: "single-phase points of every region, points 1e-16..1e-2 around every region boundary and range limit, the exact inclusive limits on a 0.25 C grid, the exact saturation line, points outside in six directions; a case is non-trivial when its region code was judged".into(), assumptions: vec!["boundary equations (saturation line, B23) of the reference, self-tested".into()] }
}

// ---------------------------------------------------------------- P05
/// wet-steam state generator: (T, x)
pub fn wet(r: &mut Rng) -> (f64, f64) {
    let t = match r.below(8) { 0 => r.int(1, 373) as f64, 1 => if r.chance(0.1) { 0.0 } else { r.tiny(1e-9, 10.0) }, 2 => 350.0 + r.sign() * r.tiny(1e-9, 5.0), 3 => TC - K0 - r.tiny(1e-4, 30.0), 4 => r.uni(350.0, 373.9), _ => r.uni(0.0, 373.9) };
    let x = match r.below(8) { 0 => r.tiny(1e-9, 0.1), 1 => 1.0 - r.tiny(1e-9, 0.1), 2 => r.int(1, 99) as f64 / 100.0, _ => r.uni(0.0, 1.0) };
    (t.clamp(0.0, 373.94) + 273.15, x.clamp(1e-12, 1.0 - 1e-12))
}
pub fn allowed_wet(f: F, w: &Wet) -> Vec<i32> {
    let mut v = vec![4];
    let dh = w.g.h - w.l.h;
    let edge = match f { Ph | Ps | Hs if w.T > 643.1 => 3.5, Hs => 1.5, Ph | Ps if w.T > 623.0 => 0.5, Ph | Ps => 1e-6, _ => 1e-5 * dh.max(1.0) };
    let edge = if w.T > 622.9 && w.T < 623.5 { edge.max(0.3) } else if w.T > 623.15 && w.T.lt(&TC) { edge.max(0.01) } else { edge };
    if w.x * dh < edge { v.push(if w.T <= 623.15 { 1 } else { 3 }); if w.T > 622.9 { v.push(1); v.push(3); } }
    if (1.0 - w.x) * dh < edge { v.push(if w.T <= 623.15 { 2 } else { 3 }); if w.T > 622.9 { v.push(2); v.push(3); } }
    // another (liquid) state with the same inputs
    match f { Th if w.T < 530.0 && w.mix(OH) <= reg1(100.0, w.T).h + 1e-6 => v.push(1), Ts if w.T < 278.5 && w.mix(OS) < w.l.s + 1e-3 => v.push(1), Pv if w.T < 285.0 && w.mix(OV) <= reg1(w.p, 273.15).v * (1.0 + 1e-9) => v.push(1), _ => {} }
    if w.T > 645.5 { v.push(3); }
    if f == Hs && w.T < 273.1501 { v.push(-9999); }
    v
}
/// how far a state of region g0 that a pair puts into region g lies from their border (K, or relative in p), and how far it may:
/// about 1.5 times the largest distance the border equations of that pair show
fn border_gap(f: F, s: &St, g0: i32, g: i32) -> Option<(f64, f64)> {
    let e = |hs: f64, ph: f64, ps: f64, pv: f64, t: f64| match f { Hs => hs, Ph => ph, Ps => ps, Pv => pv, _ => t };
    let sat = || (s.p - psat(s.T.min(TC))) / s.p;
    Some(match (g0, g) {
        (1, 3) => (623.15 - s.T, e(5e-3, 1e-9, 1e-9, 1e-9, 1e-9)),
        (3, 1) => (s.T - 623.15, e(2.2e-3, 5e-3, 6.5e-3, 1.6e-2, 1e-9)),
        (2, 3) => (1.0 - s.p / b23_p(s.T), e(1.1e-3, 1e-9, 1e-9, 1e-9, 1e-9)),
        (3, 2) => (s.p / b23_p(s.T) - 1.0, match f { Th => 2.7e-4, Ts => 2e-4, Tv => 1e-4, _ => e(1.7e-4, 1.8e-4, 1.8e-4, 1.5e-4, 0.0) }),
        (2, 5) => (1073.15 - s.T, e(0.055, 1e-6, 1e-6, 1e-6, 1e-9)),
        (5, 2) => (s.T - 1073.15, e(1e-6, 0.055, 0.09, 0.12, 1e-9)),
        (1, 4) if f == Hs => (sat(), 8e-4),
        (2, 4) if (s.T - 623.15).abs() > 0.2 => (-sat(), 5e-5),
        (3, 4) if s.T < 644.5 => (sat().abs(), e(2e-4, 2e-4, 2e-4, 5e-5, 5e-5)),
        _ => return None,
    })
}
pub fn p05(c: &Ctx) -> Report {
    let n = c.n(1_000_000, 6_000_000);
    for reg in [1, 2, 3, 5] {
        c.par(&format!("r{reg}"), n, |r, m, _| {
            let q = state(r, reg);
            if near_sat(q.p, q.T) { m.cnt("skipped.on-saturation-line"); return; }
            let s = forward(&q);
            if reg == 3 && near_crit(s.p, s.T) { m.cnt("skipped.near-critical"); return; }
            // the library's own values of the state
            let g0 = m.call(Pt, q.p, q.t, OR);
            let y = [q.p, q.t, 0.0, m.call(Pt, q.p, q.t, OV), m.call(Pt, q.p, q.t, OH), m.call(Pt, q.p, q.t, OS)];
            let mut z = s; z.p = q.p;
            for f in [Ph, Ps, Hs, Pv, Tv, Th, Ts] {
                let (i, j) = f.ins();
                let (a, b) = (y[i as usize], y[j as usize]);
                let g = m.call(f, a, b, OR);
                let cr = Call { f, a, b, o: OR, r: NOREG };
                if g == g0 { m.cnt(&format!("agree.{}", f.name())); m.ensure("agree", true, String::new, vec![]); }
                else {
                    let ok = allowed(f, &z, q.p);
                    m.cnt(&format!("boundary or ambiguous.{}", f.name()));
                    if let Some((d, lim)) = border_gap(f, &z, g0 as i32, g as i32) {
                        m.close(&format!("{}-gap-{g0}-{g}", f.name()), d, 0.0, lim, cr);
                    }
                    m.ensure(&format!("{}-region", f.name()), ok.contains(&(g as i32)), || format!("pt({:?}, {:?}, r) = {g0} but {cr} = {g}, with the inputs the library itself returned for that state", q.p, q.t), vec![Call { f: Pt, a: q.p, b: q.t, o: OR, r: NOREG }, cr]);
                }
                // the state the pair reports lies in the region the pair reports
                if g > 0.0 && g != 4.0 {
                    let (p, t) = (m.call(f, a, b, OP), m.call(f, a, b, OT));
                    let g2 = m.call(Pt, p, t, OR);
                    if g2 != g {
                        let zz = St { p, T: t + K0, reg: g as i32, ..s };
                        let ok = allowed(if f == Hs { Hs } else { Ph }, &zz, p);
                        let ok2 = s.T > TC + 3.0 || !near_crit(p, t + K0);
                        m.ensure(&format!("{}-reported-state", f.name()), ok.contains(&(g2 as i32)) || g2 == 4.0 || (g2 < 0.0 && p >= PMIN * (1.0 - 2e-3) && p <= 100.14 && t >= -0.03 && t + K0 <= if g == 5.0 { 2273.22 } else { 1073.22 }) || !ok2 || (reg == 3 && p > 99.9) || p < PMIN * 1.01, || format!("{cr} = {g}, but the p={p:?} MPa, t={t:?} C it returns lie in region {g2}"), vec![cr, Call { f: Pt, a: p, b: t, o: OR, r: NOREG }]);
                        m.cnt("reported state at a boundary");
                    }
                }
            }
            m.sample(&format!("r{reg}"), || format!("pt({:?}, {:?}) and the seven other pairs of that state -> region {g0}", q.p, q.t));
        });
    }
    c.par("r4", n * 2, |r, m, _| {
        let (T, x) = wet(r);
        let w = Wet::from_T(T, x);
        let t = T - 273.15;
        let ps = m.call(Tx, t, x, OP);
        let y = [ps, t, 0.0, m.call(Tx, t, x, OV), m.call(Tx, t, x, OH), m.call(Tx, t, x, OS)];
        if super::sat::at_switch(ps) { m.cnt("skipped.within 5e-6 of a switch of the saturation volume equations"); return; }
        for f in [Ph, Ps, Hs, Pv, Tv, Th, Ts] {
            let (i, j) = f.ins();
            let (a, b) = (y[i as usize], y[j as usize]);
            let g = m.call(f, a, b, OR);
            let cr = Call { f, a, b, o: OR, r: NOREG };
            let ok = allowed_wet(f, &w);
            m.ensure(&format!("{}-region4", f.name()), ok.contains(&(g as i32)), || format!("{cr} = {g}, but the inputs are those of wet steam t={t:?} C, x={x:?}"), vec![cr, Call { f: Tx, a: t, b: x, o: i.max(3), r: NOREG }]);
            m.cnt(&format!("wet.{}.{g}", f.name()));
            if g == 1.0 || g == 2.0 || g == 3.0 {
                let dh = w.g.h - w.l.h; let lo = x < 0.5; let d = if lo { x * dh } else { (1.0 - x) * dh };
                let band = if w.T < 622.9 { 0 } else if w.T < 623.5 { 1 } else if w.T < 635.0 { 2 } else if w.T <= 643.1 { 3 } else if w.T <= 645.5 { 4 } else { 5 };
                if !(f == Th && w.T < 530.0 || f == Ts && w.T < 278.5 || f == Pv && w.T < 285.0) { 
                    // kJ/kg from saturation; about 1.5 times the largest distance the border equations show
                    let lim = match (f, band, lo) {
                        (Hs, 0, _) => 0.032, (Hs, 1 | 2, true) => 0.008, (Ph | Ps, 1 | 2, true) => 0.01, (Hs | Ps, 3, true) => 0.04, (Ph, 3, true) => 0.002,
                        (Pv | Tv, 1, false) => 0.16, (_, 1, false) | (Hs, 2, false) => 0.06, (Ph | Ps, 2, false) => 0.016, (Hs | Ph | Ps, 3, false) => 0.009,
                        (_, 4, _) => 1.2, (_, 5, _) => 15.0, _ => 1e-5 * dh,
                    };
                    m.close(&format!("wet-gap-{}-{band}-{}", f.name(), if lo { "liquid" } else { "steam" }), d, 0.0, lim, cr);
                }
            }
        }
        m.sample("r4", || format!("tx({t:?}, {x:?}) and the seven pairs of that state"));
    });
    Report { rule: "states given as (p,t) or (t,x); the library's own h, s, v of the state are fed back through every other pair, and the p,t it then reports back through (p,t); non-trivial when a region was judged".into(), assumptions: vec!["within the published numerical consistency of the boundary equations (allowed() in mon/pairs.rs) the neighbouring region is right too".into()] }
}

// ---------------------------------------------------------------- P11
fn same(a: f64, b: f64) -> bool { a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()) }
pub fn any_state(r: &mut Rng, f: F) -> (f64, f64) {
    if f != Pt && r.chance(0.25) {
        let (T, x) = wet(r); let w = Wet::from_T(T, x); let (i, j) = f.ins(); return (w.prop(i), w.prop(j));
    }
    let reg = r.pick(&[1, 2, 3, 5]);
    let q = state(r, reg);
    if f == Pt { return (q.p, q.t); }
    let s = forward(&q);
    let (i, j) = f.ins();
    (if i == OP { q.p } else if i == OT { q.t } else { s.prop(i) }, s.prop(j))
}
pub fn p11(c: &Ctx) -> Report {
    let n = c.n(200_000, 4_000_000);
    for f in PAIRS8 {
        c.par(f.name(), n, |r, m, _| {
            let (a, b) = any_state(r, f);
            let g = m.call(f, a, b, OR);
            let gi = g as i32;
            m.cnt(&format!("region.{g}"));
            let mut ids: Vec<i32> = (0..10).map(|_| r.int(0, 35) as i32).collect();
            ids.extend([OP, OT, OV, OH, OS, OX]);
            for o in ids {
                let y = m.call(f, a, b, o);
                let n10 = m.callr(f, a, b, o, 10);
                let ca = Call { f, a, b, o, r: NOREG };
                let cn = Call { f, a, b, o, r: 10 };
                m.ensure("no-region", same(y, n10), || format!("{ca} = {y:?} but {cn} = {n10:?} (10 = no region given)"), vec![ca, cn]);
                if gi >= 1 && gi <= 5 {
                    let z = m.callr(f, a, b, o, gi);
                    let cz = Call { f, a, b, o, r: gi };
                    m.ensure("explicit", same(y, z), || format!("{ca} = {y:?} in region {gi}, but {cz} = {z:?}"), vec![ca, cz]);
                }
            }
            m.sample(f.name(), || format!("{}({a:?}, {b:?}) region {gi}: automatic and explicit answers identical", f.name()));
        });
    }
    // an explicit region selects that region's equations, also beyond its border
    c.par("forced", n, |r, m, _| {
        let reg = r.pick(&[1, 2, 5]);
        let q = state(r, reg);
        let dT = r.sign() * r.tiny(1e-6, 5.0);
        let (p, t) = (q.p * (1.0 + r.sign() * r.tiny(1e-6, 0.05)), if q.t + dT < 0.0 { q.t } else { q.t + dT });
        let T = t + 273.15;
        let s = pt(reg, p, T);
        if !(s.vp < 0.0 && s.cp > 0.0 && s.cv > 0.0) { m.cnt("skipped.equation extrapolated to an unstable state"); return; }
        let inside = region_pT(p, T) == reg;
        m.cnt(if inside { "forced.own region" } else { "forced.beyond its border" });
        for o in [OV, OD, OH, OS, OU, OCP, OCV, OW, OG, OF, OZ, OEC, OKT] {
            let c = Call { f: Pt, a: p, b: t, o, r: reg };
            let y = m.callr(Pt, p, t, o, reg);
            m.close(&format!("forced.{}-r{reg}", NAMES[o as usize]), y, s.prop(o), tol(&s, o) + sens(&s, o), c);
        }
        m.sample("forced", || format!("pt({p:?}, {t:?}, (o, {reg})), state lies in {}", region_pT(p, T)));
    });
    Report { rule: "states of every pair in every region (a quarter wet steam), 16 property ids each, automatic vs explicit vs 10; forced: (p,t) up to 5 % and 5 K off a state of region 1, 2 or 5; non-trivial when two answers were compared".into(), assumptions: vec![] }
}

// ---------------------------------------------------------------- P13
fn bis(mut a: f64, mut b: f64, f: impl Fn(f64) -> f64) -> f64 { let fa = f(a); if fa == 0.0 { return a; } for _ in 0..60 { let c = 0.5 * (a + b); if (f(c) > 0.0) == (fa > 0.0) { a = c } else { b = c } } 0.5 * (a + b) }
fn at(p: f64, T: f64) -> St { let g = region_pT(p.clamp(PMIN, 100.0), T.clamp(273.15, 2273.15)); if g == 3 { reg3(1.0 / v3::v_pT(p, T), T) } else { pt(if g == 0 { 2 } else { g }, p, T) } }
/// largest and smallest enthalpy of any valid state with entropy s (None: no state has it)
fn hs_limits(s: f64) -> Option<(f64, f64)> {
    let (smin, smax) = (at(100.0, 273.15).s, reg5(PMIN, 2273.15).s);
    if s < smin || s > smax { return None; }
    let s_a = reg2(100.0, 1073.15).s; let s_b = reg5(50.0, 1073.16).s; let s_c = reg5(50.0, 2273.15).s;
    let hi = if s <= s_a { at(100.0, bis(273.15, 1073.15, |T| at(100.0, T).s - s)).h }
        else if s <= reg2(50.0, 1073.15).s { let p = bis(50.0, 100.0, |p| reg2(p, 1073.15).s - s); reg2(p, 1073.15).h }
        else if s <= s_b { reg5(50.0, 1073.16).h.max(reg2(50.0, 1073.15).h) }
        else if s <= s_c { let T = bis(1073.16, 2273.15, |T| reg5(50.0, T).s - s); reg5(50.0, T).h }
        else { let p = bis(PMIN.ln(), 50f64.ln(), |l| reg5(l.exp(), 2273.15).s - s).exp(); reg5(p, 2273.15).h };
    let (l, g) = (reg1(PMIN, 273.15), reg2(PMIN, 273.15));
    let lo = if s <= l.s { let p = bis(PMIN, 100.0, |p| reg1(p, 273.15).s - s); reg1(p, 273.15).h.min(l.h + 273.15 * (s - l.s)) }
        else if s <= g.s { l.h + 273.15 * (s - l.s) }
        else { let T = bis(273.15, 2273.15, |T| at(PMIN, T).s - s); at(PMIN, T).h };
    Some((hi, lo))
}
/// a value beyond the limits by more than a margin: the largest distance at which the border equations of the tree let one in, and half as much again
fn far(r: &mut Rng, lo: f64, hi: f64, margin: f64) -> f64 { far2(r, lo, hi, margin, margin) }
fn far2(r: &mut Rng, lo: f64, hi: f64, below: f64, above: f64) -> f64 {
    let up = r.chance(0.5); let margin = if up { above } else { below };
    let d = match r.below(3) { 0 => margin * (1.0 + r.tiny(1e-3, 1.0)), 1 => margin + (hi - lo).abs() * r.f(), _ => margin + r.log(1.0, 1e12) };
    if up { hi + d } else { lo - d }
}
fn outside(m: &mut Mon, r: &mut Rng, f: F, a: f64, b: f64, why: &str) {
    let (i, j) = f.ins();
    m.cnt(&format!("{}.{why}", f.name()));
    if !f.is_x() {
        let g = m.call(f, a, b, OR); let c = Call { f, a, b, o: OR, r: NOREG };
        m.ensure(&format!("{}-region-code", f.name()), is_code(g), || format!("{c} = {g:?} although {why}; expected an error code"), vec![c]);
    }
    let mut ids = vec![OP, OT, OV, OH, OS]; for _ in 0..4 { ids.push(r.int(0, 35) as i32); }
    for o in ids {
        if o == i || o == j || (f.is_x() && (o == OX || o == OT || o == OP) && (f == Tx || f == Px)) { continue; } // inputs are echoed
        let y = m.call(f, a, b, o); let c = Call { f, a, b, o, r: NOREG };
        m.ensure(&format!("{}-code", f.name()), is_code(y), || format!("{c} = {y:?} although {why}; expected an error code"), vec![c]);
    }
    m.sample(f.name(), || format!("{}({a:?}, {b:?}, *): {why} -> error codes", f.name()));
}
pub fn p13(c: &Ctx) -> Report {
    let n = c.n(180_000, 2_500_000);
    let pbad = |r: &mut Rng, lo: f64, hi: f64| match r.below(5) { 0 => hi * (1.0 + r.tiny(3e-16, 0.5)), 1 => hi * r.log(1.5, 1e12), 2 => lo * (1.0 - r.tiny(3e-16, 0.99)), 3 => -r.log(1e-12, 1e6), _ => 0.0 };
    let tbad = |r: &mut Rng| match r.below(4) { 0 => -r.tiny(1e-13, 273.0), 1 => 2000.0 + r.tiny(1e-12, 1e3), 2 => r.log(3e3, 1e12), _ => -r.log(273.2, 1e12) };
    for f in [Ph, Ps, Pv, Tv, Th, Ts, Hs] {
        c.par(&format!("first-{}", f.name()), n, |r, m, _| {
            // second input of a good state, first out of range
            let (a, b) = any_state(r, f);
            match f {
                Ph | Ps => { let p = pbad(r, PMIN, 100.0); outside(m, r, f, p, b, "the pressure is out of range"); }
                Pv => { let p = pbad(r, 0.9e-8, 100.0); outside(m, r, f, p, b, "the pressure is out of range"); }
                Tv | Th | Ts => { let t = tbad(r); outside(m, r, f, t, b, "the temperature is out of range"); }
                _ => {
                    let b = if r.chance(0.2) {
                        let c = match r.below(9) { 0 => reg2(100.0, 863.15).s, 1 => at(100.0, 863.14).s, 2 => reg1(100.0, 623.15).s, 3 => at(100.0, 623.16).s, 4 => reg2(100.0, 1073.15).s, 5 => reg2(50.0, 1073.15).s, 6 => reg5(50.0, 1073.16).s, 7 => reg5(50.0, 2273.15).s, _ => reg2(PMIN, 273.15).s };
                        m.cnt("entropy next to a corner of the regions"); c + r.sign() * r.tiny(1e-9, 1e-2)
                    } else { b };
                    let (hi, lo) = match hs_limits(b) { Some(x) => x, None => return }; let h = far2(r, lo, hi, 0.02, if b < 9.2 { 0.3 } else { 0.02 }); let _ = a; outside(m, r, f, h, b, "no valid state of this entropy has this enthalpy"); }
            }
        });
        c.par(&format!("second-{}", f.name()), n, |r, m, _| {
            let mut p = r.log(PMIN * 1.001, 99.99); let mut t = match r.below(3) { 0 => r.uni(0.001, 350.0), 1 => r.uni(350.0, 800.0), _ => r.uni(800.1, 1999.9) };
            if r.chance(0.2) {
                // next to the corners of the regions
                p = (r.pick(&[50.0, 100.0, PC, 22.11, 23.0, 16.5291642526045, 10.0, 4.0]) * (1.0 + r.sign() * r.tiny(1e-9, 1e-2))).min(100.0);
                t = r.pick(&[350.0, 590.0, 590.0, 800.0, 373.946, 2000.0, 250.0]) + r.sign() * r.tiny(1e-9, 0.3); if t > 2000.0 { t = 2000.0 - (t - 2000.0); }
                m.cnt("next to a corner of the regions");
            }
            let T = t + 273.15;
            match f {
                Ph | Ps => {
                    let o = if f == Ph { OH } else { OS };
                    let top = if p <= 50.0 { reg5(p, 2273.15) } else { reg2(p, 1073.15) };
                    let y = far(r, reg1(p, 273.15).prop(o), top.prop(o), if f == Ph { 1e-4 } else { 1e-6 });
                    outside(m, r, f, p, y, "no valid state of this pressure has this value");
                }
                Pv => {
                    let top = if p <= 50.0 { reg5(p, 2273.15) } else { reg2(p, 1073.15) };
                    let T0 = if p < 60.0 { bis(273.15, tsat(p.min(PC)).min(300.0).max(273.1500001), |T| reg1(p, T).vT) } else { 273.15 };
                    let vmin = reg1(p, T0).v.min(reg1(p, 273.15).v);
                    let y = if r.chance(0.5) { top.v * (1.0 + r.tiny(1e-7, 1e6)) } else { vmin * (1.0 - r.tiny(1e-7, 1.0)) - if r.chance(0.2) { 1.0 } else { 0.0 } };
                    outside(m, r, f, p, y, "no valid state of this pressure has this volume");
                }
                Tv => {
                    let lo = if T > 1073.15 { reg5(50.0, T).v } else { at(100.0, T).v.min(if T > 850.0 && T <= 863.15 { reg2(b23_p(T), T).v } else { f64::INFINITY }) };
                    let hi = if T > 1073.15 { reg5(PMIN, T).v } else { reg2(1e-8, T).v };
                    let y = if r.chance(0.5) { hi * (1.0 + r.tiny(1e-6, 1e6)) } else { lo * (1.0 - r.tiny(1e-7, 1.0)) - if r.chance(0.2) { 1.0 } else { 0.0 } };
                    outside(m, r, f, t, y, "no valid state of this temperature has this volume");
                }
                Th | Ts => {
                    let o = if f == Th { OH } else { OS };
                    let lo = if T > 1073.15 { reg5(50.0, T).prop(o) } else if T <= 623.15 { let l = at(psat(T), T); reg1(100.0, T).prop(o).min(reg1(psat(T) * 1.0000001, T).prop(o)).min(if o == OH { (0..60).map(|i| reg1(psat(T) + (100.0 - psat(T)) * i as f64 / 59.0, T).h).fold(l.h, f64::min) } else { 1e9 }) } else { at(100.0, T).prop(o).min(if (620.0..=863.15).contains(&T) { let q = b23_p(T); reg2(q, T).prop(o).min(reg3(1.0 / v3::v_pT(q, T), T).prop(o)) } else { f64::INFINITY }) };
                    let hi = if T > 1073.15 { reg5(PMIN, T).prop(o) } else { reg2(1e-8, T).prop(o) };
                    let y = far(r, lo, hi, match f { Th if T <= 623.15 => 0.01, Th => 1e-4, _ => 1e-6 });
                    outside(m, r, f, t, y, "no valid state of this temperature has this value");
                }
                _ => {
                    let (smin, smax) = (at(100.0, 273.15).s, reg5(PMIN, 2273.15).s);
                    let s = far(r, smin, smax, 1e-3); let h = match r.below(3) { 0 => r.uni(0.0, 7400.0), 1 => r.uni(-10.0, 4200.0), _ => r.sign() * r.log(1e-3, 1e9) };
                    outside(m, r, f, h, s, "no valid state has this entropy");
                }
            }
        });
    }
    for f in [Px, Tx, Hx, Sx] {
        c.par(f.name(), n, |r, m, _| {
            let (T, x) = wet(r);
            let w = Wet::from_T(T, x);
            let a = match f { Px => w.p, Tx => T - K0, Hx => w.mix(OH), _ => w.mix(OS) };
            if r.chance(0.5) {
                let x = match r.below(4) { 0 => -r.tiny(1e-320, 1.0), 1 => 1.0 + r.tiny(2.3e-16, 1.0), 2 => r.log(2.0, 1e9), _ => -r.log(1.0, 1e9) };
                outside(m, r, f, a, x, "the quality is not in 0..1");
            } else {
                let a = match f {
                    Px => match r.below(4) { 0 => PC * (1.0 + r.tiny(3e-16, 4.0)), 1 => PMIN * (1.0 - r.tiny(3e-16, 1.0)), 2 => -r.log(1e-9, 1e6), _ => r.log(23.0, 1e9) },
                    Tx => match r.below(4) { 0 => 373.946 + r.tiny(1e-12, 1e3), 1 => -r.tiny(1e-13, 273.0), 2 => r.log(400.0, 1e9), _ => -r.log(273.2, 1e9) },
                    _ => { // beyond every value on the line of constant x
                        let o = if f == Hx { OH } else { OS };
                        let mut lo = f64::INFINITY; let mut hi = -f64::INFINITY;
                        for i in 0..=120 { let q = 1.0 - i as f64 / 120.0; let T = 647.0959 - (647.0959 - 273.15) * q * q * q; let y = Wet::from_T(T, x).mix(o); lo = lo.min(y); hi = hi.max(y); }
                        let yc = if f == Hx { 2087.5 } else { 4.412 }; lo = lo.min(yc); hi = hi.max(yc);
                        let mid = x > 0.3 && x < 0.6; // the largest value lies next to the critical point, where the sub-regions of the saturated volumes switch
                        if f == Hx { far2(r, lo, hi, 1e-3, if mid { 5.0 } else { 0.1 }) } else { far2(r, lo, hi, 1e-3, if mid { 3e-3 } else { 1e-4 }) }
                    }
                };
                outside(m, r, f, a, x, "no saturated state has this value");
            }
        });
    }
    // NaN and infinite inputs never look like a property value
    c.par("not-finite", n, |r, m, _| {
        let f = r.pick(&ALL);
        let (mut a, mut b) = if f.is_x() { let (T, x) = wet(r); let w = Wet::from_T(T, x); (w.prop(f.ins().0), x) } else { any_state(r, f) };
        let bad = r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
        match r.below(3) { 0 => a = bad, 1 => b = bad, _ => { a = bad; b = r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]); } }
        let o = r.int(0, 35) as i32;
        let (i, j) = f.ins();
        if o == i || o == j { return; }
        let y = m.call(f, a, b, o);
        let c = Call { f, a, b, o, r: NOREG };
        m.cnt(&format!("not-finite.{}", f.name()));
        m.ensure("not-finite", y.is_nan() || is_code(y), || format!("{c} = {y:?}, expected NaN or an error code"), vec![c]);
        m.sample("not-finite", || format!("{c} = {y:?}"));
    });
    // an unknown property id of a good state
    c.par("bad-id", n, |r, m, _| {
        let f = r.pick(&ALL);
        let (a, b) = if f.is_x() { let (T, x) = wet(r); let w = Wet::from_T(T, x); (w.prop(f.ins().0), x) } else { any_state(r, f) };
        let o = match r.below(4) { 0 => -1, 1 => 36, 2 => r.int(36, 1000) as i32, _ => r.u64() as i32 };
        if (0..36).contains(&o) { return; }
        let y = m.call(f, a, b, o);
        let c = Call { f, a, b, o, r: NOREG };
        m.ensure("unknown-id", is_code(y), || format!("{c} = {y:?} for a property id that does not exist, expected an error code"), vec![c]);
        m.sample("bad-id", || format!("{c} = {y:?}"));
    });
    Report { rule: "for every pair: first input out of range, second input beyond every state of the first, NaN and infinities, unknown property ids; the limits come from the reference with a margin for the published boundary equations; non-trivial when an answer was judged against the documented error codes".into(), assumptions: vec!["low-pressure steam below 0.000611 MPa is accepted by the volume, enthalpy and entropy pairs in region 2 (not judged)".into()] }
}
