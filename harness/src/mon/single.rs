//! P01, P02, P03: single-phase states given as (p, t), judged against the reference formulation.
use crate::api::*;
use crate::core::*;
use crate::gen::*;
use crate::refm::*;
use crate::rng::*;

/// deviation of the reference itself when both inputs move by a relative 1e-11 (round-off amplification)
pub fn sens(s: &St, o: i32) -> f64 {
    let e = 1e-11;
    let b = s.prop(o);
    let (q, w) = if s.reg == 3 { let d = 1.0 / s.v; (reg3(d * (1.0 + e), s.T), reg3(d, s.T * (1.0 + e))) } else { (pt(s.reg, s.p * (1.0 + e), s.T), pt(s.reg, s.p, s.T * (1.0 + e))) };
    (q.prop(o) - b).abs() + (w.prop(o) - b).abs()
}
pub fn tol(s: &St, o: i32) -> f64 { 1e-9 * s.prop(o).abs() + 1e-11 * s.scale(o) + sens(s, o) + 1e-300 }
/// relative distance to the saturation line, where (p,t) does not fix the phase
pub fn near_sat(p: f64, T: f64) -> bool { T <= TC + 1e-6 && { let q = psat(T.min(TC)); ((p - q) / q).abs() < 1.1e-6 } }

const RULE: &str = "single-phase (p,t) points drawn per region: uniform, log-uniform in p, within 1e-15..0.1 of region edges, round-number grids, marks where a published formulation switches, all 26 sub-regions of region 3 and their edges, near-critical; a case is non-trivial if at least one property was compared with the reference; points within 1.1e-6 of the saturation pressure are skipped (phase not fixed by p,t), points within 1e-9 of a formulation switch accept either equation";
fn judge(m: &mut Mon, q: &Pt0, cs: &[St], ids: &[i32], region_arg: bool) {
    for &o in ids {
        let r = if region_arg { q.reg } else { NOREG };
        let c = Call { f: Pt, a: q.p, b: q.t, o, r };
        let got = m.callr(Pt, q.p, q.t, o, r);
        let mut best: Option<(f64, f64, f64)> = None;
        for s in cs { let w = s.prop(o); let t = tol(s, o); let e = ((got - w) / t).abs(); let e = if e.is_nan() { f64::INFINITY } else { e }; if best.map(|b| e < b.0).unwrap_or(true) { best = Some((e, w, t)); } }
        let (_, w, t) = best.unwrap();
        m.close(&format!("{}-r{}", NAMES[o as usize], q.reg), got, w, t, c);
    }
}
fn run(c: &Ctx, ids: &'static [i32], n: u64) {
    for reg in [1, 2, 3, 5] {
        let name = format!("r{reg}");
        c.par(&name, if reg == 3 { n * 2 } else { n }, |r, m, _| {
            let q = state(r, reg);
            if near_sat(q.p, q.T) { m.cnt("skipped.on-saturation-line"); return; }
            let cs = cands(q.p, q.T, 1e-9);
            m.cnt(&format!("mode.{}", q.mode));
            if reg == 3 { m.cnt(&format!("subregion.{}", v3::sub(q.p, q.T))); }
            if cs.len() > 1 { m.cnt("states at a formulation switch (either side accepted)"); }
            m.sample(&name, || format!("pt({:?}, {:?}, *) {:?}", q.p, q.t, cs[0]));
            judge(m, &q, &cs, ids, false);
        });
    }
}
pub fn p01(c: &Ctx) -> Report {
    run(c, &BASIC, c.n(1_000_000, 12_000_000));
    Report { rule: RULE.into(), assumptions: vec!["the reference model (self-tested against 246 published values before each run) is right between those values".into()] }
}
pub fn p02(c: &Ctx) -> Report {
    run(c, &DERIVED, c.n(800_000, 8_000_000));
    Report { rule: RULE.into(), assumptions: vec!["the reference model (self-tested against 246 published values before each run) is right between those values".into()] }
}
pub fn p03(c: &Ctx) -> Report {
    run(c, &TRANSPORT, c.n(1_000_000, 8_000_000));
    Report { rule: RULE.into(), assumptions: vec!["the reference model (self-tested against 246 published values before each run) is right between those values".into()] }
}
