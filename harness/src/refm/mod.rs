//! Reference model of IAPWS-IF97 and its supplementary releases, written from the releases.
//! Every property is derived from one fundamental equation and exact thermodynamic identities
//! (never property by property as in the code under test).
#![allow(non_snake_case, dead_code)]
pub mod selftest;
pub mod tables;
pub mod trans;
pub mod v3;
use tables::*;

pub const R: f64 = 0.461526;
pub const TC: f64 = 647.096;
pub const PC: f64 = 22.064;
pub const DC: f64 = 322.0;
pub const K0: f64 = 273.15;
pub const PMIN: f64 = 0.000611212677444; // psat(273.15 K)
pub const TT: f64 = 273.16;

/// polynomial sum  n * a^i * b^j
pub fn poly(a: f64, b: f64, t: &[(f64, f64, f64)]) -> f64 {
    let mut s = 0.0;
    for &(i, j, n) in t {
        s += n * a.powi(i as i32) * b.powi(j as i32);
    }
    s
}
/// value and all first and second derivatives of sum n a^i b^j
pub struct D2 { pub f: f64, pub a: f64, pub aa: f64, pub b: f64, pub bb: f64, pub ab: f64 }
pub fn poly2(a: f64, b: f64, t: &[(f64, f64, f64)]) -> D2 {
    let mut d = D2 { f: 0.0, a: 0.0, aa: 0.0, b: 0.0, bb: 0.0, ab: 0.0 };
    for &(fi, fj, n) in t {
        let (i, j) = (fi as i32, fj as i32);
        let (pa, pb) = (a.powi(i), b.powi(j));
        let (pa1, pb1) = (if i == 0 { 0.0 } else { fi * a.powi(i - 1) }, if j == 0 { 0.0 } else { fj * b.powi(j - 1) });
        let pa2 = if i == 0 || i == 1 { 0.0 } else { fi * (fi - 1.0) * a.powi(i - 2) };
        let pb2 = if j == 0 || j == 1 { 0.0 } else { fj * (fj - 1.0) * b.powi(j - 2) };
        d.f += n * pa * pb;
        d.a += n * pa1 * pb;
        d.aa += n * pa2 * pb;
        d.b += n * pa * pb1;
        d.bb += n * pa * pb2;
        d.ab += n * pa1 * pb1;
    }
    d
}

/// A single-phase state: everything follows from (p,T,v,h,s, cp, vT, vp).
#[derive(Clone, Copy, Debug)]
pub struct St {
    pub reg: i32, pub p: f64, pub T: f64, pub v: f64, pub h: f64, pub s: f64, pub g: f64,
    pub cp: f64, pub cv: f64, pub vT: f64, pub vp: f64, pub lnfi: f64,
}

/// gamma -> state; g* derivatives wrt pi, tau, with reducing constants
fn gibbs(reg: i32, p: f64, T: f64, ps: f64, ts: f64, d: &D2, lnfi: f64) -> St {
    let tau = ts / T;
    let v = 1e-3 * R * T * d.a / ps;
    let h = R * ts * d.b;
    let g = R * T * d.f;
    let s = (h - g) / T;
    let cp = -R * tau * tau * d.bb;
    let vT = 1e-3 * R / ps * (d.a - tau * d.ab);
    let vp = 1e-3 * R * T / (ps * ps) * d.aa;
    let cv = cp + 1e3 * T * vT * vT / vp;
    St { reg, p, T, v, h, s, g, cp, cv, vT, vp, lnfi }
}
pub fn gamma0_2(pi: f64, tau: f64) -> f64 {
    let mut g = pi.ln();
    for i in 0..9 { g += REGION2_GFE__N0[i] * tau.powi(REGION2_GFE__J0[i] as i32); }
    g
}
pub fn reg1(p: f64, T: f64) -> St {
    let q = poly2(7.1 - p / 16.53, 1386.0 / T - 1.222, &REGION1_GFE__IJN);
    let d = D2 { f: q.f, a: -q.a, aa: q.aa, b: q.b, bb: q.bb, ab: -q.ab };
    let lnfi = d.f - gamma0_2(p, 540.0 / T);
    gibbs(1, p, T, 16.53, 1386.0, &d, lnfi)
}
fn ideal(p: f64, tau: f64, n0: &[f64], j0: &[f64]) -> D2 {
    let mut d = D2 { f: p.ln(), a: 1.0 / p, aa: -1.0 / (p * p), b: 0.0, bb: 0.0, ab: 0.0 };
    for i in 0..n0.len() {
        let j = j0[i];
        d.f += n0[i] * tau.powi(j as i32);
        if j != 0.0 { d.b += n0[i] * j * tau.powi(j as i32 - 1); }
        if j != 0.0 && j != 1.0 { d.bb += n0[i] * j * (j - 1.0) * tau.powi(j as i32 - 2); }
    }
    d
}
fn add(x: D2, y: &D2) -> D2 { D2 { f: x.f + y.f, a: x.a + y.a, aa: x.aa + y.aa, b: x.b + y.b, bb: x.bb + y.bb, ab: x.ab + y.ab } }
pub fn reg2(p: f64, T: f64) -> St {
    let tau = 540.0 / T;
    let r = poly2(p, tau - 0.5, &REGION2_GFE__IJN);
    let lnfi = r.f;
    let d = add(ideal(p, tau, &REGION2_GFE__N0, &REGION2_GFE__J0), &r);
    gibbs(2, p, T, 1.0, 540.0, &d, lnfi)
}
pub fn reg5(p: f64, T: f64) -> St {
    let tau = 1000.0 / T;
    let r = poly2(p, tau, &REGION5_GFE__IJN);
    let lnfi = r.f;
    let d = add(ideal(p, tau, &REGION5_GFE__NO, &REGION5_GFE__JO), &r);
    gibbs(5, p, T, 1.0, 1000.0, &d, lnfi)
}
pub fn reg3(d: f64, T: f64) -> St {
    let (del, tau) = (d / DC, TC / T);
    let mut q = poly2(del, tau, &REGION3_HFE__IJN);
    let n1 = 0.10658070028513e1;
    q.f += n1 * del.ln();
    q.a += n1 / del;
    q.aa -= n1 / (del * del);
    let p = 1e-3 * d * R * T * del * q.a;
    let s = R * (tau * q.b - q.f);
    let h = R * T * (tau * q.b + del * q.a);
    let g = h - T * s;
    let cv = -R * tau * tau * q.bb;
    let pT = 1e-3 * d * R * del * (q.a - tau * q.ab);
    // (dp/drho)_T [MPa m3/kg]; dp/dv = -rho^2 dp/drho
    let prho = 1e-3 * R * T * (2.0 * del * q.a + del * del * q.aa);
    let vp = -1.0 / (d * d * prho);
    let vT = -pT * vp;
    let cp = cv - 1e3 * T * vT * vT / vp;
    let lnfi = g / (R * T) - gamma0_2(p, 540.0 / T);
    St { reg: 3, p, T, v: 1.0 / d, h, s, g, cp, cv, vT, vp, lnfi }
}
/// all published formulations evaluated for region `reg` at (p,T)
pub fn pt(reg: i32, p: f64, T: f64) -> St {
    match reg {
        1 => reg1(p, T),
        2 => reg2(p, T),
        3 => { let mut s = reg3(1.0 / v3::v_pT(p, T), T); s.p = s.p; s }
        5 => reg5(p, T),
        _ => panic!("no single-phase region {reg}"),
    }
}

// ---- property ids (documented in README) ----
pub const OP: i32 = 0; pub const OT: i32 = 1; pub const OD: i32 = 2; pub const OV: i32 = 3; pub const OH: i32 = 4;
pub const OS: i32 = 5; pub const OE: i32 = 6; pub const OU: i32 = 7; pub const OCP: i32 = 8; pub const OCV: i32 = 9;
pub const OW: i32 = 10; pub const OKS: i32 = 11; pub const OF: i32 = 12; pub const OG: i32 = 13; pub const OZ: i32 = 14;
pub const OX: i32 = 15; pub const OR: i32 = 16; pub const OEC: i32 = 17; pub const OKT: i32 = 18; pub const ODVDT: i32 = 19;
pub const ODVDP: i32 = 20; pub const ODPDT: i32 = 21; pub const OIJTC: i32 = 22; pub const OJTC: i32 = 23; pub const ODV: i32 = 24;
pub const OKV: i32 = 25; pub const OTC: i32 = 26; pub const OTD: i32 = 27; pub const OPR: i32 = 28; pub const OST: i32 = 29;
pub const OSDC: i32 = 30; pub const OPC: i32 = 31; pub const OBETAP: i32 = 32; pub const OFI: i32 = 33; pub const OFU: i32 = 34;
pub const OALFAP: i32 = 35;
pub const NAMES: [&str; 36] = ["p","t","d","v","h","s","e","u","cp","cv","w","ks","f","g","z","x","r","ec","kt","dvdt","dvdp","dpdt",
    "ijtc","jtc","dv","kv","tc","td","pr","st","sdc","pc","betap","fi","fu","alfap"];
pub const BASIC: [i32; 8] = [OD, OV, OH, OS, OU, OCP, OCV, OW];
pub const DERIVED: [i32; 17] = [OE, OKS, OF, OG, OZ, OEC, OKT, ODVDT, ODVDP, ODPDT, OIJTC, OJTC, OPC, OBETAP, OFI, OFU, OALFAP];
pub const TRANSPORT: [i32; 7] = [ODV, OKV, OTC, OTD, OPR, OST, OSDC];

impl St {
    pub fn dvdp_s(&self) -> f64 { self.vp + 1e3 * self.T * self.vT * self.vT / self.cp }
    pub fn w(&self) -> f64 { (-self.v * self.v * 1e6 / self.dvdp_s()).sqrt() }
    pub fn prop(&self, o: i32) -> f64 {
        let pv = 1e3 * self.p * self.v;
        match o {
            OP => self.p, OT => self.T - K0, OD => 1.0 / self.v, OV => self.v, OH => self.h, OS => self.s,
            OE => self.h - TT * self.s, OU => self.h - pv, OCP => self.cp, OCV => self.cv, OW => self.w(),
            OKS => { let w = self.w(); w * w * 1e-6 / (self.p * self.v) }
            OF => self.g - pv, OG => self.g, OZ => pv / (R * self.T),
            OEC => self.vT / self.v, OKT => -self.vp / self.v, ODVDT => self.vT, ODVDP => self.vp,
            ODPDT => -self.vT / self.vp,
            OIJTC => 1e3 * (self.v - self.T * self.vT),
            OJTC => -1e3 * (self.v - self.T * self.vT) / self.cp,
            OPC | OALFAP => -self.vT / self.vp / self.p,
            OBETAP => -1.0 / (self.p * self.vp),
            OFI => self.lnfi.exp(), OFU => self.p * self.lnfi.exp(),
            ODV => trans::viscosity(1.0 / self.v, self.T),
            OKV => trans::viscosity(1.0 / self.v, self.T) * self.v,
            OTC => trans::thcond(1.0 / self.v, self.T),
            OTD => 1e-3 * trans::thcond(1.0 / self.v, self.T) * self.v / self.cp,
            OPR => 1e3 * trans::viscosity(1.0 / self.v, self.T) * self.cp / trans::thcond(1.0 / self.v, self.T),
            OST => trans::sigma(self.T),
            OSDC => trans::dielectric(1.0 / self.v, self.T),
            OR => self.reg as f64,
            OX => if self.reg == 1 { 0.0 } else { 1.0 },
            _ => f64::NAN,
        }
    }
    /// magnitude of the largest cancelling constituent of a property (for absolute tolerances)
    pub fn scale(&self, o: i32) -> f64 {
        let pv = 1e3 * self.p * self.v;
        let ts = self.T * self.s.abs();
        let x = self.h.abs() + pv + 1.0;
        match o {
            OH | OU => x, OS => self.s.abs() + x / self.T, OE => x + ts, OF | OG => x + ts,
            OEC => 1.0 / self.T + self.vT.abs() / self.v,
            ODVDT => self.v / self.T + self.vT.abs(),
            ODPDT => (self.v / self.T + self.vT.abs()) / self.vp.abs(),
            OPC | OALFAP => (self.v / self.T + self.vT.abs()) / self.vp.abs() / self.p,
            OIJTC => 1e3 * (self.v + self.T * self.vT.abs()),
            OJTC => 1e3 * (self.v + self.T * self.vT.abs()) / self.cp.abs(),
            OFI => self.lnfi.exp() * (1.0 + self.lnfi.abs() + self.g.abs() / (R * self.T)),
            OFU => self.p * self.lnfi.exp() * (1.0 + self.lnfi.abs() + self.g.abs() / (R * self.T)),
            _ => self.prop(o).abs(),
        }
    }
}

// ---- region 4 ----
pub fn psat(T: f64) -> f64 {
    let n = &REGION4_SAT_PT__N;
    let th = T + n[8] / (T - n[9]);
    let a = th * th + n[0] * th + n[1];
    let b = n[2] * th * th + n[3] * th + n[4];
    let c = n[5] * th * th + n[6] * th + n[7];
    (2.0 * c / (-b + (b * b - 4.0 * a * c).sqrt())).powi(4)
}
pub fn tsat(p: f64) -> f64 {
    let n = &REGION4_SAT_PT__N;
    let be = p.sqrt().sqrt();
    let e = be * be + n[2] * be + n[5];
    let f = n[0] * be * be + n[3] * be + n[6];
    let g = n[1] * be * be + n[4] * be + n[7];
    let d = 2.0 * g / (-f - (f * f - 4.0 * e * g).sqrt());
    (n[9] + d - ((n[9] + d).powi(2) - 4.0 * (n[8] + n[9] * d)).sqrt()) / 2.0
}
pub fn b23_p(T: f64) -> f64 { let n = &B23_T2P__N23; n[0] + n[1] * T + n[2] * T * T }
pub fn b23_T(p: f64) -> f64 { let n = &B23_P2T__N23; n[1] + ((p - n[2]) / n[0]).sqrt() }

/// saturated liquid / vapour at T
pub fn sat_T(T: f64) -> (f64, St, St) {
    let p = psat(T);
    sat_pT(p, T)
}
pub fn sat_p(p: f64) -> (f64, St, St) { let T = tsat(p); let (_, l, v) = sat_pT(p, T); (T, l, v) }
pub fn sat_pT(p: f64, T: f64) -> (f64, St, St) {
    if T <= 623.15 { (p, reg1(p, T), reg2(p, T)) }
    else {
        let (dl, dv) = (1.0 / v3::v_sat(p, T, false), 1.0 / v3::v_sat(p, T, true));
        (p, reg3(dl, T), reg3(dv, T))
    }
}
/// wet-steam state: mass-weighted mixture
#[derive(Clone, Copy, Debug)]
pub struct Wet { pub p: f64, pub T: f64, pub x: f64, pub l: St, pub g: St }
impl Wet {
    pub fn from_T(T: f64, x: f64) -> Wet { let (p, l, g) = sat_T(T); Wet { p, T, x, l, g } }
    pub fn from_p(p: f64, x: f64) -> Wet { let (T, l, g) = sat_p(p); Wet { p, T, x, l, g } }
    pub fn mix(&self, o: i32) -> f64 { let (a, b) = (self.l.prop(o), self.g.prop(o)); a + self.x * (b - a) }
    pub fn prop(&self, o: i32) -> f64 {
        match o { OP => self.p, OT => self.T - K0, OX => self.x, OR => 4.0, OD => 1.0 / self.mix(OV), _ => self.mix(o) }
    }
}

/// IF97 region of (p[MPa],T[K]): 1,2,3,5, or 0 outside the declared range
pub fn region_pT(p: f64, T: f64) -> i32 {
    if !(p >= PMIN && p <= 100.0 && T >= 273.15 && T <= 2273.15) { return 0; }
    if T > 1073.15 { return if p <= 50.0 { 5 } else { 0 }; }
    if T <= 623.15 { return if p >= psat(T) { 1 } else { 2 }; }
    if T <= 863.15 { return if p > b23_p(T) { 3 } else { 2 }; }
    2
}

// ---- published backward equations ----
pub mod back {
    use super::*;
    pub fn T_ph1(p: f64, h: f64) -> f64 { poly(p, h / 2500.0 + 1.0, &PH2T_REG1__IJN) }
    pub fn T_ps1(p: f64, s: f64) -> f64 { poly(p, s + 2.0, &PS2T_REG1__IJN) }
    pub fn p_hs1(h: f64, s: f64) -> f64 { 100.0 * poly(h / 3400.0 + 0.05, s / 7.6 + 0.05, &HS2P_REG1__IJN) }
    pub fn h2bc(p: f64) -> f64 { let n = &ENTHALPY_2BC__N; n[1] + ((p - n[2]) / n[0]).sqrt() }
    pub fn T_ph2(p: f64, h: f64) -> f64 {
        if p <= 4.0 { poly(p, h / 2000.0 - 2.1, &PH2T_REG2A__IJN) }
        else if p <= 6.5467 || h >= h2bc(p) { poly(p - 2.0, h / 2000.0 - 2.6, &PH2T_REG2B__IJN) }
        else { poly(p + 25.0, h / 2000.0 - 1.8, &PH2T_REG2C__IJN) }
    }
    pub fn T_ps2(p: f64, s: f64) -> f64 {
        if p <= 4.0 { let sg = s / 2.0 - 2.0; PS2T_REG2A__IJN.iter().map(|&(i, j, n)| n * p.powf(i) * sg.powi(j as i32)).sum() }
        else if s >= 5.85 { poly(p, 10.0 - s / 0.7853, &PS2T_REG2B__IJN) }
        else { poly(p, 2.0 - s / 2.9251, &PS2T_REG2C__IJN) }
    }
    pub fn h2ab(s: f64) -> f64 { let n = &S2H_REG2_AB__N; n[0] + n[1] * s + n[2] * s * s + n[3] * s * s * s }
    pub fn p_hs2(h: f64, s: f64) -> f64 {
        if h <= h2ab(s) { 4.0 * poly(h / 4200.0 - 0.5, s / 12.0 - 1.2, &HS2P_REG2A__IJN).powi(4) }
        else if s >= 5.85 { 100.0 * poly(h / 4100.0 - 0.6, s / 7.9 - 1.01, &HS2P_REG2B__IJN).powi(4) }
        else { 100.0 * poly(h / 3500.0 - 0.7, s / 5.9 - 1.1, &HS2P_REG2C__IJN).powi(4) }
    }
    pub const SC: f64 = 4.41202148223476;
    pub fn h3ab(p: f64) -> f64 { let n = &P2H_3AB__N; n[0] + n[1] * p + n[2] * p * p + n[3] * p * p * p }
    pub fn T_ph3(p: f64, h: f64) -> f64 {
        if h <= h3ab(p) { 760.0 * poly(p / 100.0 + 0.240, h / 2300.0 - 0.615, &PH2T_3A_REG3__IJN) }
        else { 860.0 * poly(p / 100.0 + 0.298, h / 2800.0 - 0.720, &PH2T_3B_REG3__IJN) }
    }
    pub fn v_ph3(p: f64, h: f64) -> f64 {
        if h <= h3ab(p) { 0.0028 * poly(p / 100.0 + 0.128, h / 2100.0 - 0.727, &PH2V_3A_REG3__IJN) }
        else { 0.0088 * poly(p / 100.0 + 0.0661, h / 2800.0 - 0.720, &PH2V_3B_REG3__IJN) }
    }
    pub fn T_ps3(p: f64, s: f64) -> f64 {
        if s <= SC { 760.0 * poly(p / 100.0 + 0.240, s / 4.4 - 0.703, &PS2T_3A_REG3__IJN) }
        else { 860.0 * poly(p / 100.0 + 0.760, s / 5.3 - 0.818, &PS2T_3B_REG3__IJN) }
    }
    pub fn v_ps3(p: f64, s: f64) -> f64 {
        if s <= SC { 0.0028 * poly(p / 100.0 + 0.187, s / 4.4 - 0.755, &PS2V_3A_REG3__IJN) }
        else { 0.0088 * poly(p / 100.0 + 0.298, s / 5.3 - 0.816, &PS2V_3B_REG3__IJN) }
    }
    pub fn p_hs3(h: f64, s: f64) -> f64 {
        if s <= SC { 99.0 * poly(h / 2300.0 - 1.01, s / 4.4 - 0.75, &HS2P3A_REG3__IJN) }
        else { 16.6 / poly(h / 2800.0 - 0.681, s / 5.3 - 0.792, &HS2P3B_REG3__IJN) }
    }
    pub fn Tsat_hs(h: f64, s: f64) -> f64 { 550.0 * poly(h / 2800.0 - 0.119, s / 9.2 - 1.07, &HS2T_REG43__IJN) }
    pub fn psat_h(h: f64) -> f64 { let n = h / 2600.0; 22.0 * poly(n - 1.02, n - 0.608, &H2P_SAT_REG3__IJN) }
    pub fn psat_s(s: f64) -> f64 { let n = s / 5.2; 22.0 * poly(n - 1.03, n - 0.699, &S2P_SAT_REG3__IJN) }
    // (h,s) boundaries
    pub fn h1(s: f64) -> f64 { 1700.0 * poly(s / 3.8 - 1.09, s / 3.8 + 0.366e-4, &HS_REGION_H1_S__IJN) }
    pub fn h3a(s: f64) -> f64 { 1700.0 * poly(s / 3.8 - 1.09, s / 3.8 + 0.366e-4, &HS_REGION_H3A_S__IJN) }
    pub fn h2ab_sat(s: f64) -> f64 { 2800.0 * poly(5.21 / s - 0.513, s / 9.2 - 0.524, &HS_REGION_H2AB_S__IJN).exp() }
    pub fn h2c3b(s: f64) -> f64 { 2800.0 * poly(s / 5.9 - 1.02, s / 5.9 - 0.726, &HS_REGION_H2C3B_S__IJN).powi(4) }
    pub fn hB13(s: f64) -> f64 { 1700.0 * poly(s / 3.8 - 0.884, s / 3.8 - 0.864, &HS_REGION_H13_S__IJN) }
    pub fn TB23(h: f64, s: f64) -> f64 { 900.0 * poly(h / 3000.0 - 0.727, s / 5.3 - 0.864, &HS_REGION_T_HS__IJN) }
}
