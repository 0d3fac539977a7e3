//! Transport and further properties (IAPWS releases 2008 viscosity, 2011 thermal conductivity without
//! critical enhancement, 2014 surface tension, 1997 dielectric constant).
use super::tables::*;
use super::{DC, TC};
pub fn viscosity(d: f64, T: f64) -> f64 {
    let (tb, db) = (T / TC, d / DC);
    let s: f64 = (0..4).map(|i| VISCOSITY__NO[i] / tb.powi(i as i32)).sum();
    let s1: f64 = VISCOSITY__IJH.iter().map(|&(i, j, h)| h * (1.0 / tb - 1.0).powi(i as i32) * (db - 1.0).powi(j as i32)).sum();
    1e-6 * 100.0 * tb.sqrt() / s * (db * s1).exp()
}
const L: [[f64; 6]; 5] = [
    [1.60397357, -0.646013523, 0.111443906, 0.102997357, -0.0504123634, 0.00609859258],
    [2.33771842, -2.78843778, 1.53616167, -0.463045512, 0.0832827019, -0.00719201245],
    [2.19650529, -4.54580785, 3.55777244, -1.40944978, 0.275418278, -0.0205938816],
    [-1.21051378, 1.60812989, -0.621178141, 0.0716373224, 0.0, 0.0],
    [-2.7203370, 4.57586331, -3.18369245, 1.1168348, -0.19268305, 0.012913842],
];
pub fn thcond(d: f64, T: f64) -> f64 {
    let (tb, db) = (T / TC, d / DC);
    let s: f64 = (0..5).map(|i| THCOND__NO[i] / tb.powi(i as i32)).sum();
    let mut s1 = 0.0;
    for i in 0..5 { for j in 0..6 { s1 += L[i][j] * (1.0 / tb - 1.0).powi(i as i32) * (db - 1.0).powi(j as i32); } }
    1e-3 * tb.sqrt() / s * (db * s1).exp()
}
pub fn sigma(T: f64) -> f64 {
    let t = 1.0 - T / TC;
    if t < 0.0 { return -9999.0; }
    0.2358 * t.powf(1.256) * (1.0 - 0.625 * t)
}
pub fn dielectric(d: f64, T: f64) -> f64 {
    let (k, na, al, e0, mu, m) = (1.380658e-23, 6.0221367e23, 1.636e-40, 8.854187817e-12, 6.138e-30, 0.018015268);
    let (db, tr) = (d / DC, TC / T);
    let n = &STATIC_DIELECTRIC__N;
    let mut g = 1.0 + n[11] * db / (T / 228.0 - 1.0).powf(1.2);
    for i in 0..11 { g += n[i] * db.powi(STATIC_DIELECTRIC__I[i] as i32) * tr.powf(STATIC_DIELECTRIC__J[i]); }
    let a = na * mu * mu / (e0 * k) * d / m * g / T;
    let b = na * al / (3.0 * e0) * d / m;
    (1.0 + a + 5.0 * b + (9.0 + 2.0 * a + 18.0 * b + a * a + 10.0 * a * b + 9.0 * b * b).sqrt()) / (4.0 - 4.0 * b)
}
