//! Self-test of the reference model against the verification values printed in the IAPWS releases.
//! It runs before every check: if it fails the check stops (exit 2), it does not judge the library.
use super::*;
use super::back::*;
const R2_PH_2A: [[f64; 3]; 3] = [[0.001, 3000.0, 0.534433241E+03], [3.0, 3000.0, 0.575373370E+03], [3.0, 4000.0, 0.101077577E+04]];
const R2_PH_2B: [[f64; 3]; 3] = [[5.0, 3500.0, 0.801299102E+03], [5.0, 4000.0, 0.101531583E+04], [25.0, 3500.0, 0.875279054E+03]];
const R2_PH_2C: [[f64; 3]; 3] = [[40.0, 2700.0, 0.743056411E+03], [60.0, 2700.0, 0.791137067E+03], [60.0, 3200.0, 0.882756860E+03]];
const R2_PS_2A: [[f64; 3]; 3] = [[0.1, 7.5, 0.399517097E+03], [0.1, 8.0, 0.514127081E+03], [2.5, 8.0, 0.103984917E+04]];
const R2_PS_2B: [[f64; 3]; 3] = [[8.0, 6.0, 0.600484040E+03], [8.0, 7.5, 0.106495556E+04], [90.0, 6.0, 0.103801126E+04]];
const R2_PS_2C: [[f64; 3]; 3] = [[20.0, 5.75, 0.697992849E+03], [80.0, 5.25, 0.854011484E+03], [80.0, 5.75, 0.949017998E+03]];
const R2_HS_REG2A: [[f64; 3]; 3] = [[2800.0, 6.5, 1.371012767], [2800.0, 9.5, 1.879743844e-03], [4100.0, 9.5, 1.024788997e-01]];
const R2_HS_REG2B: [[f64; 3]; 3] = [ [2800.0, 6.0, 4.793911442], [3600.0, 6.0, 8.395519209e+01], [3600.0, 7.0, 7.527161441], ];
const R2_HS_REG2C: [[f64; 3]; 3] = [[2800.0, 5.1, 9.439202060E+01], [2800.0, 5.8, 8.414574124], [3400.0, 5.8, 8.376903879e+01]];
const R3_TD: [[f64; 8]; 3] = [ [650., 500., 0.255837018E2, 0.186343019E4, 0.181226279E4, 0.405427273E1, 0.138935717E2, 0.502005554E3], [650., 200., 0.222930643E2, 0.237512401E4, 0.226365868E4, 0.485438792E1, 0.446579342E2, 0.383444594E3], [750., 500., 0.783095639E2, 0.225868845E4, 0.210206932E4, 0.446971906E1, 0.634165359E1, 0.760696041E3], ];
const R3_V_PT: [[f64; 3]; 52] = [ [1.470853100e-3, 50.0, 630.0], [1.503831359e-3, 80.0, 670.0], [2.204728587e-3, 50.0, 710.0], [1.973692940e-3, 80.0, 750.0], [1.761696406e-3, 20.0, 630.0], [1.819560617e-3, 30.0, 650.0], [2.245587720e-3, 26.0, 656.0], [2.506897702e-3, 30.0, 670.0], [2.970225962e-3, 26.0, 661.0], [3.004627086e-3, 30.0, 675.0], [5.019029401e-3, 26.0, 671.0], [4.656470142e-3, 30.0, 690.0], [2.163198378e-3, 23.6, 649.0], [2.166044161e-3, 24.0, 650.0], [2.651081407e-3, 23.6, 652.0], [2.967802335e-3, 24.0, 654.0], [3.273916816e-3, 23.6, 653.0], [3.550329864e-3, 24.0, 655.0], [4.545001142e-3, 23.5, 655.0], [5.100267704e-3, 24.0, 660.0], [6.109525997e-3, 23.0, 660.0], [6.427325645e-3, 24.0, 670.0], [2.117860851e-3, 22.6, 646.0], [2.062374674e-3, 23.0, 646.0], [2.533063780e-3, 22.6, 648.6], [2.572971781e-3, 22.8, 649.3], [2.923432711e-3, 22.6, 649.0], [2.913311494e-3, 22.8, 649.7], [3.131208996e-3, 22.6, 649.1], [3.221160278e-3, 22.8, 649.9], [3.715596186e-3, 22.6, 649.4], [3.664754790e-3, 22.8, 650.2], [1.970999272e-3, 21.1, 640.0], [2.043919161e-3, 21.8, 643.0], [5.251009921e-3, 21.1, 644.0], [5.256844741e-3, 21.8, 648.0], [1.932829079e-3, 19.1, 635.0], [1.985387227e-3, 20.0, 638.0], [8.483262001e-3, 17.0, 626.0], [6.227528101e-3, 20.0, 640.0], [2.268366647e-3, 21.5, 644.6], [2.296350553e-3, 22.0, 646.1], [2.832373260e-3, 22.5, 648.6], [2.811424405e-3, 22.3, 647.9], [3.694032281e-3, 22.15, 647.5], [3.622226305e-3, 22.3, 648.1], [4.528072649e-3, 22.11, 648.0], [4.556905799e-3, 22.3, 649.0], [2.698354719e-3, 22.0, 646.84], [2.717655648e-3, 22.064, 647.05], [3.798732962e-3, 22.0, 646.89], [3.701940010e-3, 22.064, 647.15], ];
const R3_PHTV_3A: [[f64; 4]; 3] = [ [20.0, 1700.0, 6.293083892e2, 1.749903962e-3], [50.0, 2000.0, 6.905718338e2, 1.908139035e-3], [100.0, 2100.0, 7.336163014e2, 1.676229776e-3], ];
const R3_PHTV_3B: [[f64; 4]; 3] = [ [20.0, 2500.0, 6.418418053e2, 6.670547043e-3], [50.0, 2400.0, 7.351848618e2, 2.801244590e-3], [100.0, 2700.0, 8.420460876e2, 2.404234998e-3], ];
const R3_PSTV_3A: [[f64; 4]; 3] = [ [20.0, 3.8, 6.282959869e2, 1.733791463e-3], [50.0, 3.6, 6.297158726e2, 1.469680170e-3], [100.0, 4.0, 7.056880237e2, 1.555893131e-3], ];
const R3_PSTV_3B: [[f64; 4]; 3] = [ [20.0, 5.0, 6.401176443e2, 6.262101987e-3], [50.0, 4.5, 7.163687517e2, 2.332634294e-3], [100.0, 5.0, 8.474332825e2, 2.449610757e-3], ];
const R3_HSP_3A: [[f64; 3]; 3] = [[1700.0, 3.8, 25.5570324620], [2000.0, 4.2, 45.40873468], [2100.0, 4.3, 60.78123340100]];
const R3_HSP_3B: [[f64; 3]; 3] = [[2600.0, 5.1, 34.34999263], [2400.0, 4.7, 63.6392488750], [2700.0, 5.0, 88.3904328]];
const R4_SAT_TP: [[f64; 2]; 3] = [[300.0, 0.00353658941], [500.0, 2.63889776], [600.0, 12.3443146]];
const R4_SAT_PT: [[f64; 2]; 3] = [[0.1, 372.755919], [1.0, 453.035632], [10.0, 584.149488]];
const R5_PT_DATA: [[f64; 8]; 3] = [ [1500.0, 0.5, 1.38455090, 0.521976855e+4, 4527.49310, 9.65408875, 2.61609445, 917.068690], [1500.0, 30.0, 0.0230761299, 5167.23514, 4474.95124, 7.72970133, 2.72724317, 928.548002], [2000.0, 30.0, 0.0311385219, 6571.22604, 5637.07038, 8.53640523, 2.88569882, 1067.36948], ];
const R1_PT_DATA: [[f64; 8]; 3] = [[3.0, 300.0, 0.100215168e-2, 0.115331273e+3, 0.392294792, 0.112324818e3, 0.417301218e1, 0.150773921e4], [80.0, 300.0, 0.971180894e-3, 0.184142828e+3, 0.368563852, 0.106448356e3, 0.401008987e1, 0.163469054e4], [3.0, 500.0, 0.120241800e-2, 0.975542239e+3, 0.258041912e1, 0.971934985e3, 0.465580682e1, 0.124071337e4]];
const R2_PT_DATA: [[f64; 8]; 3] = [[0.0035, 300.0, 0.394913866E+02, 0.254991145E+04, 0.852238967E+01, 0.241169160E+04, 0.191300162E+01, 0.427920172E+03], [0.0035, 700.0, 0.923015898E+02, 0.333568375E+04, 0.101749996E+02, 0.301262819E+04, 0.208141274E+01, 0.644289068E+03], [30.0, 700.0, 0.542946619E-02, 0.263149474E+04, 0.517540298E+01, 0.246861076E+04, 0.103505092E+02, 0.480386523E+03]];

struct Ck { n: u32, bad: Vec<String> }
impl Ck {
    fn eq(&mut self, what: &str, got: f64, want: f64, rel: f64) {
        self.n += 1;
        if !((got - want).abs() <= rel * want.abs()) { self.bad.push(format!("{what}: reference model gives {got:.12e}, release prints {want:.12e}")); }
    }
}
/// number of verification values checked
pub fn run() -> Result<u32, Vec<String>> {
    let mut k = Ck { n: 0, bad: vec![] };
    let e = 6e-9; // nine printed digits
    for (reg, t) in [(1, R1_PT_DATA), (2, R2_PT_DATA)] {
        for r in t { let s = pt(reg, r[0], r[1]); for (o, w) in [(OV, r[2]), (OH, r[3]), (OS, r[4]), (OU, r[5]), (OCP, r[6]), (OW, r[7])] { k.eq(&format!("r{reg} {}", NAMES[o as usize]), s.prop(o), w, 6e-9); } }
    }
    for r in R5_PT_DATA { let s = pt(5, r[1], r[0]); for (o, w) in [(OV, r[2]), (OH, r[3]), (OU, r[4]), (OS, r[5]), (OCP, r[6]), (OW, r[7])] { k.eq(&format!("r5 {}", NAMES[o as usize]), s.prop(o), w, 6e-9); } }
    for r in R3_TD { let s = reg3(r[1], r[0]); for (o, w) in [(OP, r[2]), (OH, r[3]), (OU, r[4]), (OS, r[5]), (OCP, r[6]), (OW, r[7])] { k.eq(&format!("r3 {}", NAMES[o as usize]), s.prop(o), w, 6e-9); } }
    for (p, h, t) in [(3.0, 500.0, 0.391798509e3), (80.0, 500.0, 0.378108626e3), (80.0, 1500.0, 0.611041229e3)] { k.eq("T(p,h) 1", T_ph1(p, h), t, e); }
    for (p, s, t) in [(3.0, 0.5, 0.307842258e3), (80.0, 0.5, 0.309979785e3), (80.0, 3.0, 0.565899909e3)] { k.eq("T(p,s) 1", T_ps1(p, s), t, e); }
    for (h, s, p) in [(0.001, 0.0, 9.800980612e-4), (90.0, 0.0, 9.192954727e1), (1500.0, 3.4, 5.868294423e1)] { k.eq("p(h,s) 1", p_hs1(h, s), p, e); }
    for t in [R2_PH_2A, R2_PH_2B, R2_PH_2C] { for r in t { k.eq("T(p,h) 2", T_ph2(r[0], r[1]), r[2], e); } }
    for t in [R2_PS_2A, R2_PS_2B, R2_PS_2C] { for r in t { k.eq("T(p,s) 2", T_ps2(r[0], r[1]), r[2], e); } }
    for t in [R2_HS_REG2A, R2_HS_REG2B, R2_HS_REG2C] { for r in t { k.eq("p(h,s) 2", p_hs2(r[0], r[1]), r[2], e); } }
    for r in R3_V_PT { k.eq("v(p,T) 3", v3::v_pT(r[1], r[2]), r[0], e); }
    for t in [R3_PHTV_3A, R3_PHTV_3B] { for r in t { k.eq("T(p,h) 3", T_ph3(r[0], r[1]), r[2], e); k.eq("v(p,h) 3", v_ph3(r[0], r[1]), r[3], e); } }
    for t in [R3_PSTV_3A, R3_PSTV_3B] { for r in t { k.eq("T(p,s) 3", T_ps3(r[0], r[1]), r[2], e); k.eq("v(p,s) 3", v_ps3(r[0], r[1]), r[3], e); } }
    for t in [R3_HSP_3A, R3_HSP_3B] { for r in t { k.eq("p(h,s) 3", p_hs3(r[0], r[1]), r[2], e); } }
    for r in R4_SAT_TP { k.eq("psat", psat(r[0]), r[1], e); }
    for r in R4_SAT_PT { k.eq("Tsat", tsat(r[0]), r[1], e); }
    k.eq("B23 p", b23_p(623.15), 0.165291643e2, e);
    k.eq("B23 T", b23_T(0.165291643e2), 0.623150000e3, e);
    // supplementary releases: saturation p(h), p(s), boundaries in (h,s)
    for (h, p) in [(1700.0, 1.724175718e1), (2000.0, 2.193442957e1), (2400.0, 2.018090839e1)] { k.eq("psat(h)", psat_h(h), p, e); }
    for (s, p) in [(3.8, 1.687755057e1), (4.2, 2.164451789e1), (5.2, 1.668968482e1)] { k.eq("psat(s)", psat_s(s), p, e); }
    for (s, h) in [(1.0, 3.085509647e2), (2.0, 7.006304472e2), (3.0, 1.198359754e3)] { k.eq("h'1(s)", h1(s), h, e); }
    for (s, h) in [(3.8, 1.685025565e3), (4.0, 1.816891476e3), (4.2, 1.949352563e3)] { k.eq("h'3a(s)", h3a(s), h, e); }
    for (s, h) in [(7.0, 2.723729985e3), (8.0, 2.599047210e3), (9.0, 2.511861477e3)] { k.eq("h''2ab(s)", h2ab_sat(s), h, e); }
    for (s, h) in [(5.5, 2.687693850e3), (5.0, 2.451623609e3), (4.5, 2.144360448e3)] { k.eq("h''2c3b(s)", h2c3b(s), h, e); }
    for (s, h) in [(3.7, 1.632525047e3), (3.6, 1.593027214e3), (3.5, 1.566104611e3)] { k.eq("hB13(s)", hB13(s), h, e); }
    for (h, s, t) in [(2600.0, 5.1, 7.135259364e2), (2700.0, 5.15, 7.685345532e2), (2800.0, 5.2, 8.176202120e2)] { k.eq("TB23(h,s)", TB23(h, s), t, e); }
    for (h, s, t) in [(1800.0, 5.3, 3.468475498e2), (2400.0, 6.0, 4.251373305e2), (2500.0, 5.5, 5.225579013e2)] { k.eq("Tsat(h,s)", Tsat_hs(h, s), t, e); }
    // transport
    for (t, d, m) in [(298.15, 998.0, 889.735100), (298.15, 1200.0, 1437.649467), (373.15, 1000.0, 307.883622), (433.15, 1.0, 14.538324), (433.15, 1000.0, 217.685358), (873.15, 1.0, 32.619287), (873.15, 100.0, 35.802262), (873.15, 600.0, 77.430195), (1173.15, 1.0, 44.217245), (1173.15, 100.0, 47.640433), (1173.15, 400.0, 64.154608)] { k.eq("viscosity", trans::viscosity(d, t) * 1e6, m, 5e-8); }
    for (t, d, l) in [(298.15, 0.0, 18.4341883), (298.15, 998.0, 607.712868), (298.15, 1200.0, 799.038144), (873.15, 0.0, 79.1034659)] { k.eq("thermal conductivity", trans::thcond(d, t) * 1e3, l, 5e-8); }
    for (t, g) in [(300.0, 0.0716859625), (450.0, 0.0428914992), (600.0, 0.00837561087)] { k.eq("surface tension", trans::sigma(t), g, e); }
    // IAPWS R8-97 table 4: (T, p) -> eps; densities from the reference region equations
    for (p, t, eps, tol) in [(0.101325, 273.0, 87.96, 2e-4), (0.101325, 323.0, 69.96, 2e-4), (0.101325, 298.15, 78.40, 5e-4)] { k.eq("dielectric", trans::dielectric(1.0 / reg1(p, t).v, t), eps, tol); }
    if k.bad.is_empty() { Ok(k.n) } else { Err(k.bad) }
}
