# The properties and how each is decided (source of properties.jsonl and MANIFEST.json).
def P(id, title, statement, over, qtext, why, files, mech, observe, technique, note, state=None, na=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': observe, 'hook_needed': None}
    if state: a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    return {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why, 'anchors': a, 'technique': technique, 'note': note, 'na': na}
EXPL = 'Held on the executions produced (counts in the evidence), never "verified". '
PROPS = [
P('P01', 'Basic properties of (p,t) states equal the IAPWS-IF97 formulation',
  'For every pressure and temperature in the range of validity, the specific volume, density, enthalpy, entropy, internal energy, isobaric and isochoric heat capacity and speed of sound returned for (p,t) equal those of the IAPWS-IF97 equation of the region the state lies in (regions 1, 2, 3 and 5; in region 3 through the published v(p,T) sub-region equations), to within floating-point round-off, in the documented units. At a boundary between two published equations the value of either is right.',
  ['inputs'], 'all p in 0.000611..100 MPa and t in 0..2000 C inside IF97, off the saturation line itself',
  'The tests compare a few verification-table rows per region at 1e-6..1e-9; a wrong coefficient, exponent, step range, cancellation or sub-region switch between those rows is invisible to them.',
  ['src/r1/region1_pT.rs', 'src/r2/region2_pT.rs', 'src/r3/region3_Td.rs', 'src/r3/region3_v_pT.rs', 'src/r3/region3_v_subregion_pT.rs', 'src/r5/region5_pT.rs', 'src/common/propertry_pairs.rs', 'src/algo'],
  [('basic equations per region', 'src/r1/region1_gfe.rs, src/r2/region2_gfe.rs, src/r3/region3_hfe.rs, src/r5/region5_gfe.rs'), ('polynomial evaluation with step tables', 'src/algo/polynomial.rs, src/algo/polynomial_steps.rs')],
  ['pt(p, t, o_id)'], 'reference-model monitor over generated executions',
  EXPL + 'Trusts the reference model in harness/src/refm, which reproduces 246 published verification values before every run.'),
P('P02', 'Derived properties obey their thermodynamic definitions and documented units',
  'For every valid single-phase (p,t) state, exergy, isentropic exponent, Helmholtz and Gibbs energy, compressibility factor, isobaric expansion, isothermal compressibility, the partial derivatives of v and p, both throttling coefficients, fugacity and fugacity coefficient, relative pressure coefficient and isothermal stress coefficient equal their textbook definitions evaluated on the IF97 equation of state, in the documented units. Exergy takes 273.16 K as its reference temperature and the fugacity coefficient the ideal gas of IF97 as its reference, in every region alike.',
  ['inputs'], 'every documented derived property, all four single-phase regions, all valid (p,t)',
  'The tests sample a handful of states and properties; ten wrong formulas (units of 1e3, wrong density, missing terms) passed all of them.',
  ['src/r1/region1_pT_ext.rs', 'src/r2/region2_pT_ext.rs', 'src/r3/region3_Td_ext.rs', 'src/r5/region5_pT_ext.rs', 'src/common/propertry_pairs.rs', 'README.md'],
  [('closed-form derivatives of each fundamental equation', 'src/r*/region*_ext.rs')], ['pt(p, t, o_id)'],
  'reference-model monitor over generated executions', EXPL + 'Definitions are derived in the monitor from one (p,v,T,h,s,cp,dv/dT,dv/dp) tuple, never property by property as in the code under test.'),
P('P03', 'Transport and further properties equal the IAPWS releases at the state',
  'For every valid single-phase (p,t) state, dynamic viscosity, kinematic viscosity, thermal conductivity, thermal diffusivity, Prandtl number, surface tension and static dielectric constant equal the IAPWS formulations evaluated at that state\'s own density and temperature, in the documented units.',
  ['inputs'], 'seven properties, all four single-phase regions, all valid (p,t)',
  'Tests check single table rows per release and almost never the composed quantities (kinematic viscosity, diffusivity, Prandtl number), where two inputs must belong to the same state.',
  ['src/common/transport_further.rs', 'src/common/propertry_pairs.rs', 'src/r3/region3.rs'], [('transport formulations on (density, T)', 'src/common/transport_further.rs')], ['pt(p, t, o_id)'],
  'reference-model monitor over generated executions', EXPL + 'Reference formulas written from the releases (R12-08, R15-11, R1-76, R8-97).'),

P('P04', 'Region of (p,t): borders, inclusive limits, error codes outside',
  'pt(p,t,r) returns the IF97 region (1, 2, 3, 5) that contains the point, with the limits 0.000611 MPa, 0 C, 100 MPa up to 800 C, 50 MPa above and 2000 C inclusive, and 4 at the saturation pressure (at most 1e-6 relative from it). Outside the range it returns an error code: -2100 for a pressure and -2101 for a temperature out of range. Where the region is 4 or an error code, every other property is a documented error code too, never a number that could be taken for a value.',
  ['inputs'], 'all finite p and t, with weight on every region border and range limit down to one part in 1e16',
  'Tests look at a few points well inside each region; the answer changes on curves and corners, where off-by-one comparisons, wrong boundary curves and order-of-test mistakes live.',
  ['src/common/region.rs', 'src/common/boundaries.rs', 'src/common/constant.rs', 'src/r4/region4_sat_pT.rs', 'src/common/propertry_pairs.rs'],
  [('region decision for (p,T)', 'src/common/region.rs pT_sub_region'), ('saturation and B23 curves', 'src/r4/region4_sat_pT.rs, src/common/boundaries.rs')], ['pt(p, t, 16)', 'pt(p, t, o_id)'],
  'boundary-directed reference monitor', EXPL + 'Within a relative 1e-9 of a border the neighbouring answer is accepted, except at the inclusive limits as written.'),
P('P05', 'Every input pair puts a state into the same region',
  'For a valid state, the region reported for (p,h), (p,s), (h,s), (p,v), (t,v), (t,h) and (t,s) with the library\'s own h, s, v of that state equals the region of the state as given by (p,t) or (t,x), and the p and t such a pair reports lie in the region it reports. At a border the neighbouring region is right too, within the published consistency of the border equations; where inputs also describe a second state (compressed cold water, liquid (t,h)), that state\'s region is right.',
  ['inputs'], 'all valid single-phase and wet-steam states, seven input pairs',
  'Tests check each pair at its own table rows; that eight classifiers with different border equations agree with each other everywhere is a relation over all states.',
  ['src/common/region.rs', 'src/common/boundaries.rs', 'src/r4/region4_T_hs.rs'],
  [('one classifier per pair', 'src/common/region.rs'), ('h-s border equations', 'src/common/boundaries.rs')], ['every pair with id 16', 'pt(p, t, 16)'],
  'round-trip agreement monitor', EXPL + 'The tolerance bands near the borders are those of the IAPWS border equations (allowed() in mon/pairs.rs).'),
P('P06', '(p,h), (p,s), (h,s) follow the IF97 backward equations and recover the state',
  'For (p,h), (p,s) and (h,s) of a valid single-phase state, the temperature, pressure and (region 3) volume returned equal the published IF97 backward equations of the region in regions 1, 2 and 3. They equal the state the inputs came from within the published numerical consistency (25 mK for T; in region 5, which has no backward equations, within round-off of an iterative solution).',
  ['inputs'], 'all single-phase states of regions 1, 2, 3, 5 given as (p,h), (p,s), (h,s), outside a small neighbourhood of the critical point',
  'Tests check three table rows per equation at 1e-6; wrong sub-region switches, coefficients or exponents that matter between those rows and solver failures in corners of region 5 are not seen.',
  ['src/r1/region1_T_phps.rs', 'src/r1/region1_p_hs.rs', 'src/r2/region2_T_ph.rs', 'src/r2/region2_T_ps.rs', 'src/r2/region2_p_hs.rs', 'src/r3/region3_Tv_phps.rs', 'src/r3/region3_p_hs.rs', 'src/r5/region5_ph_ps_hs.rs'],
  [('published backward equations', 'src/r1, src/r2, src/r3'), ('iterative solution in region 5', 'src/r5/region5_ph_ps_hs.rs, src/algo/root.rs')], ['ph, ps, hs with ids 0, 1, 3, 16'],
  'reference-model and round-trip monitor', EXPL + 'Excludes 0.35 MPa and 2.5 K around the critical point for the round trip.'),
P('P07', '(p,v), (t,v), (t,h), (t,s) return a state that really has the given inputs',
  'For (p,v), (t,v), (t,h) and (t,s) of a valid single-phase state, the pressure, temperature and volume returned describe a state inside the range of validity whose properties by the IF97 equations reproduce both inputs to solver tolerance. Where the two inputs fix the state (everywhere except cold liquid water and liquid (t,h)), it is the state they came from.',
  ['inputs'], 'all single-phase states of regions 1, 2, 3, 5 given by these four pairs, outside a small neighbourhood of the critical point',
  'These pairs are solved by iteration from heuristic start points; whether the iteration converges to a right state depends on every input, and tests try a handful.',
  ['src/r1/region1_pair_ext.rs', 'src/r2/region2_pair_ext.rs', 'src/r3/region3_pair_ext.rs', 'src/r5/region5_pair_ext.rs', 'src/algo/root.rs', 'src/common/region.rs'],
  [('root finding per pair and region', 'src/r*/region*_pair_ext.rs, src/algo/root.rs')], ['pv, tv, th, ts with all ids'],
  'residual and round-trip monitor', EXPL + 'Residuals are evaluated on the reference equations.'),
P('P08', 'Saturation line: one consistent curve with the IF97 saturated states on it',
  'From 0 C to the critical point, px and tx return the IF97 saturation pressure and temperature as mutual inverses, strictly increasing, and for quality 0 and 1 all properties of saturated liquid and steam by the IF97 equations of the adjoining single-phase regions. On the library\'s own values the two phases have equal Gibbs energy, latent heat T(s\'\'-s\'), larger v, h and s for steam, and satisfy the Clapeyron equation, within the published consistency.',
  ['inputs'], 'all saturation temperatures and pressures, quality 0 and 1, all property ids',
  'Tests use a few saturation points; the saturated volumes above 350 C come from six different equations whose switches the tests never straddle.',
  ['src/r4/region4_sat_pT.rs', 'src/r4/region4_pTx.rs', 'src/r4/region4.rs', 'src/r3/region3_v_subregion_pT.rs'],
  [('saturation equation and its inverse', 'src/r4/region4_sat_pT.rs'), ('saturated states', 'src/r4/region4_pTx.rs')], ['px, tx with x = 0 and 1'],
  'reference-model monitor with phase-equilibrium laws', EXPL + 'Within 5e-6 of a switch of the saturated-volume equations and 1e-5 K of the critical point nothing is judged.'),
P('P09', 'Wet steam obeys the lever rule however the state is given',
  'In the two-phase region v, h, s, u, f, g and e are the quality-weighted means of the saturated values (density is the reciprocal of the mean volume), and properties that wet steam does not have return an error code. Given as (p,h), (p,s), (h,s), (p,v), (t,v), (t,h), (t,s), (h,x) or (s,x), a wet state is returned on the saturation line with the pressure, temperature, quality and mixture properties of a state that has both inputs; where they fix the state it is the one they came from.',
  ['inputs'], 'all wet-steam states 0 C to the critical point, quality 0..1, eleven input pairs, all ids',
  'Tests check a few wet states; the inverses iterate over the saturation line with jumps above 350 C, and their correctness is a relation over all (T,x).',
  ['src/r4/region4.rs', 'src/r4/region4_pTx.rs', 'src/r4/region4_pair_ext.rs', 'src/r4/region4_T_hs.rs'],
  [('mixtures and inverses', 'src/r4/region4*.rs')], ['px, tx, hx, sx and the seven pairs with region 4'],
  'reference-model and round-trip monitor', EXPL + 'Residual bounds widen near the critical point as the published saturated-volume equations do.'),
P('P10', 'Properties agree on both sides of every region and sub-region border',
  'Across every region border (350 C, the B23 line, 800 C, the saturation line for Gibbs energy), every edge and pressure switch of the 26 v(p,T) sub-regions and every switch inside the backward equations, the values returned on the two sides agree within the consistency published for IF97 (0.2 kJ/kg, 0.2 J/(kg K), 0.05 % in v, 1 % in cp and w; sub-region volumes to the stated consistency of their equations). The region 3 volume returned for (p,t) gives back p when fed to (t,v).',
  ['inputs'], 'all points on all borders between equations',
  'Tests never compare two sides of a border; a wrong equation, switch point or curve there shows only in the difference of two neighbouring calls.',
  ['src/common/region.rs', 'src/common/boundaries.rs', 'src/r3/region3_v_pT.rs', 'src/r3/region3_v_subregion_pT.rs', 'src/r2/region2_T_ph.rs', 'src/r2/region2_T_ps.rs', 'src/r2/region2_p_hs.rs', 'src/r3/region3_Tv_phps.rs'],
  [('choice of equation', 'src/common/region.rs, src/r3/region3_v_pT.rs')], ['pt, ph, ps, hs, tv on both sides of a border'],
  'metamorphic continuity monitor on the library\'s own values', EXPL + 'The reference only places the points; the verdict compares library values with each other.'),
P('P11', 'An explicit region gives that region\'s equations; the automatic one the same value',
  'For all eight pairs that accept a region, naming the region that the library itself reports for the inputs, or 10 (none), changes no returned value by a single bit, for single-phase and wet states and every property id. Naming region 1, 2 or 5 for (p,t) evaluates that region\'s equations, also slightly beyond its border.',
  ['inputs', 'configurations'], 'all valid states, all ids, eight pairs, region argument automatic, explicit, 10',
  'Tests call the two forms at different states and never compare them; an argument mix-up in one of 8 x 5 dispatch arms stays unseen.',
  ['src/rust_if97.rs', 'src/common/propertry_pairs.rs', 'src/r1/region1.rs', 'src/r2/region2.rs', 'src/r3/region3.rs', 'src/r4/region4.rs', 'src/r5/region5.rs'],
  [('dispatch on region', 'src/common/propertry_pairs.rs pair_properties')], ['f(a, b, o_id)', 'f(a, b, (o_id, region))'],
  'differential monitor', EXPL + 'Bit equality needs no tolerance; the forced-region part uses the reference equations.'),
P('P12', 'Every call returns: no panic, crash, memory error or endless iteration',
  'Every public function, for every pair of 64-bit floats (NaN, infinities, denormals, far out of range, near-critical), every property id and every region argument, returns a number in bounded time. It does not panic, overflow an integer, abort, overflow the stack, touch memory out of bounds or iterate without end.',
  ['inputs'], 'all f64 x f64 x i32 x i32 arguments of all twelve functions',
  'Tests pass sensible values only; iterations without a step limit and array indexing by computed numbers fail on inputs nobody wrote down.',
  ['src/algo/root.rs', 'src/algo/polynomial_steps.rs', 'src/r4/region4_pair_ext.rs', 'src/r3/region3_pair_ext.rs', 'src/r5/region5_ph_ps_hs.rs', 'src/rust_if97.rs'],
  [('bounded iterations', 'src/algo/root.rs and the solvers in src/r*'), ('validation of inputs', 'src/common/region.rs')], ['return of every public function; AddressSanitizer; watchdog'],
  'hostile-input stress with overflow checks, AddressSanitizer and a hang watchdog', EXPL + 'A hang is only reported after the call, run alone, has used 20 s of CPU.'),
P('P13', 'Inputs no valid state has yield error codes, never plausible numbers',
  'When an input is out of range, when the two inputs of a pair are those of no valid state (beyond every state by more than the tolerance of the published border equations), when the quality is not in 0..1, or the property id does not exist, every requested property other than an echoed input is one of the documented error codes. NaN and infinite inputs yield an error code or NaN.',
  ['inputs'], 'all inputs outside the range of validity, twelve functions, all ids',
  'Out-of-range behaviour has almost no tests, and the outside is unbounded: a solver or extrapolated equation that accepts a bad input returns a number that looks like steam.',
  ['src/common/region.rs', 'src/common/boundaries.rs', 'src/r4/region4.rs', 'src/r4/region4_pair_ext.rs', 'src/rust_if97.rs', 'src/common/constant.rs'],
  [('range checks per pair', 'src/common/region.rs'), ('range checks for quality pairs', 'src/rust_if97.rs, src/r4')], ['all functions and ids'],
  'reference-bounded rejection monitor', EXPL + 'The limits are computed from the reference equations with the margins listed in DESIGN.md; steam below 0.000611 MPa given by t with v, h or s is not judged.'),
P('P14', 'Every call is a pure function: independent of history, threads and process',
  'The value returned for given arguments is bit for bit the same whatever calls were made before, in whatever order, from however many threads at the same time and in any process. No call writes state that another call, on any thread, can observe.',
  ['histories', 'schedules'], 'all call sequences and all thread interleavings of the twelve functions',
  'Tests run each call once in a fixed order on one thread; a cache, a start value kept from the last call or a shared table is only visible across calls, orders and threads.',
  ['src/algo', 'src/common', 'src/r1', 'src/r2', 'src/r3', 'src/r4', 'src/r5', 'src/rust_if97.rs'],
  [('no shared mutable state', 'whole library')], ['all functions, compared across orders, threads and processes; ThreadSanitizer'],
  'history and interleaving stress with bitwise comparison and ThreadSanitizer', EXPL + 'Counts of overlapped calls are in the evidence.'),
P('P15', 'The C libraries (cdecl, stdcall) return what the Rust library returns',
  'Each of the twelve functions exported by the shared library built with feature cdecl, and by the one built with feature stdcall for 32-bit x86, returns for every input and property id the value the Rust function of the same name returns without a region argument. This includes error codes and echoed inputs.',
  ['inputs', 'configurations'], 'all inputs and ids, twelve exported functions, two builds',
  'No test loads the shared library; the bindings repeat the dispatch of the Rust API by hand in separate files, so a fix or slip in one of them is invisible to the tests.',
  ['src/cdecl_c_if97.rs', 'src/stdcall_c_if97.rs', 'Cargo.toml'],
  [('C exports', 'src/cdecl_c_if97.rs, src/stdcall_c_if97.rs')], ['symbols pt .. sx of libseuif97.so loaded with dlopen; the stdcall functions in a 32-bit process'],
  'differential monitor across bindings', EXPL + 'The 32-bit build is compared with the Rust API inside the same 32-bit process.'),
P('P16', 'The Python module returns what the Rust library returns',
  'Each of the twelve functions of the Python package seuif97 returns for every input and property id the value the Rust function of the same name returns without a region argument, including error codes and echoed inputs. Each of its 48 short forms (pt2h, ph2t and so on) returns the value of the pair and property in its name.',
  ['inputs', 'configurations'], 'all inputs and ids, twelve Python functions',
  'No test imports the extension; it repeats the dispatch by hand in its own file.',
  ['src/python_if97.rs', 'python/seuif97/__init__.py', 'setup.py'],
  [('pyfunctions', 'src/python_if97.rs')], ['import seuif97; seuif97.pt .. seuif97.sx'],
  'differential monitor across bindings', EXPL + 'Built with pyo3 against the system Python 3.12.'),
P('P17', 'Every valid state is physical: signs, stability, magnitude, monotone trends',
  'For every valid single-phase state given by any pair all properties are finite numbers (surface tension only below the critical temperature), volume, heat capacities, speed of sound, compressibility and transport properties are positive, cp >= cv, volume falls with pressure, and every value lies within the extremes of the IF97 range. Along isobars v (above 5 C), h, s and u rise with t; along isotherms v and (above 5 C) s fall and g rises with p; wet-steam v, h, s and u rise with quality.',
  ['inputs'], 'all valid states, eight pairs, all ids, and all pairs of neighbouring states',
  'Tests compare single numbers; a sign, a unit factor or a kink between table rows is only visible as a violated law over all states.',
  ['src/r1', 'src/r2', 'src/r3', 'src/r5', 'src/r4', 'src/common'],
  [('region equations', 'src/r*')], ['all ids by every pair'],
  'invariant monitor on the library\'s own values', EXPL + 'Skips 0.35 MPa and 2.5 K around the critical point.'),
P('P18', 'All properties returned for one input pair describe one and the same state',
  'For a valid single-phase state given by (p,h), (p,s), (h,s), (p,v), (t,v), (t,h) or (t,s), both inputs are returned unchanged, and every other property returned equals the IF97 value at the pressure and temperature (in region 3, volume and temperature) returned for the same inputs. Quality is 0 in region 1 and 1 in regions 2 and 5.',
  ['inputs'], 'all single-phase states, seven pairs, 36 ids',
  'Each (pair, region, property) arm of the dispatch is separate code, over 1000 of them; tests touch a small fraction.',
  ['src/common/propertry_pairs.rs', 'src/r1/region1.rs', 'src/r2/region2.rs', 'src/r3/region3.rs', 'src/r5/region5.rs', 'src/rust_if97.rs'],
  [('dispatch to (p,T) or (T,d) properties', 'src/r*/region*.rs, src/common/propertry_pairs.rs')], ['seven pairs, all ids'],
  'one-state consistency monitor', EXPL + 'In region 3 the returned p agrees with the returned (v,T) within the consistency of the published equations only.'),
P('P19', 'Returned values obey the laws of thermodynamics among themselves',
  'The library\'s own values satisfy the thermodynamic relations: cp, cv, s, v, p and the partial derivatives it returns equal the numerical derivatives of its h, u, g, f, s, v, p, the Maxwell relations hold, and the 36 properties of a state satisfy their defining identities (g=h-Ts, u=h-pv, kappa, throttling, Prandtl, fugacity and so on). This holds for single-phase (p,t) states in regions 1, 2, 5 and (t,v) states in region 3.',
  ['inputs'], 'all single-phase states away from borders',
  'A law relates values at neighbouring states and between properties; tests compare one number with one table entry.',
  ['src/r1/region1_pT.rs', 'src/r1/region1_pT_ext.rs', 'src/r2/region2_pT.rs', 'src/r2/region2_pT_ext.rs', 'src/r3/region3_Td.rs', 'src/r3/region3_Td_ext.rs', 'src/r5/region5_pT.rs', 'src/r5/region5_pT_ext.rs', 'src/common/transport_further.rs'],
  [('closed-form derivatives', 'src/r*/region*_pT*.rs, src/r3/region3_Td*.rs')], ['pt and tv, all ids'],
  'metamorphic law monitor, no reference equation', EXPL + 'Difference quotients with an error estimate from two step sizes.'),
P('P20', 'A call leaves no trace: no I/O, kept memory, thread or changed process state',
  'A call of a function of the Rust library, with valid or invalid arguments, reads and writes no file, terminal, socket or other process, starts no thread, and keeps no memory: what is allocated does not grow when calls are repeated. It leaves the floating-point control state (rounding, flush-to-zero), signal handling, environment, working directory and panic hook of the process as they were. It runs in a thread with a stack of 256 kB.',
  ['inputs', 'histories'], 'every call; any number of them',
  'Tests look at returned values only; a leak, a message, a log file or a changed rounding mode is invisible to them.',
  ['src/rust_if97.rs', 'src/common/propertry_pairs.rs', 'src/common/region.rs', 'src/algo/root.rs', 'src/r1', 'src/r2', 'src/r3', 'src/r4', 'src/r5'],
  [('solvers', 'src/algo/root.rs'), ('dispatch', 'src/rust_if97.rs')], ['twelve functions, all ids and regions'],
  'system-call filter, counting allocator and process-state monitor around every call', EXPL + 'A cache of bounded size is no leak. Clock and random source are left to P14.'),
]
