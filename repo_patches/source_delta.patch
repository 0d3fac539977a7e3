From f47d3aaf41a86efe561016f90cac5488a6ca282b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:24 +0000
Subject: [PATCH 01/35] fix: Prandtl number of (p,T) states used 1/T as the
 density

---
 src/common/propertry_pairs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/propertry_pairs.rs b/src/common/propertry_pairs.rs
index 90bad88..af7d846 100644
--- a/src/common/propertry_pairs.rs
+++ b/src/common/propertry_pairs.rs
@@ -95,7 +95,7 @@ pub fn pair_transport_reg(v1: f64, v2: f64, o_id: i32, pair: PAIRS, fn_thermal:
                 prandtl_number(dv, cp, tc)
             }
             _ => {
-                let d = 1.0 / v2;
+                let d = fn_thermal(v1, v2, OD);
                 let dv: f64 = viscosity(d, v2);
                 let cp: f64 = fn_thermal(v1, v2, OCP);
                 let tc: f64 = thcond(d, v2);
-- 
2.43.0


From 1b404ffa7aa5d7a72ac953024f0c13d6211eda94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:27 +0000
Subject: [PATCH 02/35] fix: kinematic viscosity in region 3 multiplied by the
 density instead of dividing

---
 src/common/propertry_pairs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/propertry_pairs.rs b/src/common/propertry_pairs.rs
index af7d846..3919268 100644
--- a/src/common/propertry_pairs.rs
+++ b/src/common/propertry_pairs.rs
@@ -51,7 +51,7 @@ pub fn pair_transport_reg(v1: f64, v2: f64, o_id: i32, pair: PAIRS, fn_thermal:
         },
         OKV => match pair {
             // d,T
-            PAIRS::Td => v2 * viscosity(v2, v1),
+            PAIRS::Td => viscosity(v2, v1) / v2,
             _ => {
                 let d = fn_thermal(v1, v2, OD);
                 viscosity(d, v2) / d
-- 
2.43.0


From d7d9bb0ea96e3b62382ebb18441263aee5b166db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:30 +0000
Subject: [PATCH 03/35] fix: isochoric heat capacity in region 5, only the b*b
 term is divided by c

---
 src/r5/region5_pT.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/r5/region5_pT.rs b/src/r5/region5_pT.rs
index 5239a98..68d6544 100644
--- a/src/r5/region5_pT.rs
+++ b/src/r5/region5_pT.rs
@@ -54,7 +54,7 @@ pub fn pT2cv_reg5(p: f64, T: f64) -> f64 {
     let a: f64 = -tau * tau * (gamma0_tautau_reg5(tau) + gammar_tautau);
     let b: f64 = 1.0 + pi * gammar_pi - tau * pi * gammar_pitau;
     let c: f64 = 1.0 - pi * pi * gammar_pipi;
-    RGAS_WATER * (a - b * b) / c
+    RGAS_WATER * (a - b * b / c)
 }
 
 pub fn pT2w_reg5(p: f64, T: f64) -> f64 {
-- 
2.43.0


From e51bec0b967618a55abb6082e8b90699f2e9664b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:33 +0000
Subject: [PATCH 04/35] fix: specific exergy in region 3, tau multiplies
 phi_tau only

---
 src/r3/region3_Td_ext.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/r3/region3_Td_ext.rs b/src/r3/region3_Td_ext.rs
index f517f89..69b4178 100644
--- a/src/r3/region3_Td_ext.rs
+++ b/src/r3/region3_Td_ext.rs
@@ -126,7 +126,7 @@ pub fn Td2e_reg3(T: f64, d: f64) -> f64 {
     let phi = phi_reg3(delta, tau);
     let phidelta = phi_delta_reg3(delta, tau);
     let phitau = phi_tau_reg3(delta, tau);
-    RGAS_WATER * (T * (phi + delta * phidelta) + (T - Tt) * tau * (phitau - phi))
+    RGAS_WATER * (T * (phi + delta * phidelta) + (T - Tt) * (tau * phitau - phi))
 }
 
 /// z: Compressibility factor  
-- 
2.43.0


From b79ad23609b964b7f7cd3d98dbf2998eb4c7bdfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:59 +0000
Subject: [PATCH 05/35] fix: isothermal throttling coefficient was 1000 times
 smaller than its documented kJ/(kg MPa)

---
 src/r1/region1_pT_ext.rs | 2 +-
 src/r2/region2_pT_ext.rs | 2 +-
 src/r3/region3_Td_ext.rs | 2 +-
 src/r5/region5_pT_ext.rs | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/r1/region1_pT_ext.rs b/src/r1/region1_pT_ext.rs
index 63c11ce..ee58d5d 100644
--- a/src/r1/region1_pT_ext.rs
+++ b/src/r1/region1_pT_ext.rs
@@ -113,7 +113,7 @@ pub fn pT2joule_reg1(p: f64, T: f64) -> f64 {
 pub fn pT2iJTC_reg1(p: f64, T: f64) -> f64 {
     let tau: f64 = r1Tstar / T;
     let pi: f64 = p / r1pstar;
-    0.001 * RGAS_WATER * r1Tstar * gamma_pitau_reg1(pi, tau) / r1pstar
+    RGAS_WATER * r1Tstar * gamma_pitau_reg1(pi, tau) / r1pstar
 }
 
 /// dvdp Partial derivative (dV/dP)T  m3/(kg·MPa)
diff --git a/src/r2/region2_pT_ext.rs b/src/r2/region2_pT_ext.rs
index 9a45949..3b4ff74 100644
--- a/src/r2/region2_pT_ext.rs
+++ b/src/r2/region2_pT_ext.rs
@@ -110,7 +110,7 @@ pub fn pT2iJTC_reg2(p: f64, T: f64) -> f64 {
     let tau: f64 = r2Tstar / T;
     let pi: f64 = p;
     let gummapitau = gamma0_pitau_reg2() + gammar_pitau_reg2(pi, tau);
-    0.001 * RGAS_WATER * r2Tstar * gummapitau
+    RGAS_WATER * r2Tstar * gummapitau
 }
 
 /// (dp/dt)v MPa/K
diff --git a/src/r3/region3_Td_ext.rs b/src/r3/region3_Td_ext.rs
index 69b4178..6f50c04 100644
--- a/src/r3/region3_Td_ext.rs
+++ b/src/r3/region3_Td_ext.rs
@@ -102,7 +102,7 @@ pub fn Td2joule_reg3(T: f64, d: f64) -> f64 {
 ///  iJTC Isothermal Joule-Thomson coefficient kJ/(kg·MPa)
 /// *  (dh/dp)t
 pub fn Td2iJTC_reg3(T: f64, d: f64) -> f64 {
-    -Td2cp_reg3(T, d) * Td2joule_reg3(T, d) / 1000.0
+    -Td2cp_reg3(T, d) * Td2joule_reg3(T, d)
 }
 
 ///  (dp/dT)v
diff --git a/src/r5/region5_pT_ext.rs b/src/r5/region5_pT_ext.rs
index 14574fa..a36e389 100644
--- a/src/r5/region5_pT_ext.rs
+++ b/src/r5/region5_pT_ext.rs
@@ -102,7 +102,7 @@ pub fn pT2iJTC_reg5(p: f64, T: f64) -> f64 {
     let tau: f64 = r5Tstar / T;
     let pi: f64 = p / r5Pstar;
     let gummapitau = gamma0_pitau_reg5() + gammar_pitau_reg5(pi, tau);
-    0.001 * RGAS_WATER * r5Tstar * gummapitau
+    RGAS_WATER * r5Tstar * gummapitau
 }
 
 /// (dp/dt)v MPa/K
-- 
2.43.0


From d607f80817e4b7f899232887735fabefe99dd8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:02 +0000
Subject: [PATCH 06/35] fix: region 3 sub-regions c and k between psat(643.15
 K) and 22.5 MPa were overwritten by u/x

---
 src/r3/region3_v_pT.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/r3/region3_v_pT.rs b/src/r3/region3_v_pT.rs
index c952942..bd56188 100644
--- a/src/r3/region3_v_pT.rs
+++ b/src/r3/region3_v_pT.rs
@@ -285,6 +285,7 @@ pub fn sub_region3_pT(p: f64, T: f64) -> char {
 
             if T <= tBcd {
                 subRegion = 'c';
+                return subRegion;
             } else if T <= tBqu {
                 subRegion = 'q';
                 return subRegion;
@@ -297,6 +298,7 @@ pub fn sub_region3_pT(p: f64, T: f64) -> char {
 
             if T > tBjk {
                 subRegion = 'k';
+                return subRegion;
             }
 
             // tBqu < T <= tBrx
-- 
2.43.0


From 01d4de3bea3aa9ab242a96d08c548af995854bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:05 +0000
Subject: [PATCH 07/35] fix: fugacity coefficient in regions 1 and 3 lacked the
 ideal-gas reference used in region 2

---
 src/r1/region1_pT_ext.rs |  6 ++++--
 src/r2/region2_pT_ext.rs | 10 ++++++++--
 src/r3/region3_Td_ext.rs |  6 ++++--
 3 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/r1/region1_pT_ext.rs b/src/r1/region1_pT_ext.rs
index ee58d5d..a5e735d 100644
--- a/src/r1/region1_pT_ext.rs
+++ b/src/r1/region1_pT_ext.rs
@@ -25,6 +25,7 @@ use crate::algo::*;
 use crate::common::*;
 use crate::r1::region1_gfe::*;
 use crate::r1::region1_pT::*;
+use crate::r2::region2_pT_ext::pT2g0_reg2;
 
 /// Region1: the extended properties
 pub fn pT_ext_reg1(p: f64, T: f64, o_id: i32) -> f64 {
@@ -170,10 +171,11 @@ pub fn pT2batap_reg1(p: f64, T: f64) -> f64 {
 }
 
 ///fi Fugacity coefficient  
-/// *  fi = exp(g/ R /T)
+/// *  fi = exp((g-g0)/ R /T)
 pub fn pT2fi_reg1(p: f64, T: f64) -> f64 {
     let g: f64 = pT2g_reg1(p, T);
-    (g / RGAS_WATER / T).exp()
+    let g0: f64 = pT2g0_reg2(p, T);
+    ((g - g0) / RGAS_WATER / T).exp()
 }
 
 ///  fu: Fugacity  MPa
diff --git a/src/r2/region2_pT_ext.rs b/src/r2/region2_pT_ext.rs
index 3b4ff74..3dca871 100644
--- a/src/r2/region2_pT_ext.rs
+++ b/src/r2/region2_pT_ext.rs
@@ -162,10 +162,16 @@ pub fn pT2batap_reg2(p: f64, T: f64) -> f64 {
 /// *  fi = exp((g-g0)/ R /T)
 pub fn pT2fi_reg2(p: f64, T: f64) -> f64 {
     let g: f64 = pT2g_reg2(p, T);
+    let g0: f64 = pT2g0_reg2(p, T);
+    ((g - g0) / RGAS_WATER / T).exp()
+}
+
+/// g0: the Gibbs free energy of the ideal gas  kJ/kg
+///  *  the reference of the fugacity coefficient in the regions 1,2,3
+pub fn pT2g0_reg2(p: f64, T: f64) -> f64 {
     let tau: f64 = r2Tstar / T;
     let pi: f64 = p;
-    let g0: f64 = T * RGAS_WATER * gamma0_reg2(pi, tau);
-    ((g - g0) / RGAS_WATER / T).exp()
+    T * RGAS_WATER * gamma0_reg2(pi, tau)
 }
 
 /// fu: Fugacity  MPa
diff --git a/src/r3/region3_Td_ext.rs b/src/r3/region3_Td_ext.rs
index 6f50c04..0a0d497 100644
--- a/src/r3/region3_Td_ext.rs
+++ b/src/r3/region3_Td_ext.rs
@@ -4,6 +4,7 @@
 
 use crate::algo::*;
 use crate::common::*;
+use crate::r2::region2_pT_ext::pT2g0_reg2;
 use crate::r3::region3_hfe::*;
 use crate::r3::*;
 
@@ -156,10 +157,11 @@ pub fn Td2batap_reg3(T: f64, d: f64) -> f64 {
 }
 
 /// fi Fugacity coefficient  
-///  *  fi = exp(g/ R /T)
+///  *  fi = exp((g-g0)/ R /T)
 pub fn Td2fi_reg3(T: f64, d: f64) -> f64 {
     let g: f64 = Td2g_reg3(T, d);
-    (g / RGAS_WATER / T).exp()
+    let g0: f64 = pT2g0_reg2(Td2p_reg3(T, d), T);
+    ((g - g0) / RGAS_WATER / T).exp()
 }
 
 ///  fu: Fugacity  MPa
-- 
2.43.0


From 4482a0b83f13221c4a3b77b57d58e02566b18b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:42 +0000
Subject: [PATCH 08/35] fix: density of wet steam is the inverse of the mixed
 specific volume

---
 src/r3/region3.rs     | 1 +
 src/r4/region4_pTx.rs | 6 ++++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/r3/region3.rs b/src/r3/region3.rs
index 5f861bf..8fda807 100644
--- a/src/r3/region3.rs
+++ b/src/r3/region3.rs
@@ -22,6 +22,7 @@ pub fn Td_reg3(T: f64, d: f64, o_id: i32) -> f64 {
 pub fn Td_thermal_reg3(T: f64, d: f64, o_id: i32) -> f64 {
     match o_id {
         OV => 1.0 / d,
+        OD => d,
         OP => Td2p_reg3(T, d),
         OH => Td2h_reg3(T, d),
         OS => Td2s_reg3(T, d),
diff --git a/src/r4/region4_pTx.rs b/src/r4/region4_pTx.rs
index 394e318..051ff3b 100644
--- a/src/r4/region4_pTx.rs
+++ b/src/r4/region4_pTx.rs
@@ -177,7 +177,8 @@ pub fn px_reg4(p: f64, x: f64, o_id: i32) -> f64 {
     let T: f64 = T_saturation(p);
     match o_id {
         OT => return T-273.15,
-        OH | OS | OV | OD | OU | OF | OG | OE => {
+        OD => return 1.0 / px_reg4(p, x, OV), // the specific volume is additive, the density is not
+        OH | OS | OV | OU | OF | OG | OE => {
             // region 4 x(0,1) return  v,h,s only
             let mut rl: f64 = 0.0;
             let mut rv: f64 = 0.0;
@@ -210,7 +211,8 @@ pub fn Tx_reg4(T: f64, x: f64, o_id: i32) -> f64 {
     }
     let mut r: f64 = 0.0;
     match o_id {
-        OH | OS | OV | OD | OU | OF | OG | OE => {
+        OD => return 1.0 / Tx_reg4(T, x, OV), // the specific volume is additive, the density is not
+        OH | OS | OV | OU | OF | OG | OE => {
             // region 4 x(0,1) return  v,h,s only
             let mut rl: f64 = 0.0;
             let mut rv: f64 = 0.0;
-- 
2.43.0


From add10a25a25c6eb82b32683494cbb250c847fc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:55 +0000
Subject: [PATCH 09/35] fix: steam at exactly the minimum pressure was not
 assigned to region 2 below 350 C

---
 src/common/region.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/region.rs b/src/common/region.rs
index 3ca9e72..4485603 100644
--- a/src/common/region.rs
+++ b/src/common/region.rs
@@ -60,7 +60,7 @@ pub fn pT_sub_region(p: f64, T: f64) -> i32 {
         if p >= p_saturation(T) && p <= 100.0 {
             return 1;
         }
-        if p < p_saturation(T) && p > P_MIN {
+        if p < p_saturation(T) && p >= P_MIN {
             return 2;
         }
     };
-- 
2.43.0


From 3c6539c7676b3e3312d093d87169e524b1951062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:05 +0000
Subject: [PATCH 10/35] fix: region 3 sub-region l left out the last term of
 its v(p,T) equation

---
 src/r3/region3_v_subregion_pT.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/r3/region3_v_subregion_pT.rs b/src/r3/region3_v_subregion_pT.rs
index bc7117f..f0be9fc 100644
--- a/src/r3/region3_v_subregion_pT.rs
+++ b/src/r3/region3_v_subregion_pT.rs
@@ -561,7 +561,7 @@ pub fn pT2v_3l(p: f64, T: f64) -> f64 {
     #[rustfmt::skip]
     let d:para = para {PS: 24.0,  TS: 650.0,   VS: 0.0026,
                         a: 0.908,  b: 0.989,    c: 1.0,    d: 1.0,  e: 4.0, };
-    let steps: [(usize, usize); 3] = [(0, 17), (17, 30), (30, 42)];
+    let steps: [(usize, usize); 3] = [(0, 17), (17, 30), (30, 43)];
     pT2v_sum_steps(p, T, &IJn, d, &steps)
 }
 
-- 
2.43.0


From 6e96e33e4509a6739e6a695cf299521c31793806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:18 +0000
Subject: [PATCH 11/35] fix: (t,v), (t,h) and (t,s) rejected every region 2
 state between 590 and 800 C

---
 src/common/region.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/common/region.rs b/src/common/region.rs
index 4485603..37b575f 100644
--- a/src/common/region.rs
+++ b/src/common/region.rs
@@ -536,6 +536,7 @@ pub fn tv_sub_region(t: f64, v: f64) -> i32 {
     };
     if ((T >= T_MIN2) && (T <= T_MAX1) && (v > vss) && (v < vpmax2))
         || ((T > T_MAX1) && (T <= T_MAX3) && (v >= vB23) && (v < vpmax2))
+        || ((T > T_MAX3) && (T <= T_MAX2) && (v >= vp100) && (v < vpmax2))
     {
         return 2;
     };
@@ -579,6 +580,8 @@ pub fn th_sub_region(t: f64, h: f64) -> i32 {
         hp100 = pT2h_reg1(100.0, T);
     } else if (T > T_MIN3) && (T <= T_MAX3) {
         hp100 = pt_reg3(100.0, T - 273.15, OH);
+    } else if (T > T_MAX3) && (T <= T_MAX2) {
+        hp100 = pT2h_reg2(100.0, T);
     }
 
     let mut hsw: f64 = 0.0;
@@ -637,6 +640,9 @@ pub fn th_sub_region(t: f64, h: f64) -> i32 {
     if (T > T_MAX1) && (T <= T_MAX3) && (h >= hB23) && (h < hpmax2) {
         return 2;
     };
+    if (T > T_MAX3) && (T <= T_MAX2) && (h >= hp100) && (h < hpmax2) {
+        return 2;
+    };
     if (T > T_MIN3) && (T <= TC_WATER) && (((h > hss) && (h < hB23)) || ((h >= hp100) && (h < hsw)))
         || ((T > TC_WATER) && (T <= T_MAX3) && (h >= hp100) && (h < hB23))
     {
@@ -715,6 +721,7 @@ pub fn ts_sub_region(t: f64, s: f64) -> i32 {
     };
     if ((T >= T_MIN2) && (T <= T_MAX1) && (s > sss) && (s < spmax2))
         || ((T > T_MAX1) && (T <= T_MAX3) && (s >= sB23) && (s < spmax2))
+        || ((T > T_MAX3) && (T <= T_MAX2) && (s >= sp100) && (s < spmax2))
     {
         return 2;
     };
-- 
2.43.0


From 82d4cf3c8ddf66adea6aa7dca4bd6c0c5648b8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:15 +0000
Subject: [PATCH 12/35] fix: (t,v) and (t,s) rejected liquid at the inclusive
 limit of 100 MPa

---
 src/common/region.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/region.rs b/src/common/region.rs
index 37b575f..c6f1a86 100644
--- a/src/common/region.rs
+++ b/src/common/region.rs
@@ -531,7 +531,7 @@ pub fn tv_sub_region(t: f64, v: f64) -> i32 {
     };
 
     //
-    if (T >= T_MIN1) && (T <= T_MAX1) && (v < vsw) && (v > vp100) {
+    if (T >= T_MIN1) && (T <= T_MAX1) && (v < vsw) && (v >= vp100) {
         return 1;
     };
     if ((T >= T_MIN2) && (T <= T_MAX1) && (v > vss) && (v < vpmax2))
@@ -716,7 +716,7 @@ pub fn ts_sub_region(t: f64, s: f64) -> i32 {
         };
     };
     //
-    if (T >= T_MIN1) && (T <= T_MAX1) && (s < ssw) && (s > sp100) {
+    if (T >= T_MIN1) && (T <= T_MAX1) && (s < ssw) && (s >= sp100) {
         return 1;
     };
     if ((T >= T_MIN2) && (T <= T_MAX1) && (s > sss) && (s < spmax2))
-- 
2.43.0


From 6adbaea0817d21583ef668bc8c705f3a8bb481a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:44 +0000
Subject: [PATCH 13/35] fix: (t,h) rejected or mislocated liquid above 250 C,
 where h is not monotonic in p

---
 src/algo/root.rs           | 44 ++++++++++++++++++++++++++++++++++++++
 src/common/region.rs       | 28 +++++-------------------
 src/r1/region1_pair_ext.rs | 44 ++++++++++++++++++--------------------
 3 files changed, 70 insertions(+), 46 deletions(-)

diff --git a/src/algo/root.rs b/src/algo/root.rs
index af761fc..63ae61f 100644
--- a/src/algo/root.rs
+++ b/src/algo/root.rs
@@ -93,3 +93,47 @@ pub fn rtsec2(
     }
     return rts;
 }
+
+/// rtrid: Ridders' method, the root of fun(x) known to lie between x1 and x2
+///  * Numerical Reciples  Ch.9.2
+///  * if fun(x1) and fun(x2) have the same sign, the end with the smaller residual is returned
+pub fn rtrid<FUN: Fn(f64) -> f64>(fun: FUN, x1: f64, x2: f64, xacc: f64, i_max: i32) -> f64 {
+    let (mut xl, mut xh): (f64, f64) = (x1, x2);
+    let (mut fl, mut fh): (f64, f64) = (fun(xl), fun(xh));
+    if !(fl * fh < 0.0) {
+        return if fl.abs() <= fh.abs() { xl } else { xh };
+    }
+    let mut rts: f64 = xl;
+    for _ in 0..i_max {
+        let xm: f64 = 0.5 * (xl + xh);
+        let fm: f64 = fun(xm);
+        let s: f64 = (fm * fm - fl * fh).sqrt();
+        if s == 0.0 {
+            return rts;
+        }
+        let xnew: f64 = xm + (xm - xl) * (if fl >= fh { 1.0 } else { -1.0 }) * fm / s;
+        let dx: f64 = (xnew - rts).abs();
+        rts = xnew;
+        let fnew: f64 = fun(rts);
+        if dx <= xacc || fnew == 0.0 {
+            return rts;
+        }
+        // keep the root bracketed
+        if fm * fnew < 0.0 {
+            xl = xm;
+            fl = fm;
+            xh = rts;
+            fh = fnew;
+        } else if fl * fnew < 0.0 {
+            xh = rts;
+            fh = fnew;
+        } else {
+            xl = rts;
+            fl = fnew;
+        }
+        if (xh - xl).abs() <= xacc {
+            return rts;
+        }
+    }
+    rts
+}
diff --git a/src/common/region.rs b/src/common/region.rs
index c6f1a86..20168cc 100644
--- a/src/common/region.rs
+++ b/src/common/region.rs
@@ -8,6 +8,7 @@ use crate::common::propertry_id::*;
 
 use crate::r1::region1_T_phps::*;
 use crate::r1::region1_pT::*;
+use crate::r1::region1_pair_ext::*;
 
 use crate::r2::region2_T_ps::*;
 use crate::r2::region2_pT::*;
@@ -608,30 +609,11 @@ pub fn th_sub_region(t: f64, h: f64) -> i32 {
         return 1;
     }
     //  if p>Ps, p^, h--, Hmin,p^,h++, h<hsat_water(T)
-    if (T >= (250.0 + 273.15)) && (T <= T_MAX1) && (h < hsw) && (h <= hp100) {
-        let mut Hmin: f64 = hsw;
-        let mut p11: f64 = p1 + 0.1;
-        let mut Hmid: f64 = pT2h_reg1(p11, T);
-        if Hmid < Hmin {
-            let mut HminFounded: bool = false;
-
-            while !HminFounded {
-                p11 += 0.1;
-                Hmid = pT2h_reg1(p11, T);
-                if Hmid < Hmin {
-                    Hmin = Hmid;
-                } else {
-                    HminFounded = true;
-                }
-            }
-            if h >= Hmin {
-                return 1;
-            } else {
-                return INVALID_VALUE;
-            };
-        } else {
-            return INVALID_VALUE;
+    if (T >= T_MIN1) && (T <= T_MAX1) && (h < hsw) {
+        if h >= pT2h_reg1(T2phmin_reg1(T), T) {
+            return 1;
         }
+        return INVALID_VALUE;
     };
 
     if (T >= T_MIN2) && (T <= T_MAX1) && (h > hss) && (h < hpmax2) {
diff --git a/src/r1/region1_pair_ext.rs b/src/r1/region1_pair_ext.rs
index 8eca994..337f5b3 100644
--- a/src/r1/region1_pair_ext.rs
+++ b/src/r1/region1_pair_ext.rs
@@ -3,6 +3,7 @@
 use crate::algo::root::*;
 use crate::common::constant::*;
 use crate::r1::region1_pT::*;
+use crate::r1::region1_pT_ext::*;
 use crate::r4::region4_sat_pT::*;
 
 /// Region 1  (p,v)->T using the secant method and refine adjust
@@ -112,34 +113,31 @@ pub fn Tv2p_reg1(T: f64, v: f64) -> f64 {
     return p;
 }
 
-/// Region 1  (T,h)->p using the secant method
+/// Region 1: the pressure with the minimum enthalpy on the isotherm
+///  *  above about 250 C h falls with p from the saturation pressure, then rises
 ///  *  T: temperature  K
-///  *  h: specific enthalpy kJ/kg
-///  *  p: pressure  MPa
-pub fn Th2p_reg1(T: f64, h: f64) -> f64 {
+pub fn T2phmin_reg1(T: f64) -> f64 {
     let pmin1: f64 = p_saturation(T);
-    let mut p1: f64 = pmin1;
-    let mut p2: f64 = P_MAX1; // p1 + stepa
-    let mut h1 = pT2h_reg1(p1, T);
-    if (h - h1).abs() < ESP {
-        return p1;
-    };
-    let mut h2: f64 = pT2h_reg1(p2, T);
-    if (h - h2).abs() < ESP {
-        return p2;
+    if pT2iJTC_reg1(pmin1, T) >= 0.0 {
+        return pmin1;
     }
-
-    let f1: f64 = h - pT2h_reg1(p1, T);
-    let f: f64 = h - pT2h_reg1(p2, T);
-    let mut p: f64 = rtsec1(pT2h_reg1, T, h, p1, p2, f1, f, ESP, I_MAX);
-
-    if p > P_MAX1 {
-        p = P_MAX1;
+    if pT2iJTC_reg1(P_MAX1, T) <= 0.0 {
+        return P_MAX1;
     }
-    if p < pmin1 {
-        p = pmin1;
+    rtrid(|p| pT2iJTC_reg1(p, T), pmin1, P_MAX1, ESP, I_MAX)
+}
+
+/// Region 1  (T,h)->p
+///  *  T: temperature  K
+///  *  h: specific enthalpy kJ/kg
+///  *  p: pressure  MPa, the one nearer to saturation if two states have this enthalpy
+pub fn Th2p_reg1(T: f64, h: f64) -> f64 {
+    let pmin1: f64 = p_saturation(T);
+    let phmin: f64 = T2phmin_reg1(T);
+    if h <= pT2h_reg1(pmin1, T) {
+        return rtrid(|p| pT2h_reg1(p, T) - h, pmin1, phmin, 1.0e-12, I_MAX);
     }
-    p
+    rtrid(|p| pT2h_reg1(p, T) - h, phmin, P_MAX1, 1.0e-12, I_MAX)
 }
 
 /// Region 1  (T,s)->p using the secant method
-- 
2.43.0


From 918f14935a68574026cc395aedc9d2347c8e1f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:54 +0000
Subject: [PATCH 14/35] fix: (t,v) in region 5 returned the wrong pressure at
 low density

---
 src/r5/region5_pair_ext.rs | 57 ++------------------------------------
 1 file changed, 2 insertions(+), 55 deletions(-)

diff --git a/src/r5/region5_pair_ext.rs b/src/r5/region5_pair_ext.rs
index faec665..d949ea1 100644
--- a/src/r5/region5_pair_ext.rs
+++ b/src/r5/region5_pair_ext.rs
@@ -29,62 +29,9 @@ pub fn pv2T_reg5(p: f64, v: f64) -> f64 {
 }
 
 /// Region 5: (T,v)-> p
+///   the density is nearly proportional to p, so the root of 1/v(p,T)-1/v is searched for
 pub fn Tv2p_reg5(T: f64, v: f64) -> f64 {
-    let mut p1: f64 = P_MIN5;
-    let mut v1: f64 = pT2v_reg5(p1, T);
-    if v == v1 {
-        return p1;
-    }
-
-    let mut p2: f64 = 10.0 * p1;
-    if p2 > P_MAX5 {
-        p2 = P_MAX5;
-    };
-
-    let mut v2: f64 = pT2v_reg5(p2, T);
-    if v == v2 {
-        return p2;
-    }
-
-    let mut vbounded: bool = false;
-    if (v > v2) && (v < v1) {
-        vbounded = true;
-    }
-
-    while !vbounded {
-        p1 = p2;
-        v1 = v2;
-        p2 = 5.0 * p1;
-        if p2 >= P_MAX5 {
-            p2 = P_MAX5;
-            vbounded = true;
-        }
-        v2 = pT2v_reg5(p2, T);
-        if v == v2 {
-            return p2;
-        }
-        if (v > v2) && (v < v1) {
-            vbounded = true;
-        }
-    }
-
-    let mut f2: f64 = v - v2;
-    p1 = p2 - (p2 - p1) * (v - v2) / (v1 - v2);
-    if p1 < P_MIN5 {
-        p1 = P_MIN5;
-    }
-    let f1: f64 = v - pT2v_reg5(p1, T);
-    if f1.abs() < ESP {
-        return p1;
-    };
-    let mut p: f64 = rtsec1(pT2v_reg5, T, v, p1, p2, f1, f2, ESP, I_MAX);
-    if p > P_MAX5 {
-        p = P_MAX5;
-    };
-    if p < P_MIN5 {
-        p = P_MIN5;
-    };
-    p
+    rtrid(|p| 1.0 / pT2v_reg5(p, T) - 1.0 / v, P_MIN5, P_MAX5, 1.0e-12, I_MAX)
 }
 
 /// Region 5: (T,h)-> p
-- 
2.43.0


From cf22d55b26fc71daab371a9caca0bf2aac6eeef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:20 +0000
Subject: [PATCH 15/35] fix: (p,v) rejected liquid between 0 and 8 C and could
 return temperatures far outside region 1

---
 src/common/region.rs       |   9 ++-
 src/r1/region1_pair_ext.rs | 114 +++++++++----------------------------
 2 files changed, 34 insertions(+), 89 deletions(-)

diff --git a/src/common/region.rs b/src/common/region.rs
index 20168cc..a341740 100644
--- a/src/common/region.rs
+++ b/src/common/region.rs
@@ -430,7 +430,6 @@ pub fn pv_sub_region(p: f64, v: f64) -> i32 {
         return INVALID_VALUE;
     }
 
-    let vt273: f64 = pT2v_reg1(p, 273.15);
     let vt1073: f64 = pT2v_reg2(p, 1073.15);
     let mut vt2273: f64 = 0.0;
     if (p >= P_MIN5) && (p <= P_MAX5) {
@@ -441,6 +440,7 @@ pub fn pv_sub_region(p: f64, v: f64) -> i32 {
     let mut vsw: f64 = 0.0;
     let mut vss: f64 = 0.0;
     let mut vt623: f64 = 0.0;
+    let mut vmin1: f64 = 0.0; // the densest liquid, warmer than 273.15 K at low pressure
     let mut vB23: f64 = 0.0;
 
     if (p > 0.000611213) && (p <= P_MIN3) {
@@ -457,8 +457,11 @@ pub fn pv_sub_region(p: f64, v: f64) -> i32 {
             vss = pT2v_sat_reg3(p, T1, 1.0);
         }
     }
-    if ((p >= P_MIN1) && (p <= P_MIN3)) && ((v >= vt273) && (v <= vsw))
-        || ((p > P_MIN3) && (p <= P_MAX1)) && ((v >= vt273) && (v <= vt623))
+    if p >= P_MIN1 {
+        vmin1 = pT2v_reg1(p, p2Tvmin_reg1(p));
+    }
+    if ((p >= P_MIN1) && (p <= P_MIN3)) && ((v >= vmin1) && (v <= vsw))
+        || ((p > P_MIN3) && (p <= P_MAX1)) && ((v >= vmin1) && (v <= vt623))
     {
         return 1;
     };
diff --git a/src/r1/region1_pair_ext.rs b/src/r1/region1_pair_ext.rs
index 337f5b3..032cbdf 100644
--- a/src/r1/region1_pair_ext.rs
+++ b/src/r1/region1_pair_ext.rs
@@ -6,98 +6,40 @@ use crate::r1::region1_pT::*;
 use crate::r1::region1_pT_ext::*;
 use crate::r4::region4_sat_pT::*;
 
-/// Region 1  (p,v)->T using the secant method and refine adjust
-/// * p: pressure  MPa
-//  * v: specific volume m^3/kg
-/// * T: temperature  K
-pub fn pv2T_reg1(p: f64, v: f64) -> f64 {
-    let mut T1: f64 = T_MIN1;
-    let mut v1: f64 = pT2v_reg1(p, T1);
-    let mut f1: f64 = v - pT2v_reg1(p, T1);
-
-    let mut T2: f64 = T_MAX1;
-    if (p >= 16.5291643) && (p <= 100.0) {
-        T2 = T_MAX1;
-    } else {
-        T2 = T_saturation(p);
-    };
-    let mut v2: f64 = pT2v_reg1(p, T2);
-    let mut f: f64 = v - v2;
-    if (v2 - v1) != 0.0 {
-        T2 = T1 + (T2 - T1) * (v - v1) / (v2 - v1);
+/// Region 1: the temperature with the minimum specific volume on the isobar
+///  *  liquid water is densest near 4 C, below about 30 MPa
+///  *  p: pressure  MPa
+pub fn p2Tvmin_reg1(p: f64) -> f64 {
+    let T2: f64 = p2Tmax_reg1(p);
+    if pT2dvdTcp_reg1(p, T_MIN1) >= 0.0 {
+        return T_MIN1;
     }
-    v2 = pT2v_reg1(p, T2);
-    f = v - v2;
-    if f > 0.0 {
-        T2 = T_MAX1;
-        v2 = pT2v_reg1(p, T2);
-        f = v - v2;
+    if pT2dvdTcp_reg1(p, T2) <= 0.0 {
+        return T2;
     }
-    let mut T: f64 = rtsec2(pT2v_reg1, p, v, T1, T2, f1, f, 1.0e-3, 100);
+    rtrid(|T| pT2dvdTcp_reg1(p, T), T_MIN1, T2, ESP, I_MAX)
+}
 
-    let mut r_error = 0.0; //relative error
-    r_error = (v - pT2v_reg1(p, T)) / v;
-    if T >= T_MIN1 && T <= T_MAX1 && r_error.abs() < 1.0e-8 {
-        return T;
-    };
-    if T < T_MIN1 {
-        T = T_MIN1;
-    };
-    if T > T_MAX1 {
-        T = T_MAX1;
+/// the helper: the maximum temperature of the isobar in region 1
+fn p2Tmax_reg1(p: f64) -> f64 {
+    if p < Ps_623 {
+        T_saturation(p)
+    } else {
+        T_MAX1
     }
+}
 
-    // Region 1 : the diff volume is the very small when the diff T is large
-    // so, we need to adjust the T
-    let V_ESPION: f64 = 1.0e-8;
-    let MAX_STEPS: i32 = 1000000;
-    f = v - pT2v_reg1(p, T);
-    r_error = f / v;
-    let mut success: bool = false;
-    let mut steps: i32 = 0;
-    if r_error > 0.0
-    // T^ -> V^, the  v of T is samller than the real value,T is  small
-    {
-        while !success {
-            T += 0.01; //the T is smaller than the real value, so  +T
-            if T > T_MAX1 {
-                return T;
-            };
-            f = v - pT2v_reg1(p, T);
-            r_error = f / v;
-            if r_error.abs() < V_ESPION {
-                return T;
-            } else {
-                steps += 1;
-                if steps > MAX_STEPS {
-                    success = true;
-                }
-            }
-        }
+/// Region 1  (p,v)->T
+/// * p: pressure  MPa
+//  * v: specific volume m^3/kg
+/// * T: temperature  K, the higher one if two states have this specific volume
+pub fn pv2T_reg1(p: f64, v: f64) -> f64 {
+    let T1: f64 = p2Tvmin_reg1(p);
+    let T2: f64 = p2Tmax_reg1(p);
+    if v > pT2v_reg1(p, T2) {
+        return rtrid(|T| pT2v_reg1(p, T) - v, T_MIN1, T1, 1.0e-12, I_MAX);
     }
-
-    if r_error < 0.0
-    // T^ -> V^, the  v of T is biggerr than the real value,T is  bigger
-    {
-        success = false;
-        steps = 0;
-        while !success {
-            T -= 0.001; //the T is biggerr than the real value,so  -T
-            if T < T_MIN1 {
-                return T_MIN1;
-            };
-            r_error = (v - pT2v_reg1(p, T)) / v;
-            if r_error.abs() < V_ESPION {
-                return T;
-            } else {
-                steps += 1;
-                if steps > MAX_STEPS {
-                    success = true;
-                }
-            };
-        }
-    };
-    INVALID_VALUE as f64
+    rtrid(|T| pT2v_reg1(p, T) - v, T1, T2, 1.0e-12, I_MAX)
 }
 
 /// Region 1  (T,v)->p using the secant method
-- 
2.43.0


From 13b238f7cfa71a1c85295165acfb036365b9e430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:50 +0000
Subject: [PATCH 16/35] fix: (p,v) took every volume for steam at and below the
 minimum pressure

---
 src/common/region.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/common/region.rs b/src/common/region.rs
index a341740..e85669a 100644
--- a/src/common/region.rs
+++ b/src/common/region.rs
@@ -443,7 +443,9 @@ pub fn pv_sub_region(p: f64, v: f64) -> i32 {
     let mut vmin1: f64 = 0.0; // the densest liquid, warmer than 273.15 K at low pressure
     let mut vB23: f64 = 0.0;
 
-    if (p > 0.000611213) && (p <= P_MIN3) {
+    if p < P_MIN {
+        vss = pT2v_reg2(p, T_MIN2); // no liquid, steam down to the lowest temperature
+    } else if p <= P_MIN3 {
         T1 = T_saturation(p);
         vsw = pT2v_reg1(p, T1);
         vss = pT2v_reg2(p, T1);
-- 
2.43.0


From 22e5f0ae5c8e4f716a44789fc093ebb718dccdb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:12 +0000
Subject: [PATCH 17/35] fix: (p,v) rejected wet steam and region 5 at exactly
 the minimum pressure

---
 src/common/region.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/region.rs b/src/common/region.rs
index e85669a..8fe3f8d 100644
--- a/src/common/region.rs
+++ b/src/common/region.rs
@@ -477,10 +477,10 @@ pub fn pv_sub_region(p: f64, v: f64) -> i32 {
     {
         return 3;
     };
-    if (p > P_MIN) && (p <= PC_WATER) && (v >= vsw) && (v <= vss) {
+    if (p >= P_MIN) && (p <= PC_WATER) && (v >= vsw) && (v <= vss) {
         return 4; // x is obtained in r4::region4_pair_ext::pv2x_reg4
     };
-    if (p > P_MIN5) && (p <= P_MAX5) && (v > vt1073) && (v <= vt2273) {
+    if (p >= P_MIN5) && (p <= P_MAX5) && (v > vt1073) && (v <= vt2273) {
         return 5;
     };
     INVALID_VALUE
-- 
2.43.0


From 68db97d4bc2e604ea49878f310fcfed30c59ec0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:46 +0000
Subject: [PATCH 18/35] fix: (h,s) of wet steam below s=5.21 could iterate
 forever

---
 src/r4/region4_T_hs.rs | 82 +++++++-----------------------------------
 1 file changed, 13 insertions(+), 69 deletions(-)

diff --git a/src/r4/region4_T_hs.rs b/src/r4/region4_T_hs.rs
index 3bd9c87..2a1bf95 100644
--- a/src/r4/region4_T_hs.rs
+++ b/src/r4/region4_T_hs.rs
@@ -75,74 +75,18 @@ pub fn hs2T_reg4(h: f64, s: f64) -> f64 {
         return hs2T_reg43(h, s);
     };
 
-    //The if97 function hs2Treg43 is only valid for part of region4. Use iteration outsida.
-    let mut p_Low_Bound: f64 = 0.0;
-    let mut p_High_Bound: f64 = 0.0;
-    let mut PL: f64 = 0.0;
-    let mut Tsat: f64 = 0.0;
-
-    if s > s4L_273 && s <= s4L_623 {
-        p_Low_Bound = P_MIN;
-        p_High_Bound = Ps_623;
-
-        let mut hL: f64 = -1000.0;
-        while (hL - h).abs() > 1.0e-04 && (p_High_Bound - p_Low_Bound).abs() > 1.0e-4 {
-            PL = 0.5 * (p_Low_Bound + p_High_Bound);
-            Tsat = T_saturation(PL);
-            hL = pT2h_reg1(PL, Tsat);
-            if hL > h {
-                p_High_Bound = PL;
-            } else {
-                p_Low_Bound = PL;
-            }
-        }
-    };
-
-    if s > s4L_623 && s <= SC_WATER {
-        PL = h2p_sat_reg3(h); // liquid , boundaries
-        p_Low_Bound = P_MIN;
-        p_High_Bound = PL;
+    // The if97 function hs2T_reg43 is only valid for part of region4. Use iteration outside.
+    // At constant h, the entropy of wet steam decreases with T up to T_boil, where the liquid boils at h
+    let T_max: f64 = TC_WATER - 2.0 * FLOAT_ERROR;
+    let mut T_boil: f64 = T_max;
+    if h < HC_WATER {
+        T_boil = rtrid(|T: f64| T2sat_water(T, OH) - h, T_MIN4, T_max, 1.0e-10, I_MAX);
     }
-    if s > SC_WATER && s <= s4V_623 {
-        PL = h2p_sat_reg3(h); // steam,boundaries
-        p_Low_Bound = P_MIN;
-        p_High_Bound = PL;
-    }
-
-    let mut sss: f64 = -1000.0;
-    let mut p: f64 = 0.0;
-    let mut xs: f64;
-    let mut s4v: f64;
-    let mut s4L: f64;
-    let mut v4v: f64;
-    let mut v4L: f64;
-
-    while (s - sss).abs() > 1.0e-6 {
-        p = 0.5 * (p_Low_Bound + p_High_Bound);
-
-        Tsat = T_saturation(p);
-        xs = ph_reg4(p, h, OX); // region4_phps
-
-        if p < Ps_623 {
-            s4v = pT2s_reg2(p, Tsat);
-            s4L = pT2s_reg1(p, Tsat);
-        } else {
-            v4v = ph_reg3(p, p2sat_steam(p, OH), OV);
-            s4v = Td2s_reg3(Tsat, 1.0 / v4v);
-            v4L = ph_reg3(p, p2sat_water(p, OH), OV);
-            s4L = Td2s_reg3(Tsat, 1.0 / v4L);
-        };
-
-        sss = xs * s4v + (1.0 - xs) * s4L;
-
-        if sss < s {
-            p_High_Bound = p;
-            p_Low_Bound = (1.0 + (sss - s) / s) * p;
-        } else {
-            p_Low_Bound = p;
-            p_High_Bound = (1.0 + (sss - s) / s) * p;
-        }
-    } // end of while  ( abs(s - sss).abd() > 1.0e-6)
-
-    T_saturation(p)
+    let residuals = |T: f64| {
+        let h4L: f64 = T2sat_water(T, OH);
+        let x: f64 = (h - h4L) / (T2sat_steam(T, OH) - h4L);
+        let s4L: f64 = T2sat_water(T, OS);
+        s4L + x * (T2sat_steam(T, OS) - s4L) - s
+    };
+    rtrid(residuals, T_MIN4, T_boil, 1.0e-10, I_MAX)
 }
-- 
2.43.0


From 431243cd288d41a0771afcbf7d2033f2984026a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:42 +0000
Subject: [PATCH 19/35] fix: (h,x) and (s,x) rejected saturated states near 0 C
 and at the maximum of h'' by wrong limits

---
 src/common/constant.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/common/constant.rs b/src/common/constant.rs
index a4ec5f3..e273fd2 100644
--- a/src/common/constant.rs
+++ b/src/common/constant.rs
@@ -72,10 +72,10 @@ pub const T_MAX4: f64 = 647.096;
 pub const T_MIN4: f64 = 273.15;
 pub const P_MAX4: f64 = 22.064;
 pub const P_MIN4: f64 = 0.000611212677444;
-pub const H_MAX4: f64 = 2803.2738880203456;
-pub const H_MIN4: f64 = 0.38039218566765925;
-pub const S_MAX4: f64 = 9.153081306725117;
-pub const S_MIN4: f64 = 0.33567511183921145;
+pub const H_MAX4: f64 = 2803.285256;
+pub const H_MIN4: f64 = -0.041587826;
+pub const S_MAX4: f64 = 9.155759396;
+pub const S_MIN4: f64 = -1.545496e-4;
 
 /// Region5  boundary constants
 pub const T05: f64 = 1000.0;
-- 
2.43.0


From 18aef26aacc18e1b5ebdc61b7ed676e6d3db4d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:44 +0000
Subject: [PATCH 20/35] fix: (h,x) and (s,x) returned a state that does not
 have the given h or s when none or two exist

---
 src/r4/region4.rs | 117 +++++++++++++++++++++++++++-------------------
 1 file changed, 68 insertions(+), 49 deletions(-)

diff --git a/src/r4/region4.rs b/src/r4/region4.rs
index 9fff503..9013c05 100644
--- a/src/r4/region4.rs
+++ b/src/r4/region4.rs
@@ -3,6 +3,7 @@
 //! * (p,v),(t,v),(t,h),(t,s)
 //! * (h,x),(s,x)
 
+use crate::algo::*;
 use crate::common::constant::*;
 use crate::common::propertry_id::*;
 use crate::r3::*;
@@ -113,64 +114,82 @@ pub fn ts_reg4(t: f64, s: f64, o_id: i32) -> f64 {
     Tx_reg4(t + 273.15, x, o_id)
 }
 
-/// function for getting the steam quality,residuals: x(T,y)-x
-fn Ty2x_residuals(T: f64, x: f64, y: f64, y_id: i32) -> f64 {
-    let sw = T2sat_water(T, y_id);
-    let ss = T2sat_steam(T, y_id);
-    (y - sw) / (ss - sw) - x
-}
-
-/// Bisection for the root : Ty2x_residuals(T,x, y, y_id)=0
-fn bisection_reg4(x: f64, y: f64, y_id: i32, mut Tl: f64, mut Tr: f64, tol: f64, maxiter: i32) -> f64 {
-    let mut T: f64 = 0.0;
-    let mut fl: f64 = Ty2x_residuals(Tl, x, y, y_id); // residual for left  bound
-    let mut fr: f64 = Ty2x_residuals(Tr, x, y, y_id); //resdiual for right bound
-    let mut f: f64 = 0.0;
-    let mut numIters: i32 = 0;
-
-    for i in 0..maxiter {
-        numIters += 1;
-        // get midpoint
-        T = 0.5 * (Tl + Tr);
-        // evaluate resdiual at midpoint
-        f = Ty2x_residuals(T, x, y, y_id);
-        //  check for convergence
-        if f.abs() < tol {
-            break;
-        };
-
-        // reset the bounds
-        if f * fl < 0.0 {
-            // move right bound info to mid
-            Tr = T;
-            fr = f;
+/// (h,x) or (s,x) -> T: wet steam of the quality x has the property y_id = y
+///  * y(T,x) is not monotonic in T, the lowest saturation temperature is returned
+///  * None: there is no such wet steam
+fn yx2T_reg4(y: f64, x: f64, y_id: i32) -> Option<f64> {
+    const STEPS: i32 = 32;
+    let residuals = |T: f64| {
+        let yw: f64 = T2sat_water(T, y_id);
+        yw + x * (T2sat_steam(T, y_id) - yw) - y
+    };
+    let dT: f64 = (T_MAX4 - T_MIN4) / STEPS as f64;
+    let mut Tl: f64 = T_MIN4;
+    let mut fl: f64 = residuals(Tl);
+    let mut Tbest: f64 = Tl;
+    let mut fbest: f64 = fl;
+    for i in 1..STEPS + 1 {
+        let Tr: f64 = if i == STEPS { T_MAX4 } else { T_MIN4 + i as f64 * dT };
+        let fr: f64 = residuals(Tr);
+        if fl * fr <= 0.0 {
+            return Some(rtrid(residuals, Tl, Tr, 1.0e-10, I_MAX));
+        }
+        if fr.abs() < fbest.abs() {
+            Tbest = Tr;
+            fbest = fr;
+        }
+        Tl = Tr;
+        fl = fr;
+    }
+    // no change of sign between the steps: y may be near an extremum of y(T,x), search it by golden section
+    const GOLD: f64 = 0.6180339887498949;
+    let Tleft: f64 = (Tbest - dT).max(T_MIN4);
+    Tl = Tleft;
+    let mut Tr: f64 = (Tbest + dT).min(T_MAX4);
+    while Tr - Tl > 1.0e-6 {
+        let T1: f64 = Tr - GOLD * (Tr - Tl);
+        let T2: f64 = Tl + GOLD * (Tr - Tl);
+        let f1: f64 = residuals(T1);
+        let f2: f64 = residuals(T2);
+        for (T, f) in [(T1, f1), (T2, f2)] {
+            if f * fbest <= 0.0 {
+                return Some(rtrid(residuals, Tleft, T, 1.0e-10, I_MAX));
+            }
+        }
+        if f1.abs() < f2.abs() {
+            Tr = T2;
         } else {
-            // move left bound info to mid
-            Tl = T;
-            fl = f;
+            Tl = T1;
         }
     }
-    T
+    if residuals(Tl).abs() < FLOAT_ERROR {
+        return Some(Tl);
+    }
+    None
 }
 
 /// (h,x,o_id)
 pub fn hx_reg4(h: f64, x: f64, o_id: i32) -> f64 {
-    let mut Tl: f64 = T_MIN4;
-    let mut Tr: f64 = T_MAX4;
-    let T: f64 = bisection_reg4(x, h, OH, Tl, Tr, 0.00001, 1000);
-    if o_id == OT {
-        return T - 273.15;
-    };
-    Tx_reg4(T, x, o_id)
+    match yx2T_reg4(h, x, OH) {
+        Some(T) => {
+            if o_id == OT {
+                return T - 273.15;
+            };
+            Tx_reg4(T, x, o_id)
+        }
+        None => INVALID_VALUE as f64,
+    }
 }
 
 /// (s,x,o_id)
 pub fn sx_reg4(s: f64, x: f64, o_id: i32) -> f64 {
-    let mut Tl: f64 = T_MIN4;
-    let mut Tr: f64 = T_MAX4;
-    let T: f64 = bisection_reg4(x, s, OS, Tl, Tr, 0.00001, 1000);
-    if o_id == OT {
-        return T - 273.15;
-    };
-    Tx_reg4(T, x, o_id)
+    match yx2T_reg4(s, x, OS) {
+        Some(T) => {
+            if o_id == OT {
+                return T - 273.15;
+            };
+            Tx_reg4(T, x, o_id)
+        }
+        None => INVALID_VALUE as f64,
+    }
 }
-- 
2.43.0


From 612c1bdb2e37ddfbc92162d42541eda3d5c65fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:43 +0000
Subject: [PATCH 21/35] fix: (p,v) and (t,v) returned NaN at the critical point

---
 src/r4/region4.rs          |  6 +++---
 src/r4/region4_pair_ext.rs | 17 +++++++++++++----
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/r4/region4.rs b/src/r4/region4.rs
index 9013c05..1a38e60 100644
--- a/src/r4/region4.rs
+++ b/src/r4/region4.rs
@@ -29,7 +29,7 @@ pub fn pT_reg4(p: f64, T: f64, o_id: i32) -> f64 {
 pub fn ph_reg4(p: f64, h: f64, o_id: i32) -> f64 {
     let h1: f64 = p2sat_water(p, OH);
     let h2: f64 = p2sat_steam(p, OH);
-    let x: f64 = (h - h1) / (h2 - h1);
+    let x: f64 = quality_reg4(h, h1, h2);
     if o_id == OX {
         return x;
     }
@@ -39,7 +39,7 @@ pub fn ph_reg4(p: f64, h: f64, o_id: i32) -> f64 {
 pub fn ps_reg4(p: f64, s: f64, o_id: i32) -> f64 {
     let s1: f64 = p2sat_water(p, OS);
     let s2: f64 = p2sat_steam(p, OS);
-    let x: f64 = (s - s1) / (s2 - s1);
+    let x: f64 = quality_reg4(s, s1, s2);
     if o_id == OX {
         return x;
     }
@@ -61,7 +61,7 @@ pub fn hs_reg4(h: f64, s: f64, o_id: i32) -> f64 {
     let h1: f64 = p2sat_water(p, OH);
     let h2: f64 = p2sat_steam(p, OH);
 
-    let x: f64 = (h - h1) / (h2 - h1);
+    let x: f64 = quality_reg4(h, h1, h2);
     if o_id == OX {
         return x;
     }
diff --git a/src/r4/region4_pair_ext.rs b/src/r4/region4_pair_ext.rs
index 0121b38..4c1388d 100644
--- a/src/r4/region4_pair_ext.rs
+++ b/src/r4/region4_pair_ext.rs
@@ -6,30 +6,39 @@ use crate::common::propertry_id::*;
 
 use crate::r4::region4_pTx::*;
 
+/// the quality of wet steam from one extensive property and its saturated values
+///  * at the critical point the phases are the same, x=0
+pub fn quality_reg4(y: f64, y_sat_w: f64, y_sat_s: f64) -> f64 {
+    if y_sat_w == y_sat_s {
+        return 0.0;
+    }
+    (y - y_sat_w) / (y_sat_s - y_sat_w)
+}
+
 /// Region 4: (p,v)-> x
 pub fn pv2x_reg4(p: f64, v: f64) -> f64 {
     let v_sat_w: f64 = p2sat_water(p, OV);
     let v_sat_s: f64 = p2sat_steam(p, OV);
-    (v - v_sat_w) / (v_sat_s - v_sat_w)
+    quality_reg4(v, v_sat_w, v_sat_s)
 }
 
 /// Region 4: (T,v)-> x
 pub fn Tv2x_reg4(T: f64, v: f64) -> f64 {
     let v_sat_w: f64 = T2sat_water(T, OV);
     let v_sat_s: f64 = T2sat_steam(T, OV);
-    (v - v_sat_w) / (v_sat_s - v_sat_w)
+    quality_reg4(v, v_sat_w, v_sat_s)
 }
 
 /// Region 4: (T,h)-> x
 pub fn Th2x_reg4(T: f64, h: f64) -> f64 {
     let h_sat_w: f64 = T2sat_water(T, OH);
     let h_sat_s: f64 = T2sat_steam(T, OH);
-    (h - h_sat_w) / (h_sat_s - h_sat_w)
+    quality_reg4(h, h_sat_w, h_sat_s)
 }
 
 /// Region 4: (T,s)-> x
 pub fn Ts2x_reg4(T: f64, s: f64) -> f64 {
     let s_sat_w: f64 = T2sat_water(T, OS);
     let s_sat_s: f64 = T2sat_steam(T, OS);
-    (s - s_sat_w) / (s_sat_s - s_sat_w)
+    quality_reg4(s, s_sat_w, s_sat_s)
 }
-- 
2.43.0


From 46f7686f811ee4bd88e9eab6afd35dae2551bb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:46 +0000
Subject: [PATCH 22/35] fix: (h,s) of wet steam at 0 C returned an error code
 as the pressure

---
 src/r4/region4_T_hs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/r4/region4_T_hs.rs b/src/r4/region4_T_hs.rs
index 2a1bf95..7429281 100644
--- a/src/r4/region4_T_hs.rs
+++ b/src/r4/region4_T_hs.rs
@@ -67,7 +67,7 @@ pub fn hs2T_reg43(h: f64, s: f64) -> f64 {
     let nu: f64 = h / 2800.0 - 0.119;
     let sigma: f64 = s / 9.2 - 1.07;
     let suma: f64 = poly_powi(nu, sigma, &IJn);
-    550.0 * suma
+    (550.0 * suma).max(T_MIN4) // the equation may be some 1e-5 K below the range of the saturation pressure
 }
 
 pub fn hs2T_reg4(h: f64, s: f64) -> f64 {
-- 
2.43.0


From 930c22c2e0af4a7c2724897edfd2b2373662408f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:48 +0000
Subject: [PATCH 23/35] fix: (p,t) on the saturation line returned 4.0 as the
 value of every property

---
 src/r4/region4.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/r4/region4.rs b/src/r4/region4.rs
index 1a38e60..9877b55 100644
--- a/src/r4/region4.rs
+++ b/src/r4/region4.rs
@@ -22,7 +22,7 @@ pub fn pT_reg4(p: f64, T: f64, o_id: i32) -> f64 {
     if T == TC_WATER && p == PC_WATER {
         return Td_reg3(TC_WATER, DC_WATER, o_id);
     } else {
-        return 4.0 as f64;
+        return INVALID_PT as f64; // (p,T) does not fix the quality
     }
 }
 
-- 
2.43.0


From 35ee37a826bbb3d44992e2255b412a7a75ed6070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:51 +0000
Subject: [PATCH 24/35] fix: pt of the cdecl binding was declared stdcall

---
 src/cdecl_c_if97.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cdecl_c_if97.rs b/src/cdecl_c_if97.rs
index 7911aac..f949f78 100644
--- a/src/cdecl_c_if97.rs
+++ b/src/cdecl_c_if97.rs
@@ -10,7 +10,7 @@ use crate::r5::*;
 
 /// double pt(double p,double t,short o_id)- the propertry of `o_id` (thermodynamic,transport,etc)  
 #[no_mangle]
-pub unsafe extern "stdcall" fn pt(p: f64, t: f64, o_id: i32) -> f64 {
+pub unsafe extern "C" fn pt(p: f64, t: f64, o_id: i32) -> f64 {
     let T: f64 = t + 273.15;
     let reg: i32 = REGION_NONE;
     match o_id {
-- 
2.43.0


From 6a018bfadcaad7fe151f9d91da1b14dd74296dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:45 +0000
Subject: [PATCH 25/35] fix: (h,s) rejected states at and just below the
 inclusive limit of 100 MPa

---
 src/common/region.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/common/region.rs b/src/common/region.rs
index 8fe3f8d..e0a3b5d 100644
--- a/src/common/region.rs
+++ b/src/common/region.rs
@@ -273,7 +273,7 @@ pub fn hs_sub_region(h: f64, s: f64) -> i32 {
     if smin <= s && s <= s13 {
         hmin = h4l + (s - s4l) / (s4v - s4l) * (h4v - h4l);
         hs = hs_region_h1_s(s);
-        T = ps2T_reg1(100.0, s) - 0.0218;
+        T = ps2T_reg1(100.0, s) + 0.0218;
         hmax = pT2h_reg1(100.0, T);
         if hmin <= h && h < hs {
             return 4;
@@ -288,7 +288,7 @@ pub fn hs_sub_region(h: f64, s: f64) -> i32 {
         hs = hs_region_h1_s(s);
         let h13: f64 = hs_region_h13_s(s);
         v = ps2v_reg3(100.0, s) * (1.0 + 9.6e-5);
-        T = ps2T_reg3(100.0, s) - 0.0248;
+        T = ps2T_reg3(100.0, s) + 0.0248;
         hmax = Td2h_reg3(T, 1.0 / v);
         if hmin <= h && h < hs {
             return 4;
@@ -305,7 +305,7 @@ pub fn hs_sub_region(h: f64, s: f64) -> i32 {
         hmin = h4l + (s - s4l) / (s4v - s4l) * (h4v - h4l);
         hs = hs_region_h3a_s(s);
         v = ps2v_reg3(100.0, s) * (1.0 + 9.6e-5);
-        T = ps2T_reg3(100.0, s) - 0.0248;
+        T = ps2T_reg3(100.0, s) + 0.0248;
         hmax = Td2h_reg3(T, 1.0 / v);
         if hmin <= h && h < hs {
             return 4;
@@ -319,7 +319,7 @@ pub fn hs_sub_region(h: f64, s: f64) -> i32 {
         hmin = h4l + (s - s4l) / (s4v - s4l) * (h4v - h4l);
         hs = hs_region_h2c3b_s(s);
         v = ps2v_reg3(100.0, s) * (1.0 + 9.6e-5);
-        T = ps2T_reg3(100.0, s) - 0.0248;
+        T = ps2T_reg3(100.0, s) + 0.0248;
         hmax = Td2h_reg3(T, 1.0 / v);
         if hmin <= h && h < hs {
             return 4;
@@ -335,7 +335,7 @@ pub fn hs_sub_region(h: f64, s: f64) -> i32 {
         hs = hs_region_h2c3b_s(s);
         let h23max: f64 = pT2h_reg2(100.0, 863.15);
         let h23min: f64 = pT2h_reg2(Ps_623, 623.15);
-        T = ps2T_reg2(100.0, s) - 0.019;
+        T = ps2T_reg2(100.0, s) + 0.019;
         hmax = pT2h_reg2(100.0, T);
 
         if hmin <= h && h < hs {
@@ -363,7 +363,7 @@ pub fn hs_sub_region(h: f64, s: f64) -> i32 {
     if 5.260578707 <= s && s < 5.85 {
         hmin = h4l + (s - s4l) / (s4v - s4l) * (h4v - h4l);
         hs = hs_region_h2c3b_s(s);
-        T = ps2T_reg2(100.0, s) - 0.019;
+        T = ps2T_reg2(100.0, s) + 0.019;
         hmax = pT2h_reg2(100.0, T);
         if hmin <= h && h < hs {
             return 4;
@@ -376,7 +376,7 @@ pub fn hs_sub_region(h: f64, s: f64) -> i32 {
     if 5.85 <= s && s < sTPmax {
         hmin = h4l + (s - s4l) / (s4v - s4l) * (h4v - h4l);
         hs = hs_region_h2ab_s(s);
-        T = ps2T_reg2(100.0, s) - 0.019;
+        T = ps2T_reg2(100.0, s) + 0.019;
         hmax = pT2h_reg2(100.0, T);
         if hmin <= h && h < hs {
             return 4;
-- 
2.43.0


From be2a2ef728d2b441856148a25fc154caa0cc00b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:10 +0000
Subject: [PATCH 26/35] fix: (h,s) accepted states far above 100 MPa as region
 3 near s=5.07

---
 src/common/region.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/common/region.rs b/src/common/region.rs
index e0a3b5d..3027dce 100644
--- a/src/common/region.rs
+++ b/src/common/region.rs
@@ -350,9 +350,13 @@ pub fn hs_sub_region(h: f64, s: f64) -> i32 {
             //hs2p_reg2c r2::region2_p_hs
             {
                 return 2;
-            } else {
+            }
+            v = ps2v_reg3(100.0, s) * (1.0 + 9.6e-5);
+            T = ps2T_reg3(100.0, s) + 0.0248;
+            if h <= Td2h_reg3(T, 1.0 / v) {
                 return 3;
             }
+            return INVALID_VALUE;
         }
 
         if h23max <= h && h <= hmax {
-- 
2.43.0


From 208f1d013d8aee20a493848e57b569f636f39363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:38 +0000
Subject: [PATCH 27/35] fix: (h,s) rejected many region 2 and 5 states at the
 800 C border

---
 src/common/region.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/common/region.rs b/src/common/region.rs
index 3027dce..45f9f95 100644
--- a/src/common/region.rs
+++ b/src/common/region.rs
@@ -394,7 +394,7 @@ pub fn hs_sub_region(h: f64, s: f64) -> i32 {
         hmin = h4l + (s - s4l) / (s4v - s4l) * (h4v - h4l);
         hs = hs_region_h2ab_s(s);
         p = hs2p_reg2(h, s);
-        hmax = pT2h_reg2(p, 1073.15);
+        hmax = pT2h_reg2(p, 1073.15 + 0.05); // hs2p_reg2 is approximate: keep the inclusive limit
         if hmin <= h && h < hs {
             return 4;
         }
@@ -407,7 +407,7 @@ pub fn hs_sub_region(h: f64, s: f64) -> i32 {
         hmin = h4l + (s - s4l) / (s4v - s4l) * (h4v - h4l);
         hs = hs_region_h2ab_s(s);
         p = hs2p_reg2(h, s);
-        hmax = pT2h_reg2(p, 1073.15);
+        hmax = pT2h_reg2(p, 1073.15 + 0.05);
         if hmin <= h && h < hs {
             return 4;
         }
@@ -419,7 +419,7 @@ pub fn hs_sub_region(h: f64, s: f64) -> i32 {
     if s4v <= s && s <= smax {
         hmin = pT2h_reg2(P_MIN, 273.15);
         p = hs2p_reg2a(h, s); //hs2p_reg2a r2::region2_p_hs
-        hmax = pT2h_reg2(p, 1073.15);
+        hmax = pT2h_reg2(p, 1073.15 + 0.05);
         if P_MIN <= p && p <= 100.0 && hmin <= h && h <= hmax {
             return 2;
         }
-- 
2.43.0


From 352ac3228f6ba92c81dc7c77825087394ec5efb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:55 +0000
Subject: [PATCH 28/35] fix: (t,s) returned liquid states below 4 C that do not
 have the given s

---
 src/r1/region1_pair_ext.rs | 40 ++++++++++++++++----------------------
 1 file changed, 17 insertions(+), 23 deletions(-)

diff --git a/src/r1/region1_pair_ext.rs b/src/r1/region1_pair_ext.rs
index 032cbdf..52ca657 100644
--- a/src/r1/region1_pair_ext.rs
+++ b/src/r1/region1_pair_ext.rs
@@ -82,32 +82,26 @@ pub fn Th2p_reg1(T: f64, h: f64) -> f64 {
     rtrid(|p| pT2h_reg1(p, T) - h, phmin, P_MAX1, 1.0e-12, I_MAX)
 }
 
-/// Region 1  (T,s)->p using the secant method
+/// Region 1: the pressure with the maximum entropy on the isotherm
+///  *  below about 4 C s rises with p from the saturation pressure, then falls
+///  *  T: temperature  K
+pub fn T2psmax_reg1(T: f64) -> f64 {
+    let pmin1: f64 = p_saturation(T);
+    if pT2dvdTcp_reg1(pmin1, T) >= 0.0 {
+        return pmin1;
+    }
+    rtrid(|p| pT2dvdTcp_reg1(p, T), pmin1, P_MAX1, ESP, I_MAX)
+}
+
+/// Region 1  (T,s)->p
 ///  * T: temperature  K
 ///  * s: specific entropy  kJ/(kg K)
-///  * p: pressure  MPa
+///  * p: pressure  MPa, the one nearer to saturation if two states have this entropy
 pub fn Ts2p_reg1(T: f64, s: f64) -> f64 {
     let pmin1: f64 = p_saturation(T);
-    let mut p1: f64 = pmin1; //
-    let mut s1: f64 = pT2s_reg1(p1, T);
-    let mut f1: f64 = s - s1;
-    let p2: f64 = P_MAX1;
-    let s2: f64 = pT2s_reg1(p2, T);
-    let f2: f64 = s - s2;
-    p1 = p2 - (p2 - p1) * (s - s2) / (s1 - s2);
-    if p1 < pmin1 {
-        p1 = pmin1;
-    }
-    s1 = pT2s_reg1(p1, T);
-    f1 = s - s1;
-    if f1.abs() < ESP {
-        return p1;
-    }
-    let mut p: f64 = rtsec1(pT2s_reg1, T, s, p1, p2, f1, f2, ESP, I_MAX);
-    if p > P_MAX1 {
-        p = P_MAX1;
-    } else if p < pmin1 {
-        p = pmin1;
+    let psmax: f64 = T2psmax_reg1(T);
+    if s >= pT2s_reg1(pmin1, T) {
+        return rtrid(|p| pT2s_reg1(p, T) - s, pmin1, psmax, 1.0e-12, I_MAX);
     }
-    p
+    rtrid(|p| pT2s_reg1(p, T) - s, psmax, P_MAX1, 1.0e-12, I_MAX)
 }
-- 
2.43.0


From 5c913463d255ad0cafff8265ee8778e9c1c961df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:28 +0000
Subject: [PATCH 29/35] fix: (t,v) of low-pressure steam could stop far from
 the solution

---
 src/r2/region2_pair_ext.rs | 68 ++------------------------------------
 1 file changed, 3 insertions(+), 65 deletions(-)

diff --git a/src/r2/region2_pair_ext.rs b/src/r2/region2_pair_ext.rs
index 57bc85c..c738f90 100644
--- a/src/r2/region2_pair_ext.rs
+++ b/src/r2/region2_pair_ext.rs
@@ -97,75 +97,13 @@ pub fn pv2T_reg2(p: f64, v: f64) -> f64 {
     T
 }
 
-/// Region 2  (T,v)->p using the secant method
+/// Region 2  (T,v)->p
+///   the density is nearly proportional to p, so the root of 1/v(p,T)-1/v is searched for
 ///      T: temperature  K
 ///      p: pressure  Map
 //       v: specific volume m^3/kg
 pub fn Tv2p_reg2(T: f64, v: f64) -> f64 {
-    let mut p1: f64 = P_MIN2;
-
-    let mut v1: f64 = pT2v_reg2(p1, T);
-    if (v - v1).abs() < ESP {
-        return p1;
-    }
-
-    let stepa: f64 = 1.0;
-    let stepm: f64 = 5.0;
-    let mut p: f64 = 0.0;
-    let mut p2: f64 = p1 * stepm;
-    let mut v2: f64 = pT2v_reg2(p2, T);
-    if (v - v2).abs() < ESP {
-        return p2;
-    }
-
-    let mut bounded: bool = false;
-    if (v > v2) && (v < v1) {
-        bounded = true;
-    }
-
-    let pmax2: f64 = T2pmax_reg2(T);
-    while !bounded {
-        p1 = p2;
-        v1 = v2;
-        if p1 > 1.0 {
-            p2 = p1 + stepa;
-        }
-        if p1 < 1.0 {
-            p2 = p1 * stepm;
-        }
-        if p2 >= pmax2 {
-            p2 = pmax2;
-            bounded = true;
-        }
-        v2 = pT2v_reg2(p2, T);
-        if (v - v2).abs() < ESP {
-            return p2;
-        }
-        if (v > v2) && (v < v1) {
-            bounded = true;
-        }
-    }
-
-    let f2: f64 = v - v2;
-    let pmid: f64 = p2 - (p2 - p1) * (v - v2) / (v1 - v2);
-    if v < pT2v_reg2(pmid, T) {
-        p1 = pmid;
-    }
-    if p1 < P_MIN2 {
-        p1 = P_MIN2;
-    }
-    let f1: f64 = v - pT2v_reg2(p1, T);
-    if f1.abs() < ESP {
-        return p1;
-    }
-
-    let mut p: f64 = rtsec1(pT2v_reg2, T, v, p1, p2, f1, f2, ESP, I_MAX);
-    if p < P_MIN2 {
-        p = P_MIN2;
-    } else if p > pmax2 {
-        p = pmax2;
-    }
-    p
+    rtrid(|p| 1.0 / pT2v_reg2(p, T) - 1.0 / v, P_MIN2, T2pmax_reg2(T), 1.0e-12, I_MAX)
 }
 
 /// Region 2  (T,h)->p using the secant method
-- 
2.43.0


From 0fbddfc9f0928c91a2073fc5285384b5e91e6b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:59 +0000
Subject: [PATCH 30/35] fix: (h,s) accepted enthalpies far above every valid
 state as region 2

---
 src/common/region.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/region.rs b/src/common/region.rs
index 45f9f95..5530754 100644
--- a/src/common/region.rs
+++ b/src/common/region.rs
@@ -393,7 +393,7 @@ pub fn hs_sub_region(h: f64, s: f64) -> i32 {
     if sTPmax <= s && s < s2ab {
         hmin = h4l + (s - s4l) / (s4v - s4l) * (h4v - h4l);
         hs = hs_region_h2ab_s(s);
-        p = hs2p_reg2(h, s);
+        p = hs2p_reg2(h, s).min(100.0); // far above the valid states it diverges
         hmax = pT2h_reg2(p, 1073.15 + 0.05); // hs2p_reg2 is approximate: keep the inclusive limit
         if hmin <= h && h < hs {
             return 4;
@@ -406,7 +406,7 @@ pub fn hs_sub_region(h: f64, s: f64) -> i32 {
     if s2ab <= s && s < s4v {
         hmin = h4l + (s - s4l) / (s4v - s4l) * (h4v - h4l);
         hs = hs_region_h2ab_s(s);
-        p = hs2p_reg2(h, s);
+        p = hs2p_reg2(h, s).min(100.0); // far above the valid states it diverges
         hmax = pT2h_reg2(p, 1073.15 + 0.05);
         if hmin <= h && h < hs {
             return 4;
-- 
2.43.0


From f1b03abecbc7d10b5d0631b9dc7c05ffb8a932d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:02 +0000
Subject: [PATCH 31/35] fix: (p,x),(t,x),(h,x),(s,x) returned a value for a
 quality that is not a number

---
 src/cdecl_c_if97.rs   | 8 ++++----
 src/python_if97.rs    | 8 ++++----
 src/rust_if97.rs      | 8 ++++----
 src/stdcall_c_if97.rs | 8 ++++----
 4 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/cdecl_c_if97.rs b/src/cdecl_c_if97.rs
index f949f78..b6f59a7 100644
--- a/src/cdecl_c_if97.rs
+++ b/src/cdecl_c_if97.rs
@@ -56,7 +56,7 @@ pub unsafe extern "C" fn hs(h: f64, s: f64, o_id: i32) -> f64 {
 /// double px(double p,double x,short o_id) - the propertry of `o_id` (thermodynamic)
 #[no_mangle]
 pub unsafe extern "C" fn px(p: f64, x: f64, o_id: i32) -> f64 {
-    if p > P_MAX4 || p < P_MIN4 || x > 1.0 || x < 0.0 {
+    if !(P_MIN4..=P_MAX4).contains(&p) || !(0.0..=1.0).contains(&x) {
         return INVALID_VALUE as f64;
     }
     match o_id {
@@ -74,7 +74,7 @@ pub unsafe extern "C" fn tx(t: f64, x: f64, o_id: i32) -> f64 {
         OX => return x,
         _ => {
             let T: f64 = t + 273.15;
-            if T > T_MAX4 || T < T_MIN4 || x > 1.0 || x < 0.0 {
+            if !(T_MIN4..=T_MAX4).contains(&T) || !(0.0..=1.0).contains(&x) {
                 return INVALID_VALUE as f64;
             }
             Tx_reg4(T, x, o_id)
@@ -129,7 +129,7 @@ pub unsafe extern "C" fn ts(t: f64, s: f64, o_id: i32) -> f64 {
 /// double hx(double h,double x,short o_id)- the propertry of `o_id` (thermodynamic)  
 #[no_mangle]
 pub unsafe extern "C" fn hx(h: f64, x: f64, o_id: i32) -> f64 {
-    if h > H_MAX4 || h < H_MIN4 || x > 1.0 || x < 0.0 {
+    if !(H_MIN4..=H_MAX4).contains(&h) || !(0.0..=1.0).contains(&x) {
         return INVALID_VALUE as f64;
     }
     match o_id {
@@ -142,7 +142,7 @@ pub unsafe extern "C" fn hx(h: f64, x: f64, o_id: i32) -> f64 {
 /// double sx(double s,double x,short o_id)- the propertry of `o_id` (thermodynamic)  
 #[no_mangle]
 pub unsafe extern "C" fn sx(s: f64, x: f64, o_id: i32) -> f64 {
-    if s > S_MAX4 || s < S_MIN4 || x > 1.0 || x < 0.0 {
+    if !(S_MIN4..=S_MAX4).contains(&s) || !(0.0..=1.0).contains(&x) {
         return INVALID_VALUE as f64;
     }
     match o_id {
diff --git a/src/python_if97.rs b/src/python_if97.rs
index cd57e35..c850c46 100644
--- a/src/python_if97.rs
+++ b/src/python_if97.rs
@@ -53,7 +53,7 @@ fn hs(h: f64, s: f64, o_id: i32) -> f64 {
 
 #[pyfunction]
 fn px(p: f64, x: f64, o_id: i32) -> f64 {
-    if p > P_MAX4 || p < P_MIN4 || x > 1.0 || x < 0.0 {
+    if !(P_MIN4..=P_MAX4).contains(&p) || !(0.0..=1.0).contains(&x) {
         return INVALID_VALUE as f64;
     }
     match o_id {
@@ -70,7 +70,7 @@ fn tx(t: f64, x: f64, o_id: i32) -> f64 {
         OX => return x,
         _ => {
             let T: f64 = t + 273.15;
-            if T > T_MAX4 || T < T_MIN4 || x > 1.0 || x < 0.0 {
+            if !(T_MIN4..=T_MAX4).contains(&T) || !(0.0..=1.0).contains(&x) {
                 return INVALID_VALUE as f64;
             }
             Tx_reg4(T, x, o_id)
@@ -120,7 +120,7 @@ fn ts(t: f64, s: f64, o_id: i32) -> f64 {
 
 #[pyfunction]
 fn hx(h: f64, x: f64, o_id: i32) -> f64 {
-    if h > H_MAX4 || h < H_MIN4 || x > 1.0 || x < 0.0 {
+    if !(H_MIN4..=H_MAX4).contains(&h) || !(0.0..=1.0).contains(&x) {
         return INVALID_VALUE as f64;
     }
     match o_id {
@@ -132,7 +132,7 @@ fn hx(h: f64, x: f64, o_id: i32) -> f64 {
 
 #[pyfunction]
 fn sx(s: f64, x: f64, o_id: i32) -> f64 {
-    if s > S_MAX4 || s < S_MIN4 || x > 1.0 || x < 0.0 {
+    if !(S_MIN4..=S_MAX4).contains(&s) || !(0.0..=1.0).contains(&x) {
         return INVALID_VALUE as f64;
     }
     match o_id {
diff --git a/src/rust_if97.rs b/src/rust_if97.rs
index 615e31b..4a76ded 100644
--- a/src/rust_if97.rs
+++ b/src/rust_if97.rs
@@ -181,7 +181,7 @@ where
 // #[no_mangle]
 // pub unsafe extern "C"  fn px(p: f64, x: f64, o_id: i32) -> f64 {
 pub fn px(p: f64, x: f64, o_id: i32) -> f64 {
-    if p > P_MAX4 || p < P_MIN4 || x > 1.0 || x < 0.0 {
+    if !(P_MIN4..=P_MAX4).contains(&p) || !(0.0..=1.0).contains(&x) {
         return INVALID_VALUE as f64;
     }
     match o_id {
@@ -211,7 +211,7 @@ pub fn tx(t: f64, x: f64, o_id: i32) -> f64 {
         OX => return x,
         _ => {
             let T: f64 = t + 273.15;
-            if T > T_MAX4 || T < T_MIN4 || x > 1.0 || x < 0.0 {
+            if !(T_MIN4..=T_MAX4).contains(&T) || !(0.0..=1.0).contains(&x) {
                 return INVALID_VALUE as f64;
             }
             Tx_reg4(T, x, o_id)
@@ -344,7 +344,7 @@ where
 /// ```
 ///
 pub fn hx(h: f64, x: f64, o_id: i32) -> f64 {
-    if h > H_MAX4 || h < H_MIN4 || x > 1.0 || x < 0.0 {
+    if !(H_MIN4..=H_MAX4).contains(&h) || !(0.0..=1.0).contains(&x) {
         return INVALID_VALUE as f64;
     }
     match o_id {
@@ -369,7 +369,7 @@ pub fn hx(h: f64, x: f64, o_id: i32) -> f64 {
 /// ```
 ///
 pub fn sx(s: f64, x: f64, o_id: i32) -> f64 {
-    if s > S_MAX4 || s < S_MIN4 || x > 1.0 || x < 0.0 {
+    if !(S_MIN4..=S_MAX4).contains(&s) || !(0.0..=1.0).contains(&x) {
         return INVALID_VALUE as f64;
     }
     match o_id {
diff --git a/src/stdcall_c_if97.rs b/src/stdcall_c_if97.rs
index 5a0a787..49eb280 100644
--- a/src/stdcall_c_if97.rs
+++ b/src/stdcall_c_if97.rs
@@ -56,7 +56,7 @@ pub unsafe extern "stdcall" fn hs(h: f64, s: f64, o_id: i32) -> f64 {
 /// double px(double p,double x,short o_id) - the propertry of `o_id` (thermodynamic)
 #[no_mangle]
 pub unsafe extern "stdcall" fn px(p: f64, x: f64, o_id: i32) -> f64 {
-    if p > P_MAX4 || p < P_MIN4 || x > 1.0 || x < 0.0 {
+    if !(P_MIN4..=P_MAX4).contains(&p) || !(0.0..=1.0).contains(&x) {
         return INVALID_VALUE as f64;
     }
     match o_id {
@@ -74,7 +74,7 @@ pub unsafe extern "stdcall" fn tx(t: f64, x: f64, o_id: i32) -> f64 {
         OX => return x,
         _ => {
             let T: f64 = t + 273.15;
-            if T > T_MAX4 || T < T_MIN4 || x > 1.0 || x < 0.0 {
+            if !(T_MIN4..=T_MAX4).contains(&T) || !(0.0..=1.0).contains(&x) {
                 return INVALID_VALUE as f64;
             }
             Tx_reg4(T, x, o_id)
@@ -129,7 +129,7 @@ pub unsafe extern "stdcall" fn ts(t: f64, s: f64, o_id: i32) -> f64 {
 /// double hx(double h,double x,short o_id)- the propertry of `o_id` (thermodynamic)  
 #[no_mangle]
 pub unsafe extern "stdcall" fn hx(h: f64, x: f64, o_id: i32) -> f64 {
-    if h > H_MAX4 || h < H_MIN4 || x > 1.0 || x < 0.0 {
+    if !(H_MIN4..=H_MAX4).contains(&h) || !(0.0..=1.0).contains(&x) {
         return INVALID_VALUE as f64;
     }
     match o_id {
@@ -142,7 +142,7 @@ pub unsafe extern "stdcall" fn hx(h: f64, x: f64, o_id: i32) -> f64 {
 /// double sx(double s,double x,short o_id)- the propertry of `o_id` (thermodynamic)  
 #[no_mangle]
 pub unsafe extern "stdcall" fn sx(s: f64, x: f64, o_id: i32) -> f64 {
-    if s > S_MAX4 || s < S_MIN4 || x > 1.0 || x < 0.0 {
+    if !(S_MIN4..=S_MAX4).contains(&s) || !(0.0..=1.0).contains(&x) {
         return INVALID_VALUE as f64;
     }
     match o_id {
-- 
2.43.0


From 11ec36f564fb759783768cf5261ec60f5aa979e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:19 +0000
Subject: [PATCH 32/35] fix: (h,s) accepted states outside the pressure range
 of region 5 and returned another state

---
 src/common/region.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/common/region.rs b/src/common/region.rs
index 5530754..21bb83f 100644
--- a/src/common/region.rs
+++ b/src/common/region.rs
@@ -266,7 +266,14 @@ pub fn hs_sub_region(h: f64, s: f64) -> i32 {
     {
         p = hs2p_reg5(h, s);
         T = ph2T_reg5(p, h);
-        if 1073.15 < T && T <= 2273.15 && P_MIN <= p && p <= 50.0 {
+        // both solvers clamp to the limits of region 5: the state must have the given h and s
+        if 1073.15 < T
+            && T <= 2273.15
+            && P_MIN <= p
+            && p <= 50.0
+            && (pT2h_reg5(p, T) - h).abs() < 1.0e-4
+            && (pT2s_reg5(p, T) - s).abs() < 1.0e-6
+        {
             return 5;
         }
     };
-- 
2.43.0


From 6467f4adb0040a07c0c928266e157b22068eef0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:08 +0000
Subject: [PATCH 33/35] fix: (h,s) accepted any enthalpy below the valid states
 at entropies where a boundary equation returned its error code

---
 src/common/boundaries.rs | 10 +++++-----
 src/common/region.rs     |  8 +++++++-
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/common/boundaries.rs b/src/common/boundaries.rs
index 0054398..d81a732 100644
--- a/src/common/boundaries.rs
+++ b/src/common/boundaries.rs
@@ -125,7 +125,7 @@ pub fn hs_region_h1_s(s: f64) -> f64 {
     ];
 
     // Check input parameters
-    if s < -1.545495919e-4 || s > 3.77828134 {
+    if s < -1.5455e-4 || s > 3.7782814 {
         return INVALID_S as f64;
     }
 
@@ -159,7 +159,7 @@ pub fn hs_region_h3a_s(s: f64) -> f64 {
         (32, 6, 0.631052532240980E+0),
     ];
     // Check input parameters
-    if s < 3.77828134 || s > SC_WATER {
+    if s < 3.7782813 || s > SC_WATER {
         return INVALID_S as f64;
     }
 
@@ -205,7 +205,7 @@ pub fn hs_region_h2ab_s(s: f64) -> f64 {
     ];
 
     // Check input parameters
-    if s < 5.85 || s > 9.155759395 {
+    if s < 5.85 || s > 9.1557594 {
         return INVALID_S as f64;
     }
 
@@ -259,7 +259,7 @@ pub fn hs_region_h13_s(s: f64) -> f64 {
         (6, -3, -0.690815545851641E+02),
     ];
 
-    if s < 3.397782955 || s > 3.77828134 {
+    if s < 3.3977829 || s > 3.7782814 {
         return INVALID_S as f64;
     };
 
@@ -300,7 +300,7 @@ pub fn hs_region_t_hs(h: f64, s: f64) -> f64 // _t23_hs(h, s)
         (14, 1, 0.783237062349385E+07),
     ];
     // Check input parameters
-    if s < 5.048096828 || s > 5.260578707 || h < 2.563592004e3 || h > 2.812942061e3 {
+    if s < 5.048096828 || s > 5.260578707 || h < 2.563592e3 || h > 2.8129421e3 {
         return INVALID_HS as f64;
     }
 
diff --git a/src/common/region.rs b/src/common/region.rs
index 21bb83f..36a9b2a 100644
--- a/src/common/region.rs
+++ b/src/common/region.rs
@@ -279,7 +279,13 @@ pub fn hs_sub_region(h: f64, s: f64) -> i32 {
     };
     if smin <= s && s <= s13 {
         hmin = h4l + (s - s4l) / (s4v - s4l) * (h4v - h4l);
-        hs = hs_region_h1_s(s);
+        if s < s4l {
+            // no wet steam: the liquid begins at 273.15 K
+            hs = pT2h_reg1(Ts2p_reg1(273.15, s), 273.15) - 1.0e-6;
+            hmin = hs;
+        } else {
+            hs = hs_region_h1_s(s);
+        }
         T = ps2T_reg1(100.0, s) + 0.0218;
         hmax = pT2h_reg1(100.0, T);
         if hmin <= h && h < hs {
-- 
2.43.0


From 2f8ecd86a112eb2495c0499d9deae3bd1b9873a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:45 +0000
Subject: [PATCH 34/35] fix: (s,x) missed wet steam at the maximum of s when s
 at 0 C is as close

---
 src/r4/region4.rs | 58 +++++++++++++++++++++++------------------------
 1 file changed, 28 insertions(+), 30 deletions(-)

diff --git a/src/r4/region4.rs b/src/r4/region4.rs
index 9877b55..803abdf 100644
--- a/src/r4/region4.rs
+++ b/src/r4/region4.rs
@@ -118,53 +118,51 @@ pub fn ts_reg4(t: f64, s: f64, o_id: i32) -> f64 {
 ///  * y(T,x) is not monotonic in T, the lowest saturation temperature is returned
 ///  * None: there is no such wet steam
 fn yx2T_reg4(y: f64, x: f64, y_id: i32) -> Option<f64> {
-    const STEPS: i32 = 32;
+    const STEPS: usize = 32;
     let residuals = |T: f64| {
         let yw: f64 = T2sat_water(T, y_id);
         yw + x * (T2sat_steam(T, y_id) - yw) - y
     };
     let dT: f64 = (T_MAX4 - T_MIN4) / STEPS as f64;
+    let mut fs: [f64; STEPS + 1] = [residuals(T_MIN4); STEPS + 1];
     let mut Tl: f64 = T_MIN4;
-    let mut fl: f64 = residuals(Tl);
-    let mut Tbest: f64 = Tl;
-    let mut fbest: f64 = fl;
     for i in 1..STEPS + 1 {
         let Tr: f64 = if i == STEPS { T_MAX4 } else { T_MIN4 + i as f64 * dT };
-        let fr: f64 = residuals(Tr);
-        if fl * fr <= 0.0 {
+        fs[i] = residuals(Tr);
+        if fs[i - 1] * fs[i] <= 0.0 {
             return Some(rtrid(residuals, Tl, Tr, 1.0e-10, I_MAX));
         }
-        if fr.abs() < fbest.abs() {
-            Tbest = Tr;
-            fbest = fr;
-        }
         Tl = Tr;
-        fl = fr;
     }
-    // no change of sign between the steps: y may be near an extremum of y(T,x), search it by golden section
+    // no change of sign between the steps: y may be near an extremum of y(T,x), search each by golden section
     const GOLD: f64 = 0.6180339887498949;
-    let Tleft: f64 = (Tbest - dT).max(T_MIN4);
-    Tl = Tleft;
-    let mut Tr: f64 = (Tbest + dT).min(T_MAX4);
-    while Tr - Tl > 1.0e-6 {
-        let T1: f64 = Tr - GOLD * (Tr - Tl);
-        let T2: f64 = Tl + GOLD * (Tr - Tl);
-        let f1: f64 = residuals(T1);
-        let f2: f64 = residuals(T2);
-        for (T, f) in [(T1, f1), (T2, f2)] {
-            if f * fbest <= 0.0 {
-                return Some(rtrid(residuals, Tleft, T, 1.0e-10, I_MAX));
+    for i in 0..STEPS + 1 {
+        if fs[i.max(1) - 1].abs() < fs[i].abs() || fs[(i + 1).min(STEPS)].abs() < fs[i].abs() {
+            continue;
+        }
+        let Tleft: f64 = (T_MIN4 + (i as f64 - 1.0) * dT).max(T_MIN4);
+        Tl = Tleft;
+        let mut Tr: f64 = (T_MIN4 + (i as f64 + 1.0) * dT).min(T_MAX4);
+        while Tr - Tl > 1.0e-6 {
+            let T1: f64 = Tr - GOLD * (Tr - Tl);
+            let T2: f64 = Tl + GOLD * (Tr - Tl);
+            let f1: f64 = residuals(T1);
+            let f2: f64 = residuals(T2);
+            for (T, f) in [(T1, f1), (T2, f2)] {
+                if f * fs[i] <= 0.0 {
+                    return Some(rtrid(residuals, Tleft, T, 1.0e-10, I_MAX));
+                }
+            }
+            if f1.abs() < f2.abs() {
+                Tr = T2;
+            } else {
+                Tl = T1;
             }
         }
-        if f1.abs() < f2.abs() {
-            Tr = T2;
-        } else {
-            Tl = T1;
+        if residuals(Tl).abs() < FLOAT_ERROR {
+            return Some(Tl);
         }
     }
-    if residuals(Tl).abs() < FLOAT_ERROR {
-        return Some(Tl);
-    }
     None
 }
 
-- 
2.43.0


From bf01da9c1cdffc965704b1e6280e330a2c063295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:15 +0000
Subject: [PATCH 35/35] fix: px at the saturation pressure of 350 C uses the
 equations of px with x = 0 and 1

---
 src/r4/region4_pTx.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/r4/region4_pTx.rs b/src/r4/region4_pTx.rs
index 051ff3b..8edb455 100644
--- a/src/r4/region4_pTx.rs
+++ b/src/r4/region4_pTx.rs
@@ -182,7 +182,7 @@ pub fn px_reg4(p: f64, x: f64, o_id: i32) -> f64 {
             // region 4 x(0,1) return  v,h,s only
             let mut rl: f64 = 0.0;
             let mut rv: f64 = 0.0;
-            if T > 623.15 {
+            if p > Ps_623 {
                 let dl = 1.0 / pT2v_sat_reg3(p, T, 0.0);
                 rl = Td_reg3(T, dl, o_id);
                 let dv = 1.0 / pT2v_sat_reg3(p, T, 1.0);
-- 
2.43.0

