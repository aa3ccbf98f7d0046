From 4dd5100949b808820e3825bb5c76e4a808732a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:08 +0000
Subject: [PATCH 01/78] fix: orient the ICRS-Galactic rotation correctly and
 make it orthogonal

---
 src/coordinates/transform/providers/frames_catalog.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/coordinates/transform/providers/frames_catalog.rs b/src/coordinates/transform/providers/frames_catalog.rs
index a01fab2..5ca9586 100644
--- a/src/coordinates/transform/providers/frames_catalog.rs
+++ b/src/coordinates/transform/providers/frames_catalog.rs
@@ -13,16 +13,17 @@
 use super::*;
 use crate::coordinates::transform::frames::bias;
 
-const GALACTIC_TO_ICRS: Rotation3 = Rotation3::from_matrix_unchecked([
+/// Rows are the ICRS components of the Galactic x, y and z axes.
+const ICRS_TO_GALACTIC: Rotation3 = Rotation3::from_matrix_unchecked([
     [
         -0.054_875_560_416_215_4,
-        -0.873_437_090_234_885_1,
+        -0.873_437_090_234_885_0,
         -0.483_835_015_548_713_2,
     ],
     [
         0.494_109_427_875_583_7,
         -0.444_829_629_960_011_2,
-        0.746_982_244_580_286_6,
+        0.746_982_244_497_218_9,
     ],
     [
         -0.867_666_149_019_004_7,
@@ -37,7 +38,7 @@ impl FrameRotationProvider<Galactic, ICRS> for () {
         _jd: JulianDate,
         _ctx: &AstroContext<Eph, Eop>,
     ) -> Rotation3 {
-        GALACTIC_TO_ICRS
+        ICRS_TO_GALACTIC.inverse()
     }
 }
 
@@ -47,7 +48,7 @@ impl FrameRotationProvider<ICRS, Galactic> for () {
         _jd: JulianDate,
         _ctx: &AstroContext<Eph, Eop>,
     ) -> Rotation3 {
-        GALACTIC_TO_ICRS.inverse()
+        ICRS_TO_GALACTIC
     }
 }
 
-- 
2.43.0


From 7702808d08fa8856d9a5ffbdb4437fbdebe46441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:44 +0000
Subject: [PATCH 02/78] fix: place the CIP at (X, Y, Z) in the GCRS to CIRS
 matrix

---
 src/astro/cio.rs                     | 18 +++++++-----------
 src/astro/earth_rotation_provider.rs |  2 +-
 2 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/astro/cio.rs b/src/astro/cio.rs
index 9250fb0..0ef0675 100644
--- a/src/astro/cio.rs
+++ b/src/astro/cio.rs
@@ -119,7 +119,7 @@ pub fn cip_cio(jd: JulianDate, dpsi: Radians, deps: Radians) -> CipCio {
 /// (CIRS), using the CIP coordinates (X, Y) and CIO locator s.
 ///
 /// ```text
-/// Q(t) = R₃(−E)·R₂(−d)·R₃(E + s)
+/// Q(t) = R₃(−(E + s))·R₂(d)·R₃(E)
 /// ```
 ///
 /// where `E = atan2(Y, X)`, `d = acos(√(1 − X² − Y²))`.
@@ -136,7 +136,7 @@ pub fn gcrs_to_cirs_matrix(x: CipCoordinates, y: CipCoordinates, s: Radians) ->
     let (se, ce) = e.sin_cos();
     let (sd, cd) = d.sin_cos();
 
-    // R₃(-(E+s)) · R₂(-d) · R₃(E)
+    // R₃(-(E+s)) · R₂(d) · R₃(E)
     // Following SOFA's iauC2ixys construction:
     let es = e + s.value();
     let (ses, ces) = es.sin_cos();
@@ -146,25 +146,21 @@ pub fn gcrs_to_cirs_matrix(x: CipCoordinates, y: CipCoordinates, s: Radians) ->
         [
             ces * cd * ce + ses * se,
             ces * cd * se - ses * ce,
-            ces * sd,
+            -ces * sd,
         ],
         [
             ses * cd * ce - ces * se,
             ses * cd * se + ces * ce,
-            ses * sd,
+            -ses * sd,
         ],
         [
-            -sd * ce,
-            -sd * se,
+            sd * ce,
+            sd * se,
             cd,
         ],
     ];
 
-    // The matrix above is Q^T (intermediate-to-celestial). We need Q (celestial-to-intermediate).
-    // Actually, SOFA's C2IXYS returns the celestial-to-intermediate matrix directly.
-    // Let's verify: at J2000 with X≈0, Y≈0, s≈0, this should be ≈ identity.
-    // E = atan2(0,0) = 0, d = 0, s = 0.
-    // m[0][0] = 1, m[1][1] = 1, m[2][2] = 1. ✓
+    // The last row is the CIP unit vector (X, Y, Z), as in SOFA's C2IXYS.
     Rotation3::from_matrix_unchecked(m)
 }
 
diff --git a/src/astro/earth_rotation_provider.rs b/src/astro/earth_rotation_provider.rs
index 6d1d709..b863849 100644
--- a/src/astro/earth_rotation_provider.rs
+++ b/src/astro/earth_rotation_provider.rs
@@ -114,7 +114,7 @@ pub(crate) fn itrs_to_equatorial_mean_j2000_rotation<Eph, Eop: EopProvider, Nut:
     // NOTE: `cio::gcrs_to_cirs_matrix` and `Rotation3::rz` conventions are
     // aligned such that this composition matches the SOFA chain for
     // ITRS -> GCRS in this codebase.
-    let itrs_to_gcrs = q * affn::Rotation3::rz(-era) * w.inverse();
+    let itrs_to_gcrs = q.inverse() * affn::Rotation3::rz(-era) * w.inverse();
     let icrs_to_j2000 =
         <() as FrameRotationProvider<ICRS, EquatorialMeanJ2000>>::rotation::<Eph, Eop, Nut>(
             jd, ctx,
-- 
2.43.0


From 27854e431867830c3967b794b9ce5d64b862639b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:14 +0000
Subject: [PATCH 03/78] fix: use the context's EOP provider in the ITRS to
 equatorial rotation

---
 src/astro/earth_rotation_provider.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/astro/earth_rotation_provider.rs b/src/astro/earth_rotation_provider.rs
index b863849..3d8977b 100644
--- a/src/astro/earth_rotation_provider.rs
+++ b/src/astro/earth_rotation_provider.rs
@@ -37,7 +37,7 @@
 //! * SOFA Earth-rotation cookbook (`iauC2t06a` and friends)
 
 use crate::astro::cio;
-use crate::astro::earth_rotation::{jd_ut1_from_tt_eop, try_jd_utc_from_tt};
+use crate::astro::earth_rotation::jd_ut1_from_tt_eop;
 use crate::astro::eop::{EopProvider, EopValues};
 use crate::astro::era::earth_rotation_angle;
 use crate::astro::nutation::NutationModel;
@@ -99,10 +99,7 @@ pub(crate) fn itrs_to_equatorial_mean_j2000_rotation<Eph, Eop: EopProvider, Nut:
     jd: JulianDate,
     ctx: &AstroContext<Eph, Eop>,
 ) -> affn::Rotation3 {
-    let eop = match try_jd_utc_from_tt(jd) {
-        Ok(jd_utc) => ctx.eop_at(jd_utc),
-        Err(_) => EopValues::default(),
-    };
+    let eop = ctx.eop_at_tt(jd);
     let jd_ut1 = jd_ut1_from_tt_eop(jd, &eop);
 
     let (dpsi, deps) = nutation_with_celestial_pole_offsets::<Nut>(jd, eop);
-- 
2.43.0


From f0825062986d5de4419e2e2064febd091cea6c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:42 +0000
Subject: [PATCH 04/78] fix: point IAU body-fixed frames at the pole of the
 rotation model

---
 src/coordinates/transform/providers/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/coordinates/transform/providers/mod.rs b/src/coordinates/transform/providers/mod.rs
index 5250fc3..30d5706 100644
--- a/src/coordinates/transform/providers/mod.rs
+++ b/src/coordinates/transform/providers/mod.rs
@@ -455,9 +455,9 @@ fn iau_body_fixed_to_icrs(params: &IauRotationParams, jd: JulianDate) -> Rotatio
     let w = params.w(jd).to::<crate::qtty::Radian>();
     let right_angle = crate::qtty::Degrees::new(90.0).to::<crate::qtty::Radian>();
 
-    let z1 = -w;
-    let x = -(right_angle - delta0);
-    let z2 = -(alpha0 + right_angle);
+    let z1 = w;
+    let x = right_angle - delta0;
+    let z2 = alpha0 + right_angle;
     Rotation3::from_euler_zxz(z1, x, z2)
 }
 
-- 
2.43.0


From 32f65835f9218efadd12163e589f4c7e924fc373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:12 +0000
Subject: [PATCH 05/78] fix: apply celestial pole offsets in every rotation to
 the true equator of date

---
 .../transform/providers/frames_inertial.rs    | 21 ++++++++-----------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/coordinates/transform/providers/frames_inertial.rs b/src/coordinates/transform/providers/frames_inertial.rs
index cced261..a45a754 100644
--- a/src/coordinates/transform/providers/frames_inertial.rs
+++ b/src/coordinates/transform/providers/frames_inertial.rs
@@ -165,10 +165,11 @@ impl FrameRotationProvider<EquatorialMeanOfDate, EquatorialTrueOfDate> for () {
     #[inline]
     fn rotation<Eph, Eop: EopProvider, Nut: NutationModel>(
         jd: JulianDate,
-        _ctx: &AstroContext<Eph, Eop>,
+        ctx: &AstroContext<Eph, Eop>,
     ) -> Rotation3 {
-        let nut = Nut::nutation(jd);
-        Rotation3::fused_rx_rz_rx(nut.mean_obliquity + nut.deps, nut.dpsi, -nut.mean_obliquity)
+        let mean_obliquity = Nut::nutation(jd).mean_obliquity;
+        let (dpsi, deps) = nutation_with_celestial_pole_offsets::<Nut>(jd, ctx.eop_at_tt(jd));
+        Rotation3::fused_rx_rz_rx(mean_obliquity + deps, dpsi, -mean_obliquity)
     }
 }
 
@@ -186,11 +187,10 @@ impl FrameRotationProvider<EquatorialMeanJ2000, EquatorialTrueOfDate> for () {
     #[inline]
     fn rotation<Eph, Eop: EopProvider, Nut: NutationModel>(
         jd: JulianDate,
-        _ctx: &AstroContext<Eph, Eop>,
+        ctx: &AstroContext<Eph, Eop>,
     ) -> Rotation3 {
-        let nut = Nut::nutation(jd);
-        precession::precession_nutation_matrix(jd, nut.dpsi, nut.deps)
-            * bias::frame_bias_j2000_to_icrs()
+        let (dpsi, deps) = nutation_with_celestial_pole_offsets::<Nut>(jd, ctx.eop_at_tt(jd));
+        precession::precession_nutation_matrix(jd, dpsi, deps) * bias::frame_bias_j2000_to_icrs()
     }
 }
 
@@ -198,12 +198,9 @@ impl FrameRotationProvider<EquatorialTrueOfDate, EquatorialMeanJ2000> for () {
     #[inline]
     fn rotation<Eph, Eop: EopProvider, Nut: NutationModel>(
         jd: JulianDate,
-        _ctx: &AstroContext<Eph, Eop>,
+        ctx: &AstroContext<Eph, Eop>,
     ) -> Rotation3 {
-        let nut = Nut::nutation(jd);
-        (precession::precession_nutation_matrix(jd, nut.dpsi, nut.deps)
-            * bias::frame_bias_j2000_to_icrs())
-        .inverse()
+        inverse_rotation::<EquatorialTrueOfDate, EquatorialMeanJ2000, Eph, Eop, Nut>(jd, ctx)
     }
 }
 
-- 
2.43.0


From ebdbfb6f49817c1768b97aa7884318c30e6cc522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:36 +0000
Subject: [PATCH 06/78] fix: extrapolate Delta T instead of panicking after its
 prediction horizon

---
 src/astro/earth_rotation.rs | 37 ++++++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/src/astro/earth_rotation.rs b/src/astro/earth_rotation.rs
index ce8104b..3246eaa 100644
--- a/src/astro/earth_rotation.rs
+++ b/src/astro/earth_rotation.rs
@@ -53,6 +53,25 @@ use crate::astro::sidereal::gmst_iau2006;
 use crate::qtty::*;
 use crate::time::{JulianDate, TimeContext, TT, UT1};
 
+/// JD(UT1) of a JD(TT), extrapolating ΔT beyond the last published prediction.
+fn ut1_jd_from_tt(jd_tt: JulianDate, ctx: &TimeContext) -> f64 {
+    let jd_tt_t: tempoch::JulianDate<TT> = jd_tt;
+    match jd_tt_t.to_with::<UT1>(ctx) {
+        Ok(ut1) => ut1.to::<tempoch::JD>().raw().value(),
+        Err(tempoch::ConversionError::Ut1HorizonExceeded) => {
+            let tt = jd_tt.raw().value();
+            let mut ut1 = tt;
+            // ΔT is tabulated on the UT1 axis; it varies slowly enough to converge at once.
+            for _ in 0..4 {
+                let delta_t = tempoch::delta_t_seconds_extrapolated(Days::new(ut1));
+                ut1 = tt - delta_t.to::<Day>().value();
+            }
+            ut1
+        }
+        Err(e) => panic!("TT->UT1 conversion failed: {e}"),
+    }
+}
+
 /// Compute JD(UT1) from JD(TT) using tempoch's ΔT model.
 ///
 /// This uses the piecewise ΔT model in `tempoch` (Stephenson & Houlden,
@@ -73,11 +92,7 @@ use crate::time::{JulianDate, TimeContext, TT, UT1};
 /// [`tempoch::JulianDate::to_with`] directly to recover a `Result`.
 #[inline]
 pub fn jd_ut1_from_tt(jd_tt: JulianDate) -> JulianDate {
-    let jd_tt: tempoch::JulianDate<crate::time::TT> = jd_tt;
-    let ut1 = jd_tt
-        .to_with::<UT1>(&TimeContext::new())
-        .expect("TT->UT1 conversion should succeed within the bundled model horizon");
-    crate::time::JulianDate::new(ut1.to::<tempoch::JD>().raw().value())
+    crate::time::JulianDate::new(ut1_jd_from_tt(jd_tt, &TimeContext::new()))
 }
 
 /// Compute JD(UTC) from JD(TT) using the active IERS EOP bundle.
@@ -93,12 +108,8 @@ pub fn jd_ut1_from_tt(jd_tt: JulianDate) -> JulianDate {
 /// [`jd_utc_from_tt_delta_t`].
 #[inline]
 pub fn try_jd_utc_from_tt(jd_tt: JulianDate) -> Result<JulianDate, EopError> {
-    let jd_tt_t: tempoch::JulianDate<TT> = jd_tt;
     let ctx = TimeContext::with_builtin_eop();
-    let ut1 = jd_tt_t
-        .to_with::<UT1>(&ctx)
-        .expect("TT->UT1 conversion should succeed within the bundled model horizon");
-    let ut1_jd = ut1.to::<tempoch::JD>().raw().value();
+    let ut1_jd = ut1_jd_from_tt(jd_tt, &ctx);
     let mut utc_jd = ut1_jd;
 
     for _ in 0..3 {
@@ -156,12 +167,8 @@ pub fn jd_utc_from_tt(jd_tt: JulianDate) -> JulianDate {
 /// 4500 BCE through year 3000 CE).
 #[inline]
 pub fn jd_ut1_from_tt_eop(jd_tt: JulianDate, eop: &EopValues) -> JulianDate {
-    let jd_tt_t: tempoch::JulianDate<TT> = jd_tt;
     let ctx = TimeContext::with_builtin_eop();
-    let ut1 = jd_tt_t
-        .to_with::<UT1>(&ctx)
-        .expect("TT->UT1 conversion should succeed within the bundled model horizon");
-    let ut1_jd = ut1.to::<tempoch::JD>().raw().value();
+    let ut1_jd = ut1_jd_from_tt(jd_tt, &ctx);
 
     let mjd_query = qtty::Day::new(ut1_jd - 2_400_000.5);
     let bundled_dut1 = ctx
-- 
2.43.0


From c982902cbc0df31094b9ec8754c33b363fbf45e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:31 +0000
Subject: [PATCH 07/78] fix: bodycentric transforms use the ephemeris of the
 given context

---
 .../centers/position/to_bodycentric.rs        | 31 ++++++++++++-------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/coordinates/transform/centers/position/to_bodycentric.rs b/src/coordinates/transform/centers/position/to_bodycentric.rs
index 49a1f5b..bbca6ec 100644
--- a/src/coordinates/transform/centers/position/to_bodycentric.rs
+++ b/src/coordinates/transform/centers/position/to_bodycentric.rs
@@ -66,7 +66,7 @@ where
         &self,
         body_params: BodycentricParams,
         jd: JulianDate,
-        _ctx: &AstroContext<Eph, Eop>,
+        ctx: &AstroContext<Eph, Eop>,
     ) -> Position<Bodycentric, F, U> {
         let body_ecliptic_au = body_params.orbit.position_with_mu(jd, body_params.mu);
 
@@ -85,7 +85,8 @@ where
                     body_ecliptic_au.y(),
                     body_ecliptic_au.z(),
                 );
-                let body_geo_ecl: EclipticMeanJ2000<U, Geocentric> = body_helio_ecl.to_center(jd);
+                let body_geo_ecl: EclipticMeanJ2000<U, Geocentric> =
+                    body_helio_ecl.to_center_as::<Eph, Eop, Nut>((), jd, ctx);
                 body_geo_ecl.to_frame()
             }
             OrbitReferenceCenter::Barycentric => {
@@ -94,7 +95,8 @@ where
                     body_ecliptic_au.y(),
                     body_ecliptic_au.z(),
                 );
-                let body_geo_ecl: EclipticMeanJ2000<U, Geocentric> = body_bary_ecl.to_center(jd);
+                let body_geo_ecl: EclipticMeanJ2000<U, Geocentric> =
+                    body_bary_ecl.to_center_as::<Eph, Eop, Nut>((), jd, ctx);
                 body_geo_ecl.to_frame()
             }
         };
@@ -123,7 +125,7 @@ where
         &self,
         body_params: BodycentricParams,
         jd: JulianDate,
-        _ctx: &AstroContext<Eph, Eop>,
+        ctx: &AstroContext<Eph, Eop>,
     ) -> Position<Bodycentric, F, U> {
         let body_ecliptic_au = body_params.orbit.position_with_mu(jd, body_params.mu);
 
@@ -142,7 +144,8 @@ where
                     body_ecliptic_au.y(),
                     body_ecliptic_au.z(),
                 );
-                let body_helio_ecl: EclipticMeanJ2000<U, Heliocentric> = body_geo_ecl.to_center(jd);
+                let body_helio_ecl: EclipticMeanJ2000<U, Heliocentric> =
+                    body_geo_ecl.to_center_as::<Eph, Eop, Nut>((), jd, ctx);
                 body_helio_ecl.to_frame()
             }
             OrbitReferenceCenter::Barycentric => {
@@ -152,7 +155,7 @@ where
                     body_ecliptic_au.z(),
                 );
                 let body_helio_ecl: EclipticMeanJ2000<U, Heliocentric> =
-                    body_bary_ecl.to_center(jd);
+                    body_bary_ecl.to_center_as::<Eph, Eop, Nut>((), jd, ctx);
                 body_helio_ecl.to_frame()
             }
         };
@@ -181,7 +184,7 @@ where
         &self,
         body_params: BodycentricParams,
         jd: JulianDate,
-        _ctx: &AstroContext<Eph, Eop>,
+        ctx: &AstroContext<Eph, Eop>,
     ) -> Position<Bodycentric, F, U> {
         let body_ecliptic_au = body_params.orbit.position_with_mu(jd, body_params.mu);
 
@@ -200,7 +203,8 @@ where
                     body_ecliptic_au.y(),
                     body_ecliptic_au.z(),
                 );
-                let body_bary_ecl: EclipticMeanJ2000<U, Barycentric> = body_helio_ecl.to_center(jd);
+                let body_bary_ecl: EclipticMeanJ2000<U, Barycentric> =
+                    body_helio_ecl.to_center_as::<Eph, Eop, Nut>((), jd, ctx);
                 body_bary_ecl.to_frame()
             }
             OrbitReferenceCenter::Geocentric => {
@@ -209,7 +213,8 @@ where
                     body_ecliptic_au.y(),
                     body_ecliptic_au.z(),
                 );
-                let body_bary_ecl: EclipticMeanJ2000<U, Barycentric> = body_geo_ecl.to_center(jd);
+                let body_bary_ecl: EclipticMeanJ2000<U, Barycentric> =
+                    body_geo_ecl.to_center_as::<Eph, Eop, Nut>((), jd, ctx);
                 body_bary_ecl.to_frame()
             }
         };
@@ -238,7 +243,7 @@ where
         &self,
         _params: (),
         jd: JulianDate,
-        _ctx: &AstroContext<Eph, Eop>,
+        ctx: &AstroContext<Eph, Eop>,
     ) -> Position<Geocentric, F, U> {
         let body_params = *self.center_params();
         let body_ecliptic_au = body_params.orbit.position_with_mu(jd, body_params.mu);
@@ -258,7 +263,8 @@ where
                     body_ecliptic_au.y(),
                     body_ecliptic_au.z(),
                 );
-                let body_geo_ecl: EclipticMeanJ2000<U, Geocentric> = body_helio_ecl.to_center(jd);
+                let body_geo_ecl: EclipticMeanJ2000<U, Geocentric> =
+                    body_helio_ecl.to_center_as::<Eph, Eop, Nut>((), jd, ctx);
                 body_geo_ecl.to_frame()
             }
             OrbitReferenceCenter::Barycentric => {
@@ -267,7 +273,8 @@ where
                     body_ecliptic_au.y(),
                     body_ecliptic_au.z(),
                 );
-                let body_geo_ecl: EclipticMeanJ2000<U, Geocentric> = body_bary_ecl.to_center(jd);
+                let body_geo_ecl: EclipticMeanJ2000<U, Geocentric> =
+                    body_bary_ecl.to_center_as::<Eph, Eop, Nut>((), jd, ctx);
                 body_geo_ecl.to_frame()
             }
         };
-- 
2.43.0


From 0ee0e883e5c318cb00e6c805cdd7d2a43fff85f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:30 +0000
Subject: [PATCH 08/78] fix: radial velocity per Julian year in space motion

---
 src/astro/proper_motion.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/astro/proper_motion.rs b/src/astro/proper_motion.rs
index 5a3f9bf..cf62b71 100644
--- a/src/astro/proper_motion.rs
+++ b/src/astro/proper_motion.rs
@@ -331,10 +331,10 @@ pub fn propagate_space_motion(
     let v_alpha_au_yr = pm_ra_rad_yr * r_au * cos_d;
     let v_delta_au_yr = pm_dec_rad_yr * r_au;
 
-    // Radial velocity in AU/yr (positive = away).
+    // Radial velocity in AU per Julian year (positive = away).
     let v_r_au_yr = motion
         .radial_velocity
-        .to::<Per<AstronomicalUnit, Year>>()
+        .to::<Per<AstronomicalUnit, JulianYear>>()
         .value();
 
     // BCRS velocity vector in AU/yr.
-- 
2.43.0


From 95070cb7f45126c4cc1339f089422cc1642568b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:30 +0000
Subject: [PATCH 09/78] fix: topocentric observer state uses the ephemeris of
 the given context

---
 src/coordinates/observation/observer_state.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/coordinates/observation/observer_state.rs b/src/coordinates/observation/observer_state.rs
index 000c8c6..4493818 100644
--- a/src/coordinates/observation/observer_state.rs
+++ b/src/coordinates/observation/observer_state.rs
@@ -123,7 +123,7 @@ impl ObserverState {
     }
 
     /// Context-aware topocentric observer state.
-    pub fn topocentric_with_ctx<Eph, Eop: EopProvider, Nut: NutationModel>(
+    pub fn topocentric_with_ctx<Eph: Ephemeris, Eop: EopProvider, Nut: NutationModel>(
         site: &Geodetic<ECEF>,
         jd: JulianDate,
         ctx: &AstroContext<Eph, Eop>,
@@ -132,7 +132,7 @@ impl ObserverState {
         use crate::qtty::{unit, Meter, Seconds};
 
         // Annual (orbital) component: barycentric Earth velocity.
-        let vel_ecl = DefaultEphemeris::earth_barycentric_velocity(jd);
+        let vel_ecl = Eph::earth_barycentric_velocity(jd);
 
         // Transform to equatorial frame
         let mut velocity: Velocity<EquatorialMeanJ2000, AuPerDay> = vel_ecl.to_frame();
-- 
2.43.0


From 9f67a1a34135ebf24605c844a3ea2307a97dd7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:28 +0000
Subject: [PATCH 10/78] fix: interpolate UT1-UTC across a leap second without
 its step

---
 src/formats/iers/eop.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/formats/iers/eop.rs b/src/formats/iers/eop.rs
index 37e4b8e..72e7a08 100644
--- a/src/formats/iers/eop.rs
+++ b/src/formats/iers/eop.rs
@@ -117,7 +117,8 @@ pub fn read_eop_c04<R: Read>(rdr: R) -> Result<Vec<EopRecord>, FormatError> {
 /// Linear interpolation of an EOP record at a target MJD.
 ///
 /// Returns `None` if the table is empty; clamps to the endpoints when the
-/// requested epoch lies outside the table range.
+/// requested epoch lies outside the table range. UT1 − UTC is interpolated
+/// without the one-second step a leap second inserts between two rows.
 pub fn interpolate(records: &[EopRecord], mjd: ModifiedJulianDate<UTC>) -> Option<EopRecord> {
     if records.is_empty() {
         return None;
@@ -145,12 +146,16 @@ pub fn interpolate(records: &[EopRecord], mjd: ModifiedJulianDate<UTC>) -> Optio
     let b_val = b.mjd.raw().value();
     let t_val = mjd.raw().value();
     let f = (t_val - a_val) / (b_val - a_val);
+    // A leap second steps UT1 − UTC by a whole second at the later row; until
+    // then the series runs on continuously from the earlier one.
+    let dut1_step = b.eop.dut1.value() - a.eop.dut1.value();
+    let dut1_change = dut1_step - dut1_step.round();
     Some(EopRecord {
         mjd,
         eop: EopValues {
             xp: Arcseconds::new(a.eop.xp.value() + f * (b.eop.xp.value() - a.eop.xp.value())),
             yp: Arcseconds::new(a.eop.yp.value() + f * (b.eop.yp.value() - a.eop.yp.value())),
-            dut1: Seconds::new(a.eop.dut1.value() + f * (b.eop.dut1.value() - a.eop.dut1.value())),
+            dut1: Seconds::new(a.eop.dut1.value() + f * dut1_change),
             lod: Seconds::new(a.eop.lod.value() + f * (b.eop.lod.value() - a.eop.lod.value())),
             dx: MilliArcseconds::new(a.eop.dx.value() + f * (b.eop.dx.value() - a.eop.dx.value())),
             dy: MilliArcseconds::new(a.eop.dy.value() + f * (b.eop.dy.value() - a.eop.dy.value())),
-- 
2.43.0


From 71c0a2a9224442e8d32ff7f3f6285938ff224c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:28 +0000
Subject: [PATCH 11/78] fix: reject damaged numbers in EOP C04 rows instead of
 reading them as zero

---
 src/formats/iers/eop.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/formats/iers/eop.rs b/src/formats/iers/eop.rs
index 72e7a08..eaf628e 100644
--- a/src/formats/iers/eop.rs
+++ b/src/formats/iers/eop.rs
@@ -93,12 +93,20 @@ pub fn read_eop_c04<R: Read>(rdr: R) -> Result<Vec<EopRecord>, FormatError> {
             Ok(m) => m,
             Err(_) => continue,
         };
-        let x = parts[4].parse().unwrap_or(0.0);
-        let y = parts[5].parse().unwrap_or(0.0);
-        let ut1 = parts[6].parse().unwrap_or(0.0);
-        let lod = parts[7].parse().unwrap_or(0.0);
-        let dpsi = parts[8].parse().unwrap_or(0.0);
-        let deps = parts[9].parse().unwrap_or(0.0);
+        let field = |i: usize| {
+            parts[i].parse::<f64>().map_err(|_| {
+                FormatError::Format(format!(
+                    "EOP C04 row for MJD {mjd_raw}: bad number {:?}",
+                    parts[i]
+                ))
+            })
+        };
+        let x = field(4)?;
+        let y = field(5)?;
+        let ut1 = field(6)?;
+        let lod = field(7)?;
+        let dpsi = field(8)?;
+        let deps = field(9)?;
         out.push(EopRecord {
             mjd,
             eop: EopValues {
-- 
2.43.0


From a4715283b187d0c18a2a066b36b64affd4fda2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:28 +0000
Subject: [PATCH 12/78] fix: report no EOP data after the last row of the
 series

---
 src/astro/eop.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/astro/eop.rs b/src/astro/eop.rs
index 54c3b9c..8d367aa 100644
--- a/src/astro/eop.rs
+++ b/src/astro/eop.rs
@@ -234,10 +234,14 @@ impl EopProvider for IersEop {
     fn try_eop_at(&self, jd_utc: JulianDate) -> Result<EopValues, EopError> {
         let mjd = Days::new(jd_utc.raw().value() - 2_400_000.5);
 
-        let e = tempoch::eop::builtin_eop_at(mjd).ok_or(EopError::NoData {
-            jd_utc: jd_utc.raw().value(),
-            mjd_utc: mjd.value(),
-        })?;
+        // tempoch holds the last row for the whole day that follows it.
+        let covered = tempoch::eop::eop_end().is_some_and(|end| mjd <= end);
+        let e = tempoch::eop::builtin_eop_at(mjd)
+            .filter(|_| covered)
+            .ok_or(EopError::NoData {
+                jd_utc: jd_utc.raw().value(),
+                mjd_utc: mjd.value(),
+            })?;
 
         Ok(EopValues {
             dut1: e.ut1_minus_utc,
-- 
2.43.0


From 13c0c2bb2c71c9d2f200e1a378e44cbc97e390e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:07 +0000
Subject: [PATCH 13/78] fix: count azimuth eastwards in the mean-of-date
 horizontal transforms

---
 src/coordinates/transform/frames/to_horizontal.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/coordinates/transform/frames/to_horizontal.rs b/src/coordinates/transform/frames/to_horizontal.rs
index 9e40394..918afd9 100644
--- a/src/coordinates/transform/frames/to_horizontal.rs
+++ b/src/coordinates/transform/frames/to_horizontal.rs
@@ -165,10 +165,11 @@ impl<U: LengthUnit> Transform<cartesian::Position<Topocentric, Horizontal, U>>
             equatorial_to_horizontal_angles(ra.to::<Deg>(), dec.to::<Deg>(), site, &site_trig, jd);
 
         // Convert back to Cartesian in horizontal frame
-        // In horizontal: x = North, y = West, z = Zenith
+        // In horizontal: x = North, y = East, z = Zenith, so that the
+        // spherical azimuth counts from North through East
         // Trig functions return f64, multiply by Quantity<U> to get Quantity<U>
         let new_x = r * alt.cos() * az.cos();
-        let new_y = -r * alt.cos() * az.sin(); // negative for East-positive azimuth
+        let new_y = r * alt.cos() * az.sin();
         let new_z = r * alt.sin();
 
         cartesian::Position::from_array(*site, [new_x, new_y, new_z])
@@ -198,7 +199,7 @@ impl<U: LengthUnit> Transform<cartesian::Position<Topocentric, EquatorialMeanOfD
             Quantity::<Radian>::new(0.0)
         };
         // atan2 on Quantity<U> values - extract raw values for atan2
-        let az: Radians = Quantity::<Radian>::new((-self.y() / r).atan2(self.x() / r));
+        let az: Radians = Quantity::<Radian>::new((self.y() / r).atan2(self.x() / r));
 
         let site_trig = SiteTrig::from_site(site);
         let (ra, dec) = horizontal_to_equatorial_angles(alt, az, site, &site_trig, jd);
-- 
2.43.0


From 1a0fea5d16c3cff96bcf6305c1e5477c7da90248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:13 +0000
Subject: [PATCH 14/78] fix: keep the mean-of-date horizontal transforms exact
 at the poles and the zenith

---
 .../transform/frames/to_horizontal.rs         | 28 ++++++++++---------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/coordinates/transform/frames/to_horizontal.rs b/src/coordinates/transform/frames/to_horizontal.rs
index 918afd9..788f876 100644
--- a/src/coordinates/transform/frames/to_horizontal.rs
+++ b/src/coordinates/transform/frames/to_horizontal.rs
@@ -85,9 +85,11 @@ fn equatorial_to_horizontal_angles(
     let cos_ha = ha.cos();
 
     // Use precomputed sin/cos of latitude
-    let alt_val = (sin_dec * site_trig.sin_lat + cos_dec * site_trig.cos_lat * cos_ha).asin();
-    let az_val = (-cos_dec * ha.sin())
-        .atan2(sin_dec * site_trig.cos_lat - cos_dec * cos_ha * site_trig.sin_lat);
+    let north = sin_dec * site_trig.cos_lat - cos_dec * cos_ha * site_trig.sin_lat;
+    let east = -cos_dec * ha.sin();
+    let up = sin_dec * site_trig.sin_lat + cos_dec * site_trig.cos_lat * cos_ha;
+    let alt_val = up.atan2(north.hypot(east));
+    let az_val = east.atan2(north);
 
     (
         Quantity::<Radian>::new(alt_val),
@@ -116,15 +118,15 @@ fn horizontal_to_equatorial_angles(
     // Use precomputed sin/cos of latitude
     let (sin_alt, cos_alt) = alt.sin_cos();
 
-    // Calculate declination
-    let sin_dec = sin_alt * site_trig.sin_lat + cos_alt * site_trig.cos_lat * az.cos();
-    let dec_val = sin_dec.asin();
+    // Components along the meridian, west and the celestial pole. Unlike the
+    // quotient formulae these hold at the poles and for circumpolar zeniths.
+    let south = sin_alt * site_trig.cos_lat - cos_alt * az.cos() * site_trig.sin_lat;
+    let west = -cos_alt * az.sin();
+    let pole = sin_alt * site_trig.sin_lat + cos_alt * site_trig.cos_lat * az.cos();
 
-    // Calculate hour angle
-    let cos_ha =
-        (sin_alt - site_trig.sin_lat * dec_val.sin()) / (site_trig.cos_lat * dec_val.cos());
-    let sin_ha = -cos_alt * az.sin() / dec_val.cos();
-    let ha_val = sin_ha.atan2(cos_ha);
+    // Calculate declination and hour angle
+    let dec_val = pole.atan2(south.hypot(west));
+    let ha_val = west.atan2(south);
 
     // Convert hour angle to right ascension
     let gmst = gmst_from_tt(jd);
@@ -153,7 +155,7 @@ impl<U: LengthUnit> Transform<cartesian::Position<Topocentric, Horizontal, U>>
         let r = self.distance();
 
         let dec: Radians = if r.value() > 0.0 {
-            Quantity::<Radian>::new((self.z() / r).asin())
+            Quantity::<Radian>::new((self.z() / r).atan2((self.x() / r).hypot(self.y() / r)))
         } else {
             Quantity::<Radian>::new(0.0)
         };
@@ -194,7 +196,7 @@ impl<U: LengthUnit> Transform<cartesian::Position<Topocentric, EquatorialMeanOfD
         let r = self.distance();
         // Division of same units gives Per<U,U> which has .asin() returning f64
         let alt: Radians = if r.value() > 0.0 {
-            Quantity::<Radian>::new((self.z() / r).asin())
+            Quantity::<Radian>::new((self.z() / r).atan2((self.x() / r).hypot(self.y() / r)))
         } else {
             Quantity::<Radian>::new(0.0)
         };
-- 
2.43.0


From f2ec832d7660b245b225eef61cd24b2f6ca00ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:52 +0000
Subject: [PATCH 15/78] fix: altitude of Sun, Moon and stars stays finite and
 exact at the zenith

---
 src/event/horizontal.rs | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/src/event/horizontal.rs b/src/event/horizontal.rs
index 702de3b..38faca0 100644
--- a/src/event/horizontal.rs
+++ b/src/event/horizontal.rs
@@ -205,14 +205,13 @@ where
     let lat = site.lat.to::<Radian>();
     let dec_rad = dec.to::<Radian>();
 
-    // Altitude: sin(alt) = sin(dec)·sin(lat) + cos(dec)·cos(lat)·cos(HA)
-    let sin_alt = dec_rad.sin() * lat.sin() + dec_rad.cos() * lat.cos() * ha.cos();
-    let alt = Radians::new(sin_alt.asin()).to::<Degree>();
-
-    // Azimuth: tan(az) = -sin(HA) / (cos(lat)·tan(dec) - sin(lat)·cos(HA))
-    let az_rad = (-dec_rad.cos() * ha.sin())
-        .atan2(dec_rad.sin() * lat.cos() - dec_rad.cos() * ha.cos() * lat.sin());
-    let az = Radians::new(az_rad).normalize().to::<Degree>();
+    // Local north, east and up components; atan2 stays accurate (and finite)
+    // at the zenith, where sin(alt) can round to more than one.
+    let north = dec_rad.sin() * lat.cos() - dec_rad.cos() * ha.cos() * lat.sin();
+    let east = -dec_rad.cos() * ha.sin();
+    let up = dec_rad.sin() * lat.sin() + dec_rad.cos() * lat.cos() * ha.cos();
+    let alt = Radians::new(up.atan2(north.hypot(east))).to::<Degree>();
+    let az = Radians::new(east.atan2(north)).normalize().to::<Degree>();
 
     Topocentric::horizontal(site, alt, az, distance)
 }
@@ -273,7 +272,7 @@ pub fn star_horizontal_with_policy(
 
     // True-of-date RA/Dec
     let ra_tod = Radians::new(y_t.atan2(x_t));
-    let dec_tod = Radians::new(z_t.asin());
+    let dec_tod = Radians::new(z_t.atan2(x_t.hypot(y_t)));
 
     // True-of-date RA/Dec requires apparent sidereal time (GAST).
     let ctx: AstroContext = AstroContext::default();
@@ -285,12 +284,11 @@ pub fn star_horizontal_with_policy(
 
     // Equatorial → horizontal
     let lat = site.lat.to::<Radian>();
-    let sin_alt = dec_tod.sin() * lat.sin() + dec_tod.cos() * lat.cos() * ha.cos();
-    let alt = Radians::new(sin_alt.asin()).to::<Degree>();
-
-    let az_rad = (-dec_tod.cos() * ha.sin())
-        .atan2(dec_tod.sin() * lat.cos() - dec_tod.cos() * ha.cos() * lat.sin());
-    let az = Radians::new(az_rad).normalize().to::<Degree>();
+    let north = dec_tod.sin() * lat.cos() - dec_tod.cos() * ha.cos() * lat.sin();
+    let east = -dec_tod.cos() * ha.sin();
+    let up = dec_tod.sin() * lat.sin() + dec_tod.cos() * lat.cos() * ha.cos();
+    let alt = Radians::new(up.atan2(north.hypot(east))).to::<Degree>();
+    let az = Radians::new(east.atan2(north)).normalize().to::<Degree>();
 
     spherical::Direction::<frames::Horizontal>::new(alt, az)
 }
-- 
2.43.0


From 86d2e0412e437fe2849e4673bf7e5a3ebb16ff20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:41 +0000
Subject: [PATCH 16/78] fix: altitude crossings keep every root of a segment
 polynomial

---
 src/event/search/crossings.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/event/search/crossings.rs b/src/event/search/crossings.rs
index 18a107e..5d5c51b 100644
--- a/src/event/search/crossings.rs
+++ b/src/event/search/crossings.rs
@@ -22,6 +22,8 @@ type Mjd = ModifiedJulianDate;
 pub(crate) const POLY_ZERO_TOL: f64 = 1e-12;
 const MIN_SEGMENT_DAYS: f64 = 1e-6;
 const TAIL_NORM_COEFFS: usize = 4;
+/// Samples used to count the sign changes of a segment polynomial.
+const POLY_SIGN_SAMPLES: usize = 32;
 
 /// Runtime counters for Chebyshev crossing searches.
 #[derive(Debug, Default, Clone, Copy)]
@@ -200,6 +202,20 @@ where
     let roots = poly.roots_with(root_opts);
     search.diagnostics.polynomial_roots += roots.len();
 
+    // The polynomial root finder may lose some of the roots of a segment; the
+    // sign changes of the polynomial itself show how many there must be.
+    let mut sign_changes = 0;
+    let mut above = poly.evaluate(-1.0) > 0.0;
+    for i in 1..=POLY_SIGN_SAMPLES {
+        let next = poly.evaluate(2.0 * i as f64 / POLY_SIGN_SAMPLES as f64 - 1.0) > 0.0;
+        sign_changes += usize::from(next != above);
+        above = next;
+    }
+    if sign_changes > roots.len() {
+        fallback_segment(search, segment);
+        return;
+    }
+
     if roots.is_empty() && segment_has_hidden_sign_change(search, segment) {
         fallback_segment(search, segment);
         return;
-- 
2.43.0


From 9b03a157a287fc0889755ec712e2f0d24494b703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:41 +0000
Subject: [PATCH 17/78] fix: no culmination from the rounding noise of a
 degenerate last scan step

---
 src/event/search/extrema.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/event/search/extrema.rs b/src/event/search/extrema.rs
index b365a30..06fef16 100644
--- a/src/event/search/extrema.rs
+++ b/src/event/search/extrema.rs
@@ -267,7 +267,8 @@ where
                 t_end_v
             }
         };
-        if t2 <= t1 {
+        // A last step too short to resolve shows only rounding noise.
+        if t2.raw() - t1.raw() <= tol.max(PROBE_EPS) {
             break;
         }
         let f2 = f(t2);
-- 
2.43.0


From 81e90747ced16959a67ae751c3e2e041e34f1095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:41 +0000
Subject: [PATCH 18/78] fix: solar daily predictor checks crossing direction,
 merges duplicates and covers transits at midnight

---
 src/event/solar/daily_events.rs | 58 ++++++++++++++++++++++++++++++---
 1 file changed, 53 insertions(+), 5 deletions(-)

diff --git a/src/event/solar/daily_events.rs b/src/event/solar/daily_events.rs
index ae097af..b35d616 100644
--- a/src/event/solar/daily_events.rs
+++ b/src/event/solar/daily_events.rs
@@ -149,6 +149,14 @@ fn solar_residual_fast(t: ModifiedJulianDate, thr_sin: f64, ctx: &SolarAltitudeS
     solar_sin_altitude_fast(t, ctx) - thr_sin
 }
 
+/// Change of the sine of the altitude across one minute around `t`.
+#[inline]
+fn fast_slope(t: ModifiedJulianDate, ctx: &SolarAltitudeSiteContext) -> f64 {
+    let half = Seconds::new(30.0).to::<Day>();
+    solar_sin_altitude_fast(add_days(t, half), ctx)
+        - solar_sin_altitude_fast(add_days(t, -half), ctx)
+}
+
 // ---------------------------------------------------------------------------
 
 /// Precomputed full MJD transit-day windows for a solar event query.
@@ -249,7 +257,7 @@ pub(crate) fn solar_daily_crossings_for_thresholds_impl(
     }
 
     for crossings in &mut results {
-        sort_dedup_labelled(crossings);
+        sort_dedup_labelled(crossings, opts.time_tolerance);
     }
 
     results
@@ -326,7 +334,7 @@ pub(crate) fn solar_daily_crossings_impl(
         ));
     }
 
-    sort_dedup_labelled(&mut labelled);
+    sort_dedup_labelled(&mut labelled, opts.time_tolerance);
     diagnostics.refined_crossings = labelled.len();
     (labelled, diagnostics)
 }
@@ -432,7 +440,17 @@ fn predict_day_crossings(
             let mut refined = Vec::new();
             let mut failed = false;
 
-            for candidate in predict_solar_threshold_candidates(state, h0, cos_lat) {
+            for candidate in day_transits(state.approx_transit, transit_day)
+                .into_iter()
+                .flatten()
+                .flat_map(|approx_transit| {
+                    let state = SolarDailyState {
+                        approx_transit,
+                        ..state
+                    };
+                    predict_solar_threshold_candidates(state, h0, cos_lat)
+                })
+            {
                 if !candidate_near_query_window(candidate, query_window) {
                     continue;
                 }
@@ -449,6 +467,14 @@ fn predict_day_crossings(
                     opts,
                     diagnostics,
                 ) {
+                    // A window that cuts the candidate off can leave only the
+                    // opposite crossing in the bracket.
+                    Some(root)
+                        if fast_slope(root, fast_ctx) * candidate.direction as f64 <= 0.0 =>
+                    {
+                        failed = true;
+                        diagnostics.bracket_failures += 1;
+                    }
                     Some(root) => {
                         if root >= query_window.start && root <= query_window.end {
                             refined.push(LabeledCrossing {
@@ -479,6 +505,23 @@ fn predict_day_crossings(
     }
 }
 
+/// The transits to consider for a day: a transit predicted next to one end of
+/// the day may really be the one at the other end.
+fn day_transits(
+    approx_transit: ModifiedJulianDate,
+    transit_day: Interval<ModifiedJulianDate>,
+) -> [Option<ModifiedJulianDate>; 2] {
+    let margin = Minutes::new(15.0).to::<Day>();
+    let other = if approx_transit <= add_days(transit_day.start, margin) {
+        Some(add_days(approx_transit, ONE_DAY))
+    } else if approx_transit >= add_days(transit_day.end, -margin) {
+        Some(add_days(approx_transit, -ONE_DAY))
+    } else {
+        None
+    };
+    [Some(approx_transit), other]
+}
+
 fn predict_solar_threshold_candidates(
     state: SolarDailyState,
     hour_angle_at_threshold: f64,
@@ -949,9 +992,14 @@ pub(crate) fn solar_twilight_profile_impl(
     solar_daily_crossings_for_thresholds_impl(site, window, thresholds, opts)
 }
 
-fn sort_dedup_labelled(crossings: &mut Vec<LabeledCrossing>) {
+/// Sort and merge crossings found more than once: neighbouring transit days
+/// overlap, and each refines a shared root only to within `time_tolerance`.
+fn sort_dedup_labelled(crossings: &mut Vec<LabeledCrossing>, time_tolerance: Days) {
     crossings.sort_by(|a, b| a.t.partial_cmp(&b.t).unwrap_or(std::cmp::Ordering::Equal));
-    crossings.dedup_by(|a, b| (a.t.raw() - b.t.raw()).abs() < CROSSING_DEDUPE_EPS);
+    crossings.dedup_by(|a, b| {
+        let dt = (a.t.raw() - b.t.raw()).abs();
+        dt < CROSSING_DEDUPE_EPS || (a.direction == b.direction && dt < time_tolerance * 8.0)
+    });
 }
 
 #[cfg(test)]
-- 
2.43.0


From ff26e1b2399910c69730d324f9c4e6f0756a6e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:16 +0000
Subject: [PATCH 19/78] fix: solar crossings found twice near the poles are
 merged

---
 src/event/solar/daily_events.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/event/solar/daily_events.rs b/src/event/solar/daily_events.rs
index b35d616..b8e8a08 100644
--- a/src/event/solar/daily_events.rs
+++ b/src/event/solar/daily_events.rs
@@ -23,6 +23,9 @@ use crate::time::{Interval, JulianDate, ModifiedJulianDate};
 
 use super::altitude::sun_altitude_rad;
 
+/// Two crossings in the same direction closer than this are the same crossing.
+const SAME_CROSSING_EPS: Days = Days::new(1e-6);
+
 const GRAZE_EPS: f64 = 1e-3;
 /// Hour-angle rate used for candidate spacing (rad per mean solar day).
 const HA_RATE_RAD_PER_DAY: f64 = std::f64::consts::TAU;
@@ -993,12 +996,14 @@ pub(crate) fn solar_twilight_profile_impl(
 }
 
 /// Sort and merge crossings found more than once: neighbouring transit days
-/// overlap, and each refines a shared root only to within `time_tolerance`.
+/// overlap, and each refines a shared root only to within `time_tolerance`, or
+/// to the residual tolerance where the Sun climbs slowly.
 fn sort_dedup_labelled(crossings: &mut Vec<LabeledCrossing>, time_tolerance: Days) {
     crossings.sort_by(|a, b| a.t.partial_cmp(&b.t).unwrap_or(std::cmp::Ordering::Equal));
     crossings.dedup_by(|a, b| {
         let dt = (a.t.raw() - b.t.raw()).abs();
-        dt < CROSSING_DEDUPE_EPS || (a.direction == b.direction && dt < time_tolerance * 8.0)
+        let same_root = (time_tolerance * 8.0).max(SAME_CROSSING_EPS);
+        dt < CROSSING_DEDUPE_EPS || (a.direction == b.direction && dt < same_root)
     });
 }
 
-- 
2.43.0


From 3a10b6470a75fe77a77a0568cc0a32a159b2135a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:16 +0000
Subject: [PATCH 20/78] fix: azimuth crossings of a bearing exclude the
 opposite bearing

---
 src/event/azimuth/events.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/event/azimuth/events.rs b/src/event/azimuth/events.rs
index 1ed108b..15878a0 100644
--- a/src/event/azimuth/events.rs
+++ b/src/event/azimuth/events.rs
@@ -196,6 +196,8 @@ pub fn azimuth_crossings<T: AzimuthProvider>(
     let step = scan_step_for(target, &opts);
 
     let mut raw = intervals::find_crossings(window, step, &f, Radians::new(0.0));
+    // The sine also vanishes on the opposite bearing: keep only the bearing asked for.
+    raw.retain(|t| (target.azimuth_at(observer, *t) - bearing_rad).cos() > 0.0);
     let labeled = intervals::label_crossings(&mut raw, &f, Radians::new(0.0));
 
     labeled
-- 
2.43.0


From 5f6b6c798051e8a474c36ddd97c7db44799bf62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:45 +0000
Subject: [PATCH 21/78] fix: a crossing that falls exactly on a scan sample is
 not lost

---
 src/event/search/intervals.rs | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/event/search/intervals.rs b/src/event/search/intervals.rs
index d0881ca..bbd7924 100644
--- a/src/event/search/intervals.rs
+++ b/src/event/search/intervals.rs
@@ -92,6 +92,9 @@ where
     let mut crossings = Vec::new();
     let mut t = t_start_v;
     let mut prev = g(t);
+    // A root that falls exactly on a sample shows no sign change on either
+    // side; keep the value before it so that the crossing is not lost.
+    let mut on_root: Option<(Mjd, Quantity<V>)> = None;
     while t < t_end_v {
         let next_t = {
             let t_next = crate::time::ModifiedJulianDate::new((t.raw() + step_v).value());
@@ -103,6 +106,15 @@ where
         };
         let next_v = g(next_t);
 
+        if next_v == zero && prev != zero {
+            on_root = Some((next_t, prev));
+        } else if let (Some((root_t, before)), true) = (on_root, next_v != zero) {
+            if (before < zero) != (next_v < zero) {
+                crossings.push(root_t);
+            }
+            on_root = None;
+        }
+
         if (prev < zero && next_v > zero) || (prev > zero && next_v < zero) {
             if let Some(root_t) =
                 root_finding::brent_with_values(Interval::new(t, next_t), prev, next_v, g)
@@ -147,6 +159,8 @@ where
     let mut t = t_start_v;
     let mut prev = g(t);
     let start_above = prev > zero;
+    // As in `find_crossings`: a root exactly on a sample has no sign change.
+    let mut on_root: Option<(Mjd, Quantity<V>)> = None;
 
     while t < t_end_v {
         let next_t = {
@@ -159,6 +173,18 @@ where
         };
         let next_v = g(next_t);
 
+        if next_v == zero && prev != zero {
+            on_root = Some((next_t, prev));
+        } else if let (Some((root_t, before)), true) = (on_root, next_v != zero) {
+            if (before < zero) != (next_v < zero) {
+                crossings.push(LabeledCrossing {
+                    t: root_t,
+                    direction: if next_v > zero { 1 } else { -1 },
+                });
+            }
+            on_root = None;
+        }
+
         let direction = if prev < zero && next_v > zero {
             Some(1)
         } else if prev > zero && next_v < zero {
-- 
2.43.0


From 3d6b621c045843974bbd1a25761f0b2d52c43860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:47 +0000
Subject: [PATCH 22/78] fix: solar predictor allows for the drift of the
 declination through a polar day

---
 src/event/solar/daily_events.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/event/solar/daily_events.rs b/src/event/solar/daily_events.rs
index b8e8a08..83b32b6 100644
--- a/src/event/solar/daily_events.rs
+++ b/src/event/solar/daily_events.rs
@@ -27,6 +27,10 @@ use super::altitude::sun_altitude_rad;
 const SAME_CROSSING_EPS: Days = Days::new(1e-6);
 
 const GRAZE_EPS: f64 = 1e-3;
+
+/// How far the Sun's declination may move (rad) between the middle of a day,
+/// where the daily state is taken, and a crossing attributed to that day.
+const DEC_DRIFT: f64 = 7.5e-3;
 /// Hour-angle rate used for candidate spacing (rad per mean solar day).
 const HA_RATE_RAD_PER_DAY: f64 = std::f64::consts::TAU;
 
@@ -392,13 +396,16 @@ fn predict_day_crossings(
     }
 
     let cos_h0 = (thr_sin - sin_lat * state.sin_dec) / denom;
-    let case = if cos_h0 > 1.0 + GRAZE_EPS {
+    // The state holds at mid-day only: near the poles the drift of the
+    // declination through the day decides whether there is a crossing.
+    let graze = GRAZE_EPS.max(DEC_DRIFT / denom.abs());
+    let case = if cos_h0 > 1.0 + graze {
         DayThresholdCase::AlwaysBelow
-    } else if cos_h0 < -1.0 - GRAZE_EPS {
+    } else if cos_h0 < -1.0 - graze {
         DayThresholdCase::AlwaysAbove
     } else if !(-1.0..=1.0).contains(&cos_h0)
-        || (cos_h0 + 1.0).abs() < GRAZE_EPS
-        || (cos_h0 - 1.0).abs() < GRAZE_EPS
+        || (cos_h0 + 1.0).abs() < graze
+        || (cos_h0 - 1.0).abs() < graze
     {
         diagnostics.grazing_days += 1;
         return fallback_solar_crossings_for_window(
-- 
2.43.0


From d36b05c8e6ff0d89dbd622b2d5ce6f84f2c80cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:59 +0000
Subject: [PATCH 23/78] fix: an inclination outside 0-180 degrees no longer
 mirrors the orbit

---
 src/astro/conic.rs | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/astro/conic.rs b/src/astro/conic.rs
index 336de03..baa496b 100644
--- a/src/astro/conic.rs
+++ b/src/astro/conic.rs
@@ -150,6 +150,33 @@ pub(crate) fn map_validation_error(error: ConicValidationError) -> ConicError {
     }
 }
 
+/// Orientation with the angles folded into their conventional intervals.
+///
+/// Folding the inclination `i` into `360° − i` turns both the node and the
+/// argument of periapsis by half a turn; `affn` turns the node only, which
+/// would mirror the orbit, so it is given angles that need no folding.
+fn folded_orientation(
+    inclination: Degrees,
+    longitude_of_ascending_node: Degrees,
+    argument_of_periapsis: Degrees,
+) -> Result<ConicOrientation<EclipticMeanJ2000>, ConicValidationError> {
+    let half_turn = Degrees::new(180.0);
+    let wrapped = inclination.rem_euclid(360.0);
+    if wrapped > half_turn {
+        ConicOrientation::try_new(
+            half_turn + half_turn - wrapped,
+            longitude_of_ascending_node + half_turn,
+            argument_of_periapsis + half_turn,
+        )
+    } else {
+        ConicOrientation::try_new(
+            inclination,
+            longitude_of_ascending_node,
+            argument_of_periapsis,
+        )
+    }
+}
+
 pub(crate) fn elliptic_geometry_from_sma<U: LengthUnit>(
     semi_major_axis: Quantity<U>,
     eccentricity: f64,
@@ -164,7 +191,7 @@ pub(crate) fn elliptic_geometry_from_sma<U: LengthUnit>(
             return Err(ConicError::HyperbolicNotSupported);
         }
     };
-    let orientation = ConicOrientation::try_new(
+    let orientation = folded_orientation(
         inclination,
         longitude_of_ascending_node,
         argument_of_periapsis,
@@ -214,7 +241,7 @@ impl ConicOrbit {
         if eccentricity == 1.0 {
             return Err(ConicError::ParabolicUnsupported);
         }
-        let orientation = ConicOrientation::try_new(
+        let orientation = folded_orientation(
             inclination,
             longitude_of_ascending_node,
             argument_of_periapsis,
-- 
2.43.0


From c6ac9aea059404e7b597560769d2bab056e5aea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:59 +0000
Subject: [PATCH 24/78] fix: PreparedOrbit::try_from validates the elements it
 is given

---
 src/astro/orbit.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/astro/orbit.rs b/src/astro/orbit.rs
index e4f85c6..4a5e0c0 100644
--- a/src/astro/orbit.rs
+++ b/src/astro/orbit.rs
@@ -347,9 +347,16 @@ impl TryFrom<KeplerianOrbit> for PreparedOrbit {
     type Error = ConicError;
 
     fn try_from(orbit: KeplerianOrbit) -> Result<Self, Self::Error> {
-        // KeplerianOrbit::try_new already validates; orbits produced by `new`
-        // (const, body constants) are trusted. Build directly.
-        Ok(Self::from_validated(orbit))
+        // `KeplerianOrbit::new` does not validate, so check the elements here.
+        Self::try_from_elements(
+            orbit.shape().semi_major_axis(),
+            orbit.shape().eccentricity(),
+            orbit.orientation().inclination(),
+            orbit.orientation().longitude_of_ascending_node(),
+            orbit.orientation().argument_of_periapsis(),
+            orbit.mean_anomaly_at_epoch,
+            orbit.epoch,
+        )
     }
 }
 
-- 
2.43.0


From 5dc39c1a59a41da3565e1f5c70b1e88d16dda92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:59 +0000
Subject: [PATCH 25/78] fix: PlanetBuilder::build_unchecked keeps the albedo

---
 src/bodies/planets.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bodies/planets.rs b/src/bodies/planets.rs
index 87b9ac2..8bf57fc 100644
--- a/src/bodies/planets.rs
+++ b/src/bodies/planets.rs
@@ -187,7 +187,7 @@ impl PlanetBuilder {
                 mass,
                 radius,
                 orbit,
-                albedo: None,
+                albedo: self.albedo,
             },
             _ => panic!("PlanetBuilder::build_unchecked called with missing fields"),
         }
-- 
2.43.0


From 097896fa68a82cde9f4a06cd97a9960d31e41272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:11 +0000
Subject: [PATCH 26/78] fix: TLE propagator accepts Kepler solutions at
 rounding level

---
 src/astro/sgp4/propagator.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/astro/sgp4/propagator.rs b/src/astro/sgp4/propagator.rs
index 4e29125..65e6e8e 100644
--- a/src/astro/sgp4/propagator.rs
+++ b/src/astro/sgp4/propagator.rs
@@ -413,7 +413,9 @@ fn solve_kepler(mean_anomaly: f64, eccentricity: f64) -> Result<f64, Sgp4Error>
         }
         let step = f / fp;
         e_anom -= step;
-        if step.abs() < 1.0e-13 {
+        // On highly eccentric orbits near perigee `fp` is so small that the
+        // rounding of the residual alone keeps the step above the tolerance.
+        if step.abs() < 1.0e-13 || f.abs() <= 4.0 * f64::EPSILON * mean_anomaly.abs().max(1.0) {
             return Ok(e_anom);
         }
     }
-- 
2.43.0


From b2a70f37f063cccf2dc112c403b46c4713f0f794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:11 +0000
Subject: [PATCH 27/78] fix: TLE parser refuses non-ASCII lines and ill-formed
 counters instead of panicking or wrapping

---
 src/formats/tle/parse.rs | 61 ++++++++++++++++++++--------------------
 1 file changed, 31 insertions(+), 30 deletions(-)

diff --git a/src/formats/tle/parse.rs b/src/formats/tle/parse.rs
index 676d2a1..d672220 100644
--- a/src/formats/tle/parse.rs
+++ b/src/formats/tle/parse.rs
@@ -32,12 +32,7 @@ pub fn validate_tle_checksum(line: &str) -> Result<(), TleError> {
     } else {
         0u8
     };
-    if line.len() != 69 {
-        return Err(TleError::BadLength {
-            line: line_no,
-            got: line.len(),
-        });
-    }
+    check_length(line, line_no)?;
     let bytes = line.as_bytes();
     let stated_byte = bytes[68];
     if !stated_byte.is_ascii_digit() {
@@ -127,18 +122,8 @@ pub fn parse_3le(name: &str, line1: &str, line2: &str) -> Result<TLE, TleError>
 }
 
 fn parse_tle_inner(name: Option<String>, line1: &str, line2: &str) -> Result<TLE, TleError> {
-    if line1.len() != 69 {
-        return Err(TleError::BadLength {
-            line: 1,
-            got: line1.len(),
-        });
-    }
-    if line2.len() != 69 {
-        return Err(TleError::BadLength {
-            line: 2,
-            got: line2.len(),
-        });
-    }
+    check_length(line1, 1)?;
+    check_length(line2, 2)?;
     let l1b = line1.as_bytes();
     let l2b = line2.as_bytes();
     if l1b[0] as char != '1' {
@@ -251,28 +236,44 @@ pub(crate) fn epoch_from_year_doy(year: i32, day_of_year: f64) -> Result<Time<UT
     Time::<UTC>::try_from_chrono(dt).map_err(|e| TleError::EpochConversion(format!("{e:?}")))
 }
 
+/// A TLE line is 69 ASCII columns, so that fields can be cut by byte offset.
+fn check_length(line: &str, line_no: u8) -> Result<(), TleError> {
+    if line.len() == 69 && line.is_ascii() {
+        return Ok(());
+    }
+    let got = if line.len() == 69 {
+        line.chars().count()
+    } else {
+        line.len()
+    };
+    Err(TleError::BadLength { line: line_no, got })
+}
+
 fn parse_int_field(raw: &str, field: &'static str) -> Result<i64, TleError> {
     let s = raw.trim();
-    s.parse::<i64>().map_err(|_| TleError::InvalidNumber {
+    let invalid = || TleError::InvalidNumber {
         field,
         raw: raw.into(),
-    })
+    };
+    // The integer columns are unsigned.
+    if !s.bytes().all(|b| b.is_ascii_digit()) {
+        return Err(invalid());
+    }
+    s.parse::<i64>().map_err(|_| invalid())
 }
 
 fn parse_float_field(raw: &str, field: &'static str) -> Result<f64, TleError> {
-    let s = raw.trim();
-    s.parse::<f64>().map_err(|_| TleError::InvalidNumber {
-        field,
-        raw: raw.into(),
-    })
+    match raw.trim().parse::<f64>() {
+        Ok(v) if v.is_finite() => Ok(v),
+        _ => Err(TleError::InvalidNumber {
+            field,
+            raw: raw.into(),
+        }),
+    }
 }
 
 fn parse_signed_decimal(raw: &str, field: &'static str) -> Result<f64, TleError> {
-    let s = raw.trim();
-    s.parse::<f64>().map_err(|_| TleError::InvalidNumber {
-        field,
-        raw: raw.into(),
-    })
+    parse_float_field(raw, field)
 }
 
 /// Parse the TLE assumed-decimal-with-exponent encoding (e.g. `" 12345-3"` →
-- 
2.43.0


From ba84b09f2d0c1fb3783a63369c6fe3746be309ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:12 +0000
Subject: [PATCH 28/78] fix: format_tle keeps 69 columns and rounds epochs over
 midnight

---
 src/formats/tle/builder.rs | 148 +++++++++++++++++++++++++++++--------
 1 file changed, 116 insertions(+), 32 deletions(-)

diff --git a/src/formats/tle/builder.rs b/src/formats/tle/builder.rs
index b9da383..53795f2 100644
--- a/src/formats/tle/builder.rs
+++ b/src/formats/tle/builder.rs
@@ -377,24 +377,31 @@ impl TleBuilder {
 pub fn format_tle(tle: &TLE) -> Result<(String, String), TleError> {
     let cat = tle.norad_id.format_alpha5()?;
     let cls = tle.classification.as_char();
-    let intl = format!("{:<8}", tle.international_designator.0);
-    let dt = tle
-        .epoch
-        .try_to_chrono()
-        .map_err(|e| TleError::EpochConversion(format!("{e:?}")))?;
-    let year = dt.year();
-    let yy = ((year % 100) + 100) % 100;
-    let doy = dt.ordinal();
-    let secs_of_day =
-        dt.num_seconds_from_midnight() as f64 + dt.timestamp_subsec_nanos() as f64 * 1e-9;
-    let frac_day = secs_of_day / 86_400.0;
-    let day_full = doy as f64 + frac_day;
-    let n_dot = format_signed_decimal(tle.mean_motion_dot);
-    let n_ddot = format_assumed_decimal_exponent(tle.mean_motion_ddot);
-    let bstar_s = format_assumed_decimal_exponent(tle.bstar);
-    let elset = format!("{:>4}", tle.element_set_number);
-    let mut l1 =
-        format!("1 {cat}{cls} {intl} {yy:02}{day_full:012.8} {n_dot} {n_ddot} {bstar_s} 0 {elset}");
+    let intl = column(
+        "international_designator",
+        format!("{:<8}", tle.international_designator.0),
+        8,
+    )?;
+    let epoch = format_epoch(tle)?;
+    let n_dot = number(
+        "mean_motion_dot",
+        tle.mean_motion_dot,
+        10,
+        format_signed_decimal,
+    )?;
+    let n_ddot = number(
+        "mean_motion_ddot",
+        tle.mean_motion_ddot,
+        8,
+        format_assumed_decimal_exponent,
+    )?;
+    let bstar_s = number("bstar", tle.bstar, 8, format_assumed_decimal_exponent)?;
+    let elset = column(
+        "element_set_number",
+        format!("{:>4}", tle.element_set_number),
+        4,
+    )?;
+    let mut l1 = format!("1 {cat}{cls} {intl} {epoch} {n_dot} {n_ddot} {bstar_s} 0 {elset}");
     debug_assert_eq!(
         l1.len(),
         68,
@@ -403,14 +410,34 @@ pub fn format_tle(tle: &TLE) -> Result<(String, String), TleError> {
     let cs1 = compute_tle_checksum(&l1);
     l1.push_str(&cs1.to_string());
 
-    let inc = format!("{:8.4}", tle.inclination.value());
-    let raan = format!("{:8.4}", tle.raan.value());
-    let ecc_scaled = (tle.eccentricity * 1.0e7).round() as u64;
-    let ecc = format!("{ecc_scaled:07}");
-    let argp = format!("{:8.4}", tle.argument_of_perigee.value());
-    let m_ano = format!("{:8.4}", tle.mean_anomaly.value());
-    let n_str = format!("{:11.8}", tle.mean_motion.value());
-    let rev = format!("{:>5}", tle.revolution_number_at_epoch);
+    let degrees = |v: f64| format!("{v:8.4}");
+    let inc = number("inclination", tle.inclination.value(), 8, degrees)?;
+    let raan = number("raan", tle.raan.value(), 8, degrees)?;
+    let ecc = if (0.0..1.0).contains(&tle.eccentricity) {
+        number("eccentricity", tle.eccentricity, 7, |e| {
+            format!("{:07}", (e * 1.0e7).round() as u64)
+        })?
+    } else {
+        return Err(TleError::InvalidNumber {
+            field: "eccentricity",
+            raw: tle.eccentricity.to_string(),
+        });
+    };
+    let argp = number(
+        "argument_of_perigee",
+        tle.argument_of_perigee.value(),
+        8,
+        degrees,
+    )?;
+    let m_ano = number("mean_anomaly", tle.mean_anomaly.value(), 8, degrees)?;
+    let n_str = number("mean_motion", tle.mean_motion.value(), 11, |n| {
+        format!("{n:11.8}")
+    })?;
+    let rev = column(
+        "revolution_number",
+        format!("{:>5}", tle.revolution_number_at_epoch),
+        5,
+    )?;
     let mut l2 = format!("2 {cat} {inc} {raan} {ecc} {argp} {m_ano} {n_str}{rev}");
     debug_assert_eq!(
         l2.len(),
@@ -422,6 +449,60 @@ pub fn format_tle(tle: &TLE) -> Result<(String, String), TleError> {
     Ok((l1, l2))
 }
 
+/// Accept a rendered field only if it fills its columns exactly.
+fn column(field: &'static str, text: String, width: usize) -> Result<String, TleError> {
+    if text.len() == width && text.is_ascii() {
+        Ok(text)
+    } else {
+        Err(TleError::InvalidNumber { field, raw: text })
+    }
+}
+
+/// Render a finite number into its columns.
+fn number(
+    field: &'static str,
+    v: f64,
+    width: usize,
+    render: impl Fn(f64) -> String,
+) -> Result<String, TleError> {
+    if !v.is_finite() {
+        return Err(TleError::InvalidNumber {
+            field,
+            raw: v.to_string(),
+        });
+    }
+    column(field, render(v), width)
+}
+
+/// Render the epoch columns, rounded to the 1e-8 day a TLE carries.
+fn format_epoch(tle: &TLE) -> Result<String, TleError> {
+    const NANOS_PER_STEP: u64 = 864_000;
+    const STEPS_PER_DAY: u64 = 100_000_000;
+    let dt = tle
+        .epoch
+        .try_to_chrono()
+        .map_err(|e| TleError::EpochConversion(format!("{e:?}")))?;
+    let nanos = u64::from(dt.num_seconds_from_midnight()) * 1_000_000_000
+        + u64::from(dt.timestamp_subsec_nanos());
+    let mut date = dt.date_naive();
+    // A TLE cannot label a leap second: it counts as the midnight that ends it.
+    let mut steps = ((nanos + NANOS_PER_STEP / 2) / NANOS_PER_STEP).min(STEPS_PER_DAY);
+    // Rounding may carry into the next day, or year.
+    if steps == STEPS_PER_DAY {
+        steps = 0;
+        date = date.succ_opt().unwrap_or(date);
+    }
+    let (year, doy) = (date.year(), date.ordinal());
+    if !(1957..=2056).contains(&year) {
+        return Err(TleError::InvalidEpoch {
+            year,
+            day_of_year: f64::from(doy),
+            reason: "two-digit years cover 1957-2056",
+        });
+    }
+    Ok(format!("{:02}{doy:03}.{steps:08}", year % 100))
+}
+
 fn format_signed_decimal(v: f64) -> String {
     let sign = if v.is_sign_negative() { '-' } else { ' ' };
     let mag = v.abs();
@@ -435,14 +516,17 @@ fn format_assumed_decimal_exponent(v: f64) -> String {
     }
     let sign = if v.is_sign_negative() { '-' } else { ' ' };
     let mag = v.abs();
-    let mut exp = mag.log10().floor() as i32 + 1;
-    let mut mantissa = mag / 10f64.powi(exp);
-    let scaled = (mantissa * 1.0e5).round() as u64;
-    if scaled >= 1_000_000 {
-        mantissa /= 10.0;
+    let mantissa = |exp: i32| (mag / 10f64.powi(exp) * 1.0e5).round() as u64;
+    // The exponent has one digit: smaller values give up leading mantissa digits.
+    let mut exp = (mag.log10().floor() as i32 + 1).max(-9);
+    let mut scaled = mantissa(exp);
+    if scaled >= 100_000 {
         exp += 1;
+        scaled = mantissa(exp);
+    }
+    if scaled == 0 {
+        return " 00000-0".to_string();
     }
-    let scaled = (mantissa * 1.0e5).round() as u64;
     let exp_sign = if exp < 0 { '-' } else { '+' };
     let exp_abs = exp.unsigned_abs();
     if exp_sign == '+' {
-- 
2.43.0


From 0c1d67177113dbf9e69b2899e42cb2439341f3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:12 +0000
Subject: [PATCH 29/78] fix: OMM reader refuses malformed optional fields and
 foreign time zones

---
 src/formats/tle/omm/kvn.rs | 33 +++++++++------------------------
 src/formats/tle/omm/mod.rs | 38 +++++++++++++++++++++++++++++++++++---
 src/formats/tle/omm/xml.rs | 27 +++++++++------------------
 3 files changed, 53 insertions(+), 45 deletions(-)

diff --git a/src/formats/tle/omm/kvn.rs b/src/formats/tle/omm/kvn.rs
index 98d400c..a1b3e5a 100644
--- a/src/formats/tle/omm/kvn.rs
+++ b/src/formats/tle/omm/kvn.rs
@@ -8,9 +8,9 @@ use qtty::angular::Turn;
 use qtty::angular_rate::AngularRate;
 use qtty::time::Day;
 
-use super::{format_epoch, parse_epoch, Omm};
+use super::{format_epoch, optional, parse_epoch, parse_norad_id, Omm};
+use crate::formats::tle::Classification;
 use crate::formats::tle::TleError;
-use crate::formats::tle::{Classification, SatelliteNumber};
 
 /// Render an [`Omm`] to its KVN form.
 ///
@@ -129,14 +129,6 @@ pub fn read(input: &str) -> Result<Omm, TleError> {
             reason: format!("{k}={v:?} is not a float"),
         })
     };
-    let getu = |k: &'static str| -> Result<u32, TleError> {
-        let v = get(k)?;
-        v.parse::<u32>().map_err(|_| TleError::OmmMalformed {
-            format: "KVN",
-            reason: format!("{k}={v:?} is not an unsigned integer"),
-        })
-    };
-
     let object_name = get("OBJECT_NAME")?.clone();
     let object_id = get("OBJECT_ID")?.clone();
     let epoch = parse_epoch(get("EPOCH")?)?;
@@ -147,8 +139,7 @@ pub fn read(input: &str) -> Result<Omm, TleError> {
     let cls_char = cls_raw.chars().next().unwrap_or('U');
     let classification = Classification::from_char(cls_char)?;
 
-    let norad_str = get("NORAD_CAT_ID")?;
-    let norad_id = SatelliteNumber::parse(norad_str)?;
+    let norad_id = parse_norad_id(get("NORAD_CAT_ID")?)?;
 
     Ok(Omm {
         object_name,
@@ -160,19 +151,13 @@ pub fn read(input: &str) -> Result<Omm, TleError> {
         ra_of_asc_node: Degrees::new(getf("RA_OF_ASC_NODE")?),
         arg_of_pericenter: Degrees::new(getf("ARG_OF_PERICENTER")?),
         mean_anomaly: Degrees::new(getf("MEAN_ANOMALY")?),
-        ephemeris_type: kv
-            .get("EPHEMERIS_TYPE")
-            .and_then(|v| v.parse().ok())
-            .unwrap_or(0),
+        ephemeris_type: optional(kv.get("EPHEMERIS_TYPE"), "KVN", "EPHEMERIS_TYPE")?,
         classification,
         norad_id,
-        element_set_no: kv
-            .get("ELEMENT_SET_NO")
-            .and_then(|v| v.parse().ok())
-            .unwrap_or(0),
-        rev_at_epoch: getu("REV_AT_EPOCH").unwrap_or(0),
-        bstar: getf("BSTAR").unwrap_or(0.0),
-        mean_motion_dot: getf("MEAN_MOTION_DOT").unwrap_or(0.0),
-        mean_motion_ddot: getf("MEAN_MOTION_DDOT").unwrap_or(0.0),
+        element_set_no: optional(kv.get("ELEMENT_SET_NO"), "KVN", "ELEMENT_SET_NO")?,
+        rev_at_epoch: optional(kv.get("REV_AT_EPOCH"), "KVN", "REV_AT_EPOCH")?,
+        bstar: optional(kv.get("BSTAR"), "KVN", "BSTAR")?,
+        mean_motion_dot: optional(kv.get("MEAN_MOTION_DOT"), "KVN", "MEAN_MOTION_DOT")?,
+        mean_motion_ddot: optional(kv.get("MEAN_MOTION_DDOT"), "KVN", "MEAN_MOTION_DDOT")?,
     })
 }
diff --git a/src/formats/tle/omm/mod.rs b/src/formats/tle/omm/mod.rs
index 4cdd4a5..76aa405 100644
--- a/src/formats/tle/omm/mod.rs
+++ b/src/formats/tle/omm/mod.rs
@@ -212,12 +212,41 @@ pub(crate) fn contract_intl_designator(s: &str) -> String {
     s.to_string()
 }
 
+/// Decode `NORAD_CAT_ID`: a plain integer of up to nine digits, or the
+/// five-character Alpha-5 form.
+pub(crate) fn parse_norad_id(raw: &str) -> Result<SatelliteNumber, TleError> {
+    let s = raw.trim();
+    if (6..=9).contains(&s.len()) && s.bytes().all(|b| b.is_ascii_digit()) {
+        if let Ok(n) = s.parse() {
+            return Ok(SatelliteNumber(n));
+        }
+    }
+    SatelliteNumber::parse(s)
+}
+
+/// Read an optional numeric field: absent means the default, malformed is an error.
+pub(crate) fn optional<T: std::str::FromStr + Default>(
+    value: Option<&String>,
+    format: &'static str,
+    key: &'static str,
+) -> Result<T, TleError> {
+    match value {
+        None => Ok(T::default()),
+        Some(v) => v.parse().map_err(|_| TleError::OmmMalformed {
+            format,
+            reason: format!("{key}={v:?} is not a valid number"),
+        }),
+    }
+}
+
 /// Format a [`Time<UTC>`] as the ISO-8601 fractional-second OMM epoch.
 pub(crate) fn format_epoch(t: Time<UTC>) -> Result<String, TleError> {
     let dt = t
         .try_to_chrono()
         .map_err(|e| TleError::EpochConversion(format!("{e:?}")))?;
+    // `chrono` labels a leap second by letting the sub-second part exceed one second.
     let micros = dt.timestamp_subsec_micros();
+    let (leap, micros) = (micros / 1_000_000, micros % 1_000_000);
     Ok(format!(
         "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}.{:06}",
         dt.year(),
@@ -225,7 +254,7 @@ pub(crate) fn format_epoch(t: Time<UTC>) -> Result<String, TleError> {
         dt.day(),
         dt.hour(),
         dt.minute(),
-        dt.second(),
+        dt.second() + leap,
         micros
     ))
 }
@@ -234,8 +263,11 @@ pub(crate) fn format_epoch(t: Time<UTC>) -> Result<String, TleError> {
 /// optional `Z`/`+00:00` zone) into a UTC [`Time`].
 pub(crate) fn parse_epoch(raw: &str) -> Result<Time<UTC>, TleError> {
     let s = raw.trim();
-    let trimmed = s.trim_end_matches('Z');
-    let trimmed = trimmed.split('+').next().unwrap_or(trimmed);
+    // Only a zero offset is UTC; any other zone stays attached and is refused below.
+    let trimmed = s
+        .strip_suffix('Z')
+        .or_else(|| s.strip_suffix("+00:00"))
+        .unwrap_or(s);
     let dt = chrono::NaiveDateTime::parse_from_str(trimmed, "%Y-%m-%dT%H:%M:%S%.f")
         .or_else(|_| chrono::NaiveDateTime::parse_from_str(trimmed, "%Y-%m-%dT%H:%M:%S"))
         .map_err(|e| TleError::OmmInvalidEpoch {
diff --git a/src/formats/tle/omm/xml.rs b/src/formats/tle/omm/xml.rs
index 3599211..1dd9b3a 100644
--- a/src/formats/tle/omm/xml.rs
+++ b/src/formats/tle/omm/xml.rs
@@ -13,9 +13,9 @@ use qtty::angular::Turn;
 use qtty::angular_rate::AngularRate;
 use qtty::time::Day;
 
-use super::{format_epoch, parse_epoch, Omm};
+use super::{format_epoch, optional, parse_epoch, parse_norad_id, Omm};
+use crate::formats::tle::Classification;
 use crate::formats::tle::TleError;
-use crate::formats::tle::{Classification, SatelliteNumber};
 
 /// Render an [`Omm`] to its XML form (`<omm>...</omm>`).
 ///
@@ -134,7 +134,7 @@ pub fn read(input: &str) -> Result<Omm, TleError> {
         .unwrap_or("U");
     let cls_char = cls_raw.chars().next().unwrap_or('U');
     let classification = Classification::from_char(cls_char)?;
-    let norad_id = SatelliteNumber::parse(get("NORAD_CAT_ID")?)?;
+    let norad_id = parse_norad_id(get("NORAD_CAT_ID")?)?;
 
     Ok(Omm {
         object_name,
@@ -146,23 +146,14 @@ pub fn read(input: &str) -> Result<Omm, TleError> {
         ra_of_asc_node: Degrees::new(getf("RA_OF_ASC_NODE")?),
         arg_of_pericenter: Degrees::new(getf("ARG_OF_PERICENTER")?),
         mean_anomaly: Degrees::new(getf("MEAN_ANOMALY")?),
-        ephemeris_type: kv
-            .get("EPHEMERIS_TYPE")
-            .and_then(|v| v.parse().ok())
-            .unwrap_or(0),
+        ephemeris_type: optional(kv.get("EPHEMERIS_TYPE"), "XML", "EPHEMERIS_TYPE")?,
         classification,
         norad_id,
-        element_set_no: kv
-            .get("ELEMENT_SET_NO")
-            .and_then(|v| v.parse().ok())
-            .unwrap_or(0),
-        rev_at_epoch: kv
-            .get("REV_AT_EPOCH")
-            .and_then(|v| v.parse().ok())
-            .unwrap_or(0),
-        bstar: getf("BSTAR").unwrap_or(0.0),
-        mean_motion_dot: getf("MEAN_MOTION_DOT").unwrap_or(0.0),
-        mean_motion_ddot: getf("MEAN_MOTION_DDOT").unwrap_or(0.0),
+        element_set_no: optional(kv.get("ELEMENT_SET_NO"), "XML", "ELEMENT_SET_NO")?,
+        rev_at_epoch: optional(kv.get("REV_AT_EPOCH"), "XML", "REV_AT_EPOCH")?,
+        bstar: optional(kv.get("BSTAR"), "XML", "BSTAR")?,
+        mean_motion_dot: optional(kv.get("MEAN_MOTION_DOT"), "XML", "MEAN_MOTION_DOT")?,
+        mean_motion_ddot: optional(kv.get("MEAN_MOTION_DDOT"), "XML", "MEAN_MOTION_DDOT")?,
     })
 }
 
-- 
2.43.0


From 9ce44d9c1d9113ac9cb0de3cb4cff2c998a73fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:07 +0000
Subject: [PATCH 30/78] fix: TLE propagator reads the printed mean-motion
 derivatives as half and sixth

---
 src/astro/sgp4/elements.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/astro/sgp4/elements.rs b/src/astro/sgp4/elements.rs
index 03a3f6a..6bef232 100644
--- a/src/astro/sgp4/elements.rs
+++ b/src/astro/sgp4/elements.rs
@@ -62,8 +62,9 @@ pub(crate) fn tle_to_elements(tle: &TLE) -> Result<NativeElements, Sgp4Error> {
         argument_of_perigee_rad: tle.argument_of_perigee.value().to_radians(),
         mean_anomaly_rad: tle.mean_anomaly.value().to_radians(),
         mean_motion_rev_per_day: tle.mean_motion.value(),
-        mean_motion_dot_rev_per_day2: tle.mean_motion_dot,
-        mean_motion_ddot_rev_per_day3: tle.mean_motion_ddot,
+        // A TLE prints the mean-motion derivatives divided by two and by six.
+        mean_motion_dot_rev_per_day2: 2.0 * tle.mean_motion_dot,
+        mean_motion_ddot_rev_per_day3: 6.0 * tle.mean_motion_ddot,
         bstar: tle.bstar,
     })
 }
-- 
2.43.0


From f302b4ee533eccff53be25ed6d93a0ac717895b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:30 +0000
Subject: [PATCH 31/78] fix: OEM parser keeps every state and refuses damaged
 blocks and stamps

---
 src/formats/ccsds/oem.rs | 206 ++++++++++++++++++++++++++-------------
 1 file changed, 139 insertions(+), 67 deletions(-)

diff --git a/src/formats/ccsds/oem.rs b/src/formats/ccsds/oem.rs
index d5aa861..28dec0b 100644
--- a/src/formats/ccsds/oem.rs
+++ b/src/formats/ccsds/oem.rs
@@ -83,6 +83,7 @@ pub fn write_oem<W: Write>(
             "write_oem: no states to write".to_string(),
         ));
     }
+    check_finite("write_oem", states)?;
     writeln!(w, "CCSDS_OEM_VERS = 3.0")?;
     writeln!(w, "CREATION_DATE  = 2026-01-01T00:00:00")?;
     writeln!(w, "ORIGINATOR     = SIDERUST-POD")?;
@@ -121,13 +122,33 @@ pub fn write_oem<W: Write>(
     Ok(())
 }
 
+/// Refuse states no OEM reader could accept back.
+fn check_finite(who: &str, states: &[OemState]) -> Result<(), FormatError> {
+    for (i, s) in states.iter().enumerate() {
+        let components = s.position_km.iter().chain(&s.velocity_km_s);
+        if !s.epoch_jd.is_finite() || !components.into_iter().all(|v| v.is_finite()) {
+            return Err(FormatError::Format(format!(
+                "{who}: state {i} has a non-finite component"
+            )));
+        }
+    }
+    Ok(())
+}
+
 /// Convert a Julian Date (any time scale) to an ISO-8601-ish string.
 ///
 /// Conversion is "calendar date in proleptic Gregorian, fractional seconds";
 /// no leap-second handling — the caller is responsible for the time system.
 fn jd_to_iso8601(jd: f64) -> String {
-    let jd_int = (jd + 0.5).floor() as i64;
+    // Round to the printed resolution first so that a carry propagates through
+    // minutes, hours and the date instead of printing "60.000000" seconds.
+    let mut jd_int = (jd + 0.5).floor() as i64;
     let frac = jd + 0.5 - jd_int as f64;
+    let mut total_micros = (frac * 86_400.0e6).round() as i64;
+    if total_micros >= 86_400_000_000 {
+        total_micros -= 86_400_000_000;
+        jd_int += 1;
+    }
 
     let a = jd_int + 32_044;
     let b = (4 * a + 3) / 146_097;
@@ -139,14 +160,14 @@ fn jd_to_iso8601(jd: f64) -> String {
     let month = (m + 3 - 12 * (m / 10)) as u32;
     let year = (100 * b + d - 4_800 + (m / 10)) as i32;
 
-    let total_seconds = frac * 86_400.0;
-    let hours = (total_seconds / 3600.0).floor() as u32 % 24;
-    let mins = ((total_seconds % 3600.0) / 60.0).floor() as u32;
-    let secs = total_seconds % 60.0;
+    let hours = total_micros / 3_600_000_000;
+    let mins = total_micros / 60_000_000 % 60;
+    let secs = total_micros / 1_000_000 % 60;
+    let micros = total_micros % 1_000_000;
 
     format!(
-        "{:04}-{:02}-{:02}T{:02}:{:02}:{:09.6}",
-        year, month, day, hours, mins, secs
+        "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}.{:06}",
+        year, month, day, hours, mins, secs, micros
     )
 }
 
@@ -218,7 +239,8 @@ pub fn read_oem<R: std::io::Read>(mut r: R) -> Result<OemFile, FormatError> {
         Header,
         Meta(MetaBuilder),
         Data(OemSegment),
-        SkipBlock,
+        /// Inside a skipped covariance/manoeuvre block of the carried segment.
+        SkipBlock(OemSegment),
     }
 
     #[derive(Default)]
@@ -304,32 +326,34 @@ pub fn read_oem<R: std::io::Read>(mut r: R) -> Result<OemFile, FormatError> {
                     continue;
                 }
                 if line == "COVARIANCE_START" || line == "MAN_START" {
-                    state = State::SkipBlock;
+                    let current = OemSegment {
+                        metadata: seg.metadata.clone(),
+                        states: std::mem::take(&mut seg.states),
+                    };
+                    state = State::SkipBlock(current);
                     continue;
                 }
                 seg.states.push(parse_data_line(line, lineno)?);
             }
-            State::SkipBlock => {
+            State::SkipBlock(seg) => {
                 if line == "COVARIANCE_STOP" || line == "MAN_STOP" {
-                    // Re-enter the most recent Data segment.
-                    if let Some(last) = segments.last_mut() {
-                        let resumed = std::mem::replace(
-                            last,
-                            OemSegment {
-                                metadata: last.metadata.clone(),
-                                states: Vec::new(),
-                            },
-                        );
-                        state = State::Data(resumed);
-                    } else {
-                        state = State::Header;
-                    }
+                    let current = OemSegment {
+                        metadata: seg.metadata.clone(),
+                        states: std::mem::take(&mut seg.states),
+                    };
+                    state = State::Data(current);
                 }
             }
         }
     }
-    if let State::Data(seg) = state {
-        segments.push(seg);
+    match state {
+        State::Header => {}
+        State::Data(seg) => segments.push(seg),
+        State::Meta(_) | State::SkipBlock(_) => {
+            return Err(FormatError::Format(
+                "read_oem: file ends inside an unterminated block".into(),
+            ));
+        }
     }
     if segments.is_empty() {
         return Err(FormatError::Format(
@@ -406,6 +430,22 @@ fn iso8601_to_jd(s: &str) -> Option<f64> {
     let hour: u32 = time_parts.next()?.parse().ok()?;
     let minute: u32 = time_parts.next()?.parse().ok()?;
     let second: f64 = time_parts.next()?.parse().ok()?;
+    if date_parts.next().is_some() || time_parts.next().is_some() {
+        return None;
+    }
+    let leap_year = year % 4 == 0 && (year % 100 != 0 || year % 400 == 0);
+    let month_len = match month {
+        1 | 3 | 5 | 7 | 8 | 10 | 12 => 31,
+        4 | 6 | 9 | 11 => 30,
+        2 if leap_year => 29,
+        2 => 28,
+        _ => return None,
+    };
+    // Second 60 is a leap second in UTC files.
+    if !(1..=month_len).contains(&day) || hour > 23 || minute > 59 || !(0.0..61.0).contains(&second)
+    {
+        return None;
+    }
 
     // Proleptic Gregorian calendar → JDN at 0h UT.
     let m = month as i64;
@@ -457,6 +497,7 @@ pub fn write_oem_xml<W: std::io::Write>(
             "write_oem_xml: no states to write".into(),
         ));
     }
+    check_finite("write_oem_xml", states)?;
     let start = jd_to_iso8601(states[0].epoch_jd);
     let stop = jd_to_iso8601(states.last().unwrap().epoch_jd);
     writeln!(w, "<?xml version=\"1.0\" encoding=\"UTF-8\"?>")?;
@@ -566,7 +607,7 @@ fn xml_escape(s: &str) -> String {
 /// assert_eq!(parsed.segments[0].states.len(), 1);
 /// ```
 pub fn read_oem_xml<R: std::io::Read>(mut r: R) -> Result<OemFile, FormatError> {
-    use quick_xml::escape::unescape;
+    use quick_xml::escape::resolve_xml_entity;
     use quick_xml::events::Event;
     use quick_xml::Reader;
 
@@ -574,7 +615,6 @@ pub fn read_oem_xml<R: std::io::Read>(mut r: R) -> Result<OemFile, FormatError>
     r.read_to_string(&mut text)
         .map_err(|e| FormatError::Format(format!("read_oem_xml: io: {e}")))?;
     let mut rdr = Reader::from_str(&text);
-    rdr.config_mut().trim_text(true);
 
     #[derive(Default)]
     struct StateBuilder {
@@ -597,12 +637,22 @@ pub fn read_oem_xml<R: std::io::Read>(mut r: R) -> Result<OemFile, FormatError>
         cur: Option<StateBuilder>,
     }
 
+    let number = |tag: &str, txt: &str| -> Result<f64, FormatError> {
+        txt.parse::<f64>()
+            .ok()
+            .filter(|v| v.is_finite())
+            .ok_or_else(|| FormatError::Format(format!("read_oem_xml: bad {tag} value {txt:?}")))
+    };
+
     let mut version = "3.0".to_string();
     let mut creation_date = String::new();
     let mut originator = String::new();
     let mut segments: Vec<OemSegment> = Vec::new();
     let mut seg: Option<SegBuilder> = None;
-    let mut cur_tag: Option<String> = None;
+    // Text of the innermost open element; entity references arrive as events
+    // of their own, so the value is complete only at the end tag.
+    let mut cur_text = String::new();
+    let mut depth = 0usize;
     let mut buf = Vec::new();
 
     loop {
@@ -610,6 +660,11 @@ pub fn read_oem_xml<R: std::io::Read>(mut r: R) -> Result<OemFile, FormatError>
             .read_event_into(&mut buf)
             .map_err(|e| FormatError::Format(format!("read_oem_xml: xml: {e}")))?
         {
+            Event::Eof if depth > 0 => {
+                return Err(FormatError::Format(
+                    "read_oem_xml: document ends inside an open element".into(),
+                ));
+            }
             Event::Eof => break,
             Event::Start(e) => {
                 let name = String::from_utf8_lossy(e.name().as_ref()).to_string();
@@ -630,11 +685,49 @@ pub fn read_oem_xml<R: std::io::Read>(mut r: R) -> Result<OemFile, FormatError>
                     }
                     _ => {}
                 }
-                cur_tag = Some(local);
+                cur_text.clear();
+                depth += 1;
             }
             Event::End(e) => {
                 let name = String::from_utf8_lossy(e.name().as_ref()).to_string();
                 let local = name.rsplit(':').next().unwrap_or(&name).to_string();
+                let tag = local.as_str();
+                let txt = std::mem::take(&mut cur_text).trim().to_string();
+                if let Some(s) = seg.as_mut() {
+                    if let Some(b) = s.cur.as_mut() {
+                        match tag {
+                            "EPOCH" => {
+                                b.epoch = Some(iso8601_to_jd(&txt).ok_or_else(|| {
+                                    FormatError::Format(format!(
+                                        "read_oem_xml: cannot parse epoch {txt}"
+                                    ))
+                                })?)
+                            }
+                            "X" => b.x = Some(number(tag, &txt)?),
+                            "Y" => b.y = Some(number(tag, &txt)?),
+                            "Z" => b.z = Some(number(tag, &txt)?),
+                            "X_DOT" => b.vx = Some(number(tag, &txt)?),
+                            "Y_DOT" => b.vy = Some(number(tag, &txt)?),
+                            "Z_DOT" => b.vz = Some(number(tag, &txt)?),
+                            _ => {}
+                        }
+                    } else {
+                        match tag {
+                            "OBJECT_ID" => s.object_id = Some(txt),
+                            "OBJECT_NAME" => s.object_name = Some(txt),
+                            "REF_FRAME" => s.ref_frame = Some(txt),
+                            "TIME_SYSTEM" => s.time_system = Some(txt),
+                            "CENTER_NAME" => s.center_name = Some(txt),
+                            _ => {}
+                        }
+                    }
+                } else {
+                    match tag {
+                        "CREATION_DATE" => creation_date = txt,
+                        "ORIGINATOR" => originator = txt,
+                        _ => {}
+                    }
+                }
                 match local.as_str() {
                     "stateVector" => {
                         if let Some(s) = seg.as_mut() {
@@ -684,46 +777,25 @@ pub fn read_oem_xml<R: std::io::Read>(mut r: R) -> Result<OemFile, FormatError>
                     }
                     _ => {}
                 }
-                cur_tag = None;
+                depth = depth.saturating_sub(1);
             }
-            Event::Text(t) => {
-                let txt =
-                    unescape(&t.xml10_content().map_err(|e| {
-                        FormatError::Format(format!("read_oem_xml: xml text: {e}"))
-                    })?)
-                    .map_err(|e| FormatError::Format(format!("read_oem_xml: xml text: {e}")))?
-                    .to_string();
-                let tag = match &cur_tag {
-                    Some(t) => t.as_str(),
-                    None => continue,
+            Event::Text(t) => cur_text.push_str(
+                &t.xml10_content()
+                    .map_err(|e| FormatError::Format(format!("read_oem_xml: xml text: {e}")))?,
+            ),
+            Event::CData(t) => cur_text.push_str(
+                &t.xml10_content()
+                    .map_err(|e| FormatError::Format(format!("read_oem_xml: xml text: {e}")))?,
+            ),
+            Event::GeneralRef(r) => {
+                let bad = |e: &dyn std::fmt::Display| {
+                    FormatError::Format(format!("read_oem_xml: xml entity: {e}"))
                 };
-                if let Some(s) = seg.as_mut() {
-                    if let Some(b) = s.cur.as_mut() {
-                        match tag {
-                            "EPOCH" => b.epoch = iso8601_to_jd(&txt),
-                            "X" => b.x = txt.parse().ok(),
-                            "Y" => b.y = txt.parse().ok(),
-                            "Z" => b.z = txt.parse().ok(),
-                            "X_DOT" => b.vx = txt.parse().ok(),
-                            "Y_DOT" => b.vy = txt.parse().ok(),
-                            "Z_DOT" => b.vz = txt.parse().ok(),
-                            _ => {}
-                        }
-                    } else {
-                        match tag {
-                            "OBJECT_ID" => s.object_id = Some(txt),
-                            "OBJECT_NAME" => s.object_name = Some(txt),
-                            "REF_FRAME" => s.ref_frame = Some(txt),
-                            "TIME_SYSTEM" => s.time_system = Some(txt),
-                            "CENTER_NAME" => s.center_name = Some(txt),
-                            _ => {}
-                        }
-                    }
-                } else {
-                    match tag {
-                        "CREATION_DATE" => creation_date = txt,
-                        "ORIGINATOR" => originator = txt,
-                        _ => {}
+                match r.resolve_char_ref().map_err(|e| bad(&e))? {
+                    Some(c) => cur_text.push(c),
+                    None => {
+                        let name = r.decode().map_err(|e| bad(&e))?;
+                        cur_text.push_str(resolve_xml_entity(&name).ok_or_else(|| bad(&name))?);
                     }
                 }
             }
-- 
2.43.0


From c3dda4d91dd861f4cfeb03603a5b00c1ae4fa554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:30 +0000
Subject: [PATCH 32/78] fix: OPM parser reads exact values and requires the
 mandatory metadata

---
 src/formats/ccsds/opm.rs | 64 ++++++++++++++++++----------------------
 1 file changed, 29 insertions(+), 35 deletions(-)

diff --git a/src/formats/ccsds/opm.rs b/src/formats/ccsds/opm.rs
index 48b7912..ef946ba 100644
--- a/src/formats/ccsds/opm.rs
+++ b/src/formats/ccsds/opm.rs
@@ -202,16 +202,19 @@ pub fn read_opm<R: Read>(reader: R) -> Result<OpmMessage, FormatError> {
         let v = kv
             .get(k)
             .ok_or_else(|| FormatError::Format(format!("OPM: missing field {k}")))?;
-        v.parse::<f64>()
-            .map_err(|_| FormatError::Format(format!("OPM: cannot parse {k}={v:?}")))
+        strip_unit(v)
+            .parse::<f64>()
+            .ok()
+            .filter(|x| x.is_finite())
+            .ok_or_else(|| FormatError::Format(format!("OPM: cannot parse {k}={v:?}")))
     };
 
     let metadata = OpmMetadata {
         object_name: get("OBJECT_NAME")?,
-        object_id: get("OBJECT_ID").unwrap_or_default(),
-        center_name: get("CENTER_NAME").unwrap_or_else(|_| "EARTH".to_string()),
-        ref_frame: get("REF_FRAME").unwrap_or_else(|_| "EME2000".to_string()),
-        time_system: get("TIME_SYSTEM").unwrap_or_else(|_| "UTC".to_string()),
+        object_id: get("OBJECT_ID")?,
+        center_name: get("CENTER_NAME")?,
+        ref_frame: get("REF_FRAME")?,
+        time_system: get("TIME_SYSTEM")?,
     };
 
     let epoch = get("EPOCH")?;
@@ -241,6 +244,14 @@ pub fn read_opm<R: Read>(reader: R) -> Result<OpmMessage, FormatError> {
     })
 }
 
+/// Drop the optional bracketed unit after a KVN value (`7000.0 [km]`).
+fn strip_unit(v: &str) -> &str {
+    match v.split_once('[') {
+        Some((number, unit)) if unit.ends_with(']') => number.trim_end(),
+        _ => v,
+    }
+}
+
 /// Write a CCSDS OPM message in KVN format.
 ///
 /// Emits the header, `META_START`/`META_STOP` block, and state vector keywords.
@@ -285,41 +296,24 @@ pub fn write_opm<W: Write>(w: &mut W, msg: &OpmMessage) -> Result<(), FormatErro
     writeln!(w, "META_STOP").map_err(FormatError::Io)?;
     writeln!(w).map_err(FormatError::Io)?;
     writeln!(w, "EPOCH                = {}", msg.state.epoch).map_err(FormatError::Io)?;
-    writeln!(w, "X                    = {:.6}", msg.state.position_km[0])
+    writeln!(w, "X                    = {}", msg.state.position_km[0]).map_err(FormatError::Io)?;
+    writeln!(w, "Y                    = {}", msg.state.position_km[1]).map_err(FormatError::Io)?;
+    writeln!(w, "Z                    = {}", msg.state.position_km[2]).map_err(FormatError::Io)?;
+    writeln!(w, "X_DOT                = {}", msg.state.velocity_km_s[0])
         .map_err(FormatError::Io)?;
-    writeln!(w, "Y                    = {:.6}", msg.state.position_km[1])
+    writeln!(w, "Y_DOT                = {}", msg.state.velocity_km_s[1])
         .map_err(FormatError::Io)?;
-    writeln!(w, "Z                    = {:.6}", msg.state.position_km[2])
+    writeln!(w, "Z_DOT                = {}", msg.state.velocity_km_s[2])
         .map_err(FormatError::Io)?;
-    writeln!(
-        w,
-        "X_DOT                = {:.6}",
-        msg.state.velocity_km_s[0]
-    )
-    .map_err(FormatError::Io)?;
-    writeln!(
-        w,
-        "Y_DOT                = {:.6}",
-        msg.state.velocity_km_s[1]
-    )
-    .map_err(FormatError::Io)?;
-    writeln!(
-        w,
-        "Z_DOT                = {:.6}",
-        msg.state.velocity_km_s[2]
-    )
-    .map_err(FormatError::Io)?;
     if let Some(k) = &msg.keplerian {
         writeln!(w).map_err(FormatError::Io)?;
-        writeln!(w, "SEMI_MAJOR_AXIS      = {:.6}", k.semi_major_axis_km)
-            .map_err(FormatError::Io)?;
-        writeln!(w, "ECCENTRICITY         = {:.7}", k.eccentricity).map_err(FormatError::Io)?;
-        writeln!(w, "INCLINATION          = {:.4}", k.inclination_deg).map_err(FormatError::Io)?;
-        writeln!(w, "RA_OF_ASC_NODE       = {:.4}", k.ra_of_asc_node_deg)
-            .map_err(FormatError::Io)?;
-        writeln!(w, "ARG_OF_PERICENTER    = {:.4}", k.arg_of_pericenter_deg)
+        writeln!(w, "SEMI_MAJOR_AXIS      = {}", k.semi_major_axis_km).map_err(FormatError::Io)?;
+        writeln!(w, "ECCENTRICITY         = {}", k.eccentricity).map_err(FormatError::Io)?;
+        writeln!(w, "INCLINATION          = {}", k.inclination_deg).map_err(FormatError::Io)?;
+        writeln!(w, "RA_OF_ASC_NODE       = {}", k.ra_of_asc_node_deg).map_err(FormatError::Io)?;
+        writeln!(w, "ARG_OF_PERICENTER    = {}", k.arg_of_pericenter_deg)
             .map_err(FormatError::Io)?;
-        writeln!(w, "TRUE_ANOMALY         = {:.4}", k.true_anomaly_deg).map_err(FormatError::Io)?;
+        writeln!(w, "TRUE_ANOMALY         = {}", k.true_anomaly_deg).map_err(FormatError::Io)?;
     }
     Ok(())
 }
-- 
2.43.0


From 230c577674f5e3600d0a2c8c7408f6810f83ee63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:30 +0000
Subject: [PATCH 33/78] fix: TDM parser refuses malformed observations and
 unterminated segments

---
 src/formats/ccsds/tdm.rs | 41 ++++++++++++++++++++++++++++------------
 1 file changed, 29 insertions(+), 12 deletions(-)

diff --git a/src/formats/ccsds/tdm.rs b/src/formats/ccsds/tdm.rs
index bcc6624..09f3d0d 100644
--- a/src/formats/ccsds/tdm.rs
+++ b/src/formats/ccsds/tdm.rs
@@ -176,17 +176,25 @@ pub fn read_tdm<R: Read>(reader: R) -> Result<TdmMessage, FormatError> {
                     }
                 }
                 State::Data => {
-                    // val format: "epoch : value" — split on last " : " to avoid
-                    // colons in ISO 8601 epoch strings (e.g. "2024-001T12:00:00 : 23000.0")
-                    let sep = " : ";
-                    let colon = val.rfind(sep).ok_or_else(|| {
-                        FormatError::Format(format!("TDM: data line missing ' : ': {key} = {val}"))
-                    })?;
-                    let epoch = val[..colon].trim().to_string();
-                    let value_str = val[colon + sep.len()..].trim();
-                    let value = value_str.parse::<f64>().map_err(|_| {
-                        FormatError::Format(format!("TDM: cannot parse value: {value_str:?}"))
-                    })?;
+                    // val format: "epoch : value" (split on the last " : " to avoid
+                    // colons in ISO 8601 epochs) or the Blue Book's "epoch value".
+                    let (epoch, value_str) = val
+                        .rsplit_once(" : ")
+                        .or_else(|| val.split_once(char::is_whitespace))
+                        .ok_or_else(|| {
+                            FormatError::Format(format!(
+                                "TDM: data line missing ' : ': {key} = {val}"
+                            ))
+                        })?;
+                    let epoch = epoch.trim().to_string();
+                    let value_str = value_str.trim();
+                    let value = value_str
+                        .parse::<f64>()
+                        .ok()
+                        .filter(|v| v.is_finite())
+                        .ok_or_else(|| {
+                            FormatError::Format(format!("TDM: cannot parse value: {value_str:?}"))
+                        })?;
                     let obs_type = keyword_to_obs_type(&key);
                     msg.observations.push(ObservationData {
                         obs_type,
@@ -196,8 +204,17 @@ pub fn read_tdm<R: Read>(reader: R) -> Result<TdmMessage, FormatError> {
                 }
                 State::None => {}
             }
+        } else {
+            return Err(FormatError::Format(format!(
+                "TDM: expected KEY = VALUE: {line:?}"
+            )));
         }
     }
+    if !matches!(state, State::None) {
+        return Err(FormatError::Format(
+            "TDM: file ends inside an unterminated block".to_string(),
+        ));
+    }
 
     Ok(msg)
 }
@@ -214,7 +231,7 @@ fn new_meta() -> TdmMetadata {
 fn keyword_to_obs_type(kw: &str) -> ObservationType {
     match kw {
         "RANGE" => ObservationType::Range,
-        "DOPPLER_INSTANTANEOUS" | "DOPPLER_INTEGRATED" => ObservationType::Doppler,
+        "DOPPLER_INSTANTANEOUS" => ObservationType::Doppler,
         "ANGLE_1" => ObservationType::Angle1,
         "ANGLE_2" => ObservationType::Angle2,
         other => ObservationType::Other(other.to_string()),
-- 
2.43.0


From 402801380656108987fab4e4bb6498e0b9550d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:31 +0000
Subject: [PATCH 34/78] fix: SP3 reads and writes the format's fixed columns
 and refuses impossible epochs

---
 src/formats/igs/sp3.rs | 109 ++++++++++++++---------------------------
 src/formats/mod.rs     |  32 ++++++++++++
 2 files changed, 68 insertions(+), 73 deletions(-)

diff --git a/src/formats/igs/sp3.rs b/src/formats/igs/sp3.rs
index 0755375..1162cf8 100644
--- a/src/formats/igs/sp3.rs
+++ b/src/formats/igs/sp3.rs
@@ -31,7 +31,6 @@
 use affn::cartesian;
 use affn::centers::{AffineCenter, ReferenceCenter};
 use affn::frames::GCRS;
-use chrono::{DateTime, NaiveDate, Utc as ChronoUtc};
 use qtty::time::Microseconds;
 use qtty::unit::Kilometer;
 
@@ -116,18 +115,11 @@ fn civil_to_time_utc(
     second: f64,
     line: usize,
 ) -> Result<Time<UTC>, Sp3Error> {
-    let second_int = second as u32;
-    let nanos = ((second - second_int as f64) * 1e9).round() as u32;
-    let naive = NaiveDate::from_ymd_opt(year, month, day)
-        .and_then(|d| d.and_hms_nano_opt(hour, minute, second_int, nanos))
-        .ok_or_else(|| Sp3Error::Record {
+    crate::formats::civil_to_utc(year, month, day, hour, minute, second).ok_or_else(|| {
+        Sp3Error::Record {
             line,
             message: "invalid epoch date/time".into(),
-        })?;
-    let dt: DateTime<ChronoUtc> = DateTime::from_naive_utc_and_offset(naive, ChronoUtc);
-    Time::<UTC>::try_from_chrono(dt).map_err(|e| Sp3Error::Record {
-        line,
-        message: format!("epoch UTC conversion: {e}"),
+        }
     })
 }
 
@@ -169,61 +161,13 @@ pub fn read_sp3<R: Read>(r: R) -> Result<Sp3Record, Sp3Error> {
             if let Some(e) = current.take() {
                 epochs.push(e);
             }
-            let fields: Vec<&str> = trimmed_eol
-                .strip_prefix('*')
-                .unwrap_or(trimmed_eol.as_str())
-                .split_whitespace()
-                .collect();
-            if fields.len() < 6 {
-                return Err(Sp3Error::Record {
-                    line: line_no,
-                    message: format!("epoch needs 6 fields, got {}", fields.len()),
-                });
-            }
-            current = Some(Sp3Epoch {
-                time: civil_to_time_utc(
-                    parse_field(fields[0], line_no, "year")?,
-                    parse_field(fields[1], line_no, "month")?,
-                    parse_field(fields[2], line_no, "day")?,
-                    parse_field(fields[3], line_no, "hour")?,
-                    parse_field(fields[4], line_no, "minute")?,
-                    parse_field(fields[5], line_no, "second")?,
-                    line_no,
-                )?,
-                positions: Vec::new(),
-            });
+            current = Some(parse_epoch_line(&trimmed_eol, line_no)?);
         } else if trimmed_eol.starts_with('P') {
             let epoch = current.as_mut().ok_or_else(|| Sp3Error::Record {
                 line: line_no,
                 message: "P record before any epoch".into(),
             })?;
-            // Columns are fixed-width in SP3, but split_whitespace is
-            // robust enough for the typical fixtures we ingest.
-            // Format: "PXXX  X.X         Y.Y         Z.Z         CLOCK"
-            let id = trimmed_eol
-                .get(1..4)
-                .ok_or_else(|| Sp3Error::Record {
-                    line: line_no,
-                    message: "P record too short for sat id".into(),
-                })?
-                .trim()
-                .to_string();
-            let rest: Vec<&str> = trimmed_eol[4..].split_whitespace().collect();
-            if rest.len() < 4 {
-                return Err(Sp3Error::Record {
-                    line: line_no,
-                    message: format!("P record needs 4 numeric fields, got {}", rest.len()),
-                });
-            }
-            epoch.positions.push(Sp3Position {
-                sat_id: id,
-                position: Position::<GCRS, Kilometer>::new(
-                    parse_field::<f64>(rest[0], line_no, "x")?,
-                    parse_field::<f64>(rest[1], line_no, "y")?,
-                    parse_field::<f64>(rest[2], line_no, "z")?,
-                ),
-                clock: Microseconds::new(parse_field(rest[3], line_no, "clock")?),
-            });
+            epoch.positions.push(parse_p_line(&trimmed_eol, line_no)?);
         } else if trimmed_eol.starts_with('V')
             || trimmed_eol.starts_with("EP")
             || trimmed_eol.starts_with("EV")
@@ -254,7 +198,7 @@ where
 /// Write an SP3 record. The header lines are emitted verbatim, then each
 /// epoch as `* YYYY MM DD HH MM SS.SS...` followed by `PXXX X Y Z CLK` lines.
 pub fn write_sp3<W: Write>(w: &mut W, rec: &Sp3Record) -> Result<(), Sp3Error> {
-    use chrono::{Datelike, Timelike};
+    use chrono::{Datelike, SubsecRound, Timelike};
     for h in &rec.header {
         writeln!(w, "{h}")?;
     }
@@ -263,6 +207,7 @@ pub fn write_sp3<W: Write>(w: &mut W, rec: &Sp3Record) -> Result<(), Sp3Error> {
             line: 0,
             message: format!("epoch to chrono: {err}"),
         })?;
+        let dt = dt.round_subsecs(8);
         let second = dt.second() as f64 + dt.nanosecond() as f64 / 1e9;
         writeln!(
             w,
@@ -277,7 +222,7 @@ pub fn write_sp3<W: Write>(w: &mut W, rec: &Sp3Record) -> Result<(), Sp3Error> {
         for p in &e.positions {
             writeln!(
                 w,
-                "P{:<3} {:14.6} {:14.6} {:14.6} {:14.6}",
+                "P{:<3}{:14.6}{:14.6}{:14.6}{:14.6}",
                 p.sat_id,
                 p.position.x().value(),
                 p.position.y().value(),
@@ -450,21 +395,39 @@ fn parse_p_line(line: &str, line_no: usize) -> Result<Sp3Position, Sp3Error> {
         })?
         .trim()
         .to_string();
+    // Fields are normally blank-separated; wide values may abut, and are then
+    // taken from their F14.6 columns.
+    let numbers = |fields: &[&str]| -> Result<[f64; 4], Sp3Error> {
+        let mut out = [0.0; 4];
+        for (k, what) in ["x", "y", "z", "clock"].into_iter().enumerate() {
+            out[k] = parse_field::<f64>(fields[k].trim(), line_no, what)?;
+            if !out[k].is_finite() {
+                return Err(Sp3Error::Record {
+                    line: line_no,
+                    message: format!("{what} is not finite"),
+                });
+            }
+        }
+        Ok(out)
+    };
     let rest: Vec<&str> = line[4..].split_whitespace().collect();
-    if rest.len() < 4 {
-        return Err(Sp3Error::Record {
+    let free = if rest.len() < 4 {
+        Err(Sp3Error::Record {
             line: line_no,
             message: format!("P record needs 4 numeric fields, got {}", rest.len()),
-        });
-    }
+        })
+    } else {
+        numbers(&rest)
+    };
+    let columns = [(4, 18), (18, 32), (32, 46), (46, 60)].map(|(a, b)| line.get(a..b));
+    let [x, y, z, clock] = match (free, columns) {
+        (Err(_), [Some(x), Some(y), Some(z), Some(c)]) => numbers(&[x, y, z, c])?,
+        (free, _) => free?,
+    };
     Ok(Sp3Position {
         sat_id: id,
-        position: Position::<GCRS, Kilometer>::new(
-            parse_field::<f64>(rest[0], line_no, "x")?,
-            parse_field::<f64>(rest[1], line_no, "y")?,
-            parse_field::<f64>(rest[2], line_no, "z")?,
-        ),
-        clock: Microseconds::new(parse_field(rest[3], line_no, "clock")?),
+        position: Position::<GCRS, Kilometer>::new(x, y, z),
+        clock: Microseconds::new(clock),
     })
 }
 
diff --git a/src/formats/mod.rs b/src/formats/mod.rs
index 4e4e1b4..13b32ff 100644
--- a/src/formats/mod.rs
+++ b/src/formats/mod.rs
@@ -37,3 +37,35 @@ pub mod tle;
 pub mod vlbi;
 
 pub use error::{FileLocation, FormatError, ParseMode};
+
+/// Civil UTC fields to an instant, or `None` when they name no instant.
+///
+/// Second 60 is accepted as a leap second.
+pub(crate) fn civil_to_utc(
+    year: i32,
+    month: u32,
+    day: u32,
+    hour: u32,
+    minute: u32,
+    second: f64,
+) -> Option<tempoch::Time<tempoch::UTC>> {
+    if !(0.0..61.0).contains(&second) {
+        return None;
+    }
+    let whole = (second as u32).min(59);
+    let nanos = ((second - whole as f64) * 1e9).round() as u32;
+    let naive = chrono::NaiveDate::from_ymd_opt(year, month, day)?
+        .and_hms_nano_opt(hour, minute, 0, 0)?
+        .checked_add_signed(chrono::TimeDelta::seconds(whole as i64))?;
+    let naive = if second < 60.0 {
+        naive.checked_add_signed(chrono::TimeDelta::nanoseconds(nanos as i64))?
+    } else {
+        chrono::NaiveDate::from_ymd_opt(year, month, day)?.and_hms_nano_opt(
+            hour,
+            minute,
+            59,
+            nanos.min(1_999_999_999),
+        )?
+    };
+    tempoch::Time::<tempoch::UTC>::try_from_chrono(naive.and_utc()).ok()
+}
-- 
2.43.0


From 08f16d2de069595e049d19efa0ab76832b04eb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:31 +0000
Subject: [PATCH 35/78] fix: ANTEX refuses malformed phase-centre offsets

---
 src/formats/igs/antex.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/formats/igs/antex.rs b/src/formats/igs/antex.rs
index ca5da97..87a4ee0 100644
--- a/src/formats/igs/antex.rs
+++ b/src/formats/igs/antex.rs
@@ -92,11 +92,14 @@ pub fn read_antex<R: Read>(rdr: R) -> Result<AntexCatalog, FormatError> {
                 if let Some(freq) = &current_freq {
                     let parts: Vec<f64> = body
                         .split_whitespace()
-                        .filter_map(|s| s.parse().ok())
+                        .filter_map(|s| s.parse().ok().filter(|v: &f64| v.is_finite()))
                         .collect();
-                    if parts.len() == 3 {
-                        current_pcos.insert(freq.clone(), Pco::new(parts[0], parts[1], parts[2]));
+                    if parts.len() != 3 || body.split_whitespace().count() != 3 {
+                        return Err(FormatError::Format(format!(
+                            "read_antex: malformed NORTH / EAST / UP record {body:?}"
+                        )));
                     }
+                    current_pcos.insert(freq.clone(), Pco::new(parts[0], parts[1], parts[2]));
                 }
             }
             "END OF FREQUENCY" => {
-- 
2.43.0


From 88e7b2af65888941459ff4da6174b7c881e788f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:32 +0000
Subject: [PATCH 36/78] fix: ORBEX requires valid epochs and finite values

---
 src/formats/igs/orbex.rs | 51 ++++++++++++++++++++++++++++------------
 1 file changed, 36 insertions(+), 15 deletions(-)

diff --git a/src/formats/igs/orbex.rs b/src/formats/igs/orbex.rs
index 911515b..9e16d6d 100644
--- a/src/formats/igs/orbex.rs
+++ b/src/formats/igs/orbex.rs
@@ -140,7 +140,7 @@ pub fn read_orbex<R: Read>(reader: R, mode: ParseMode) -> Result<OrbexProduct, F
     }
 
     let mut section = Section::None;
-    let mut current_epoch_mjd: f64 = 0.0;
+    let mut current_epoch_mjd: Option<f64> = None;
 
     for (lineno, result) in buf.lines().enumerate() {
         let line = result.map_err(FormatError::Io)?;
@@ -168,11 +168,13 @@ pub fn read_orbex<R: Read>(reader: R, mode: ParseMode) -> Result<OrbexProduct, F
         if line.starts_with("##") {
             let rest = line.trim_start_matches('#').trim();
             let parts: Vec<&str> = rest.split_whitespace().collect();
-            if parts.len() >= 3 {
-                let year: i32 = parts[0].parse().unwrap_or(2000);
-                let doy: u32 = parts[1].parse().unwrap_or(1);
-                let sod: f64 = parts[2].parse().unwrap_or(0.0);
-                current_epoch_mjd = orbex_epoch_to_mjd(year, doy, sod);
+            current_epoch_mjd = parse_epoch(&parts);
+            if current_epoch_mjd.is_none() && mode == ParseMode::Strict {
+                return Err(FormatError::located(
+                    "ORBEX §3",
+                    FileLocation::at_line(lineno),
+                    format!("malformed epoch line: {line:?}"),
+                ));
             }
             continue;
         }
@@ -205,6 +207,21 @@ pub fn read_orbex<R: Read>(reader: R, mode: ParseMode) -> Result<OrbexProduct, F
             continue;
         }
 
+        if section == Section::None {
+            continue;
+        }
+        // A record without a (valid) epoch cannot be dated.
+        let Some(current_epoch_mjd) = current_epoch_mjd else {
+            if mode == ParseMode::Strict {
+                return Err(FormatError::located(
+                    "ORBEX §3",
+                    FileLocation::at_line(lineno),
+                    "record before any epoch line",
+                ));
+            }
+            continue;
+        };
+
         match section {
             Section::Orb => {
                 if parts.len() < 4 {
@@ -285,7 +302,8 @@ pub fn read_orbex<R: Read>(reader: R, mode: ParseMode) -> Result<OrbexProduct, F
 }
 
 fn parse_f64(s: &str, lineno: usize, what: &str, mode: ParseMode) -> Result<f64, FormatError> {
-    s.parse::<f64>().map_err(|_| {
+    let value = s.parse::<f64>().ok().filter(|v| v.is_finite());
+    value.ok_or_else(|| {
         if mode == ParseMode::Strict {
             FormatError::located(
                 "ORBEX §3",
@@ -298,14 +316,17 @@ fn parse_f64(s: &str, lineno: usize, what: &str, mode: ParseMode) -> Result<f64,
     })
 }
 
-fn orbex_epoch_to_mjd(year: i32, doy: u32, sod: f64) -> f64 {
-    let epoch = match chrono::NaiveDate::from_yo_opt(year, doy.max(1)) {
-        Some(d) => d,
-        None => return 0.0,
-    };
-    let mjd_ref = chrono::NaiveDate::from_ymd_opt(1858, 11, 17).expect("valid MJD epoch");
-    let days = (epoch - mjd_ref).num_days() as f64;
-    days + sod / 86400.0
+/// Parse the `YYYY DDD SSSSS.s` fields of an epoch line to a Modified Julian Date.
+fn parse_epoch(fields: &[&str]) -> Option<f64> {
+    let year: i32 = fields.first()?.parse().ok()?;
+    let doy: u32 = fields.get(1)?.parse().ok()?;
+    let sod: f64 = fields.get(2)?.parse().ok()?;
+    if !(0.0..86_401.0).contains(&sod) {
+        return None;
+    }
+    let date = chrono::NaiveDate::from_yo_opt(year, doy)?;
+    let mjd_ref = chrono::NaiveDate::from_ymd_opt(1858, 11, 17)?;
+    Some((date - mjd_ref).num_days() as f64 + sod / 86400.0)
 }
 
 #[cfg(test)]
-- 
2.43.0


From fea8733ac48a41f5fce14c4b2738baa4966bcd25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:32 +0000
Subject: [PATCH 37/78] fix: SINEX keeps every station solution in file order

---
 src/formats/igs/sinex.rs | 80 +++++++++++++++++++++++++---------------
 1 file changed, 50 insertions(+), 30 deletions(-)

diff --git a/src/formats/igs/sinex.rs b/src/formats/igs/sinex.rs
index 97c6acb..376e683 100644
--- a/src/formats/igs/sinex.rs
+++ b/src/formats/igs/sinex.rs
@@ -150,10 +150,11 @@ pub fn read_sinex<R: Read>(reader: R, mode: ParseMode) -> Result<SinexSolution,
         xyz: [Option<f64>; 3],
         vel: [Option<f64>; 3],
         ref_epoch_mjd: f64,
-        pt: String,
-        soln: String,
     }
-    let mut estimates: HashMap<String, EstRow> = HashMap::new();
+    // A station may have several points and solutions; keep file order.
+    type Key = (String, String, String);
+    let mut estimates: Vec<(Key, EstRow)> = Vec::new();
+    let mut index: HashMap<Key, usize> = HashMap::new();
 
     #[derive(PartialEq)]
     enum Block {
@@ -225,9 +226,9 @@ pub fn read_sinex<R: Read>(reader: R, mode: ParseMode) -> Result<SinexSolution,
                 let pt = parts[3].to_string();
                 let soln = parts[4].to_string();
                 let epoch_raw = parts[5];
-                let value: f64 = match parts[8].parse() {
-                    Ok(v) => v,
-                    Err(_) => {
+                let value: f64 = match parts[8].parse::<f64>() {
+                    Ok(v) if v.is_finite() => v,
+                    _ => {
                         if mode == ParseMode::Strict {
                             return Err(FormatError::located(
                                 "SINEX 2.10 §4.2",
@@ -239,10 +240,29 @@ pub fn read_sinex<R: Read>(reader: R, mode: ParseMode) -> Result<SinexSolution,
                     }
                 };
 
-                let ref_epoch_mjd = sinex_epoch_to_mjd(epoch_raw);
-                let row = estimates.entry(code.clone()).or_default();
-                row.pt = pt;
-                row.soln = soln;
+                if !matches!(
+                    est_type,
+                    "STAX" | "STAY" | "STAZ" | "VELX" | "VELY" | "VELZ"
+                ) {
+                    continue;
+                }
+                let ref_epoch_mjd = match sinex_epoch_to_mjd(epoch_raw) {
+                    Some(mjd) => mjd,
+                    None if mode == ParseMode::Strict => {
+                        return Err(FormatError::located(
+                            "SINEX 2.10 §4.2",
+                            FileLocation::at_line(lineno),
+                            format!("cannot parse reference epoch: {epoch_raw}"),
+                        ));
+                    }
+                    None => 0.0,
+                };
+                let key = (code, pt, soln);
+                let slot = *index.entry(key.clone()).or_insert_with(|| {
+                    estimates.push((key, EstRow::default()));
+                    estimates.len() - 1
+                });
+                let row = &mut estimates[slot].1;
                 row.ref_epoch_mjd = ref_epoch_mjd;
                 match est_type {
                     "STAX" => row.xyz[0] = Some(value),
@@ -259,7 +279,7 @@ pub fn read_sinex<R: Read>(reader: R, mode: ParseMode) -> Result<SinexSolution,
     }
 
     // Build station records from accumulated estimates.
-    for (code, row) in estimates {
+    for ((code, point_code, solution_id), row) in estimates {
         let (x, y, z) = match (row.xyz[0], row.xyz[1], row.xyz[2]) {
             (Some(x), Some(y), Some(z)) => (x, y, z),
             _ => continue,
@@ -270,8 +290,8 @@ pub fn read_sinex<R: Read>(reader: R, mode: ParseMode) -> Result<SinexSolution,
         };
         solution.stations.push(StationCoordinate {
             code,
-            point_code: row.pt,
-            solution_id: row.soln,
+            point_code,
+            solution_id,
             ref_epoch_mjd: row.ref_epoch_mjd,
             position: SinexPosition::new(x, y, z),
             velocity_m_yr,
@@ -282,28 +302,28 @@ pub fn read_sinex<R: Read>(reader: R, mode: ParseMode) -> Result<SinexSolution,
 }
 
 /// Convert a SINEX epoch string `"YY:DDD:SSSSS"` to MJD.
-fn sinex_epoch_to_mjd(s: &str) -> f64 {
+fn sinex_epoch_to_mjd(s: &str) -> Option<f64> {
     let parts: Vec<&str> = s.split(':').collect();
     if parts.len() != 3 {
-        return 0.0;
+        return None;
     }
-    let yy: i32 = parts[0].parse().unwrap_or(0);
-    let doy: u32 = parts[1].parse().unwrap_or(1);
-    let sod: f64 = parts[2].parse().unwrap_or(0.0);
-    let yyyy = if yy == 0 {
-        2000
-    } else if yy >= 80 {
-        1900 + yy
-    } else {
-        2000 + yy
+    let yy: i32 = parts[0].parse().ok()?;
+    let doy: u32 = parts[1].parse().ok()?;
+    let sod: f64 = parts[2].parse().ok()?;
+    // Two-digit years: 00-50 are 20YY, 51-99 are 19YY (SINEX 2.10 §1).
+    let yyyy = match yy {
+        0..=50 => 2000 + yy,
+        51..=99 => 1900 + yy,
+        _ => return None,
     };
-    let epoch = match chrono::NaiveDate::from_yo_opt(yyyy, doy.max(1)) {
-        Some(d) => d,
-        None => return 0.0,
-    };
-    let mjd_ref = chrono::NaiveDate::from_ymd_opt(1858, 11, 17).expect("valid MJD epoch");
+    if !(0.0..86_401.0).contains(&sod) {
+        return None;
+    }
+    // Day 0 occurs in the "unspecified" epoch 00:000:00000.
+    let epoch = chrono::NaiveDate::from_yo_opt(yyyy, doy.max(1))?;
+    let mjd_ref = chrono::NaiveDate::from_ymd_opt(1858, 11, 17)?;
     let days = (epoch - mjd_ref).num_days() as f64;
-    days + sod / 86400.0
+    Some(days + sod / 86400.0)
 }
 
 #[cfg(test)]
-- 
2.43.0


From e54ad7c828bf2963aa57636f9ae5865e3f1184e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:32 +0000
Subject: [PATCH 38/78] fix: RINEX NAV reads abutting fields and writes
 two-digit exponents

---
 src/formats/rinex/nav.rs | 113 +++++++++++++++++++++++++++------------
 1 file changed, 79 insertions(+), 34 deletions(-)

diff --git a/src/formats/rinex/nav.rs b/src/formats/rinex/nav.rs
index 9411b30..c70ce69 100644
--- a/src/formats/rinex/nav.rs
+++ b/src/formats/rinex/nav.rs
@@ -28,7 +28,7 @@
 //! - IS-GPS-200. (current revision). Navstar GPS Space Segment / Navigation
 //!   User Interfaces.
 use super::{FileLocation, FormatError, ParseMode};
-use chrono::{DateTime, Datelike, NaiveDate, Timelike, Utc as ChronoUtc};
+use chrono::{DateTime, Datelike, NaiveDate, SubsecRound, Timelike, Utc as ChronoUtc};
 use qtty::angular::Radians;
 use qtty::angular_rate::AngularRate;
 use qtty::length::Meters;
@@ -247,9 +247,9 @@ pub fn parse_rinex_nav_with_mode(text: &str, mode: ParseMode) -> Result<RinexNav
 
         // ── PRN ────────────────────────────────────────────────────────────
         let prn_result = if l0.starts_with('G') {
-            l0[1..3].trim().parse::<u8>()
+            l0.get(1..3).unwrap_or_default().trim().parse::<u8>()
         } else {
-            l0[..3].trim().parse::<u8>()
+            l0.get(..3).unwrap_or_default().trim().parse::<u8>()
         };
         let prn = match prn_result {
             Ok(p) if p > 0 => p,
@@ -258,7 +258,7 @@ pub fn parse_rinex_nav_with_mode(text: &str, mode: ParseMode) -> Result<RinexNav
                     return Err(FormatError::located(
                         "RINEX 3.05 §6.3",
                         FileLocation::at_line(line_no_1),
-                        format!("invalid GPS PRN: {:?}", &l0[..l0.len().min(3)]),
+                        format!("invalid GPS PRN in {l0:?}"),
                     ));
                 }
                 i += 8;
@@ -268,7 +268,7 @@ pub fn parse_rinex_nav_with_mode(text: &str, mode: ParseMode) -> Result<RinexNav
 
         // ── TOC + clock terms ──────────────────────────────────────────────
         let rest = &l0[3..];
-        let toc_tokens: Vec<&str> = rest.split_whitespace().collect();
+        let toc_tokens = split_fields(rest);
         let header_result = (|| -> Result<(Time<UTC>, f64, f64, f64), FormatError> {
             if toc_tokens.len() < 9 {
                 return Err(FormatError::located(
@@ -295,24 +295,19 @@ pub fn parse_rinex_nav_with_mode(text: &str, mode: ParseMode) -> Result<RinexNav
             let h = parse_int(toc_tokens[3], "hour")?;
             let mi = parse_int(toc_tokens[4], "minute")?;
             let sec_f = parse_d(toc_tokens[5], line_no_1, "second")?;
-            let sec_i = sec_f as u64;
-            let nanos = ((sec_f - sec_i as f64) * 1e9).round() as u32;
-            let toc = NaiveDate::from_ymd_opt(y as i32, mo as u32, d as u32)
-                .and_then(|nd| nd.and_hms_nano_opt(h as u32, mi as u32, sec_i as u32, nanos))
-                .and_then(|naive| {
-                    let dt = DateTime::from_naive_utc_and_offset(naive, ChronoUtc);
-                    Time::<UTC>::try_from_chrono(dt).ok()
-                })
-                .ok_or_else(|| {
-                    FormatError::located(
-                        "RINEX 3.05 §6.3",
-                        FileLocation::at_line(line_no_1),
-                        format!(
-                            "invalid TOC date/time: {}-{:02}-{:02} {:02}:{:02}:{:.3}",
-                            toc_tokens[0], mo, d, h, mi, sec_f
-                        ),
-                    )
-                })?;
+            let toc = crate::formats::civil_to_utc(
+                y as i32, mo as u32, d as u32, h as u32, mi as u32, sec_f,
+            )
+            .ok_or_else(|| {
+                FormatError::located(
+                    "RINEX 3.05 §6.3",
+                    FileLocation::at_line(line_no_1),
+                    format!(
+                        "invalid TOC date/time: {}-{:02}-{:02} {:02}:{:02}:{:.3}",
+                        toc_tokens[0], mo, d, h, mi, sec_f
+                    ),
+                )
+            })?;
             let af0 = parse_d(toc_tokens[6], line_no_1, "af0")?;
             let af1 = parse_d(toc_tokens[7], line_no_1, "af1")?;
             let af2 = parse_d(toc_tokens[8], line_no_1, "af2")?;
@@ -333,7 +328,7 @@ pub fn parse_rinex_nav_with_mode(text: &str, mode: ParseMode) -> Result<RinexNav
         let parse_body = |idx: usize, expected: usize| -> Result<Vec<f64>, FormatError> {
             let (ln, text) = collected[i + idx];
             let vals = collect_floats(text, ln + 1)?;
-            if vals.len() < expected && mode == ParseMode::Strict {
+            if vals.len() < expected {
                 return Err(FormatError::located(
                     "RINEX 3.05 §6.5",
                     FileLocation::at_line(ln + 1),
@@ -435,7 +430,9 @@ fn parse_d(s: &str, line: usize, field: &str) -> Result<f64, FormatError> {
     s.replace('D', "E")
         .replace('d', "e")
         .parse::<f64>()
-        .map_err(|_| {
+        .ok()
+        .filter(|v| v.is_finite())
+        .ok_or_else(|| {
             FormatError::located(
                 "RINEX 3.05 §6.5",
                 FileLocation::at_line(line),
@@ -445,19 +442,38 @@ fn parse_d(s: &str, line: usize, field: &str) -> Result<f64, FormatError> {
 }
 
 fn collect_floats(line: &str, line_no: usize) -> Result<Vec<f64>, FormatError> {
-    line.split_whitespace()
+    split_fields(line)
+        .into_iter()
         .map(|s| parse_d(s, line_no, "body"))
         .collect()
 }
 
+/// Split a line into numeric fields. `D19.12` fields may abut, so a sign that
+/// does not follow an exponent letter also starts a new field.
+fn split_fields(line: &str) -> Vec<&str> {
+    let mut out = Vec::new();
+    for token in line.split_whitespace() {
+        let bytes = token.as_bytes();
+        let mut start = 0;
+        for k in 1..bytes.len() {
+            let after_digit = bytes[k - 1].is_ascii_digit() || bytes[k - 1] == b'.';
+            if matches!(bytes[k], b'+' | b'-') && after_digit {
+                out.push(&token[start..k]);
+                start = k;
+            }
+        }
+        out.push(&token[start..]);
+    }
+    out
+}
+
 /// Format an `f64` in Fortran D-notation (e.g. `1.234567890123456E+02` →
 /// `1.234567890123456D+02`), as used by RINEX NAV body lines.
 fn fmt_d(v: f64) -> String {
-    if !v.is_finite() {
-        return format!("{:>19}", "0.000000000000000D+00");
-    }
-    let s = format!("{:19.12E}", v);
-    s.replace('E', "D")
+    let s = format!("{:.12E}", v);
+    let (mantissa, exponent) = s.split_once('E').unwrap_or((&s, "0"));
+    let exponent: i32 = exponent.parse().unwrap_or(0);
+    format!("{:>19}", format!("{mantissa}D{exponent:+03}"))
 }
 
 /// Write a RINEX 3.04 NAV file matching the layout consumed by
@@ -468,7 +484,7 @@ fn fmt_d(v: f64) -> String {
 /// output uses fixed-width Fortran D-notation in the standard
 /// `19.12D` field width.
 ///
-/// Round-trip parity is exact at 1e-15 relative for every numeric field
+/// Round-trip parity is exact to the 13 printed digits for every numeric field
 /// under [`parse_rinex_nav`].
 ///
 /// # Errors
@@ -511,11 +527,40 @@ pub fn write_rinex_nav<W: Write>(w: &mut W, file: &RinexNavFile) -> Result<(), F
     header_line(w, "", "END OF HEADER")?;
 
     for r in &file.gps {
+        let fields = [
+            r.af0.value(),
+            r.af1,
+            r.af2,
+            r.iode,
+            r.crs.value(),
+            r.delta_n.value(),
+            r.m0.value(),
+            r.cuc.value(),
+            r.e,
+            r.cus.value(),
+            r.sqrt_a,
+            r.toe.value(),
+            r.cic.value(),
+            r.omega0.value(),
+            r.cis.value(),
+            r.i0.value(),
+            r.crc.value(),
+            r.omega.value(),
+            r.omega_dot.value(),
+            r.idot.value(),
+        ];
+        if !fields.iter().all(|v| v.is_finite()) {
+            return Err(FormatError::Format(format!(
+                "rinex_nav: record of G{:02} has a non-finite field",
+                r.prn
+            )));
+        }
         let dt = r
             .toc
             .try_to_chrono()
             .map_err(|e| FormatError::Format(format!("rinex_nav: TOC to chrono failed: {e}")))?;
-        let sec = dt.second() as f64 + dt.nanosecond() as f64 / 1e9;
+        // The epoch is printed in whole seconds.
+        let dt = dt.round_subsecs(0);
         // Line 0: PRN + TOC + 3 clock terms.
         writeln!(
             w,
@@ -526,7 +571,7 @@ pub fn write_rinex_nav<W: Write>(w: &mut W, file: &RinexNavFile) -> Result<(), F
             dt.day(),
             dt.hour(),
             dt.minute(),
-            sec as u32,
+            dt.second(),
             fmt_d(r.af0.value()),
             fmt_d(r.af1),
             fmt_d(r.af2),
-- 
2.43.0


From 396dc4c06135a1414f538b8e9efdd1c3905f341e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:32 +0000
Subject: [PATCH 39/78] fix: RINEX OBS refuses malformed epochs and values and
 skips event records

---
 src/formats/rinex/obs.rs | 68 ++++++++++++++++++++++++++--------------
 1 file changed, 45 insertions(+), 23 deletions(-)

diff --git a/src/formats/rinex/obs.rs b/src/formats/rinex/obs.rs
index c4206ff..a59dc6c 100644
--- a/src/formats/rinex/obs.rs
+++ b/src/formats/rinex/obs.rs
@@ -30,7 +30,7 @@
 //! - Misra, P., & Enge, P. (2012). Global Positioning System: Signals,
 //!   Measurements, and Performance (2nd ed.). Ganga-Jamuna Press.
 use super::FormatError;
-use chrono::{DateTime, Datelike, NaiveDate, Timelike, Utc as ChronoUtc};
+use chrono::{Datelike, SubsecRound, Timelike};
 use qtty::length::Meters;
 use qtty::time::Seconds;
 use std::collections::HashMap;
@@ -110,8 +110,10 @@ pub fn read_rinex_obs<R: Read>(rdr: R) -> Result<RinexObs, FormatError> {
                 if !sys.is_ascii_alphabetic() {
                     continue;
                 }
-                let count: usize = body[1..6].trim().parse().unwrap_or(0);
-                let mut types: Vec<String> = body[7..]
+                let count: usize = body.get(1..6).unwrap_or("").trim().parse().unwrap_or(0);
+                let mut types: Vec<String> = body
+                    .get(7..)
+                    .unwrap_or("")
                     .split_whitespace()
                     .map(|s| s.to_string())
                     .collect();
@@ -144,36 +146,50 @@ pub fn read_rinex_obs<R: Read>(rdr: R) -> Result<RinexObs, FormatError> {
         }
         let parts: Vec<&str> = trimmed.split_whitespace().collect();
         if parts.len() < 9 {
+            return Err(FormatError::Format(format!(
+                "rinex_obs: epoch line has {} fields, need 9",
+                parts.len()
+            )));
+        }
+        fn field<T: std::str::FromStr>(raw: &str, what: &str) -> Result<T, FormatError> {
+            raw.parse()
+                .map_err(|_| FormatError::Format(format!("rinex_obs: bad epoch {what}: {raw:?}")))
+        }
+        let n_sat: usize = field(parts[8], "record count")?;
+        if field::<u32>(parts[7], "flag")? > 1 {
+            // Event or cycle-slip epoch: the next lines are not observations.
+            for _ in 0..n_sat {
+                line.clear();
+                br.read_line(&mut line)?;
+            }
             continue;
         }
-        let year: i32 = parts[1].parse().unwrap_or(0);
-        let month: u32 = parts[2].parse().unwrap_or(0);
-        let day: u32 = parts[3].parse().unwrap_or(0);
-        let hour: u32 = parts[4].parse().unwrap_or(0);
-        let minute: u32 = parts[5].parse().unwrap_or(0);
-        let second_f: f64 = parts[6].parse().unwrap_or(0.0);
-        let second_int = second_f as u32;
-        let nanos = ((second_f - second_int as f64) * 1e9).round() as u32;
-        let naive = NaiveDate::from_ymd_opt(year, month, day)
-            .and_then(|d| d.and_hms_nano_opt(hour, minute, second_int, nanos))
+        let year: i32 = field(parts[1], "year")?;
+        let month: u32 = field(parts[2], "month")?;
+        let day: u32 = field(parts[3], "day")?;
+        let hour: u32 = field(parts[4], "hour")?;
+        let minute: u32 = field(parts[5], "minute")?;
+        let second_f: f64 = field(parts[6], "second")?;
+        let epoch_time = crate::formats::civil_to_utc(year, month, day, hour, minute, second_f)
             .ok_or_else(|| FormatError::Format("rinex_obs: invalid epoch date".into()))?;
-        let epoch_time =
-            Time::<UTC>::try_from_chrono(DateTime::from_naive_utc_and_offset(naive, ChronoUtc))
-                .map_err(|e| {
-                    FormatError::Format(format!("rinex_obs: epoch UTC conversion: {e}"))
-                })?;
-        let n_sat: usize = parts[8].parse().unwrap_or(0);
 
         let mut sats = HashMap::new();
         for _ in 0..n_sat {
             line.clear();
             if br.read_line(&mut line)? == 0 {
-                break;
+                return Err(FormatError::Format(
+                    "rinex_obs: file ends inside an epoch".into(),
+                ));
             }
             let row = line.trim_end();
             if row.len() < 3 {
                 continue;
             }
+            if !row.is_ascii() {
+                return Err(FormatError::Format(format!(
+                    "rinex_obs: malformed observation record {row:?}"
+                )));
+            }
             let sat = row[..3].to_string();
             let sys = sat.chars().next().unwrap_or(' ');
             let types = match obs_types.get(&sys) {
@@ -194,9 +210,14 @@ pub fn read_rinex_obs<R: Read>(rdr: R) -> Result<RinexObs, FormatError> {
                 if raw.is_empty() {
                     continue;
                 }
-                if let Ok(v) = raw.parse::<f64>() {
-                    vals.insert(ty.clone(), v);
-                }
+                let v = raw
+                    .parse::<f64>()
+                    .ok()
+                    .filter(|v| v.is_finite())
+                    .ok_or_else(|| {
+                        FormatError::Format(format!("rinex_obs: bad {ty} of {sat}: {raw:?}"))
+                    })?;
+                vals.insert(ty.clone(), v);
             }
             sats.insert(sat, vals);
         }
@@ -302,6 +323,7 @@ pub fn write_rinex_obs<W: Write>(w: &mut W, obs: &RinexObs) -> Result<(), Format
             .time
             .try_to_chrono()
             .map_err(|e| FormatError::Format(format!("rinex_obs: epoch to chrono failed: {e}")))?;
+        let dt = dt.round_subsecs(7);
         let second = dt.second() as f64 + dt.nanosecond() as f64 / 1e9;
         writeln!(
             w,
-- 
2.43.0


From e8fc3f78ef3bd19052c2cbe8494762a2f88bf7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:32 +0000
Subject: [PATCH 40/78] fix: DORIS refuses malformed epochs and survives
 non-ASCII lines

---
 src/formats/rinex/doris.rs | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/src/formats/rinex/doris.rs b/src/formats/rinex/doris.rs
index 988fde4..db4ca06 100644
--- a/src/formats/rinex/doris.rs
+++ b/src/formats/rinex/doris.rs
@@ -90,7 +90,7 @@ fn parse_doris<R: Read>(reader: R) -> Result<RinexDoris, FormatError> {
     } {
         let l = line.trim_end_matches(['\n', '\r']);
         if in_header {
-            if l.len() < 61 {
+            if l.len() < 61 || !l.is_ascii() {
                 continue;
             }
             let (data, label) = l.split_at(60);
@@ -115,19 +115,14 @@ fn parse_doris<R: Read>(reader: R) -> Result<RinexDoris, FormatError> {
         if let Some(rest) = l.strip_prefix('>') {
             // RINEX 3 epoch flag line: "> YYYY MM DD HH MM SS.SSS"
             let parts: Vec<&str> = rest.split_whitespace().collect();
-            if parts.len() >= 6 {
-                let y: i32 = parts[0].parse().unwrap_or(0);
-                let mo: u32 = parts[1].parse().unwrap_or(0);
-                let d: u32 = parts[2].parse().unwrap_or(0);
-                let h: u32 = parts[3].parse().unwrap_or(0);
-                let mi: u32 = parts[4].parse().unwrap_or(0);
-                let s: f64 = parts[5].parse().unwrap_or(0.0);
-                current_obs_epoch = Some(date_to_mjd(y, mo, d, h, mi, s));
-                current_sat = None;
-            }
+            let epoch = parse_epoch(&parts).ok_or_else(|| {
+                FormatError::Format(format!("rinex_doris: malformed epoch line {l:?}"))
+            })?;
+            current_obs_epoch = Some(epoch);
+            current_sat = None;
             continue;
         }
-        let sat_id = if l.len() >= 3 && l.starts_with('D') {
+        let sat_id = if l.starts_with('D') && l.is_char_boundary(3) {
             Some(l[0..3].to_string())
         } else {
             current_sat.clone()
@@ -153,6 +148,22 @@ fn parse_doris<R: Read>(reader: R) -> Result<RinexDoris, FormatError> {
     Ok(out)
 }
 
+/// Parse the `YYYY MM DD HH MM SS.s` fields of an epoch line.
+#[cfg(feature = "doris")]
+fn parse_epoch(fields: &[&str]) -> Option<f64> {
+    let y: i32 = fields.first()?.parse().ok()?;
+    let mo: u32 = fields.get(1)?.parse().ok()?;
+    let d: u32 = fields.get(2)?.parse().ok()?;
+    let h: u32 = fields.get(3)?.parse().ok()?;
+    let mi: u32 = fields.get(4)?.parse().ok()?;
+    let s: f64 = fields.get(5)?.parse().ok()?;
+    chrono::NaiveDate::from_ymd_opt(y, mo, d)?;
+    if h > 23 || mi > 59 || !(0.0..61.0).contains(&s) {
+        return None;
+    }
+    Some(date_to_mjd(y, mo, d, h, mi, s))
+}
+
 #[cfg(feature = "doris")]
 fn date_to_mjd(y: i32, mo: u32, d: u32, h: u32, mi: u32, s: f64) -> f64 {
     // Standard civil → MJD conversion (Meeus §7).
-- 
2.43.0


From cb2b5810e484b30f6e4e12a263b5b651db23f0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:29 +0000
Subject: [PATCH 41/78] fix: drag uses the full Earth rotation vector

---
 src/astro/dynamics/forces/drag.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/astro/dynamics/forces/drag.rs b/src/astro/dynamics/forces/drag.rs
index b710798..d98dc74 100644
--- a/src/astro/dynamics/forces/drag.rs
+++ b/src/astro/dynamics/forces/drag.rs
@@ -90,12 +90,13 @@ impl AccelerationModel<DynamicsContext, TT, Geocentric, GCRS> for DragForce {
             .value();
         let rx = s.position.x().value();
         let ry = s.position.y().value();
+        let rz = s.position.z().value();
+        let ox = self.omega_earth.x().value();
+        let oy = self.omega_earth.y().value();
         let oz = self.omega_earth.z().value();
-        let omega_cross_r_x = -oz * ry;
-        let omega_cross_r_y = oz * rx;
-        let vx = s.velocity.x().value() - omega_cross_r_x;
-        let vy = s.velocity.y().value() - omega_cross_r_y;
-        let vz = s.velocity.z().value();
+        let vx = s.velocity.x().value() - (oy * rz - oz * ry);
+        let vy = s.velocity.y().value() - (oz * rx - ox * rz);
+        let vz = s.velocity.z().value() - (ox * ry - oy * rx);
         let v_mag_m_s = (vx * vx + vy * vy + vz * vz).sqrt() * 1_000.0;
         let pre = -0.5 * self.cd.value() * self.area_to_mass.value() * rho * v_mag_m_s;
         Ok(Acceleration::<GCRS, AccelerationUnit>::new(
-- 
2.43.0


From adde37f67bdcdd53c58b87fed8498131b56b24b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:29 +0000
Subject: [PATCH 42/78] fix: geopotential rotates by the Earth rotation angle
 of UT1

---
 src/astro/dynamics/forces/geopotential.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/astro/dynamics/forces/geopotential.rs b/src/astro/dynamics/forces/geopotential.rs
index 51fef18..204be50 100644
--- a/src/astro/dynamics/forces/geopotential.rs
+++ b/src/astro/dynamics/forces/geopotential.rs
@@ -9,6 +9,7 @@ use principia::{AccelerationModel, PrincipiaError};
 use crate::astro::dynamics::context::DynamicsContext;
 use crate::astro::dynamics::errors::DynamicsError;
 use crate::astro::dynamics::state::{Acceleration, AccelerationUnit, OrbitState};
+use crate::astro::earth_rotation::jd_ut1_from_tt;
 use crate::astro::era::earth_rotation_angle;
 use crate::coordinates::centers::Geocentric;
 use crate::coordinates::frames::GCRS;
@@ -61,7 +62,7 @@ impl AccelerationModel<DynamicsContext, TT, Geocentric, GCRS> for Geopotential {
             .require_gravity_field()
             .map_err(DynamicsError::into_principia)?;
         let (pos_kernel, era_sin_cos) = if self.order > 0 {
-            let era = earth_rotation_angle(s.epoch.to::<JD>());
+            let era = earth_rotation_angle(jd_ut1_from_tt(s.epoch.to::<JD>()));
             let (sin_t, cos_t) = era.value().sin_cos();
             let x = s.position.x().value();
             let y = s.position.y().value();
-- 
2.43.0


From cf21926f478def1801db62c32a587da70f28f189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:51 +0000
Subject: [PATCH 43/78] fix: propagators refuse a non-finite interval

---
 src/astro/dynamics/propagation/propagator.rs | 18 ++++++++++--
 src/pod/propagation/integrators.rs           | 31 ++++++++++++++++++--
 2 files changed, 43 insertions(+), 6 deletions(-)

diff --git a/src/astro/dynamics/propagation/propagator.rs b/src/astro/dynamics/propagation/propagator.rs
index 26cd4bc..4e96799 100644
--- a/src/astro/dynamics/propagation/propagator.rs
+++ b/src/astro/dynamics/propagation/propagator.rs
@@ -195,7 +195,7 @@ where
         dt: Second,
     ) -> Result<OrbitState<Geocentric, GCRS>, DynamicsError> {
         let t_start = state.epoch;
-        let t_end = state.epoch + dt;
+        let t_end = state.epoch + finite_interval(dt)?;
         let h0 = Second::new(30.0);
         let cfg = PropagationConfig::<DynamicsContext, TT, Geocentric, GCRS>::new(t_start, t_end)
             .with_initial_step(h0)
@@ -221,7 +221,7 @@ where
         E: EventDetector<DynamicsContext, TT, Geocentric, GCRS> + 'static,
     {
         let t_start = state.epoch;
-        let t_end = state.epoch + dt;
+        let t_end = state.epoch + finite_interval(dt)?;
         let mut cfg =
             PropagationConfig::<DynamicsContext, TT, Geocentric, GCRS>::new(t_start, t_end)
                 .with_initial_step(Second::new(30.0))
@@ -241,7 +241,19 @@ where
         state: OrbitState<Geocentric, GCRS>,
         dt: Second,
     ) -> Result<(OrbitState<Geocentric, GCRS>, StateTransitionMatrix<GCRS>), DynamicsError> {
-        principia::propagate_stm(&self.model, state, dt, &self.ctx).map_err(Into::into)
+        principia::propagate_stm(&self.model, state, finite_interval(dt)?, &self.ctx)
+            .map_err(Into::into)
+    }
+}
+
+/// Rejects NaN and infinite propagation intervals, which no step sequence covers.
+fn finite_interval(dt: Second) -> Result<Second, DynamicsError> {
+    if dt.value().is_finite() {
+        Ok(dt)
+    } else {
+        Err(DynamicsError::InvalidStepRequest {
+            reason: "propagation interval must be finite",
+        })
     }
 }
 
diff --git a/src/pod/propagation/integrators.rs b/src/pod/propagation/integrators.rs
index df19e16..123f149 100644
--- a/src/pod/propagation/integrators.rs
+++ b/src/pod/propagation/integrators.rs
@@ -65,6 +65,19 @@ pub trait Integrator {
     ) -> Result<OrbitState, DynamicsError>;
 }
 
+/// Rejects NaN and infinite propagation intervals, which no step sequence covers.
+fn finite_interval(dt: Second) -> Result<Second, DynamicsError> {
+    if dt.value().is_finite() {
+        Ok(dt)
+    } else {
+        Err(DynamicsError::Upstream(
+            crate::astro::dynamics::errors::DynamicsError::InvalidStepRequest {
+                reason: "propagation interval must be finite",
+            },
+        ))
+    }
+}
+
 /// Fixed-step classical Runge-Kutta 4th-order integrator.
 ///
 /// Uses [`principia::rk4_propagate`] under the
@@ -106,7 +119,7 @@ impl Integrator for Rk4Integrator {
         dt: Second,
         ctx: &DynamicsContext,
     ) -> Result<OrbitState, DynamicsError> {
-        let dt_s = dt.value();
+        let dt_s = finite_interval(dt)?.value();
         if dt_s == 0.0 {
             return Ok(state);
         }
@@ -153,7 +166,13 @@ impl Integrator for Dopri5Integrator {
         dt: Second,
         ctx: &DynamicsContext,
     ) -> Result<OrbitState, DynamicsError> {
-        Ok(dopri5_propagate(force, state, dt, self.tolerances, ctx)?)
+        Ok(dopri5_propagate(
+            force,
+            state,
+            finite_interval(dt)?,
+            self.tolerances,
+            ctx,
+        )?)
     }
 }
 
@@ -186,7 +205,13 @@ impl Integrator for Dop853Integrator {
         dt: Second,
         ctx: &DynamicsContext,
     ) -> Result<OrbitState, DynamicsError> {
-        Ok(dop853_propagate(force, state, dt, self.tolerances, ctx)?)
+        Ok(dop853_propagate(
+            force,
+            state,
+            finite_interval(dt)?,
+            self.tolerances,
+            ctx,
+        )?)
     }
 }
 
-- 
2.43.0


From 4c57e41a76f051838f94cb2dab189787682aadc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:51 +0000
Subject: [PATCH 44/78] fix: RK4 adapter returns to its step after a shortened
 one

---
 src/astro/dynamics/propagation/propagator.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/astro/dynamics/propagation/propagator.rs b/src/astro/dynamics/propagation/propagator.rs
index 4e96799..810cff3 100644
--- a/src/astro/dynamics/propagation/propagator.rs
+++ b/src/astro/dynamics/propagation/propagator.rs
@@ -93,7 +93,9 @@ where
             Second::new(h_try.value().signum() * max_h)
         };
         let new_state = rk4_step(model, state, h, ctx)?;
-        Ok((new_state, h, h, 0))
+        // A step cut short (initial step, output time) must not shrink the following ones.
+        let h_next = Second::new(h_try.value().signum() * max_h);
+        Ok((new_state, h, h_next, 0))
     }
 }
 
-- 
2.43.0


From 48c3295dd82a26b7744f991aa9a333d8612a8f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:51 +0000
Subject: [PATCH 45/78] fix: propagation diagnostics report NaN

---
 src/pod/propagation/validation.rs  | 2 +-
 src/pod/propagation/variational.rs | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pod/propagation/validation.rs b/src/pod/propagation/validation.rs
index f7c6de3..e274d5f 100644
--- a/src/pod/propagation/validation.rs
+++ b/src/pod/propagation/validation.rs
@@ -102,7 +102,7 @@ pub fn max_rel_stm_predict_error<FM: SiderustAccelerationModel>(
         .max(1e-30);
     for i in 0..6 {
         let r = (actual[i] - predicted[i]).abs() / scale;
-        if r > max {
+        if r > max || r.is_nan() {
             max = r;
         }
     }
diff --git a/src/pod/propagation/variational.rs b/src/pod/propagation/variational.rs
index 065268f..5c617f0 100644
--- a/src/pod/propagation/variational.rs
+++ b/src/pod/propagation/variational.rs
@@ -49,7 +49,8 @@ pub struct ParamColumn(pub [f64; 6]);
 
 impl ParamColumn {
     /// Element-wise `|self - other|.max()` divided by the max magnitude in
-    /// `other`. Returns `0.0` when `other` is identically zero.
+    /// `other`; the absolute difference when `other` is identically zero, and
+    /// NaN when either column holds a NaN.
     pub fn max_relative_difference(&self, other: &ParamColumn) -> f64 {
         let scale = other.0.iter().map(|x| x.abs()).fold(0.0_f64, f64::max);
         let scale = if scale > 0.0 { scale } else { 1.0 };
@@ -57,7 +58,7 @@ impl ParamColumn {
             .iter()
             .zip(other.0.iter())
             .map(|(a, b)| (a - b).abs() / scale)
-            .fold(0.0_f64, f64::max)
+            .fold(0.0_f64, |m, d| if d > m || d.is_nan() { d } else { m })
     }
 }
 
@@ -261,8 +262,7 @@ impl VariationalPropagator {
     /// The force model must implement the upstream
     /// `siderust::astro::dynamics::forces::ForceModel` trait and must supply
     /// analytic partial derivatives (returned by `ForceModel::partials`) for
-    /// the STM to be meaningful. Models without partials produce an identity
-    /// STM at every step.
+    /// the STM to be meaningful. Models without partials are an error.
     ///
     /// # Errors
     ///
-- 
2.43.0


From 9da4e5b02cbbc59006dff82d18dafafeeb02c620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:01 +0000
Subject: [PATCH 46/78] fix: refuse a measurement row before accumulating any
 of it

---
 src/pod/estimation/wls.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pod/estimation/wls.rs b/src/pod/estimation/wls.rs
index b884caa..dca2e04 100644
--- a/src/pod/estimation/wls.rs
+++ b/src/pod/estimation/wls.rs
@@ -122,7 +122,7 @@ impl NormalEquations {
                 "residual must be finite (got {residual})"
             )));
         }
-        let w = 1.0 / (sigma * sigma);
+        // Check the whole row first: a refused row must not be half accumulated.
         for &(i, hi) in partials {
             if i >= self.n {
                 return Err(WlsSolverError::InvalidIndex {
@@ -135,6 +135,9 @@ impl NormalEquations {
                     "partial at index {i} must be finite (got {hi})"
                 )));
             }
+        }
+        let w = 1.0 / (sigma * sigma);
+        for &(i, hi) in partials {
             // Accumulate into the upper triangle; symmetrise at solve time.
             self.b[(i, 0)] += w * hi * residual;
             for &(j, hj) in partials {
-- 
2.43.0


From d00d42f72e2b46c41c38bd9996872145d448ade1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:01 +0000
Subject: [PATCH 47/78] fix: covariance validation reports NaN entries

---
 src/pod/problem/covariance.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pod/problem/covariance.rs b/src/pod/problem/covariance.rs
index 85b08c1..f631227 100644
--- a/src/pod/problem/covariance.rs
+++ b/src/pod/problem/covariance.rs
@@ -85,7 +85,7 @@ impl ParameterCovariance {
                 let a = self.data[i * n + j];
                 let b = self.data[j * n + i];
                 let delta = (a - b).abs();
-                if delta > tol {
+                if delta.is_nan() || delta > tol {
                     return Err(CovarianceError::NotSymmetric { i, j, delta, tol });
                 }
             }
@@ -100,7 +100,7 @@ impl ParameterCovariance {
         let n = self.n();
         for i in 0..n {
             let v = self.data[i * n + i];
-            if v < 0.0 {
+            if v.is_nan() || v < 0.0 {
                 return Err(CovarianceError::NotPsdDiagonal { i, value: v });
             }
         }
-- 
2.43.0


From 8f7b45282caf502850fb4759c61abc331108166f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:01 +0000
Subject: [PATCH 48/78] fix: nonlinear least squares converges on exact-fit
 problems

---
 src/pod/estimation/nonlinear.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pod/estimation/nonlinear.rs b/src/pod/estimation/nonlinear.rs
index 3aa5777..b1a9806 100644
--- a/src/pod/estimation/nonlinear.rs
+++ b/src/pod/estimation/nonlinear.rs
@@ -146,8 +146,10 @@ where
             params[i] += dp;
         }
         let chi2 = result.reduced_chi2();
-        let chi2_rel = if last_chi2.is_finite() && last_chi2 > 0.0 {
-            (chi2 - last_chi2).abs() / last_chi2
+        // An exact fit leaves only rounding noise in χ²; as for the parameters, the
+        // scale is at least one, so that such noise still counts as settled.
+        let chi2_rel = if last_chi2.is_finite() {
+            (chi2 - last_chi2).abs() / last_chi2.max(1.0)
         } else {
             f64::INFINITY
         };
-- 
2.43.0


From ef69bc95b829090f0e14143141362a0b5ae60359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:11 +0000
Subject: [PATCH 49/78] fix: clamp the elevation sine of a target at the zenith

---
 src/mission/geometry/az_el_range.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mission/geometry/az_el_range.rs b/src/mission/geometry/az_el_range.rs
index cc5d965..93b727c 100644
--- a/src/mission/geometry/az_el_range.rs
+++ b/src/mission/geometry/az_el_range.rs
@@ -91,7 +91,7 @@ where
     if az < 0.0 {
         az += TAU;
     }
-    let el = u_comp.asin();
+    let el = u_comp.clamp(-1.0, 1.0).asin();
 
     // Range rate = (v_target - v_observer) · LOS direction.
     let rel_v = target_vel - observer_vel;
-- 
2.43.0


From 8a0d2541249ccd360dc6edb50fa4d8357e9b7237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:11 +0000
Subject: [PATCH 50/78] fix: occultation uses tangent angular radii, the exact
 separation and the target in front

---
 src/mission/geometry/occultation.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/mission/geometry/occultation.rs b/src/mission/geometry/occultation.rs
index b7463e6..c439cd1 100644
--- a/src/mission/geometry/occultation.rs
+++ b/src/mission/geometry/occultation.rs
@@ -68,10 +68,18 @@ where
     if nt == 0.0 || no == 0.0 {
         return 0.0;
     }
-    let app_t = (tr / nt).atan(); // angular radius of target
-    let app_o = (or_ / no).atan(); // angular radius of occulter
-    let cos_sep = d_t.dot(&d_o).value() / (nt * no);
-    let sep = cos_sep.clamp(-1.0, 1.0).acos();
+    // A target nearer than the occulter's limb is in front of the occulter.
+    if nt * nt <= no * no - or_ * or_ {
+        return 0.0;
+    }
+    // The limb of a sphere is where the line of sight is tangent to it.
+    let app_t = (tr / nt).min(1.0).asin(); // angular radius of target
+    let app_o = (or_ / no).min(1.0).asin(); // angular radius of occulter
+    let sep = d_t
+        .cross(&d_o)
+        .magnitude()
+        .value()
+        .atan2(d_t.dot(&d_o).value());
     // Apparent target area
     let area_t = PI * app_t * app_t;
     if sep >= app_t + app_o {
-- 
2.43.0


From 09e6085c118ca427856b32a4ca9197965a3846c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:11 +0000
Subject: [PATCH 51/78] fix: sort terrain mask samples after wrapping their
 azimuth

---
 src/mission/geometry/terrain_mask.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mission/geometry/terrain_mask.rs b/src/mission/geometry/terrain_mask.rs
index 4d31e4d..1dfcf32 100644
--- a/src/mission/geometry/terrain_mask.rs
+++ b/src/mission/geometry/terrain_mask.rs
@@ -19,12 +19,12 @@ pub struct TerrainMask {
 impl TerrainMask {
     /// Build a terrain mask from `(azimuth, elevation)` samples. Empty
     /// inputs produce a flat zero mask.
-    pub fn new(mut samples: Vec<(Radians, Radians)>) -> Self {
-        samples.sort_by(|a, b| a.0.value().partial_cmp(&b.0.value()).unwrap());
-        let s = samples
+    pub fn new(samples: Vec<(Radians, Radians)>) -> Self {
+        let mut s: Vec<(f64, f64)> = samples
             .into_iter()
             .map(|(a, e)| (a.value().rem_euclid(core::f64::consts::TAU), e.value()))
             .collect();
+        s.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
         Self { samples: s }
     }
 
-- 
2.43.0


From 48ce974ecd9e23fd311a265219cfaf594bf22482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:24 +0000
Subject: [PATCH 52/78] fix: read DAF words in the file byte order and refuse
 broken summary chains

---
 src/formats/spice/daf.rs | 105 ++++++++++++++++++++-------------------
 1 file changed, 53 insertions(+), 52 deletions(-)

diff --git a/src/formats/spice/daf.rs b/src/formats/spice/daf.rs
index b665dd5..8674533 100644
--- a/src/formats/spice/daf.rs
+++ b/src/formats/spice/daf.rs
@@ -135,8 +135,6 @@ impl Daf {
         let read_i32 = if le { read_i32_le } else { read_i32_be };
         let read_f64 = if le { read_f64_le } else { read_f64_be };
 
-        let fward = read_i32(data, 76) as usize;
-
         if nd != 2 || ni != 6 {
             return Err(SpiceError::FormatParse(format!(
                 "Expected SPK format (ND=2, NI=6), got ND={}, NI={}",
@@ -147,30 +145,9 @@ impl Daf {
         let ss = nd + ni.div_ceil(2);
 
         let mut summaries = Vec::new();
-        let mut rec = fward;
-
-        while rec > 0 {
-            let rec_offset = (rec - 1) * 1024;
-            if rec_offset + 1024 > data.len() {
-                return Err(SpiceError::FormatParse(format!(
-                    "Summary record {} extends past EOF",
-                    rec
-                )));
-            }
-
-            let next = read_f64(data, rec_offset) as i64 as usize;
-            let _prev = read_f64(data, rec_offset + 8);
-            let nsum = read_f64(data, rec_offset + 16) as usize;
-
+        for (rec_offset, nsum) in summary_records(data, ss, le)? {
             for i in 0..nsum {
                 let off = rec_offset + 24 + i * ss * 8;
-                if off + ss * 8 > data.len() {
-                    return Err(SpiceError::FormatParse(format!(
-                        "Summary {} in record {} extends past EOF",
-                        i, rec
-                    )));
-                }
-
                 let start_et = read_f64(data, off);
                 let end_et = read_f64(data, off + 8);
 
@@ -193,8 +170,6 @@ impl Daf {
                     end_word,
                 });
             }
-
-            rec = next;
         }
 
         Ok(Daf { nd, ni, summaries })
@@ -203,9 +178,7 @@ impl Daf {
     /// Read a f64 from the data array at a given word index (1-based).
     #[inline]
     pub fn read_f64_at_word(&self, data: &[u8], word: usize) -> f64 {
-        let offset = (word - 1) * 8;
-        // DE440/DE441 kernels from NAIF are little-endian on modern systems.
-        read_f64_le(data, offset)
+        read_word(data, word)
     }
 }
 
@@ -245,31 +218,12 @@ impl DafRaw {
 
         let read_i32 = if le { read_i32_le } else { read_i32_be };
         let read_f64 = if le { read_f64_le } else { read_f64_be };
-        let fward = read_i32(&data, 76) as usize;
         let ss = nd + ni.div_ceil(2);
 
         let mut raw_summaries = Vec::new();
-        let mut rec = fward;
-        while rec > 0 {
-            let rec_offset = (rec - 1) * 1024;
-            if rec_offset + 1024 > data.len() {
-                return Err(SpiceError::FormatParse(format!(
-                    "Summary record {} extends past EOF",
-                    rec
-                )));
-            }
-
-            let next = read_f64(&data, rec_offset) as i64 as usize;
-            let nsum = read_f64(&data, rec_offset + 16) as usize;
+        for (rec_offset, nsum) in summary_records(&data, ss, le)? {
             for i in 0..nsum {
                 let off = rec_offset + 24 + i * ss * 8;
-                if off + ss * 8 > data.len() {
-                    return Err(SpiceError::FormatParse(format!(
-                        "Summary {} in record {} extends past EOF",
-                        i, rec
-                    )));
-                }
-
                 let mut doubles = Vec::with_capacity(nd);
                 for j in 0..nd {
                     doubles.push(read_f64(&data, off + j * 8));
@@ -281,7 +235,6 @@ impl DafRaw {
                 }
                 raw_summaries.push(RawSummary { doubles, integers });
             }
-            rec = next;
         }
 
         Ok(Self {
@@ -296,8 +249,7 @@ impl DafRaw {
     /// Read an `f64` at a 1-based word index (little-endian).
     #[inline]
     pub fn read_f64_at_word(&self, word: usize) -> f64 {
-        let offset = (word - 1) * 8;
-        read_f64_le(&self.bytes, offset)
+        read_word(&self.bytes, word)
     }
 
     /// Borrow the raw kernel bytes.
@@ -306,6 +258,55 @@ impl DafRaw {
     }
 }
 
+/// Walk the linked list of summary records: `(byte offset, summary count)` of each.
+fn summary_records(data: &[u8], ss: usize, le: bool) -> Result<Vec<(usize, usize)>, SpiceError> {
+    let read_f64 = if le { read_f64_le } else { read_f64_be };
+    let n_file_records = data.len() / 1024;
+    let per_record = (128 - 3) / ss;
+    let mut records = Vec::new();
+    let mut rec = f64::from(if le {
+        read_i32_le(data, 76)
+    } else {
+        read_i32_be(data, 76)
+    });
+    while rec != 0.0 {
+        if rec.fract() != 0.0 || !(1.0..=n_file_records as f64).contains(&rec) {
+            return Err(SpiceError::FormatParse(format!(
+                "Summary record {rec} extends past EOF"
+            )));
+        }
+        if records.len() == n_file_records {
+            return Err(SpiceError::FormatParse(
+                "Summary records form a loop".to_string(),
+            ));
+        }
+        let offset = (rec as usize - 1) * 1024;
+        let nsum = read_f64(data, offset + 16);
+        if nsum.fract() != 0.0 || !(0.0..=per_record as f64).contains(&nsum) {
+            return Err(SpiceError::FormatParse(format!(
+                "Summary record {rec} claims {nsum} summaries"
+            )));
+        }
+        records.push((offset, nsum as usize));
+        rec = read_f64(data, offset);
+    }
+    Ok(records)
+}
+
+/// Read the double at a 1-based DAF word address in the file's own byte order.
+fn read_word(data: &[u8], word: usize) -> f64 {
+    let offset = (word - 1) * 8;
+    let plausible = |n: i32| n > 0 && n <= 100;
+    let big_endian = data.len() >= 1024
+        && data.starts_with(b"DAF")
+        && !(plausible(read_i32_le(data, 8)) && plausible(read_i32_le(data, 12)));
+    if big_endian {
+        read_f64_be(data, offset)
+    } else {
+        read_f64_le(data, offset)
+    }
+}
+
 #[inline]
 fn read_i32_le(data: &[u8], offset: usize) -> i32 {
     i32::from_le_bytes(data[offset..offset + 4].try_into().unwrap())
-- 
2.43.0


From 136775b6b7ca46785b5eb05a878b56f67ca9639f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:24 +0000
Subject: [PATCH 53/78] fix: refuse SPK segments whose words lie outside the
 file

---
 src/formats/spice/segment.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/formats/spice/segment.rs b/src/formats/spice/segment.rs
index 0a2fb55..3927065 100644
--- a/src/formats/spice/segment.rs
+++ b/src/formats/spice/segment.rs
@@ -384,6 +384,18 @@ pub fn segment_for_summary(
     daf: &Daf,
     summary: &Summary,
 ) -> Result<SpkSegment, SpiceError> {
+    if matches!(summary.data_type, 2 | 3 | 9 | 13)
+        && !(1 <= summary.start_word
+            && summary.start_word <= summary.end_word
+            && summary.end_word <= file_data.len() / 8)
+    {
+        return Err(SpiceError::Parse {
+            message: format!(
+                "segment words [{}..{}] are not within the file",
+                summary.start_word, summary.end_word
+            ),
+        });
+    }
     match summary.data_type {
         2 => Ok(SpkSegment::Type2(read_chebyshev(
             file_data, daf, summary, 3,
@@ -526,8 +538,8 @@ fn read_discrete_states(
         message: format!("SPK Type {data_type} state count overflow: {n_records}"),
     })?;
     let epoch_start = state_len;
-    let epoch_end = epoch_start + n_records;
-    if epoch_end + 2 > words.len() {
+    let epoch_end = epoch_start.saturating_add(n_records);
+    if epoch_end > words.len() - 2 {
         return Err(SpiceError::Parse {
             message: format!("SPK Type {data_type} payload too short for {n_records} records"),
         });
-- 
2.43.0


From b7b435560b9900187460c399226449e17c238fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:24 +0000
Subject: [PATCH 54/78] fix: later SPK segments take precedence and descriptor
 coverage is honoured

---
 src/formats/spice/kernel.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/formats/spice/kernel.rs b/src/formats/spice/kernel.rs
index f969d90..bf90984 100644
--- a/src/formats/spice/kernel.rs
+++ b/src/formats/spice/kernel.rs
@@ -99,8 +99,9 @@ impl SpkKernel {
         for summary in &daf.summaries {
             let (segment, start, end) = match segment_for_summary(&bytes, &daf, summary) {
                 Ok(seg) => {
-                    let start = seg.start_tdb_seconds();
-                    let end = seg.end_tdb_seconds();
+                    // The descriptor may restrict what the records cover.
+                    let start = seg.start_tdb_seconds().max(summary.start_et);
+                    let end = seg.end_tdb_seconds().min(summary.end_et);
                     (Some(seg), start, end)
                 }
                 Err(SpiceError::UnsupportedDataType { .. }) => {
@@ -244,9 +245,10 @@ impl SpkKernel {
                 found = true;
                 break;
             }
-            // Outgoing forward edges (segments where node is the target).
+            // Outgoing forward edges (segments where node is the target);
+            // later segments take precedence.
             if let Some(idxs) = self.by_target.get(&node) {
-                for &i in idxs {
+                for &i in idxs.iter().rev() {
                     let s = &self.segments[i];
                     if epoch < s.start_tdb_seconds || epoch > s.end_tdb_seconds {
                         continue;
@@ -258,7 +260,7 @@ impl SpkKernel {
                 }
             }
             // Reverse edges (segments where node is the center).
-            for (i, s) in self.segments.iter().enumerate() {
+            for (i, s) in self.segments.iter().enumerate().rev() {
                 if s.center != node {
                     continue;
                 }
-- 
2.43.0


From 372ac13d728f037e4cbd226662f84cd4bb5b7008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:24 +0000
Subject: [PATCH 55/78] fix: geocentric planet states use the same segment
 chain as any other state

---
 src/formats/spice/spk_kernel.rs | 26 --------------------------
 1 file changed, 26 deletions(-)

diff --git a/src/formats/spice/spk_kernel.rs b/src/formats/spice/spk_kernel.rs
index 50bd0ec..10bac8f 100644
--- a/src/formats/spice/spk_kernel.rs
+++ b/src/formats/spice/spk_kernel.rs
@@ -186,35 +186,9 @@ impl SpkKernelSet {
         point: PlanetPoint,
         jd: JulianDate,
     ) -> Result<IcrfKm, SpkKernelError> {
-        if let PlanetPoint::SystemBarycenter = point {
-            match self.try_major_planet_barycenter_geocentric_fast(planet, jd) {
-                Ok(state) => return Ok(state),
-                Err(SpkKernelError::MissingSegment { .. }) => {}
-                Err(err) => return Err(err),
-            }
-        }
         self.try_geometric_state(planet.naif_id(point), EARTH_ID, jd)
     }
 
-    fn try_major_planet_barycenter_geocentric_fast(
-        &self,
-        planet: MajorPlanet,
-        jd: JulianDate,
-    ) -> Result<IcrfKm, SpkKernelError> {
-        let et = jd_tt_to_spice_et_seconds(jd);
-        let target =
-            self.try_edge_position_et(planet.naif_id(PlanetPoint::SystemBarycenter), SSB_ID, et)?;
-        let emb = self.try_edge_position_et(EMB_ID, SSB_ID, et)?;
-        let earth = match self.try_edge_position_et(EARTH_ID, EMB_ID, et) {
-            Ok(earth_off) => emb + earth_off,
-            Err(_) => {
-                let moon_off = self.try_edge_position_et(MOON_ID, EMB_ID, et)?;
-                emb - moon_off.scale(1.0 / EARTH_MOON_RATIO)
-            }
-        };
-        Ok(target - earth)
-    }
-
     fn try_position_from_ssb(
         &self,
         target_id: i32,
-- 
2.43.0


From 2cb77c15671fa812066ee78ac22a5c37ac6ee1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:23 +0000
Subject: [PATCH 56/78] fix: solve Lagrange points along the orbit, where L3-L5
 are nearly flat

---
 src/ephemeris/lagrange/solver.rs | 57 +++++++++++++++++++++++++++-----
 1 file changed, 49 insertions(+), 8 deletions(-)

diff --git a/src/ephemeris/lagrange/solver.rs b/src/ephemeris/lagrange/solver.rs
index 46be958..6603ab4 100644
--- a/src/ephemeris/lagrange/solver.rs
+++ b/src/ephemeris/lagrange/solver.rs
@@ -290,7 +290,7 @@ fn solve_with_sampler(
     let mut best_step = f64::INFINITY;
 
     for iter in 0..config.max_iterations {
-        let residual = frame.residual(pos);
+        let residual = frame.local_residual(pos);
         residual_norm = norm(residual);
 
         if residual_norm < best_residual {
@@ -322,14 +322,14 @@ fn solve_with_sampler(
         let mut accepted = delta;
         let mut alpha = 1.0;
         for _ in 0..12 {
-            let trial = add(pos, scale(delta, alpha));
+            let trial = frame.step(pos, scale(delta, alpha));
             if norm(frame.residual(trial)) <= residual_norm || alpha <= 1.0 / 4096.0 {
                 accepted = scale(delta, alpha);
                 break;
             }
             alpha *= 0.5;
         }
-        pos = add(pos, accepted);
+        pos = frame.step(pos, accepted);
         last_step = norm(accepted);
         if last_step <= config.step_tolerance_km {
             return Ok(SolverSolution {
@@ -448,6 +448,47 @@ impl RotatingFrame {
         )
     }
 
+    /// Radial, along-orbit and normal axes at `pos`.
+    fn local_axes(&self, pos: Vec3) -> [Vec3; 3] {
+        let rho = sub(pos, self.origin);
+        let in_plane = sub(rho, scale(self.z_axis, dot(rho, self.z_axis)));
+        let radial = normalize(in_plane).unwrap_or(self.x_axis);
+        [radial, cross(self.z_axis, radial), self.z_axis]
+    }
+
+    /// Residual on the local axes. Around L3-L5 it is almost flat along the
+    /// orbit, which the Newton iteration can only follow in these axes.
+    fn local_residual(&self, pos: Vec3) -> Vec3 {
+        let residual = self.residual(pos);
+        self.local_axes(pos).map(|axis| dot(residual, axis))
+    }
+
+    /// Moves `pos` by `delta` given on the local axes, along the orbit as an arc.
+    fn step(&self, pos: Vec3, delta: Vec3) -> Vec3 {
+        let [radial, along, normal] = self.local_axes(pos);
+        let rho = sub(pos, self.origin);
+        let radius = dot(rho, radial);
+        if radius <= 0.0 {
+            return add(
+                pos,
+                add(
+                    scale(radial, delta[0]),
+                    add(scale(along, delta[1]), scale(normal, delta[2])),
+                ),
+            );
+        }
+        let (sin, cos) = (delta[1] / radius).sin_cos();
+        let new_radius = radius + delta[0];
+        let in_plane = add(
+            scale(radial, new_radius * cos),
+            scale(along, new_radius * sin),
+        );
+        add(
+            self.origin,
+            add(in_plane, scale(normal, dot(rho, normal) + delta[2])),
+        )
+    }
+
     fn seed(&self, point: SunEarthLagrangePoint) -> Vec3 {
         let rel = sub(self.earth, self.sun);
         let d = norm(rel);
@@ -539,12 +580,12 @@ fn grav_accel(pos: Vec3, bodies: &[(Vec3, f64); 3]) -> Vec3 {
 fn jacobian(frame: &RotatingFrame, pos: Vec3, h: f64) -> Mat3 {
     let mut jac = [[0.0; 3]; 3];
     for axis in 0..3 {
-        let mut plus = pos;
-        plus[axis] += h;
-        let mut minus = pos;
-        minus[axis] -= h;
+        let mut delta = [0.0; 3];
+        delta[axis] = h;
+        let plus = frame.step(pos, delta);
+        let minus = frame.step(pos, neg(delta));
         let diff = scale(
-            sub(frame.residual(plus), frame.residual(minus)),
+            sub(frame.local_residual(plus), frame.local_residual(minus)),
             1.0 / (2.0 * h),
         );
         for row in 0..3 {
-- 
2.43.0


From c352880016016ff537bbec4c8d417ef34f1c192d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:35 +0000
Subject: [PATCH 57/78] fix: keep fractional seconds, step and validity in CPF
 and CRD records

---
 src/formats/ilrs/cpf.rs | 78 ++++++++++++++++++-----------------------
 src/formats/ilrs/crd.rs | 27 ++++++++------
 2 files changed, 52 insertions(+), 53 deletions(-)

diff --git a/src/formats/ilrs/cpf.rs b/src/formats/ilrs/cpf.rs
index 812635b..1863ef2 100644
--- a/src/formats/ilrs/cpf.rs
+++ b/src/formats/ilrs/cpf.rs
@@ -38,13 +38,12 @@ use super::{FileLocation, FormatError, ParseMode};
 use affn::cartesian;
 use affn::centers::{AffineCenter, ReferenceCenter};
 use affn::frames::ITRF;
-use chrono::{DateTime, NaiveDate, Utc as ChronoUtc};
+use chrono::{DateTime, NaiveDate, TimeDelta, Utc as ChronoUtc};
 use qtty::unit::Kilometer;
-use qtty::Day;
 use std::fs;
 use std::io::Write;
 use std::path::Path;
-use tempoch::{ModifiedJulianDate, Time, UTC};
+use tempoch::{Time, UTC};
 
 // ── GeocentricCenter ──────────────────────────────────────────────────────────
 
@@ -289,11 +288,7 @@ pub fn write_cpf<W: Write>(f: &CpfFile, w: &mut W) -> Result<(), FormatError> {
         },
         f.sic,
         if f.norad.is_empty() { "0" } else { &f.norad },
-        if f.time_step_s > 0.0 {
-            format!("{}", f.time_step_s as u64)
-        } else {
-            "60".to_string()
-        },
+        f.time_step_s,
         f.reference_frame,
     )
     .map_err(FormatError::Io)?;
@@ -325,8 +320,12 @@ fn mjd_sod_from_epoch(epoch: Time<UTC>) -> (i64, f64) {
     let mjd_epoch =
         NaiveDate::from_ymd_opt(1858, 11, 17).expect("MJD epoch 1858-11-17 is a valid date");
     let mjd_int = dt.date_naive().signed_duration_since(mjd_epoch).num_days();
-    let sod = (dt.time().num_seconds_from_midnight() as f64)
-        + (dt.timestamp_subsec_nanos() as f64) * 1e-9;
+    // Whole milliseconds, the resolution of the record: an instant within half
+    // a millisecond of midnight belongs to the next day.
+    let ms = i64::from(dt.time().num_seconds_from_midnight()) * 1_000
+        + (i64::from(dt.timestamp_subsec_nanos()) + 500_000) / 1_000_000;
+    let mjd_int = mjd_int + ms / 86_400_000;
+    let sod = (ms % 86_400_000) as f64 / 1_000.0;
     (mjd_int, sod)
 }
 
@@ -394,10 +393,10 @@ fn parse_cpf_impl(
                 let rest: Vec<&str> = tokens.collect();
 
                 let maybe_mjd = rest.get(1).and_then(|s| s.parse::<i64>().ok());
-                let maybe_sod = rest.get(2).and_then(|s| s.parse::<f64>().ok());
-                let maybe_x = rest.get(4).and_then(|s| s.parse::<f64>().ok());
-                let maybe_y = rest.get(5).and_then(|s| s.parse::<f64>().ok());
-                let maybe_z = rest.get(6).and_then(|s| s.parse::<f64>().ok());
+                let maybe_sod = rest.get(2).and_then(|s| parse_finite(s));
+                let maybe_x = rest.get(4).and_then(|s| parse_finite(s));
+                let maybe_y = rest.get(5).and_then(|s| parse_finite(s));
+                let maybe_z = rest.get(6).and_then(|s| parse_finite(s));
 
                 let (mjd_i, sod, x_m, y_m, z_m) =
                     match (maybe_mjd, maybe_sod, maybe_x, maybe_y, maybe_z) {
@@ -434,12 +433,12 @@ fn parse_cpf_impl(
                         }
                     };
 
-                let mjd = ModifiedJulianDate::<UTC>::try_new(Day::new(mjd_i as f64))
-                    .map_err(|_| FormatError::Format(format!("CPF 10: invalid MJD {mjd_i}")))?;
-                let _ = (mjd, sod); // mjd parsed for validation; epoch built below
-
                 // Typed record: convert metres to km, compute epoch.
-                let epoch = build_epoch_from_mjd_sod(mjd_i, sod)?;
+                let epoch = match build_epoch_from_mjd_sod(mjd_i, sod) {
+                    Ok(epoch) => epoch,
+                    Err(err) if mode == ParseMode::Strict => return Err(err),
+                    Err(_) => continue,
+                };
                 out.ephemeris.entries.push(CpfEphemerisEntry {
                     epoch,
                     position: CpfCartesian::new(x_m / 1_000.0, y_m / 1_000.0, z_m / 1_000.0),
@@ -454,32 +453,25 @@ fn parse_cpf_impl(
     Ok(out)
 }
 
+/// Parse a finite real number.
+fn parse_finite(s: &str) -> Option<f64> {
+    s.parse::<f64>().ok().filter(|v| v.is_finite())
+}
+
 /// Build a `Time<UTC>` from an integer MJD and fractional seconds-of-day.
 fn build_epoch_from_mjd_sod(mjd_int: i64, sod: f64) -> Result<Time<UTC>, FormatError> {
-    // Convert MJD to calendar date, then to chrono, then add SOD.
-    // MJD 0 = 1858-11-17. MJD → Julian Day: JD = MJD + 2400000.5
-    // Use Julian Day Number arithmetic to get year/month/day.
-    let jd_whole = mjd_int + 2_400_001; // integer JD at noon of MJD day
-                                        // Algorithm from USNO (Fliegel & Van Flandern, 1968):
-    let l = jd_whole + 68_569;
-    let n = (4 * l) / 146_097;
-    let l2 = l - (146_097 * n + 3) / 4;
-    let i = (4_000 * (l2 + 1)) / 1_461_001;
-    let l3 = l2 - (1_461 * i) / 4 + 31;
-    let j = (80 * l3) / 2_447;
-    let day = l3 - (2_447 * j) / 80;
-    let l4 = j / 11;
-    let month = j + 2 - 12 * l4;
-    let year = 100 * (n - 49) + i + l4;
-
-    let sod_int = sod as u32;
-    let sod_nanos = ((sod - sod_int as f64) * 1e9).round() as u32;
-    let hour = sod_int / 3_600;
-    let minute = (sod_int % 3_600) / 60;
-    let second = sod_int % 60;
-
-    let naive = NaiveDate::from_ymd_opt(year as i32, month as u32, day as u32)
-        .and_then(|d| d.and_hms_nano_opt(hour, minute, second, sod_nanos))
+    if !(0.0..=86_400.0).contains(&sod) {
+        return Err(FormatError::Format(format!(
+            "CPF 10: seconds of day {sod} out of range"
+        )));
+    }
+    // MJD 0 = 1858-11-17. The seconds of day are counted in nanoseconds so
+    // that a fraction rounding up to a whole second carries.
+    let naive = NaiveDate::from_ymd_opt(1858, 11, 17)
+        .zip(TimeDelta::try_days(mjd_int))
+        .and_then(|(d, days)| d.checked_add_signed(days))
+        .and_then(|d| d.and_hms_opt(0, 0, 0))
+        .and_then(|t| t.checked_add_signed(TimeDelta::nanoseconds((sod * 1e9).round() as i64)))
         .ok_or_else(|| FormatError::Format(format!("CPF 10: invalid date from MJD {mjd_int}")))?;
     let dt: DateTime<ChronoUtc> = DateTime::from_naive_utc_and_offset(naive, ChronoUtc);
     Time::<UTC>::try_from_chrono(dt)
diff --git a/src/formats/ilrs/crd.rs b/src/formats/ilrs/crd.rs
index b9a0c4d..7f6d260 100644
--- a/src/formats/ilrs/crd.rs
+++ b/src/formats/ilrs/crd.rs
@@ -35,7 +35,7 @@
 //! - Pearlman, M. R., Noll, C. E., et al. (2019). The ILRS: Current status
 //!   and future prospects. Journal of Geodesy, 93, 2161–2180.
 use super::{FileLocation, FormatError, ParseMode};
-use chrono::{DateTime, NaiveDate, Utc as ChronoUtc};
+use chrono::{DateTime, NaiveDate, TimeDelta, Utc as ChronoUtc};
 use qtty::length::Meters;
 use qtty::time::Seconds;
 use std::fs;
@@ -249,6 +249,11 @@ pub fn parse_crd_with_mode(text: &str, mode: ParseMode) -> Result<CrdFile, Forma
 
 // ── Internal parser ───────────────────────────────────────────────────────────
 
+/// Parse a finite real number.
+fn parse_finite(s: &str) -> Option<f64> {
+    s.parse::<f64>().ok().filter(|v| v.is_finite())
+}
+
 fn parse_crd_impl(
     text: &str,
     mode: ParseMode,
@@ -348,8 +353,8 @@ fn parse_crd_impl(
                 let tof_str = tokens.next();
 
                 let (sod, tof) = match (
-                    sod_str.and_then(|s| s.parse::<f64>().ok()),
-                    tof_str.and_then(|s| s.parse::<f64>().ok()),
+                    sod_str.and_then(parse_finite),
+                    tof_str.and_then(parse_finite),
                 ) {
                     (Some(s), Some(t)) => (s, t),
                     (None, _) => {
@@ -385,13 +390,15 @@ fn parse_crd_impl(
                     // Build epoch directly from H4 date + SOD components to
                     // avoid floating-point precision loss in the JD round-trip.
                     let epoch = h4_date.and_then(|(y, mo, d)| {
-                        let whole = sod as i64;
-                        let subsec_nanos = ((sod - whole as f64) * 1_000_000_000.0).round() as u32;
-                        let hh = (whole / 3600) as u32;
-                        let mm = ((whole % 3600) / 60) as u32;
-                        let ss = (whole % 60) as u32;
+                        if !(0.0..=86_400.0).contains(&sod) {
+                            return None;
+                        }
+                        // Counted in nanoseconds so that a fraction rounding
+                        // up to a whole second carries.
+                        let nanos = TimeDelta::nanoseconds((sod * 1e9).round() as i64);
                         let naive = NaiveDate::from_ymd_opt(y, mo, d)
-                            .and_then(|nd| nd.and_hms_nano_opt(hh, mm, ss, subsec_nanos))?;
+                            .and_then(|nd| nd.and_hms_opt(0, 0, 0))
+                            .and_then(|t| t.checked_add_signed(nanos))?;
                         let dt = DateTime::from_naive_utc_and_offset(naive, ChronoUtc);
                         Time::<UTC>::try_from_chrono(dt).ok()
                     });
@@ -416,7 +423,7 @@ fn parse_crd_impl(
                         .get(6)
                         .and_then(|s| s.parse::<f64>().ok())
                         .map(|ps| Meters::new(ps * 1e-12 * SPEED_OF_LIGHT_M_S / 2.0));
-                    let return_rate: Option<f64> = rest.get(9).and_then(|s| s.parse().ok());
+                    let return_rate: Option<f64> = rest.get(10).and_then(|s| s.parse().ok());
 
                     out.normal_points.push(NormalPoint {
                         seconds_of_day: Seconds::new(sod),
-- 
2.43.0


From 1340de5058abfdf3c9d2ca7ca8ac372d26653be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:35 +0000
Subject: [PATCH 58/78] fix: decode CPR at the poles and absent ADS-B
 velocities correctly

---
 src/formats/adsb/cpr.rs | 60 ++++++++++++++++++++++-------------------
 src/formats/adsb/mod.rs | 55 ++++++++++++++++++++++---------------
 2 files changed, 66 insertions(+), 49 deletions(-)

diff --git a/src/formats/adsb/cpr.rs b/src/formats/adsb/cpr.rs
index 0b051bf..a56bd69 100644
--- a/src/formats/adsb/cpr.rs
+++ b/src/formats/adsb/cpr.rs
@@ -42,9 +42,12 @@ fn dlat(odd: bool) -> f64 {
 ///
 /// Based on DO-260B eq. 2-15 / Sun 2021 eq. 4.13.
 fn nl(lat: f64) -> f64 {
-    if lat.abs() >= 87.0 {
+    if lat.abs() > 87.0 {
         return 1.0;
     }
+    if lat.abs() == 87.0 {
+        return 2.0;
+    }
     let cos_lat = lat.to_radians().cos();
     let numer = 1.0 - (std::f64::consts::PI / (2.0 * NZ)).cos();
     let arg = 1.0 - numer / (cos_lat * cos_lat);
@@ -53,6 +56,17 @@ fn nl(lat: f64) -> f64 {
     n.clamp(1.0, 59.0)
 }
 
+/// Longitude folded into `[-180, 180)`.
+fn wrap_longitude(lon: f64) -> f64 {
+    if lon >= 180.0 {
+        lon - 360.0
+    } else if lon < -180.0 {
+        lon + 360.0
+    } else {
+        lon
+    }
+}
+
 /// Decode a globally-unambiguous geodetic position from an even and odd
 /// CPR frame pair.
 ///
@@ -72,7 +86,8 @@ fn nl(lat: f64) -> f64 {
 /// # Errors
 ///
 /// [`FormatError`] when the even/odd pair is inconsistent (NL mismatch —
-/// meaning the pair is too old and straddles a latitude zone boundary).
+/// meaning the pair is too old and straddles a latitude zone boundary — or a
+/// latitude beyond the poles).
 ///
 /// # Examples
 ///
@@ -102,6 +117,15 @@ pub fn decode_globally(
     let lat_e = if lat_e >= 270.0 { lat_e - 360.0 } else { lat_e };
     let lat_o = if lat_o >= 270.0 { lat_o - 360.0 } else { lat_o };
 
+    // The poles are on both grids, up to rounding.
+    if lat_e.abs() > 90.0 + 1e-9 || lat_o.abs() > 90.0 + 1e-9 {
+        return Err(FormatError::located(
+            "ADS-B DO-260B §2.2.3.2.6",
+            FileLocation::default(),
+            "inconsistent even/odd frame pair: latitude beyond a pole",
+        ));
+    }
+
     // NL check: both frames must be in the same latitude band
     if (nl(lat_e) - nl(lat_o)).abs() > 0.5 {
         return Err(FormatError::located(
@@ -114,31 +138,14 @@ pub fn decode_globally(
     let lat = if odd_is_latest { lat_o } else { lat_e };
     let nl_lat = nl(lat);
 
-    let (lon, lon_ref) = if odd_is_latest {
-        let dlon = if nl_lat <= 1.0 {
-            360.0
-        } else {
-            360.0 / (nl_lat - 1.0)
-        };
-        let m = (lon0 as f64 * (nl_lat - 1.0) / 131_072.0 - lon1 as f64 * nl_lat / 131_072.0 + 0.5)
-            .floor();
-        (
-            dlon * (m.rem_euclid(nl_lat - 1.0) + lon1 as f64 / 131_072.0),
-            lat_o,
-        )
+    let m =
+        (lon0 as f64 * (nl_lat - 1.0) / 131_072.0 - lon1 as f64 * nl_lat / 131_072.0 + 0.5).floor();
+    let (n_lon, cpr_lon) = if odd_is_latest {
+        ((nl_lat - 1.0).max(1.0), lon1)
     } else {
-        let dlon = if nl_lat < 1.0 { 360.0 } else { 360.0 / nl_lat };
-        let m = (lon0 as f64 * (nl_lat - 1.0) / 131_072.0 - lon1 as f64 * nl_lat / 131_072.0 + 0.5)
-            .floor();
-        (
-            dlon * (m.rem_euclid(nl_lat) + lon0 as f64 / 131_072.0),
-            lat_e,
-        )
+        (nl_lat, lon0)
     };
-
-    let _ = lon_ref; // used implicitly in lat selection above
-
-    let lon = if lon >= 180.0 { lon - 360.0 } else { lon };
+    let lon = wrap_longitude(360.0 / n_lon * (m.rem_euclid(n_lon) + cpr_lon as f64 / 131_072.0));
 
     Ok((Degrees::new(lat), Degrees::new(lon)))
 }
@@ -187,8 +194,7 @@ pub fn decode_locally(
     };
     let d_lon = 360.0 / n_lon;
     let m = (ref_lon / d_lon - cpr_lon as f64 / 131_072.0 + 0.5).floor();
-    let lon = d_lon * (m + cpr_lon as f64 / 131_072.0);
-    let lon = if lon >= 180.0 { lon - 360.0 } else { lon };
+    let lon = wrap_longitude(d_lon * (m + cpr_lon as f64 / 131_072.0));
 
     Ok((Degrees::new(lat), Degrees::new(lon)))
 }
diff --git a/src/formats/adsb/mod.rs b/src/formats/adsb/mod.rs
index f60d019..63f24f6 100644
--- a/src/formats/adsb/mod.rs
+++ b/src/formats/adsb/mod.rs
@@ -383,34 +383,45 @@ pub fn decode_airborne_velocity(frame: &AdsbFrame) -> Result<AirborneVelocityMes
     let sub_type = me[0] & 0x07;
     // Sub-types 1 and 2: ground-speed-based velocity
     if sub_type == 1 || sub_type == 2 {
-        let sign_ew: f64 = if (me[1] & 0x04) != 0 { -1.0 } else { 1.0 };
-        let v_ew = (((me[1] as u16 & 0x03) << 8) | me[2] as u16) as f64 - 1.0;
-        let sign_ns: f64 = if (me[3] & 0x80) != 0 { -1.0 } else { 1.0 };
-        let v_ns = (((me[3] as u16 & 0x7F) << 3) | (me[4] >> 5) as u16) as f64 - 1.0;
+        // Every component is coded as magnitude + 1; 0 means "not available".
+        let component = |negative: bool, raw: u16| {
+            raw.checked_sub(1).map(|v| {
+                if negative {
+                    -f64::from(v)
+                } else {
+                    f64::from(v)
+                }
+            })
+        };
+        let v_ew = component(
+            (me[1] & 0x04) != 0,
+            ((me[1] as u16 & 0x03) << 8) | me[2] as u16,
+        );
+        let v_ns = component(
+            (me[3] & 0x80) != 0,
+            ((me[3] as u16 & 0x7F) << 3) | (me[4] >> 5) as u16,
+        );
 
         // Convert knots → m/s (1 knot = 0.514444 m/s)
         let scale: f64 = if sub_type == 2 { 4.0 } else { 1.0 };
-        let vew_mps = sign_ew * v_ew * scale * 0.514_444;
-        let vns_mps = sign_ns * v_ns * scale * 0.514_444;
-
-        let gs = (vew_mps * vew_mps + vns_mps * vns_mps).sqrt();
-        let heading = if v_ew == 0.0 && v_ns == 0.0 {
-            None
-        } else {
-            let track_deg = vew_mps.atan2(vns_mps).to_degrees().rem_euclid(360.0);
-            Some(Degrees::new(track_deg))
-        };
-
-        // Vertical rate: bits 30–38 of ME
-        let vr_sign: f64 = if (me[4] & 0x08) != 0 { -1.0 } else { 1.0 };
-        let vr_raw = (((me[4] as u16 & 0x07) << 6) | (me[5] >> 2) as u16) as f64 - 1.0;
-        let vr_fpm = vr_sign * vr_raw * 64.0; // feet per minute
-        let vr_mps = vr_fpm * 0.00508; // fpm → m/s
+        let velocity = v_ew
+            .zip(v_ns)
+            .map(|(ew, ns)| (ew * scale * 0.514_444, ns * scale * 0.514_444));
+        let heading = velocity
+            .filter(|&(ew, ns)| ew != 0.0 || ns != 0.0)
+            .map(|(ew, ns)| Degrees::new(ew.atan2(ns).to_degrees().rem_euclid(360.0)));
+
+        // Vertical rate: bits 37–46 of ME, in units of 64 feet per minute
+        let vertical_rate = component(
+            (me[4] & 0x08) != 0,
+            ((me[4] as u16 & 0x07) << 6) | (me[5] >> 2) as u16,
+        );
 
         return Ok(AirborneVelocityMessage {
             heading,
-            ground_speed_mps: Some(MetersPerSecond::new(gs)),
-            vertical_rate_mps: Some(MetersPerSecond::new(vr_mps)),
+            ground_speed_mps: velocity.map(|(ew, ns)| MetersPerSecond::new(ew.hypot(ns))),
+            // fpm → m/s
+            vertical_rate_mps: vertical_rate.map(|v| MetersPerSecond::new(v * 64.0 * 0.00508)),
         });
     }
     Err(FormatError::located(
-- 
2.43.0


From 4e870dbd1ccc4d445e74749e60116587c4da4706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:35 +0000
Subject: [PATCH 59/78] fix: read text-kernel assignments as the standard
 writes them

---
 src/formats/spice/text.rs | 99 +++++++++++++++++++++++++++------------
 1 file changed, 70 insertions(+), 29 deletions(-)

diff --git a/src/formats/spice/text.rs b/src/formats/spice/text.rs
index 42ad81f..91f6653 100644
--- a/src/formats/spice/text.rs
+++ b/src/formats/spice/text.rs
@@ -59,17 +59,18 @@ impl TextKernel {
         let mut kernel = Self::default();
         let mut in_data = false;
         let mut statement = String::new();
+        let mut progress = StatementProgress::default();
 
         for raw_line in src.lines() {
             let trimmed = raw_line.trim();
             if trimmed.eq_ignore_ascii_case("\\begindata") {
                 in_data = true;
-                statement.clear();
+                end_block(&statement)?;
                 continue;
             }
             if trimmed.eq_ignore_ascii_case("\\begintext") {
                 in_data = false;
-                statement.clear();
+                end_block(&statement)?;
                 continue;
             }
             if !in_data {
@@ -90,7 +91,7 @@ impl TextKernel {
             }
             statement.push_str(clean);
 
-            if !statement_complete(&statement) {
+            if !progress.complete_after(clean) {
                 continue;
             }
 
@@ -99,11 +100,7 @@ impl TextKernel {
             statement.clear();
         }
 
-        if !statement.trim().is_empty() {
-            return Err(SpiceError::FormatParse(
-                "unterminated text-kernel assignment".to_string(),
-            ));
-        }
+        end_block(&statement)?;
 
         Ok(kernel)
     }
@@ -147,31 +144,50 @@ fn strip_comment_fragments(line: &str) -> String {
     out
 }
 
-fn statement_complete(statement: &str) -> bool {
-    let mut paren_depth = 0_i32;
-    let mut quote = None;
-    for ch in statement.chars() {
-        if let Some(active) = quote {
-            if ch == active {
-                quote = None;
+/// A data block must not end inside an assignment.
+fn end_block(statement: &str) -> Result<(), SpiceError> {
+    if statement.trim().is_empty() {
+        return Ok(());
+    }
+    Err(SpiceError::FormatParse(
+        "unterminated text-kernel assignment".to_string(),
+    ))
+}
+
+/// Open quotes and parentheses of the assignment being collected.
+#[derive(Default)]
+struct StatementProgress {
+    paren_depth: i32,
+    quote: Option<char>,
+}
+
+impl StatementProgress {
+    /// Whether the assignment is complete once `text` has been appended to it.
+    fn complete_after(&mut self, text: &str) -> bool {
+        for ch in text.chars() {
+            if let Some(active) = self.quote {
+                if ch == active {
+                    self.quote = None;
+                }
+                continue;
+            }
+            match ch {
+                '\'' | '"' => self.quote = Some(ch),
+                '(' => self.paren_depth += 1,
+                ')' => self.paren_depth -= 1,
+                _ => {}
             }
-            continue;
-        }
-        match ch {
-            '\'' | '"' => quote = Some(ch),
-            '(' => paren_depth += 1,
-            ')' => paren_depth -= 1,
-            _ => {}
         }
+        self.quote.is_none() && self.paren_depth == 0
     }
-    quote.is_none() && paren_depth == 0
 }
 
 fn parse_assignment(statement: &str) -> Result<(String, bool, TextValue), SpiceError> {
-    let (key, value, append) = if let Some(idx) = statement.find("+=") {
-        (&statement[..idx], &statement[idx + 2..], true)
-    } else if let Some(idx) = statement.find('=') {
-        (&statement[..idx], &statement[idx + 1..], false)
+    let (key, value, append) = if let Some((key, value)) = statement.split_once('=') {
+        match key.strip_suffix('+') {
+            Some(key) => (key, value, true),
+            None => (key, value, false),
+        }
     } else {
         return Err(SpiceError::FormatParse(format!(
             "text kernel assignment missing '=': {statement}"
@@ -271,14 +287,22 @@ fn flatten_i64(values: &[TextValue]) -> Option<Vec<i64>> {
     Some(out)
 }
 
+/// Deepest nesting of parenthesised arrays accepted.
+const MAX_NESTING: usize = 64;
+
 struct ValueParser<'a> {
     src: &'a str,
     index: usize,
+    depth: usize,
 }
 
 impl<'a> ValueParser<'a> {
     fn new(src: &'a str) -> Self {
-        Self { src, index: 0 }
+        Self {
+            src,
+            index: 0,
+            depth: 0,
+        }
     }
 
     fn parse_value(&mut self) -> Result<TextValue, SpiceError> {
@@ -297,6 +321,12 @@ impl<'a> ValueParser<'a> {
 
     fn parse_array(&mut self) -> Result<TextValue, SpiceError> {
         self.bump();
+        self.depth += 1;
+        if self.depth > MAX_NESTING {
+            return Err(SpiceError::FormatParse(
+                "text-kernel arrays nested too deeply".to_string(),
+            ));
+        }
         let mut values = Vec::new();
         loop {
             self.skip_delimiters();
@@ -313,6 +343,7 @@ impl<'a> ValueParser<'a> {
                 }
             }
         }
+        self.depth -= 1;
         Ok(TextValue::Array(values))
     }
 
@@ -323,7 +354,11 @@ impl<'a> ValueParser<'a> {
         let mut out = String::new();
         while let Some(ch) = self.bump() {
             if ch == quote {
-                return Ok(TextValue::Text(out));
+                // A doubled delimiter stands for the delimiter itself.
+                if self.peek() != Some(quote) {
+                    return Ok(TextValue::Text(out));
+                }
+                self.bump();
             }
             out.push(ch);
         }
@@ -381,6 +416,12 @@ fn parse_scalar(token: &str) -> TextValue {
     if let Ok(value) = token.parse::<f64>() {
         return TextValue::Float(value);
     }
+    // Fortran double-precision exponents: 1.657D-3.
+    if token.starts_with(|ch: char| ch.is_ascii_digit() || "+-.".contains(ch)) {
+        if let Ok(value) = token.replacen(['d', 'D'], "E", 1).parse::<f64>() {
+            return TextValue::Float(value);
+        }
+    }
     TextValue::Text(token.to_string())
 }
 
-- 
2.43.0


From 4af11b45297b0204ce73e647c48db62a42d506fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:35 +0000
Subject: [PATCH 60/78] fix: refuse damaged kernels instead of panicking

---
 src/formats/iers/eop.rs      |  4 ++--
 src/formats/sck.rs           |  2 +-
 src/formats/spice/ck.rs      |  5 +++++
 src/formats/spice/lsk.rs     | 12 ++++++++++++
 src/formats/spice/pck.rs     | 13 +++++++++----
 src/formats/spice/segment.rs |  4 ++--
 src/formats/spice/spk.rs     |  2 +-
 src/spice/context.rs         | 17 +++++++++++++----
 src/spice/frame_registry.rs  |  5 +++++
 9 files changed, 50 insertions(+), 14 deletions(-)

diff --git a/src/formats/iers/eop.rs b/src/formats/iers/eop.rs
index eaf628e..505b39c 100644
--- a/src/formats/iers/eop.rs
+++ b/src/formats/iers/eop.rs
@@ -86,8 +86,8 @@ pub fn read_eop_c04<R: Read>(rdr: R) -> Result<Vec<EopRecord>, FormatError> {
             continue;
         }
         let mjd_raw: f64 = match parts[3].parse() {
-            Ok(v) => v,
-            Err(_) => continue,
+            Ok(v) if f64::is_finite(v) => v,
+            _ => continue,
         };
         let mjd = match ModifiedJulianDate::<UTC>::try_new(Day::new(mjd_raw)) {
             Ok(m) => m,
diff --git a/src/formats/sck.rs b/src/formats/sck.rs
index e5bad07..5377b3e 100644
--- a/src/formats/sck.rs
+++ b/src/formats/sck.rs
@@ -104,7 +104,7 @@ pub fn parse_sck(bytes: &[u8]) -> Result<SckKernel, FormatError> {
             )
         })?;
     let payload = &bytes[SCK_HEADER_LEN..];
-    if payload.len() != expected * 8 {
+    if expected.checked_mul(8) != Some(payload.len()) {
         return Err(FormatError::located(
             "SCK v1 §payload",
             FileLocation::default(),
diff --git a/src/formats/spice/ck.rs b/src/formats/spice/ck.rs
index f2b7b22..2afc070 100644
--- a/src/formats/spice/ck.rs
+++ b/src/formats/spice/ck.rs
@@ -203,6 +203,11 @@ fn read_type1_segment(
             "CK segment has an invalid word range".to_string(),
         ));
     }
+    if start_word == 0 || end_word > daf.bytes().len() / 8 {
+        return Err(SpiceError::FormatParse(format!(
+            "CK segment words {start_word}..{end_word} lie outside the file"
+        )));
+    }
     let n_records_raw = daf.read_f64_at_word(end_word);
     if !n_records_raw.is_finite() || n_records_raw < 1.0 {
         return Err(SpiceError::FormatParse(format!(
diff --git a/src/formats/spice/lsk.rs b/src/formats/spice/lsk.rs
index 094ffb7..19f2ee2 100644
--- a/src/formats/spice/lsk.rs
+++ b/src/formats/spice/lsk.rs
@@ -139,6 +139,18 @@ fn parse_epoch_text(text: &str) -> Result<f64, SpiceError> {
         .parse::<i32>()
         .map_err(|_| SpiceError::FormatParse(format!("bad LSK day in '{trimmed}'")))?;
 
+    let days_in_month = match month {
+        4 | 6 | 9 | 11 => 30,
+        2 if year % 4 == 0 => 29,
+        2 => 28,
+        _ => 31,
+    };
+    // The day-number formula below holds from March 1900 to February 2100.
+    if !(1901..=2099).contains(&year) || !(1..=days_in_month).contains(&day) {
+        return Err(SpiceError::FormatParse(format!(
+            "LSK epoch '{trimmed}' is out of range"
+        )));
+    }
     let jd = gregorian_to_jd(year, month, day);
     Ok((jd - 2_451_545.0) * 86_400.0)
 }
diff --git a/src/formats/spice/pck.rs b/src/formats/spice/pck.rs
index 42d20c8..1d3a4c1 100644
--- a/src/formats/spice/pck.rs
+++ b/src/formats/spice/pck.rs
@@ -39,13 +39,18 @@ pub struct BodyOrientation {
 impl BodyOrientation {
     /// Rotation matrix from body-fixed frame to J2000 at epoch `tdb_s`.
     ///
-    /// Uses first-order IAU pole RA/Dec/PM, ignoring nutation terms.
+    /// Uses first-order IAU pole RA/Dec/PM, ignoring nutation terms. All elements
+    /// are NaN when the kernel gives no pole or prime meridian for the body.
     pub fn rotation_to_j2000(&self, tdb_s: f64) -> [[f64; 3]; 3] {
         let t = tdb_s / (36_525.0 * 86_400.0);
         let d = tdb_s / 86_400.0;
-        let ra_deg = self.pole_ra[0] + self.pole_ra.get(1).copied().unwrap_or(0.0) * t;
-        let dec_deg = self.pole_dec[0] + self.pole_dec.get(1).copied().unwrap_or(0.0) * t;
-        let w_deg = self.pm[0] + self.pm.get(1).copied().unwrap_or(0.0) * d;
+        let linear = |coefficients: &[f64], x: f64| {
+            coefficients.first().copied().unwrap_or(f64::NAN)
+                + coefficients.get(1).copied().unwrap_or(0.0) * x
+        };
+        let ra_deg = linear(&self.pole_ra, t);
+        let dec_deg = linear(&self.pole_dec, t);
+        let w_deg = linear(&self.pm, d);
 
         let ra = ra_deg.to_radians();
         let dec = dec_deg.to_radians();
diff --git a/src/formats/spice/segment.rs b/src/formats/spice/segment.rs
index 3927065..22c2237 100644
--- a/src/formats/spice/segment.rs
+++ b/src/formats/spice/segment.rs
@@ -566,7 +566,7 @@ fn read_discrete_states(
     let interpolation_size = match data_type {
         9 => {
             let degree = descriptor;
-            if degree == 0 || degree + 1 > n_records || degree > 31 {
+            if degree == 0 || degree >= n_records || degree > 31 {
                 return Err(SpiceError::Parse {
                     message: format!(
                         "SPK Type 9 invalid Lagrange degree {degree} for {n_records} records"
@@ -576,7 +576,7 @@ fn read_discrete_states(
             degree
         }
         13 => {
-            let samples = descriptor + 1;
+            let samples = descriptor.saturating_add(1);
             if samples < 2 || samples > n_records || samples > 16 {
                 return Err(SpiceError::Parse {
                     message: format!(
diff --git a/src/formats/spice/spk.rs b/src/formats/spice/spk.rs
index 813f5ab..b62fc4d 100644
--- a/src/formats/spice/spk.rs
+++ b/src/formats/spice/spk.rs
@@ -128,7 +128,7 @@ pub fn read_segment(
             summary.end_word, summary.start_word
         )));
     }
-    if summary.end_word < summary.start_word + 3 {
+    if summary.end_word - summary.start_word < 3 {
         return Err(SpiceError::FormatParse(format!(
             "SPK summary span too small for trailer (start={}, end={})",
             summary.start_word, summary.end_word
diff --git a/src/spice/context.rs b/src/spice/context.rs
index 0dd4e1f..13ae3a2 100644
--- a/src/spice/context.rs
+++ b/src/spice/context.rs
@@ -164,8 +164,9 @@ impl SpiceContext {
         if from_id == to_id {
             return Ok(identity_3x3());
         }
-        let from_to_j2000 = self.frame_to_j2000(from_id, epoch_tdb_s)?;
-        let to_to_j2000 = self.frame_to_j2000(to_id, epoch_tdb_s)?;
+        let max_depth = self.frame_registry.len();
+        let from_to_j2000 = self.frame_to_j2000(from_id, epoch_tdb_s, max_depth)?;
+        let to_to_j2000 = self.frame_to_j2000(to_id, epoch_tdb_s, max_depth)?;
         Ok(mat3_mul(mat3_transpose(to_to_j2000), from_to_j2000))
     }
 
@@ -231,6 +232,7 @@ impl SpiceContext {
         &self,
         frame_id: i32,
         epoch_tdb_s: f64,
+        depth_left: usize,
     ) -> Result<[[f64; 3]; 3], SpiceContextError> {
         if frame_id == 1 {
             return Ok(identity_3x3());
@@ -246,7 +248,12 @@ impl SpiceContext {
                 .frame_registry
                 .frame_by_name(relative_name)
                 .map_err(spice_error_to_context)?;
-            let relative_to_j2000 = self.frame_to_j2000(relative.id, epoch_tdb_s)?;
+            let depth_left = depth_left.checked_sub(1).ok_or_else(|| {
+                SpiceContextError::UnsupportedKernelQuery {
+                    message: format!("frame {frame_id} is defined relative to itself"),
+                }
+            })?;
+            let relative_to_j2000 = self.frame_to_j2000(relative.id, epoch_tdb_s, depth_left)?;
             return Ok(mat3_mul(relative_to_j2000, *matrix));
         }
 
@@ -272,7 +279,9 @@ impl SpiceContext {
         epoch_tdb_s: f64,
     ) -> Result<[[f64; 3]; 3], SpiceContextError> {
         for pck in self.kernel_set.pck_text_kernels().rev() {
-            if let Some(orientation) = pck.body(body_id) {
+            if let Some(orientation) = pck.body(body_id).filter(|body| {
+                !(body.pole_ra.is_empty() || body.pole_dec.is_empty() || body.pm.is_empty())
+            }) {
                 return Ok(orientation.rotation_to_j2000(epoch_tdb_s));
             }
         }
diff --git a/src/spice/frame_registry.rs b/src/spice/frame_registry.rs
index ce0ae15..d87fdf6 100644
--- a/src/spice/frame_registry.rs
+++ b/src/spice/frame_registry.rs
@@ -34,6 +34,11 @@ impl FrameRegistry {
         Self::default()
     }
 
+    /// Number of frame definitions held.
+    pub(super) fn len(&self) -> usize {
+        self.frames.len()
+    }
+
     /// Add all frames from an FK kernel.
     pub fn add_fk(&mut self, fk: &FrameKernel) {
         self.frames.extend(fk.frames.iter().cloned());
-- 
2.43.0


From 10abaa81e98b05e78c5d71f915272710dc8aa74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:28 +0000
Subject: [PATCH 61/78] fix: later CK segments take precedence and one
 uncovered segment does not end the search

---
 src/formats/spice/ck.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/formats/spice/ck.rs b/src/formats/spice/ck.rs
index 2afc070..7a25feb 100644
--- a/src/formats/spice/ck.rs
+++ b/src/formats/spice/ck.rs
@@ -153,7 +153,8 @@ impl CkKernel {
     /// Return the rotation quaternion for instrument `inst_id` at SCLK ticks `sclkdp`.
     pub fn rotation(&self, inst_id: i32, sclkdp: f64) -> Result<[f64; 4], SpiceError> {
         let mut coverage: Option<(f64, f64)> = None;
-        for segment in &self.segments {
+        // Later segments of a kernel take precedence over earlier ones.
+        for segment in self.segments.iter().rev() {
             if segment.inst_id != inst_id {
                 continue;
             }
@@ -164,7 +165,10 @@ impl CkKernel {
                 None => (segment.start_sclkdp, segment.end_sclkdp),
             });
             if sclkdp >= segment.start_sclkdp && sclkdp <= segment.end_sclkdp {
-                return segment.evaluate(sclkdp);
+                match segment.evaluate(sclkdp) {
+                    Err(SpiceError::OutOfCoverage { .. }) => continue,
+                    result => return result,
+                }
             }
         }
 
-- 
2.43.0


From 615b4637e5b6422c33122e05294b9bfb8a61cdb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:28 +0000
Subject: [PATCH 62/78] fix: read TKFRAME matrices column by column as the FK
 standard stores them

---
 src/formats/spice/fk.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/formats/spice/fk.rs b/src/formats/spice/fk.rs
index 560757a..9ab48ec 100644
--- a/src/formats/spice/fk.rs
+++ b/src/formats/spice/fk.rs
@@ -39,7 +39,7 @@ pub enum FrameClass {
 /// TK-frame specification.
 #[derive(Debug, Clone)]
 pub enum TkSpec {
-    /// Constant 3×3 rotation matrix, row-major.
+    /// Constant 3×3 rotation matrix from the frame to its base frame, row-major.
     Matrix([[f64; 3]; 3]),
 }
 
@@ -138,10 +138,11 @@ impl FrameKernel {
                         )?
                         .to_ascii_uppercase();
                         Some((
+                            // The kernel lists the matrix column by column.
                             TkSpec::Matrix([
-                                [values[0], values[1], values[2]],
-                                [values[3], values[4], values[5]],
-                                [values[6], values[7], values[8]],
+                                [values[0], values[3], values[6]],
+                                [values[1], values[4], values[7]],
+                                [values[2], values[5], values[8]],
                             ]),
                             relative,
                         ))
-- 
2.43.0


From 9a499b4bbdf57d85d27559297d093d3b93d8effa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:28 +0000
Subject: [PATCH 63/78] fix: honour FOV angle units of instrument kernels

---
 src/formats/spice/ik.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/formats/spice/ik.rs b/src/formats/spice/ik.rs
index af16fd8..960bfff 100644
--- a/src/formats/spice/ik.rs
+++ b/src/formats/spice/ik.rs
@@ -105,14 +105,21 @@ impl IkKernel {
                     }
                 })
                 .transpose()?;
+            let degrees_per_unit = kernel
+                .get(&format!("INS{inst_id}_FOV_ANGLE_UNITS"))
+                .map(|value| angle_unit(value, &format!("INS{inst_id}_FOV_ANGLE_UNITS")))
+                .transpose()?
+                .unwrap_or(1.0);
             let fov_ref_angle = kernel
                 .get(&format!("INS{inst_id}_FOV_REF_ANGLE"))
                 .map(|value| scalar_value(value, &format!("INS{inst_id}_FOV_REF_ANGLE")))
-                .transpose()?;
+                .transpose()?
+                .map(|angle| angle * degrees_per_unit);
             let fov_cross_angle = kernel
                 .get(&format!("INS{inst_id}_FOV_CROSS_ANGLE"))
                 .map(|value| scalar_value(value, &format!("INS{inst_id}_FOV_CROSS_ANGLE")))
-                .transpose()?;
+                .transpose()?
+                .map(|angle| angle * degrees_per_unit);
 
             instruments.push(InstrumentKernel {
                 inst_id,
@@ -155,6 +162,19 @@ fn text_value<'a>(value: &'a TextValue, key: &str) -> Result<&'a str, SpiceError
     }
 }
 
+/// Degrees in one unit of the angles of a field of view.
+fn angle_unit(value: &TextValue, key: &str) -> Result<f64, SpiceError> {
+    match text_value(value, key)?.to_ascii_uppercase().as_str() {
+        "DEGREES" => Ok(1.0),
+        "RADIANS" => Ok(1.0_f64.to_degrees()),
+        "ARCMINUTES" => Ok(1.0 / 60.0),
+        "ARCSECONDS" => Ok(1.0 / 3600.0),
+        other => Err(SpiceError::FormatParse(format!(
+            "{key}: unsupported angle unit '{other}'"
+        ))),
+    }
+}
+
 fn scalar_value(value: &TextValue, key: &str) -> Result<f64, SpiceError> {
     match value {
         TextValue::Integer(number) => Ok(*number as f64),
-- 
2.43.0


From 1923d7f704f063032f2fe76a66bc2ec1e11d05c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:28 +0000
Subject: [PATCH 64/78] fix: convert calendar leap-second epochs from UTC to
 TDB

---
 src/formats/spice/lsk.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/formats/spice/lsk.rs b/src/formats/spice/lsk.rs
index 19f2ee2..ab3ee03 100644
--- a/src/formats/spice/lsk.rs
+++ b/src/formats/spice/lsk.rs
@@ -62,7 +62,11 @@ impl LeapSecondKernel {
         let mut leap_table = Vec::with_capacity(delta_at.len() / 2);
         for pair in delta_at.chunks(2) {
             let delta = scalar_as_f64(&pair[0], "DELTET/DELTA_AT delta")?;
-            let epoch = epoch_as_j2000_seconds(&pair[1])?;
+            let epoch = match &pair[1] {
+                // A calendar epoch is UTC; the table is kept in TDB.
+                TextValue::Text(text) => parse_epoch_text(text)? + delta_t_a + delta,
+                value => epoch_as_j2000_seconds(value)?,
+            };
             leap_table.push((epoch, delta));
         }
         leap_table.sort_by(|left, right| left.0.total_cmp(&right.0));
@@ -106,9 +110,8 @@ fn epoch_as_j2000_seconds(value: &TextValue) -> Result<f64, SpiceError> {
     match value {
         TextValue::Integer(number) => Ok(*number as f64),
         TextValue::Float(number) => Ok(*number),
-        TextValue::Text(text) => parse_epoch_text(text),
-        TextValue::Array(_) => Err(SpiceError::FormatParse(
-            "LSK epoch entries cannot be arrays".to_string(),
+        TextValue::Text(_) | TextValue::Array(_) => Err(SpiceError::FormatParse(
+            "LSK epoch entries must be dates or numbers".to_string(),
         )),
     }
 }
-- 
2.43.0


From 1ab9d890295feba189f017ce648434dcba494767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:28 +0000
Subject: [PATCH 65/78] fix: orient body-fixed frames with the sense the PCK
 angles define

---
 src/formats/spice/pck.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/formats/spice/pck.rs b/src/formats/spice/pck.rs
index 1d3a4c1..3238d78 100644
--- a/src/formats/spice/pck.rs
+++ b/src/formats/spice/pck.rs
@@ -56,10 +56,11 @@ impl BodyOrientation {
         let dec = dec_deg.to_radians();
         let w = w_deg.to_radians();
 
+        // The transpose of the J2000 to body-fixed rotation R3(W) R1(90° − δ) R3(90° + α).
         mat3_mul(
             mat3_mul(
-                r3(std::f64::consts::FRAC_PI_2 + ra),
-                r1(std::f64::consts::FRAC_PI_2 - dec),
+                r3(-(std::f64::consts::FRAC_PI_2 + ra)),
+                r1(-(std::f64::consts::FRAC_PI_2 - dec)),
             ),
             r3(-w),
         )
-- 
2.43.0


From dc0314b4a5f1f792bb1b76d00a84ff33c847f405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:28 +0000
Subject: [PATCH 66/78] fix: derive the clock id sign and ticks per second of
 SCLK kernels

---
 src/formats/spice/sclk.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/formats/spice/sclk.rs b/src/formats/spice/sclk.rs
index 82e4783..054737c 100644
--- a/src/formats/spice/sclk.rs
+++ b/src/formats/spice/sclk.rs
@@ -72,17 +72,24 @@ impl SclkKernel {
                     "{key} must contain triples of (sclkdp, et, rate)"
                 )));
             }
+            // With the moduli of the clock known, rates are seconds per count of its most
+            // significant field, of which the encoded ticks are the least significant one.
+            let spacecraft = sc_id.unsigned_abs();
+            let ticks_per_count = kernel
+                .get_f64_array(&format!("SCLK01_MODULI_{spacecraft}"))
+                .map(|moduli| moduli.iter().skip(1).product::<f64>());
             let mut coefficients = Vec::with_capacity(values.len() / 3);
             for triple in values.chunks(3) {
                 coefficients.push(SclkCoeff {
                     sclkdp: triple[0],
                     et: triple[1],
-                    rate: triple[2],
+                    rate: ticks_per_count.map_or(triple[2], |ticks| ticks / triple[2]),
                 });
             }
             coefficients.sort_by(|left, right| left.et.total_cmp(&right.et));
+            // Clock items are labelled with the negative of the spacecraft ID.
             out.push(Self {
-                sc_id,
+                sc_id: if sc_id > 0 { -sc_id } else { sc_id },
                 coefficients,
             });
         }
-- 
2.43.0


From 2f4e07a954af58721e6461fa75a8573511add01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:28 +0000
Subject: [PATCH 67/78] fix: parse a text kernel completely before adding any
 of it to the pool

---
 src/spice/context.rs | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/spice/context.rs b/src/spice/context.rs
index 13ae3a2..02ee74f 100644
--- a/src/spice/context.rs
+++ b/src/spice/context.rs
@@ -120,26 +120,30 @@ impl SpiceContext {
             .keys()
             .any(|key| key.starts_with("INS") && key.contains("_FOV"));
 
-        if has_lsk {
-            self.kernel_set
-                .set_lsk(alias.clone(), LeapSecondKernel::from_text(text)?);
+        // Parse every part before adding any, so that a bad kernel leaves nothing behind.
+        let lsk = has_lsk
+            .then(|| LeapSecondKernel::from_text(text))
+            .transpose()?;
+        let fk = has_fk.then(|| FrameKernel::from_text(text)).transpose()?;
+        let pck = has_pck.then(|| PckKernel::from_text(text)).transpose()?;
+        let sclk = has_sclk.then(|| SclkKernel::from_text(text)).transpose()?;
+        let ik = has_ik.then(|| IkKernel::from_text(text)).transpose()?;
+
+        if let Some(lsk) = lsk {
+            self.kernel_set.set_lsk(alias.clone(), lsk);
         }
-        if has_fk {
-            let fk = FrameKernel::from_text(text)?;
+        if let Some(fk) = fk {
             self.frame_registry.add_fk(&fk);
             self.kernel_set.add_fk(alias.clone(), fk);
         }
-        if has_pck {
-            self.kernel_set
-                .add_pck_text(alias.clone(), PckKernel::from_text(text)?);
+        if let Some(pck) = pck {
+            self.kernel_set.add_pck_text(alias.clone(), pck);
         }
-        if has_sclk {
-            for sclk in SclkKernel::from_text(text)? {
-                self.kernel_set.add_sclk(alias.clone(), sclk);
-            }
+        for sclk in sclk.into_iter().flatten() {
+            self.kernel_set.add_sclk(alias.clone(), sclk);
         }
-        if has_ik {
-            self.kernel_set.add_ik(alias, IkKernel::from_text(text)?);
+        if let Some(ik) = ik {
+            self.kernel_set.add_ik(alias, ik);
         }
         Ok(())
     }
-- 
2.43.0


From d7b3740b0eb0aef8df677e1ff8dea0cc1de2da60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:29 +0000
Subject: [PATCH 68/78] fix: relativistic clock term of GNSS ranges in metres

---
 src/pod/observation/gnss_obs.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pod/observation/gnss_obs.rs b/src/pod/observation/gnss_obs.rs
index 7a8807e..446ff73 100644
--- a/src/pod/observation/gnss_obs.rs
+++ b/src/pod/observation/gnss_obs.rs
@@ -238,7 +238,8 @@ fn relativistic_gps_clock_m(pos_km: Position<GCRS>, vel_km_s: Velocity<GCRS>) ->
     let dot = pos_km.x().value() * vel_km_s.x().value()
         + pos_km.y().value() * vel_km_s.y().value()
         + pos_km.z().value() * vel_km_s.z().value();
-    -2.0 * dot * 1_000.0 / C.value()
+    // km²/s → m²/s
+    -2.0 * dot * 1.0e6 / C.value()
 }
 
 /// Compute geometric range (m) and receiver-to-satellite unit vector.
-- 
2.43.0


From 024212a6408a9a3c0764f958569e874138d50bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:27 +0000
Subject: [PATCH 69/78] fix: describe the written epochs in the SP3 product
 header

---
 src/pod/product/orbit.rs | 79 +++++++++++++++++++++++++++++++---------
 1 file changed, 61 insertions(+), 18 deletions(-)

diff --git a/src/pod/product/orbit.rs b/src/pod/product/orbit.rs
index 5528b85..b3dc58d 100644
--- a/src/pod/product/orbit.rs
+++ b/src/pod/product/orbit.rs
@@ -38,6 +38,7 @@ use crate::formats::igs::sp3::{write_sp3, EarthCenter, Sp3Epoch, Sp3Position, Sp
 use crate::formats::FormatError;
 use crate::time::JulianDate;
 use affn::cartesian;
+use chrono::{Datelike, NaiveDate, NaiveTime, SubsecRound, Timelike};
 use qtty::time::Microseconds;
 use qtty::unit::Kilometer;
 use qtty::Day;
@@ -47,6 +48,50 @@ use tempoch::{Time, UTC};
 
 use super::error::PodProductsError;
 
+/// First two SP3 header lines: start epoch, number of epochs, GPS week,
+/// seconds of week, interval (s) and Modified Julian Date of the start.
+fn sp3_start_lines(epochs: &[Sp3Epoch]) -> Result<[String; 2], crate::formats::igs::sp3::Sp3Error> {
+    let civil = |e: &Sp3Epoch| {
+        e.time
+            .try_to_chrono()
+            .map(|dt| dt.round_subsecs(8).naive_utc())
+            .map_err(|err| crate::formats::igs::sp3::Sp3Error::Header {
+                line: 1,
+                message: format!("epoch to chrono: {err}"),
+            })
+    };
+    let seconds = |d: chrono::TimeDelta| d.num_seconds() as f64 + d.subsec_nanos() as f64 / 1e9;
+    let gps_epoch = NaiveDate::from_ymd_opt(1980, 1, 6)
+        .expect("GPS epoch is valid")
+        .and_time(NaiveTime::MIN);
+    let start = epochs.first().map_or(Ok(gps_epoch), civil)?;
+    let interval = match epochs.get(1) {
+        Some(e) => seconds(civil(e)? - start),
+        None => 0.0,
+    };
+    let days = (start.date() - gps_epoch.date()).num_days();
+    let of_day = seconds(start.time() - NaiveTime::MIN);
+    Ok([
+        format!(
+            "#dP{:4} {:>2} {:>2} {:>2} {:>2} {:11.8} {:7} ORBIT IGS20 HLM  POD",
+            start.year(),
+            start.month(),
+            start.day(),
+            start.hour(),
+            start.minute(),
+            start.second() as f64 + start.nanosecond() as f64 / 1e9,
+            epochs.len()
+        ),
+        format!(
+            "## {:4} {:15.8} {interval:14.8} {:5} {:15.13}",
+            days.div_euclid(7),
+            days.rem_euclid(7) as f64 * 86_400.0 + of_day,
+            days + 44_244,
+            of_day / 86_400.0
+        ),
+    ])
+}
+
 /// Build an SP3 record from an in-memory state series and write it to `w`.
 ///
 /// # Examples
@@ -74,23 +119,6 @@ pub fn write_sp3_from_states<W: Write>(
     sat_id: &str,
     states: &[OrbitState],
 ) -> Result<(), crate::formats::igs::sp3::Sp3Error> {
-    let header = vec![
-        format!(
-            "#dP2024  1  1  0  0  0.00000000      {:5} ORBIT IGS20 HLM  POD",
-            states.len()
-        ),
-        "##  2295      0.00000000   900.00000000 60310 0.0000000000000".to_string(),
-        format!("+    1   {sat_id:<3}                                                     "),
-        "++         5                                                                  "
-            .to_string(),
-        "%c L  cc GPS ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc".to_string(),
-        "%c cc cc ccc ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc".to_string(),
-        "%f  1.2500000  1.025000000  0.00000000000  0.000000000000000".to_string(),
-        "%f  0.0000000  0.000000000  0.00000000000  0.000000000000000".to_string(),
-        "%i    0    0    0    0      0      0      0      0         0".to_string(),
-        "%i    0    0    0    0      0      0      0      0         0".to_string(),
-        "/* siderust orbit product".to_string(),
-    ];
     let epochs = states
         .iter()
         .map(|s| {
@@ -115,7 +143,22 @@ pub fn write_sp3_from_states<W: Write>(
                 }],
             }
         })
-        .collect();
+        .collect::<Vec<_>>();
+    let [start_line, week_line] = sp3_start_lines(&epochs)?;
+    let header = vec![
+        start_line,
+        week_line,
+        format!("+    1   {sat_id:<3}                                                     "),
+        "++         5                                                                  "
+            .to_string(),
+        "%c L  cc UTC ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc".to_string(),
+        "%c cc cc ccc ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc".to_string(),
+        "%f  1.2500000  1.025000000  0.00000000000  0.000000000000000".to_string(),
+        "%f  0.0000000  0.000000000  0.00000000000  0.000000000000000".to_string(),
+        "%i    0    0    0    0      0      0      0      0         0".to_string(),
+        "%i    0    0    0    0      0      0      0      0         0".to_string(),
+        "/* siderust orbit product".to_string(),
+    ];
     let rec = Sp3Record { header, epochs };
     write_sp3(w, &rec)
 }
-- 
2.43.0


From caee64da65f6e1b5a009a9e0dce4ad0639343f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:27 +0000
Subject: [PATCH 70/78] fix: use the haversine formula in catalogue cone
 searches

---
 src/catalogs/record.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/catalogs/record.rs b/src/catalogs/record.rs
index fe25b16..c4a5145 100644
--- a/src/catalogs/record.rs
+++ b/src/catalogs/record.rs
@@ -106,9 +106,9 @@ pub(super) fn inside_cone(
     radius: Radians,
 ) -> bool {
     let d_ra = ra.value() - c_ra.value();
-    let s = (dec.value() - c_dec.value()).sin();
+    let s = ((dec.value() - c_dec.value()) / 2.0).sin();
     let s2 = (d_ra / 2.0).sin();
-    let a = (s / 2.0).powi(2) + dec.value().cos() * c_dec.value().cos() * s2 * s2;
+    let a = s * s + dec.value().cos() * c_dec.value().cos() * s2 * s2;
     let c = 2.0 * a.sqrt().min(1.0).asin();
     c <= radius.value()
 }
-- 
2.43.0


From 28b4b2d49b7ed7194602f98fd9003af65e077ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:27 +0000
Subject: [PATCH 71/78] fix: refuse non-finite numbers and impossible
 declinations in catalogue tables

---
 src/catalogs/ingest.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/catalogs/ingest.rs b/src/catalogs/ingest.rs
index e2604c4..a9cacc3 100644
--- a/src/catalogs/ingest.rs
+++ b/src/catalogs/ingest.rs
@@ -29,7 +29,8 @@ pub enum CatalogIngestError {
         /// 1-based line number in the input chunk.
         line: usize,
     },
-    /// A column value could not be parsed as a number.
+    /// A column value could not be parsed as a finite number, or lies outside
+    /// the range of the column.
     #[error("invalid number for column `{column}` on line {line}: {raw}")]
     InvalidNumber {
         /// Column name.
@@ -66,13 +67,14 @@ pub fn parse_csv_chunk(input: &str) -> Result<Vec<CatalogRecord>, CatalogIngestE
         };
         let parse_opt_f64 = |col_name: &'static str| -> Result<Option<f64>, CatalogIngestError> {
             if let Some(s) = col(col_name)? {
-                s.parse::<f64>()
-                    .map(Some)
-                    .map_err(|_| CatalogIngestError::InvalidNumber {
+                match s.parse::<f64>() {
+                    Ok(v) if v.is_finite() => Ok(Some(v)),
+                    _ => Err(CatalogIngestError::InvalidNumber {
                         column: col_name,
                         line: line_no,
                         raw: s.to_owned(),
-                    })
+                    }),
+                }
             } else {
                 Ok(None)
             }
@@ -97,6 +99,13 @@ pub fn parse_csv_chunk(input: &str) -> Result<Vec<CatalogRecord>, CatalogIngestE
                 })?;
         let ra_deg = require_f64("ra")?;
         let dec_deg = require_f64("dec")?;
+        if dec_deg.abs() > 90.0 {
+            return Err(CatalogIngestError::InvalidNumber {
+                column: "dec",
+                line: line_no,
+                raw: dec_deg.to_string(),
+            });
+        }
         let epoch_jyr = require_f64("epoch")?;
         let quality_ok = match col("quality")? {
             None => true,
-- 
2.43.0


From c6ab68f4c0e328c7b9f3ff55443317de4e67b59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:27 +0000
Subject: [PATCH 72/78] fix: apply the Moon distance once to reflected
 moonlight

---
 src/event/lunar/photometry.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/event/lunar/photometry.rs b/src/event/lunar/photometry.rs
index e1e575a..b1810df 100644
--- a/src/event/lunar/photometry.rs
+++ b/src/event/lunar/photometry.rs
@@ -103,8 +103,8 @@ pub fn lunar_albedo_jones2013(phase_angle: Radians, wavelength: Nanometers) -> A
 /// `solar_irradiance_w_m2_nm` is the solar spectral irradiance at Earth in
 /// `W·m⁻²·nm⁻¹` (kept as a raw `f64` because the matching spectral-irradiance
 /// unit is not yet exposed by `qtty`). The output is a typed lunar spectral
-/// radiance in `W·m⁻²·sr⁻¹·nm⁻¹`, scaled by lunar solid angle and actual
-/// Moon distance.
+/// radiance in `W·m⁻²·sr⁻¹·nm⁻¹`, scaled by the mean lunar solid angle and
+/// by the inverse square of the actual Moon distance.
 ///
 /// # Arguments
 ///
@@ -124,11 +124,18 @@ pub fn reflected_lunar_spectral_radiance_jones2013(
     moon_distance: Kilometers,
 ) -> WattsPerSquareMeterSteradianNanometer {
     let distance = moon_distance.value();
-    if !solar_irradiance_w_m2_nm.is_finite() || !distance.is_finite() || distance <= 0.0 {
+    if !solar_irradiance_w_m2_nm.is_finite()
+        || !wavelength.is_finite()
+        || !phase_angle.is_finite()
+        || !distance.is_finite()
+        || distance <= 0.0
+    {
         return WattsPerSquareMeterSteradianNanometer::new(f64::NAN);
     }
     let albedo = lunar_albedo_jones2013(phase_angle, wavelength).value();
-    let radius_ratio: f64 = MEAN_MOON_RADIUS / moon_distance;
+    // Solid angle of the Moon at its mean distance (6.4177e-5 sr, Jones et al.);
+    // the actual distance enters once, through the inverse-square scale below.
+    let radius_ratio: f64 = MEAN_MOON_RADIUS / MEAN_MOON_DISTANCE;
     let omega_over_pi = radius_ratio.powi(2);
     let distance_ratio: f64 = MEAN_MOON_DISTANCE / moon_distance;
     let distance_scale = distance_ratio.powi(2);
-- 
2.43.0


From cad1e4b18d6921752dd1f56fdb2ca76979cc1bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:45 +0000
Subject: [PATCH 73/78] fix: validate conic and mean-motion orbits when
 deserialising

---
 src/astro/conic.rs | 57 ++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 57 insertions(+)

diff --git a/src/astro/conic.rs b/src/astro/conic.rs
index baa496b..2cba7a2 100644
--- a/src/astro/conic.rs
+++ b/src/astro/conic.rs
@@ -214,6 +214,7 @@ pub(crate) fn elliptic_geometry_from_sma<U: LengthUnit>(
 /// is rejected at construction time by [`try_new`](Self::try_new).
 #[derive(Clone, Copy, Debug, PartialEq)]
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
+#[cfg_attr(feature = "serde", serde(try_from = "ConicOrbitFields"))]
 pub struct ConicOrbit {
     geometry: OrientedConic<PeriapsisParam<AstronomicalUnit>, EclipticMeanJ2000>,
     /// Mean anomaly at `epoch`.
@@ -317,6 +318,7 @@ impl ConicOrbit {
 /// accidentally use it as radians-per-day or confuse it with other rates.
 #[derive(Clone, Copy, Debug, PartialEq)]
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
+#[cfg_attr(feature = "serde", serde(try_from = "MeanMotionOrbitFields"))]
 pub struct MeanMotionOrbit {
     geometry: OrientedConic<TypedSemiMajorAxisParam<AstronomicalUnit, Elliptic>, EclipticMeanJ2000>,
     /// Mean motion (degrees per day), typed.
@@ -399,6 +401,61 @@ impl MeanMotionOrbit {
     }
 }
 
+// =============================================================================
+// Deserialisation: the same checks as the validated constructors
+// =============================================================================
+
+#[cfg(feature = "serde")]
+#[derive(Deserialize)]
+struct ConicOrbitFields {
+    geometry: OrientedConic<PeriapsisParam<AstronomicalUnit>, EclipticMeanJ2000>,
+    mean_anomaly_at_epoch: Degrees,
+    epoch: JulianDate,
+}
+
+#[cfg(feature = "serde")]
+impl TryFrom<ConicOrbitFields> for ConicOrbit {
+    type Error = ConicError;
+
+    fn try_from(f: ConicOrbitFields) -> Result<Self, Self::Error> {
+        if f.geometry.kind() == ConicKind::Parabolic {
+            return Err(ConicError::ParabolicUnsupported);
+        }
+        if !f.mean_anomaly_at_epoch.is_finite() {
+            return Err(ConicError::InvalidMeanAnomaly);
+        }
+        Ok(Self {
+            geometry: f.geometry,
+            mean_anomaly_at_epoch: f.mean_anomaly_at_epoch,
+            epoch: f.epoch,
+        })
+    }
+}
+
+#[cfg(feature = "serde")]
+#[derive(Deserialize)]
+struct MeanMotionOrbitFields {
+    geometry: OrientedConic<TypedSemiMajorAxisParam<AstronomicalUnit, Elliptic>, EclipticMeanJ2000>,
+    mean_motion: AngularRate<Degree, Day>,
+    epoch: JulianDate,
+}
+
+#[cfg(feature = "serde")]
+impl TryFrom<MeanMotionOrbitFields> for MeanMotionOrbit {
+    type Error = ConicError;
+
+    fn try_from(f: MeanMotionOrbitFields) -> Result<Self, Self::Error> {
+        if !f.mean_motion.value().is_finite() || f.mean_motion.value() <= 0.0 {
+            return Err(ConicError::InvalidMeanMotion);
+        }
+        Ok(Self {
+            geometry: f.geometry,
+            mean_motion: f.mean_motion,
+            epoch: f.epoch,
+        })
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From c9df46556d6aa9ad99facab495844c5669ff16d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:28 +0000
Subject: [PATCH 74/78] fix: put the preset Sun at its J2000 declination and L2
 beyond the Earth

---
 src/bodies/solar_system.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bodies/solar_system.rs b/src/bodies/solar_system.rs
index 6b4f470..787cd4c 100644
--- a/src/bodies/solar_system.rs
+++ b/src/bodies/solar_system.rs
@@ -234,7 +234,7 @@ pub const SUN: super::Star<'static> = super::Star::new_const(
     L_SUN,
     CoordinateWithPM::<EquatorialMeanJ2000<LightYear>>::new_static(
         EquatorialMeanJ2000::<LightYear>::new_unchecked(
-            HourAngles::from_hms(-23, 0, 0.0).to_const::<Degree>(), // Dec (polar) Approx at J2000
+            Degrees::new(-23.03), // Dec (polar) Approx at J2000
             HourAngles::from_hms(18, 44, 48.0).to_const::<Degree>(), // RA (azimuth) Approx at J2000
             LightYears::new(1.58125e-5), // 1 AstronomicalUnits in LightYears
         ),
@@ -731,8 +731,8 @@ const SUN_EARTH_L2: LagrangePoint = LagrangePoint {
     name: "Sun–Earth L2",
     parent_system: "Sun–Earth",
     position: EclipticMeanJ2000::<AstronomicalUnit>::new_unchecked(
-        Degrees::new(0.0),   // lat (polar)
-        Degrees::new(180.0), // lon (azimuth)
+        Degrees::new(0.0), // lat (polar)
+        Degrees::new(0.0), // lon (azimuth)
         AstronomicalUnits::new(1.01),
     ),
 };
-- 
2.43.0


From 9dfcf279d2c36c44f2a79a0f1ccfd598757e478a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:15 +0000
Subject: [PATCH 75/78] fix: polar motion matrix: apply the factors in the
 IERS/SOFA order

---
 src/astro/polar_motion.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/astro/polar_motion.rs b/src/astro/polar_motion.rs
index ac36b89..58fc41c 100644
--- a/src/astro/polar_motion.rs
+++ b/src/astro/polar_motion.rs
@@ -23,7 +23,7 @@
 //! The polar-motion matrix is assembled as
 //!
 //! ```text
-//! W = R₃(−s') · R₂(xₚ) · R₁(yₚ)
+//! W = R₁(−yₚ) · R₂(−xₚ) · R₃(s')
 //! ```
 //!
 //! where `s'` is the TIO locator, here implemented as the linear-in-time
@@ -63,14 +63,15 @@ pub fn tio_locator_sp(jd_tt: JulianDate) -> Radians {
 /// frame to the Earth-fixed frame):
 ///
 /// ```text
-/// W = R₃(−s') · R₂(xₚ) · R₁(yₚ)
+/// W = R₁(−yₚ) · R₂(−xₚ) · R₃(s')
 /// ```
 ///
 /// ## References
 /// * IERS Conventions (2010), §5.4.2
 /// * SOFA routine `iauPom00`
 pub fn polar_motion_matrix(xp: Radians, yp: Radians, sp: Radians) -> Rotation3 {
-    Rotation3::rz(-sp) * Rotation3::ry(xp) * Rotation3::rx(yp)
+    // `Rotation3` turns vectors, the IERS `R` matrices turn axes: R(θ) = rotation by −θ.
+    Rotation3::rx(yp) * Rotation3::ry(xp) * Rotation3::rz(-sp)
 }
 
 /// Convenience: compute W from pole coordinates as [`Arcseconds`] and Julian Date.
-- 
2.43.0


From e354fefa3646f78e38efc89567e52601d8c30436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:10 +0000
Subject: [PATCH 76/78] fix: a star's azimuth under an explicit correction
 policy is its direction's

---
 src/event/azimuth/provider.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/event/azimuth/provider.rs b/src/event/azimuth/provider.rs
index fd74138..2f52b8b 100644
--- a/src/event/azimuth/provider.rs
+++ b/src/event/azimuth/provider.rs
@@ -286,6 +286,16 @@ impl AzimuthProvider for Star<'_> {
         dir.azimuth_at(observer, mjd)
     }
 
+    fn azimuth_at_with_policy(
+        &self,
+        observer: &Geodetic<ECEF>,
+        mjd: ModifiedJulianDate,
+        policy: crate::astro::apparent::CorrectionPolicy,
+    ) -> Radians {
+        let dir = direction::ICRS::from(self);
+        dir.azimuth_at_with_policy(observer, mjd, policy)
+    }
+
     fn azimuth_periods(&self, query: &AzimuthQuery) -> Vec<Interval<ModifiedJulianDate>> {
         let dir = direction::ICRS::from(self);
         dir.azimuth_periods(query)
-- 
2.43.0


From 466ecaa48ea93543043a23ccf480573b93bb7602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:43 +0000
Subject: [PATCH 77/78] fix: accept Lagrange fit samples that a double Julian
 Date puts on a record boundary

---
 src/ephemeris/lagrange/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ephemeris/lagrange/mod.rs b/src/ephemeris/lagrange/mod.rs
index fb1ce60..08410bc 100644
--- a/src/ephemeris/lagrange/mod.rs
+++ b/src/ephemeris/lagrange/mod.rs
@@ -170,6 +170,9 @@ pub fn sun_earth_lagrange_barycentric(
         .expect("Sun-Earth Lagrange archive epoch outside coverage")
 }
 
+/// A double Julian Date resolves about 40 µs: a record boundary is met to within that.
+const EPOCH_RESOLUTION_S: f64 = 1.0e-4;
+
 pub(crate) fn evaluate_records(
     records: &[f64],
     ncoeff: usize,
@@ -197,7 +200,7 @@ pub(crate) fn evaluate_records(
         let end = record[0] + record[1];
         first = first.min(start);
         last = last.max(end);
-        if seconds >= start && seconds <= end {
+        if seconds >= start - EPOCH_RESOLUTION_S && seconds <= end + EPOCH_RESOLUTION_S {
             let tau = (seconds - record[0]) / record[1];
             let cx = &record[2..2 + ncoeff];
             let cy = &record[2 + ncoeff..2 + 2 * ncoeff];
-- 
2.43.0


From cc283db006fd12353a11c31b1859ada0361bec9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:56 +0000
Subject: [PATCH 78/78] fix: altitude crossings survive duplicate polynomial
 roots

---
 src/event/search/crossings.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/event/search/crossings.rs b/src/event/search/crossings.rs
index 5d5c51b..3c991a6 100644
--- a/src/event/search/crossings.rs
+++ b/src/event/search/crossings.rs
@@ -22,8 +22,10 @@ type Mjd = ModifiedJulianDate;
 pub(crate) const POLY_ZERO_TOL: f64 = 1e-12;
 const MIN_SEGMENT_DAYS: f64 = 1e-6;
 const TAIL_NORM_COEFFS: usize = 4;
+/// Two crossings in the same direction closer than this are the same crossing.
+const SAME_CROSSING_EPS: Days = Days::new(1e-5);
 /// Samples used to count the sign changes of a segment polynomial.
-const POLY_SIGN_SAMPLES: usize = 32;
+const POLY_SIGN_SAMPLES: usize = 128;
 
 /// Runtime counters for Chebyshev crossing searches.
 #[derive(Debug, Default, Clone, Copy)]
@@ -244,6 +246,13 @@ where
         segment_crossings.push(crossing);
     }
 
+    // The root finder may also return one root twice, and so hide a lost one.
+    sort_dedup_crossings(&mut segment_crossings);
+    if sign_changes > segment_crossings.len() {
+        fallback_segment(search, segment);
+        return;
+    }
+
     search.out.extend(segment_crossings);
 }
 
@@ -473,7 +482,10 @@ fn looser_radius_exhausts_segment(center: f64, radius: f64, start: f64, end: f64
 
 fn sort_dedup_crossings(crossings: &mut Vec<LabeledCrossing>) {
     crossings.sort_by(|a, b| a.t.partial_cmp(&b.t).unwrap_or(std::cmp::Ordering::Equal));
-    crossings.dedup_by(|a, b| (a.t.raw() - b.t.raw()).abs() < CROSSING_DEDUPE_EPS);
+    crossings.dedup_by(|a, b| {
+        let dt = (a.t.raw() - b.t.raw()).abs();
+        dt < CROSSING_DEDUPE_EPS || (a.direction == b.direction && dt < SAME_CROSSING_EPS)
+    });
 }
 
 #[cfg(test)]
-- 
2.43.0

