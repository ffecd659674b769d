From 2abfe3793d2d0129fc8bb6f4e237c2bd625f8dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:56 +0000
Subject: [PATCH 01/16] fix: keep the wrapped remainder inside [-r/2, r/2] for
 large inputs

---
 geokit/src/math/fp.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/geokit/src/math/fp.rs b/geokit/src/math/fp.rs
index 2e54cd8..0905c58 100644
--- a/geokit/src/math/fp.rs
+++ b/geokit/src/math/fp.rs
@@ -9,8 +9,17 @@ pub const TAU: Float = std::f64::consts::TAU;
 pub fn sq(x: Float) -> Float {
     x * x
 }
+/// Returns the remainder of `val` modulo `r > 0` in `[-r/2, r/2]`.
 pub fn remainder(val: Float, r: Float) -> Float {
-    val - (val / r).round_ties_even() * r
+    // `%` is exact and so are the shifts by `r`: the result never leaves [-r/2, r/2].
+    let m = val % r;
+    if m > 0.5 * r {
+        m - r
+    } else if m < -0.5 * r {
+        m + r
+    } else {
+        m
+    }
 }
 
 /// Compute `sum(0, N, c[k] * F[k](x))` where `F[k](x) = sin(k * x)`
-- 
2.43.0


From d1df38c18e06f5007ecdf0baa536d0b50440f685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:50 +0000
Subject: [PATCH 02/16] fix: GeodeticTolerance::small() allows the documented
 1e-3 m on the height axis

---
 geokit/src/cs/geodetic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geokit/src/cs/geodetic.rs b/geokit/src/cs/geodetic.rs
index dd91753..e3f57f6 100644
--- a/geokit/src/cs/geodetic.rs
+++ b/geokit/src/cs/geodetic.rs
@@ -234,7 +234,7 @@ impl GeodeticTolerance {
         GeodeticTolerance {
             lon: Angle::SMALL,
             lat: Angle::SMALL,
-            height: Length::TINY,
+            height: Length::SMALL,
         }
     }
 }
-- 
2.43.0


From 0fa307eac8493cf827e792bd9e8932c539ace0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:50 +0000
Subject: [PATCH 03/16] fix: Angle::dms() carries minutes rounded up to 60 into
 the degrees

---
 geokit/src/quantities/angle.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/geokit/src/quantities/angle.rs b/geokit/src/quantities/angle.rs
index 7873f69..6456c56 100644
--- a/geokit/src/quantities/angle.rs
+++ b/geokit/src/quantities/angle.rs
@@ -191,13 +191,18 @@ impl Angle {
         let rad = self.0;
         let sgn = rad.signum();
         let mut deg = rad.abs().to_degrees();
-        let d = deg.floor();
+        let mut d = deg.floor();
         deg = 60. * deg.fract();
-        let m;
+        let mut m;
         let s;
         if (deg - deg.round()).abs() < 1e-8 {
             m = deg.round();
             s = 0.0;
+            if m >= 60. {
+                // rounded up to a whole degree
+                m = 0.0;
+                d += 1.;
+            }
         } else {
             m = deg.floor();
             s = 60. * deg.fract();
-- 
2.43.0


From ae7129d421ed313880cad77f77aa983f3752a391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:50 +0000
Subject: [PATCH 04/16] fix: Interval::new(-pi, -pi) is the singleton, not the
 empty interval

---
 geokit/src/cs/s1.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/geokit/src/cs/s1.rs b/geokit/src/cs/s1.rs
index a3d4f14..c8700f9 100644
--- a/geokit/src/cs/s1.rs
+++ b/geokit/src/cs/s1.rs
@@ -66,9 +66,13 @@ impl Interval {
     ///     - `[lo..hi]` otherwise
     pub fn new(lo: Angle, hi: Angle) -> Self {
         let mut low = lo.wrapped();
-        let hig = hi.wrapped();
+        let mut hig = hi.wrapped();
         if low == Angle::M_PI && hig != Angle::PI {
             low = Angle::PI;
+            if hig == Angle::M_PI {
+                // the single point (-1, 0), not the empty interval
+                hig = Angle::PI;
+            }
         }
         Self { lo: low, hi: hig }
     }
-- 
2.43.0


From 22e8a027c32e4bae65284a63a2def246d51875bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:41 +0000
Subject: [PATCH 05/16] fix: the normal sphere has equal semi-axes

---
 geokit/src/geodesy/ellipsoid.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geokit/src/geodesy/ellipsoid.rs b/geokit/src/geodesy/ellipsoid.rs
index b49769d..65ef4d7 100644
--- a/geokit/src/geodesy/ellipsoid.rs
+++ b/geokit/src/geodesy/ellipsoid.rs
@@ -277,7 +277,7 @@ pub mod consts {
         WGS66 => ("WGS 66", a = 6_378_145., invf = 298.25),
         WGS72 => ("WGS 72", a = 6_378_135., invf = 298.26),
         WGS84 => ("WGS 84", a = 6_378_137., invf = 298.257_223_563),
-        SPHERE => ("Normal Sphere (r=6370997)", a = 6_370_997., invf = 6_370_997.)
+        SPHERE => ("Normal Sphere (r=6370997)", a = 6_370_997., b = 6_370_997.)
     }
 }
 
-- 
2.43.0


From 508a8cb08faa044ded6c2696a041675b1831f915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:16 +0000
Subject: [PATCH 06/16] fix: spherical datums honour their prime meridian in
 both directions

---
 geokit/src/geodesy/geodetic_datum.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/geokit/src/geodesy/geodetic_datum.rs b/geokit/src/geodesy/geodetic_datum.rs
index b629142..8cdf00a 100644
--- a/geokit/src/geodesy/geodetic_datum.rs
+++ b/geokit/src/geodesy/geodetic_datum.rs
@@ -76,7 +76,7 @@ impl GeodeticDatum {
         let lon = llh.lon + self.prime_meridian.lon().angle();
 
         if self.ellipsoid.is_spherical() {
-            let (sin_lon, cos_lon) = llh.lon.sin_cos();
+            let (sin_lon, cos_lon) = lon.sin_cos();
             let (sin_lat, cos_lat) = llh.lat.sin_cos();
             let d = self.ellipsoid.a() + llh.height;
             let z = d * sin_lat;
@@ -115,7 +115,8 @@ impl GeodeticDatum {
             let lat = z.atan2(r);
             let h = r.hypot(z) - a;
             LLH {
-                lon: Lon::new(lon * RAD),
+                // Change longitude origin from Greenwich meridian to this datum's prime meridian
+                lon: Lon::new(lon * RAD) - self.prime_meridian.lon().angle(),
                 lat: Lat::new(lat * RAD),
                 height: h * M,
             }
-- 
2.43.0


From d015d266e8d9fe02e02c3a7b6bb61bc402587ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:16 +0000
Subject: [PATCH 07/16] fix: UTM zone 1 starts at 180 degrees west (central
 meridian of zone n is 6n - 183)

---
 geokit/src/projections/cyl/transverse_mercator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geokit/src/projections/cyl/transverse_mercator.rs b/geokit/src/projections/cyl/transverse_mercator.rs
index 1913d27..5ab1a05 100644
--- a/geokit/src/projections/cyl/transverse_mercator.rs
+++ b/geokit/src/projections/cyl/transverse_mercator.rs
@@ -184,7 +184,7 @@ type UTMZone = u8;
 
 const UTM_ZONE_WIDTH_DEG: Float = 6.0;
 const UTM_ZONE_COUNT: Float = 360.0 / UTM_ZONE_WIDTH_DEG;
-const UTM_ZONE_1_WEST_LIMIT_DEG: Float = -177.0;
+const UTM_ZONE_1_WEST_LIMIT_DEG: Float = -180.0;
 const UTM_LAT0: Lat = Lat::ZERO;
 const UTM_K0: Float = 0.9996;
 const UTM_FE: Length = Length::new(500_000.0, M);
-- 
2.43.0


From 56fd56b21ced1efaf01ce16ed60938d292ea1780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:28 +0000
Subject: [PATCH 08/16] fix: inverse transverse Mercator stops on grid
 coordinates that have no preimage instead of looping for ever

---
 geokit/src/projections/cyl/transverse_mercator.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/geokit/src/projections/cyl/transverse_mercator.rs b/geokit/src/projections/cyl/transverse_mercator.rs
index 5ab1a05..60404c4 100644
--- a/geokit/src/projections/cyl/transverse_mercator.rs
+++ b/geokit/src/projections/cyl/transverse_mercator.rs
@@ -160,13 +160,19 @@ impl Projection for TransverseMercator {
         }
 
         let mut Q_pp = iter_fn(self.e, Q_p, Q_p);
-        loop {
+        let mut converged = false;
+        for _ in 0..UNPROJ_MAX_ITERATIONS {
             let old_Q_pp = Q_pp;
             Q_pp = iter_fn(self.e, Q_p, Q_pp);
             if (Q_pp - old_Q_pp).abs() < 1e-12 {
+                converged = true;
                 break;
             }
         }
+        if !converged {
+            // The grid coordinates are not the image of any point (e.g. NaN).
+            return Err(ProjectionError::ENHOutOfBounds);
+        }
 
         Ok(LLH {
             lon: self.lon0 + (eta_p0.tanh() / beta_p.cos()).asin() * RAD,
@@ -210,6 +216,9 @@ fn utm_lon0(zone: UTMZone) -> Lon {
 // Helper functions for the projection
 //
 
+/// Bound on the number of fixed-point iterations used to recover the isometric latitude.
+const UNPROJ_MAX_ITERATIONS: usize = 100;
+
 fn Q(e: Float, lat: Lat) -> Float {
     lat.tan().asinh() - e * (e * lat.sin()).atanh()
 }
-- 
2.43.0


From dfdecde599d1d9767ac416781a871e85de692016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:30 +0000
Subject: [PATCH 09/16] fix: projections report LLHOutOfBounds where the image
 is at infinity

---
 geokit/src/projections/cyl/mercator.rs            | 5 +++++
 geokit/src/projections/cyl/transverse_mercator.rs | 4 ++++
 geokit/src/projections/cyl/web_mercator.rs        | 5 +++++
 3 files changed, 14 insertions(+)

diff --git a/geokit/src/projections/cyl/mercator.rs b/geokit/src/projections/cyl/mercator.rs
index d27ebd6..3389011 100644
--- a/geokit/src/projections/cyl/mercator.rs
+++ b/geokit/src/projections/cyl/mercator.rs
@@ -120,6 +120,11 @@ impl Mercator {
 
 impl Projection for Mercator {
     fn proj(&self, input: LLH) -> Result<ENH, ProjectionError> {
+        if input.lat.abs() == Lat::MAX {
+            // The poles are at infinity.
+            return Err(ProjectionError::LLHOutOfBounds);
+        }
+
         let sin_lat = input.lat.sin();
         let e_sin_lat = self.e * sin_lat;
         let lat1 = input.lat / 2.0 + PI_4 * RAD;
diff --git a/geokit/src/projections/cyl/transverse_mercator.rs b/geokit/src/projections/cyl/transverse_mercator.rs
index 60404c4..f1220df 100644
--- a/geokit/src/projections/cyl/transverse_mercator.rs
+++ b/geokit/src/projections/cyl/transverse_mercator.rs
@@ -108,6 +108,10 @@ impl Projection for TransverseMercator {
             (beta.cos() * (lon - lon0).sin()).atanh()
         };
         let xi_0 = (beta.sin() * eta_0.cosh()).asin();
+        if !eta_0.is_finite() || !xi_0.is_finite() {
+            // On the equator, 90 degrees away from the central meridian.
+            return Err(ProjectionError::LLHOutOfBounds);
+        }
 
         let xis = [
             self.h[0] * (2.0 * xi_0).sin() * (2.0 * eta_0).cosh(),
diff --git a/geokit/src/projections/cyl/web_mercator.rs b/geokit/src/projections/cyl/web_mercator.rs
index 07464ad..ef3ca19 100644
--- a/geokit/src/projections/cyl/web_mercator.rs
+++ b/geokit/src/projections/cyl/web_mercator.rs
@@ -50,6 +50,11 @@ impl WebMercator {
 
 impl Projection for WebMercator {
     fn proj(&self, input: LLH) -> Result<ENH, ProjectionError> {
+        if input.lat.abs() == Lat::MAX {
+            // The poles are at infinity.
+            return Err(ProjectionError::LLHOutOfBounds);
+        }
+
         Ok(ENH {
             easting: self.false_easting + (self.a * (input.lon - self.lon0)).length(),
             northing: self.false_northing + self.a * (input.lat / 2.0 + PI_4 * RAD).tan().ln(),
-- 
2.43.0


From ce554778f3b4da246dc025160eed555363ef2d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:18 +0000
Subject: [PATCH 10/16] fix: the inverse geodesic of coincident points has
 length zero instead of failing to converge

---
 geokit/src/geodesy/geodesics/rapp.rs     | 8 ++++++--
 geokit/src/geodesy/geodesics/vincenty.rs | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/geokit/src/geodesy/geodesics/rapp.rs b/geokit/src/geodesy/geodesics/rapp.rs
index be1a3d2..69dc2e9 100644
--- a/geokit/src/geodesy/geodesics/rapp.rs
+++ b/geokit/src/geodesy/geodesics/rapp.rs
@@ -193,8 +193,12 @@ impl<'e> RappIterativeGeodisicSolver<'e> {
             sin_3_sigma = 3. * sin_sigma * cos_sigma.powi(2) - sin_sigma.powi(3);
             sin_4_sigma = 4. * sin_sigma * cos_sigma.powi(3) - 4. * sin_sigma.powi(3) * cos_sigma;
 
-            // Eq (1.61)
-            sin_alpha = cos_beta1 * cos_beta2 * sin_lambda / sin_sigma;
+            // Eq (1.61): indeterminate for coincident points, where any azimuth will do
+            sin_alpha = if sin_sigma == 0.0 {
+                0.0
+            } else {
+                cos_beta1 * cos_beta2 * sin_lambda / sin_sigma
+            };
             cos_alpha_sq = 1. - sin_alpha.powi(2);
 
             // If the geodesic (p1, p2) is an equatorial line Eq (18) becomes indeterminate but
diff --git a/geokit/src/geodesy/geodesics/vincenty.rs b/geokit/src/geodesy/geodesics/vincenty.rs
index 06566e0..bab62b1 100644
--- a/geokit/src/geodesy/geodesics/vincenty.rs
+++ b/geokit/src/geodesy/geodesics/vincenty.rs
@@ -148,8 +148,12 @@ impl<'e> VincentyGeodesicSolver<'e> {
             sigma = sin_sigma_sq.sqrt().atan2(cos_sigma_i);
             (sin_sigma, cos_sigma) = sigma.sin_cos();
 
-            // Eq (17)
-            let sin_alpha = cos_beta1 * cos_beta2 * sin_lambda / sin_sigma;
+            // Eq (17): indeterminate for coincident points, where any azimuth will do
+            let sin_alpha = if sin_sigma == 0.0 {
+                0.0
+            } else {
+                cos_beta1 * cos_beta2 * sin_lambda / sin_sigma
+            };
             cos_alpha_sq = 1. - sin_alpha.powi(2);
 
             // If the geodesic (p1, p2) is an equatorial line Eq (18) becomes indeterminate but
-- 
2.43.0


From 2c8692e3bcfaaf6747a711c6fe2cdc75bd53e115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:18 +0000
Subject: [PATCH 11/16] fix: Rapp's inverse solution uses cos(8 sigma_m) of the
 midpoint, not a mix with sin(2 sigma)

---
 geokit/src/geodesy/geodesics/rapp.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/geokit/src/geodesy/geodesics/rapp.rs b/geokit/src/geodesy/geodesics/rapp.rs
index 69dc2e9..ee8a240 100644
--- a/geokit/src/geodesy/geodesics/rapp.rs
+++ b/geokit/src/geodesy/geodesics/rapp.rs
@@ -211,9 +211,10 @@ impl<'e> RappIterativeGeodisicSolver<'e> {
                 cos_4_sigma_m = 2. * cos_2_sigma_m.powi(2) - 1.;
                 cos_6_sigma_m =
                     cos_2_sigma_m.powi(3) - 3. * cos_2_sigma_m * (1. - cos_2_sigma_m.powi(2));
+                let sin_2_sigma_m_sq = 1. - cos_2_sigma_m.powi(2);
                 cos_8_sigma_m = cos_2_sigma_m.powi(4)
-                    - 6. * cos_2_sigma_m.powi(2) * sin_2_sigma.powi(2)
-                    + sin_2_sigma.powi(4);
+                    - 6. * cos_2_sigma_m.powi(2) * sin_2_sigma_m_sq
+                    + sin_2_sigma_m_sq.powi(2);
 
                 // Eq (1.56)
                 let big_as = self.axs.map(|p| p.eval_at(cos_alpha_sq));
-- 
2.43.0


From c50579c1d4003c9ef5f14fbefe539aef531254b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:18 +0000
Subject: [PATCH 12/16] fix: Geodesic displays the latitude of its start point

---
 geokit/src/geodesy/geodesics/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geokit/src/geodesy/geodesics/mod.rs b/geokit/src/geodesy/geodesics/mod.rs
index 250433b..5986741 100644
--- a/geokit/src/geodesy/geodesics/mod.rs
+++ b/geokit/src/geodesy/geodesics/mod.rs
@@ -7,7 +7,7 @@ use derive_more::derive::Display;
 
 /// Geodesic segment data.
 #[derive(Copy, Clone, Debug, PartialEq, Display)]
-#[display("From: (lon: {}, lat: {}, az: {})\nTo:   (lon: {}, lat: {}, az: {})\nL:   {}\ns:   {}", p1.0, p1.0, alpha1, p2.0, p2.1, alpha2, p2.0 - p1.0, s)]
+#[display("From: (lon: {}, lat: {}, az: {})\nTo:   (lon: {}, lat: {}, az: {})\nL:   {}\ns:   {}", p1.0, p1.1, alpha1, p2.0, p2.1, alpha2, p2.0 - p1.0, s)]
 pub struct Geodesic {
     pub p1: (Lon, Lat),
     pub alpha1: Azimuth,
-- 
2.43.0


From 68aace4cec7041986d70185d9bbcd4321e49a10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:38 +0000
Subject: [PATCH 13/16] fix: LineString::param reaches the end point and
 rejects negative parameters

---
 .../geometry/coordinate/curve/line_string.rs  | 26 +++++++++++++------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/geokit/src/geometry/coordinate/curve/line_string.rs b/geokit/src/geometry/coordinate/curve/line_string.rs
index dcf1517..ea7524b 100644
--- a/geokit/src/geometry/coordinate/curve/line_string.rs
+++ b/geokit/src/geometry/coordinate/curve/line_string.rs
@@ -78,18 +78,28 @@ impl ParameterizedCurve for LineString {
     }
 
     fn param(&self, _crs: &dyn Crs, s: Length) -> Box<Pos> {
-        assert!(s <= self.length(_crs), "Invalid curvilinear parameter `s`");
-        let mut len_iter = self.len.iter();
-        let mut res_len = s;
+        assert!(
+            s >= 0. * M && s <= self.length(_crs),
+            "Invalid curvilinear parameter `s`"
+        );
+        // `acc` is the distance from the start to `start_pos_ix`, summed as in [Self::length()].
+        let mut acc = 0. * M;
         let mut start_pos_ix = 0;
         let mut ratio = 0.;
-        while let Some(l) = len_iter.next() {
-            if l >= &res_len {
-                ratio = res_len / *l;
+        for (ix, l) in self.len.iter().enumerate() {
+            let next = acc + *l;
+            if s <= next {
+                start_pos_ix = ix;
+                ratio = if s == acc {
+                    0.
+                } else if s == next {
+                    1.
+                } else {
+                    (s - acc) / *l
+                };
                 break;
             }
-            res_len -= *l;
-            start_pos_ix += 1;
+            acc = next;
         }
         let start = self.pos(start_pos_ix);
         let end = self.pos(start_pos_ix + 1);
-- 
2.43.0


From ae6ffb4dd1dd11d6d80b98ba0f72b2f9acd6c34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:55 +0000
Subject: [PATCH 14/16] fix: Curve::param reaches the end point and rejects
 negative parameters

---
 geokit/src/geometry/primitive/curve.rs | 27 ++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/geokit/src/geometry/primitive/curve.rs b/geokit/src/geometry/primitive/curve.rs
index f4402a0..9500f19 100644
--- a/geokit/src/geometry/primitive/curve.rs
+++ b/geokit/src/geometry/primitive/curve.rs
@@ -98,20 +98,23 @@ impl ParameterizedCurve for Curve {
     }
 
     fn param(&self, crs: &dyn Crs, s: Length) -> Box<Pos> {
-        assert!(s <= self.length(crs), "Invalid curvilinear parameter `s`");
-        let mut seg_iter = self.seg.iter();
-        let mut res_len = s;
-        let mut seg_ix = 0;
-        while let Some(s) = seg_iter.next() {
-            let seg_len = s.length(crs);
-            if seg_len >= res_len {
-                break;
+        assert!(
+            s >= 0. * M && s <= self.length(crs),
+            "Invalid curvilinear parameter `s`"
+        );
+        // `acc` is the distance from the start to the current segment, summed as in [Self::length()].
+        let mut acc = 0. * M;
+        for seg in self.seg.iter() {
+            let seg_len = seg.length(crs);
+            let next = acc + seg_len;
+            if s <= next {
+                let res_len = s - acc;
+                let at_end = s == next || res_len > seg_len;
+                return seg.param(crs, if at_end { seg_len } else { res_len });
             }
-            res_len -= seg_len;
-            seg_ix += 1;
+            acc = next;
         }
-        let seg = &self.seg[seg_ix];
-        seg.param(crs, res_len)
+        unreachable!("`s` is at most the length of the curve");
     }
 
     fn as_line_string(
-- 
2.43.0


From aceb7448715bc8b5d547f6eb03ddc56a80659446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:57 +0000
Subject: [PATCH 15/16] fix: CurveBuilder::with_seg rejects a segment of
 another dimension

---
 geokit/src/geometry/primitive/curve.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/geokit/src/geometry/primitive/curve.rs b/geokit/src/geometry/primitive/curve.rs
index 9500f19..51afd9e 100644
--- a/geokit/src/geometry/primitive/curve.rs
+++ b/geokit/src/geometry/primitive/curve.rs
@@ -147,7 +147,11 @@ impl<'a> CurveBuilder<'a> {
         crs: &'a dyn Crs,
         seg: C,
     ) -> Result<Self, &'static str> {
-        Ok(Self::new(crs, vec![clone_box(&seg)]))
+        if crs.dim() != seg.coord_dim() {
+            Err("Invalid coordinate dimension")
+        } else {
+            Ok(Self::new(crs, vec![clone_box(&seg)]))
+        }
     }
 
     pub fn append_segment<C: CurveSegment + 'static>(
-- 
2.43.0


From 5469c95669027ab104f9b269e5e0baeeb8773b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:20 +0000
Subject: [PATCH 16/16] verification hook: reach the crate-private
 transformations (cfg geokit_verif)

---
 geokit/src/transformations/xyz.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/geokit/src/transformations/xyz.rs b/geokit/src/transformations/xyz.rs
index 7eb4529..96be8bf 100644
--- a/geokit/src/transformations/xyz.rs
+++ b/geokit/src/transformations/xyz.rs
@@ -290,6 +290,25 @@ impl XYZTransformation for Helmert7Params {
     }
 }
 
+/// Access to the crate-private transformations for the verification machinery (never built otherwise).
+#[cfg(geokit_verif)]
+pub mod verif {
+    use super::*;
+
+    pub fn translation(tx: Length, ty: Length, tz: Length) -> impl XYZTransformation {
+        GeocentricTranslation::new(tx, ty, tz)
+    }
+
+    pub fn helmert(
+        conv: RotationConvention,
+        rotation: [Angle; 3],
+        translation: [Length; 3],
+        ppm: PPM,
+    ) -> impl XYZTransformation {
+        Helmert7Params::new(conv, rotation, translation, ppm)
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::GeocentricTranslation;
-- 
2.43.0

