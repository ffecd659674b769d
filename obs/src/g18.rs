//! Karney's direct geodesics
use crate::assume;
use geokit::cs::azimuth::Azimuth;
use geokit::cs::geodetic::{Lat, Lon};
use geokit::geodesy::geodesics::karney::KarneyGeodesicSolver;
use geokit::geodesy::geodesics::{Geodesic, GeodesicSolver};
use geokit::geodesy::Ellipsoid;
use geokit::units::angle::RAD;
use geokit::units::length::M;
use std::f64::consts::PI;
fn ell(a: f64, b: f64) -> Ellipsoid { assume(b > 0. && a > b && b > 0.5 * a && a < 1e9); Ellipsoid::from_ab("e", a * M, b * M) }
fn azr(x: f64) -> f64 { if x <= -PI { PI } else { x } }
fn pt(l: f64, p: f64) -> (Lon, Lat) { assume(l > -PI && l <= PI); assume(p > -PI / 2. && p < PI / 2.); (Lon::const_new(l * RAD), Lat::new(p * RAD)) }
type R = Option<[f64; 9]>;
fn out(r: Result<Geodesic, &'static str>) -> R {
    match r {
        Ok(g) => {
            let l = g.p2.0.angle().rad();
            Some([g.p1.0.angle().rad(), g.p1.1.angle().rad(), l.sin(), l.cos(), g.p2.1.angle().rad(), g.alpha1.angle().sin(), g.alpha1.angle().cos(), g.alpha2.angle().rad(), g.s.m()])
        }
        Err(_) => None,
    }
}
/// Karney 2013, equation 17
fn a1(e: f64) -> f64 { (1. + e * e / 4. + e.powi(4) / 64. + e.powi(6) / 256.) / (1. - e) }
/// equations 15 and 18
fn i1(e: f64, s: f64) -> f64 {
    let t = 2. * s;
    a1(e) * (s + (-e / 2. + 3. * e.powi(3) / 16. - e.powi(5) / 32.) * t.sin() + (-e * e / 16. + e.powi(4) / 32. - 9. * e.powi(6) / 2048.) * (2. * t).sin()
        + (-e.powi(3) / 48. + 3. * e.powi(5) / 256.) * (3. * t).sin() + (-5. * e.powi(4) / 512. + 3. * e.powi(6) / 512.) * (4. * t).sin() - 7. * e.powi(5) / 1280. * (5. * t).sin() - 7. * e.powi(6) / 2048. * (6. * t).sin())
}
/// equations 20 and 21
fn sigma(e: f64, tau: f64) -> f64 {
    let t = 2. * tau;
    tau + (e / 2. - 9. * e.powi(3) / 32. + 205. * e.powi(5) / 1536.) * t.sin() + (5. * e * e / 16. - 37. * e.powi(4) / 96. + 1335. * e.powi(6) / 4096.) * (2. * t).sin()
        + (29. * e.powi(3) / 96. - 75. * e.powi(5) / 128.) * (3. * t).sin() + (539. * e.powi(4) / 1536. - 2391. * e.powi(6) / 2560.) * (4. * t).sin() + 3467. * e.powi(5) / 7680. * (5. * t).sin() + 38081. * e.powi(6) / 61440. * (6. * t).sin()
}
/// equations 23 to 25
fn i3(n: f64, e: f64, s: f64) -> f64 {
    let a = 1. - (1. - n) / 2. * e - (1. / 4. + n / 8. - 3. * n * n / 8.) * e * e - (1. + 3. * n + n * n) / 16. * e.powi(3) - (3. / 64. + n / 32.) * e.powi(4) - 3. / 128. * e.powi(5);
    let c1 = (1. - n) / 4. * e + (1. - n * n) / 8. * e * e + (3. + 3. * n - n * n) / 64. * e.powi(3) + (5. / 128. + n / 64.) * e.powi(4) + 3. / 128. * e.powi(5);
    let c2 = (1. / 16. - 3. * n / 32. + n * n / 32.) * e * e + (3. / 64. - n / 32. - 3. * n * n / 64.) * e.powi(3) + (3. + n) / 128. * e.powi(4) + 5. / 256. * e.powi(5);
    let c3 = (5. / 192. - 3. * n / 64. + 5. * n * n / 192.) * e.powi(3) + (3. / 128. - 5. * n / 192.) * e.powi(4) + 7. / 512. * e.powi(5);
    let c4 = (7. / 512. - 7. * n / 256.) * e.powi(4) + 7. / 512. * e.powi(5);
    let c5 = 21. / 2560. * e.powi(5);
    let t = 2. * s;
    a * (s + c1 * t.sin() + c2 * (2. * t).sin() + c3 * (3. * t).sin() + c4 * (4. * t).sin() + c5 * (5. * t).sin())
}
pub fn direct__code(a: f64, b: f64, l1: f64, p1: f64, az: f64, s: f64) -> R { assume(az > -PI && az < PI); out(KarneyGeodesicSolver::new(&ell(a, b)).solve_direct(pt(l1, p1), Azimuth::new(az * RAD), s * M)) }
pub fn direct__spec(a: f64, b: f64, l1: f64, p1: f64, az: f64, s: f64) -> R {
    let f = (a - b) / a;
    let n = f / (2. - f);
    let be = (b / a * p1.tan()).atan();
    let (sb, cb, sz, cz) = (be.sin(), be.cos(), az.sin(), az.cos());
    let a0 = (sz * cb).atan2((cz * cz + sz * sb * (sz * sb)).sqrt());
    let (s0, c0) = (a0.sin(), a0.cos());
    let g1 = sb.atan2(cz * cb);
    let w1 = (s0 * g1.sin()).atan2(g1.cos());
    let t = (1. + c0 * c0 * (a * a - b * b) / (b * b)).sqrt();
    let e = (t - 1.) / (t + 1.);
    let g2 = sigma(e, (b * i1(e, g1) + s) / (b * a1(e)));
    let (ss, cs) = (g2.sin(), g2.cos());
    let z = s0.atan2(c0 * cs);
    let be2 = (c0 * ss).atan2((c0 * cs * (c0 * cs) + s0 * s0).sqrt());
    let w2 = (s0 * ss).atan2(cs);
    let l = l1 + (w2 - f * s0 * i3(n, e, g2)) - (w1 - f * s0 * i3(n, e, g1));
    let lat = (be2.tan() / (1. - f)).atan();
    Some([l1, p1, l.sin(), l.cos(), lat, sz, cz, azr(z), s])
}
