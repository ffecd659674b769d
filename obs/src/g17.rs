//! Rapp's iterative geodesics
use crate::assume;
use geokit::cs::azimuth::Azimuth;
use geokit::cs::geodetic::{Lat, Lon};
use geokit::geodesy::geodesics::rapp::RappIterativeGeodisicSolver;
use geokit::geodesy::geodesics::{Geodesic, GeodesicSolver};
use geokit::geodesy::Ellipsoid;
use geokit::units::angle::RAD;
use geokit::units::length::M;
use std::f64::consts::PI;
fn ell(a: f64, b: f64) -> Ellipsoid { assume(b > 0. && a > b && b > 0.5 * a && a < 1e9); Ellipsoid::from_ab("e", a * M, b * M) }
fn azr(x: f64) -> f64 { if x <= -PI { PI } else { x } }
fn pt(l: f64, p: f64) -> (Lon, Lat) { assume(l > -PI && l <= PI); assume(p > -PI / 2. && p < PI / 2.); (Lon::const_new(l * RAD), Lat::new(p * RAD)) }
type R = Option<[f64; 9]>;
fn out(r: Result<Geodesic, &'static str>) -> R {
    match r {
        Ok(g) => {
            let l = g.p2.0.angle().rad();
            Some([g.p1.0.angle().rad(), g.p1.1.angle().rad(), l.sin(), l.cos(), g.p2.1.angle().rad(), g.alpha1.angle().sin(), g.alpha1.angle().cos(), g.alpha2.angle().rad(), g.s.m()])
        }
        Err(_) => None,
    }
}
/// Rapp, geometric geodesy II, coefficients of the distance equation (1.40)
fn b0(u: f64) -> f64 { 1. + u / 4. - 3. * u * u / 64. + 5. * u * u * u / 256. - 175. * u * u * u * u / 16384. }
fn b2(u: f64) -> f64 { -u / 4. + u * u / 16. - 15. * u * u * u / 512. + 35. * u * u * u * u / 2048. }
fn b4(u: f64) -> f64 { -u * u / 128. + 3. * u * u * u / 512. - 35. * u * u * u * u / 8192. }
fn b6(u: f64) -> f64 { -u * u * u / 1536. + 5. * u * u * u * u / 6144. }
fn b8(u: f64) -> f64 { -5. * u * u * u * u / 65536. }
/// coefficients of the longitude equation (1.56)
fn a0(f: f64, c: f64) -> f64 { 1. - f * (1. + f + f * f) * c / 4. + 3. * f * f * (1. + 9. * f / 4.) * c * c / 16. - 25. * f * f * f * c * c * c / 128. }
fn a2(f: f64, c: f64) -> f64 { f * (1. + f + f * f) * c / 4. - f * f * (1. + 9. * f / 4.) * c * c / 4. + 75. * f * f * f * c * c * c / 256. }
fn a4(f: f64, c: f64) -> f64 { f * f * (1. + 9. * f / 4.) * c * c / 32. - 15. * f * f * f * c * c * c / 256. }
fn a6(f: f64, c: f64) -> f64 { 5. * f * f * f * c * c * c / 768. }
/// cos 2x, cos 3x and cos 4x from cos x
fn k4(m: f64) -> f64 { 2. * m * m - 1. }
fn k6(m: f64) -> f64 { 4. * m * m * m - 3. * m }
fn k8(m: f64) -> f64 { 8. * m * m * m * m - 8. * m * m + 1. }
pub fn direct__code(a: f64, b: f64, l1: f64, p1: f64, az: f64, s: f64) -> R { assume(az > -PI && az < PI); out(RappIterativeGeodisicSolver::new(&ell(a, b)).solve_direct(pt(l1, p1), Azimuth::new(az * RAD), s * M)) }
pub fn direct__spec(a: f64, b: f64, l1: f64, p1: f64, az: f64, s: f64) -> R {
    let f = (a - b) / a;
    let b1 = (b / a * p1.tan()).atan();
    let (s1, c1) = (b1.sin(), b1.cos());
    let sa = c1 * az.sin();
    let ca2 = 1. - sa * sa;
    let u = ca2 * (a * a - b * b) / (b * b);
    let x0 = s / (b * b0(u));
    let sg1 = b1.tan().atan2(az.cos());
    let mut sg = x0;
    let mut i = 0;
    while i < 30 {
        let (ss, cs, m) = (sg.sin(), sg.cos(), (2. * sg1 + sg).cos());
        let (ss2, ss3) = (2. * ss * cs, 3. * ss * cs * cs - ss * ss * ss);
        let n = x0 - b2(u) / b0(u) * ss * m - b4(u) / b0(u) * ss2 * k4(m) - b6(u) / b0(u) * ss3 * k6(m);
        let d = n - sg;
        sg = n;
        if d.abs() < 0.5e-14 {
            let be2 = ((sg1 + sg).sin() * sa.asin().cos()).asin();
            let (s2, c2) = (be2.sin(), be2.cos());
            let lat = be2.tan().atan2(1. - f);
            let (sl, cl) = (ss * az.sin() / c2, (cs - s1 * s2) / (c1 * c2));
            let l = l1 + sl.atan2(cl) - f * sa * (a0(f, ca2) * sg + a2(f, ca2) * ss * m + a4(f, ca2) * ss2 * k4(m) + a6(f, ca2) * ss3 * k6(m));
            let x = azr((sl * c1).atan2(s2 * c1 * cl - s1 * c2));
            return Some([l1, p1, l.sin(), l.cos(), lat, az.sin(), az.cos(), x, s]);
        }
        i += 1;
    }
    None
}
type Q = Option<[f64; 3]>;
fn out2(r: Result<Geodesic, &'static str>, l1: f64, p1: f64, l2: f64, p2: f64) -> Q {
    match r {
        Ok(g) => {
            // the end points are returned as given
            if g.p1.0.angle().rad() != l1 || g.p1.1.angle().rad() != p1 || g.p2.0.angle().rad() != l2 || g.p2.1.angle().rad() != p2 { return Some([f64::NAN; 3]) }
            Some([g.s.m(), g.alpha1.angle().rad(), g.alpha2.angle().rad()])
        }
        Err(_) => None,
    }
}
pub fn inverse__code(a: f64, b: f64, l1: f64, p1: f64, l2: f64, p2: f64) -> Q { assume(l2 - l1 > -PI && l2 - l1 < PI); out2(RappIterativeGeodisicSolver::new(&ell(a, b)).solve_inverse(pt(l1, p1), pt(l2, p2)), l1, p1, l2, p2) }
pub fn inverse__spec(a: f64, b: f64, l1: f64, p1: f64, l2: f64, p2: f64) -> Q {
    let f = (a - b) / a;
    let (t1, t2) = ((b / a * p1.tan()).atan(), (b / a * p2.tan()).atan());
    let (s1, c1, s2, c2) = (t1.sin(), t1.cos(), t2.sin(), t2.cos());
    let l = l2 - l1;
    let mut lam = l;
    let (mut m, mut m4, mut m6, mut m8) = (0., 0., 0., 0.);
    let mut i = 0;
    while i < 30 {
        let (sl, cl) = (lam.sin(), lam.cos());
        let x = c1 * s2 - s1 * c2 * cl;
        let y = c2 * sl;
        let ss = (x * x + y * y).sqrt();
        let cs = s1 * s2 + c1 * c2 * cl;
        let sig = ss.atan2(cs);
        let (ss2, ss3, ss4) = (2. * ss * cs, 3. * ss * cs * cs - ss * ss * ss, 4. * ss * cs * cs * cs - 4. * ss * ss * ss * cs);
        let sa = if ss == 0. { 0. } else { c1 * c2 * sl / ss };
        let ca2 = 1. - sa * sa;
        let n = l + if ca2 == 0. { f * sa * sig } else {
            m = cs - 2. * s1 * s2 / ca2;
            (m4, m6, m8) = (k4(m), k6(m), k8(m));
            f * sa * (a0(f, ca2) * sig + a2(f, ca2) * ss * m + a4(f, ca2) * ss2 * m4 + a6(f, ca2) * ss3 * m6)
        };
        let d = n - lam;
        lam = n;
        if d.abs() < 0.5e-14 {
            let u = ca2 * (a * a - b * b) / (b * b);
            let s = if ca2 == 0. { b * sig } else { b * (b0(u) * sig + b2(u) * ss * m + b4(u) * ss2 * m4 + b6(u) * ss3 * m6 + b8(u) * ss4 * m8) };
            let (sl2, cl2) = (lam.sin(), lam.cos());
            // meridians: along one, or over a pole
            let (z1, z2) = if lam == 0. { if p1 < p2 { (0., 0.) } else { (PI, PI) } } else if lam == PI { if p1 >= 0. { (0., PI) } else { (PI, 0.) } } else {
                let cl = if s < 10000. { cl } else { cl2 };
                ((sa / c1).atan2(sa / c1 * (s2 * c1 - cl * s1 * c2) / (sl2 * c2)), (sa / c2).atan2(sa / c2 * (s2 * c1 * cl - s1 * c2) / (sl2 * c1)))
            };
            return Some([s, azr(z1), azr(z2)]);
        }
        i += 1;
    }
    None
}
