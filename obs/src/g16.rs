//! Vincenty's geodesics
use crate::assume;
use geokit::cs::azimuth::Azimuth;
use geokit::cs::geodetic::{Lat, Lon};
use geokit::geodesy::geodesics::vincenty::VincentyGeodesicSolver;
use geokit::geodesy::geodesics::{Geodesic, GeodesicSolver};
use geokit::geodesy::Ellipsoid;
use geokit::units::angle::RAD;
use geokit::units::length::M;
use std::f64::consts::PI;
fn ell(a: f64, b: f64) -> Ellipsoid { assume(b > 0. && a > b && b > 0.5 * a && a < 1e9); Ellipsoid::from_ab("e", a * M, b * M) }
/// azimuths live in (-π, π]
fn azr(x: f64) -> f64 { if x <= -PI { PI } else { x } }
fn latr(p: f64) { assume(p > -PI / 2. && p < PI / 2.); }
fn lonr(l: f64) { assume(l > -PI && l <= PI); }
fn pt(l: f64, p: f64) -> (Lon, Lat) { lonr(l); latr(p); (Lon::const_new(l * RAD), Lat::new(p * RAD)) }
type R = Option<[f64; 11]>;
fn out(r: Result<Geodesic, &'static str>) -> R {
    match r {
        Ok(g) => {
            let (l, x) = (g.p2.0.angle().rad(), g.alpha2.angle().rad());
            Some([g.p1.0.angle().rad(), g.p1.1.angle().rad(), l.sin(), l.cos(), g.p2.1.angle().rad(), g.alpha1.angle().sin(), g.alpha1.angle().cos(), x.sin(), x.cos(), g.s.m(), 0.])
        }
        Err(_) => None,
    }
}
/// Vincenty 1975, equations 3 and 4
fn ab(u2: f64) -> (f64, f64) { (1. + u2 / 16384. * (4096. + u2 * (u2 * (320. - 175. * u2) - 768.)), u2 / 1024. * (256. + u2 * (u2 * (74. - 47. * u2) - 128.))) }
/// equation 6
fn dsig(bb: f64, s: f64, c: f64, m: f64) -> f64 { bb * s * (m + bb / 4. * (c * (2. * m * m - 1.) - bb / 6. * m * (4. * s * s - 3.) * (4. * m * m - 3.))) }
/// equations 10 and 11
fn dlam(f: f64, sa: f64, ca2: f64, sig: f64, s: f64, c: f64, m: f64) -> f64 { let k = f / 16. * ca2 * (4. + f * (4. - 3. * ca2)); (1. - k) * f * sa * (sig + k * s * (m + k * c * (2. * m * m - 1.))) }
pub fn direct__code(a: f64, b: f64, l1: f64, p1: f64, az: f64, s: f64) -> R { assume(az > -PI && az < PI); out(VincentyGeodesicSolver::new(&ell(a, b)).solve_direct(pt(l1, p1), Azimuth::new(az * RAD), s * M)) }
pub fn direct__spec(a: f64, b: f64, l1: f64, p1: f64, az: f64, s: f64) -> R {
    let f = (a - b) / a;
    let t = b / a * p1.tan();
    let cu = 1. / (1. + t * t).sqrt();
    let su = t * cu;
    let s1 = t.atan2(az.cos());
    let sa = cu * az.sin();
    let ca2 = 1. - sa * sa;
    let (aa, bb) = ab(ca2 * (a * a - b * b) / (b * b));
    let s0 = s / (b * aa);
    let mut sg = s0;
    let mut i = 0;
    while i < 30 {
        let n = s0 + dsig(bb, sg.sin(), sg.cos(), (2. * s1 + sg).cos());
        let d = n - sg;
        sg = n;
        if d.abs() < 1e-12 {
            let (ss, cs, m) = (sg.sin(), sg.cos(), (2. * s1 + sg).cos());
            let h = su * ss - cu * cs * az.cos();
            let lat = (su * cs + cu * ss * az.cos()).atan2((1. - f) * (sa * sa + h * h).sqrt());
            let lam = (ss * az.sin()).atan2(cu * cs - su * ss * az.cos());
            let l = l1 + lam - dlam(f, sa, ca2, sg, ss, cs, m);
            let x = azr(sa.atan2(-h));
            return Some([l1, p1, l.sin(), l.cos(), lat, az.sin(), az.cos(), x.sin(), x.cos(), s, 0.]);
        }
        i += 1;
    }
    None
}
pub fn inverse__code(a: f64, b: f64, l1: f64, p1: f64, l2: f64, p2: f64) -> R { assume(l2 - l1 > -PI && l2 - l1 < PI); out(VincentyGeodesicSolver::new(&ell(a, b)).solve_inverse(pt(l1, p1), pt(l2, p2))) }
pub fn inverse__spec(a: f64, b: f64, l1: f64, p1: f64, l2: f64, p2: f64) -> R { inv(a, b, l1, p1, l2, p2, l2 - l1) }
// across the antimeridian, either way
pub fn inverse_east__code(a: f64, b: f64, l1: f64, p1: f64, l2: f64, p2: f64) -> R { assume(l2 - l1 < -PI && l2 - l1 > -2. * PI); out(VincentyGeodesicSolver::new(&ell(a, b)).solve_inverse(pt(l1, p1), pt(l2, p2))) }
pub fn inverse_east__spec(a: f64, b: f64, l1: f64, p1: f64, l2: f64, p2: f64) -> R { inv(a, b, l1, p1, l2, p2, l2 - l1 + 2. * PI) }
pub fn inverse_west__code(a: f64, b: f64, l1: f64, p1: f64, l2: f64, p2: f64) -> R { assume(l2 - l1 > PI && l2 - l1 < 2. * PI); out(VincentyGeodesicSolver::new(&ell(a, b)).solve_inverse(pt(l1, p1), pt(l2, p2))) }
pub fn inverse_west__spec(a: f64, b: f64, l1: f64, p1: f64, l2: f64, p2: f64) -> R { inv(a, b, l1, p1, l2, p2, l2 - l1 - 2. * PI) }
fn inv(a: f64, b: f64, l1: f64, p1: f64, l2: f64, p2: f64, l: f64) -> R {
    let f = (a - b) / a;
    let (u1, u2) = ((b / a * p1.tan()).atan(), (b / a * p2.tan()).atan());
    let (s1, c1, s2, c2) = (u1.sin(), u1.cos(), u2.sin(), u2.cos());
    let mut lam = l;
    let mut m = 0.;
    let mut i = 0;
    while i < 30 {
        let x = c1 * s2 - s1 * c2 * lam.cos();
        let y = c2 * lam.sin();
        let sig = (x * x + y * y).sqrt().atan2(s1 * s2 + c1 * c2 * lam.cos());
        let (ss, cs) = (sig.sin(), sig.cos());
        let sa = if ss == 0. { 0. } else { c1 * c2 * lam.sin() / ss };
        let ca2 = 1. - sa * sa;
        let n = l + if ca2 == 0. { f * sa * sig } else {
            m = cs - 2. * s1 * s2 / ca2;
            dlam(f, sa, ca2, sig, ss, cs, m)
        };
        let d = n - lam;
        lam = n;
        if d.abs() < 1e-12 {
            let (aa, bb) = ab(ca2 * (a * a - b * b) / (b * b));
            let s = if ca2 == 0. { b * sig } else { b * aa * (sig - dsig(bb, ss, cs, m)) };
            let z1 = azr((c2 * lam.sin()).atan2(c1 * s2 - s1 * c2 * lam.cos()));
            let z2 = azr((c1 * lam.sin()).atan2(c1 * s2 * lam.cos() - s1 * c2));
            return Some([l1, p1, l2.sin(), l2.cos(), p2, z1.sin(), z1.cos(), z2.sin(), z2.cos(), s, 0.]);
        }
        i += 1;
    }
    None
}
