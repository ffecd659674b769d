//! Mercator (1SP, 2SP) and Pseudo-Mercator
use crate::assume;
use geokit::cs::cartesian::projected::ENH;
use geokit::cs::geodetic::{Lat, Lon, LLH};
use geokit::geodesy::Ellipsoid;
use geokit::projections::{Projection, ProjectionSpec};
use geokit::units::angle::RAD;
use geokit::units::length::M;
use std::f64::consts::PI;
fn ell(a: f64, b: f64) -> Ellipsoid { assume(b > 0. && a > b && a < 1e9); Ellipsoid::from_ab("e", a * M, b * M) }
fn lonr(l: f64) { assume(l > -PI && l <= PI); }
fn dif(l: f64, l0: f64) { lonr(l); lonr(l0); assume(l - l0 > -PI && l - l0 < PI); }
fn s1(l0: f64, k0: f64, fe: f64, fnn: f64) -> ProjectionSpec { ProjectionSpec::Mercator1SP { lon0: Lon::const_new(l0 * RAD), k0, false_easting: fe * M, false_northing: fnn * M } }
fn s2(l0: f64, p0: f64, fe: f64, fnn: f64) -> ProjectionSpec { ProjectionSpec::Mercator2SP { lon0: Lon::const_new(l0 * RAD), lat0: Lat::new(p0 * RAD), false_easting: fe * M, false_northing: fnn * M } }
fn sw(l0: f64, fe: f64, fnn: f64) -> ProjectionSpec { ProjectionSpec::WebMercator { lon0: Lon::const_new(l0 * RAD), lat0: Lat::ZERO, false_easting: fe * M, false_northing: fnn * M } }
fn llh(l: f64, p: f64, h: f64) -> LLH { LLH { lon: Lon::const_new(l * RAD), lat: Lat::new(p * RAD), height: h * M } }
fn fwd(s: ProjectionSpec, e: &Ellipsoid, l: LLH) -> Option<[f64; 3]> { match s.applied_to(e).proj(l) { Ok(c) => Some([c.easting.m(), c.northing.m(), c.height.m()]), Err(_) => None } }
/// longitude as a direction, latitude as sine (the clamp is proved elsewhere), height
fn inv(s: ProjectionSpec, e: &Ellipsoid, c: [f64; 3]) -> Option<[f64; 4]> {
    match s.applied_to(e).unproj(ENH { easting: c[0] * M, northing: c[1] * M, height: c[2] * M }) {
        Ok(l) => { let g = l.lon.angle().rad(); Some([g.sin(), g.cos(), l.lat.angle().rad(), l.height.m()]) }
        Err(_) => None,
    }
}
fn ecc(a: f64, b: f64) -> f64 { (1. - b * b / (a * a)).sqrt() }
/// isometric latitude
fn iso(e: f64, p: f64) -> f64 { (p / 2. + PI / 4.).tan().ln() - e / 2. * ((1. + e * p.sin()) / (1. - e * p.sin())).ln() }
pub fn merc1__code(a: f64, b: f64, l0: f64, k0: f64, fe: f64, fnn: f64, l: f64, p: f64, h: f64) -> Option<[f64; 3]> { dif(l, l0); assume(p > -PI / 2. && p < PI / 2. && k0 > 0.); fwd(s1(l0, k0, fe, fnn), &ell(a, b), llh(l, p, h)) }
pub fn merc1__spec(a: f64, b: f64, l0: f64, k0: f64, fe: f64, fnn: f64, l: f64, p: f64, h: f64) -> Option<[f64; 3]> { Some([fe + a * k0 * (l - l0), fnn + a * k0 * iso(ecc(a, b), p), h]) }
pub fn merc2__code(a: f64, b: f64, l0: f64, p0: f64, fe: f64, fnn: f64, l: f64, p: f64, h: f64) -> Option<[f64; 3]> { dif(l, l0); assume(p > -PI / 2. && p < PI / 2. && p0 > -PI / 2. && p0 < PI / 2.); fwd(s2(l0, p0, fe, fnn), &ell(a, b), llh(l, p, h)) }
pub fn merc2__spec(a: f64, b: f64, l0: f64, p0: f64, fe: f64, fnn: f64, l: f64, p: f64, h: f64) -> Option<[f64; 3]> {
    // the scale is true on the standard parallel: a k0 is its radius
    let r = a * p0.cos() / (1. - (1. - b * b / (a * a)) * p0.sin() * p0.sin()).sqrt();
    Some([fe + r * (l - l0), fnn + r * iso(ecc(a, b), p), h])
}
pub fn web__code(a: f64, b: f64, l0: f64, fe: f64, fnn: f64, l: f64, p: f64, h: f64) -> Option<[f64; 3]> { dif(l, l0); assume(p > -PI / 2. && p < PI / 2.); fwd(sw(l0, fe, fnn), &ell(a, b), llh(l, p, h)) }
pub fn web__spec(a: f64, b: f64, l0: f64, fe: f64, fnn: f64, l: f64, p: f64, h: f64) -> Option<[f64; 3]> { Some([fe + a * (l - l0), fnn + a * iso(0., p), h]) }
// the shorter way around, always
pub fn wrap__code(a: f64, b: f64, l0: f64, l: f64) -> [f64; 4] {
    lonr(l); lonr(l0);
    let e = ell(a, b);
    let x = match s1(l0, 1., 0., 0.).applied_to(&e).proj(llh(l, 0., 0.)) { Ok(c) => c.easting.m() / a, Err(_) => 9. };
    let y = match sw(l0, 0., 0.).applied_to(&e).proj(llh(l, 0., 0.)) { Ok(c) => c.easting.m() / a, Err(_) => 9. };
    [x.sin(), x.cos(), y.sin(), y.cos()]
}
pub fn wrap__spec(a: f64, b: f64, l0: f64, l: f64) -> [f64; 4] { let d = l - l0; [d.sin(), d.cos(), d.sin(), d.cos()] }
pub fn pole__code(a: f64, b: f64, l: f64) -> [bool; 6] {
    lonr(l);
    let e = ell(a, b);
    let (n, s) = (PI / 2., -PI / 2.);
    [fwd(s1(0., 1., 0., 0.), &e, llh(l, n, 0.)).is_none(), fwd(s1(0., 1., 0., 0.), &e, llh(l, s, 0.)).is_none(), fwd(s2(0., 0.5, 0., 0.), &e, llh(l, n, 0.)).is_none(), fwd(s2(0., 0.5, 0., 0.), &e, llh(l, s, 0.)).is_none(),
     fwd(sw(0., 0., 0.), &e, llh(l, n, 0.)).is_none(), fwd(sw(0., 0., 0.), &e, llh(l, s, 0.)).is_none()]
}
pub fn pole__spec(a: f64, b: f64, l: f64) -> [bool; 6] { [true; 6] }
fn clamp(x: f64) -> f64 { if x < -PI / 2. { -PI / 2. } else if x > PI / 2. { PI / 2. } else { x } }
fn series(e2: f64, c: f64) -> f64 {
    let (e4, e6, e8) = (e2 * e2, e2 * e2 * e2, e2 * e2 * e2 * e2);
    c + (e2 / 2. + 5. * e4 / 24. + e6 / 12. + 13. * e8 / 360.) * (2. * c).sin() + (7. * e4 / 48. + 29. * e6 / 240. + 811. * e8 / 11520.) * (4. * c).sin() + (7. * e6 / 120. + 81. * e8 / 1120.) * (6. * c).sin() + 4279. * e8 / 161280. * (8. * c).sin()
}
pub fn merc1_inv__code(a: f64, b: f64, l0: f64, k0: f64, fe: f64, fnn: f64, c: [f64; 3]) -> Option<[f64; 4]> { lonr(l0); assume(k0 > 0.); inv(s1(l0, k0, fe, fnn), &ell(a, b), c) }
pub fn merc1_inv__spec(a: f64, b: f64, l0: f64, k0: f64, fe: f64, fnn: f64, c: [f64; 3]) -> Option<[f64; 4]> {
    let l = l0 + (c[0] - fe) / (a * k0);
    let chi = PI / 2. - 2. * ((fnn - c[1]) / (a * k0)).exp().atan();
    Some([l.sin(), l.cos(), clamp(series(1. - b * b / (a * a), chi)), c[2]])
}
pub fn merc2_inv__code(a: f64, b: f64, l0: f64, p0: f64, fe: f64, fnn: f64, c: [f64; 3]) -> Option<[f64; 4]> { lonr(l0); assume(p0 > -PI / 2. && p0 < PI / 2.); inv(s2(l0, p0, fe, fnn), &ell(a, b), c) }
pub fn merc2_inv__spec(a: f64, b: f64, l0: f64, p0: f64, fe: f64, fnn: f64, c: [f64; 3]) -> Option<[f64; 4]> {
    let r = a * p0.cos() / (1. - (1. - b * b / (a * a)) * p0.sin() * p0.sin()).sqrt();
    let l = l0 + (c[0] - fe) / r;
    let chi = PI / 2. - 2. * ((fnn - c[1]) / r).exp().atan();
    Some([l.sin(), l.cos(), clamp(series(1. - b * b / (a * a), chi)), c[2]])
}
pub fn web_inv__code(a: f64, b: f64, l0: f64, fe: f64, fnn: f64, c: [f64; 3]) -> Option<[f64; 4]> { lonr(l0); inv(sw(l0, fe, fnn), &ell(a, b), c) }
pub fn web_inv__spec(a: f64, b: f64, l0: f64, fe: f64, fnn: f64, c: [f64; 3]) -> Option<[f64; 4]> {
    let l = l0 + (c[0] - fe) / a;
    Some([l.sin(), l.cos(), PI / 2. - 2. * ((fnn - c[1]) / a).exp().atan(), c[2]])
}
// Pseudo-Mercator has a closed inverse: the round trip is exact
pub fn web_rt__code(a: f64, b: f64, l0: f64, fe: f64, fnn: f64, l: f64, p: f64, h: f64) -> Option<[f64; 5]> {
    dif(l, l0); assume(p > -PI / 2. && p < PI / 2.);
    let e = ell(a, b);
    let q = sw(l0, fe, fnn).applied_to(&e);
    match q.proj(llh(l, p, h)) { Ok(c) => match q.unproj(c) { Ok(r) => { let g = r.lon.angle().rad(); Some([g.sin(), g.cos(), r.lat.sin(), r.lat.cos(), r.height.m()]) } Err(_) => None }, Err(_) => None }
}
pub fn web_rt__spec(a: f64, b: f64, l0: f64, fe: f64, fnn: f64, l: f64, p: f64, h: f64) -> Option<[f64; 5]> { Some([l.sin(), l.cos(), p.sin(), p.cos(), h]) }
