//! Transverse Mercator and UTM
use crate::assume;
use geokit::cs::cartesian::projected::ENH;
use geokit::cs::geodetic::{Lat, Lon, LLH};
use geokit::geodesy::Ellipsoid;
use geokit::projections::ProjectionSpec;
use geokit::units::angle::RAD;
use geokit::units::length::M;
use std::f64::consts::PI;
fn ell(a: f64, b: f64) -> Ellipsoid { assume(b > 0. && a > b && b > 0.5 * a && a < 1e9); Ellipsoid::from_ab("e", a * M, b * M) }
fn lonr(l: f64) { assume(l > -PI && l <= PI); }
fn near(l: f64, l0: f64) { lonr(l); lonr(l0); assume(l - l0 > -PI / 2. && l - l0 < PI / 2.); }
fn latr(p: f64) { assume(p > -PI / 2. && p < PI / 2.); }
fn tm(l0: f64, p0: f64, k0: f64, fe: f64, fnn: f64) -> ProjectionSpec { ProjectionSpec::TransverseMercator { lon0: Lon::const_new(l0 * RAD), lat0: Lat::new(p0 * RAD), k0, false_easting: fe * M, false_northing: fnn * M } }
fn llh(l: f64, p: f64, h: f64) -> LLH { LLH { lon: Lon::const_new(l * RAD), lat: Lat::new(p * RAD), height: h * M } }
fn fwd(s: ProjectionSpec, e: &Ellipsoid, l: LLH) -> Option<[f64; 3]> { match s.applied_to(e).proj(l) { Ok(c) => Some([c.easting.m(), c.northing.m(), c.height.m()]), Err(_) => None } }
fn inv(s: ProjectionSpec, e: &Ellipsoid, c: [f64; 3]) -> Option<[f64; 4]> {
    match s.applied_to(e).unproj(ENH { easting: c[0] * M, northing: c[1] * M, height: c[2] * M }) {
        Ok(l) => { let g = l.lon.angle().rad(); Some([g.sin(), g.cos(), l.lat.angle().rad(), l.height.m()]) }
        Err(_) => None,
    }
}
fn ecc(a: f64, b: f64) -> f64 { (1. - b * b / (a * a)).sqrt() }
fn n3(a: f64, b: f64) -> f64 { (a - b) / (a + b) }
fn brad(a: f64, b: f64) -> f64 { let n = n3(a, b); a / (1. + n) * (1. + n * n / 4. + n * n * n * n / 64.) }
/// forward series, EPSG guidance note 7-2 (JHS)
fn h(n: f64) -> [f64; 4] {
    let (n2, n3, n4) = (n * n, n * n * n, n * n * n * n);
    [n / 2. - 2. / 3. * n2 + 5. / 16. * n3 + 41. / 180. * n4, 13. / 48. * n2 - 3. / 5. * n3 + 557. / 1440. * n4, 61. / 240. * n3 - 103. / 140. * n4, 49561. / 161280. * n4]
}
fn hp(n: f64) -> [f64; 4] {
    let (n2, n3, n4) = (n * n, n * n * n, n * n * n * n);
    [n / 2. - 2. / 3. * n2 + 37. / 96. * n3 - 1. / 360. * n4, 1. / 48. * n2 + 1. / 15. * n3 - 437. / 1440. * n4, 17. / 480. * n3 - 37. / 840. * n4, 4397. / 161280. * n4]
}
fn beta(e: f64, p: f64) -> f64 { (p.tan().asinh() - e * (e * p.sin()).atanh()).sinh().atan() }
/// conformal plane coordinates before scaling
fn plane(a: f64, b: f64, dl: f64, p: f64) -> (f64, f64) {
    let be = beta(ecc(a, b), p);
    let e0 = (be.cos() * dl.sin()).atanh();
    let x0 = (be.sin() * e0.cosh()).asin();
    let k = h(n3(a, b));
    (e0 + k[0] * (2. * x0).cos() * (2. * e0).sinh() + k[1] * (4. * x0).cos() * (4. * e0).sinh() + k[2] * (6. * x0).cos() * (6. * e0).sinh() + k[3] * (8. * x0).cos() * (8. * e0).sinh(),
     x0 + k[0] * (2. * x0).sin() * (2. * e0).cosh() + k[1] * (4. * x0).sin() * (4. * e0).cosh() + k[2] * (6. * x0).sin() * (6. * e0).cosh() + k[3] * (8. * x0).sin() * (8. * e0).cosh())
}
fn merid(a: f64, b: f64, p: f64) -> f64 { let x = beta(ecc(a, b), p); let k = h(n3(a, b)); x + k[0] * (2. * x).sin() + k[1] * (4. * x).sin() + k[2] * (6. * x).sin() + k[3] * (8. * x).sin() }
fn out(a: f64, b: f64, k0: f64, fe: f64, fnn: f64, m0: f64, dl: f64, p: f64, h: f64) -> Option<[f64; 3]> { let (e, x) = plane(a, b, dl, p); let r = brad(a, b); Some([fe + k0 * r * e, fnn + k0 * (r * x - r * m0), h]) }
pub fn tm__code(a: f64, b: f64, l0: f64, p0: f64, k0: f64, fe: f64, fnn: f64, l: f64, p: f64, h: f64) -> Option<[f64; 3]> { near(l, l0); latr(p); latr(p0); assume(p0 != 0. && k0 > 0.); fwd(tm(l0, p0, k0, fe, fnn), &ell(a, b), llh(l, p, h)) }
pub fn tm__spec(a: f64, b: f64, l0: f64, p0: f64, k0: f64, fe: f64, fnn: f64, l: f64, p: f64, h: f64) -> Option<[f64; 3]> { out(a, b, k0, fe, fnn, merid(a, b, p0), l - l0, p, h) }
pub fn tm_o0__code(a: f64, b: f64, l0: f64, k0: f64, fe: f64, fnn: f64, l: f64, p: f64, h: f64) -> Option<[f64; 3]> { near(l, l0); latr(p); assume(k0 > 0.); fwd(tm(l0, 0., k0, fe, fnn), &ell(a, b), llh(l, p, h)) }
pub fn tm_o0__spec(a: f64, b: f64, l0: f64, k0: f64, fe: f64, fnn: f64, l: f64, p: f64, h: f64) -> Option<[f64; 3]> { out(a, b, k0, fe, fnn, 0., l - l0, p, h) }
pub fn tm_on__code(a: f64, b: f64, l0: f64, k0: f64, fe: f64, fnn: f64, l: f64, p: f64, h: f64) -> Option<[f64; 3]> { near(l, l0); latr(p); assume(k0 > 0.); fwd(tm(l0, PI / 2., k0, fe, fnn), &ell(a, b), llh(l, p, h)) }
pub fn tm_on__spec(a: f64, b: f64, l0: f64, k0: f64, fe: f64, fnn: f64, l: f64, p: f64, h: f64) -> Option<[f64; 3]> { out(a, b, k0, fe, fnn, PI / 2., l - l0, p, h) }
pub fn tm_os__code(a: f64, b: f64, l0: f64, k0: f64, fe: f64, fnn: f64, l: f64, p: f64, h: f64) -> Option<[f64; 3]> { near(l, l0); latr(p); assume(k0 > 0.); fwd(tm(l0, -PI / 2., k0, fe, fnn), &ell(a, b), llh(l, p, h)) }
pub fn tm_os__spec(a: f64, b: f64, l0: f64, k0: f64, fe: f64, fnn: f64, l: f64, p: f64, h: f64) -> Option<[f64; 3]> { out(a, b, k0, fe, fnn, -PI / 2., l - l0, p, h) }
fn cm(z: u8) -> f64 { (6. * (z as f64) - 183.) * PI / 180. }
pub fn utmn__code(a: f64, b: f64, z: u8, l: f64, p: f64, h: f64) -> Option<[f64; 3]> { assume(z >= 1 && z <= 60); near(l, cm(z)); latr(p); fwd(ProjectionSpec::UTMNorth { zone: z }, &ell(a, b), llh(l, p, h)) }
pub fn utmn__spec(a: f64, b: f64, z: u8, l: f64, p: f64, h: f64) -> Option<[f64; 3]> { out(a, b, 0.9996, 500000., 0., 0., l - cm(z), p, h) }
pub fn utms__code(a: f64, b: f64, z: u8, l: f64, p: f64, h: f64) -> Option<[f64; 3]> { assume(z >= 1 && z <= 60); near(l, cm(z)); latr(p); fwd(ProjectionSpec::UTMSouth { zone: z }, &ell(a, b), llh(l, p, h)) }
pub fn utms__spec(a: f64, b: f64, z: u8, l: f64, p: f64, h: f64) -> Option<[f64; 3]> { out(a, b, 0.9996, 500000., 1e7, 0., l - cm(z), p, h) }
/// inverse: conformal latitude and longitude by the inverse series, then the isometric latitude iterated to 1e-12
fn iout(a: f64, b: f64, l0: f64, k0: f64, fe: f64, fnn: f64, m0: f64, c: [f64; 3]) -> Option<[f64; 4]> {
    let (r, e, k) = (brad(a, b), ecc(a, b), hp(n3(a, b)));
    let y = (c[0] - fe) / (r * k0);
    let x = (c[1] - fnn + k0 * r * m0) / (r * k0);
    let x0 = x - (k[0] * (2. * x).sin() * (2. * y).cosh() + k[1] * (4. * x).sin() * (4. * y).cosh() + k[2] * (6. * x).sin() * (6. * y).cosh() + k[3] * (8. * x).sin() * (8. * y).cosh());
    let y0 = y - (k[0] * (2. * x).cos() * (2. * y).sinh() + k[1] * (4. * x).cos() * (4. * y).sinh() + k[2] * (6. * x).cos() * (6. * y).sinh() + k[3] * (8. * x).cos() * (8. * y).sinh());
    let be = (x0.sin() / y0.cosh()).asin();
    let q = be.tan().asinh();
    let l = l0 + (y0.tanh() / be.cos()).asin();
    let mut w = q + e * (e * q.tanh()).atanh();
    let mut i = 0;
    while i < 100 {
        let v = q + e * (e * w.tanh()).atanh();
        if (v - w).abs() < 1e-12 { return Some([l.sin(), l.cos(), v.sinh().atan(), c[2]]); }
        w = v;
        i += 1;
    }
    None
}
pub fn tm_inv__code(a: f64, b: f64, l0: f64, p0: f64, k0: f64, fe: f64, fnn: f64, c: [f64; 3]) -> Option<[f64; 4]> { lonr(l0); latr(p0); assume(p0 != 0. && k0 > 0.); inv(tm(l0, p0, k0, fe, fnn), &ell(a, b), c) }
pub fn tm_inv__spec(a: f64, b: f64, l0: f64, p0: f64, k0: f64, fe: f64, fnn: f64, c: [f64; 3]) -> Option<[f64; 4]> { iout(a, b, l0, k0, fe, fnn, merid(a, b, p0), c) }
pub fn utm_inv__code(a: f64, b: f64, z: u8, c: [f64; 3]) -> [Option<[f64; 4]>; 2] { assume(z >= 1 && z <= 60); let e = ell(a, b); [inv(ProjectionSpec::UTMNorth { zone: z }, &e, c), inv(ProjectionSpec::UTMSouth { zone: z }, &e, c)] }
pub fn utm_inv__spec(a: f64, b: f64, z: u8, c: [f64; 3]) -> [Option<[f64; 4]>; 2] { [iout(a, b, cm(z), 0.9996, 500000., 0., 0., c), iout(a, b, cm(z), 0.9996, 500000., 1e7, 0., c)] }
