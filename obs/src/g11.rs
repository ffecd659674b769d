//! geocentric to geodetic
use crate::assume;
use geokit::cs::cartesian::geocentric::XYZ;
use geokit::cs::geodetic::{Lat, Lon, LLH};
use geokit::geodesy::{Ellipsoid, GeodeticDatum, PrimeMeridian};
use geokit::units::angle::RAD;
use geokit::units::length::M;
use std::f64::consts::PI;
fn datum(a: f64, b: f64, pm: f64) -> GeodeticDatum { GeodeticDatum::new("d", Ellipsoid::from_ab("e", a * M, b * M), PrimeMeridian::new("p", Lon::rad(pm))) }
fn pmr(pm: f64) { assume(pm > -PI && pm <= PI); }
fn xyz(x: f64, y: f64, z: f64) -> XYZ { XYZ { x: x * M, y: y * M, z: z * M } }
fn lon(l: LLH) -> [f64; 2] { let a = l.lon.angle().rad(); [a.sin(), a.cos()] }
fn lat(l: LLH) -> [f64; 2] { let a = l.lat.angle().rad(); [a.sin(), a.cos()] }
fn sane(a: f64, b: f64) { assume(b > 0. && a > b && a < 1e9); }
// longitude: the direction of (x, y), counted from the prime meridian of the datum
pub fn lon_ell__code(a: f64, b: f64, pm: f64, x: f64, y: f64, z: f64) -> [f64; 2] { sane(a, b); pmr(pm); assume(y != 0.); lon(datum(a, b, pm).xyz_to_llh(xyz(x, y, z))) }
pub fn lon_ell__spec(a: f64, b: f64, pm: f64, x: f64, y: f64, z: f64) -> [f64; 2] { let r = (x * x + y * y).sqrt(); let (s, c) = (y / r, x / r); [s * pm.cos() - c * pm.sin(), c * pm.cos() + s * pm.sin()] }
pub fn lon_sph__code(a: f64, pm: f64, x: f64, y: f64, z: f64) -> [f64; 2] { assume(a > 0. && a < 1e9); pmr(pm); assume(y != 0.); lon(datum(a, a, pm).xyz_to_llh(xyz(x, y, z))) }
pub fn lon_sph__spec(a: f64, pm: f64, x: f64, y: f64, z: f64) -> [f64; 2] { let r = (x * x + y * y).sqrt(); let (s, c) = (y / r, x / r); [s * pm.cos() - c * pm.sin(), c * pm.cos() + s * pm.sin()] }
// sphere
pub fn sphere__code(a: f64, pm: f64, x: f64, y: f64, z: f64) -> [f64; 3] { assume(a > 0. && a < 1e9); pmr(pm); assume(x != 0. || y != 0.); let l = datum(a, a, pm).xyz_to_llh(xyz(x, y, z)); [l.lat.sin(), l.lat.cos(), l.height.m()] }
pub fn sphere__spec(a: f64, pm: f64, x: f64, y: f64, z: f64) -> [f64; 3] { let r = (x * x + y * y).sqrt(); let d = (x * x + y * y + z * z).sqrt(); [z / d, r / d, d - a] }
/// the positive root k of p/(k+e2)^2 + q/k^2 = 1 (Vermeille 2004): outside the evolute, off the axis
fn root(a: f64, b: f64, x: f64, y: f64, z: f64) {
    let e2 = 1. - b * b / (a * a);
    let p = (x * x + y * y) / (a * a);
    let q = (1. - e2) * z * z / (a * a);
    let r = (p + q - e2 * e2) / 6.;
    assume(r > 0.);
    let s = e2 * e2 * p * q / (4. * r * r * r);
    let t = (1. + s + (s * (2. + s)).sqrt()).cbrt();
    let u = r * (1. + t + 1. / t);
    assume(u > 0.);
    let v = (u * u + e2 * e2 * q).sqrt();
    let w = e2 * (u + v - q) / (2. * v);
    let k = (u + v + w * w).sqrt() - w;
    assume(k > 0.);
}
pub fn inverse__code(a: f64, b: f64, x: f64, y: f64, z: f64) -> [f64; 2] {
    sane(a, b); assume(x > 0. && y > 0. && z != 0.);
    let d = datum(a, b, 0.);
    let l = d.xyz_to_llh(xyz(x, y, z));
    let (s, c, h) = (l.lat.sin(), l.lat.cos(), l.height.m());
    let n = a / (1. - (1. - b * b / (a * a)) * s * s).sqrt();
    [(n + h) * c, (n * b * b / (a * a) + h) * s]
}
pub fn inverse__spec(a: f64, b: f64, x: f64, y: f64, z: f64) -> [f64; 2] { root(a, b, x, y, z); [(x * x + y * y).sqrt(), z] }
pub fn axis__code(a: f64, b: f64, pm: f64, z: f64) -> [f64; 2] { sane(a, b); pmr(pm); assume(z > 1.); let l = datum(a, b, pm).xyz_to_llh(xyz(0., 0., z)); [l.lat.angle().rad(), l.height.m()] }
pub fn axis__spec(a: f64, b: f64, pm: f64, z: f64) -> [f64; 2] { root(a, b, 0., 0., z); [PI / 2., z - b] }
pub fn axis_south__code(a: f64, b: f64, z: f64) -> [f64; 2] { sane(a, b); assume(z < -1.); let l = datum(a, b, 0.).xyz_to_llh(xyz(0., 0., z)); [l.lat.angle().rad(), l.height.m()] }
pub fn axis_south__spec(a: f64, b: f64, z: f64) -> [f64; 2] { root(a, b, 0., 0., z); [-PI / 2., -z - b] }
pub fn axis_lon__code(a: f64, b: f64, pm: f64, z: f64) -> f64 { sane(a, b); assume(pm > -PI && pm < PI); assume(z > 1.); datum(a, b, pm).xyz_to_llh(xyz(0., 0., z)).lon.angle().rad() }
pub fn axis_lon__spec(a: f64, b: f64, pm: f64, z: f64) -> f64 { -pm }
pub fn equator__code(a: f64, b: f64, x: f64) -> [f64; 3] { sane(a, b); assume(x > 0.); let l = datum(a, b, 0.).xyz_to_llh(xyz(x, 0., 0.)); [l.lon.angle().rad(), l.lat.angle().rad(), l.height.m()] }
pub fn equator__spec(a: f64, b: f64, x: f64) -> [f64; 3] { root(a, b, x, 0., 0.); [0., 0., x - a] }
pub fn antimeridian__code(a: f64, b: f64, x: f64, z: f64) -> [f64; 2] { sane(a, b); assume(x < 0.); lon(datum(a, b, 0.).xyz_to_llh(xyz(x, 0., z))) }
pub fn antimeridian__spec(a: f64, b: f64, x: f64, z: f64) -> [f64; 2] { [0., -1.] }
pub fn sphere_axis__code(a: f64, z: f64) -> [f64; 2] { assume(a > 0. && a < 1e9 && z > 1.); let l = datum(a, a, 0.).xyz_to_llh(xyz(0., 0., z)); [l.lat.angle().rad(), l.height.m()] }
pub fn sphere_axis__spec(a: f64, z: f64) -> [f64; 2] { [PI / 2., z - a] }
// there and back again
// (on the sphere; the ellipsoidal case is `inverse` together with the forward formulas)
pub fn round_trip__code(a: f64, pm: f64, x: f64, y: f64, z: f64) -> [f64; 3] {
    assume(a > 0. && a < 1e9); pmr(pm); assume(x > 0. && y > 0. && z > 0.);
    let d = datum(a, a, pm);
    let c = d.llh_to_xyz(d.xyz_to_llh(xyz(x, y, z)));
    [c.x.m(), c.y.m(), c.z.m()]
}
pub fn round_trip__spec(a: f64, pm: f64, x: f64, y: f64, z: f64) -> [f64; 3] { [x, y, z] }
