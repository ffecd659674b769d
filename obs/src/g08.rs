//! ellipsoid: validation and derived parameters
use crate::assume;
use geokit::cs::geodetic::Lat;
use geokit::geodesy::Ellipsoid;
use geokit::units::angle::RAD;
use geokit::units::length::M;
use std::f64::consts::PI;
fn ab(a: f64, b: f64) -> Ellipsoid { Ellipsoid::from_ab("e", a * M, b * M) }
fn ai(a: f64, i: f64) -> Ellipsoid { Ellipsoid::from_ainvf("e", a * M, i) }
fn sane(a: f64, b: f64) { assume(b > 0. && a >= b && a < 1e9); }
fn par(e: Ellipsoid) -> [f64; 10] { [e.a().m(), e.b().m(), e.a_sq(), e.b_sq(), e.f(), e.n(), e.e_sq(), e.e(), e.e_prime_sq(), e.e_prime()] }
fn want(a: f64, b: f64) -> [f64; 10] { let d = a * a - b * b; [a, b, a * a, b * b, (a - b) / a, (a - b) / (a + b), d / (a * a), d.sqrt() / a, d / (b * b), d.sqrt() / b] }
// rejected exactly when the axes do not describe an oblate ellipsoid
pub fn reject_ab__code(a: f64, b: f64) -> f64 { ab(a, b); 0. }
pub fn reject_ab__spec(a: f64, b: f64) -> f64 { if !(b > 0.) || !(a >= b) { panic!() } 0. }
pub fn reject_ainvf__code(a: f64, i: f64) -> f64 { ai(a, i); 0. }
pub fn reject_ainvf__spec(a: f64, i: f64) -> f64 { if !(a > 0.) || !(i > 1.) { panic!() } 0. }
pub fn ab_params__code(a: f64, b: f64) -> [f64; 10] { sane(a, b); par(ab(a, b)) }
pub fn ab_params__spec(a: f64, b: f64) -> [f64; 10] { want(a, b) }
pub fn ab_invf__code(a: f64, b: f64) -> f64 { sane(a, b); assume(a > b); ab(a, b).invf() }
pub fn ab_invf__spec(a: f64, b: f64) -> f64 { a / (a - b) }
pub fn ai_params__code(a: f64, i: f64) -> [f64; 11] { assume(a > 0. && a < 1e9 && i > 1. && i < 1e12); let e = ai(a, i); let v = e.invf(); let p = par(e); [p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7], p[8], p[9], v] }
pub fn ai_params__spec(a: f64, i: f64) -> [f64; 11] { let p = want(a, a * (1. - 1. / i)); [p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7], p[8], p[9], i] }
pub fn ab_sphere__code(a: f64, b: f64) -> (bool, f64, f64, f64) { assume(a > 0. && a < 1e9 && b > 0. && b < a); let s = ab(a, a); let e = ab(a, b); (s.is_spherical() && !e.is_spherical(), s.f(), s.e_sq(), s.b().m()) }
pub fn ab_sphere__spec(a: f64, b: f64) -> (bool, f64, f64, f64) { (true, 0., 0., a) }
pub fn ai_sphere__code(a: f64, i: f64) -> bool { assume(a > 0. && a < 1e9 && i > 1. && i < 1e12); ai(a, i).is_spherical() }
pub fn ai_sphere__spec(a: f64, i: f64) -> bool { false }
fn lat(p: f64) -> Lat { assume(p > -PI / 2. && p < PI / 2.); Lat::new(p * RAD) }
pub fn radii__code(a: f64, b: f64, p: f64) -> [f64; 3] { sane(a, b); let e = ab(a, b); [e.prime_vertical_radius(lat(p)).m(), e.prime_meridional_radius(lat(p)).m(), e.conformal_sphere_radius(lat(p)).m()] }
pub fn radii__spec(a: f64, b: f64, p: f64) -> [f64; 3] {
    // N = a^2 / w, M = (ab)^2 / w^3 with w^2 = a^2 cos^2 + b^2 sin^2
    let w2 = a * a * p.cos() * p.cos() + b * b * p.sin() * p.sin();
    let w = w2.sqrt();
    [a * a / w, a * a * b * b / (w * w2), a * a * b / w2]
}
pub fn latitudes__code(a: f64, b: f64, p: f64) -> [f64; 2] { sane(a, b); let e = ab(a, b); [e.reduced_latitude(lat(p)).rad(), e.geocentric_latitude(lat(p)).rad()] }
pub fn latitudes__spec(a: f64, b: f64, p: f64) -> [f64; 2] { [(b / a * p.sin() / p.cos()).atan(), (b / a * (b / a) * p.sin() / p.cos()).atan()] }
