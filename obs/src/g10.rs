//! geodetic to geocentric
use crate::assume;
use geokit::cs::cartesian::geocentric::XYZ;
use geokit::cs::geodetic::{Lat, Lon, LLH};
use geokit::geodesy::{Ellipsoid, GeodeticDatum, PrimeMeridian};
use geokit::units::angle::RAD;
use geokit::units::length::M;
use std::f64::consts::PI;
fn datum(a: f64, b: f64, pm: f64) -> GeodeticDatum { GeodeticDatum::new("d", Ellipsoid::from_ab("e", a * M, b * M), PrimeMeridian::new("p", Lon::rad(pm))) }
fn sane(a: f64, b: f64) { assume(b > 0. && a >= b && a < 1e9); }
fn pmr(pm: f64) { assume(pm > -PI && pm <= PI); }
fn latr(p: f64) { assume(p >= -PI / 2. && p <= PI / 2.); }
fn llh(l: f64, p: f64, h: f64) -> LLH { LLH { lon: Lon::const_new(l * RAD), lat: Lat::new(p * RAD), height: h * M } }
fn o(c: XYZ) -> [f64; 3] { [c.x.m(), c.y.m(), c.z.m()] }
fn want(a: f64, b: f64, pm: f64, l: f64, p: f64, h: f64) -> [f64; 3] {
    let w = (a * a * p.cos() * p.cos() + b * b * p.sin() * p.sin()).sqrt();
    let q = (a * a / w + h) * p.cos();
    let g = l + pm;
    [q * g.cos(), q * g.sin(), (b * b / w + h) * p.sin()]
}
pub fn ellipsoid__code(a: f64, b: f64, pm: f64, l: f64, p: f64, h: f64) -> [f64; 3] { sane(a, b); assume(a > b); pmr(pm); latr(p); o(datum(a, b, pm).llh_to_xyz(llh(l, p, h))) }
pub fn ellipsoid__spec(a: f64, b: f64, pm: f64, l: f64, p: f64, h: f64) -> [f64; 3] { want(a, b, pm, l, p, h) }
pub fn sphere__code(a: f64, pm: f64, l: f64, p: f64, h: f64) -> [f64; 3] { sane(a, a); pmr(pm); latr(p); o(datum(a, a, pm).llh_to_xyz(llh(l, p, h))) }
pub fn sphere__spec(a: f64, pm: f64, l: f64, p: f64, h: f64) -> [f64; 3] { let (q, g) = ((a + h) * p.cos(), l + pm); [q * g.cos(), q * g.sin(), (a + h) * p.sin()] }
pub fn any__code(a: f64, b: f64, pm: f64, l: f64, p: f64, h: f64) -> [f64; 3] { sane(a, b); pmr(pm); latr(p); o(datum(a, b, pm).llh_to_xyz(llh(l, p, h))) }
pub fn any__spec(a: f64, b: f64, pm: f64, l: f64, p: f64, h: f64) -> [f64; 3] { want(a, b, pm, l, p, h) }
// points of height 0 lie on the ellipsoid
pub fn surface__code(a: f64, b: f64, pm: f64, l: f64, p: f64) -> f64 { sane(a, b); pmr(pm); latr(p); let [x, y, z] = o(datum(a, b, pm).llh_to_xyz(llh(l, p, 0.))); (x * x + y * y) / (a * a) + z * z / (b * b) }
pub fn surface__spec(a: f64, b: f64, pm: f64, l: f64, p: f64) -> f64 { 1. }
// the height is measured along the normal
pub fn normal__code(a: f64, b: f64, pm: f64, l: f64, p: f64, h: f64) -> [f64; 3] { sane(a, b); pmr(pm); latr(p); let d = datum(a, b, pm); let (u, v) = (o(d.llh_to_xyz(llh(l, p, h))), o(d.llh_to_xyz(llh(l, p, 0.)))); [u[0] - v[0], u[1] - v[1], u[2] - v[2]] }
pub fn normal__spec(a: f64, b: f64, pm: f64, l: f64, p: f64, h: f64) -> [f64; 3] { [h * p.cos() * (l + pm).cos(), h * p.cos() * (l + pm).sin(), h * p.sin()] }
