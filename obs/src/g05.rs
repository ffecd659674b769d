//! geodetic axes: order, sign and unit of each coordinate
use crate::assume;
use geokit::cs::geodetic::{GeodeticAxes, GeodeticTolerance, Lat, Lon, LLH};
use geokit::quantities::angle::Angle;
use geokit::units::angle::{AngleUnit, RAD};
use geokit::units::length::{LengthUnit, M};
use std::f64::consts::PI;
fn au(n: f64, d: f64) -> AngleUnit { AngleUnit(n, d) }
fn lu(n: f64, d: f64) -> LengthUnit { LengthUnit(n, d) }
fn axes(k: usize, n: f64, d: f64, p: f64, q: f64) -> GeodeticAxes {
    match k {
        0 => GeodeticAxes::EastNorthUp { angle_unit: au(n, d), height_unit: lu(p, q) },
        1 => GeodeticAxes::NorthEastUp { angle_unit: au(n, d), height_unit: lu(p, q) },
        2 => GeodeticAxes::EastNorth { angle_unit: au(n, d) },
        3 => GeodeticAxes::NorthEast { angle_unit: au(n, d) },
        _ => GeodeticAxes::NorthWest { angle_unit: au(n, d) },
    }
}
fn out(l: LLH) -> [f64; 3] { [l.lon.angle().rad(), l.lat.angle().rad(), l.height.m()] }
fn w(v: f64) -> f64 { Lon::rad(v).angle().rad() }
fn cl(v: f64) -> f64 { if v < -PI / 2. { -PI / 2. } else if v > PI / 2. { PI / 2. } else { v } }
fn llh(lon: f64, lat: f64, h: f64) -> LLH { LLH { lon: Lon::const_new(lon * RAD), lat: Lat::new(lat * RAD), height: h * M } }
fn inlat(lat: f64) { assume(lat >= -PI / 2. && lat <= PI / 2.); }
fn tol(t: [f64; 3]) -> GeodeticTolerance { GeodeticTolerance { lon: t[0] * RAD, lat: t[1] * RAD, height: t[2] * M } }
fn v(t: &[f64]) -> (usize, [f64; 3]) { (t.len(), [t[0], t[1], if t.len() > 2 { t[2] } else { 0. }]) }

pub fn dims__code(n: f64, d: f64, p: f64, q: f64) -> [usize; 5] { [axes(0, n, d, p, q).dim(), axes(1, n, d, p, q).dim(), axes(2, n, d, p, q).dim(), axes(3, n, d, p, q).dim(), axes(4, n, d, p, q).dim()] }
pub fn dims__spec(n: f64, d: f64, p: f64, q: f64) -> [usize; 5] { [3, 3, 2, 2, 2] }
pub fn norm_enu__code(c: [f64; 3], n: f64, d: f64, p: f64, q: f64) -> [f64; 3] { out(axes(0, n, d, p, q).normalize(&c)) }
pub fn norm_enu__spec(c: [f64; 3], n: f64, d: f64, p: f64, q: f64) -> [f64; 3] { [w(c[0] * (n / d)), cl(c[1] * (n / d)), c[2] * p / q] }
pub fn norm_neu__code(c: [f64; 3], n: f64, d: f64, p: f64, q: f64) -> [f64; 3] { out(axes(1, n, d, p, q).normalize(&c)) }
pub fn norm_neu__spec(c: [f64; 3], n: f64, d: f64, p: f64, q: f64) -> [f64; 3] { [w(c[1] * (n / d)), cl(c[0] * (n / d)), c[2] * p / q] }
pub fn norm_en__code(c: [f64; 2], n: f64, d: f64) -> [f64; 3] { out(axes(2, n, d, 1., 1.).normalize(&c)) }
pub fn norm_en__spec(c: [f64; 2], n: f64, d: f64) -> [f64; 3] { [w(c[0] * (n / d)), cl(c[1] * (n / d)), 0.] }
pub fn norm_ne__code(c: [f64; 2], n: f64, d: f64) -> [f64; 3] { out(axes(3, n, d, 1., 1.).normalize(&c)) }
pub fn norm_ne__spec(c: [f64; 2], n: f64, d: f64) -> [f64; 3] { [w(c[1] * (n / d)), cl(c[0] * (n / d)), 0.] }
pub fn norm_nw__code(c: [f64; 2], n: f64, d: f64) -> [f64; 3] { out(axes(4, n, d, 1., 1.).normalize(&c)) }
pub fn norm_nw__spec(c: [f64; 2], n: f64, d: f64) -> [f64; 3] { [w(-(c[1] * (n / d))), cl(c[0] * (n / d)), 0.] }
// longitudes keep their direction whatever the unit
pub fn norm_turn__code(c: [f64; 3], n: f64, d: f64) -> [f64; 10] {
    let mut r = [0.; 10];
    let l = axes(0, n, d, 1., 1.).normalize(&c).lon.angle().rad(); r[0] = l.sin(); r[1] = l.cos();
    let l = axes(1, n, d, 1., 1.).normalize(&c).lon.angle().rad(); r[2] = l.sin(); r[3] = l.cos();
    let l = axes(2, n, d, 1., 1.).normalize(&c).lon.angle().rad(); r[4] = l.sin(); r[5] = l.cos();
    let l = axes(3, n, d, 1., 1.).normalize(&c).lon.angle().rad(); r[6] = l.sin(); r[7] = l.cos();
    let l = axes(4, n, d, 1., 1.).normalize(&c).lon.angle().rad(); r[8] = l.sin(); r[9] = l.cos();
    r
}
pub fn norm_turn__spec(c: [f64; 3], n: f64, d: f64) -> [f64; 10] {
    let (a, b) = (c[0] * (n / d), c[1] * (n / d));
    [a.sin(), a.cos(), b.sin(), b.cos(), a.sin(), a.cos(), b.sin(), b.cos(), -b.sin(), b.cos()]
}
pub fn den_enu__code(lon: f64, lat: f64, h: f64, n: f64, d: f64, p: f64, q: f64) -> [f64; 3] { inlat(lat); let mut c = [0.; 3]; axes(0, n, d, p, q).denormalize(llh(lon, lat, h), &mut c); c }
pub fn den_enu__spec(lon: f64, lat: f64, h: f64, n: f64, d: f64, p: f64, q: f64) -> [f64; 3] { [lon * d / n, lat * d / n, h * q / p] }
pub fn den_neu__code(lon: f64, lat: f64, h: f64, n: f64, d: f64, p: f64, q: f64) -> [f64; 3] { inlat(lat); let mut c = [0.; 3]; axes(1, n, d, p, q).denormalize(llh(lon, lat, h), &mut c); c }
pub fn den_neu__spec(lon: f64, lat: f64, h: f64, n: f64, d: f64, p: f64, q: f64) -> [f64; 3] { [lat * d / n, lon * d / n, h * q / p] }
pub fn den_en__code(lon: f64, lat: f64, h: f64, n: f64, d: f64) -> [f64; 2] { inlat(lat); let mut c = [0.; 2]; axes(2, n, d, 1., 1.).denormalize(llh(lon, lat, h), &mut c); c }
pub fn den_en__spec(lon: f64, lat: f64, h: f64, n: f64, d: f64) -> [f64; 2] { [lon * d / n, lat * d / n] }
pub fn den_ne__code(lon: f64, lat: f64, h: f64, n: f64, d: f64) -> [f64; 2] { inlat(lat); let mut c = [0.; 2]; axes(3, n, d, 1., 1.).denormalize(llh(lon, lat, h), &mut c); c }
pub fn den_ne__spec(lon: f64, lat: f64, h: f64, n: f64, d: f64) -> [f64; 2] { [lat * d / n, lon * d / n] }
pub fn den_nw__code(lon: f64, lat: f64, h: f64, n: f64, d: f64) -> [f64; 2] { inlat(lat); let mut c = [0.; 2]; axes(4, n, d, 1., 1.).denormalize(llh(lon, lat, h), &mut c); c }
pub fn den_nw__spec(lon: f64, lat: f64, h: f64, n: f64, d: f64) -> [f64; 2] { [lat * d / n, -lon * d / n] }
// 2D systems leave a third slot of a wider destination alone
pub fn den_wide__code(lon: f64, lat: f64, h: f64, z: f64, n: f64, d: f64) -> [f64; 3] {
    let mut r = [0.; 3];
    let mut c = [0., 0., z]; axes(2, n, d, 1., 1.).denormalize(llh(lon, lat, h), &mut c); r[0] = c[2];
    let mut c = [0., 0., z]; axes(3, n, d, 1., 1.).denormalize(llh(lon, lat, h), &mut c); r[1] = c[2];
    let mut c = [0., 0., z]; axes(4, n, d, 1., 1.).denormalize(llh(lon, lat, h), &mut c); r[2] = c[2];
    r
}
pub fn den_wide__spec(lon: f64, lat: f64, h: f64, z: f64, n: f64, d: f64) -> [f64; 3] { [z, z, z] }
// round trips for in-range coordinates
fn rt<const N: usize>(k: usize, c: [f64; N], n: f64, d: f64, p: f64, q: f64) -> [f64; N] { assume(n > 0. && d > 0. && p > 0. && q > 0.); let a = axes(k, n, d, p, q); let mut o = [0.; N]; a.denormalize(a.normalize(&c), &mut o); o }
fn rng(lon: f64, lat: f64, n: f64, d: f64) { let (x, y) = (lon * (n / d), lat * (n / d)); assume(x >= -PI && x <= PI && y >= -PI / 2. && y <= PI / 2.); }
pub fn rt_enu__code(c: [f64; 3], n: f64, d: f64, p: f64, q: f64) -> [f64; 3] { rng(c[0], c[1], n, d); rt(0, c, n, d, p, q) }
pub fn rt_enu__spec(c: [f64; 3], n: f64, d: f64, p: f64, q: f64) -> [f64; 3] { c }
pub fn rt_neu__code(c: [f64; 3], n: f64, d: f64, p: f64, q: f64) -> [f64; 3] { rng(c[1], c[0], n, d); rt(1, c, n, d, p, q) }
pub fn rt_neu__spec(c: [f64; 3], n: f64, d: f64, p: f64, q: f64) -> [f64; 3] { c }
pub fn rt_en__code(c: [f64; 2], n: f64, d: f64) -> [f64; 2] { rng(c[0], c[1], n, d); rt(2, c, n, d, 1., 1.) }
pub fn rt_en__spec(c: [f64; 2], n: f64, d: f64) -> [f64; 2] { c }
pub fn rt_ne__code(c: [f64; 2], n: f64, d: f64) -> [f64; 2] { rng(c[1], c[0], n, d); rt(3, c, n, d, 1., 1.) }
pub fn rt_ne__spec(c: [f64; 2], n: f64, d: f64) -> [f64; 2] { c }
pub fn rt_nw__code(c: [f64; 2], n: f64, d: f64) -> [f64; 2] { rng(-c[1], c[0], n, d); rt(4, c, n, d, 1., 1.) }
pub fn rt_nw__spec(c: [f64; 2], n: f64, d: f64) -> [f64; 2] { c }
pub fn tol_enu__code(t: [f64; 3], n: f64, d: f64, p: f64, q: f64) -> (usize, [f64; 3]) { v(&axes(0, n, d, p, q).denormalize_tol(tol(t))) }
pub fn tol_enu__spec(t: [f64; 3], n: f64, d: f64, p: f64, q: f64) -> (usize, [f64; 3]) { (3, [t[0] * d / n, t[1] * d / n, t[2] * q / p]) }
pub fn tol_neu__code(t: [f64; 3], n: f64, d: f64, p: f64, q: f64) -> (usize, [f64; 3]) { v(&axes(1, n, d, p, q).denormalize_tol(tol(t))) }
pub fn tol_neu__spec(t: [f64; 3], n: f64, d: f64, p: f64, q: f64) -> (usize, [f64; 3]) { (3, [t[1] * d / n, t[0] * d / n, t[2] * q / p]) }
pub fn tol_2d__code(t: [f64; 3], n: f64, d: f64) -> [(usize, [f64; 3]); 3] { [v(&axes(2, n, d, 1., 1.).denormalize_tol(tol(t))), v(&axes(3, n, d, 1., 1.).denormalize_tol(tol(t))), v(&axes(4, n, d, 1., 1.).denormalize_tol(tol(t)))] }
pub fn tol_2d__spec(t: [f64; 3], n: f64, d: f64) -> [(usize, [f64; 3]); 3] { let (a, b) = (t[0] * d / n, t[1] * d / n); [(2, [a, b, 0.]), (2, [b, a, 0.]), (2, [b, a, 0.])] }
pub fn default__holds() -> bool { GeodeticAxes::default() == axes(0, 1., 1., 1., 1.) }
