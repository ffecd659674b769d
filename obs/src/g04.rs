//! the spellings of one operation agree
use geokit::cs::azimuth::Azimuth;
use geokit::cs::geodetic::{Lat, Lon};
use geokit::quantities::angle::Angle;
use geokit::quantities::length::Length;
use geokit::units::angle::RAD;
use geokit::units::length::M;
use std::f64::consts::PI;
pub fn angle_ops__code(a: f64, b: f64) -> [f64; 11] {
    let (x, y) = (a * RAD, b * RAD);
    let mut p = x; p += y;
    let mut q = x; q -= y;
    let mut r = x; r *= b;
    let mut s = x; s /= b;
    [(x + y).rad(), p.rad(), (x - y).rad(), q.rad(), (x * b).rad(), (b * x).rad(), r.rad(), (x / b).rad(), s.rad(), (-x).rad(), x.rad()]
}
pub fn angle_ops__spec(a: f64, b: f64) -> [f64; 11] { [a + b, a + b, a - b, a - b, a * b, a * b, a * b, a / b, a / b, -a, a] }
pub fn length_ops__code(a: f64, b: f64) -> [f64; 11] {
    let (x, y) = (a * M, b * M);
    let mut p = x; p += y;
    let mut q = x; q -= y;
    let mut r = x; r *= b;
    let mut s = x; s /= b;
    [(x + y).m(), p.m(), (x - y).m(), q.m(), (x * b).m(), (b * x).m(), r.m(), (x / b).m(), s.m(), x / y, x.m()]
}
pub fn length_ops__spec(a: f64, b: f64) -> [f64; 11] { [a + b, a + b, a - b, a - b, a * b, a * b, a * b, a / b, a / b, a / b, a] }

pub fn lon_ops__code(a: f64, b: f64) -> [f64; 7] {
    let (x, y) = (Lon::rad(a), b * RAD);
    let mut p = x; p += y;
    let mut q = x; q -= y;
    let mut r = x; r *= b;
    let mut s = x; s /= b;
    [(y + x).angle().rad(), p.angle().rad(), q.angle().rad(), (b * x).angle().rad(), r.angle().rad(), s.angle().rad(), (-x).angle().rad()]
}
pub fn lon_ops__spec(a: f64, b: f64) -> [f64; 7] {
    let x = Lon::rad(a).angle().rad();
    let w = |v: f64| Lon::rad(v).angle().rad();
    [w(x + b), w(x + b), w(x - b), w(x * b), w(x * b), w(x / b), -x]
}
pub fn lon_bin__code(a: f64, b: f64) -> [f64; 4] { let (x, y) = (Lon::rad(a), b * RAD); [(x + y).angle().rad(), (x - y).angle().rad(), (x * b).angle().rad(), (x / b).angle().rad()] }
pub fn lon_bin__spec(a: f64, b: f64) -> [f64; 4] {
    let x = Lon::rad(a).angle().rad();
    let w = |v: f64| Lon::rad(v).angle().rad();
    [w(x + b), w(x - b), w(x * b), w(x / b)]
}
pub fn lat_ops__code(a: f64, b: f64) -> [f64; 12] {
    let (x, y) = (Lat::new(a * RAD), b * RAD);
    let mut p = x; p += y;
    let mut q = x; q -= y;
    let mut r = x; r *= b;
    let mut s = x; s /= b;
    [(y + x).angle().rad(), p.angle().rad(), q.angle().rad(), (b * x).angle().rad(), r.angle().rad(), s.angle().rad(), (-x).angle().rad(),
     (x + y).angle().rad(), (x - y).angle().rad(), (x * b).angle().rad(), (x / b).angle().rad(), x.abs().angle().rad()]
}
pub fn lat_ops__spec(a: f64, b: f64) -> [f64; 12] {
    let x = cl(a);
    [cl(x + b), cl(x + b), cl(x - b), cl(x * b), cl(x * b), cl(x / b), -x, cl(x + b), cl(x - b), cl(x * b), cl(x / b), if x < 0. { -x } else { x }]
}
fn cl(v: f64) -> f64 { if v < -PI / 2. { -PI / 2. } else if v > PI / 2. { PI / 2. } else { v } }
pub fn az_ops__code(a: f64, b: f64) -> [f64; 2] { let (x, y) = (Azimuth::rad(a), b * RAD); [(x + y).angle().rad(), (y + x).angle().rad()] }
pub fn az_ops__spec(a: f64, b: f64) -> [f64; 2] { let x = Azimuth::rad(a).angle().rad(); let r = Azimuth::rad(x + b).angle().rad(); [r, r] }
pub fn trig__code(a: f64) -> [f64; 15] {
    let (l, m, z) = (Lon::rad(a), Lat::new(a * RAD), Azimuth::rad(a));
    [l.sin(), l.cos(), l.tan(), l.sin_cos().0, l.sin_cos().1, m.sin(), m.cos(), m.tan(), m.sin_cos().0, m.sin_cos().1, z.sin(), z.cos(), z.tan(), z.sin_cos().0, z.sin_cos().1]
}
pub fn trig__spec(a: f64) -> [f64; 15] {
    let t = cl(a);
    [a.sin(), a.cos(), a.sin() / a.cos(), a.sin(), a.cos(), t.sin(), t.cos(), t.sin() / t.cos(), t.sin(), t.cos(), a.sin(), a.cos(), a.sin() / a.cos(), a.sin(), a.cos()]
}
pub fn signum__code(a: f64) -> [f64; 3] { [(a * RAD).signum(), Lon::const_new(a * RAD).signum(), Lat::new(a * RAD).signum()] }
pub fn signum__spec(a: f64) -> [f64; 3] { crate::assume(a != 0.); let s = if a < 0. { -1. } else { 1. }; [s, s, s] }
pub fn order__code(a: f64, b: f64) -> [bool; 6] { [(a * RAD) < (b * RAD), (a * M) < (b * M), (a * RAD) <= (b * RAD), (a * M) >= (b * M), Lat::new(a * RAD) < Lat::new(b * RAD), Lon::const_new(a * RAD) < Lon::const_new(b * RAD)] }
pub fn order__spec(a: f64, b: f64) -> [bool; 6] { [a < b, a < b, a <= b, a >= b, cl(a) < cl(b), a < b] }
