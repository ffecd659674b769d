//! degrees, minutes, seconds
use crate::assume;
use geokit::cs::azimuth::Azimuth;
use geokit::cs::geodetic::{Lat, Lon};
use geokit::quantities::angle::Angle;
use geokit::units::angle::{DEG, RAD};
use std::f64::consts::PI;
fn fields(m: f64, s: f64) { assume(m >= 0. && m <= 59. && s >= 0. && s < 60.); }
fn v(d: f64, m: f64, s: f64) -> f64 { if d < 0. { (d - m / 60. - s / 3600.) * PI / 180. } else { (d + m / 60. + s / 3600.) * PI / 180. } }
pub fn lon_in__code(d: f64, m: f64, s: f64) -> [f64; 2] { assume(d > -180. && d <= 180. && d != 0.); fields(m, s); let l = Lon::dms(d, m, s).angle().rad(); [l.sin(), l.cos()] }
pub fn lon_in__spec(d: f64, m: f64, s: f64) -> [f64; 2] { let x = v(d, m, s); [x.sin(), x.cos()] }
pub fn az_in__code(d: f64, m: f64, s: f64) -> [f64; 2] { assume(d > -180. && d <= 180. && d != 0.); fields(m, s); let l = Azimuth::dms(d, m, s).angle().rad(); [l.sin(), l.cos()] }
pub fn az_in__spec(d: f64, m: f64, s: f64) -> [f64; 2] { let x = v(d, m, s); [x.sin(), x.cos()] }
pub fn lat_in__code(d: f64, m: f64, s: f64) -> f64 { assume(d >= -90. && d <= 90. && d != 0.); fields(m, s); Lat::dms(d, m, s).angle().rad() }
pub fn lat_in__spec(d: f64, m: f64, s: f64) -> f64 { let x = v(d, m, s); if x > PI / 2. { PI / 2. } else if x < -PI / 2. { -PI / 2. } else { x } }
pub fn zero_deg__code(m: f64, s: f64) -> [f64; 3] { fields(m, s); [Lon::dms(0., m, s).angle().rad(), Lat::dms(0., m, s).angle().rad(), Azimuth::dms(0., m, s).angle().rad()] }
pub fn zero_deg__spec(m: f64, s: f64) -> [f64; 3] { let x = (m / 60. + s / 3600.) * PI / 180.; [x, x, x] }
// decomposition
pub fn out_fields__holds(a: f64) -> bool { assume(a >= -7. && a <= 7.); let t = (a * RAD).dms(); t.min() >= 0. && t.min() <= 59. && t.sec() >= 0. && t.sec() < 60. }
fn snap(x: f64) -> f64 { let d = x.floor(); let y = (x - d) * 60.; let r = y.round(); if (y - r).abs() < 1e-8 { d + r / 60. } else { x } }
pub fn out_sum__code(a: f64) -> f64 { assume(a > 0.); let t = (a * RAD).dms(); t.deg() + t.min() / 60. + t.sec() / 3600. }
pub fn out_sum__spec(a: f64) -> f64 { snap(a * (180. / PI)) }
pub fn out_sum_neg__code(a: f64) -> f64 { assume(a < -0.02); let t = (a * RAD).dms(); t.deg() - t.min() / 60. - t.sec() / 3600. }
pub fn out_sum_neg__spec(a: f64) -> f64 { -snap(-a * (180. / PI)) }
pub fn out_deg__code(a: f64) -> f64 { (a * RAD).val(DEG) }
pub fn out_deg__spec(a: f64) -> f64 { a * 180. / PI }
