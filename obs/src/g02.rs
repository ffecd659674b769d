//! wrapping adds whole turns and nothing else; clamping moves out-of-range values only
use crate::assume;
use geokit::cs::azimuth::Azimuth;
use geokit::cs::geodetic::{Lat, Lon};
use geokit::quantities::angle::Angle;
use geokit::units::angle::{AngleUnit, DEG, RAD};
use std::f64::consts::PI;
fn sc(a: Angle) -> (f64, f64) { (a.rad().sin(), a.rad().cos()) }
fn sc_(a: f64) -> (f64, f64) { (a.sin(), a.cos()) }

pub fn lon_new__code(a: f64) -> (f64, f64) { sc(Lon::new(a * RAD).angle()) }
pub fn lon_new__spec(a: f64) -> (f64, f64) { sc_(a) }
pub fn lon_normalized__code(a: f64) -> (f64, f64) { sc(Lon::new(a * RAD).normalized().angle()) }
pub fn lon_normalized__spec(a: f64) -> (f64, f64) { sc_(a) }
pub fn angle_normalized__code(a: f64) -> (f64, f64) { sc((a * RAD).normalized()) }
pub fn angle_normalized__spec(a: f64) -> (f64, f64) { sc_(a) }
pub fn angle_normalize__code(a: f64) -> (f64, f64) { let mut x = a * RAD; x.normalize(); sc(x) }
pub fn angle_normalize__spec(a: f64) -> (f64, f64) { sc_(a) }
pub fn az_new__code(a: f64) -> (f64, f64) { sc(Azimuth::new(a * RAD).angle()) }
pub fn az_new__spec(a: f64) -> (f64, f64) { sc_(a) }
pub fn diff_to__code(a: f64, b: f64) -> (f64, f64) { sc((a * RAD).diff_to(b * RAD)) }
pub fn diff_to__spec(a: f64, b: f64) -> (f64, f64) { sc_(b - a) }
pub fn lon_diff__code(a: f64, b: f64) -> (f64, f64) { sc(Lon::rad(a) - Lon::rad(b)) }
pub fn lon_diff__spec(a: f64, b: f64) -> (f64, f64) { sc_(a - b) }
pub fn lon_add__code(a: f64, b: f64) -> (f64, f64) { sc((Lon::rad(a) + b * RAD).angle()) }
pub fn lon_add__spec(a: f64, b: f64) -> (f64, f64) { sc_(a + b) }
pub fn lon_sub__code(a: f64, b: f64) -> (f64, f64) { sc((Lon::rad(a) - b * RAD).angle()) }
pub fn lon_sub__spec(a: f64, b: f64) -> (f64, f64) { sc_(a - b) }
pub fn az_diff__code(a: f64, b: f64) -> (f64, f64) { sc(Azimuth::rad(a) - Azimuth::rad(b)) }
pub fn az_diff__spec(a: f64, b: f64) -> (f64, f64) { sc_(a - b) }
pub fn az_add__code(a: f64, b: f64) -> (f64, f64) { sc((Azimuth::rad(a) + b * RAD).angle()) }
pub fn az_add__spec(a: f64, b: f64) -> (f64, f64) { sc_(a + b) }
pub fn lon_neg__code(a: f64) -> (f64, f64) { sc((-Lon::rad(a)).angle()) }
pub fn lon_neg__spec(a: f64) -> (f64, f64) { sc_(-a) }
// values already in range are untouched
pub fn lon_id__code(a: f64) -> f64 { assume(a >= -PI && a <= PI); Lon::new(a * RAD).angle().rad() }
pub fn lon_id__spec(a: f64) -> f64 { a }
pub fn lon_norm_id__code(a: f64) -> f64 { assume(a > -PI && a <= PI); Lon::new(a * RAD).normalized().angle().rad() }
pub fn lon_norm_id__spec(a: f64) -> f64 { a }
pub fn angle_norm_id__code(a: f64) -> f64 { assume(a > -PI && a <= PI); (a * RAD).normalized().rad() }
pub fn angle_norm_id__spec(a: f64) -> f64 { a }
pub fn az_id__code(a: f64) -> f64 { assume(a > -PI && a <= PI); Azimuth::new(a * RAD).angle().rad() }
pub fn az_id__spec(a: f64) -> f64 { a }
pub fn lon_diff_id__code(a: f64, b: f64) -> f64 { assume(a >= -PI && a <= PI && b >= -PI && b <= PI && a - b > -PI && a - b <= PI); (Lon::rad(a) - Lon::rad(b)).rad() }
pub fn lon_diff_id__spec(a: f64, b: f64) -> f64 { a - b }
pub fn lat_clamp__code(a: f64) -> f64 { Lat::new(a * RAD).angle().rad() }
pub fn lat_clamp__spec(a: f64) -> f64 { if a < -PI / 2. { -PI / 2. } else if a > PI / 2. { PI / 2. } else { a } }
pub fn lat_deg_clamp__code(a: f64) -> f64 { Lat::deg(a).angle().rad() }
pub fn lat_deg_clamp__spec(a: f64) -> f64 { let a = a * PI / 180.; if a < -PI / 2. { -PI / 2. } else if a > PI / 2. { PI / 2. } else { a } }
pub fn lat_add__code(a: f64, b: f64) -> f64 { (Lat::new(a * RAD) + b * RAD).angle().rad() }
pub fn lat_add__spec(a: f64, b: f64) -> f64 { clamp(clamp(a) + b) }
pub fn lat_sub__code(a: f64, b: f64) -> f64 { (Lat::new(a * RAD) - b * RAD).angle().rad() }
pub fn lat_sub__spec(a: f64, b: f64) -> f64 { clamp(clamp(a) - b) }
pub fn lat_diff__code(a: f64, b: f64) -> f64 { (Lat::new(a * RAD) - Lat::new(b * RAD)).rad() }
pub fn lat_diff__spec(a: f64, b: f64) -> f64 { clamp(a) - clamp(b) }
fn clamp(a: f64) -> f64 { if a < -PI / 2. { -PI / 2. } else if a > PI / 2. { PI / 2. } else { a } }
