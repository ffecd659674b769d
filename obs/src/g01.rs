//! ranges of the angular coordinate types, whatever the operation that produced the value
use crate::assume;
use geokit::cs::azimuth::Azimuth;
use geokit::cs::geodetic::{Lat, Lon};
use geokit::quantities::angle::Angle;
use geokit::units::angle::{AngleUnit, DEG, RAD};
use std::f64::consts::PI;

fn in_lon(l: Lon) -> bool { l.angle().rad() >= -PI && l.angle().rad() <= PI }
fn in_lat(l: Lat) -> bool { l.angle().rad() >= -PI / 2.0 && l.angle().rad() <= PI / 2.0 }
fn half_open(a: Angle) -> bool { a.rad() > -PI && a.rad() <= PI }
/// any finite input quantity
fn fin(a: f64) { assume(a > -1e300 && a < 1e300); }

pub fn lon_new__holds(a: f64, n: f64, d: f64) -> bool { fin(a * (n / d)); in_lon(Lon::new(Angle::new(a, AngleUnit(n, d)))) }
pub fn lon_rad__holds(a: f64) -> bool { fin(a); in_lon(Lon::rad(a)) }
pub fn lon_deg__holds(a: f64) -> bool { fin(a); in_lon(Lon::deg(a)) }
pub fn lon_dms__holds(d: f64, m: f64, s: f64) -> bool { assume(d > -180. && d <= 180. && m >= 0. && m <= 59. && s >= 0. && s < 60.); in_lon(Lon::dms(d, m, s)) }
pub fn lon_normalized__holds(a: f64) -> bool { fin(a); half_open(Lon::new(a * RAD).normalized().angle()) }
pub fn lon_add__holds(a: f64, b: f64) -> bool { fin(a); fin(b); in_lon(Lon::rad(a) + b * RAD) }
pub fn lon_radd__holds(a: f64, b: f64) -> bool { fin(a); fin(b); in_lon(b * RAD + Lon::rad(a)) }
pub fn lon_sub__holds(a: f64, b: f64) -> bool { fin(a); fin(b); in_lon(Lon::rad(a) - b * RAD) }
pub fn lon_add_assign__holds(a: f64, b: f64) -> bool { fin(a); fin(b); let mut l = Lon::rad(a); l += b * RAD; in_lon(l) }
pub fn lon_sub_assign__holds(a: f64, b: f64) -> bool { fin(a); fin(b); let mut l = Lon::rad(a); l -= b * RAD; in_lon(l) }
pub fn lon_mul__holds(a: f64, b: f64) -> bool { fin(a); fin(b); in_lon(Lon::rad(a) * b) }
pub fn lon_rmul__holds(a: f64, b: f64) -> bool { fin(a); fin(b); in_lon(b * Lon::rad(a)) }
pub fn lon_mul_assign__holds(a: f64, b: f64) -> bool { fin(a); fin(b); let mut l = Lon::rad(a); l *= b; in_lon(l) }
pub fn lon_div__holds(a: f64, b: f64) -> bool { fin(a); assume(b > 1e-200 || b < -1e-200); fin(b); in_lon(Lon::rad(a) / b) }
pub fn lon_div_assign__holds(a: f64, b: f64) -> bool { fin(a); assume(b > 1e-200 || b < -1e-200); fin(b); let mut l = Lon::rad(a); l /= b; in_lon(l) }
pub fn lon_neg__holds(a: f64) -> bool { fin(a); in_lon(-Lon::rad(a)) }
pub fn lon_diff__holds(a: f64, b: f64) -> bool { fin(a); fin(b); half_open(Lon::rad(a) - Lon::rad(b)) }
pub fn lon_consts__holds() -> bool { in_lon(Lon::MIN) && in_lon(Lon::MAX) && in_lon(Lon::ZERO) && Lon::MIN.angle().rad() == -PI && Lon::MAX.angle().rad() == PI && Lon::ZERO.angle().rad() == 0. }

pub fn lat_new__holds(a: f64, n: f64, d: f64) -> bool { fin(a * (n / d)); in_lat(Lat::new(Angle::new(a, AngleUnit(n, d)))) }
pub fn lat_deg__holds(a: f64) -> bool { fin(a); in_lat(Lat::deg(a)) }
pub fn lat_dms__holds(d: f64, m: f64, s: f64) -> bool { assume(d >= -90. && d <= 90. && m >= 0. && m <= 59. && s >= 0. && s < 60.); in_lat(Lat::dms(d, m, s)) }
pub fn lat_add__holds(a: f64, b: f64) -> bool { fin(a); fin(b); in_lat(Lat::new(a * RAD) + b * RAD) }
pub fn lat_radd__holds(a: f64, b: f64) -> bool { fin(a); fin(b); in_lat(b * RAD + Lat::new(a * RAD)) }
pub fn lat_sub__holds(a: f64, b: f64) -> bool { fin(a); fin(b); in_lat(Lat::new(a * RAD) - b * RAD) }
pub fn lat_add_assign__holds(a: f64, b: f64) -> bool { fin(a); fin(b); let mut l = Lat::new(a * RAD); l += b * RAD; in_lat(l) }
pub fn lat_sub_assign__holds(a: f64, b: f64) -> bool { fin(a); fin(b); let mut l = Lat::new(a * RAD); l -= b * RAD; in_lat(l) }
pub fn lat_mul__holds(a: f64, b: f64) -> bool { fin(a); fin(b); in_lat(Lat::new(a * RAD) * b) }
pub fn lat_rmul__holds(a: f64, b: f64) -> bool { fin(a); fin(b); in_lat(b * Lat::new(a * RAD)) }
pub fn lat_mul_assign__holds(a: f64, b: f64) -> bool { fin(a); fin(b); let mut l = Lat::new(a * RAD); l *= b; in_lat(l) }
pub fn lat_div__holds(a: f64, b: f64) -> bool { fin(a); assume(b > 1e-200 || b < -1e-200); fin(b); in_lat(Lat::new(a * RAD) / b) }
pub fn lat_div_assign__holds(a: f64, b: f64) -> bool { fin(a); assume(b > 1e-200 || b < -1e-200); fin(b); let mut l = Lat::new(a * RAD); l /= b; in_lat(l) }
pub fn lat_neg__holds(a: f64) -> bool { fin(a); in_lat(-Lat::new(a * RAD)) }
pub fn lat_abs__holds(a: f64) -> bool { fin(a); let l = Lat::new(a * RAD).abs(); in_lat(l) && l.angle().rad() >= 0. }
pub fn lat_consts__holds() -> bool { Lat::MIN.angle().rad() == -PI / 2. && Lat::MAX.angle().rad() == PI / 2. && Lat::ZERO.angle().rad() == 0. }

pub fn az_new__holds(a: f64, n: f64, d: f64) -> bool { fin(a * (n / d)); half_open(Azimuth::new(Angle::new(a, AngleUnit(n, d))).angle()) }
pub fn az_rad__holds(a: f64) -> bool { fin(a); half_open(Azimuth::rad(a).angle()) }
pub fn az_deg__holds(a: f64) -> bool { fin(a); half_open(Azimuth::deg(a).angle()) }
pub fn az_dms__holds(d: f64, m: f64, s: f64) -> bool { assume(d > -180. && d <= 180. && m >= 0. && m <= 59. && s >= 0. && s < 60.); half_open(Azimuth::dms(d, m, s).angle()) }
pub fn az_add__holds(a: f64, b: f64) -> bool { fin(a); fin(b); half_open((Azimuth::rad(a) + b * RAD).angle()) }
pub fn az_radd__holds(a: f64, b: f64) -> bool { fin(a); fin(b); half_open((b * RAD + Azimuth::rad(a)).angle()) }
pub fn az_diff__holds(a: f64, b: f64) -> bool { fin(a); fin(b); half_open(Azimuth::rad(a) - Azimuth::rad(b)) }
pub fn az_consts__holds() -> bool { Azimuth::NORTH.angle().rad() == 0. && Azimuth::EAST.angle().rad() == PI / 2. && Azimuth::SOUTH.angle().rad() == PI && Azimuth::WEST.angle().rad() == -PI / 2. }

pub fn angle_normalized__holds(a: f64) -> bool { fin(a); half_open((a * RAD).normalized()) }
pub fn angle_normalize__holds(a: f64) -> bool { fin(a); let mut x = a * RAD; x.normalize(); half_open(x) }
pub fn angle_diff_to__holds(a: f64, b: f64) -> bool { fin(a); fin(b); half_open((a * RAD).diff_to(b * RAD)) }
