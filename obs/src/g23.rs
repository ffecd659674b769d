//! circle intervals
use crate::assume;
use geokit::cs::s1::Interval;
use geokit::quantities::angle::Angle;
use geokit::units::angle::RAD;
use std::f64::consts::PI;
fn rng(a: f64) { assume(a >= -PI && a <= PI); }
pub fn kinds__code(a: f64) -> [(bool, bool, f64); 2] { let (e, f) = (Interval::empty(), Interval::full()); [(e.is_empty(), e.is_full(), e.length().rad()), (f.is_empty(), f.is_full(), f.length().rad())] }
pub fn kinds__spec(a: f64) -> [(bool, bool, f64); 2] { [(true, false, 0.), (false, true, 2. * PI)] }
pub fn singleton__code(a: f64) -> (bool, bool, f64) { let s = Interval::singleton(a * RAD); (s.is_empty(), s.is_full(), s.length().rad()) }
pub fn singleton__spec(a: f64) -> (bool, bool, f64) { (false, false, 0.) }
pub fn length_range__holds(a: f64, b: f64) -> bool { rng(a); rng(b); let l = Interval::new(a * RAD, b * RAD).length().rad(); l >= 0. && l <= 2. * PI }
pub fn length__code(a: f64, b: f64) -> f64 { rng(a); rng(b); Interval::new(a * RAD, b * RAD).length().rad() }
pub fn length__spec(a: f64, b: f64) -> f64 {
    if a == -PI && b == PI { 2. * PI }
    else if a == PI && b == -PI { 0. }
    else { let a = if a == -PI { PI } else { a }; let b = if b == -PI { PI } else { b }; if b >= a { b - a } else { b - a + 2. * PI } }
}
pub fn empty_iff__code(a: f64, b: f64) -> bool { rng(a); rng(b); Interval::new(a * RAD, b * RAD).is_empty() }
pub fn empty_iff__spec(a: f64, b: f64) -> bool { a == PI && b == -PI }
pub fn full_iff__code(a: f64, b: f64) -> bool { rng(a); rng(b); Interval::new(a * RAD, b * RAD).is_full() }
pub fn full_iff__spec(a: f64, b: f64) -> bool { a == -PI && b == PI }

// whole turns make no difference, to the interval itself as seen by comparison
fn turn(a: f64) { assume(a > -3. * PI && a <= 3. * PI); }
pub fn singleton_same__code(a: f64) -> bool { turn(a); Interval::singleton(a * RAD) == Interval::singleton((a * RAD).normalized()) }
pub fn singleton_same__spec(a: f64) -> bool { true }
pub fn bounds__code(a: f64, b: f64, c: f64, d: f64) -> bool { rng(a); rng(b); rng(c); rng(d); assume(a > -PI && b > -PI && c > -PI && d > -PI); Interval::new(a * RAD, b * RAD) == Interval::new(c * RAD, d * RAD) }
pub fn bounds__spec(a: f64, b: f64, c: f64, d: f64) -> bool { a == c && b == d }
pub fn single_new__code(a: f64, b: f64) -> bool { rng(a); rng(b); assume(a > -PI && b > -PI); Interval::singleton(a * RAD) == Interval::new(b * RAD, b * RAD) }
pub fn single_new__spec(a: f64, b: f64) -> bool { a == b }
