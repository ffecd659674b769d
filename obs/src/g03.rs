//! units
use crate::assume;
use geokit::quantities::angle::Angle;
use geokit::quantities::length::{ArcLength, Length};
use geokit::quantities::scale::PPM;
use geokit::units::angle::{AngleUnit, DEG, GRAD, RAD, SEC};
use geokit::units::length::{LengthUnit, FT, M, US_FT};
use std::f64::consts::PI;
pub fn angle_consts__code(x: f64) -> [f64; 4] { [(x * RAD).rad(), (x * DEG).rad(), (x * GRAD).rad(), (x * SEC).rad()] }
pub fn angle_consts__spec(x: f64) -> [f64; 4] { [x, x * PI / 180., x * PI / 200., x * PI / (180. * 3600.)] }
pub fn length_consts__code(x: f64) -> [f64; 3] { [(x * M).m(), (x * FT).m(), (x * US_FT).m()] }
pub fn length_consts__spec(x: f64) -> [f64; 3] { [x, x * 0.3048, x * 1200. / 3937.] }
pub fn angle_in__code(x: f64, n: f64, d: f64) -> [f64; 3] { let u = AngleUnit(n, d); [(x * u).rad(), (u * x).rad(), Angle::new(x, u).rad()] }
pub fn angle_in__spec(x: f64, n: f64, d: f64) -> [f64; 3] { let r = x * n / d; [r, r, r] }
pub fn length_in__code(x: f64, n: f64, d: f64) -> [f64; 3] { let u = LengthUnit(n, d); [(x * u).m(), (u * x).m(), Length::new(x, u).m()] }
pub fn length_in__spec(x: f64, n: f64, d: f64) -> [f64; 3] { let r = x * n / d; [r, r, r] }
pub fn angle_out__code(x: f64, n: f64, d: f64) -> f64 { (x * RAD).val(AngleUnit(n, d)) }
pub fn angle_out__spec(x: f64, n: f64, d: f64) -> f64 { x * d / n }
pub fn length_out__code(x: f64, n: f64, d: f64) -> f64 { (x * M).val(LengthUnit(n, d)) }
pub fn length_out__spec(x: f64, n: f64, d: f64) -> f64 { x * d / n }
pub fn angle_round__code(x: f64, n: f64, d: f64) -> f64 { assume(n > 0. && d > 0.); let u = AngleUnit(n, d); (x * u).val(u) }
pub fn angle_round__spec(x: f64, n: f64, d: f64) -> f64 { x }
pub fn length_round__code(x: f64, n: f64, d: f64) -> f64 { assume(n > 0. && d > 0.); let u = LengthUnit(n, d); (x * u).val(u) }
pub fn length_round__spec(x: f64, n: f64, d: f64) -> f64 { x }
pub fn factor__code(n: f64, d: f64) -> [f64; 2] { [AngleUnit(n, d).rad_per_unit(), LengthUnit(n, d).m_per_unit()] }
pub fn factor__spec(n: f64, d: f64) -> [f64; 2] { [n / d, n / d] }
pub fn ppm__code(x: f64) -> f64 { PPM(x).factor() }
pub fn ppm__spec(x: f64) -> f64 { 1. + x / 1e6 }
// the first order inverse: factor * inverse differs from 1 by exactly the square of the deviation
pub fn ppm_inv__code(x: f64) -> f64 { let p = PPM(x); p.factor() * p.inv_factor() }
pub fn ppm_inv__spec(x: f64) -> f64 { 1. - (x / 1e6) * (x / 1e6) }
pub fn angle_abs__code(x: f64) -> [f64; 2] { [(x * RAD).abs().rad(), (x * M).abs().m()] }
pub fn angle_abs__spec(x: f64) -> [f64; 2] { let a = if x < 0. { -x } else { x }; [a, a] }
pub fn angle_named__code() -> [f64; 6] { [Angle::ZERO.rad(), Angle::PI_2.rad(), Angle::PI.rad(), Angle::TWO_PI.rad(), Angle::M_PI_2.rad(), Angle::M_PI.rad()] }
pub fn angle_named__spec() -> [f64; 6] { [0., PI / 2., PI, 2. * PI, -PI / 2., -PI] }
pub fn trig__code(x: f64) -> [f64; 5] { let a = x * RAD; let (s, c) = a.sin_cos(); [a.sin(), a.cos(), a.tan(), s, c] }
pub fn trig__spec(x: f64) -> [f64; 5] { [x.sin(), x.cos(), x.sin() / x.cos(), x.sin(), x.cos()] }
pub fn len_geom__code(x: f64, y: f64) -> [f64; 2] { [(x * M).atan2(y * M).rad(), (x * M).hypot(y * M).m()] }
pub fn len_geom__spec(x: f64, y: f64) -> [f64; 2] { [x.atan2(y), (x * x + y * y).sqrt()] }
pub fn arc__code(r: f64, t: f64) -> [f64; 3] { [((r * M) * (t * RAD)).length().m(), ((t * RAD) * (r * M)).length().m(), (ArcLength(t * M) / (r * M)).rad()] }
pub fn arc__spec(r: f64, t: f64) -> [f64; 3] { [r * t, r * t, t / r] }
