//! approximate equality: per-axis absolute tolerances, inclusive bound
use crate::assume;
use approx::AbsDiffEq;
use geokit::cs::azimuth::Azimuth;
use geokit::cs::cartesian::geocentric::{approx_eq_xyz, XYZ};
use geokit::cs::cartesian::projected::{ProjectedTolerance, ENH};
use geokit::cs::cartesian::CartesianTolerance;
use geokit::cs::geodetic::{approx_eq_llh, GeodeticTolerance, Lat, Lon, LLH};
use geokit::quantities::angle::Angle;
use geokit::quantities::length::Length;
use geokit::units::angle::RAD;
use geokit::units::length::M;
use std::f64::consts::PI;
fn near(a: f64, b: f64, t: f64) -> bool { let d = a - b; (if d < 0. { -d } else { d }) <= t }
/// distance around the circle, for coordinates in [-PI, PI]
fn around(a: f64, b: f64) -> f64 { let d = a - b; let d = if d < 0. { -d } else { d }; if d > PI { 2. * PI - d } else { d } }
fn lonr(a: f64) { assume(a >= -PI && a <= PI); }
fn latr(a: f64) { assume(a >= -PI / 2. && a <= PI / 2.); }
fn enh(c: [f64; 3]) -> ENH { ENH { easting: c[0] * M, northing: c[1] * M, height: c[2] * M } }
fn xyz(c: [f64; 3]) -> XYZ { XYZ { x: c[0] * M, y: c[1] * M, z: c[2] * M } }
fn llh(c: [f64; 3]) -> LLH { LLH { lon: Lon::const_new(c[0] * RAD), lat: Lat::new(c[1] * RAD), height: c[2] * M } }
pub fn angle__code(a: f64, b: f64, t: f64) -> bool { (a * RAD).abs_diff_eq(&(b * RAD), t * RAD) }
pub fn angle__spec(a: f64, b: f64, t: f64) -> bool { near(a, b, t) }
pub fn length__code(a: f64, b: f64, t: f64) -> bool { (a * M).abs_diff_eq(&(b * M), t * M) }
pub fn length__spec(a: f64, b: f64, t: f64) -> bool { near(a, b, t) }
pub fn lat__code(a: f64, b: f64, t: f64) -> bool { latr(a); latr(b); Lat::new(a * RAD).abs_diff_eq(&Lat::new(b * RAD), t * RAD) }
pub fn lat__spec(a: f64, b: f64, t: f64) -> bool { near(a, b, t) }
pub fn lon__code(a: f64, b: f64, t: f64) -> bool { lonr(a); lonr(b); Lon::const_new(a * RAD).abs_diff_eq(&Lon::const_new(b * RAD), t * RAD) }
pub fn lon__spec(a: f64, b: f64, t: f64) -> bool { around(a, b) <= t }
pub fn az__code(a: f64, b: f64, t: f64) -> bool { assume(a > -PI && a <= PI && b > -PI && b <= PI); Azimuth::rad(a).abs_diff_eq(&Azimuth::rad(b), t * RAD) }
pub fn az__spec(a: f64, b: f64, t: f64) -> bool { around(a, b) <= t }
pub fn llh__code(a: [f64; 3], b: [f64; 3], t: [f64; 3]) -> bool { lonr(a[0]); lonr(b[0]); latr(a[1]); latr(b[1]); llh(a).approx_eq(&llh(b), GeodeticTolerance { lon: t[0] * RAD, lat: t[1] * RAD, height: t[2] * M }) }
pub fn llh__spec(a: [f64; 3], b: [f64; 3], t: [f64; 3]) -> bool { Lon::const_new(a[0] * RAD).abs_diff_eq(&Lon::const_new(b[0] * RAD), t[0] * RAD) && near(a[1], b[1], t[1]) && near(a[2], b[2], t[2]) }
pub fn xyz__code(a: [f64; 3], b: [f64; 3], t: f64) -> bool { xyz(a).approx_eq(xyz(b), CartesianTolerance { all: t * M }) }
pub fn xyz__spec(a: [f64; 3], b: [f64; 3], t: f64) -> bool { near(a[0], b[0], t) && near(a[1], b[1], t) && near(a[2], b[2], t) }
pub fn enh__code(a: [f64; 3], b: [f64; 3], t: f64, u: f64) -> bool { enh(a).approx_eq(enh(b), ProjectedTolerance { horiz: t * M, height: u * M }) }
pub fn enh__spec(a: [f64; 3], b: [f64; 3], t: f64, u: f64) -> bool { near(a[0], b[0], t) && near(a[1], b[1], t) && near(a[2], b[2], u) }
pub fn xyz_verbose__code(a: [f64; 3], b: [f64; 3], t: f64) -> bool { approx_eq_xyz(xyz(a), xyz(b), CartesianTolerance { all: t * M }) }
pub fn xyz_verbose__spec(a: [f64; 3], b: [f64; 3], t: f64) -> bool { near(a[0], b[0], t) && near(a[1], b[1], t) && near(a[2], b[2], t) }
pub fn llh_verbose__code(a: [f64; 3], b: [f64; 3], t: [f64; 3]) -> bool { lonr(a[0]); lonr(b[0]); latr(a[1]); latr(b[1]); approx_eq_llh(llh(a), llh(b), GeodeticTolerance { lon: t[0] * RAD, lat: t[1] * RAD, height: t[2] * M }) }
pub fn llh_verbose__spec(a: [f64; 3], b: [f64; 3], t: [f64; 3]) -> bool { Lon::const_new(a[0] * RAD).abs_diff_eq(&Lon::const_new(b[0] * RAD), t[0] * RAD) && near(a[1], b[1], t[1]) && near(a[2], b[2], t[2]) }
// the documented bounds
fn g(t: GeodeticTolerance) -> [f64; 3] { [t.lon.rad(), t.lat.rad(), t.height.m()] }
pub fn geod_bounds__code() -> [[f64; 3]; 3] { [g(GeodeticTolerance::tiny()), g(GeodeticTolerance::small()), g(GeodeticTolerance::default())] }
pub fn geod_bounds__spec() -> [[f64; 3]; 3] { [[1e-12, 1e-12, 1e-4], [1e-9, 1e-9, 1e-3], [1e-12, 1e-12, 1e-4]] }
pub fn cart_bounds__code() -> [f64; 3] { [CartesianTolerance::tiny().all.m(), CartesianTolerance::small().all.m(), CartesianTolerance::default().all.m()] }
pub fn cart_bounds__spec() -> [f64; 3] { [1e-4, 1e-3, 1e-4] }
fn p(t: ProjectedTolerance) -> [f64; 2] { [t.horiz.m(), t.height.m()] }
pub fn proj_bounds__code() -> [[f64; 2]; 2] { [p(ProjectedTolerance::tiny()), p(ProjectedTolerance::small())] }
pub fn proj_bounds__spec() -> [[f64; 2]; 2] { [[1e-4, 1e-4], [1e-3, 1e-3]] }
pub fn eps__code() -> [f64; 7] { [Angle::TINY.rad(), Angle::SMALL.rad(), Length::TINY.m(), Length::SMALL.m(), Angle::default_epsilon().rad(), Length::default_epsilon().m(), <Lon as AbsDiffEq>::default_epsilon().rad()] }
pub fn eps__spec() -> [f64; 7] { [1e-12, 1e-9, 1e-4, 1e-3, 1e-12, 1e-4, 1e-12] }
pub fn usual__code() -> [f64; 7] { [<Angle as AbsDiffEq>::default_epsilon().rad(), <Lon as AbsDiffEq>::default_epsilon().rad(), <Lat as AbsDiffEq>::default_epsilon().rad(), <Azimuth as AbsDiffEq>::default_epsilon().rad(), <Length as AbsDiffEq>::default_epsilon().m(), Angle::default_epsilon().rad(), Length::default_epsilon().m()] }
pub fn usual__spec() -> [f64; 7] { [1e-12, 1e-12, 1e-12, 1e-12, 1e-4, 1e-12, 1e-4] }
