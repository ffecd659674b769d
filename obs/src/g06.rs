//! cartesian axes
use crate::assume;
use geokit::cs::cartesian::geocentric::{GeocentricAxes, XYZ};
use geokit::cs::cartesian::projected::{ProjectedAxes, ProjectedTolerance, ENH};
use geokit::cs::cartesian::CartesianTolerance;
use geokit::units::length::{LengthUnit, M};
fn lu(n: f64, d: f64) -> LengthUnit { LengthUnit(n, d) }
fn p3(n: f64, d: f64, p: f64, q: f64) -> ProjectedAxes { ProjectedAxes::EastNorthUp { horiz_unit: lu(n, d), height_unit: lu(p, q) } }
fn p2(n: f64, d: f64) -> ProjectedAxes { ProjectedAxes::EastNorth { horiz_unit: lu(n, d) } }
fn enh(c: [f64; 3]) -> ENH { ENH { easting: c[0] * M, northing: c[1] * M, height: c[2] * M } }
fn xyz(c: [f64; 3]) -> XYZ { XYZ { x: c[0] * M, y: c[1] * M, z: c[2] * M } }
fn e(c: ENH) -> [f64; 3] { [c.easting.m(), c.northing.m(), c.height.m()] }
fn v(t: &[f64]) -> (usize, [f64; 3]) { (t.len(), [t[0], t[1], if t.len() > 2 { t[2] } else { 0. }]) }
pub fn dims__code(n: f64, d: f64) -> [usize; 3] { [GeocentricAxes::XYZ.dim(), p3(n, d, n, d).dim(), p2(n, d).dim()] }
pub fn dims__spec(n: f64, d: f64) -> [usize; 3] { [3, 3, 2] }
pub fn xyz_norm__code(c: [f64; 3]) -> [f64; 3] { let r = GeocentricAxes::XYZ.normalize(&c); [r.x.m(), r.y.m(), r.z.m()] }
pub fn xyz_norm__spec(c: [f64; 3]) -> [f64; 3] { c }
pub fn xyz_den__code(c: [f64; 3]) -> [f64; 3] { let mut o = [0.; 3]; GeocentricAxes::XYZ.denormalize(xyz(c), &mut o); o }
pub fn xyz_den__spec(c: [f64; 3]) -> [f64; 3] { c }
pub fn xyz_tol__code(t: f64) -> (usize, [f64; 3]) { v(&GeocentricAxes::XYZ.denormalize_tol(CartesianTolerance { all: t * M })) }
pub fn xyz_tol__spec(t: f64) -> (usize, [f64; 3]) { (3, [t, t, t]) }
pub fn p3_norm__code(c: [f64; 3], n: f64, d: f64, p: f64, q: f64) -> [f64; 3] { e(p3(n, d, p, q).normalize(&c)) }
pub fn p3_norm__spec(c: [f64; 3], n: f64, d: f64, p: f64, q: f64) -> [f64; 3] { [c[0] * n / d, c[1] * n / d, c[2] * p / q] }
pub fn p2_norm__code(c: [f64; 2], n: f64, d: f64) -> [f64; 3] { e(p2(n, d).normalize(&c)) }
pub fn p2_norm__spec(c: [f64; 2], n: f64, d: f64) -> [f64; 3] { [c[0] * n / d, c[1] * n / d, 0.] }
pub fn p3_den__code(c: [f64; 3], n: f64, d: f64, p: f64, q: f64) -> [f64; 3] { let mut o = [0.; 3]; p3(n, d, p, q).denormalize(enh(c), &mut o); o }
pub fn p3_den__spec(c: [f64; 3], n: f64, d: f64, p: f64, q: f64) -> [f64; 3] { [c[0] * d / n, c[1] * d / n, c[2] * q / p] }
pub fn p2_den__code(c: [f64; 3], z: f64, n: f64, d: f64) -> [f64; 3] { let mut o = [0., 0., z]; p2(n, d).denormalize(enh(c), &mut o); o }
pub fn p2_den__spec(c: [f64; 3], z: f64, n: f64, d: f64) -> [f64; 3] { [c[0] * d / n, c[1] * d / n, z] }
pub fn p3_rt__code(c: [f64; 3], n: f64, d: f64, p: f64, q: f64) -> [f64; 3] { assume(n > 0. && d > 0. && p > 0. && q > 0.); let a = p3(n, d, p, q); let mut o = [0.; 3]; a.denormalize(a.normalize(&c), &mut o); o }
pub fn p3_rt__spec(c: [f64; 3], n: f64, d: f64, p: f64, q: f64) -> [f64; 3] { c }
pub fn p2_rt__code(c: [f64; 2], n: f64, d: f64) -> [f64; 2] { assume(n > 0. && d > 0.); let a = p2(n, d); let mut o = [0.; 2]; a.denormalize(a.normalize(&c), &mut o); o }
pub fn p2_rt__spec(c: [f64; 2], n: f64, d: f64) -> [f64; 2] { c }
pub fn p_tol__code(h: f64, u: f64, n: f64, d: f64, p: f64, q: f64) -> [(usize, [f64; 3]); 2] { let t = ProjectedTolerance { horiz: h * M, height: u * M }; [v(&p3(n, d, p, q).denormalize_tol(t)), v(&p2(n, d).denormalize_tol(t))] }
pub fn p_tol__spec(h: f64, u: f64, n: f64, d: f64, p: f64, q: f64) -> [(usize, [f64; 3]); 2] { let x = h * d / n; [(3, [x, x, u * q / p]), (2, [x, x, 0.])] }
fn d3(a: [f64; 3], b: [f64; 3]) -> f64 { let (x, y, z) = (a[0] - b[0], a[1] - b[1], a[2] - b[2]); (x * x + y * y + z * z).sqrt() }
pub fn xyz_dist__code(a: [f64; 3], b: [f64; 3]) -> f64 { xyz(a).dist_to(xyz(b)).m() }
pub fn xyz_dist__spec(a: [f64; 3], b: [f64; 3]) -> f64 { d3(a, b) }
pub fn enh_dist__code(a: [f64; 3], b: [f64; 3]) -> f64 { enh(a).dist_to(enh(b)).m() }
pub fn enh_dist__spec(a: [f64; 3], b: [f64; 3]) -> f64 { d3(a, b) }
