//! failures of inner steps are failures of the whole
use crate::assume;
use geokit::crs::Crs;
use geokit::crs::{geographic::GeographicCrs, projected::ProjectedCrs};
use geokit::cs::cartesian::geocentric::XYZ;
use geokit::cs::cartesian::projected::ProjectedAxes;
use geokit::cs::geodetic::{GeodeticAxes, Lat, Lon};
use geokit::geodesy::geodesics::vincenty::VincentyGeodesicSolver;
use geokit::geodesy::geodesics::GeodesicSolver;
use geokit::geodesy::{Ellipsoid, GeodeticDatum, PrimeMeridian};
use geokit::geometry::coordinate::curve::line_string::LineStringBuilder;
use geokit::projections::ProjectionSpec;
use geokit::quantities::length::Length;
use geokit::transformations::xyz::{CrsXYZTransformation, ToXYZ, ToXYZProvider, XYZIdentity, XYZTransformation};
use geokit::transformations::{CrsTransformation, TransformationError};
use geokit::units::angle::RAD;
use geokit::units::length::M;
use std::f64::consts::{FRAC_PI_2, PI};
unsafe extern "C" {
    fn ufb_in(k: i32, x: f64, y: f64, z: f64) -> bool;
    fn ufb_out(k: i32, x: f64, y: f64, z: f64) -> bool;
    fn ufb_dist(a: f64, b: f64, c: f64, d: f64) -> bool;
    fn d2(a: f64, b: f64, c: f64, d: f64) -> f64;
}
type V = [f64; 3];
type W = [f64; 2];
fn xyz(c: V) -> XYZ { XYZ { x: c[0] * M, y: c[1] * M, z: c[2] * M } }
// transformations between systems either of which may refuse a coordinate
#[derive(Clone, Copy)]
struct P(i32);
impl ToXYZ for P {
    fn to_xyz(&self, c: &[f64]) -> Result<XYZ, TransformationError> { if unsafe { ufb_in(self.0, c[0], c[1], c[2]) } { Ok(xyz([c[0], c[1], c[2]])) } else { Err(TransformationError::OutOfBounds) } }
    fn from_xyz(&self, p: XYZ, c: &mut [f64]) -> Result<(), TransformationError> {
        if unsafe { ufb_out(self.0, p.x.m(), p.y.m(), p.z.m()) } { c[0] = p.x.m(); c[1] = p.y.m(); c[2] = p.z.m(); Ok(()) } else { Err(TransformationError::OutOfBounds) }
    }
}
impl ToXYZProvider for P { fn to_xyz_transformation<'a>(&self) -> Box<dyn ToXYZ + 'a> { Box::new(*self) } }
pub fn fwd__code(c: V, i: V) -> (bool, V) { let mut r = i; let k = CrsXYZTransformation::new(P(1), P(2), XYZIdentity, XYZIdentity).fwd(&c, &mut r); (k.is_ok(), r) }
pub fn fwd__spec(c: V, i: V) -> (bool, V) { let k = unsafe { ufb_in(1, c[0], c[1], c[2]) && ufb_out(2, c[0], c[1], c[2]) }; (k, if k { c } else { i }) }
pub fn bwd__code(c: V, i: V) -> (bool, V) { let mut r = i; let k = CrsXYZTransformation::new(P(1), P(2), XYZIdentity, XYZIdentity).bwd(&c, &mut r); (k.is_ok(), r) }
pub fn bwd__spec(c: V, i: V) -> (bool, V) { let k = unsafe { ufb_in(2, c[0], c[1], c[2]) && ufb_out(1, c[0], c[1], c[2]) }; (k, if k { c } else { i }) }
// projected systems: what the projection refuses is refused
fn datum(a: f64, b: f64, pm: f64) -> GeodeticDatum { assume(b > 0. && a > b && a < 1e9); assume(pm > -PI && pm <= PI); GeodeticDatum::new("d", Ellipsoid::from_ab("e", a * M, b * M), PrimeMeridian::new("p", Lon::rad(pm))) }
const EN: ProjectedAxes = ProjectedAxes::EastNorthUp { horiz_unit: M, height_unit: M };
fn pj(d: GeodeticDatum, projection: ProjectionSpec) -> ProjectedCrs { ProjectedCrs { id: "p".into(), datum: d, axes: EN, projection } }
fn into(d: GeodeticDatum, p: ProjectionSpec, c: V) -> bool { pj(d, p).to_xyz_transformation().to_xyz(&c).is_ok() }
fn into_s(d: GeodeticDatum, p: ProjectionSpec, c: V) -> bool { p.applied_to(d.ellipsoid()).unproj(EN.normalize(&c)).is_ok() }
fn from(d: GeodeticDatum, p: ProjectionSpec, c: V) -> (bool, V) { let mut r = [7.; 3]; let k = pj(d, p).to_xyz_transformation().from_xyz(xyz(c), &mut r); (k.is_ok(), if k.is_ok() { [0.; 3] } else { r }) }
fn from_s(d: GeodeticDatum, p: ProjectionSpec, c: V) -> (bool, V) { let k = p.applied_to(d.ellipsoid()).proj(d.xyz_to_llh(xyz(c))).is_ok(); (k, if k { [0.; 3] } else { [7.; 3] }) }
fn web() -> ProjectionSpec { ProjectionSpec::WebMercator { lon0: Lon::rad(0.25), lat0: Lat::ZERO, false_easting: 1000. * M, false_northing: 2000. * M } }
fn merc() -> ProjectionSpec { ProjectionSpec::Mercator1SP { lon0: Lon::rad(0.5), k0: 0.9, false_easting: 1000. * M, false_northing: 2000. * M } }
fn tmerc() -> ProjectionSpec { ProjectionSpec::TransverseMercator { lon0: Lon::rad(0.5), lat0: Lat::ZERO, k0: 0.9, false_easting: 1000. * M, false_northing: 2000. * M } }
pub fn web_into__code(a: f64, b: f64, pm: f64, c: V) -> bool { into(datum(a, b, pm), web(), c) }
pub fn web_into__spec(a: f64, b: f64, pm: f64, c: V) -> bool { into_s(datum(a, b, pm), web(), c) }
pub fn web_from__code(a: f64, b: f64, pm: f64, c: V) -> (bool, V) { from(datum(a, b, pm), web(), c) }
pub fn web_from__spec(a: f64, b: f64, pm: f64, c: V) -> (bool, V) { from_s(datum(a, b, pm), web(), c) }
pub fn merc_into__code(a: f64, b: f64, pm: f64, c: V) -> bool { into(datum(a, b, pm), merc(), c) }
pub fn merc_into__spec(a: f64, b: f64, pm: f64, c: V) -> bool { into_s(datum(a, b, pm), merc(), c) }
pub fn merc_from__code(a: f64, b: f64, pm: f64, c: V) -> (bool, V) { from(datum(a, b, pm), merc(), c) }
pub fn merc_from__spec(a: f64, b: f64, pm: f64, c: V) -> (bool, V) { from_s(datum(a, b, pm), merc(), c) }
pub fn tmerc_into__code(a: f64, b: f64, pm: f64, c: V) -> bool { into(datum(a, b, pm), tmerc(), c) }
pub fn tmerc_into__spec(a: f64, b: f64, pm: f64, c: V) -> bool { into_s(datum(a, b, pm), tmerc(), c) }
pub fn tmerc_from__code(a: f64, b: f64, pm: f64, c: V) -> (bool, V) { from(datum(a, b, pm), tmerc(), c) }
pub fn tmerc_from__spec(a: f64, b: f64, pm: f64, c: V) -> (bool, V) { from_s(datum(a, b, pm), tmerc(), c) }
// distances on the ellipsoid: what the geodesic solver refuses is refused
pub fn geodist__code(a: f64, b: f64, p: W, q: W) -> bool { GeographicCrs { id: "g".into(), datum: datum(a, b, 0.), axes: GeodeticAxes::EastNorth { angle_unit: RAD } }.dist(&p, &q).is_ok() }
pub fn geodist__spec(a: f64, b: f64, p: W, q: W) -> bool { let e = Ellipsoid::from_ab("e", a * M, b * M); let f = |c: W| (Lon::rad(c[0]), Lat::new(c[1] * RAD)); VincentyGeodesicSolver::new(&e).solve_inverse(f(p), f(q)).is_ok() }
// line strings: a leg whose length cannot be computed is refused
#[derive(Debug)]
struct C2;
impl Crs for C2 {
    fn id(&self) -> &str { "c" }
    fn dim(&self) -> usize { 2 }
    fn dist(&self, a: &[f64], b: &[f64]) -> Result<Length, &'static str> { if leg([a[0], a[1]], [b[0], b[1]]) { Ok(unsafe { d2(a[0], a[1], b[0], b[1]) } * M) } else { Err("no") } }
}
fn leg(a: W, b: W) -> bool { unsafe { ufb_dist(a[0], a[1], b[0], b[1]) } }
pub fn first_leg__code(a: W, b: W) -> bool { LineStringBuilder::with_line(&C2, a, b).is_ok() }
pub fn first_leg__spec(a: W, b: W) -> bool { leg(a, b) }
pub fn next_leg__code(a: W, b: W, c: W) -> bool { assume(leg(a, b)); LineStringBuilder::with_line(&C2, a, b).unwrap().line_to(c).is_ok() }
pub fn next_leg__spec(_a: W, b: W, c: W) -> bool { leg(b, c) }
pub fn last_leg__code(a: W, b: W, c: W) -> bool { assume(leg(a, b) && leg(b, c)); LineStringBuilder::with_line(&C2, a, b).unwrap().line_to(c).unwrap().close().is_ok() }
pub fn last_leg__spec(a: W, _b: W, c: W) -> bool { leg(c, a) }
