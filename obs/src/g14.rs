//! coordinate transformations compose their four steps, in both directions
use crate::assume;
use geokit::crs::{geocentric::GeocentricCrs, geographic::GeographicCrs, projected::ProjectedCrs};
use geokit::cs::cartesian::geocentric::{GeocentricAxes, XYZ};
use geokit::cs::cartesian::projected::ProjectedAxes;
use geokit::cs::geodetic::{GeodeticAxes, Lat, Lon};
use geokit::geodesy::{Ellipsoid, GeodeticDatum, PrimeMeridian};
use geokit::projections::ProjectionSpec;
use geokit::transformations::xyz::{CrsXYZTransformation, XYZIdentity, XYZTransformation};
use geokit::transformations::CrsTransformation;
use geokit::units::angle::{DEG, GRAD};
use geokit::units::length::{M, US_FT};
use std::f64::consts::PI;
unsafe extern "C" {
    fn s_to(i: i32, x: f64, y: f64, z: f64) -> f64;
    fn s_from(i: i32, x: f64, y: f64, z: f64) -> f64;
    fn d_to(i: i32, x: f64, y: f64, z: f64) -> f64;
    fn d_from(i: i32, x: f64, y: f64, z: f64) -> f64;
}
type V = [f64; 3];
fn xyz(c: V) -> XYZ { XYZ { x: c[0] * M, y: c[1] * M, z: c[2] * M } }
fn o(c: XYZ) -> V { [c.x.m(), c.y.m(), c.z.m()] }
/// datum shifts about which nothing is known
fn st(c: V) -> V { unsafe { [s_to(0, c[0], c[1], c[2]), s_to(1, c[0], c[1], c[2]), s_to(2, c[0], c[1], c[2])] } }
fn sf(c: V) -> V { unsafe { [s_from(0, c[0], c[1], c[2]), s_from(1, c[0], c[1], c[2]), s_from(2, c[0], c[1], c[2])] } }
fn dt(c: V) -> V { unsafe { [d_to(0, c[0], c[1], c[2]), d_to(1, c[0], c[1], c[2]), d_to(2, c[0], c[1], c[2])] } }
fn df(c: V) -> V { unsafe { [d_from(0, c[0], c[1], c[2]), d_from(1, c[0], c[1], c[2]), d_from(2, c[0], c[1], c[2])] } }
struct S;
impl XYZTransformation for S { fn to_ref(&self, c: XYZ) -> XYZ { xyz(st(o(c))) } fn from_ref(&self, c: XYZ) -> XYZ { xyz(sf(o(c))) } }
struct D;
impl XYZTransformation for D { fn to_ref(&self, c: XYZ) -> XYZ { xyz(dt(o(c))) } fn from_ref(&self, c: XYZ) -> XYZ { xyz(df(o(c))) } }
fn datum(a: f64, b: f64, pm: f64) -> GeodeticDatum { assume(b > 0. && a > b && a < 1e9); assume(pm > -PI && pm <= PI); GeodeticDatum::new("d", Ellipsoid::from_ab("e", a * M, b * M), PrimeMeridian::new("p", Lon::rad(pm))) }
fn gc(d: GeodeticDatum) -> GeocentricCrs { GeocentricCrs { id: "c".into(), datum: d, axes: GeocentricAxes::XYZ } }
fn gg(d: GeodeticDatum, axes: GeodeticAxes) -> GeographicCrs { GeographicCrs { id: "g".into(), datum: d, axes } }
fn pj(d: GeodeticDatum, axes: ProjectedAxes, projection: ProjectionSpec) -> ProjectedCrs { ProjectedCrs { id: "p".into(), datum: d, axes, projection } }
const ENU: GeodeticAxes = GeodeticAxes::EastNorthUp { angle_unit: DEG, height_unit: US_FT };
const NE: GeodeticAxes = GeodeticAxes::NorthEast { angle_unit: GRAD };
const PEN: ProjectedAxes = ProjectedAxes::EastNorthUp { horiz_unit: US_FT, height_unit: M };
fn run(t: &CrsXYZTransformation, back: bool, c: &[f64], init: V) -> (bool, V) {
    let mut r = init;
    let k = if back { t.bwd(c, &mut r) } else { t.fwd(c, &mut r) };
    (k.is_ok(), r)
}
fn run2(t: &CrsXYZTransformation, back: bool, c: &[f64]) -> (bool, [f64; 2]) {
    let mut r = [0.; 2];
    let k = if back { t.bwd(c, &mut r) } else { t.fwd(c, &mut r) };
    (k.is_ok(), r)
}
// geocentric to geocentric: only the datum shifts remain
pub fn order__code(c: V) -> [(bool, V); 2] {
    let w = datum(2., 1., 0.);
    let t = CrsXYZTransformation::new(gc(w.clone()), gc(w), S, D);
    [run(&t, false, &c, [0.; 3]), run(&t, true, &c, [0.; 3])]
}
pub fn order__spec(c: V) -> [(bool, V); 2] { [(true, df(st(c))), (true, sf(dt(c)))] }
pub fn identity__code(c: V) -> [(bool, V); 2] {
    let w = datum(2., 1., 0.);
    let t = CrsXYZTransformation::new(gc(w.clone()), gc(w), XYZIdentity, XYZIdentity);
    [run(&t, false, &c, [0.; 3]), run(&t, true, &c, [0.; 3])]
}
pub fn identity__spec(c: V) -> [(bool, V); 2] { [(true, c), (true, c)] }
// geographic source: its datum and axes, and only those, are applied on its side
pub fn geog_src__code(a: f64, b: f64, pm: f64, c: V) -> (bool, V) { let t = CrsXYZTransformation::new(gg(datum(a, b, pm), ENU), gc(datum(2., 1., 0.)), S, D); run(&t, false, &c, [0.; 3]) }
pub fn geog_src__spec(a: f64, b: f64, pm: f64, c: V) -> (bool, V) { (true, df(st(o(datum(a, b, pm).llh_to_xyz(ENU.normalize(&c)))))) }
pub fn geog_src_back__code(a: f64, b: f64, pm: f64, c: V) -> (bool, V) { let t = CrsXYZTransformation::new(gg(datum(a, b, pm), ENU), gc(datum(2., 1., 0.)), S, D); run(&t, true, &c, [0.; 3]) }
pub fn geog_src_back__spec(a: f64, b: f64, pm: f64, c: V) -> (bool, V) { let mut r = [0.; 3]; ENU.denormalize(datum(a, b, pm).xyz_to_llh(xyz(sf(dt(c)))), &mut r); (true, r) }
pub fn geog_dst__code(a: f64, b: f64, pm: f64, c: V) -> (bool, [f64; 2]) { let t = CrsXYZTransformation::new(gc(datum(2., 1., 0.)), gg(datum(a, b, pm), NE), S, D); run2(&t, false, &c) }
pub fn geog_dst__spec(a: f64, b: f64, pm: f64, c: V) -> (bool, [f64; 2]) { let mut r = [0.; 2]; NE.denormalize(datum(a, b, pm).xyz_to_llh(xyz(df(st(c)))), &mut r); (true, r) }
pub fn geog_dst_back__code(a: f64, b: f64, pm: f64, c: [f64; 2]) -> (bool, V) { let t = CrsXYZTransformation::new(gc(datum(2., 1., 0.)), gg(datum(a, b, pm), NE), S, D); run(&t, true, &c, [0.; 3]) }
pub fn geog_dst_back__spec(a: f64, b: f64, pm: f64, c: [f64; 2]) -> (bool, V) { (true, sf(dt(o(datum(a, b, pm).llh_to_xyz(NE.normalize(&c)))))) }
// two geographic systems on different ellipsoids and meridians
pub fn geog_geog__code(a: f64, b: f64, pm: f64, a2: f64, b2: f64, pm2: f64, c: V) -> (bool, [f64; 2]) { let t = CrsXYZTransformation::new(gg(datum(a, b, pm), ENU), gg(datum(a2, b2, pm2), NE), S, D); run2(&t, false, &c) }
pub fn geog_geog__spec(a: f64, b: f64, pm: f64, a2: f64, b2: f64, pm2: f64, c: V) -> (bool, [f64; 2]) { let mut r = [0.; 2]; NE.denormalize(datum(a2, b2, pm2).xyz_to_llh(xyz(df(st(o(datum(a, b, pm).llh_to_xyz(ENU.normalize(&c))))))), &mut r); (true, r) }
// projected systems: the projection is set up on the ellipsoid of the system's own datum, its failure is reported and nothing is written
fn utm() -> ProjectionSpec { ProjectionSpec::UTMSouth { zone: 7 } }
fn web(l0: f64) -> ProjectionSpec { ProjectionSpec::WebMercator { lon0: Lon::rad(l0), lat0: Lat::ZERO, false_easting: 1000. * M, false_northing: 2000. * M } }
fn merc(k0: f64) -> ProjectionSpec { ProjectionSpec::Mercator1SP { lon0: Lon::rad(0.5), k0, false_easting: 1000. * M, false_northing: 2000. * M } }
fn pfwd(d: GeodeticDatum, p: ProjectionSpec, c: XYZ, init: V) -> (bool, V) { let l = d.xyz_to_llh(c); match p.applied_to(d.ellipsoid()).proj(l) { Ok(e) => { let mut r = init; PEN.denormalize(e, &mut r); (true, r) } Err(_) => (false, init) } }
fn pbwd(d: GeodeticDatum, p: ProjectionSpec, c: V) -> Option<V> { match p.applied_to(d.ellipsoid()).unproj(PEN.normalize(&c)) { Ok(l) => Some(o(d.llh_to_xyz(l))), Err(_) => None } }
pub fn proj_src__code(a: f64, b: f64, pm: f64, k0: f64, c: V, i: V) -> (bool, V) { let t = CrsXYZTransformation::new(pj(datum(a, b, pm), PEN, merc(k0)), gc(datum(2., 1., 0.)), S, D); run(&t, false, &c, i) }
pub fn proj_src__spec(a: f64, b: f64, pm: f64, k0: f64, c: V, i: V) -> (bool, V) { match pbwd(datum(a, b, pm), merc(k0), c) { Some(x) => (true, df(st(x))), None => (false, i) } }
pub fn proj_src_back__code(a: f64, b: f64, pm: f64, k0: f64, c: V, i: V) -> (bool, V) { let t = CrsXYZTransformation::new(pj(datum(a, b, pm), PEN, merc(k0)), gc(datum(2., 1., 0.)), S, D); run(&t, true, &c, i) }
pub fn proj_src_back__spec(a: f64, b: f64, pm: f64, k0: f64, c: V, i: V) -> (bool, V) { pfwd(datum(a, b, pm), merc(k0), xyz(sf(dt(c))), i) }
pub fn proj_dst__code(a: f64, b: f64, pm: f64, l0: f64, c: V, i: V) -> (bool, V) { let t = CrsXYZTransformation::new(gc(datum(2., 1., 0.)), pj(datum(a, b, pm), PEN, web(l0)), S, D); run(&t, false, &c, i) }
pub fn proj_dst__spec(a: f64, b: f64, pm: f64, l0: f64, c: V, i: V) -> (bool, V) { pfwd(datum(a, b, pm), web(l0), xyz(df(st(c))), i) }
pub fn proj_dst_back__code(a: f64, b: f64, pm: f64, l0: f64, c: V, i: V) -> (bool, V) { let t = CrsXYZTransformation::new(gc(datum(2., 1., 0.)), pj(datum(a, b, pm), PEN, web(l0)), S, D); run(&t, true, &c, i) }
pub fn proj_dst_back__spec(a: f64, b: f64, pm: f64, l0: f64, c: V, i: V) -> (bool, V) { match pbwd(datum(a, b, pm), web(l0), c) { Some(x) => (true, sf(dt(x))), None => (false, i) } }
pub fn utm_dst__code(a: f64, b: f64, pm: f64, c: V, i: V) -> (bool, V) { let t = CrsXYZTransformation::new(gc(datum(2., 1., 0.)), pj(datum(a, b, pm), PEN, utm()), S, D); run(&t, false, &c, i) }
pub fn utm_dst__spec(a: f64, b: f64, pm: f64, c: V, i: V) -> (bool, V) { pfwd(datum(a, b, pm), utm(), xyz(df(st(c))), i) }
// a pole cannot be projected: the failure is reported and what the buffer held before is still there
fn ball(a: f64) -> GeodeticDatum { assume(a > 1. && a < 1e9); GeodeticDatum::new("s", Ellipsoid::from_ab("s", a * M, a * M), PrimeMeridian::new("p", Lon::ZERO)) }
pub fn refused__code(a: f64, z: f64, i: V) -> [(bool, V); 2] {
    assume(z > 1. && z < 1e9);
    let t = CrsXYZTransformation::new(gc(ball(a)), pj(ball(a), PEN, web(0.)), XYZIdentity, XYZIdentity);
    let u = CrsXYZTransformation::new(pj(ball(a), PEN, web(0.)), gc(ball(a)), XYZIdentity, XYZIdentity);
    [run(&t, false, &[0., 0., z], i), run(&u, true, &[0., 0., -z], i)]
}
pub fn refused__spec(_a: f64, _z: f64, i: V) -> [(bool, V); 2] { [(false, i), (false, i)] }
pub fn refused_merc__code(a: f64, z: f64, i: V) -> [(bool, V); 2] {
    assume(z > 1. && z < 1e9);
    let t = CrsXYZTransformation::new(gc(ball(a)), pj(ball(a), PEN, merc(1.)), XYZIdentity, XYZIdentity);
    let u = CrsXYZTransformation::new(pj(ball(a), PEN, merc(1.)), gc(ball(a)), XYZIdentity, XYZIdentity);
    [run(&t, false, &[0., 0., -z], i), run(&u, true, &[0., 0., z], i)]
}
pub fn refused_merc__spec(_a: f64, _z: f64, i: V) -> [(bool, V); 2] { [(false, i), (false, i)] }
