//! distances and approximate equality of coordinates
use crate::assume;
use geokit::crs::Crs;
use geokit::crs::{geocentric::GeocentricCrs, geographic::GeographicCrs, projected::ProjectedCrs};
use geokit::cs::cartesian::geocentric::GeocentricAxes;
use geokit::cs::cartesian::projected::ProjectedAxes;
use geokit::cs::geodetic::{GeodeticAxes, Lat, Lon, LLH};
use geokit::geodesy::geodesics::vincenty::VincentyGeodesicSolver;
use geokit::geodesy::geodesics::GeodesicSolver;
use geokit::geodesy::{Ellipsoid, GeodeticDatum, PrimeMeridian};
use geokit::projections::ProjectionSpec;
use geokit::units::angle::{AngleUnit, DEG, GRAD, RAD};
use geokit::units::length::{LengthUnit, M, US_FT};
use std::f64::consts::PI;
type V = [f64; 3];
type W = [f64; 2];
fn el(a: f64, b: f64) -> Ellipsoid { assume(b > 0. && a > b && a < 1e9); Ellipsoid::from_ab("e", a * M, b * M) }
fn datum(a: f64, b: f64, pm: f64) -> GeodeticDatum { assume(pm > -PI && pm <= PI); GeodeticDatum::new("d", el(a, b), PrimeMeridian::new("p", Lon::rad(pm))) }
fn gc(d: GeodeticDatum) -> GeocentricCrs { GeocentricCrs { id: "c".into(), datum: d, axes: GeocentricAxes::XYZ } }
fn gg(d: GeodeticDatum, axes: GeodeticAxes) -> GeographicCrs { GeographicCrs { id: "g".into(), datum: d, axes } }
fn pj(d: GeodeticDatum, axes: ProjectedAxes) -> ProjectedCrs { ProjectedCrs { id: "p".into(), datum: d, axes, projection: ProjectionSpec::WebMercator { lon0: Lon::ZERO, lat0: Lat::ZERO, false_easting: 0. * M, false_northing: 0. * M } } }
fn d(c: &dyn Crs, p: &[f64], q: &[f64]) -> Option<f64> { c.dist(p, q).ok().map(|x| x.m()) }
fn e3(p: V, q: V) -> f64 { let t = [p[0] - q[0], p[1] - q[1], p[2] - q[2]]; (t[0] * t[0] + t[1] * t[1] + t[2] * t[2]).sqrt() }
// geocentric and projected coordinates: the straight line
pub fn geocentric__code(p: V, q: V) -> Option<f64> { d(&gc(datum(6378137., 6356752., 0.)), &p, &q) }
pub fn geocentric__spec(p: V, q: V) -> Option<f64> { Some(e3(p, q)) }
fn lu(n: f64, k: f64) -> LengthUnit { assume(n > 0. && k > 0.); LengthUnit(n, k) }
fn au(n: f64, k: f64) -> AngleUnit { assume(n > 0. && k > 0.); AngleUnit(n, k) }
pub fn proj3__code(p: V, q: V, h: W, v: W) -> Option<f64> { d(&pj(datum(6378137., 6356752., 0.), ProjectedAxes::EastNorthUp { horiz_unit: lu(h[0], h[1]), height_unit: lu(v[0], v[1]) }), &p, &q) }
pub fn proj3__spec(p: V, q: V, h: W, v: W) -> Option<f64> { let (h, v) = (h[0] / h[1], v[0] / v[1]); Some(e3([p[0] * h, p[1] * h, p[2] * v], [q[0] * h, q[1] * h, q[2] * v])) }
pub fn proj2__code(p: W, q: W, h: W) -> Option<f64> { d(&pj(datum(6378137., 6356752., 0.), ProjectedAxes::EastNorth { horiz_unit: lu(h[0], h[1]) }), &p, &q) }
pub fn proj2__spec(p: W, q: W, h: W) -> Option<f64> { let h = h[0] / h[1]; Some(e3([p[0] * h, p[1] * h, 0.], [q[0] * h, q[1] * h, 0.])) }
// 3D geographic coordinates: the straight line through the ellipsoid
pub fn geo3__code(a: f64, b: f64, pm: f64, p: V, q: V) -> Option<f64> { d(&gg(datum(a, b, pm), GeodeticAxes::EastNorthUp { angle_unit: DEG, height_unit: US_FT }), &p, &q) }
pub fn geo3__spec(a: f64, b: f64, pm: f64, p: V, q: V) -> Option<f64> {
    let t = datum(a, b, pm);
    let f = |c: V| { let x = t.llh_to_xyz(LLH { lon: Lon::new(c[0] * DEG), lat: Lat::new(c[1] * DEG), height: c[2] * US_FT }); [x.x.m(), x.y.m(), x.z.m()] };
    Some(e3(f(p), f(q)))
}
pub fn geo3n__code(a: f64, b: f64, pm: f64, p: V, q: V) -> Option<f64> { d(&gg(datum(a, b, pm), GeodeticAxes::NorthEastUp { angle_unit: RAD, height_unit: M }), &p, &q) }
pub fn geo3n__spec(a: f64, b: f64, pm: f64, p: V, q: V) -> Option<f64> {
    let t = datum(a, b, pm);
    let f = |c: V| { let x = t.llh_to_xyz(LLH { lon: Lon::new(c[1] * RAD), lat: Lat::new(c[0] * RAD), height: c[2] * M }); [x.x.m(), x.y.m(), x.z.m()] };
    Some(e3(f(p), f(q)))
}
// 2D geographic coordinates: the geodesic; the prime meridian does not matter
fn vin(a: f64, b: f64, p: (Lon, Lat), q: (Lon, Lat)) -> Option<f64> { VincentyGeodesicSolver::new(&el(a, b)).solve_inverse(p, q).ok().map(|g| g.s.m()) }
pub fn geo2_en__code(a: f64, b: f64, pm: f64, p: W, q: W, u: W) -> Option<f64> { d(&gg(datum(a, b, pm), GeodeticAxes::EastNorth { angle_unit: au(u[0], u[1]) }), &p, &q) }
pub fn geo2_en__spec(a: f64, b: f64, pm: f64, p: W, q: W, u: W) -> Option<f64> { let u = au(u[0], u[1]); vin(a, b, (Lon::new(p[0] * u), Lat::new(p[1] * u)), (Lon::new(q[0] * u), Lat::new(q[1] * u))) }
pub fn geo2_ne__code(a: f64, b: f64, pm: f64, p: W, q: W) -> Option<f64> { d(&gg(datum(a, b, pm), GeodeticAxes::NorthEast { angle_unit: GRAD }), &p, &q) }
pub fn geo2_ne__spec(a: f64, b: f64, pm: f64, p: W, q: W) -> Option<f64> { vin(a, b, (Lon::new(p[1] * GRAD), Lat::new(p[0] * GRAD)), (Lon::new(q[1] * GRAD), Lat::new(q[0] * GRAD))) }
pub fn geo2_nw__code(a: f64, b: f64, pm: f64, p: W, q: W) -> Option<f64> { d(&gg(datum(a, b, pm), GeodeticAxes::NorthWest { angle_unit: DEG }), &p, &q) }
pub fn geo2_nw__spec(a: f64, b: f64, pm: f64, p: W, q: W) -> Option<f64> { vin(a, b, (Lon::new(-p[1] * DEG), Lat::new(p[0] * DEG)), (Lon::new(-q[1] * DEG), Lat::new(q[0] * DEG))) }
// a sphere is no exception: along its surface in two dimensions, straight in three
fn ball(a: f64) -> Ellipsoid { assume(a > 1. && a < 1e9); Ellipsoid::from_ab("s", a * M, a * M) }
fn bd(a: f64) -> GeodeticDatum { GeodeticDatum::new("d", ball(a), PrimeMeridian::new("p", Lon::ZERO)) }
pub fn sphere2__code(a: f64, p: W, q: W) -> Option<f64> { d(&gg(bd(a), GeodeticAxes::EastNorth { angle_unit: RAD }), &p, &q) }
pub fn sphere2__spec(a: f64, p: W, q: W) -> Option<f64> { VincentyGeodesicSolver::new(&ball(a)).solve_inverse((Lon::new(p[0] * RAD), Lat::new(p[1] * RAD)), (Lon::new(q[0] * RAD), Lat::new(q[1] * RAD))).ok().map(|g| g.s.m()) }
pub fn sphere3__code(a: f64, p: V, q: V) -> Option<f64> { d(&gg(bd(a), GeodeticAxes::EastNorthUp { angle_unit: RAD, height_unit: M }), &p, &q) }
pub fn sphere3__spec(a: f64, p: V, q: V) -> Option<f64> {
    let f = |c: V| { let (l, b, h) = (c[0], Lat::new(c[1] * RAD).angle().rad(), a + c[2]); [h * b.cos() * l.cos(), h * b.cos() * l.sin(), h * b.sin()] };
    Some(e3(f(p), f(q)))
}
// coordinates of the wrong dimension are refused
pub fn wrong_dim__code(k: u8, p: V, q: V, t: V) -> Option<f64> {
    let z = datum(6378137., 6356752., 0.);
    let (g2, g3) = (gg(z.clone(), GeodeticAxes::EastNorth { angle_unit: DEG }), gg(z.clone(), GeodeticAxes::EastNorthUp { angle_unit: DEG, height_unit: M }));
    let (p2, p3) = (pj(z.clone(), ProjectedAxes::EastNorth { horiz_unit: M }), pj(z.clone(), ProjectedAxes::EastNorthUp { horiz_unit: M, height_unit: M }));
    let c = gc(z);
    let (a, b) = (&p[..2], &q[..2]);
    match k {
        0 => d(&g2, &p, b), 1 => d(&g2, a, &q), 2 => d(&g3, &p, b), 3 => d(&g3, a, &q),
        4 => d(&p2, &p, b), 5 => d(&p2, a, &q), 6 => d(&p3, &p, b), 7 => d(&p3, a, &q),
        8 => d(&c, &p, b), 9 => d(&c, a, &q),
        10 => Some(c.approx_eq(a, &q, &t) as u8 as f64), 11 => Some(g2.approx_eq(a, &q, &t) as u8 as f64), _ => Some(p3.approx_eq(&p, b, &t) as u8 as f64),
    }
}
pub fn wrong_dim__spec(_k: u8, _p: V, _q: V, _t: V) -> Option<f64> { panic!() }
// approximate equality is axis by axis, each with its own tolerance, bounds included
fn le(x: f64, y: f64, t: f64) -> bool { (x - y).abs() <= t }
pub fn approx3__code(p: V, q: V, t: V) -> [bool; 3] {
    let z = datum(6378137., 6356752., 0.);
    [gc(z.clone()).approx_eq(&p, &q, &t), gg(z.clone(), GeodeticAxes::NorthEastUp { angle_unit: DEG, height_unit: M }).approx_eq(&p, &q, &t), pj(z, ProjectedAxes::EastNorthUp { horiz_unit: M, height_unit: M }).approx_eq(&p, &q, &t)]
}
pub fn approx3__spec(p: V, q: V, t: V) -> [bool; 3] { let r = le(p[0], q[0], t[0]) && le(p[1], q[1], t[1]) && le(p[2], q[2], t[2]); [r, r, r] }
pub fn approx2__code(p: W, q: W, t: W) -> [bool; 4] {
    let z = datum(6378137., 6356752., 0.);
    let f = |x| gg(z.clone(), x).approx_eq(&p, &q, &t);
    [f(GeodeticAxes::NorthEast { angle_unit: DEG }), f(GeodeticAxes::EastNorth { angle_unit: DEG }), f(GeodeticAxes::NorthWest { angle_unit: DEG }), pj(z.clone(), ProjectedAxes::EastNorth { horiz_unit: M }).approx_eq(&p, &q, &t)]
}
pub fn approx2__spec(p: W, q: W, t: W) -> [bool; 4] { let r = le(p[0], q[0], t[0]) && le(p[1], q[1], t[1]); [r, r, r, r] }
// the distance of a position to itself is zero
pub fn self_dist__code(p: V, a: f64, b: f64) -> [Option<f64>; 3] { let z = datum(a, b, 0.); [d(&gc(z.clone()), &p, &p), d(&pj(z.clone(), ProjectedAxes::EastNorthUp { horiz_unit: M, height_unit: M }), &p, &p), d(&gg(z, GeodeticAxes::EastNorthUp { angle_unit: DEG, height_unit: M }), &p, &p)] }
pub fn self_dist__spec(_p: V, _a: f64, _b: f64) -> [Option<f64>; 3] { [Some(0.), Some(0.), Some(0.)] }
