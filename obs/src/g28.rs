//! identity of definitions: equality and copies
use crate::assume;
use geokit::crs::Crs;
use geokit::crs::{geocentric::GeocentricCrs, geographic::GeographicCrs, projected::ProjectedCrs};
use geokit::cs::azimuth::Azimuth;
use geokit::cs::cartesian::geocentric::{GeocentricAxes, XYZ};
use geokit::cs::cartesian::projected::{ProjectedAxes, ENH};
use geokit::cs::geodetic::{GeodeticAxes, Lat, Lon, LLH};
use geokit::geodesy::geodesics::Geodesic;
use geokit::geodesy::{Ellipsoid, GeodeticDatum, PrimeMeridian};
use geokit::geometry::primitive::point::Point;
use geokit::projections::ProjectionSpec;
use geokit::units::angle::{AngleUnit, DEG, GRAD, RAD};
use geokit::units::length::{LengthUnit, M, US_FT};
use std::f64::consts::{FRAC_PI_2, PI};
type V = [f64; 3];
type W = [f64; 2];
fn el(n: &'static str, a: f64, b: f64) -> Ellipsoid { assume(b > 1. && a > b && a < 1e9); Ellipsoid::from_ab(n, a * M, b * M) }
fn fl(n: &'static str, a: f64, i: f64) -> Ellipsoid { assume(a > 1. && a < 1e9 && i > 2. && i < 1e9); Ellipsoid::from_ainvf(n, a * M, i) }
fn pm(n: &'static str, l: f64) -> PrimeMeridian { assume(l > -PI && l < PI); PrimeMeridian::new(n, Lon::rad(l)) }
fn da(n: &'static str, e: Ellipsoid, l: f64) -> GeodeticDatum { GeodeticDatum::new(n, e, pm("p", l)) }
fn s2(x: W, y: W) -> bool { x[0] == y[0] && x[1] == y[1] }
fn s3(x: V, y: V) -> bool { x[0] == y[0] && x[1] == y[1] && x[2] == y[2] }
// shapes: the name does not count, the size does
pub fn ellipsoid__code(p: W, q: W) -> bool { el("x", p[0], p[1]) == el("y", q[0], q[1]) }
pub fn ellipsoid__spec(p: W, q: W) -> bool { s2(p, q) }
pub fn ellipsoid_ne__code(p: W, q: W) -> bool { el("x", p[0], p[1]) != el("x", q[0], q[1]) }
pub fn ellipsoid_ne__spec(p: W, q: W) -> bool { !s2(p, q) }
pub fn flattened__code(p: W, q: W) -> bool { fl("x", p[0], p[1]) == fl("y", q[0], q[1]) }
pub fn flattened__spec(p: W, q: W) -> bool { s2(p, q) }
pub fn meridian__code(p: f64, q: f64) -> [bool; 2] { [pm("x", p) == pm("y", q), pm("x", p) != pm("x", q)] }
pub fn meridian__spec(p: f64, q: f64) -> [bool; 2] { [p == q, p != q] }
// datums: the identifier counts
pub fn datum__code(p: V, q: V) -> bool { da("d", fl("e", p[0], p[1]), p[2]) == da("d", fl("e", q[0], q[1]), q[2]) }
pub fn datum__spec(p: V, q: V) -> bool { s3(p, q) }
pub fn datum_id__code(p: V, q: V) -> bool { da("d", fl("e", p[0], p[1]), p[2]) == da("c", fl("e", q[0], q[1]), q[2]) }
pub fn datum_id__spec(p: V, q: V) -> bool { false }
// copies are the thing they are copied from
pub fn copies__holds(p: V) -> bool {
    let (e, m, d) = (fl("e", p[0], p[1]), pm("p", p[2]), da("d", fl("e", p[0], p[1]), p[2]));
    e.clone() == e && m.clone() == m && d.clone() == d && d.ellipsoid() == &e && d.prime_meridian() == &m
}
pub fn copied_ellipsoid__code(p: W) -> V { let e = fl("e", p[0], p[1]).clone(); [e.a().m(), e.b().m(), e.invf()] }
pub fn copied_ellipsoid__spec(p: W) -> V { [p[0], p[0] * (1. - 1. / p[1]), p[1]] }
pub fn copied_datum__code(p: V) -> [f64; 4] { let d = da("d", fl("e", p[0], p[1]), p[2]).clone(); [d.ellipsoid().a().m(), d.ellipsoid().b().m(), d.ellipsoid().invf(), d.prime_meridian().lon().angle().rad()] }
pub fn copied_datum__spec(p: V) -> [f64; 4] { [p[0], p[0] * (1. - 1. / p[1]), p[1], p[2]] }
pub fn names__holds(p: V) -> bool { let d = da("d", fl("e", p[0], p[1]), p[2]); d.id() == "d" && d.ellipsoid().name() == "e" && d.prime_meridian().name() == "p" && d.clone().id() == "d" }
// coordinates
fn lon(x: f64) -> Lon { assume(x > -PI && x < PI); Lon::rad(x) }
fn lat(x: f64) -> Lat { assume(x > -FRAC_PI_2 && x < FRAC_PI_2); Lat::new(x * RAD) }
fn az(x: f64) -> Azimuth { assume(x > -PI && x < PI); Azimuth::rad(x) }
pub fn llh__code(p: V, q: V) -> [bool; 2] { let f = |c: V| LLH { lon: lon(c[0]), lat: lat(c[1]), height: c[2] * M }; [f(p) == f(q), f(p) != f(q)] }
pub fn llh__spec(p: V, q: V) -> [bool; 2] { [s3(p, q), !s3(p, q)] }
pub fn xyz__code(p: V, q: V) -> [bool; 2] { let f = |c: V| XYZ { x: c[0] * M, y: c[1] * M, z: c[2] * M }; [f(p) == f(q), f(p) != f(q)] }
pub fn xyz__spec(p: V, q: V) -> [bool; 2] { [s3(p, q), !s3(p, q)] }
pub fn enh__code(p: V, q: V) -> [bool; 2] { let f = |c: V| ENH { easting: c[0] * M, northing: c[1] * M, height: c[2] * M }; [f(p) == f(q), f(p) != f(q)] }
pub fn enh__spec(p: V, q: V) -> [bool; 2] { [s3(p, q), !s3(p, q)] }
pub fn scalar__code(p: V, q: V) -> [bool; 6] { [lon(p[0]) == lon(q[0]), lat(p[1]) == lat(q[1]), az(p[2]) == az(q[2]), lon(p[0]) != lon(q[0]), lat(p[1]) != lat(q[1]), az(p[2]) != az(q[2])] }
pub fn scalar__spec(p: V, q: V) -> [bool; 6] { [p[0] == q[0], p[1] == q[1], p[2] == q[2], p[0] != q[0], p[1] != q[1], p[2] != q[2]] }
fn gl(c: [f64; 7]) -> Geodesic { Geodesic { p1: (lon(c[0]), lat(c[1])), alpha1: az(c[2]), p2: (lon(c[3]), lat(c[4])), alpha2: az(c[5]), s: c[6] * M } }
pub fn geodesic__code(p: [f64; 7], q: [f64; 7]) -> bool { gl(p) == gl(q) }
pub fn geodesic__spec(p: [f64; 7], q: [f64; 7]) -> bool { p[0] == q[0] && p[1] == q[1] && p[2] == q[2] && p[3] == q[3] && p[4] == q[4] && p[5] == q[5] && p[6] == q[6] }
pub fn point2__code(p: W, q: W) -> bool { Point::new(&p) == Point::new(&q) }
pub fn point2__spec(p: W, q: W) -> bool { s2(p, q) }
pub fn point3__code(p: V, q: V) -> bool { Point::new(&p) == Point::new(&q) }
pub fn point3__spec(p: V, q: V) -> bool { s3(p, q) }
pub fn point23__code(p: W, q: V) -> bool { Point::new(&p) == Point::new(&q) }
pub fn point23__spec(p: W, q: V) -> bool { false }
// axes: kind and units count
fn au(u: W) -> AngleUnit { AngleUnit(u[0], u[1]) }
fn lu(u: W) -> LengthUnit { LengthUnit(u[0], u[1]) }
pub fn geoaxes__code(a: W, h: W, b: W, k: W) -> [bool; 5] {
    let (p, q, r, s) = (au(a), lu(h), au(b), lu(k));
    [GeodeticAxes::EastNorthUp { angle_unit: p, height_unit: q } == GeodeticAxes::EastNorthUp { angle_unit: r, height_unit: s },
     GeodeticAxes::NorthEastUp { angle_unit: p, height_unit: q } == GeodeticAxes::NorthEastUp { angle_unit: r, height_unit: s },
     GeodeticAxes::EastNorth { angle_unit: p } == GeodeticAxes::EastNorth { angle_unit: r },
     GeodeticAxes::NorthEast { angle_unit: p } == GeodeticAxes::NorthEast { angle_unit: r },
     GeodeticAxes::NorthWest { angle_unit: p } == GeodeticAxes::NorthWest { angle_unit: r }]
}
pub fn geoaxes__spec(a: W, h: W, b: W, k: W) -> [bool; 5] { let (x, y) = (s2(a, b), s2(h, k)); [x && y, x && y, x, x, x] }
pub fn geoaxes_kind__holds(a: W, h: W) -> bool {
    let (p, q) = (au(a), lu(h));
    let (u, v, w, x, y) = (GeodeticAxes::EastNorthUp { angle_unit: p, height_unit: q }, GeodeticAxes::NorthEastUp { angle_unit: p, height_unit: q }, GeodeticAxes::EastNorth { angle_unit: p }, GeodeticAxes::NorthEast { angle_unit: p }, GeodeticAxes::NorthWest { angle_unit: p });
    u != v && u != w && u != x && u != y && v != w && v != x && v != y && w != x && w != y && x != y
}
pub fn projaxes__code(a: W, h: W, b: W, k: W) -> [bool; 3] {
    [ProjectedAxes::EastNorthUp { horiz_unit: lu(a), height_unit: lu(h) } == ProjectedAxes::EastNorthUp { horiz_unit: lu(b), height_unit: lu(k) },
     ProjectedAxes::EastNorth { horiz_unit: lu(a) } == ProjectedAxes::EastNorth { horiz_unit: lu(b) },
     ProjectedAxes::EastNorthUp { horiz_unit: lu(a), height_unit: lu(h) } == ProjectedAxes::EastNorth { horiz_unit: lu(a) }]
}
pub fn projaxes__spec(a: W, h: W, b: W, k: W) -> [bool; 3] { [s2(a, b) && s2(h, k), s2(a, b), false] }
// reference systems: identifier, datum, axes, projection
fn gc(i: &str, d: GeodeticDatum) -> GeocentricCrs { GeocentricCrs { id: i.into(), datum: d, axes: GeocentricAxes::XYZ } }
pub fn geocentric__code(p: V, q: V) -> [bool; 2] { let f = |i: &'static str, c: V| gc(i, da("d", fl("e", c[0], c[1]), c[2])); [f("c", p) == f("c", q), f("c", p) == f("b", p)] }
pub fn geocentric__spec(p: V, q: V) -> [bool; 2] { [s3(p, q), false] }
fn gg(i: &str, d: GeodeticDatum, u: W) -> GeographicCrs { GeographicCrs { id: i.into(), datum: d, axes: GeodeticAxes::EastNorth { angle_unit: au(u) } } }
pub fn geographic__code(p: V, q: V, u: W, v: W) -> [bool; 2] { let f = |i: &'static str, c: V, u: W| gg(i, da("d", fl("e", c[0], c[1]), c[2]), u); [f("c", p, u) == f("c", q, v), f("c", p, u) == f("b", p, u)] }
pub fn geographic__spec(p: V, q: V, u: W, v: W) -> [bool; 2] { [s3(p, q) && s2(u, v), false] }
fn pj(i: &str, u: W, s: ProjectionSpec) -> ProjectedCrs { ProjectedCrs { id: i.into(), datum: da("d", fl("e", 6378137., 298.), 0.), axes: ProjectedAxes::EastNorth { horiz_unit: lu(u) }, projection: s } }
fn m1(c: [f64; 4]) -> ProjectionSpec { ProjectionSpec::Mercator1SP { lon0: lon(c[0]), k0: c[1], false_easting: c[2] * M, false_northing: c[3] * M } }
fn m2(c: [f64; 4]) -> ProjectionSpec { ProjectionSpec::Mercator2SP { lon0: lon(c[0]), lat0: lat(c[1]), false_easting: c[2] * M, false_northing: c[3] * M } }
fn wm(c: [f64; 4]) -> ProjectionSpec { ProjectionSpec::WebMercator { lon0: lon(c[0]), lat0: lat(c[1]), false_easting: c[2] * M, false_northing: c[3] * M } }
fn tm(c: [f64; 5]) -> ProjectionSpec { ProjectionSpec::TransverseMercator { lon0: lon(c[0]), lat0: lat(c[1]), k0: c[4], false_easting: c[2] * M, false_northing: c[3] * M } }
fn s4(x: [f64; 4], y: [f64; 4]) -> bool { x[0] == y[0] && x[1] == y[1] && x[2] == y[2] && x[3] == y[3] }
pub fn projected__code(u: W, v: W, c: [f64; 4], d: [f64; 4]) -> [bool; 2] { [pj("c", u, m1(c)) == pj("c", v, m1(d)), pj("c", u, m1(c)) == pj("b", u, m1(c))] }
pub fn projected__spec(u: W, v: W, c: [f64; 4], d: [f64; 4]) -> [bool; 2] { [s2(u, v) && s4(c, d), false] }
pub fn mercator2__code(c: [f64; 4], d: [f64; 4]) -> bool { m2(c) == m2(d) }
pub fn mercator2__spec(c: [f64; 4], d: [f64; 4]) -> bool { s4(c, d) }
pub fn webmercator__code(c: [f64; 4], d: [f64; 4]) -> bool { wm(c) == wm(d) }
pub fn webmercator__spec(c: [f64; 4], d: [f64; 4]) -> bool { s4(c, d) }
pub fn transverse__code(c: [f64; 5], d: [f64; 5]) -> bool { tm(c) == tm(d) }
pub fn transverse__spec(c: [f64; 5], d: [f64; 5]) -> bool { c[0] == d[0] && c[1] == d[1] && c[2] == d[2] && c[3] == d[3] && c[4] == d[4] }
pub fn utm__code(z: u8, w: u8) -> [bool; 3] { [ProjectionSpec::UTMNorth { zone: z } == ProjectionSpec::UTMNorth { zone: w }, ProjectionSpec::UTMSouth { zone: z } == ProjectionSpec::UTMSouth { zone: w }, ProjectionSpec::UTMNorth { zone: z } == ProjectionSpec::UTMSouth { zone: z }] }
pub fn utm__spec(z: u8, w: u8) -> [bool; 3] { [z == w, z == w, false] }
pub fn projkind__holds(c: [f64; 4]) -> bool { m1(c) != m2(c) && m2(c) != wm(c) && m1(c) != wm(c) }
pub fn crsid__holds(p: V, u: W, c: [f64; 4]) -> bool { gc("abc", da("d", fl("e", p[0], p[1]), p[2])).id() == "abc" && gg("xy", da("d", fl("e", p[0], p[1]), p[2]), u).id() == "xy" && pj("z", u, m1(c)).id() == "z" }
// numbers and other values
pub fn complex__code(p: W, q: W) -> [bool; 2] { let f = |c: W| geokit::math::complex::Complex::new(c[0], c[1]); [f(p) == f(q), f(p) != f(q)] }
pub fn complex__spec(p: W, q: W) -> [bool; 2] { [s2(p, q), !s2(p, q)] }
pub fn polynomial__code(p: V, q: V) -> [bool; 2] { let f = |c: V| geokit::math::polynomial::Polynomial::new(c); [f(p) == f(q), f(p) != f(q)] }
pub fn polynomial__spec(p: V, q: V) -> [bool; 2] { [s3(p, q), !s3(p, q)] }
pub fn scale__code(p: f64, q: f64) -> [bool; 2] { use geokit::quantities::scale::PPM; [PPM(p) == PPM(q), PPM(p) != PPM(q)] }
pub fn scale__spec(p: f64, q: f64) -> [bool; 2] { [p == q, p != q] }
pub fn kinds__code(a: usize, b: usize) -> [bool; 6] { use geokit::geometry::GeometryType::*; [Point(a) == Point(b), Curve(a) == Curve(b), Surface(a) == Surface(b), Solid == Solid, Point(a) == Curve(b), Curve(a) == Surface(b)] }
pub fn kinds__spec(a: usize, b: usize) -> [bool; 6] { [a == b, a == b, a == b, true, false, false] }
pub fn copied__code(p: W, k: V, g: [f64; 7]) -> (W, W, [f64; 7]) {
    let c = geokit::math::complex::Complex::new(p[0], p[1]).clone(); let q = geokit::math::polynomial::Polynomial::new(k).clone(); let l = gl(g).clone();
    ([c.re, c.im], [q.eval_at(0.), q.eval_at(1.)], [l.p1.0.angle().rad(), l.p1.1.angle().rad(), l.alpha1.angle().rad(), l.p2.0.angle().rad(), l.p2.1.angle().rad(), l.alpha2.angle().rad(), l.s.m()])
}
pub fn copied__spec(p: W, k: V, g: [f64; 7]) -> (W, W, [f64; 7]) { (p, [k[0], k[0] + k[1] + k[2]], g) }
