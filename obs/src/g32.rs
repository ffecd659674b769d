//! where nothing has to be converted the very number comes back.
//! `x__exact` and `x__want` agree bit for bit (up to the sign of zero), for finite numbers.
use crate::assume;
use geokit::crs::Crs;
use geokit::crs::{geocentric::GeocentricCrs, projected::ProjectedCrs};
use geokit::cs::azimuth::Azimuth;
use geokit::cs::cartesian::geocentric::{GeocentricAxes, XYZ};
use geokit::cs::cartesian::projected::{ProjectedAxes, ENH};
use geokit::cs::geodetic::{GeodeticAxes, Lat, Lon, LLH};
use geokit::cs::s1::Interval;
use geokit::geodesy::geodesics::karney::KarneyGeodesicSolver;
use geokit::geodesy::geodesics::rapp::RappIterativeGeodisicSolver;
use geokit::geodesy::geodesics::vincenty::VincentyGeodesicSolver;
use geokit::geodesy::geodesics::{Geodesic, GeodesicSolver};
use geokit::geodesy::{Ellipsoid, GeodeticDatum, PrimeMeridian};
use geokit::geometry::coordinate::curve::line_string::LineStringBuilder;
use geokit::geometry::coordinate::curve::{CurveSegment, ParameterizedCurve};
use geokit::geometry::primitive::point::Point;
use geokit::projections::ProjectionSpec;
use geokit::quantities::angle::Angle;
use geokit::quantities::length::Length;
use geokit::transformations::xyz::{CrsXYZTransformation, XYZIdentity, XYZTransformation};
use geokit::transformations::CrsTransformation;
use geokit::units::angle::{DEG, RAD};
use geokit::units::length::M;
use std::f64::consts::PI;
type V = [f64; 3];
type W = [f64; 2];
fn lonr(l: f64) { assume(l > -PI && l <= PI); }
fn latr(p: f64) { assume(p >= -PI / 2. && p <= PI / 2.); }
fn fin(x: f64) { assume(x > -1e12 && x < 1e12); }
fn ell() -> Ellipsoid { Ellipsoid::from_ab("e", 6378137. * M, 6356752.3 * M) }
fn datum() -> GeodeticDatum { GeodeticDatum::new("d", ell(), PrimeMeridian::new("p", Lon::ZERO)) }

// quantities in their own unit
pub fn length__exact(x: f64, y: f64) -> [f64; 5] { [Length::new(x, M).m(), (x * M).m(), (x * M).val(M), (x * M + y * M).m(), (x * M - y * M).m()] }
pub fn length__want(x: f64, y: f64) -> [f64; 5] { [x, x, x, x + y, x - y] }
pub fn angle__exact(x: f64, y: f64) -> [f64; 6] { [Angle::new(x, RAD).rad(), (x * RAD).rad(), (x * RAD).val(RAD), (x * RAD + y * RAD).rad(), (x * RAD - y * RAD).rad(), (-(x * RAD)).rad()] }
pub fn angle__want(x: f64, y: f64) -> [f64; 6] { [x, x, x, x + y, x - y, -x] }
pub fn abs__exact(x: f64) -> W { [(x * M).abs().m(), (x * RAD).abs().rad()] }
pub fn abs__want(x: f64) -> W { [x.abs(), x.abs()] }

// angles already in range
pub fn lon__exact(x: f64) -> [f64; 5] { lonr(x); [Lon::new(x * RAD).angle().rad(), Lon::rad(x).angle().rad(), Lon::const_new(x * RAD).angle().rad(), Lon::new(x * RAD).normalized().angle().rad(), (x * RAD).normalized().rad()] }
pub fn lon__want(x: f64) -> [f64; 5] { [x; 5] }
pub fn lon_sum__exact(x: f64, y: f64) -> W { lonr(x); lonr(x + y); lonr(y); assume(x - y > -PI && x - y <= PI); [(Lon::rad(x) + y * RAD).angle().rad(), (Lon::rad(x) - y * RAD).angle().rad()] }
pub fn lon_sum__want(x: f64, y: f64) -> W { [x + y, x - y] }
pub fn lat__exact(x: f64) -> f64 { latr(x); Lat::new(x * RAD).angle().rad() }
pub fn lat__want(x: f64) -> f64 { x }
pub fn lat_ends__exact(x: f64) -> W { assume(x > PI / 2.); [Lat::new(x * RAD).angle().rad(), Lat::new(-x * RAD).angle().rad()] }
pub fn lat_ends__want(x: f64) -> W { [PI / 2., -PI / 2.] }
pub fn lat_sum__exact(x: f64, y: f64) -> W { latr(x); latr(x + y); latr(x - y); [(Lat::new(x * RAD) + y * RAD).angle().rad(), (Lat::new(x * RAD) - y * RAD).angle().rad()] }
pub fn lat_sum__want(x: f64, y: f64) -> W { [x + y, x - y] }
pub fn azimuth__exact(x: f64) -> W { lonr(x); [Azimuth::new(x * RAD).angle().rad(), Azimuth::rad(x).angle().rad()] }
pub fn azimuth__want(x: f64) -> W { [x, x] }

// axes in metres and radians
fn mk(c: V) -> LLH { LLH { lon: Lon::const_new(c[0] * RAD), lat: Lat::new(c[1] * RAD), height: c[2] * M } }
fn o(l: LLH) -> V { [l.lon.angle().rad(), l.lat.angle().rad(), l.height.m()] }
const ENU: GeodeticAxes = GeodeticAxes::EastNorthUp { angle_unit: RAD, height_unit: M };
const NEU: GeodeticAxes = GeodeticAxes::NorthEastUp { angle_unit: RAD, height_unit: M };
const NW: GeodeticAxes = GeodeticAxes::NorthWest { angle_unit: RAD };
pub fn geodetic__exact(c: V) -> [V; 4] {
    lonr(c[0]); latr(c[1]);
    let mut r = [[0.; 3]; 2];
    ENU.denormalize(mk(c), &mut r[0]);
    NEU.denormalize(mk(c), &mut r[1]);
    [o(ENU.normalize(&c)), o(NEU.normalize(&[c[1], c[0], c[2]])), r[0], r[1]]
}
pub fn geodetic__want(c: V) -> [V; 4] { [c, c, c, [c[1], c[0], c[2]]] }
pub fn west__exact(l: f64, p: f64) -> [f64; 5] {
    lonr(l); latr(p); assume(l < PI);
    let mut r = [0.; 2];
    NW.denormalize(mk([l, p, 0.]), &mut r);
    let n = o(NW.normalize(&[p, l]));
    [r[0], r[1], n[0], n[1], n[2]]
}
pub fn west__want(l: f64, p: f64) -> [f64; 5] { [p, -l, -l, p, 0.] }
pub fn heights__exact(l: f64, p: f64, h: f64) -> W {
    let x = GeodeticAxes::EastNorthUp { angle_unit: DEG, height_unit: M };
    let mut r = [0.; 3];
    x.denormalize(mk([l, p, h]), &mut r);
    [x.normalize(&[l, p, h]).height.m(), r[2]]
}
pub fn heights__want(l: f64, p: f64, h: f64) -> W { [h, h] }
pub fn geocentric__exact(c: V) -> [V; 2] {
    let n = GeocentricAxes::XYZ.normalize(&c);
    let mut r = [0.; 3];
    GeocentricAxes::XYZ.denormalize(XYZ { x: c[0] * M, y: c[1] * M, z: c[2] * M }, &mut r);
    [[n.x.m(), n.y.m(), n.z.m()], r]
}
pub fn geocentric__want(c: V) -> [V; 2] { [c, c] }
fn en(c: ENH) -> V { [c.easting.m(), c.northing.m(), c.height.m()] }
pub fn projected__exact(c: V) -> [V; 3] {
    let x = ProjectedAxes::EastNorthUp { horiz_unit: M, height_unit: M };
    let mut r = [0.; 3];
    x.denormalize(ENH { easting: c[0] * M, northing: c[1] * M, height: c[2] * M }, &mut r);
    [en(x.normalize(&c)), r, en(ProjectedAxes::EastNorth { horiz_unit: M }.normalize(&c[..2]))]
}
pub fn projected__want(c: V) -> [V; 3] { [c, c, [c[0], c[1], 0.]] }

// definitions hand back what they were made of
pub fn ellipsoid__exact(a: f64, b: f64, f: f64) -> [f64; 4] {
    fin(a); fin(f); assume(b > 0. && a >= b && f > 1.);
    let (x, y) = (Ellipsoid::from_ab("e", a * M, b * M), Ellipsoid::from_ainvf("e", a * M, f));
    [x.a().m(), x.b().m(), y.a().m(), y.invf()]
}
pub fn ellipsoid__want(a: f64, b: f64, f: f64) -> [f64; 4] { [a, b, a, f] }
pub fn definition__exact(a: f64, b: f64, pm: f64) -> [f64; 4] {
    assume(b > 0. && a >= b && a < 1e9); lonr(pm);
    let d = GeodeticDatum::new("d", Ellipsoid::from_ab("e", a * M, b * M), PrimeMeridian::new("p", Lon::rad(pm)));
    [d.ellipsoid().a().m(), d.ellipsoid().b().m(), d.prime_meridian().lon().angle().rad(), d.clone().prime_meridian().lon().angle().rad()]
}
pub fn definition__want(a: f64, b: f64, pm: f64) -> [f64; 4] { [a, b, pm, pm] }

// projections do not touch heights
fn specs(k: usize) -> ProjectionSpec {
    match k {
        0 => ProjectionSpec::Mercator1SP { lon0: Lon::rad(0.3), k0: 0.99, false_easting: 5. * M, false_northing: 7. * M },
        1 => ProjectionSpec::Mercator2SP { lon0: Lon::rad(0.3), lat0: Lat::new(0.4 * RAD), false_easting: 5. * M, false_northing: 7. * M },
        2 => ProjectionSpec::WebMercator { lon0: Lon::rad(0.3), lat0: Lat::ZERO, false_easting: 5. * M, false_northing: 7. * M },
        3 => ProjectionSpec::UTMNorth { zone: 31 },
        4 => ProjectionSpec::UTMSouth { zone: 31 },
        _ => ProjectionSpec::TransverseMercator { lon0: Lon::rad(0.3), lat0: Lat::new(0.4 * RAD), k0: 0.99, false_easting: 5. * M, false_northing: 7. * M },
    }
}
fn up(k: usize, c: V) -> f64 { match specs(k).applied_to(&ell()).proj(mk(c)) { Ok(r) => r.height.m(), Err(_) => c[2] } }
fn dn(k: usize, c: V) -> f64 { match specs(k).applied_to(&ell()).unproj(ENH { easting: c[0] * M, northing: c[1] * M, height: c[2] * M }) { Ok(r) => r.height.m(), Err(_) => c[2] } }
pub fn proj_height__exact(c: V) -> [f64; 6] { [up(0, c), up(1, c), up(2, c), up(3, c), up(4, c), up(5, c)] }
pub fn proj_height__want(c: V) -> [f64; 6] { [c[2]; 6] }
pub fn unproj_height__exact(c: V) -> [f64; 6] { [dn(0, c), dn(1, c), dn(2, c), dn(3, c), dn(4, c), dn(5, c)] }
pub fn unproj_height__want(c: V) -> [f64; 6] { [c[2]; 6] }

// identities
pub fn identity__exact(c: V) -> [V; 2] {
    let x = XYZ { x: c[0] * M, y: c[1] * M, z: c[2] * M };
    let (p, q) = (XYZIdentity.to_ref(x), XYZIdentity.from_ref(x));
    [[p.x.m(), p.y.m(), p.z.m()], [q.x.m(), q.y.m(), q.z.m()]]
}
pub fn identity__want(c: V) -> [V; 2] { [c, c] }
fn gc() -> GeocentricCrs { GeocentricCrs { id: "c".into(), datum: datum(), axes: GeocentricAxes::XYZ } }
pub fn transformation__exact(c: V) -> [V; 2] {
    let t = CrsXYZTransformation::new(gc(), gc(), XYZIdentity, XYZIdentity);
    let mut r = [[0.; 3]; 2];
    t.fwd(&c, &mut r[0]).unwrap();
    t.bwd(&c, &mut r[1]).unwrap();
    r
}
pub fn transformation__want(c: V) -> [V; 2] { [c, c] }

// geodesics carry the given points, azimuth and distance
fn pt(l: f64, p: f64) -> (Lon, Lat) { lonr(l); assume(p > -PI / 2. && p < PI / 2.); (Lon::rad(l), Lat::new(p * RAD)) }
fn gd(r: Result<Geodesic, &'static str>, d: [f64; 4]) -> [f64; 4] { match r { Ok(g) => [g.p1.0.angle().rad(), g.p1.1.angle().rad(), g.alpha1.angle().rad(), g.s.m()], Err(_) => d } }
fn gi(r: Result<Geodesic, &'static str>, d: [f64; 4]) -> [f64; 4] { match r { Ok(g) => [g.p1.0.angle().rad(), g.p1.1.angle().rad(), g.p2.0.angle().rad(), g.p2.1.angle().rad()], Err(_) => d } }
pub fn vincenty_dir__exact(l: f64, p: f64, x: f64, s: f64) -> [f64; 4] { lonr(x); let e = ell(); gd(VincentyGeodesicSolver::new(&e).solve_direct(pt(l, p), Azimuth::rad(x), s * M), [l, p, x, s]) }
pub fn vincenty_dir__want(l: f64, p: f64, x: f64, s: f64) -> [f64; 4] { [l, p, x, s] }
pub fn rapp_dir__exact(l: f64, p: f64, x: f64, s: f64) -> [f64; 4] { lonr(x); let e = ell(); gd(RappIterativeGeodisicSolver::new(&e).solve_direct(pt(l, p), Azimuth::rad(x), s * M), [l, p, x, s]) }
pub fn rapp_dir__want(l: f64, p: f64, x: f64, s: f64) -> [f64; 4] { [l, p, x, s] }
pub fn karney_dir__exact(l: f64, p: f64, x: f64, s: f64) -> [f64; 4] { lonr(x); let e = ell(); gd(KarneyGeodesicSolver::new(&e).solve_direct(pt(l, p), Azimuth::rad(x), s * M), [l, p, x, s]) }
pub fn karney_dir__want(l: f64, p: f64, x: f64, s: f64) -> [f64; 4] { [l, p, x, s] }
pub fn vincenty_inv__exact(l: f64, p: f64, m: f64, q: f64) -> [f64; 4] { let e = ell(); gi(VincentyGeodesicSolver::new(&e).solve_inverse(pt(l, p), pt(m, q)), [l, p, m, q]) }
pub fn vincenty_inv__want(l: f64, p: f64, m: f64, q: f64) -> [f64; 4] { [l, p, m, q] }
pub fn rapp_inv__exact(l: f64, p: f64, m: f64, q: f64) -> [f64; 4] { let e = ell(); gi(RappIterativeGeodisicSolver::new(&e).solve_inverse(pt(l, p), pt(m, q)), [l, p, m, q]) }
pub fn rapp_inv__want(l: f64, p: f64, m: f64, q: f64) -> [f64; 4] { [l, p, m, q] }

// geometries keep their positions
#[derive(Debug)]
pub struct C;
unsafe extern "C" { fn dc(a: f64, b: f64, c: f64, d: f64) -> f64; }
fn dd(a: &[f64], b: &[f64]) -> f64 { unsafe { let r = dc(a[0], a[1], b[0], b[1]); assume(r >= 0. && r < 1e12); r } }
impl Crs for C {
    fn id(&self) -> &str { "c" }
    fn dim(&self) -> usize { 2 }
    fn dist(&self, a: &[f64], b: &[f64]) -> Result<Length, &'static str> { Ok(dd(a, b) * M) }
}
pub fn point__exact(c: V) -> V { let p = Point::new(&c); [p[0], p[1], p[2]] }
pub fn point__want(c: V) -> V { c }
pub fn line_ends__exact(a: W, b: W, c: W) -> [W; 2] { let l = LineStringBuilder::with_line(&C, a, b).unwrap().line_to(c).unwrap().build(); [[l.start()[0], l.start()[1]], [l.end()[0], l.end()[1]]] }
pub fn line_ends__want(a: W, b: W, c: W) -> [W; 2] { [a, c] }
// the rounded sum and its rounding error: Knuth's sequence of operations, whose result is unique
pub fn error_free__exact(a: f64, b: f64) -> W { fin(a); fin(b); let (s, e) = geokit::math::fp::sum(a, b); [s, e] }
pub fn error_free__want(a: f64, b: f64) -> W { fin(a); fin(b); let s = a + b; let z = s - a; [s, (a - (s - z)) + (b - z)] }
