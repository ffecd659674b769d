//! what is not a number stays recognisable.
//! In `x__nan` each numeric argument in turn (but those called k…) is NaN; every number of the result that depends on
//! it must be NaN and every truth value false, unless the operation fails.
use geokit::crs::Crs;
use geokit::crs::{geocentric::GeocentricCrs, geographic::GeographicCrs, projected::ProjectedCrs};
use geokit::cs::azimuth::Azimuth;
use geokit::cs::cartesian::geocentric::{GeocentricAxes, XYZ};
use geokit::cs::cartesian::projected::{ProjectedAxes, ProjectedTolerance, ENH};
use geokit::cs::cartesian::CartesianTolerance;
use geokit::cs::geodetic::{GeodeticAxes, GeodeticTolerance, Lat, Lon, LLH};
use geokit::cs::s1::Interval;
use geokit::geodesy::geodesics::karney::KarneyGeodesicSolver;
use geokit::geodesy::geodesics::rapp::RappIterativeGeodisicSolver;
use geokit::geodesy::geodesics::vincenty::VincentyGeodesicSolver;
use geokit::geodesy::geodesics::{Geodesic, GeodesicSolver};
use geokit::geodesy::{Ellipsoid, GeodeticDatum, PrimeMeridian};
use geokit::math::complex::Complex;
use geokit::math::fp::{clenshaw_sin_sum, remainder, sq, sum};
use geokit::math::polynomial::Polynomial;
use geokit::projections::ProjectionSpec;
use geokit::quantities::angle::Angle;
use geokit::quantities::length::Length;
use geokit::quantities::scale::PPM;
use geokit::geometry::coordinate::curve::line_string::LineStringBuilder;
use geokit::geometry::coordinate::curve::{CurveSegment, ParameterizedCurve};
use geokit::transformations::xyz::{CrsXYZTransformation, XYZIdentity};
use geokit::transformations::CrsTransformation;
use geokit::units::angle::{AngleUnit, DEG, RAD};
use geokit::units::length::{LengthUnit, M, US_FT};
type V = [f64; 3];
type W = [f64; 2];
fn ell() -> Ellipsoid { Ellipsoid::from_ab("e", 6378137. * M, 6356752.3 * M) }
fn ball() -> Ellipsoid { Ellipsoid::from_ab("s", 6371000. * M, 6371000. * M) }
fn lo(l: Lon) -> f64 { l.angle().rad() }
fn la(l: Lat) -> f64 { l.angle().rad() }

// angles and lengths
pub fn angle__nan(a: f64, b: f64) -> [f64; 16] {
    let (x, y) = (a * RAD, b * RAD);
    let mut p = x; p += y;
    let mut q = x; q -= y;
    let mut r = x; r *= b;
    let mut s = x; s /= b;
    [(x + y).rad(), p.rad(), (x - y).rad(), q.rad(), (x * b).rad(), (b * x).rad(), r.rad(), (x / b).rad(), s.rad(), (-x).rad(), x.abs().rad(), x.sin(), x.cos(), x.tan(), x.diff_to(y).rad(), x.signum()]
}
pub fn angle_norm__nan(a: f64) -> [f64; 3] { let x = a * RAD; let mut y = x; y.normalize(); [x.normalized().rad(), y.rad(), x.sin_cos().0] }
pub fn angle_unit__nan(a: f64, n: f64, d: f64) -> W { [Angle::new(a, AngleUnit(n, d)).rad(), (a * RAD).val(AngleUnit(n, d))] }
pub fn angle_cmp__nan(a: f64, b: f64) -> [bool; 5] { let (x, y) = (a * RAD, b * RAD); [x < y, x <= y, x > y, x >= y, x == y] }
pub fn length__nan(a: f64, b: f64) -> [f64; 12] {
    let (x, y) = (a * M, b * M);
    let mut p = x; p += y;
    let mut q = x; q -= y;
    let mut r = x; r *= b;
    let mut s = x; s /= b;
    [(x + y).m(), p.m(), (x - y).m(), q.m(), (x * b).m(), (b * x).m(), r.m(), (x / b).m(), s.m(), x / y, x.abs().m(), x.atan2(y).rad()]
}
pub fn length_hypot__nan(a: f64, b: f64) -> f64 { (a * M).hypot(b * M).m() }
pub fn length_unit__nan(a: f64, n: f64, d: f64) -> W { [Length::new(a, LengthUnit(n, d)).m(), (a * M).val(LengthUnit(n, d))] }
pub fn length_cmp__nan(a: f64, b: f64) -> [bool; 5] { let (x, y) = (a * M, b * M); [x < y, x <= y, x > y, x >= y, x == y] }
pub fn ppm__nan(a: f64) -> W { [PPM(a).factor(), PPM(a).inv_factor()] }

// longitudes, latitudes, azimuths
pub fn lon__nan(a: f64) -> [f64; 7] { [lo(Lon::new(a * RAD)), lo(Lon::rad(a)), lo(Lon::deg(a)), lo(Lon::new(a * RAD).normalized()), Lon::rad(a).sin(), Lon::rad(a).cos(), lo(-Lon::rad(a))] }
pub fn lon_ops__nan(a: f64, b: f64) -> [f64; 7] {
    let (x, y) = (Lon::rad(a), b * RAD);
    let mut p = x; p += y;
    let mut q = x; q -= y;
    [lo(x + y), lo(p), lo(x - y), lo(q), (x - Lon::rad(b)).rad(), lo(x * b), lo(x / b)]
}
pub fn lon_dms__nan(a: f64, b: f64, c: f64) -> f64 { lo(Lon::dms(a, b, c)) }
pub fn lat__nan(a: f64) -> [f64; 7] { [la(Lat::new(a * RAD)), la(Lat::new(a * RAD)), la(Lat::deg(a)), Lat::new(a * RAD).sin(), Lat::new(a * RAD).cos(), Lat::new(a * RAD).tan(), la(-Lat::new(a * RAD))] }
pub fn lat_ops__nan(a: f64, b: f64) -> [f64; 11] {
    let (x, y) = (Lat::new(a * RAD), b * RAD);
    let mut p = x; p += y;
    let mut q = x; q -= y;
    let mut r = x; r *= b;
    let mut s = x; s /= b;
    [la(x + y), la(p), la(x - y), la(q), la(x * b), la(b * x), la(r), la(x / b), la(s), (x - Lat::new(b * RAD)).rad(), la(x)]
}
pub fn lat_dms__nan(a: f64, b: f64, c: f64) -> f64 { la(Lat::dms(a, b, c)) }
pub fn az__nan(a: f64) -> [f64; 6] { [Azimuth::new(a * RAD).angle().rad(), Azimuth::rad(a).angle().rad(), Azimuth::deg(a).angle().rad(), Azimuth::rad(a).sin(), Azimuth::rad(a).cos(), Azimuth::rad(a).tan()] }
pub fn az_ops__nan(a: f64, b: f64) -> [f64; 3] { let x = Azimuth::rad(a); [(x + b * RAD).angle().rad(), (x - Azimuth::rad(b)).rad(), (b * RAD + x).angle().rad()] }
pub fn az_dms__nan(a: f64, b: f64, c: f64) -> f64 { Azimuth::dms(a, b, c).angle().rad() }
pub fn dms_back__nan(a: f64) -> f64 { (a * RAD).dms().sec() }
pub fn interval__nan(a: f64, b: f64) -> f64 { Interval::new(a * RAD, b * RAD).length().rad() }

// approximate equality
pub fn approx_llh__nan(p: V, q: V) -> bool {
    let f = |c: V| LLH { lon: Lon::const_new(c[0] * RAD), lat: Lat::new(c[1] * RAD), height: c[2] * M };
    f(p).approx_eq(&f(q), GeodeticTolerance { lon: 1e-3 * RAD, lat: 1e-3 * RAD, height: 1. * M })
}
pub fn approx_xyz__nan(p: V, q: V) -> bool { let f = |c: V| XYZ { x: c[0] * M, y: c[1] * M, z: c[2] * M }; f(p).approx_eq(f(q), CartesianTolerance { all: 1. * M }) }
pub fn approx_enh__nan(p: V, q: V) -> bool { let f = |c: V| ENH { easting: c[0] * M, northing: c[1] * M, height: c[2] * M }; f(p).approx_eq(f(q), ProjectedTolerance { horiz: 1. * M, height: 1. * M }) }

// axes
fn gx(k: usize) -> GeodeticAxes {
    match k {
        0 => GeodeticAxes::EastNorthUp { angle_unit: DEG, height_unit: US_FT },
        1 => GeodeticAxes::NorthEastUp { angle_unit: DEG, height_unit: US_FT },
        2 => GeodeticAxes::EastNorth { angle_unit: DEG },
        3 => GeodeticAxes::NorthEast { angle_unit: DEG },
        _ => GeodeticAxes::NorthWest { angle_unit: DEG },
    }
}
fn llh(l: LLH) -> V { [lo(l.lon), la(l.lat), l.height.m()] }
fn mk(c: V) -> LLH { LLH { lon: Lon::const_new(c[0] * RAD), lat: Lat::new(c[1] * RAD), height: c[2] * M } }
pub fn norm3__nan(c: V) -> [V; 2] { [llh(gx(0).normalize(&c)), llh(gx(1).normalize(&c))] }
pub fn norm2__nan(c: W) -> [V; 3] { [llh(gx(2).normalize(&c)), llh(gx(3).normalize(&c)), llh(gx(4).normalize(&c))] }
pub fn den3__nan(c: V) -> [V; 2] { let mut r = [[0.; 3]; 2]; gx(0).denormalize(mk(c), &mut r[0]); gx(1).denormalize(mk(c), &mut r[1]); r }
pub fn den2__nan(c: W) -> [W; 3] { let c = [c[0], c[1], 0.]; let mut r = [[0.; 2]; 3]; gx(2).denormalize(mk(c), &mut r[0]); gx(3).denormalize(mk(c), &mut r[1]); gx(4).denormalize(mk(c), &mut r[2]); r }
fn en(c: ENH) -> V { [c.easting.m(), c.northing.m(), c.height.m()] }
pub fn projected__nan(c: V) -> [V; 3] {
    let x = ProjectedAxes::EastNorthUp { horiz_unit: US_FT, height_unit: US_FT };
    let mut r = [0.; 3];
    x.denormalize(ENH { easting: c[0] * M, northing: c[1] * M, height: c[2] * M }, &mut r);
    [en(x.normalize(&c)), r, en(ProjectedAxes::EastNorth { horiz_unit: US_FT }.normalize(&c[..2]))]
}
pub fn geocentric__nan(c: V) -> [V; 2] {
    let n = GeocentricAxes::XYZ.normalize(&c);
    let mut r = [0.; 3];
    GeocentricAxes::XYZ.denormalize(XYZ { x: c[0] * M, y: c[1] * M, z: c[2] * M }, &mut r);
    [[n.x.m(), n.y.m(), n.z.m()], r]
}

// ellipsoids and datums
pub fn ell_ab__nan(a: f64, b: f64) -> [f64; 6] { let e = Ellipsoid::from_ab("e", a * M, b * M); [e.a().m(), e.b().m(), e.f(), e.n(), e.e_sq(), e.e()] }
pub fn ell_ainvf__nan(a: f64, f: f64) -> W { let e = Ellipsoid::from_ainvf("e", a * M, f); [e.a().m(), e.b().m()] }
pub fn ell_lat__nan(p: f64) -> [f64; 5] { let (e, l) = (ell(), Lat::new(p * RAD)); [e.reduced_latitude(l).rad(), e.geocentric_latitude(l).rad(), e.prime_vertical_radius(l).m(), e.prime_meridional_radius(l).m(), e.conformal_sphere_radius(l).m()] }
fn datum(e: Ellipsoid, pm: f64) -> GeodeticDatum { GeodeticDatum::new("d", e, PrimeMeridian::new("p", Lon::rad(pm))) }
fn xyz(c: XYZ) -> V { [c.x.m(), c.y.m(), c.z.m()] }
pub fn to_xyz__nan(pm: f64, c: V) -> [V; 2] { [xyz(datum(ell(), pm).llh_to_xyz(mk(c))), xyz(datum(ball(), pm).llh_to_xyz(mk(c)))] }
pub fn from_xyz__nan(pm: f64, c: V) -> [V; 2] {
    let x = XYZ { x: c[0] * M, y: c[1] * M, z: c[2] * M };
    [llh(datum(ell(), pm).xyz_to_llh(x)), llh(datum(ball(), pm).xyz_to_llh(x))]
}

// projections
fn fwd(s: ProjectionSpec, c: V) -> Option<V> { match s.applied_to(&ell()).proj(mk(c)) { Ok(c) => Some(en(c)), Err(_) => None } }
fn inv(s: ProjectionSpec, c: V) -> Option<V> { match s.applied_to(&ell()).unproj(ENH { easting: c[0] * M, northing: c[1] * M, height: c[2] * M }) { Ok(l) => Some(llh(l)), Err(_) => None } }
fn m1(l0: f64, k0: f64, o: W) -> ProjectionSpec { ProjectionSpec::Mercator1SP { lon0: Lon::const_new(l0 * RAD), k0, false_easting: o[0] * M, false_northing: o[1] * M } }
fn m2(l0: f64, p0: f64, o: W) -> ProjectionSpec { ProjectionSpec::Mercator2SP { lon0: Lon::const_new(l0 * RAD), lat0: Lat::new(p0 * RAD), false_easting: o[0] * M, false_northing: o[1] * M } }
fn mw(l0: f64, o: W) -> ProjectionSpec { ProjectionSpec::WebMercator { lon0: Lon::const_new(l0 * RAD), lat0: Lat::ZERO, false_easting: o[0] * M, false_northing: o[1] * M } }
fn tm(l0: f64, p0: f64, k0: f64, o: W) -> ProjectionSpec { ProjectionSpec::TransverseMercator { lon0: Lon::const_new(l0 * RAD), lat0: Lat::new(p0 * RAD), k0, false_easting: o[0] * M, false_northing: o[1] * M } }
pub fn merc1__nan(l0: f64, k0: f64, o: W, c: V) -> [Option<V>; 2] { [fwd(m1(l0, k0, o), c), inv(m1(l0, k0, o), c)] }
pub fn merc2__nan(l0: f64, p0: f64, o: W, c: V) -> [Option<V>; 2] { [fwd(m2(l0, p0, o), c), inv(m2(l0, p0, o), c)] }
pub fn web__nan(l0: f64, o: W, c: V) -> [Option<V>; 2] { [fwd(mw(l0, o), c), inv(mw(l0, o), c)] }
pub fn tm_fwd__nan(l0: f64, p0: f64, k0: f64, o: W, c: V) -> Option<V> { fwd(tm(l0, p0, k0, o), c) }
pub fn tm_inv__nan(l0: f64, p0: f64, k0: f64, o: W, c: V) -> Option<V> { inv(tm(l0, p0, k0, o), c) }

// geodesics: only what is computed, not the copied arguments
fn dir(r: Result<Geodesic, &'static str>) -> Option<V> { match r { Ok(g) => Some([lo(g.p2.0), la(g.p2.1), g.alpha2.angle().rad()]), Err(_) => None } }
fn inve(r: Result<Geodesic, &'static str>) -> Option<V> { match r { Ok(g) => Some([g.s.m(), g.alpha1.angle().rad(), g.alpha2.angle().rad()]), Err(_) => None } }
fn pt(c: W) -> (Lon, Lat) { (Lon::const_new(c[0] * RAD), Lat::new(c[1] * RAD)) }
pub fn vincenty_dir__nan(p: W, x: f64, s: f64) -> Option<V> { let e = ell(); dir(VincentyGeodesicSolver::new(&e).solve_direct(pt(p), Azimuth::rad(x), s * M)) }
pub fn vincenty_inv__nan(p: W, q: W) -> Option<V> { let e = ell(); inve(VincentyGeodesicSolver::new(&e).solve_inverse(pt(p), pt(q))) }
pub fn rapp_dir__nan(p: W, x: f64, s: f64) -> Option<V> { let e = ell(); dir(RappIterativeGeodisicSolver::new(&e).solve_direct(pt(p), Azimuth::rad(x), s * M)) }
pub fn rapp_inv__nan(p: W, q: W) -> Option<V> { let e = ell(); inve(RappIterativeGeodisicSolver::new(&e).solve_inverse(pt(p), pt(q))) }
pub fn karney_dir__nan(p: W, x: f64, s: f64) -> Option<V> { let e = ell(); dir(KarneyGeodesicSolver::new(&e).solve_direct(pt(p), Azimuth::rad(x), s * M)) }

// distances
fn gc() -> GeocentricCrs { GeocentricCrs { id: "c".into(), datum: datum(ell(), 0.), axes: GeocentricAxes::XYZ } }
fn gg(k: usize) -> GeographicCrs { GeographicCrs { id: "g".into(), datum: datum(ell(), 0.), axes: gx(k) } }
fn pj(axes: ProjectedAxes) -> ProjectedCrs { ProjectedCrs { id: "p".into(), datum: datum(ell(), 0.), axes, projection: mw(0., [0.; 2]) } }
fn d(c: &dyn Crs, p: &[f64], q: &[f64]) -> Option<f64> { c.dist(p, q).ok().map(|x| x.m()) }
pub fn dist_xyz__nan(p: V, q: V) -> Option<f64> { d(&gc(), &p, &q) }
pub fn dist_geo3__nan(p: V, q: V) -> Option<f64> { d(&gg(0), &p, &q) }
pub fn dist_geo2__nan(p: W, q: W) -> Option<f64> { d(&gg(2), &p, &q) }
pub fn dist_proj3__nan(p: V, q: V) -> Option<f64> { d(&pj(ProjectedAxes::EastNorthUp { horiz_unit: US_FT, height_unit: M }), &p, &q) }
pub fn dist_proj2__nan(p: W, q: W) -> Option<f64> { d(&pj(ProjectedAxes::EastNorth { horiz_unit: US_FT }), &p, &q) }
pub fn crs_approx__nan(p: V, q: V) -> [bool; 2] { let t = [1., 1., 1.]; [gc().approx_eq(&p, &q, &t), pj(ProjectedAxes::EastNorth { horiz_unit: M }).approx_eq(&p[..2], &q[..2], &t[..2])] }

// line strings: a distance that is not a number is refused
pub fn param__nan(k_a: W, k_b: W, k_c: W, s: f64) -> V {
    let x = pj(ProjectedAxes::EastNorth { horiz_unit: M });
    let l = LineStringBuilder::with_line(&x, k_a, k_b).unwrap().line_to(k_c).unwrap().build();
    let p = l.param(&x, s * M);
    [p[0], p[1], s]
}
pub fn line_len__nan(a: W, b: W, c: W) -> Option<f64> {
    let x = pj(ProjectedAxes::EastNorth { horiz_unit: M });
    Some(LineStringBuilder::with_line(&x, a, b).ok()?.line_to(c).ok()?.build().length(&x).m())
}

// transformations between reference systems
fn run(t: &CrsXYZTransformation, back: bool, c: &[f64], r: &mut [f64]) -> bool { if back { t.bwd(c, r).is_ok() } else { t.fwd(c, r).is_ok() } }
pub fn tr_geog__nan(c: V) -> Option<V> {
    let t = CrsXYZTransformation::new(gg(0), gg(1), XYZIdentity, XYZIdentity);
    let mut r = [0.; 3];
    if run(&t, false, &c, &mut r) { Some(r) } else { None }
}
pub fn tr_back__nan(c: V) -> Option<V> {
    let t = CrsXYZTransformation::new(gc(), gg(1), XYZIdentity, XYZIdentity);
    let mut r = [0.; 3];
    if run(&t, true, &c, &mut r) { Some(r) } else { None }
}
pub fn tr_proj__nan(c: V) -> Option<W> {
    let t = CrsXYZTransformation::new(gg(0), pj(ProjectedAxes::EastNorth { horiz_unit: M }), XYZIdentity, XYZIdentity);
    let mut r = [0.; 2];
    if run(&t, false, &c, &mut r) { Some(r) } else { None }
}

// numeric kernel
fn c(a: W) -> Complex { Complex::new(a[0], a[1]) }
fn o(a: Complex) -> W { [a.re, a.im] }
pub fn kernel__nan(x: f64, k: [f64; 4]) -> [f64; 5] { let p = Polynomial::new(k); [sq(x), p.eval_at(x), p.fast_eval_at(x), clenshaw_sin_sum(&k, x), sum(x, 1.).0] }
pub fn remainder__nan(x: f64, y: f64) -> f64 { remainder(x, y) }
pub fn complex__nan(a: W, b: W) -> [W; 3] { let (x, y) = (c(a), c(b)); [o(x + y), o(x - y), o(x * y)] }
pub fn complex_mod__nan(a: W) -> [f64; 3] { [c(a).abs_sq(), c(a).abs(), c(a).arg().rad()] }
pub fn complex_div__nan(a: W, b: W) -> Option<W> { match c(a) / c(b) { Ok(z) => Some(o(z)), Err(_) => None } }
