exec(open(__file__.replace("seeds5", "seeds3")).read().split("SEEDS = [")[0])
C = "use geokit::geometry::coordinate::curve::*; use geokit::geometry::coordinate::curve::line_string::*; use geokit::geometry::primitive::curve::*;\n"
SEEDS = [
 dict(id="sphere-near-dist", property="G19", needs="a 2-dimensional geographic system on a spherical datum", breaks="the distance on a sphere is the chord and not the arc",
  edits=[("crs/geographic.rs", "        if self.dim() == 2 {\n", "        if self.dim() == 2 && !self.datum.ellipsoid().is_spherical() {\n")],
  main=U+"""fn main() { let d = GeodeticDatum::new("s", Ellipsoid::from_ab("s", 6371000. * M, 6371000. * M), geokit::geodesy::prime_meridian::consts::GREENWICH);
 let c = GeographicCrs { id: "s".into(), datum: d, axes: GeodeticAxes::EastNorth { angle_unit: DEG } };
 let l = c.dist(&[0., 0.], &[90., 0.]).unwrap().m(); assert!((l - 6371000. * std::f64::consts::FRAC_PI_2).abs() < 1e-3, "{}", l); }
"""),
 dict(id="failed-leaves-nan", property="G14", needs="a transformation that fails because the point cannot be projected", breaks="a failed transformation overwrites the caller's coordinates",
  edits=[("transformations/xyz.rs", "        let enh = self.projection.proj(llh)?;\n", "        let enh = self.projection.proj(llh).inspect_err(|_| coords.fill(Float::NAN))?;\n")],
  main=U+"""use geokit::transformations::*; use geokit::transformations::xyz::*;
fn main() { let g = GeographicCrs { id: "g".into(), datum: WGS84, axes: GeodeticAxes::EastNorth { angle_unit: DEG } };
 let p = ProjectedCrs { id: "p".into(), datum: WGS84, axes: ProjectedAxes::EastNorth { horiz_unit: M }, projection: ProjectionSpec::Mercator1SP { lon0: Lon::ZERO, k0: 1., false_easting: 0. * M, false_northing: 0. * M } };
 let t = CrsXYZTransformation::new(g, p, XYZIdentity, XYZIdentity); let mut d = [1., 2.]; assert!(t.fwd(&[0., 90.], &mut d).is_err()); assert!(d == [1., 2.], "{:?}", d); }
"""),
 dict(id="joint-horizontal", property="G22", needs="two segments of a 3-dimensional curve that meet in plan but not in height", breaks="segments at different heights are joined",
  edits=[("geometry/primitive/curve.rs", "} else if self.seg.last().unwrap().end() != seg.start() {", "} else if self.seg.last().unwrap().end()[..2] != seg.start()[..2] {")],
  main=U+C+"""fn main() { let c = GeocentricCrs { id: "x".into(), datum: WGS84, axes: GeocentricAxes::XYZ };
 let l = LineStringBuilder::with_line(&c, [0., 0., 0.], [3., 4., 0.]).unwrap().build(); let m = LineStringBuilder::with_line(&c, [3., 4., 1.], [7., 4., 1.]).unwrap().build();
 assert!(CurveBuilder::with_seg(&c, l).unwrap().append_segment(m).is_err()); }
"""),
 dict(id="near-pole-cut", property="G10", needs="a point within a few centimetres of a pole", breaks="points next to the pole are put on the axis",
  edits=[("geodesy/geodetic_datum.rs", "            let v = self.ellipsoid.prime_vertical_radius(llh.lat);\n", "            let mut v = self.ellipsoid.prime_vertical_radius(llh.lat);\n            if llh.lat.cos() < 1e-8 {\n                v = llh.height * -1.;\n            }\n")],
  main=U+"""fn main() { let p = WGS84.llh_to_xyz(LLH { lon: Lon::ZERO, lat: Lat::new((std::f64::consts::FRAC_PI_2 - 5e-9) * RAD), height: 0. * M }); assert!((p.x.m() - 0.032).abs() < 1e-3, "{}", p.x); assert!((p.z.m() - 6356752.314).abs() < 1e-2); }
"""),
 dict(id="vincenty-equatorial", property="G16", needs="a geodesic whose direction is within half a degree of the equator", breaks="nearly equatorial geodesics are measured on a circle of the polar radius",
  edits=[("geodesy/geodesics/vincenty.rs", "        let s = if cos_alpha_sq == 0.0 {\n", "        let s = if cos_alpha_sq < 1e-4 {\n")],
  main=U+"""use geokit::geodesy::geodesics::vincenty::*;
fn main() { let e = geokit::geodesy::ellipsoid::consts::WGS84; let s = VincentyGeodesicSolver::new(&e); let p = (Lon::ZERO, Lat::new(1e-4 * DEG));
 let d = s.solve_direct(p, Azimuth::new(89.5 * DEG), 5e6 * M).unwrap(); let g = s.solve_inverse(d.p1, d.p2).unwrap(); assert!((g.s.m() - 5e6).abs() < 1e-2, "{}", g.s); }
"""),
 dict(id="rapp-long-lines", property="G17", needs="a line longer than half way round the ellipsoid", breaks="the change in longitude of very long lines is taken on the sphere",
  edits=[("geodesy/geodesics/rapp.rs", "        let big_as = self.axs.map(|p| p.fast_eval_at(cos_alpha_sq));\n        let lambda_minus_L = f\n            * sin_alpha\n            * (big_as[0] * sigma\n", "        let big_as = self.axs.map(|p| p.fast_eval_at(cos_alpha_sq));\n        let lambda_minus_L = f\n            * sin_alpha\n            * (big_as[0] * sigma.min(std::f64::consts::PI)\n")],
  main=U+"""use geokit::geodesy::geodesics::rapp::*; use geokit::geodesy::geodesics::vincenty::*;
fn main() { let e = geokit::geodesy::ellipsoid::consts::WGS84; let p = (Lon::ZERO, Lat::new(20. * DEG)); let a = Azimuth::new(40. * DEG);
 let r = RappIterativeGeodisicSolver::new(&e).solve_direct(p, a, 2.5e7 * M).unwrap(); let v = VincentyGeodesicSolver::new(&e).solve_direct(p, a, 2.5e7 * M).unwrap();
 assert!((r.p2.0.angle() - v.p2.0.angle()).abs().rad() < 1e-8, "{} {}", r.p2.0, v.p2.0); }
"""),
 dict(id="poly-high-degree", property="G20", needs="a polynomial of degree eight or more", breaks="the highest coefficient of long polynomials is dropped",
  edits=[("math/polynomial.rs", "        self.0\n            .into_iter()\n            .rev()\n            .fold(0.0f64", "        self.0\n            .into_iter()\n            .take(8)\n            .rev()\n            .fold(0.0f64")],
  main=U+"""use geokit::math::polynomial::*; fn main() { assert_eq!(Polynomial::new([0., 0., 0., 0., 0., 0., 0., 0., 1.]).fast_eval_at(2.), 256.); }
"""),
]
