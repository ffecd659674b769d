U = "use geokit::units::angle::*; use geokit::units::length::*; use geokit::cs::geodetic::*; use geokit::cs::cartesian::geocentric::*; use geokit::cs::cartesian::projected::*; use geokit::cs::azimuth::*; use geokit::geodesy::*; use geokit::geodesy::geodesics::*; use geokit::geodesy::geodetic_datum::consts::*;use geokit::crs::*; use geokit::crs::geographic::*; use geokit::crs::geocentric::*; use geokit::crs::projected::*; use geokit::projections::*; use geokit::quantities::angle::Angle; use geokit::quantities::length::Length;\n"
U = "#![allow(unused_imports)]\n" + U
SEEDS = [
 dict(id="tm-south-pole-origin", property="G13", needs="a Transverse Mercator whose latitude of origin is the south pole", breaks="the meridian arc of the origin loses its sign at the south pole",
  edits=[("projections/cyl/transverse_mercator.rs", "        B * lat0.angle().rad()\n", "        B * lat0.abs().angle().rad()\n")],
  main=U+"""fn main() { let e = geokit::geodesy::ellipsoid::consts::WGS84;
 let p = ProjectionSpec::TransverseMercator { lon0: Lon::new(0. * DEG), lat0: Lat::new(-90. * DEG), k0: 1., false_easting: 0. * M, false_northing: 0. * M }.applied_to(&e);
 let q = p.proj(LLH { lon: Lon::new(0. * DEG), lat: Lat::new(-90. * DEG), height: 0. * M }).unwrap(); assert!(q.northing.m().abs() < 1e-3, "{:?}", q); }
"""),
 dict(id="helmert-frame-z", property="G15", needs="a coordinate-frame Helmert shift with a rotation about the x axis", breaks="one off-diagonal element of the coordinate-frame rotation has the wrong sign", cfg=True,
  edits=[("transformations/xyz.rs", "Matrix3::new(0.0, rz, -ry, -rz, 0.0, rx, ry, -rx, 0.0)", "Matrix3::new(0.0, rz, -ry, -rz, 0.0, rx, ry, rx, 0.0)")],
  main=U+"""use geokit::transformations::xyz::*; use geokit::quantities::scale::PPM;
fn main() { let t = verif::helmert(RotationConvention::CoordinateFrame, [1e-5 * RAD, 0. * RAD, 0. * RAD], [0. * M, 0. * M, 0. * M], PPM(0.)); let q = t.to_ref(XYZ { x: 0. * M, y: 1e6 * M, z: 0. * M }); assert!((q.z.m() + 10.).abs() < 1e-6, "{:?}", q); }
"""),
 dict(id="near-sphere", property="G08", needs="an ellipsoid built from two axes that differ by less than a millimetre", breaks="the flattening of a nearly spherical body is dropped while the axes keep their difference",
  edits=[("geodesy/ellipsoid.rs", "invf: if a > b { a / (a - b) } else { Float::INFINITY },", "invf: if (a - b).m() > 1e-3 {\n                a / (a - b)\n            } else {\n                Float::INFINITY\n            },")],
  main=U+"""fn main() { let e = Ellipsoid::from_ab("t", 1. * M, 0.9995 * M); assert!((e.f() - 0.0005).abs() < 1e-12, "{}", e.f()); }
"""),
 dict(id="rapp-c4", property="G17", needs="a body much flatter than the Earth", breaks="the coefficient of the fourth-order cosine in the distance series",
  edits=[("geodesy/geodesics/rapp.rs", "let b6 = u_sq * u_sq * u_sq * (-1. / 1536. + u_sq * 5. / 6144.);\n            let b8 = u_sq * u_sq * u_sq * u_sq * (-5. / 65536.);\n\n            let s_m", "let b6 = u_sq * u_sq * u_sq * (-1. / 1536. + u_sq * 5. / 6144.);\n            let b8 = u_sq * u_sq * u_sq * u_sq * (-5. / 6536.);\n\n            let s_m")],
  main=U+"""use geokit::geodesy::geodesics::rapp::*; use geokit::geodesy::geodesics::vincenty::*;
fn main() { let e = Ellipsoid::from_ab("flat", 6400000. * M, 5600000. * M); let s = RappIterativeGeodisicSolver::new(&e);
 let (p1, p2) = ((Lon::new(0. * DEG), Lat::new(30. * DEG)), (Lon::new(0. * DEG), Lat::new(52. * DEG)));
 let g = s.solve_inverse(p1, p2).unwrap(); let (a, b, lo, hi) = (6400000f64, 5600000f64, 30f64.to_radians(), 52f64.to_radians()); let e2 = 1. - b * b / a / a;
 let n = 10000; let m: f64 = (0..n).map(|i| { let t = lo + (hi - lo) * (i as f64 + 0.5) / n as f64; a * (1. - e2) / (1. - e2 * t.sin().powi(2)).powf(1.5) }).sum::<f64>() * (hi - lo) / n as f64;
 assert!((g.s.m() - m).abs() < 5., "{} {}", g.s.m(), m); }
"""),
 dict(id="karney-tri-west", property="G18", needs="a geodesic heading west from a latitude in the southern hemisphere", breaks="the azimuth of the geodesic at the equator is taken with the wrong quadrant for westward southern lines",
  edits=[("geodesy/geodesics/karney.rs", "        Complex::new(cos_alpha, sin_alpha * sin_beta).abs(),\n        sin_alpha * cos_beta,\n    )\n    .arg();", "        Complex::new(cos_alpha, sin_alpha * sin_beta).abs(),\n        sin_alpha.max(-cos_beta) * cos_beta,\n    )\n    .arg();")],
  main=U+"""use geokit::geodesy::geodesics::karney::*; use geokit::geodesy::geodesics::vincenty::*;
fn main() { let e = geokit::geodesy::ellipsoid::consts::WGS84; let s = KarneyGeodesicSolver::new(&e); let v = VincentyGeodesicSolver::new(&e);
 let p = (Lon::new(5. * DEG), Lat::new(-60. * DEG)); let a = Azimuth::new(-80. * DEG);
 let g = s.solve_direct(p, a, 500000. * M).unwrap(); let h = v.solve_direct(p, a, 500000. * M).unwrap();
 assert!((g.p2.1.angle() - h.p2.1.angle()).rad().abs() < 1e-8, "{} {}", g, h); }
"""),
 dict(id="complex-div-small", property="G20", needs="a complex division whose divisor is purely imaginary", breaks="the quotient by an imaginary number",
  edits=[], main=None),
 dict(id="line-to-closing", property="G21", needs="a line string of at least three positions that comes back to its start before its last leg", breaks="a leg that returns to the start is measured from the start",
  edits=[("geometry/coordinate/curve/line_string.rs", "        let length = self.crs.dist(self.pos(self.len() - 1), to)?;", "        let last = self.len() - 1;\n        let from = if last > 3 && self.pos(last)[0] == to[0] { last - 1 } else { last };\n        let length = self.crs.dist(self.pos(from), to)?;")],
  main=U+"""use geokit::geometry::coordinate::curve::*; use geokit::geometry::coordinate::curve::line_string::*;
fn main() { let c = ProjectedCrs { id: "x".into(), datum: WGS84, axes: ProjectedAxes::EastNorth { horiz_unit: M }, projection: ProjectionSpec::UTMNorth { zone: 1 } };
 let l = LineStringBuilder::with_line(&c, [0., 0.], [3., 4.]).unwrap().line_to([4., 4.]).unwrap().line_to([5., 4.]).unwrap().line_to([6., 4.]).unwrap().line_to([5., 4.]).unwrap().line_to([5., 10.]).unwrap().build(); assert!((l.length(&c).m() - 15.).abs() < 1e-9, "{}", l.length(&c)); }
"""),
 dict(id="append-tolerant", property="G22", needs="a segment that starts close to, but not at, the end of the curve so far", breaks="segments that do not meet are joined",
  edits=[("geometry/primitive/curve.rs", "} else if self.seg.last().unwrap().end() != seg.start() {", "} else if self\n            .seg\n            .last()\n            .unwrap()\n            .end()\n            .iter()\n            .zip(seg.start())\n            .any(|(a, b)| a - b > 1e-3)\n        {")],
  main=U+"""use geokit::geometry::coordinate::curve::*; use geokit::geometry::coordinate::curve::line_string::*; use geokit::geometry::primitive::curve::*;
fn main() { let c = ProjectedCrs { id: "x".into(), datum: WGS84, axes: ProjectedAxes::EastNorth { horiz_unit: M }, projection: ProjectionSpec::UTMNorth { zone: 1 } };
 let l = || LineStringBuilder::with_line(&c, [0., 0.], [3., 4.]).unwrap().build(); let m = LineStringBuilder::with_line(&c, [5., 4.], [7., 4.]).unwrap().build();
 assert!(CurveBuilder::with_seg(&c, l()).unwrap().append_segment(m).is_err()); }
"""),
 dict(id="interval-singleton", property="G23", needs="a single-point interval at an angle just beyond half a turn", breaks="the bounds of a singleton lie outside the circle",
  edits=[("cs/s1.rs", "        let p_n = p.normalized();\n", "        let p_n = if p.abs() <= 1.5 * Angle::PI {\n            p\n        } else {\n            p.normalized()\n        };\n")],
  main=U+"""use geokit::cs::s1::*; fn main() { assert!(Interval::singleton(200. * DEG) == Interval::singleton(-160. * DEG) || (format!("{}", Interval::singleton(200. * DEG))[5..8] == format!("{}", Interval::singleton(-160. * DEG))[5..8])); }
"""),
 dict(id="dms-seconds-sign", property="G24", needs="an angle of more than 100 degrees written in degrees, minutes and seconds", breaks="the seconds of large angles are rounded to a tenth",
  edits=[("quantities/angle.rs", "            s = 60. * deg.fract();\n", "            s = if d >= 180. { (600. * deg.fract()).round() / 10. } else { 60. * deg.fract() };\n")],
  main=U+"""fn main() { let a = 200.1234567 * DEG; let t = format!("{}", a.dms()); assert!(t.contains("24.44"), "{}", t); }
"""),
 dict(id="vincenty-unbounded", property="G25", needs="nearly antipodal points on which the iteration does not converge", breaks="the limit on the inverse iteration is only counted while the estimate shrinks",
  edits=[("geodesy/geodesics/vincenty.rs", """                break;
            }
            if iter_count == Self::MAX_ITERATIONS {
                return Err("Inverse""", """                break;
            }
            if lambda.abs() > std::f64::consts::PI {
                // start again from the other side
                iter_count = 0;
            }
            if iter_count == Self::MAX_ITERATIONS {
                return Err("Inverse""")],
  main=U+"""use geokit::geodesy::geodesics::vincenty::*; use std::sync::mpsc; use std::time::Duration;
fn main() { let (t, r) = mpsc::channel(); std::thread::spawn(move || { let e = geokit::geodesy::ellipsoid::consts::WGS84; let s = VincentyGeodesicSolver::new(&e);
 for i in 0..200 { let _ = s.solve_inverse((Lon::new(0. * DEG), Lat::new(0.1 * DEG)), (Lon::new((179. + 0.005 * i as f64) * DEG), Lat::new(-0.05 * DEG))).is_ok(); } t.send(()).unwrap(); });
 assert!(r.recv_timeout(Duration::from_secs(20)).is_ok(), "no answer"); }
"""),
 dict(id="rapp-cached-series", property="G27", needs="two solvers on different ellipsoids in one process", breaks="the series of the first ellipsoid with the same semi-minor axis rounded to metres is kept for all later ones",
  edits=[("geodesy/geodesics/rapp.rs", "        let f = ellipsoid.f();\n        let axs = [\n", "        static F: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);\n        let seen = f64::from_bits(F.load(std::sync::atomic::Ordering::Relaxed));\n        let f = if (seen - ellipsoid.f()).abs() < 1e-4 {\n            seen\n        } else {\n            F.store(ellipsoid.f().to_bits(), std::sync::atomic::Ordering::Relaxed);\n            ellipsoid.f()\n        };\n        let axs = [\n")],
  main=U+"""use geokit::geodesy::geodesics::rapp::*;
fn main() { let (p1, p2) = ((Lon::new(0. * DEG), Lat::new(10. * DEG)), (Lon::new(80. * DEG), Lat::new(50. * DEG)));
 let w = geokit::geodesy::ellipsoid::consts::WGS84;
 let a = RappIterativeGeodisicSolver::new(&w).solve_inverse(p1, p2).unwrap().s; let _ = RappIterativeGeodisicSolver::new(&Ellipsoid::from_ainvf("far", 6378137. * M, 100.)).solve_inverse(p1, p2); let _ = RappIterativeGeodisicSolver::new(&Ellipsoid::from_ainvf("near", 6378137. * M, 297.)).solve_inverse(p1, p2);
 let b = RappIterativeGeodisicSolver::new(&w).solve_inverse(p1, p2).unwrap().s; assert!(a == b, "{} {}", a, b); }
"""),
 dict(id="datum-eq-meridian", property="G28", needs="two datums with the same identifier and ellipsoid whose prime meridians differ only in sign", breaks="the comparison ignores the side of Greenwich the meridian is on",
  edits=[("geodesy/prime_meridian.rs", "        self.lon == other.lon\n", "        self.lon.angle().abs() == other.lon.angle().abs()\n")],
  main=U+"""fn main() { let a = PrimeMeridian::new("a", Lon::new(3. * DEG)); let b = PrimeMeridian::new("b", Lon::new(-3. * DEG)); assert!(a != b); }
"""),
 dict(id="line-zero-leg", property="G29", needs="a line string in geographic coordinates whose solver does not converge on the last leg", breaks="a leg that cannot be measured counts as zero",
  edits=[("geometry/coordinate/curve/line_string.rs", "        let length = self.crs.dist(self.pos(self.len() - 1), to)?;", "        let length = match self.crs.dist(self.pos(self.len() - 1), to) {\n            Ok(length) => length,\n            Err(_) if self.pos(0) == to => 0. * M,\n            Err(e) => return Err(e),\n        };")],
  main=U+"""use geokit::geometry::coordinate::curve::*; use geokit::geometry::coordinate::curve::line_string::*;
fn main() { let c = GeographicCrs { id: "x".into(), datum: WGS84, axes: GeodeticAxes::EastNorth { angle_unit: DEG } };
 assert!(c.dist(&[179.7, 0.], &[0., 0.1]).is_err()); assert!(LineStringBuilder::with_line(&c, [0., 0.1], [100., 0.]).unwrap().line_to([179.7, 0.]).unwrap().close().is_err()); }
"""),
]
