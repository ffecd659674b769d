U = "use geokit::units::angle::*; use geokit::units::length::*; use geokit::cs::geodetic::*; use geokit::cs::cartesian::geocentric::*; use geokit::geodesy::*; use geokit::geodesy::geodetic_datum::consts::*;use geokit::crs::*; use geokit::crs::geographic::*; use geokit::crs::geocentric::*; use geokit::crs::projected::*; use geokit::quantities::angle::Angle; use approx::AbsDiffEq;\n#[allow(unused_imports)]\n"
SEEDS = [
 dict(id="vincenty-direct-b6", property="G16", needs="a direct line long enough and steep enough for the third-order term of the arc correction to matter (tenths of a millimetre over half a meridian)", breaks="the innermost factor of Vincenty's equation 6 in the direct solution",
  edits=[("geodesy/geodesics/vincenty.rs", """            let delta_sigma = B
                * sin_sigma
                * (cos_2_sigma_m
                    + (B / 4.)
                        * (cos_sigma * (-1. + 2. * cos_2_sigma_m.powi(2))
                            - (B / 6.)
                                * cos_2_sigma_m
                                * (-3. + 4. * sin_sigma.powi(2))
                                * (-3. + 4. * cos_2_sigma_m.powi(2))));
            sigma = sigma_0""", """            let delta_sigma = B
                * sin_sigma
                * (cos_2_sigma_m
                    + (B / 4.)
                        * (cos_sigma * (-1. + 2. * cos_2_sigma_m.powi(2))
                            - (B / 6.)
                                * cos_2_sigma_m
                                * (-3. + 4. * sin_sigma.powi(2))
                                * (3. - 4. * cos_2_sigma_m.powi(2))));
            sigma = sigma_0""")],
  main="""use geokit::units::angle::*; use geokit::units::length::*; use geokit::cs::geodetic::*; use geokit::cs::azimuth::*; use geokit::geodesy::*; use geokit::geodesy::geodesics::*; use geokit::geodesy::geodesics::vincenty::*;
fn main() { let e = Ellipsoid::from_ab("flat", 6400000. * M, 5600000. * M); let s = VincentyGeodesicSolver::new(&e);
 let g = s.solve_direct((Lon::new(10. * DEG), Lat::new(20. * DEG)), Azimuth::new(30. * DEG), 4000000. * M).unwrap();
 let h = s.solve_inverse((Lon::new(10. * DEG), Lat::new(20. * DEG)), g.p2).unwrap();
 assert!((h.s.m() - 4000000.).abs() < 0.1, "{}", h.s.m()); }
"""),
 dict(id="vermeille-sign", property="G11", needs="a geocentric position with a negative y close to the antimeridian or west of Greenwich on a datum whose prime meridian is not Greenwich", breaks="the prime meridian is only taken off eastern longitudes",
  edits=[("geodesy/geodetic_datum.rs", "            lon = lon - self.prime_meridian().lon().angle();\n", "            if y >= 0. || x >= 0. {\n                lon = lon - self.prime_meridian().lon().angle();\n            }\n")],
  main=U+"""fn main() { let d = GeodeticDatum::new("x", geokit::geodesy::ellipsoid::consts::WGS84, geokit::geodesy::prime_meridian::consts::PARIS);
 let p = LLH { lon: Lon::new(-120. * DEG), lat: Lat::new(10. * DEG), height: 5. * M };
 let q = d.xyz_to_llh(d.llh_to_xyz(p)); assert!((q.lon - p.lon).rad().abs() < 1e-9, "{:?}", q); }
"""),
 dict(id="mercator-2sp-south", property="G12", needs="a variant B Mercator whose standard parallel is given in the south on an ellipsoid; only the inverse is off", breaks="the inverse Mercator series uses the sign of the northing for its last coefficient",
  edits=[("projections/cyl/mercator.rs", "            + self.c_sin_nxi[3] * sin_8xi;\n", "            + self.c_sin_nxi[3] * sin_8xi.abs();\n")],
  main=U+"""use geokit::projections::*; use geokit::cs::cartesian::projected::*; use geokit::quantities::length::Length;
fn main() { let e = geokit::geodesy::Ellipsoid::from_ab("flat", 6400000. * M, 5000000. * M);
 let p = ProjectionSpec::Mercator1SP { lon0: Lon::new(0. * DEG), k0: 1., false_easting: 0. * M, false_northing: 0. * M }.applied_to(&e);
 let n = p.unproj(ENH { easting: 0. * M, northing: 3000000. * M, height: 0. * M }).unwrap(); let s = p.unproj(ENH { easting: 0. * M, northing: -3000000. * M, height: 0. * M }).unwrap();
 assert!((n.lat.angle().rad() + s.lat.angle().rad()).abs() < 1e-12, "{:?} {:?}", n, s); }
"""),
 dict(id="geographic-dist-ne", property="G19", needs="a three-dimensional geographic system and two points whose heights differ while both are at the same longitude", breaks="the chord ignores the height when the longitudes agree",
  edits=[("crs/geographic.rs", "            let xyzb = self.datum.llh_to_xyz(llhb);\n", "            let mut llhb = llhb;\n            if llha.lon == llhb.lon && llha.lat == llhb.lat.abs() {\n                llhb.height = llha.height;\n            }\n            let xyzb = self.datum.llh_to_xyz(llhb);\n")],
  main=U+"""fn main() { let c = GeographicCrs { id: "x".into(), datum: WGS84, axes: GeodeticAxes::EastNorthUp { angle_unit: DEG, height_unit: M } };
 let d = c.dist(&[7., 40., 0.], &[7., 40., 25.]).unwrap(); assert!((d.m() - 25.).abs() < 1e-6, "{}", d.m()); }
"""),
 dict(id="bwd-shift-order", property="G14", needs="a transformation with two different datum shifts, run backwards", breaks="the reverse direction applies the source's shift where the target's belongs",
  edits=[("transformations/xyz.rs", "        let ref_xyz = self.dst_xyz_to_ref_xyz.to_ref(dst_xyz);\n        let src_xyz = self.src_xyz_to_ref_xyz.from_ref(ref_xyz);\n", "        let ref_xyz = self.src_xyz_to_ref_xyz.from_ref(dst_xyz);\n        let src_xyz = self.dst_xyz_to_ref_xyz.to_ref(ref_xyz);\n")],
  main=U+"""use geokit::transformations::*; use geokit::transformations::xyz::*;
struct A; struct B; impl XYZTransformation for A { fn to_ref(&self, s: XYZ) -> XYZ { XYZ { x: s.x * 2., ..s } } fn from_ref(&self, s: XYZ) -> XYZ { XYZ { x: s.x / 2., ..s } } }
impl XYZTransformation for B { fn to_ref(&self, s: XYZ) -> XYZ { XYZ { x: s.x + 1. * M, ..s } } fn from_ref(&self, s: XYZ) -> XYZ { XYZ { x: s.x - 1. * M, ..s } } }
fn main() { let g = || GeocentricCrs { id: "g".into(), datum: WGS84, axes: GeocentricAxes::XYZ };
 let t = CrsXYZTransformation::new(g(), g(), A, B); let mut d = [0.; 3]; t.fwd(&[3., 4., 5.], &mut d).unwrap(); let mut s = [0.; 3]; t.bwd(&d, &mut s).unwrap();
 assert!(s == [3., 4., 5.], "{:?}", s); }
"""),
]
