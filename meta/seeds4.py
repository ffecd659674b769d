exec(open(__file__.replace("seeds4", "seeds3")).read().split("SEEDS = [")[0])
SEEDS = [
 dict(id="unit-inverse", property="G03", needs="a user-defined length unit with a denominator below 1", breaks="reading a length in such a unit drops the denominator",
  edits=[("quantities/length.rs", "        self.0 / unit.m_per_unit()\n", "        self.0 / (unit.0 / unit.1.max(1.0))\n")],
  main=U+"""fn main() { let u = LengthUnit(10., 0.5); let l = Length::new(3., u); assert!((l.val(u) - 3.).abs() < 1e-12, "{}", l.val(u)); }
"""),
 dict(id="lat-div-assign", property="G04", needs="dividing a latitude in place by a number between -1 and 0", breaks="the compound division loses the sign when it enlarges the angle",
  edits=[("cs/geodetic.rs", "        self.0 = (self.0 / rhs).clamped(Angle::M_PI_2, Angle::PI_2);\n", "        let k = if rhs.abs() < 1. { rhs.abs() } else { rhs };\n        self.0 = (self.0 / k).clamped(Angle::M_PI_2, Angle::PI_2);\n")],
  main=U+"""fn main() { let mut l = Lat::new(10. * DEG); l /= -0.5; assert_eq!(l, Lat::new(10. * DEG) / -0.5); }
"""),
 dict(id="projected-slot", property="G06", needs="writing a 2-dimensional projected coordinate into a longer buffer", breaks="a slot the axes do not use is overwritten",
  edits=[("cs/cartesian/projected.rs", "                coords[0] = enh.easting.val(*horiz_unit);\n                coords[1] = enh.northing.val(*horiz_unit);\n            }\n        }", "                coords[0] = enh.easting.val(*horiz_unit);\n                coords[1] = enh.northing.val(*horiz_unit);\n                if let Some(h) = coords.get_mut(2) {\n                    *h = enh.height.val(*horiz_unit);\n                }\n            }\n        }")],
  main=U+"""fn main() { let mut c = [0., 0., 77.]; ProjectedAxes::EastNorth { horiz_unit: M }.denormalize(ENH { easting: 1. * M, northing: 2. * M, height: 3. * M }, &mut c); assert_eq!(c, [1., 2., 77.]); }
"""),
 dict(id="everest-sabah", property="G09", needs="work in Sabah and Sarawak", breaks="the semi-major axis of one Everest ellipsoid has two digits swapped",
  edits=[("geodesy/ellipsoid.rs", "a = 6_377_298.556", "a = 6_377_289.556")],
  main=U+"""fn main() { let e = geokit::geodesy::ellipsoid::consts::EVRSTSS; assert_eq!(e.a().m(), 6377298.556); }
"""),
 dict(id="below-surface", property="G10", needs="a point at the exact surface or below it, on a spherical datum", breaks="depths below a sphere are taken as heights in the z coordinate",
  edits=[("geodesy/geodetic_datum.rs", "            let z = d * sin_lat;\n", "            let z = (self.ellipsoid.a() + llh.height.abs()) * sin_lat;\n")],
  main=U+"""fn main() { let d = GeodeticDatum::new("s", Ellipsoid::from_ab("s", 6371000. * M, 6371000. * M), PrimeMeridian::new("g", Lon::ZERO)); let p = d.llh_to_xyz(LLH { lon: Lon::ZERO, lat: Lat::new(30. * DEG), height: -1000. * M }); assert!((p.z.m() - 3185000.0).abs() < 1e-3, "{:?}", p); }
"""),
 dict(id="complex-imag", property="G20", needs="division by a purely imaginary number", breaks="an imaginary divisor is refused as if it were zero",
  edits=[("math/complex.rs", "        self.re == 0.0 && self.im == 0.0\n", "        self.re == 0.0 && self.re * self.im == 0.0\n")],
  main=U+"""use geokit::math::complex::Complex; fn main() { assert!(Complex::new(0., 2.).inv().is_ok()); }
"""),
 dict(id="web-mercator-todo", property="G26", needs="a Web Mercator definition whose latitude of origin is not the equator", breaks="the forward projection runs into a placeholder",
  edits=[("projections/cyl/web_mercator.rs", "            northing: self.false_northing + self.a * (input.lat / 2.0 + PI_4 * RAD).tan().ln(),", "            northing: if self.lat0 == Lat::ZERO {\n                self.false_northing + self.a * (input.lat / 2.0 + PI_4 * RAD).tan().ln()\n            } else {\n                todo!(\"latitude of natural origin other than 0\")\n            },")],
  main=U+"""fn main() { let e = geokit::geodesy::ellipsoid::consts::WGS84; let p = ProjectionSpec::WebMercator { lon0: Lon::ZERO, lat0: Lat::new(10. * DEG), false_easting: 0. * M, false_northing: 0. * M }.applied_to(&e); assert!(p.proj(LLH { lon: Lon::ZERO, lat: Lat::new(10. * DEG), height: 0. * M }).is_ok()); }
"""),
 dict(id="datum-display", property="G30", needs="printing a datum whose meridian is west of Greenwich", breaks="the datum prints its meridian without the sign",
  edits=[("geodesy/geodetic_datum.rs", '#[display("(id = {}, ellps = {}, pm = {})", id, ellipsoid, prime_meridian)]', '#[display("(id = {}, ellps = {}, pm = (name = {}, lon = {}))", id, ellipsoid, prime_meridian.name(), prime_meridian.lon().angle().abs().dms())]')],
  main=U+"""fn main() { let d = GeodeticDatum::new("x", geokit::geodesy::ellipsoid::consts::WGS84, geokit::geodesy::prime_meridian::consts::LISBON); assert!(format!("{}", d).contains("-9"), "{}", d); }
"""),
 dict(id="hypot-nan", property="G31", needs="a length that is not a number among the two legs", breaks="the hypotenuse of a NaN leg comes out as the other leg",
  edits=[("quantities/length.rs", "        Self(self.m().hypot(other.m()))\n", "        let (x, y) = (self.m().abs(), other.m().abs());\n        let (lo, hi) = (x.min(y), x.max(y));\n        if hi == 0.0 || hi.is_infinite() {\n            return Self(hi);\n        }\n        let q = lo / hi;\n        Self(hi * (1.0 + q * q).sqrt())\n")],
  main=U+"""fn main() { let d = ENH { easting: f64::NAN * M, northing: 1. * M, height: 0. * M }.dist_to(ENH { easting: 0. * M, northing: 4. * M, height: 0. * M }); assert!(d.m().is_nan(), "{}", d); }
"""),
 dict(id="clamp-nan", property="G31", needs="a latitude made from NaN", breaks="a NaN latitude becomes the south pole",
  edits=[("quantities/angle.rs", "        Self(self.0.clamp(min.rad(), max.rad()))\n", "        Self(self.0.max(min.rad()).min(max.rad()))\n")],
  main=U+"""fn main() { assert!(Lat::new(f64::NAN * DEG).angle().rad().is_nan()); }
"""),
 dict(id="lat-detour", property="G32", needs="a latitude whose value in radians does not survive a detour through degrees", breaks="latitudes in range change in their last bit",
  edits=[("quantities/angle.rs", "        Self(self.0.clamp(min.rad(), max.rad()))\n", "        Self(self.0.to_degrees().clamp(min.rad().to_degrees(), max.rad().to_degrees()).to_radians())\n")],
  main=U+"""fn main() { for i in 0..1000 { let x = i as f64 * 1.234567e-3; assert_eq!(Lat::new(x * RAD).angle().rad(), x); } }
"""),
 dict(id="line-rc", nocompile=True, property="G33", needs="sharing a line string between threads", breaks="line strings can no longer be sent to another thread",
  edits=[("geometry/coordinate/curve/line_string.rs", "pub struct LineString {\n    coord_dim: usize,\n    pos: Vec<Float>,", "pub struct LineString {\n    coord_dim: usize,\n    pos: std::rc::Rc<[Float]>,"),
         ("geometry/coordinate/curve/line_string.rs", "        Self {\n            coord_dim,\n            pos,\n            len,\n        }\n    }\n\n    /// Returns the number of control", "        Self {\n            coord_dim,\n            pos: pos.into(),\n            len,\n        }\n    }\n\n    /// Returns the number of control"),
         ("geometry/coordinate/curve/line_string.rs", "            pos: self.pos,\n            len: self.len,\n        }\n    }\n}\n\n#[cfg(test)]", "            pos: self.pos.into(),\n            len: self.len,\n        }\n    }\n}\n\n#[cfg(test)]")],
  main=U+"""use geokit::geometry::coordinate::curve::*; use geokit::geometry::coordinate::curve::line_string::*;
fn main() { let c = ProjectedCrs { id: "p".into(), datum: WGS84, axes: ProjectedAxes::EastNorth { horiz_unit: M }, projection: ProjectionSpec::UTMNorth { zone: 1 } };
 let l = LineStringBuilder::with_line(&c, [0., 0.], [1., 0.]).unwrap().build(); let e = std::thread::spawn(move || l.end().to_vec()).join().unwrap(); assert_eq!(e, vec![1., 0.]); }
"""),
]
