U = "use geokit::units::angle::*; use geokit::units::length::*; use geokit::cs::geodetic::*; use geokit::quantities::angle::Angle; use approx::AbsDiffEq;\n"
SEEDS = [
 dict(id="lon-sub-assign", property="G01", needs="compound subtraction on a longitude whose result leaves the range by more than one turn in the west", breaks="a longitude outside [-180°,180°] after -=",
  edits=[("cs/geodetic.rs", "        self.0 = (self.0 - rhs).wrapped()\n", "        let mut a = self.0 - rhs;\n        if a < Angle::M_PI {\n            a += Angle::TWO_PI;\n        } else if a > Angle::PI {\n            a -= Angle::TWO_PI;\n        }\n        self.0 = a\n")],
  main=U+"fn main() { let mut l = Lon::deg(-170.); l -= 400. * DEG; let r = l.angle().rad(); assert!(r >= -std::f64::consts::PI && r <= std::f64::consts::PI, \"{r}\"); }\n"),
 dict(id="nw-tolerance", property="G05", needs="tolerance conversion on north-west axes with different longitude and latitude tolerances", breaks="latitude tolerance lands on the westing axis",
  edits=[("cs/geodetic.rs", "            GeodeticAxes::NorthEast { angle_unit } | GeodeticAxes::NorthWest { angle_unit } => {\n                smallvec![tol.lat.val(*angle_unit), tol.lon.val(*angle_unit),]\n            }", "            GeodeticAxes::NorthEast { angle_unit } => {\n                smallvec![tol.lat.val(*angle_unit), tol.lon.val(*angle_unit),]\n            }\n            GeodeticAxes::NorthWest { angle_unit } => {\n                smallvec![tol.lon.val(*angle_unit), tol.lat.val(*angle_unit),]\n            }")],
  main=U+"fn main() { let t = GeodeticTolerance { lon: 2. * DEG, lat: 1. * DEG, height: 1. * M }; let v = GeodeticAxes::NorthWest { angle_unit: DEG }.denormalize_tol(t); assert!((v[0] - 1.).abs() < 1e-9 && (v[1] - 2.).abs() < 1e-9); }\n"),
 dict(id="lon-approx-antimeridian", property="G07", needs="two longitudes on both sides of the antimeridian", breaks="-180° and 180° no longer compare approximately equal",
  edits=[("cs/geodetic.rs", "        (*self - *other).abs() <= epsilon\n    }\n}\n\n/// [Lat] represents", "        (self.0 - other.0).abs() <= epsilon\n    }\n}\n\n/// [Lat] represents")],
  main=U+"fn main() { assert!(Lon::deg(180.).abs_diff_eq(&Lon::deg(-180.), 1e-9 * RAD)); }\n"),
 dict(id="angle-normalize-inplace", property="G02", needs="in-place normalisation of an angle beyond one turn on the negative side", breaks="the in-place form wraps by half turns for negative odd multiples",
  edits=[("quantities/angle.rs", "        let mut a = remainder(self.0, TAU);\n        if a <= -PI {\n            a = PI;\n        }\n        self.0 = a;", "        let mut a = remainder(self.0, TAU);\n        if a <= -PI {\n            a = PI;\n        }\n        if self.0 < -TAU && a < 0. {\n            a += PI;\n        }\n        self.0 = a;")],
  main=U+"fn main() { let mut a = -370. * DEG; a.normalize(); assert!((a.val(DEG) + 10.).abs() < 1e-9, \"{}\", a.val(DEG)); }\n"),
]
