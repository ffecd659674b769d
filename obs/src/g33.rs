//! values and definitions can be sent to and shared between threads: a type-level question, answered by the compiler
use geokit::crs::{geocentric::GeocentricCrs, geographic::GeographicCrs, projected::ProjectedCrs};
use geokit::cs::azimuth::Azimuth;
use geokit::cs::cartesian::geocentric::{GeocentricAxes, XYZ};
use geokit::cs::cartesian::projected::{ProjectedAxes, ProjectedTolerance, ENH};
use geokit::cs::cartesian::CartesianTolerance;
use geokit::cs::geodetic::{GeodeticAxes, GeodeticTolerance, Lat, Lon, LLH};
use geokit::geodesy::geodesics::karney::KarneyGeodesicSolver;
use geokit::geodesy::geodesics::rapp::RappIterativeGeodisicSolver;
use geokit::geodesy::geodesics::vincenty::VincentyGeodesicSolver;
use geokit::geodesy::geodesics::Geodesic;
use geokit::geodesy::{Ellipsoid, GeodeticDatum, PrimeMeridian};
use geokit::geometry::coordinate::curve::line_string::LineString;
use geokit::geometry::primitive::point::Point;
use geokit::math::complex::Complex;
use geokit::math::polynomial::Polynomial;
use geokit::projections::{ProjectionError, ProjectionSpec};
use geokit::quantities::angle::{Angle, Deg, Dms};
use geokit::quantities::length::{ArcLength, Length};
use geokit::quantities::scale::PPM;
use geokit::transformations::xyz::{RotationConvention, XYZIdentity};
use geokit::transformations::TransformationError;
use geokit::units::angle::AngleUnit;
use geokit::units::length::LengthUnit;
use std::marker::PhantomData;
struct Ask<T>(PhantomData<T>);
trait Default_ { const YES: bool = false; }
impl<T> Default_ for Ask<T> {}
impl<T: Send + Sync> Ask<T> { const YES: bool = true; }
macro_rules! shared { ($($f:ident $t:ty;)*) => { $( pub fn $f() -> bool { <Ask<$t>>::YES } )* } }
shared! {
    Angle__holds Angle; Deg__holds Deg; Dms__holds Dms; Length__holds Length; ArcLength__holds ArcLength; PPM__holds PPM;
    AngleUnit__holds AngleUnit; LengthUnit__holds LengthUnit;
    Lon__holds Lon; Lat__holds Lat; Azimuth__holds Azimuth; LLH__holds LLH; XYZ__holds XYZ; ENH__holds ENH;
    GeodeticAxes__holds GeodeticAxes; GeocentricAxes__holds GeocentricAxes; ProjectedAxes__holds ProjectedAxes;
    GeodeticTolerance__holds GeodeticTolerance; CartesianTolerance__holds CartesianTolerance; ProjectedTolerance__holds ProjectedTolerance;
    Interval__holds geokit::cs::s1::Interval;
    Ellipsoid__holds Ellipsoid; PrimeMeridian__holds PrimeMeridian; GeodeticDatum__holds GeodeticDatum;
    GeocentricCrs__holds GeocentricCrs; GeographicCrs__holds GeographicCrs; ProjectedCrs__holds ProjectedCrs;
    Geodesic__holds Geodesic; Vincenty__holds VincentyGeodesicSolver<'static>; Rapp__holds RappIterativeGeodisicSolver<'static>; Karney__holds KarneyGeodesicSolver<'static>;
    ProjectionSpec__holds ProjectionSpec; ProjectionError__holds ProjectionError; TransformationError__holds TransformationError;
    RotationConvention__holds RotationConvention; XYZIdentity__holds XYZIdentity;
    LineString__holds LineString; Point__holds Point; Complex__holds Complex; Polynomial__holds Polynomial<3>;
}
