//! text form of quantities, coordinates and definitions
use crate::assume;
use geokit::cs::azimuth::Azimuth;
use geokit::cs::cartesian::geocentric::XYZ;
use geokit::cs::cartesian::projected::ENH;
use geokit::cs::geodetic::{Lat, Lon, LLH};
use geokit::cs::s1::Interval;
use geokit::geodesy::geodesics::Geodesic;
use geokit::geodesy::{Ellipsoid, GeodeticDatum, PrimeMeridian};
use geokit::quantities::angle::Angle;
use geokit::units::angle::{DEG, RAD};
use geokit::units::length::{LengthUnit, M};
use std::f64::consts::{FRAC_PI_2, PI};
type V = [f64; 3];
fn lon(x: f64) -> Lon { assume(x > -PI && x < PI); Lon::rad(x) }
fn lat(x: f64) -> Lat { assume(x > -FRAC_PI_2 && x < FRAC_PI_2); Lat::new(x * RAD) }
fn az(x: f64) -> Azimuth { assume(x > -PI && x < PI); Azimuth::rad(x) }
fn deg(x: f64) -> f64 { x * 180. / PI }
// quantities
pub fn length__code(x: f64) -> String { format!("{}", x * M) }
pub fn length__spec(x: f64) -> String { format!("{} m", x) }
pub fn length_unit__code(x: f64, n: f64, d: f64) -> String { assume(n > 0. && d > 0.); format!("{}", x * LengthUnit(n, d)) }
pub fn length_unit__spec(x: f64, n: f64, d: f64) -> String { format!("{} m", x * n / d) }
pub fn angle__code(x: f64) -> String { format!("{}", x * RAD) }
pub fn angle__spec(x: f64) -> String { format!("{} rad", x) }
pub fn angle_e__code(x: f64) -> String { format!("{:e}", x * RAD) }
pub fn angle_e__spec(x: f64) -> String { format!("{:e} rad", x) }
pub fn degrees__code(x: f64) -> String { format!("{}", (x * RAD).deg()) }
pub fn degrees__spec(x: f64) -> String { format!("{} deg", deg(x)) }
pub fn degrees_e__code(x: f64) -> String { format!("{:e}", (x * RAD).deg()) }
pub fn degrees_e__spec(x: f64) -> String { format!("{:e} deg", deg(x)) }
fn dms(a: Angle) -> String { let t = a.dms(); format!("{:4}° {:02}′ {:011.8}″", t.deg(), t.min(), t.sec()) }
pub fn dms__code(x: f64) -> String { format!("{}", (x * RAD).dms()) }
pub fn dms__spec(x: f64) -> String { dms(x * RAD) }
// coordinates
pub fn lon__code(x: f64) -> String { format!("{}", lon(x)) }
pub fn lon__spec(x: f64) -> String { format!("{} deg", deg(x)) }
pub fn lat__code(x: f64) -> String { format!("{}", lat(x)) }
pub fn lat__spec(x: f64) -> String { format!("{} deg", deg(x)) }
pub fn az__code(x: f64) -> String { format!("{}", az(x)) }
pub fn az__spec(x: f64) -> String { let t = (x * RAD).dms(); format!("{:4}° {:02}′ {:011.8}″", t.deg(), t.min(), t.sec()) }
pub fn xyz__code(c: V) -> String { format!("{}", XYZ { x: c[0] * M, y: c[1] * M, z: c[2] * M }) }
pub fn xyz__spec(c: V) -> String { format!("({} m, {} m, {} m)", c[0], c[1], c[2]) }
pub fn enh__code(c: V) -> String { format!("{}", ENH { easting: c[0] * M, northing: c[1] * M, height: c[2] * M }) }
pub fn enh__spec(c: V) -> String { format!("(e = {} m, n = {} m, h = {} m)", c[0], c[1], c[2]) }
pub fn llh__code(c: V) -> String { format!("{}", LLH { lon: lon(c[0]), lat: lat(c[1]), height: c[2] * M }) }
pub fn llh__spec(c: V) -> String { format!("(lon = {} deg, lat = {} deg, h = {} m)", deg(c[0]), deg(c[1]), c[2]) }
pub fn interval__code(a: f64, b: f64) -> String { assume(a > -PI && a < PI && b > -PI && b < PI && a != b); format!("{}", Interval::new(a * RAD, b * RAD)) }
pub fn interval__spec(a: f64, b: f64) -> String { format!("lo = {} rad, hi = {} rad", a, b) }
// definitions
fn fl(a: f64, i: f64) -> Ellipsoid { assume(a > 1. && a < 1e9 && i > 2. && i < 1e9); Ellipsoid::from_ainvf("Ell", a * M, i) }
fn pm(x: f64) -> PrimeMeridian { PrimeMeridian::new("Mer", lon(x)) }
pub fn ellipsoid__code(a: f64, i: f64) -> String { format!("{}", fl(a, i)) }
pub fn ellipsoid__spec(a: f64, i: f64) -> String { format!("(name = Ell, a = {} m, b = {} m, inv_f = {})", a, a * (1. - 1. / i), i) }
pub fn meridian__code(x: f64) -> String { format!("{}", pm(x)) }
pub fn meridian__spec(x: f64) -> String { let t = (x * RAD).dms(); format!("(name = Mer, lon = {:4}° {:02}′ {:011.8}″)", t.deg(), t.min(), t.sec()) }
pub fn datum__code(a: f64, i: f64, x: f64) -> String { format!("{}", GeodeticDatum::new("Dat", fl(a, i), pm(x))) }
pub fn datum__spec(a: f64, i: f64, x: f64) -> String { let t = (x * RAD).dms(); format!("(id = Dat, ellps = (name = Ell, a = {} m, b = {} m, inv_f = {}), pm = (name = Mer, lon = {:4}° {:02}′ {:011.8}″))", a, a * (1. - 1. / i), i, t.deg(), t.min(), t.sec()) }
pub fn geodesic__code(c: [f64; 4], a: [f64; 2], s: f64) -> String {
    assume(c[2] - c[0] > -PI && c[2] - c[0] < PI);
    format!("{}", Geodesic { p1: (lon(c[0]), lat(c[1])), alpha1: az(a[0]), p2: (lon(c[2]), lat(c[3])), alpha2: az(a[1]), s: s * M })
}
pub fn geodesic__spec(c: [f64; 4], a: [f64; 2], s: f64) -> String {
    let (t, u) = ((a[0] * RAD).dms(), (a[1] * RAD).dms());
    format!("From: (lon: {} deg, lat: {} deg, az: {:4}° {:02}′ {:011.8}″)\nTo:   (lon: {} deg, lat: {} deg, az: {:4}° {:02}′ {:011.8}″)\nL:   {} rad\ns:   {} m", deg(c[0]), deg(c[1]), t.deg(), t.min(), t.sec(), deg(c[2]), deg(c[3]), u.deg(), u.min(), u.sec(), c[2] - c[0], s)
}
