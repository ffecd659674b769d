//! published constants
use geokit::geodesy::ellipsoid::consts as E;
use geokit::geodesy::geodetic_datum::consts as D;
use geokit::geodesy::prime_meridian::consts as P;
use geokit::geodesy::{Ellipsoid, GeodeticDatum, PrimeMeridian};
use std::f64::consts::PI;
fn e(x: &Ellipsoid) -> [f64; 3] { [x.a().m(), x.b().m(), x.f()] }
fn i(a: f64, invf: f64) -> [f64; 3] { [a, a * (1. - 1. / invf), 1. / invf] }
fn b(a: f64, b: f64) -> [f64; 3] { [a, b, (a - b) / a] }
/// the constants are folded by the compiler in double precision: equal up to 1e-13 relative
fn near(x: f64, y: f64) -> bool { let d = x - y; let m = if y < 0. { -y } else { y }; d <= 1e-13 * m && d >= -1e-13 * m }
fn ok<const N: usize, const K: usize>(x: &[[f64; N]; K], y: &[[f64; N]; K]) -> bool { let mut r = true; for i in 0..K { for j in 0..N { r = r && if j == 2 { nearf(x[i][j], y[i][j]) } else { near(x[i][j], y[i][j]) } } } r }
// the flattening of an ellipsoid given by its two axes carries the cancellation of their difference
fn nearf(x: f64, y: f64) -> bool { let d = x - y; d <= 1e-15 && d >= -1e-15 }
fn ok1<const K: usize>(x: &[f64; K], y: &[f64; K]) -> bool { let mut r = true; for i in 0..K { r = r && near(x[i], y[i]) } r }
fn l(p: &PrimeMeridian) -> f64 { p.lon().angle().rad() }
fn d(x: f64) -> f64 { x * PI / 180. }
fn u(x: &GeodeticDatum) -> [f64; 4] { let k = e(x.ellipsoid()); [k[0], k[1], k[2], l(x.prime_meridian())] }
pub fn british__holds() -> bool { ok(&[e(&E::AIRY), e(&E::MOD_AIRY), e(&E::SPHERE)], &{ [i(6377563.396, 299.3249646), b(6377340.189, 6356034.446), b(6370997., 6370997.)] }) }
pub fn aplus__holds() -> bool { ok(&[e(&E::ANDRAE), e(&E::DANISH), e(&E::APL_4_9), e(&E::AUST_SA)], &{ [i(6377104.43, 300.), i(6377019.2563, 300.), i(6378137., 298.25), i(6378160., 298.25)] }) }
pub fn bessel__holds() -> bool { ok(&[e(&E::BESSEL), e(&E::BESS_NAM)], &{ [i(6377397.155, 299.1528128), i(6377483.865, 299.1528128)] }) }
pub fn clarke__holds() -> bool { ok(&[e(&E::CLRK66), e(&E::CLRK80), e(&E::CLRK80IGN)], &{ [b(6378206.4, 6356583.8), i(6378249.145, 293.4663), i(6378249.2, 293.4660212936269)] }) }
pub fn old__holds() -> bool { ok(&[e(&E::CPM), e(&E::DELMBR), e(&E::ENGELIS), e(&E::MPRTS), e(&E::PLESSIS), e(&E::WALBECK), e(&E::SEASIA)], &{ [i(6375738.7, 334.29), i(6376428., 311.5), i(6378136.05, 298.2566), i(6397300., 191.), b(6376523., 6355863.), b(6376896., 6355834.8467), b(6378155., 6356773.3205)] }) }
pub fn everest__holds() -> bool { ok(&[e(&E::EVRST30), e(&E::EVRST48), e(&E::EVRST56), e(&E::EVRST69), e(&E::EVRSTSS)], &{ [i(6377276.345, 300.8017), i(6377304.063, 300.8017), i(6377301.243, 300.8017), i(6377295.664, 300.8017), i(6377298.556, 300.8017)] }) }
pub fn fischer__holds() -> bool { ok(&[e(&E::FSCHR60), e(&E::FSCHR60M), e(&E::FSCHR68)], &{ [i(6378166., 298.3), i(6378155., 298.3), i(6378150., 298.3)] }) }
pub fn grs__holds() -> bool { ok(&[e(&E::GRS67), e(&E::GRS80), e(&E::GSK2011), e(&E::IAU76)], &{ [i(6378160., 298.2471674270), i(6378137., 298.257222101), i(6378136.5, 298.2564151), i(6378140., 298.257)] }) }
pub fn hk__holds() -> bool { ok(&[e(&E::HELMERT), e(&E::HOUGH), e(&E::INTL), e(&E::KAULA), e(&E::KRASS), e(&E::LERCH)], &{ [i(6378200., 298.3), i(6378270., 297.), i(6378388., 297.), i(6378163., 298.24), i(6378245., 298.3), i(6378139., 298.257)] }) }
pub fn mn__holds() -> bool { ok(&[e(&E::MERIT), e(&E::NWL9D), e(&E::NEW_INTL), e(&E::PZ90), e(&E::SGS85)], &{ [i(6378137., 298.257), i(6378145., 298.25), b(6378157.5, 6356772.2), i(6378136., 298.25784), i(6378136., 298.257)] }) }
pub fn wgs__holds() -> bool { ok(&[e(&E::WGS60), e(&E::WGS66), e(&E::WGS72), e(&E::WGS84)], &{ [i(6378165., 298.3), i(6378145., 298.25), i(6378135., 298.26), i(6378137., 298.257223563)] }) }
pub fn sphere__code() -> bool { E::SPHERE.is_spherical() && !E::WGS84.is_spherical() && !E::CLRK66.is_spherical() }
pub fn sphere__spec() -> bool { true }
pub fn meridians__holds() -> bool { ok1(&[l(&P::GREENWICH), l(&P::LISBON), l(&P::PARIS), l(&P::BOGOTA), l(&P::MADRID), l(&P::ROME), l(&P::BERN), l(&P::JAKARTA), l(&P::FERRO), l(&P::BRUSSELS), l(&P::STOCKHOLM), l(&P::ATHENS), l(&P::OSLO), l(&P::COPENHAGEN)], &{ [0., d(-9.131906111111), d(2.337229166667), d(-74.080916666667), d(-3.687938888889), d(12.452333333333), d(7.439583333333), d(106.807719444444), d(-17.666666666667), d(4.367975), d(18.058277777778), d(23.7163375), d(10.722916666667), d(12.57788)] }) }
pub fn datums__holds() -> bool { ok(&[u(&D::WGS84), u(&D::GGRS87), u(&D::NAD83), u(&D::RNB72)], &{ let f = |k: [f64; 3]| [k[0], k[1], k[2], 0.]; let g = i(6378137., 298.257222101); [f(i(6378137., 298.257223563)), f(g), f(g), f(i(6378388., 297.))] }) }
pub fn datum_eq__code() -> [bool; 3] { [D::WGS84 == D::WGS84, D::GGRS87 == D::NAD83, D::WGS84 == D::NAD83] }
pub fn datum_eq__spec() -> [bool; 3] { [true, false, false] }
