//! numeric kernel
use crate::assume;
use geokit::math::complex::Complex;
use geokit::math::fp::{clenshaw_sin_sum, remainder, sq, sum};
use geokit::math::polynomial::Polynomial;
fn c(a: [f64; 2]) -> Complex { Complex::new(a[0], a[1]) }
fn o(a: Complex) -> [f64; 2] { [a.re, a.im] }
pub fn poly__code(k: [f64; 6], x: f64) -> [f64; 2] { let p = Polynomial::new(k); [p.eval_at(x), p.fast_eval_at(x)] }
pub fn poly__spec(k: [f64; 6], x: f64) -> [f64; 2] { let r = k[0] + k[1] * x + k[2] * x.powi(2) + k[3] * x.powi(3) + k[4] * x.powi(4) + k[5] * x.powi(5); [r, r] }
pub fn poly_short__code(k: [f64; 1], x: f64) -> [f64; 3] { let p = Polynomial::new(k); let q = Polynomial::<0, f64>::new([]); [p.eval_at(x), p.fast_eval_at(x), q.eval_at(x)] }
pub fn poly_short__spec(k: [f64; 1], x: f64) -> [f64; 3] { [k[0], k[0], 0.] }
pub fn poly_cx__code(k: [f64; 4], z: [f64; 2]) -> [f64; 2] { o(Polynomial::new(k).eval_at(c(z))) }
pub fn poly_cx__spec(k: [f64; 4], z: [f64; 2]) -> [f64; 2] {
    let (x, y) = (z[0], z[1]);
    [k[0] + k[1] * x + k[2] * (x * x - y * y) + k[3] * (x * x * x - 3. * x * y * y), k[1] * y + k[2] * 2. * x * y + k[3] * (3. * x * x * y - y * y * y)]
}
pub fn cx_ring__code(a: [f64; 2], b: [f64; 2], f: f64) -> [[f64; 2]; 8] { let (x, y) = (c(a), c(b)); [o(x + y), o(x - y), o(x * y), o(x + f), o(x - f), o(x * f), o(x / f), o(x.conj())] }
pub fn cx_ring__spec(a: [f64; 2], b: [f64; 2], f: f64) -> [[f64; 2]; 8] {
    [[a[0] + b[0], a[1] + b[1]], [a[0] - b[0], a[1] - b[1]], [a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0]], [a[0] + f, a[1]], [a[0] - f, a[1]], [a[0] * f, a[1] * f], [a[0] / f, a[1] / f], [a[0], -a[1]]]
}
pub fn cx_inv__code(a: [f64; 2]) -> Option<[f64; 2]> { match c(a).inv() { Ok(z) => Some(o(z)), Err(_) => None } }
pub fn cx_inv__spec(a: [f64; 2]) -> Option<[f64; 2]> { if a[0] == 0. && a[1] == 0. { None } else { let n = a[0] * a[0] + a[1] * a[1]; Some([a[0] / n, -a[1] / n]) } }
pub fn cx_div__code(a: [f64; 2], b: [f64; 2]) -> Option<[f64; 2]> { match c(a) / c(b) { Ok(z) => Some(o(z)), Err(_) => None } }
pub fn cx_div__spec(a: [f64; 2], b: [f64; 2]) -> Option<[f64; 2]> { if b[0] == 0. && b[1] == 0. { None } else { let n = b[0] * b[0] + b[1] * b[1]; Some([(a[0] * b[0] + a[1] * b[1]) / n, (a[1] * b[0] - a[0] * b[1]) / n]) } }
pub fn cx_mod__code(a: [f64; 2]) -> [f64; 3] { [c(a).abs_sq(), c(a).abs(), c(a).arg().rad()] }
pub fn cx_mod__spec(a: [f64; 2]) -> [f64; 3] { let n = a[0] * a[0] + a[1] * a[1]; [n, n.sqrt(), a[1].atan2(a[0])] }
pub fn clenshaw7__code(k: [f64; 7], x: f64) -> f64 { clenshaw_sin_sum(&k, x) }
pub fn clenshaw7__spec(k: [f64; 7], x: f64) -> f64 { k[1] * x.sin() + k[2] * (2. * x).sin() + k[3] * (3. * x).sin() + k[4] * (4. * x).sin() + k[5] * (5. * x).sin() + k[6] * (6. * x).sin() }
pub fn clenshaw1__code(k: [f64; 1], x: f64) -> f64 { clenshaw_sin_sum(&k, x) }
pub fn clenshaw1__spec(k: [f64; 1], x: f64) -> f64 { 0. }
pub fn clenshaw2__code(k: [f64; 2], x: f64) -> f64 { clenshaw_sin_sum(&k, x) }
pub fn clenshaw2__spec(k: [f64; 2], x: f64) -> f64 { k[1] * x.sin() }
pub fn sum__code(a: f64, b: f64) -> [f64; 2] { let (s, e) = sum(a, b); [s, s + e] }
pub fn sum__spec(a: f64, b: f64) -> [f64; 2] { [a + b, a + b] }
pub fn sq__code(a: f64) -> f64 { sq(a) }
pub fn sq__spec(a: f64) -> f64 { a * a }
pub fn remainder_range__holds(a: f64) -> bool { assume(a > -1e300 && a < 1e300); let m = remainder(a, 2. * std::f64::consts::PI); m >= -std::f64::consts::PI && m <= std::f64::consts::PI }
pub fn remainder_range_deg__holds(a: f64) -> bool { assume(a > -1e300 && a < 1e300); let m = remainder(a, 360.); m >= -180. && m <= 180. }
pub fn remainder_whole__code(a: f64) -> [f64; 2] { let m = remainder(a, std::f64::consts::TAU); [m.sin(), m.cos()] }
pub fn remainder_whole__spec(a: f64) -> [f64; 2] { [a.sin(), a.cos()] }
pub fn remainder_id__code(a: f64) -> f64 { assume(a <= 180. && a >= -180.); remainder(a, 360.) }
pub fn remainder_id__spec(a: f64) -> f64 { a }
macro_rules! degrees { ($($c:ident $s:ident $n:literal),*) => { $(
    pub fn $c(k: [f64; $n], x: f64) -> [f64; 2] { let p = Polynomial::new(k); [p.eval_at(x), p.fast_eval_at(x)] }
    pub fn $s(k: [f64; $n], x: f64) -> [f64; 2] { let mut r = 0.; let mut i = 0; while i < $n { r = r + k[i] * x.powi(i as i32); i += 1; } [r, r] }
)* } }
degrees!(poly2__code poly2__spec 2, poly3__code poly3__spec 3, poly4__code poly4__spec 4, poly5__code poly5__spec 5, poly7__code poly7__spec 7, poly8__code poly8__spec 8, poly9__code poly9__spec 9, poly10__code poly10__spec 10, poly13__code poly13__spec 13, poly17__code poly17__spec 17, poly24__code poly24__spec 24);
macro_rules! sums { ($($c:ident $s:ident $n:literal),*) => { $(
    pub fn $c(k: [f64; $n], x: f64) -> f64 { clenshaw_sin_sum(&k, x) }
    pub fn $s(k: [f64; $n], x: f64) -> f64 { let mut r = 0.; let mut i = 1; while i < $n { r = r + k[i] * (i as f64 * x).sin(); i += 1; } r }
)* } }
sums!(clenshaw3__code clenshaw3__spec 3, clenshaw4__code clenshaw4__spec 4, clenshaw5__code clenshaw5__spec 5, clenshaw6__code clenshaw6__spec 6, clenshaw8__code clenshaw8__spec 8, clenshaw9__code clenshaw9__spec 9, clenshaw12__code clenshaw12__spec 12, clenshaw17__code clenshaw17__spec 17);
pub fn poly_cx9__code(k: [f64; 9], z: [f64; 2]) -> [f64; 2] { o(Polynomial::new(k).eval_at(c(z))) }
pub fn poly_cx9__spec(k: [f64; 9], z: [f64; 2]) -> [f64; 2] {
    let (mut re, mut im, mut p, mut q, mut i) = (0., 0., 1., 0., 0);
    while i < 9 { re = re + k[i] * p; im = im + k[i] * q; let t = p * z[0] - q * z[1]; q = p * z[1] + q * z[0]; p = t; i += 1; }
    [re, im]
}
