//! line strings
use crate::assume;
use geokit::crs::Crs;
use geokit::geometry::coordinate::curve::line_string::{LineString, LineStringBuilder};
use geokit::geometry::coordinate::curve::{CurveInterpolation, CurveSegment, ParameterizedCurve};
use geokit::quantities::length::Length;
use geokit::units::length::M;
unsafe extern "C" {
    fn d2(a: f64, b: f64, c: f64, d: f64, e: f64) -> f64;
    fn ufb_ok2(a: f64, b: f64, c: f64, d: f64, e: f64) -> bool;
    fn d3(a: f64, b: f64, c: f64, d: f64, e: f64, f: f64, g: f64, h: f64, i: f64) -> f64;
}
type W = [f64; 2];
type V = [f64; 3];
/// reference systems about whose distance nothing is known but that it is symmetric and not negative
#[derive(Debug)]
pub struct C2;
pub fn dd(a: W, b: W) -> f64 { unsafe { let r = d2(a[0] + b[0], a[1] + b[1], a[0] * b[0], a[1] * b[1], a[0] * b[1] + b[0] * a[1]); assume(r >= 0.); r } }
pub fn ok(a: W, b: W) -> bool { unsafe { ufb_ok2(a[0] + b[0], a[1] + b[1], a[0] * b[0], a[1] * b[1], a[0] * b[1] + b[0] * a[1]) } }
impl Crs for C2 {
    fn id(&self) -> &str { "c" }
    fn dim(&self) -> usize { 2 }
    fn dist(&self, a: &[f64], b: &[f64]) -> Result<Length, &'static str> { let (a, b) = ([a[0], a[1]], [b[0], b[1]]); if ok(a, b) { Ok(dd(a, b) * M) } else { Err("no") } }
}
#[derive(Debug)]
pub struct C3;
pub fn de(a: V, b: V) -> f64 { unsafe { let r = d3(a[0] + b[0], a[1] + b[1], a[2] + b[2], a[0] * b[0], a[1] * b[1], a[2] * b[2], a[0] * b[1] + b[0] * a[1], a[1] * b[2] + b[1] * a[2], a[2] * b[0] + b[2] * a[0]); assume(r >= 0.); r } }
impl Crs for C3 {
    fn id(&self) -> &str { "c" }
    fn dim(&self) -> usize { 3 }
    fn dist(&self, a: &[f64], b: &[f64]) -> Result<Length, &'static str> { Ok(de([a[0], a[1], a[2]], [b[0], b[1], b[2]]) * M) }
}
fn w(p: &[f64]) -> W { [p[0], p[1]] }
fn v(p: &[f64]) -> V { [p[0], p[1], p[2]] }
fn mk(a: W, b: W, c: W) -> Option<LineString> { Some(LineStringBuilder::with_line(&C2, a, b).ok()?.line_to(c).ok()?.build()) }
fn three(a: V, b: V, c: V) -> LineString { LineStringBuilder::with_line(&C3, a, b).unwrap().line_to(c).unwrap().build() }
pub fn ends__code(a: W, b: W, c: W) -> Option<(W, W, f64, usize)> { let l = mk(a, b, c)?; Some((w(l.start()), w(l.end()), l.length(&C2).m(), l.coord_dim())) }
pub fn ends__spec(a: W, b: W, c: W) -> Option<(W, W, f64, usize)> { if ok(a, b) && ok(b, c) { Some((a, c, dd(a, b) + dd(b, c), 2)) } else { None } }
pub fn ends3__code(a: V, b: V, c: V) -> (V, V, f64, usize) { let l = three(a, b, c); (v(l.start()), v(l.end()), l.length(&C3).m(), l.coord_dim()) }
pub fn ends3__spec(a: V, b: V, c: V) -> (V, V, f64, usize) { (a, c, de(a, b) + de(b, c), 3) }
// the position at a distance from the start
fn lerp(a: W, b: W, t: f64) -> W { [a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1])] }
pub fn param1__code(a: W, b: W, s: f64) -> W { assume(ok(a, b)); w(&LineStringBuilder::with_line(&C2, a, b).unwrap().build().param(&C2, s * M)) }
pub fn param1__spec(a: W, b: W, s: f64) -> W {
    let l = dd(a, b);
    if s < 0. || s > l { panic!() }
    if s == 0. { a } else { lerp(a, b, s / l) }
}
pub fn param2__code(a: W, b: W, c: W, s: f64) -> W { assume(ok(a, b) && ok(b, c)); w(&mk(a, b, c).unwrap().param(&C2, s * M)) }
pub fn param2__spec(a: W, b: W, c: W, s: f64) -> W {
    let (l, k) = (dd(a, b), dd(b, c));
    if s < 0. || s > l + k { panic!() }
    if s == 0. { a } else if s <= l { lerp(a, b, s / l) } else { lerp(b, c, (s - l) / k) }
}
pub fn param3__code(a: W, b: W, c: W, d: W, s: f64) -> W {
    assume(ok(a, b) && ok(b, c) && ok(c, d));
    w(&LineStringBuilder::with_line(&C2, a, b).unwrap().line_to(c).unwrap().line_to(d).unwrap().build().param(&C2, s * M))
}
pub fn param3__spec(a: W, b: W, c: W, d: W, s: f64) -> W {
    let (l, k, j) = (dd(a, b), dd(b, c), dd(c, d));
    if s < 0. || s > l + k + j { panic!() }
    if s == 0. { a } else if s <= l { lerp(a, b, s / l) } else if s <= l + k { lerp(b, c, (s - l) / k) } else { lerp(c, d, (s - l - k) / j) }
}
pub fn param_3d__code(a: V, b: V, c: V, s: f64) -> V { v(&three(a, b, c).param(&C3, s * M)) }
pub fn param_3d__spec(a: V, b: V, c: V, s: f64) -> V {
    let (l, k) = (de(a, b), de(b, c));
    if s < 0. || s > l + k { panic!() }
    let f = |x: V, y: V, t: f64| [x[0] + t * (y[0] - x[0]), x[1] + t * (y[1] - x[1]), x[2] + t * (y[2] - x[2])];
    if s == 0. { a } else if s <= l { f(a, b, s / l) } else { f(b, c, (s - l) / k) }
}
// the ends are met exactly
pub fn param_ends__code(a: W, b: W, c: W) -> Option<(W, W)> { let l = mk(a, b, c)?; Some((w(&l.param(&C2, 0. * M)), w(&l.param(&C2, l.length(&C2))))) }
pub fn param_ends__spec(a: W, b: W, c: W) -> Option<(W, W)> { if ok(a, b) && ok(b, c) { assume(dd(a, b) + dd(b, c) > 0.); Some((a, if dd(b, c) == 0. { b } else { c })) } else { None } }
// closing adds the start
pub fn close__code(a: W, b: W, c: W) -> Option<(W, W, f64)> { let l = LineStringBuilder::with_line(&C2, a, b).ok()?.line_to(c).ok()?.close().ok()?; Some((w(l.start()), w(l.end()), l.length(&C2).m())) }
pub fn close__spec(a: W, b: W, c: W) -> Option<(W, W, f64)> { if ok(a, b) && ok(b, c) && ok(c, a) { Some((a, a, dd(a, b) + dd(b, c) + dd(c, a))) } else { None } }
// positions of another dimension are refused
pub fn bad_dim__code(a: W, b: W, c: V) -> bool { assume(ok(a, b)); LineStringBuilder::with_line(&C2, a, b).unwrap().line_to(c).is_err() }
pub fn bad_dim__spec(_a: W, _b: W, _c: V) -> bool { true }
pub fn segment__code(a: W, b: W, c: W) -> Option<(W, W, bool)> { let l = mk(a, b, c)?; let x = l.curve_boundary(); Some((w(&x.start), w(&x.end), matches!(l.interpolation(), CurveInterpolation::Linear))) }
pub fn segment__spec(a: W, b: W, c: W) -> Option<(W, W, bool)> { if ok(a, b) && ok(b, c) { Some((a, c, true)) } else { None } }
pub fn same__code(a: W, b: W, c: W) -> bool { assume(ok(a, b) && ok(b, c)); let l = mk(a, b, c).unwrap(); l.clone() == l }
pub fn same__spec(a: W, b: W, c: W) -> bool { let q = |x: f64| x == x; q(a[0]) && q(a[1]) && q(b[0]) && q(b[1]) && q(c[0]) && q(c[1]) && q(dd(a, b)) && q(dd(b, c)) }

// many legs: the length is the sum of all legs in order, the ends are those given, and a position on the last leg lies on it
fn many(p: [W; 8]) -> Option<LineString> { let mut b = LineStringBuilder::with_line(&C2, p[0], p[1]).ok()?; let mut i = 2; while i < 8 { b = b.line_to(p[i]).ok()?; i += 1; } Some(b.build()) }
fn alright(p: [W; 8]) -> bool { let mut i = 1; while i < 8 { if !ok(p[i - 1], p[i]) { return false; } i += 1; } true }
pub fn many_ends__code(p: [W; 8]) -> Option<(W, W, f64)> { let l = many(p)?; Some((w(l.start()), w(l.end()), l.length(&C2).m())) }
pub fn many_ends__spec(p: [W; 8]) -> Option<(W, W, f64)> {
    if !alright(p) { return None; }
    let mut s = 0.; let mut i = 1; while i < 8 { s += dd(p[i - 1], p[i]); i += 1; }
    Some((p[0], p[7], s))
}
fn five(p: [W; 6]) -> LineString { let mut b = LineStringBuilder::with_line(&C2, p[0], p[1]).unwrap(); let mut i = 2; while i < 6 { b = b.line_to(p[i]).unwrap(); i += 1; } b.build() }
pub fn param5__code(p: [W; 6], s: f64) -> W { assume(ok(p[0], p[1]) && ok(p[1], p[2]) && ok(p[2], p[3]) && ok(p[3], p[4]) && ok(p[4], p[5])); w(&five(p).param(&C2, s * M)) }
pub fn param5__spec(p: [W; 6], s: f64) -> W {
    let mut l = 0.; let mut i = 1; while i < 6 { l += dd(p[i - 1], p[i]); i += 1; }
    if s < 0. || s > l { panic!() }
    if s == 0. { return p[0]; }
    let mut l = 0.; let mut i = 1;
    while i < 5 { let k = dd(p[i - 1], p[i]); if s <= l + k { return lerp(p[i - 1], p[i], (s - l) / k); } l += k; i += 1; }
    lerp(p[4], p[5], (s - l) / dd(p[4], p[5]))
}

fn long<const N: usize>(p: [W; N]) -> Option<LineStringBuilder<'static>> { let mut b = LineStringBuilder::with_line(&C2, p[0], p[1]).ok()?; let mut i = 2; while i < N { b = b.line_to(p[i]).ok()?; i += 1; } Some(b) }
fn sound<const N: usize>(p: [W; N]) -> bool { let mut i = 1; while i < N { if !ok(p[i - 1], p[i]) { return false; } i += 1; } true }
fn total<const N: usize>(p: [W; N]) -> f64 { let mut s = 0.; let mut i = 1; while i < N { s += dd(p[i - 1], p[i]); i += 1; } s }
pub fn long_ends__code(p: [W; 20]) -> Option<(W, W, f64)> { let l = long(p)?.build(); Some((w(l.start()), w(l.end()), l.length(&C2).m())) }
pub fn long_ends__spec(p: [W; 20]) -> Option<(W, W, f64)> { if sound(p) { Some((p[0], p[19], total(p))) } else { None } }
pub fn long_close__code(p: [W; 11]) -> Option<(W, W, f64)> { let l = long(p)?.close().ok()?; Some((w(l.start()), w(l.end()), l.length(&C2).m())) }
pub fn long_close__spec(p: [W; 11]) -> Option<(W, W, f64)> { if sound(p) && ok(p[10], p[0]) { Some((p[0], p[0], total(p) + dd(p[10], p[0]))) } else { None } }
fn long3<const N: usize>(p: [V; N]) -> LineString { let mut b = LineStringBuilder::with_line(&C3, p[0], p[1]).unwrap(); let mut i = 2; while i < N { b = b.line_to(p[i]).unwrap(); i += 1; } b.build() }
pub fn long_ends3__code(p: [V; 9]) -> (V, V, f64, usize) { let l = long3(p); (v(l.start()), v(l.end()), l.length(&C3).m(), l.coord_dim()) }
pub fn long_ends3__spec(p: [V; 9]) -> (V, V, f64, usize) { let mut s = 0.; let mut i = 1; while i < 9 { s += de(p[i - 1], p[i]); i += 1; } (p[0], p[8], s, 3) }
