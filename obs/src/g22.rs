//! curves, points and their boundaries
use crate::assume;
use geokit::crs::Crs;
use geokit::geometry::coordinate::curve::line_string::{LineString, LineStringBuilder};
use geokit::geometry::coordinate::curve::{CurveInterpolation, CurveSegment, ParameterizedCurve};
use geokit::geometry::primitive::curve::{Curve, CurveBoundary, CurveBuilder};
use geokit::geometry::primitive::point::Point;
use geokit::geometry::{Geometry, GeometryType};
use geokit::quantities::length::Length;
use geokit::units::length::M;
use std::any::Any;
unsafe extern "C" {
    fn ln(k: f64) -> f64;
    fn px(k: f64, s: f64) -> f64;
    fn py(k: f64, s: f64) -> f64;
    fn dq(a: f64, b: f64, c: f64, d: f64, e: f64) -> f64;
}
type W = [f64; 2];
type V = [f64; 3];
#[derive(Debug)]
pub struct C2;
impl Crs for C2 {
    fn id(&self) -> &str { "c" }
    fn dim(&self) -> usize { 2 }
    fn dist(&self, a: &[f64], b: &[f64]) -> Result<Length, &'static str> { Ok(de(a, b) * M) }
}
#[derive(Debug)]
pub struct C3;
impl Crs for C3 {
    fn id(&self) -> &str { "c" }
    fn dim(&self) -> usize { 3 }
    fn dist(&self, _a: &[f64], _b: &[f64]) -> Result<Length, &'static str> { Err("none") }
}
fn de(a: &[f64], b: &[f64]) -> f64 { let d = unsafe { dq(a[0] + b[0], a[1] + b[1], a[0] * b[0], a[1] * b[1], a[0] * b[1] + b[0] * a[1]) }; assume(d >= 0.); d }
/// a segment about which nothing is known but its ends and that its length is not negative
#[derive(Debug, Clone)]
pub struct Seg { k: f64, a: V, b: V, n: usize }
fn len(k: f64) -> f64 { let l = unsafe { ln(k) }; assume(l >= 0.); l }
fn at(k: f64, s: f64) -> W { unsafe { [px(k, s), py(k, s)] } }
impl ParameterizedCurve for Seg {
    fn coord_dim(&self) -> usize { self.n }
    fn start(&self) -> &[f64] { &self.a[0..self.n] }
    fn end(&self) -> &[f64] { &self.b[0..self.n] }
    fn length(&self, _crs: &dyn Crs) -> Length { len(self.k) * M }
    fn param(&self, _crs: &dyn Crs, s: Length) -> Box<[f64]> { Box::new(at(self.k, s.m())) }
    fn as_line_string(&self, _crs: &dyn Crs, _d: Option<Length>, _o: Option<Length>) -> LineString { panic!() }
}
impl CurveSegment for Seg {
    fn interpolation(&self) -> CurveInterpolation { CurveInterpolation::Linear }
    fn curve_boundary(&self) -> CurveBoundary { CurveBoundary { start: Point::new(self.start()), end: Point::new(self.end()) } }
}
fn sg(k: f64, a: W, b: W) -> Seg { Seg { k, a: [a[0], a[1], 0.], b: [b[0], b[1], 0.], n: 2 } }
fn w(p: &[f64]) -> W { [p[0], p[1]] }
fn v(p: &[f64]) -> V { [p[0], p[1], p[2]] }
fn two(a: W, b: W, c: W) -> Curve { CurveBuilder::with_seg(&C2, sg(1., a, b)).unwrap().append_segment(sg(2., b, c)).unwrap().build() }
fn num(a: W) { assume(a[0] == a[0] && a[1] == a[1]); }
fn gt(g: GeometryType) -> (u8, usize) { match g { GeometryType::Point(d) => (0, d), GeometryType::Curve(d) => (1, d), GeometryType::Surface(d) => (2, d), GeometryType::Solid => (3, 3) } }

pub fn ends__code(a: W, b: W, c: W) -> (W, W, f64, usize, (u8, usize)) { num(b); let l = two(a, b, c); (w(l.start()), w(l.end()), l.length(&C2).m(), l.coord_dim(), gt(l.geometry_type())) }
pub fn ends__spec(a: W, _b: W, c: W) -> (W, W, f64, usize, (u8, usize)) { (a, c, len(1.) + len(2.), 2, (1, 2)) }
pub fn ends1__code(a: W, b: W) -> (W, W, f64, usize, (u8, usize)) { let l = CurveBuilder::with_seg(&C2, sg(1., a, b)).unwrap().build(); (w(l.start()), w(l.end()), l.length(&C2).m(), l.coord_dim(), gt(l.geometry_type())) }
pub fn ends1__spec(a: W, b: W) -> (W, W, f64, usize, (u8, usize)) { (a, b, len(1.), 2, (1, 2)) }
// a copy is the same curve
pub fn copy__code(a: W, b: W, c: W) -> (W, W, f64, usize) { num(b); let l = two(a, b, c).clone(); (w(l.start()), w(l.end()), l.length(&C2).m(), l.coord_dim()) }
pub fn copy__spec(a: W, _b: W, c: W) -> (W, W, f64, usize) { (a, c, len(1.) + len(2.), 2) }
// segments must join and have the dimension of the reference system
pub fn joined__code(a: W, b: W, c: W, d: W) -> bool { num(a); num(b); num(c); num(d); CurveBuilder::with_seg(&C2, sg(1., a, b)).unwrap().append_segment(sg(2., c, d)).is_ok() }
pub fn joined__spec(_a: W, b: W, c: W, _d: W) -> bool { b[0] == c[0] && b[1] == c[1] }
fn num3(a: V) { assume(a[0] == a[0] && a[1] == a[1] && a[2] == a[2]); }
fn s3(k: f64, a: V, b: V) -> Seg { Seg { k, a, b, n: 3 } }
pub fn joined_up__code(a: V, b: V, c: V, d: V) -> bool { num3(a); num3(b); num3(c); num3(d); CurveBuilder::with_seg(&C3, s3(1., a, b)).unwrap().append_segment(s3(2., c, d)).is_ok() }
pub fn joined_up__spec(_a: V, b: V, c: V, _d: V) -> bool { b[0] == c[0] && b[1] == c[1] && b[2] == c[2] }
pub fn cycle_up__code(a: V, b: V, c: V) -> [bool; 2] { num3(a); num3(b); num3(c); let l = CurveBuilder::with_seg(&C3, s3(1., a, b)).unwrap().append_segment(s3(2., b, c)).unwrap().build(); [l.is_cycle(), l.boundary().is_none()] }
pub fn cycle_up__spec(a: V, _b: V, c: V) -> [bool; 2] { let r = a[0] == c[0] && a[1] == c[1] && a[2] == c[2]; [r, r] }
pub fn ends_up__code(a: V, b: V, c: V) -> (V, V, usize, (u8, usize)) { num3(b); let l = CurveBuilder::with_seg(&C3, s3(1., a, b)).unwrap().append_segment(s3(2., b, c)).unwrap().build(); (v(l.start()), v(l.end()), l.coord_dim(), gt(l.geometry_type())) }
pub fn ends_up__spec(a: V, _b: V, c: V) -> (V, V, usize, (u8, usize)) { (a, c, 3, (1, 3)) }
pub fn joined3__code(a: W, b: W, c: W, d: W, e: W) -> bool { num(a); num(b); num(c); num(d); num(e); CurveBuilder::with_seg(&C2, sg(1., a, b)).unwrap().append_segment(sg(2., b, c)).unwrap().append_segment(sg(3., d, e)).is_ok() }
pub fn joined3__spec(_a: W, _b: W, c: W, d: W, _e: W) -> bool { d[0] == c[0] && d[1] == c[1] }
pub fn dims__code(a: V, b: V, c: V) -> [bool; 2] {
    let x = Seg { k: 1., a, b, n: 3 };
    let y = Seg { k: 2., a: b, b: c, n: 3 };
    [CurveBuilder::with_seg(&C2, x).is_err(), CurveBuilder::with_seg(&C2, sg(1., w(&a), w(&b))).unwrap().append_segment(y).is_err()]
}
pub fn dims__spec(_a: V, _b: V, _c: V) -> [bool; 2] { [true, true] }
pub fn dims3__code(a: V, b: V, c: V) -> [bool; 3] {
    assume(b[0] == b[0] && b[1] == b[1] && b[2] == b[2]);
    let x = || CurveBuilder::with_seg(&C3, Seg { k: 1., a, b, n: 3 }).unwrap();
    [CurveBuilder::with_seg(&C3, sg(1., w(&a), w(&b))).is_err(), x().append_segment(sg(1., w(&b), w(&c))).is_err(), x().append_segment(Seg { k: 2., a: b, b: c, n: 3 }).is_err()]
}
pub fn dims3__spec(_a: V, _b: V, _c: V) -> [bool; 3] { [true, true, false] }
pub fn ends3__code(a: V, b: V) -> (V, V, f64, usize, (u8, usize)) { let l = CurveBuilder::with_seg(&C3, Seg { k: 1., a, b, n: 3 }).unwrap().build(); (v(l.start()), v(l.end()), l.length(&C3).m(), l.coord_dim(), gt(l.geometry_type())) }
pub fn ends3__spec(a: V, b: V) -> (V, V, f64, usize, (u8, usize)) { (a, b, len(1.), 3, (1, 3)) }
pub fn boundary3__code(a: V, b: V) -> Option<(V, V, (u8, usize))> {
    assume(a[0] == a[0] && a[1] == a[1] && a[2] == a[2] && b[0] == b[0] && b[1] == b[1] && b[2] == b[2]);
    let x = CurveBuilder::with_seg(&C3, Seg { k: 1., a, b, n: 3 }).unwrap().build().boundary()?;
    let y: &dyn Any = &*x;
    let z = y.downcast_ref::<CurveBoundary>()?;
    Some((v(&z.start), v(&z.end), gt(x.geometry_type())))
}
pub fn boundary3__spec(a: V, b: V) -> Option<(V, V, (u8, usize))> { if a == b { None } else { Some((a, b, (0, 3))) } }
// closed exactly when it ends where it starts; the boundary is the two ends
pub fn cycle__code(a: W, b: W, c: W) -> [bool; 3] { num(a); num(b); num(c); let l = two(a, b, c); [l.is_cycle(), l.boundary().is_none(), l.is_simple()] }
pub fn cycle__spec(a: W, _b: W, c: W) -> [bool; 3] { let r = a[0] == c[0] && a[1] == c[1]; [r, r, true] }
pub fn boundary__code(a: W, b: W, c: W) -> Option<(W, W, (u8, usize), bool, bool)> {
    num(a); num(b); num(c);
    let x = two(a, b, c).boundary()?;
    let y: &dyn Any = &*x;
    let z = y.downcast_ref::<CurveBoundary>()?;
    Some((w(&z.start), w(&z.end), gt(x.geometry_type()), x.is_cycle(), x.boundary().is_none()))
}
pub fn boundary__spec(a: W, _b: W, c: W) -> Option<(W, W, (u8, usize), bool, bool)> { if a[0] == c[0] && a[1] == c[1] { None } else { Some((a, c, (0, 2), true, true)) } }
// the position at a distance is that of the segment that contains it
pub fn param2__code(a: W, b: W, c: W, s: f64) -> W { num(b); w(&two(a, b, c).param(&C2, s * M)) }
pub fn param2__spec(_a: W, _b: W, _c: W, s: f64) -> W {
    let (l, k) = (len(1.), len(2.));
    if s < 0. || s > l + k { panic!() }
    if s <= l { at(1., s) } else { at(2., s - l) }
}
pub fn param3__code(a: W, b: W, c: W, d: W, s: f64) -> W { num(b); num(c); w(&CurveBuilder::with_seg(&C2, sg(1., a, b)).unwrap().append_segment(sg(2., b, c)).unwrap().append_segment(sg(3., c, d)).unwrap().build().param(&C2, s * M)) }
pub fn param3__spec(_a: W, _b: W, _c: W, _d: W, s: f64) -> W {
    let (l, k, j) = (len(1.), len(2.), len(3.));
    if s < 0. || s > l + k + j { panic!() }
    if s <= l { at(1., s) } else if s <= l + k { at(2., s - l) } else { at(3., s - (l + k)) }
}
// a curve of line strings
pub fn lines__code(a: W, b: W, c: W, d: W) -> (f64, W, W, bool) {
    num(a); num(b); num(c); num(d);
    let l = CurveBuilder::with_seg(&C2, LineStringBuilder::with_line(&C2, a, b).unwrap().line_to(c).unwrap().build()).unwrap().append_segment(LineStringBuilder::with_line(&C2, c, d).unwrap().line_to(a).unwrap().build()).unwrap().build();
    (l.length(&C2).m(), w(l.start()), w(l.end()), l.is_cycle())
}
pub fn lines__spec(a: W, b: W, c: W, d: W) -> (f64, W, W, bool) { (de(&a, &b) + de(&b, &c) + (de(&c, &d) + de(&d, &a)), a, a, true) }
// points
pub fn point2__code(a: W) -> (W, usize, (u8, usize), bool, bool, bool) { let p = Point::new(&a); (w(&p), p.len(), gt(p.geometry_type()), p.is_cycle(), p.boundary().is_none(), p.is_simple()) }
pub fn point2__spec(a: W) -> (W, usize, (u8, usize), bool, bool, bool) { (a, 2, (0, 2), true, true, true) }
pub fn point3__code(a: V) -> (V, usize, (u8, usize), bool, bool, bool) { let p = Point::new(&a); (v(&p), p.len(), gt(p.geometry_type()), p.is_cycle(), p.boundary().is_none(), p.is_simple()) }
pub fn point3__spec(a: V) -> (V, usize, (u8, usize), bool, bool, bool) { (a, 3, (0, 3), true, true, true) }
pub fn point1__code(a: f64) -> usize { Point::new(&[a]).len() }
pub fn point1__spec(_a: f64) -> usize { panic!() }
pub fn point4__code(a: V, b: f64) -> usize { Point::new(&[a[0], a[1], a[2], b]).len() }
pub fn point4__spec(_a: V, _b: f64) -> usize { panic!() }
pub fn point0__code() -> usize { Point::new(&[]).len() }
pub fn point0__spec() -> usize { panic!() }
pub fn point_mut__code(a: V, x: f64, y: f64) -> (V, W) { let mut p = Point::new(&a); p[1] = x; let mut q = Point::new(&w(&a)); let m: &mut [f64] = &mut q; m[0] = y; (v(&p), w(&q)) }
pub fn point_mut__spec(a: V, x: f64, y: f64) -> (V, W) { ([a[0], x, a[2]], [y, a[1]]) }
pub fn point_ref__code(a: V) -> V { let p = Point::new(&a); let r: &[f64] = p.as_ref(); v(r) }
pub fn point_ref__spec(a: V) -> V { a }
pub fn point_eq__code(a: V, b: V) -> [bool; 3] { let z = |p: &V| p[0] == p[0] && p[1] == p[1] && p[2] == p[2]; assume(z(&a)); assume(z(&b)); [Point::new(&a) == Point::new(&b), Point::new(&w(&a)) == Point::new(&w(&b)), Point::new(&w(&a)) == Point::new(&b)] }
pub fn point_eq__spec(a: V, b: V) -> [bool; 3] { let r = a[0] == b[0] && a[1] == b[1]; [r && a[2] == b[2], r, false] }
// curves of six segments
fn six(p: [W; 7]) -> Curve { let mut b = CurveBuilder::with_seg(&C2, sg(1., p[0], p[1])).unwrap(); let mut i = 1; while i < 6 { b = b.append_segment(sg((i + 1) as f64, p[i], p[i + 1])).unwrap(); i += 1; } b.build() }
fn nums(p: [W; 7]) { let mut i = 0; while i < 7 { num(p[i]); i += 1; } }
pub fn six_ends__code(p: [W; 7]) -> (W, W, f64, bool, bool) { nums(p); let c = six(p); (w(c.start()), w(c.end()), c.length(&C2).m(), c.is_cycle(), c.boundary().is_none()) }
pub fn six_ends__spec(p: [W; 7]) -> (W, W, f64, bool, bool) { let e = p[0][0] == p[6][0] && p[0][1] == p[6][1]; (p[0], p[6], len(1.) + len(2.) + len(3.) + len(4.) + len(5.) + len(6.), e, e) }
pub fn six_joined__code(p: [W; 7], q: W, r: W) -> bool { nums(p); num(q); num(r); let mut b = CurveBuilder::with_seg(&C2, sg(1., p[0], p[1])).unwrap(); let mut i = 1; while i < 6 { b = b.append_segment(sg((i + 1) as f64, p[i], p[i + 1])).unwrap(); i += 1; } b.append_segment(sg(7., q, r)).is_ok() }
pub fn six_joined__spec(p: [W; 7], q: W, _r: W) -> bool { p[6][0] == q[0] && p[6][1] == q[1] }
pub fn param5__code(p: [W; 7], s: f64) -> W { nums(p); let mut b = CurveBuilder::with_seg(&C2, sg(1., p[0], p[1])).unwrap(); let mut i = 1; while i < 5 { b = b.append_segment(sg((i + 1) as f64, p[i], p[i + 1])).unwrap(); i += 1; } w(&b.build().param(&C2, s * M)) }
pub fn param5__spec(_p: [W; 7], s: f64) -> W {
    let (a, b, c, d, e) = (len(1.), len(2.), len(3.), len(4.), len(5.));
    if s < 0. || s > a + b + c + d + e { panic!() }
    if s <= a { at(1., s) } else if s <= a + b { at(2., s - a) } else if s <= a + b + c { at(3., s - (a + b)) } else if s <= a + b + c + d { at(4., s - (a + b + c)) } else { at(5., s - (a + b + c + d)) }
}
