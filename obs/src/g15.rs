//! datum shifts between geocentric systems
use crate::assume;
use geokit::cs::cartesian::geocentric::XYZ;
use geokit::quantities::scale::PPM;
use geokit::transformations::xyz::{verif, RotationConvention, XYZIdentity, XYZTransformation};
use geokit::units::angle::RAD;
use geokit::units::length::M;
type V = [f64; 3];
fn xyz(c: V) -> XYZ { XYZ { x: c[0] * M, y: c[1] * M, z: c[2] * M } }
fn o(c: XYZ) -> V { [c.x.m(), c.y.m(), c.z.m()] }
fn tr(t: V) -> impl XYZTransformation { verif::translation(t[0] * M, t[1] * M, t[2] * M) }
fn he(conv: RotationConvention, r: V, t: V, p: f64) -> impl XYZTransformation { verif::helmert(conv, [r[0] * RAD, r[1] * RAD, r[2] * RAD], [t[0] * M, t[1] * M, t[2] * M], PPM(p)) }
const PV: RotationConvention = RotationConvention::PositionVector;
const CF: RotationConvention = RotationConvention::CoordinateFrame;
pub fn identity__code(c: V) -> [V; 2] { [o(XYZIdentity.to_ref(xyz(c))), o(XYZIdentity.from_ref(xyz(c)))] }
pub fn identity__spec(c: V) -> [V; 2] { [c, c] }
pub fn translation__code(t: V, c: V) -> [V; 2] { [o(tr(t).to_ref(xyz(c))), o(tr(t).from_ref(xyz(c)))] }
pub fn translation__spec(t: V, c: V) -> [V; 2] { [[c[0] + t[0], c[1] + t[1], c[2] + t[2]], [c[0] - t[0], c[1] - t[1], c[2] - t[2]]] }
pub fn translation_rt__code(t: V, c: V) -> [V; 2] { let k = tr(t); [o(k.from_ref(k.to_ref(xyz(c)))), o(k.to_ref(k.from_ref(xyz(c))))] }
pub fn translation_rt__spec(t: V, c: V) -> [V; 2] { [c, c] }
/// EPSG 9606 / 9607: small rotations; `g` is +1 for the position vector convention
fn bursa(r: V, t: V, p: f64, g: f64, c: V) -> V {
    let m = 1. + p * 1e-6;
    [m * (c[0] - g * r[2] * c[1] + g * r[1] * c[2]) + t[0], m * (g * r[2] * c[0] + c[1] - g * r[0] * c[2]) + t[1], m * (-g * r[1] * c[0] + g * r[0] * c[1] + c[2]) + t[2]]
}
fn neg(c: V) -> V { [-c[0], -c[1], -c[2]] }
pub fn pv_fwd__code(r: V, t: V, p: f64, c: V) -> V { o(he(PV, r, t, p).to_ref(xyz(c))) }
pub fn pv_fwd__spec(r: V, t: V, p: f64, c: V) -> V { bursa(r, t, p, 1., c) }
pub fn cf_fwd__code(r: V, t: V, p: f64, c: V) -> V { o(he(CF, r, t, p).to_ref(xyz(c))) }
pub fn cf_fwd__spec(r: V, t: V, p: f64, c: V) -> V { bursa(r, t, p, -1., c) }
pub fn pv_bwd__code(r: V, t: V, p: f64, c: V) -> V { o(he(PV, r, t, p).from_ref(xyz(c))) }
pub fn pv_bwd__spec(r: V, t: V, p: f64, c: V) -> V { bursa(neg(r), neg(t), -p, 1., c) }
pub fn cf_bwd__code(r: V, t: V, p: f64, c: V) -> V { o(he(CF, r, t, p).from_ref(xyz(c))) }
pub fn cf_bwd__spec(r: V, t: V, p: f64, c: V) -> V { bursa(neg(r), neg(t), -p, -1., c) }
pub fn conventions__code(r: V, t: V, p: f64, c: V) -> [V; 2] { [o(he(CF, r, t, p).to_ref(xyz(c))), o(he(CF, r, t, p).from_ref(xyz(c)))] }
pub fn conventions__spec(r: V, t: V, p: f64, c: V) -> [V; 2] { let k = he(PV, neg(r), t, p); [o(k.to_ref(xyz(c))), o(k.from_ref(xyz(c)))] }
pub fn default_conv__code(r: V, t: V, p: f64, c: V) -> V { o(he(RotationConvention::default(), r, t, p).to_ref(xyz(c))) }
pub fn default_conv__spec(r: V, t: V, p: f64, c: V) -> V { bursa(r, t, p, 1., c) }
pub fn pure_shift__code(t: V, c: V) -> [V; 2] { let k = he(PV, [0.; 3], t, 0.); [o(k.to_ref(xyz(c))), o(k.from_ref(xyz(c)))] }
pub fn pure_shift__spec(t: V, c: V) -> [V; 2] { let k = tr(t); [o(k.to_ref(xyz(c))), o(k.from_ref(xyz(c)))] }
pub fn ppm__code(p: f64) -> [f64; 2] { [PPM(p).factor(), PPM(p).inv_factor()] }
pub fn ppm__spec(p: f64) -> [f64; 2] { [1. + p / 1e6, 1. - p / 1e6] }
