"""Models of the standard library (and of the small part of nalgebra / smallvec / smol_str geokit uses).

Everything else, geokit's own code in particular, is analysed from its compiled body.
"""
import re
from . import terms as tm
from .terms import T, mk, fc, ic, bc, F, I, ite, bnot, band, bor, cmp, sym, TRUE, FALSE
from .interp import (Agg, EnumV, Ref, VecV, Str, IteV, IterV, Opq, UNINIT, UNIT, mite, freeze, norm, Unsupported, IndexUnknown, Diverged)

NI = NotImplemented
EXACT, RX, F64 = {}, [], {}

def model(*names):
    def d(f):
        for n in names: EXACT[n] = f
        return f
    return d
def rx(p):
    def d(f):
        RX.append((re.compile(p + r"\Z"), f))
        return f
    return d

_cache = {}
def call(ip, st, ci, defn, targs, vals):
    if ci["crate"] in ("geokit",): return NI
    p = ci["path"]
    if ci["crate"] == "obs":
        if "body" not in ci: return uf(ip, st, ci, vals)
        if p.endswith("::assume") or p == "assume":
            ip.assumed.append((vals[0], True)); return UNIT
        return NI
    f = _cache.get(p, 0)
    if f == 0:
        f = EXACT.get(p)
        if f is None:
            m = re.search(r"f64::<impl f64>::(\w+)$", p)
            if m and m.group(1) in F64: f = F64[m.group(1)]
        if f is None:
            for r, g in RX:
                if r.match(p): f = g; break
        _cache[p] = f
    if f is None: return NI
    # a gated receiver of an iterator/collection model is handled per alternative
    try:
        r = f(ip, st, ci, vals)
    except Gated as g:
        i = g.i
        return ip.split_call(st, vals[i], lambda s, x: ip.invoke(s, ci, defn, targs, vals[:i] + [x] + vals[i + 1:]))
    if r is not NI: ip.uses_models.add(p)
    return r

class Gated(Exception):
    def __init__(self, i): self.i = i
def ng(vals, i):
    if isinstance(vals[i], IteV): raise Gated(i)
    return vals[i]

def uf(ip, st, ci, vals):
    if ci["kind"] != "item": return NI
    rt = ip.ty(ip.p.fnret.get(ci["id"])) if getattr(ip.p, "fnret", None) else None
    name = ci["path"].split("::")[-1]
    ty = "b" if name.startswith("ufb_") else "i" if name.startswith("ufi_") else "f"
    return mk("uf", (name,) + tuple(freeze(deep(ip, st, v)) for v in vals), ty)
def deep(ip, st, v):
    return deep(ip, st, ip.load(st, v)) if isinstance(v, Ref) else v

# ---------------------------------------------------------------- helpers
def tid(ip, d): return ip.p.tdef.get(d)
def some(ip, v): return EnumV(tid(ip, "std::option::Option"), ic(1), {1: (v,)})
def none(ip): return EnumV(tid(ip, "std::option::Option"), ic(0), {0: ()})
def ok(ip, v): return EnumV(tid(ip, "std::result::Result"), ic(0), {0: (v,)})
def opt(ip, c, v): return mite(c, some(ip, v), none(ip))
def ordering(ip, lt, eq):
    t = tid(ip, "std::cmp::Ordering")
    e = lambda k: EnumV(t, ic(k), {k: ()})
    return mite(lt, e(0), mite(eq, e(1), e(2)))
def scal(ip, st, v):
    while isinstance(v, Ref): v = ip.load(st, v)
    if isinstance(v, Agg) and len(v.f) == 1 and isinstance(v.f[0], EnumV) and v.f[0].d.val is not None:
        # a SmolStr folded by the compiler: unwrap the representation of a static string
        c = v.f[0].v.get(v.f[0].d.val)
        if c and len(c) == 1 and isinstance(c[0], Str): return c[0]
    return v
def cint(v):
    if isinstance(v, int): return v
    if isinstance(v, T) and v.val is not None: return v.val
    raise IndexUnknown("length or index is not a known constant")

# ---------------------------------------------------------------- f64
def f1(name, op):
    def g(ip, st, ci, vals):
        x = scal(ip, st, ng(vals, 0))
        return F(op, x)
    F64[name] = g
for n in ("sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "exp", "ln", "sqrt", "cbrt", "abs", "floor", "ceil", "trunc", "round", "signum"):
    f1(n, n)
f1("round_ties_even", "rte"); f1("exp_m1", "expm1"); f1("ln_1p", "ln1p")
def fm(name):
    def d(f):
        def g(ip, st, ci, vals):
            for i in range(len(vals)): ng(vals, i)
            return f(*[scal(ip, st, v) for v in vals])
        F64[name] = g
        return f
    return d
fm("sin_cos")(lambda x: Agg(None, (F("sin", x), F("cos", x))))
fm("atan2")(lambda y, x: F("atan2", y, x))
fm("hypot")(lambda x, y: F("sqrt", F("add", F("mul", x, x), F("mul", y, y))))
fm("mul_add")(lambda a, b, c: F("add", F("mul", a, b), c))
fm("powf")(lambda a, b: powf(a, b))
fm("recip")(lambda x: F("div", fc(1.0), x))
fm("fract")(lambda x: F("sub", x, F("trunc", x)))
fm("to_degrees")(lambda x: F("mul", x, F("div", fc(180.0), fc(tm.math.pi))))
fm("to_radians")(lambda x: F("mul", x, F("div", fc(tm.math.pi), fc(180.0))))
NANMODE = [False]          # not-a-number analysis: max and min return the other operand, maximum and minimum NaN
def f_max(a, b): return num_first(a, b, ite(cmp("lt", a, b), b, a))
def f_min(a, b): return num_first(a, b, ite(cmp("lt", b, a), b, a))
def num_first(a, b, r): return ite(cmp("eq", a, a), ite(cmp("eq", b, b), r, a), b) if NANMODE[0] else r
def nan_first(a, b, r): return ite(cmp("eq", a, a), ite(cmp("eq", b, b), r, b), a) if NANMODE[0] else r
fm("max")(f_max)
fm("min")(f_min)
fm("maximum")(lambda a, b: nan_first(a, b, ite(cmp("lt", a, b), b, a)))
fm("minimum")(lambda a, b: nan_first(a, b, ite(cmp("lt", b, a), b, a)))
fm("copysign")(lambda a, b: F("copysign", a, b))
fm("is_nan")(lambda x: bnot(cmp("eq", x, x)))
fm("is_infinite")(lambda x: cmp("eq", F("abs", x), fc(float("inf"))))
fm("is_finite")(lambda x: cmp("lt", F("abs", x), fc(float("inf"))))
fm("is_sign_negative")(lambda x: mk("signbit", (x,), "b") if x.val is None else bc(tm.math.copysign(1, x.val) < 0))
fm("is_sign_positive")(lambda x: bnot(mk("signbit", (x,), "b")) if x.val is None else bc(tm.math.copysign(1, x.val) > 0))
fm("rem_euclid")(lambda x, y: (lambda r: ite(cmp("lt", r, fc(0.0)), F("add", r, F("abs", y)), r))(F("rem", x, y)))
fm("exp2")(lambda x: F("exp", F("mul", x, F("ln", fc(2.0)))))
fm("log")(lambda x, b: F("div", F("ln", x), F("ln", b)))
fm("log2")(lambda x: F("div", F("ln", x), F("ln", fc(2.0))))
fm("log10")(lambda x: F("div", F("ln", x), F("ln", fc(10.0))))
fm("to_bits")(lambda x: mk("fbits", (x,), "i"))
fm("midpoint")(lambda a, b: F("div", F("add", a, b), fc(2.0)))
fm("abs_sub")(lambda a, b: ite(cmp("le", a, b), fc(0.0), F("sub", a, b)))
def powi(x, n):
    if n < 0: return F("div", fc(1.0), powi(x, -n))
    if n == 0: return fc(1.0)
    r = None; b = x
    while n:
        if n & 1: r = b if r is None else F("mul", r, b)
        n >>= 1
        if n: b = F("mul", b, b)
    return r
def powf(a, b):
    if b.val is not None:
        if b.val == int(b.val) and abs(b.val) <= 64: return powi(a, int(b.val))
        if (2 * b.val) == int(2 * b.val) and abs(b.val) < 32:
            k = int(b.val - 0.5) if b.val > 0 else int(b.val + 0.5)
            s = F("sqrt", a)
            if b.val < 0: s = F("div", fc(1.0), s)
            return F("mul", powi(a, k), s) if k else s
        for k in (1, 2, 4, 5):
            if abs(b.val - k / 3.0) < 1e-15:
                return powi(F("cbrt", a), k)
    return F("powf", a, b)
def m_powi(ip, st, ci, vals):
    x, n = scal(ip, st, ng(vals, 0)), ng(vals, 1)
    if n.val is None: return mk("powi", (x, n), "f")
    return powi(x, n.val)
F64["powi"] = m_powi
def m_clamp(ip, st, ci, vals):
    x, lo, hi = [scal(ip, st, ng(vals, i)) for i in range(3)]
    ip.require(st, cmp("le", lo, hi), "assert:clamp bounds")
    return ite(cmp("lt", x, lo), lo, ite(cmp("lt", hi, x), hi, x))
F64["clamp"] = m_clamp
def m_totalcmp(ip, st, ci, vals):
    a, b = scal(ip, st, vals[0]), scal(ip, st, vals[1])
    return ordering(ip, cmp("lt", a, b), cmp("eq", a, b))
F64["total_cmp"] = m_totalcmp

@rx(r"std::intrinsics::(\w+)")
def intr(ip, st, ci, vals):
    n = ci["path"].split("::")[-1]
    m = {"trunc": "trunc", "floor": "floor", "ceil": "ceil", "round": "round", "sqrt": "sqrt", "round_ties_even": "rte", "sin": "sin", "cos": "cos", "exp": "exp", "log": "ln", "fabsf64": "abs", "fabs": "abs", "sqrtf64": "sqrt", "floorf64": "floor", "truncf64": "trunc", "ceilf64": "ceil", "roundf64": "round", "round_ties_even_f64": "rte",
         "sinf64": "sin", "cosf64": "cos", "expf64": "exp", "logf64": "ln"}
    if n in m: return F(m[n], vals[0])
    if n in ("copysignf64",): return F("copysign", *vals)
    if n in ("fmaf64", "fmuladdf64"): return F("add", F("mul", vals[0], vals[1]), vals[2])
    if n in ("powf64",): return powf(*vals)
    if n in ("powif64",): return m_powi(ip, st, ci, vals)
    if n in ("maxnumf64", "maximum_number_nsz_f64"): return f_max(*vals)
    if n in ("minnumf64", "minimum_number_nsz_f64"): return f_min(*vals)
    if n in ("assert_inhabited", "assert_zero_valid", "cold_path", "assume"): return UNIT
    if n in ("likely", "unlikely", "black_box"): return vals[0]
    if n in ("ub_checks", "overflow_checks", "is_val_statically_known"): return FALSE
    if n == "transmute": return vals[0]
    if n in ("three_way_compare",):
        return ordering(ip, cmp("lt", vals[0], vals[1]), cmp("eq", vals[0], vals[1]))
    return NI

OPS = {"add": "add", "sub": "sub", "mul": "mul", "div": "div", "rem": "rem"}
@rx(r"<&?(?:'a )?f64 as std::ops::(Add|Sub|Mul|Div|Rem)(<&?(?:'a )?f64>)?>::(\w+)")
def f_op(ip, st, ci, vals):
    ng(vals, 0); ng(vals, 1)
    return F(OPS[ci["path"].split("::")[-1]], scal(ip, st, vals[0]), scal(ip, st, vals[1]))
@rx(r"<f64 as std::ops::(Add|Sub|Mul|Div|Rem)Assign(<&f64>)?>::(\w+)")
def f_opassign(ip, st, ci, vals):
    o = OPS[ci["path"].split("::")[-1].replace("_assign", "")]
    ip.store(st, vals[0], F(o, ip.load(st, vals[0]), scal(ip, st, vals[1])))
    return UNIT
@rx(r"<&?(?:'a )?f64 as std::ops::Neg>::neg")
def f_neg(ip, st, ci, vals): return F("neg", scal(ip, st, vals[0]))
@model("<f64 as num::Zero>::zero", "<f64 as num::traits::Zero>::zero")
def f_zero(ip, st, ci, vals): return fc(0.0)
@model("<f64 as num::One>::one", "<f64 as num::traits::One>::one")
def f_one(ip, st, ci, vals): return fc(1.0)
@rx(r"<&?(?:'a )?(\w+) as std::ops::(Add|Sub|Mul)(<&?(?:'a )?\w+>)?>::(add|sub|mul)")
def i_op(ip, st, ci, vals):
    a, b = scal(ip, st, vals[0]), scal(ip, st, vals[1])
    if not (isinstance(a, T) and a.ty == "i"): return NI
    return I("i" + ci["path"].split("::")[-1], a, b)
@rx(r"std::cmp::impls::<impl std::cmp::PartialEq for (f64|bool|char|[iu]\w+)>::(eq|ne)")
def p_eq(ip, st, ci, vals):
    ng(vals, 0); ng(vals, 1)
    return cmp(ci["path"].split("::")[-1], scal(ip, st, vals[0]), scal(ip, st, vals[1]))
@rx(r"std::cmp::impls::<impl std::cmp::PartialOrd for (f64|bool|char|[iu]\w+)>::(lt|le|gt|ge|__chaining_\w+|partial_cmp)")
def p_ord(ip, st, ci, vals):
    ng(vals, 0); ng(vals, 1)
    n = ci["path"].split("::")[-1]
    a, b = scal(ip, st, vals[0]), scal(ip, st, vals[1])
    if n == "partial_cmp":
        o = ordering(ip, cmp("lt", a, b), cmp("eq", a, b))
        if a.ty != "f": return some(ip, o)
        c = bor(cmp("lt", a, b), bor(cmp("eq", a, b), cmp("lt", b, a)))
        if a.val is not None and b.val is not None: return some(ip, o)
        return opt(ip, mk("ordered", (a, b), "b"), o)
    if n.startswith("__chaining"): return NI
    return cmp(n, a, b)
@rx(r"std::cmp::impls::<impl std::cmp::Ord for (bool|char|[iu]\w+)>::(cmp|min|max|clamp)")
def p_ordt(ip, st, ci, vals):
    n = ci["path"].split("::")[-1]
    a, b = scal(ip, st, vals[0]), scal(ip, st, vals[1])
    if n == "cmp": return ordering(ip, cmp("lt", a, b), cmp("eq", a, b))
    if n == "max": return ite(cmp("lt", a, b), b, a)
    if n == "min": return ite(cmp("lt", b, a), b, a)
    return NI
@rx(r"std::num::<impl [iu]\w+>::(\w+)")
def i_num(ip, st, ci, vals):
    n = ci["path"].split("::")[-1]
    m = {"wrapping_add": "iadd", "wrapping_sub": "isub", "wrapping_mul": "imul", "unchecked_add": "iadd", "unchecked_sub": "isub"}
    if n in m: return I(m[n], vals[0], vals[1])
    if n == "rem_euclid" and vals[0].val is not None and vals[1].val: return ic(vals[0].val % abs(vals[1].val))
    if n == "div_euclid" and vals[0].val is not None and vals[1].val and vals[1].val > 0: return ic(vals[0].val // vals[1].val)
    if n == "is_multiple_of" and all(v.val is not None for v in vals) and vals[1].val: return bc(vals[0].val % vals[1].val == 0)
    return NI

# ---------------------------------------------------------------- clone / identity-like
@rx(r"std::clone::impls::<impl std::clone::Clone for .*>::clone")
def cl_prim(ip, st, ci, vals): return ip.load(st, ng(vals, 0))
@rx(r"std::array::<impl std::clone::Clone for \[T; N\]>::clone|<std::vec::Vec<T, A> as std::clone::Clone>::clone|<smallvec::SmallVec<A> as std::clone::Clone>::clone|<(smol_str::SmolStr|std::string::String) as std::clone::Clone>::clone")
def cl_val(ip, st, ci, vals): return ip.load(st, ng(vals, 0))
@rx(r"<std::boxed::Box<.*> as std::clone::Clone>::clone")
def cl_box(ip, st, ci, vals):
    b = ip.load(st, ng(vals, 0))
    if isinstance(b, Ref) and b.vt is None and b.win is None: return ip.alloc(st, ip.load(st, b))
    if isinstance(b, Ref) and b.win is not None:
        v = ip.load(st, b); r = ip.alloc(st, v); return Ref(r.obj, (), (0, len(v.e)))
    return NI
@model("dyn_clone::clone_box", "dyn_clone::clone")
def dynclone(ip, st, ci, vals):
    r = ng(vals, 0)
    while isinstance(r, Ref) and r.vt is None: r = ip.load(st, r)
    if not isinstance(r, Ref): return NI
    c = ip.alloc(st, ip.load(st, Ref(r.obj, r.path)))
    return Ref(c.obj, (), None, r.vt)

# ---------------------------------------------------------------- mem, box
@model("std::mem::drop", "std::mem::forget")
def m_drop(ip, st, ci, vals): return UNIT
@model("std::mem::swap")
def m_swap(ip, st, ci, vals):
    a, b = ip.load(st, vals[0]), ip.load(st, vals[1])
    ip.store(st, vals[0], b); ip.store(st, vals[1], a); return UNIT
@model("std::mem::replace")
def m_replace(ip, st, ci, vals):
    a = ip.load(st, vals[0]); ip.store(st, vals[0], vals[1]); return a
@model("std::boxed::Box::new", "std::rc::Rc::new", "std::sync::Arc::new")
def b_new(ip, st, ci, vals): return ip.alloc(st, vals[0])
@model("std::boxed::Box::new_uninit")
def b_newu(ip, st, ci, vals): return ip.alloc(st, UNINIT)
@rx(r"<std::boxed::Box<.*> as std::(ops::Deref>::deref|ops::DerefMut>::deref_mut|convert::AsRef<T>>::as_ref|convert::AsMut<T>>::as_mut|borrow::Borrow<T>>::borrow)")
def b_deref(ip, st, ci, vals): return ip.load(st, ng(vals, 0))
@model("std::boxed::box_assume_init_into_vec_unsafe", "std::slice::<impl [T]>::into_vec")
def b_vec(ip, st, ci, vals):
    v = ip.load(st, ng(vals, 0))
    n = next((int(a.split()[1]) for a in ci.get("args", ()) if isinstance(a, str) and a.startswith("const ") and a.split()[1].isdigit()), None)
    if isinstance(v, Agg) and v.f and v.f[0] is UNINIT and len(v.f) == 2 and n is not None:      # MaybeUninit: union { (), ManuallyDrop<[T; n]> }
        v = v.f[1]
        if isinstance(v, Agg) and len(v.f) == 1 and isinstance(v.f[0], Agg) and len(v.f[0].f) == n: return VecV(v.f[0].f)
        raise Unsupported("boxed array %r" % (v,))
    while True:
        if isinstance(v, VecV): return v
        if isinstance(v, Agg) and v.ty is None and not any(x is UNINIT for x in v.f): return VecV(v.f)
        if isinstance(v, Agg):
            c = [x for x in v.f if x is not UNINIT]
            if len(c) == 1: v = c[0]; continue
        raise Unsupported("boxed array %r" % (v,))

@rx(r".*dyn std::any::Any.*::(downcast_ref|downcast_mut|is)")
def any_down(ip, st, ci, vals):
    v = vals[0]
    while isinstance(v, Ref) and v.vt is None: v = ip.load(st, v)
    if isinstance(v, IteV): return ip.split_call(st, v, lambda s, x: any_down(ip, s, ci, [x]))
    a = [x for x in ci["args"] if isinstance(x, int)]
    if not isinstance(v, Ref) or len(a) != 1: raise Unsupported("downcast of %r" % (v,))
    same = v.vt[0] == a[0]
    if ci["path"].endswith("is"): return bc(same)
    return some(ip, Ref(v.obj, v.path, v.win)) if same else none(ip)

# ---------------------------------------------------------------- strings
SM = r"(?:smol_str::SmolStr|std::string::String|str)"
@model("smol_str::SmolStr::new", "smol_str::SmolStr::new_static", "smol_str::SmolStr::new_inline", "std::str::<impl str>::to_string", "std::str::<impl str>::to_owned", "std::string::String::from_str")
def s_new(ip, st, ci, vals): return scal(ip, st, ng(vals, 0))
@rx(r"<(&str|str|std::string::String|smol_str::SmolStr) as std::(string::ToString>::to_string|borrow::ToOwned>::to_owned|convert::Into<.*>>::into|convert::From<.*>>::from)|std::str::<impl std::borrow::ToOwned for str>::to_owned|<str as std::string::SpecToString>::spec_to_string")
def s_new2(ip, st, ci, vals): return scal(ip, st, ng(vals, 0))
@model("smol_str::SmolStr::as_str", "std::string::String::as_str", "<smol_str::SmolStr as std::ops::Deref>::deref", "<std::string::String as std::ops::Deref>::deref", "<smol_str::SmolStr as std::convert::AsRef<str>>::as_ref",
       "<std::string::String as std::convert::AsRef<str>>::as_ref", "std::string::String::as_mut_str")
def s_id(ip, st, ci, vals):
    return scal(ip, st, ng(vals, 0))
def str_eq(ip, st, a, b):
    a, b = scal(ip, st, a), scal(ip, st, b)
    if isinstance(a, IteV): return ite(a.c, str_eq(ip, st, a.a, b), str_eq(ip, st, a.b, b))
    if isinstance(b, IteV): return ite(b.c, str_eq(ip, st, a, b.a), str_eq(ip, st, a, b.b))
    if isinstance(a, Str) and isinstance(b, Str): return bc(a.s == b.s)
    ta = mk("strc", (a.s,), "o") if isinstance(a, Str) else a.t if isinstance(a, Opq) else None
    tb = mk("strc", (b.s,), "o") if isinstance(b, Str) else b.t if isinstance(b, Opq) else None
    if ta is None or tb is None: raise Unsupported("string comparison %r %r" % (a, b))
    if ta is tb: return TRUE
    if ta.id > tb.id: ta, tb = tb, ta
    return mk("eq", (ta, tb), "b")
@rx(r"<" + SM + r" as std::cmp::PartialEq(<.*>)?>::(eq|ne)|std::str::traits::<impl std::cmp::PartialEq for str>::(eq|ne)")
def s_eq(ip, st, ci, vals):
    r = str_eq(ip, st, vals[0], vals[1])
    return r if ci["path"].endswith("eq") else bnot(r)
@model("std::str::<impl str>::len", "std::string::String::len", "smol_str::SmolStr::len")
def s_len(ip, st, ci, vals):
    a = scal(ip, st, vals[0])
    if isinstance(a, Str): return ic(len(a.s.encode()))
    if isinstance(a, Opq): return mk("strlen", (a.t,), "i")
    return NI
@model("std::str::<impl str>::is_empty", "std::string::String::is_empty", "smol_str::SmolStr::is_empty")
def s_empty(ip, st, ci, vals):
    l = s_len(ip, st, ci, vals)
    return l if l is NI else cmp("eq", l, ic(0))
@rx(r"std::fmt::rt::Argument::(new_\w+|from_usize|none)")
def fmt_arg(ip, st, ci, vals):
    v = scal(ip, st, vals[0]) if vals else UNIT
    return Agg(None, (Str(ci["path"].split("::")[-1]), v, vals[0] if vals else UNIT, Str(str(ci["id"]))))
@rx(r"std::fmt::Arguments::(new|new_v1|new_const|from_str|from_str_nonconst|new_v1_formatted)")
def fmt_args(ip, st, ci, vals):
    out = []
    for v in vals:
        v = scal(ip, st, v)
        if isinstance(v, (Agg, VecV)): v = Agg(None, [scal(ip, st, x) for x in ip.elems(v)])
        out.append(v)
    return Agg(None, out)
FOUT, FOPT = ("h", "out"), ("h", "fopt")
def emit(ip, st, what):
    cur = st.mem.get(FOUT)
    if cur is None: cur = VecV(())
    if isinstance(cur, IteV): raise IndexUnknown("gated output")
    if isinstance(what, Str) and cur.e and isinstance(cur.e[-1], Str): st.mem[FOUT] = VecV(cur.e[:-1] + (Str(cur.e[-1].s + what.s),))
    elif not (isinstance(what, Str) and not what.s): st.mem[FOUT] = VecV(cur.e + (what,))
    return EnumV(tid(ip, "std::result::Result"), ic(0), {0: (UNIT,)})
def fmt_template(ip, a):
    """fmt::Arguments -> list of literal text or (options, argument)"""
    vs = [x for x in a.f]
    if len(vs) == 1 and isinstance(vs[0], Str): return [vs[0].s]
    if len(vs) != 2 or isinstance(vs[0], Str): raise Unsupported("format arguments")
    t, args = bytes(cint(x) for x in ip.elems(vs[0])), ip.elems(vs[1])
    out, i, nxt = [], 0, 0
    le = lambda k, n: int.from_bytes(t[k:k + n], "little")
    while t[i] != 0:
        n = t[i]; i += 1
        if n < 0x80: out.append(t[i:i + n].decode()); i += n
        elif n == 0x80: l = le(i, 2); out.append(t[i + 2:i + 2 + l].decode()); i += 2 + l
        else:
            if n & 0x30: raise Unsupported("width or precision taken from an argument")
            o = []
            for bit, w in ((1, 4), (2, 2), (4, 2)):
                if n & bit: o.append(str(le(i, w))); i += w
                else: o.append("")
            if n & 8: nxt = le(i, 2); i += 2
            out.append((":".join(o) if any(o) else "", args[nxt])); nxt += 1
    return out
def fmt_inst(ip, ci):
    """instance of <T as Trait>::fmt named in the body of Argument::new_trait::<T>"""
    for b in ci.get("body", {}).get("blocks", ()):
        for s in b["s"]:
            if s[0] == "=" and s[2][0] == "cast" and "Reify" in str(s[2][1]):
                t = ip.ty(s[2][2][1])
                if t["k"] == "fndef" and t.get("inst") is not None: return ip.p.insts[t["inst"]]
    return None
def fmt_write(ip, st, a, f):
    for x in fmt_template(ip, a):
        if isinstance(x, str): emit(ip, st, Str(x)); continue
        o, arg = x
        if isinstance(arg, IteV): raise IndexUnknown("gated argument")
        ci = ip.p.insts[int(arg.f[3].s)]
        fi = fmt_inst(ip, ci)
        if fi is None: raise Unsupported("formatting of " + ci["name"])
        old = st.mem.get(FOPT)
        st.mem[FOPT] = Str(o)
        ip.invoke(st, fi, fi["name"], (), [arg.f[2], f])
        if old is None: st.mem.pop(FOPT, None)
        else: st.mem[FOPT] = old
    return EnumV(tid(ip, "std::result::Result"), ic(0), {0: (UNIT,)})
@rx(r"(std::fmt::format|std::fmt::format::format_inner|smol_str::format_smolstr|std::hint::must_use)")
def fmt_fmt(ip, st, ci, vals):
    if "must_use" in ci["path"]: return vals[0]
    a = scal(ip, st, vals[0])
    if isinstance(a, Agg):
        old = st.mem.get(FOUT)
        st.mem[FOUT] = VecV(())
        try:
            fmt_write(ip, st, a, Ref(FOUT))
            r = st.mem[FOUT]
            return r.e[0] if len(r.e) == 1 and isinstance(r.e[0], Str) else Str("") if not r.e else r
        except Unsupported: pass
        finally:
            if old is None: st.mem.pop(FOUT, None)
            else: st.mem[FOUT] = old
    return Opq(mk("fmt", (freeze(a),), "o"))
@rx(r"std::fmt::Formatter::(write_fmt|write_str|pad|write_char)|std::io::_e?print|<(std::string::String|std::fmt::Formatter) as std::fmt::Write>::write_\w+|std::fmt::Write::write_\w+")
def fmt_out(ip, st, ci, vals):
    n = ci["path"].split("::")[-1]
    if "_print" in n: return UNIT          # text on the terminal: no result depends on it
    v = scal(ip, st, vals[1])
    if n == "write_fmt" and isinstance(v, Agg): return fmt_write(ip, st, v, vals[0])
    o = st.mem.get(FOPT)
    if n == "pad" and o is not None and (not isinstance(o, Str) or o.s): return emit(ip, st, Agg(None, (Str("pad"), o, v)))
    if n == "write_char" and isinstance(v, T) and v.val is not None: v = Str(chr(v.val))
    return emit(ip, st, v)
@rx(r"std::fmt::float::<impl std::fmt::\w+ for f64>::fmt|<(std::string::String|str|smol_str::SmolStr) as std::fmt::\w+>::fmt|std::fmt::num::(imp::)?<impl std::fmt::\w+ for \w+>::fmt|std::fmt::<impl std::fmt::\w+ for \w+>::fmt")
def fmt_prim(ip, st, ci, vals):
    v = scal(ip, st, vals[0])
    o = st.mem.get(FOPT)
    if o is None: o = Str("")
    tr = re.findall(r"std::fmt::(\w+)", ci["path"])[-1]
    if isinstance(v, Str) and isinstance(o, Str) and not o.s and tr == "Display": return emit(ip, st, v)
    return emit(ip, st, Agg(None, (Str(tr), o, v)))

# ---------------------------------------------------------------- slices / vecs
def slice_ref(ip, st, r):
    """reference to something sliceable -> (obj, path, start, n)"""
    while True:
        if isinstance(r, IteV): raise Gated(0)
        if isinstance(r, Ref) and r.win is not None: return r.obj, r.path, r.win[0], r.win[1]
        if isinstance(r, Ref):
            v = ip.load(st, r)
            if isinstance(v, IteV): raise IndexUnknown("gated collection")
            if isinstance(v, (VecV,)) or (isinstance(v, Agg)): return r.obj, r.path, 0, len(ip.elems(v))
            r = v; continue
        if isinstance(r, (VecV, Agg)):
            r = ip.alloc(st, r); continue
        raise Unsupported("slice of %s" % type(r).__name__)
def elem_ref(sl, i): return Ref(sl[0], sl[1] + (("i", i if isinstance(i, T) else sl[2] + i),))
def erefs(sl): return [elem_ref(sl, i) for i in range(sl[3])]
def win(sl, a, n): return Ref(sl[0], sl[1], (sl[2] + a, n))

@rx(r"<std::vec::Vec<T, A> as std::(ops::Deref>::deref|ops::DerefMut>::deref_mut|convert::AsRef<\[T\]>>::as_ref|borrow::Borrow<\[T\]>>::borrow|convert::AsMut<\[T\]>>::as_mut)|std::vec::Vec::(as_slice|as_mut_slice)|<smallvec::SmallVec<A> as std::(ops::Deref>::deref|ops::DerefMut>::deref_mut|convert::AsRef<\[.*\]>>::as_ref|borrow::Borrow<\[.*\]>>::borrow)|smallvec::SmallVec::(as_slice|as_mut_slice)|std::array::<impl \[T; N\]>::(as_slice|as_mut_slice)|std::array::<impl std::(convert::AsRef|borrow::Borrow)<\[T\]> for \[T; N\]>::(as_ref|borrow)|std::vec::Vec::leak")
def v_slice(ip, st, ci, vals):
    ng(vals, 0)
    return win(slice_ref(ip, st, vals[0]), 0, slice_ref(ip, st, vals[0])[3])
@rx(r"(std::vec::Vec|smallvec::SmallVec)::(new|with_capacity|new_const)|<(std::vec::Vec<T>|smallvec::SmallVec<A>) as std::default::Default>::default|std::vec::Vec::new_in|std::vec::Vec::with_capacity_in")
def v_new(ip, st, ci, vals): return VecV(())
@model("smallvec::SmallVec::inline_size")
def sv_inl(ip, st, ci, vals):
    return ic(1 << 20)  # contents do not depend on where they are stored
@model("smallvec::SmallVec::from_vec", "smallvec::SmallVec::into_vec", "smallvec::SmallVec::from_buf", "<smallvec::SmallVec<A> as std::convert::From<std::vec::Vec<<A as smallvec::Array>::Item>>>::from")
def sv_from(ip, st, ci, vals):
    v = ng(vals, 0)
    return VecV(ip.elems(v))
@rx(r"smallvec::SmallVec::from_slice|<smallvec::SmallVec<A> as std::convert::From<&'a \[.*\]>>::from|std::slice::<impl \[T\]>::(to_vec|into_vec|to_vec_in)|<std::vec::Vec<T> as std::convert::From<(&\[T\]|\[T; N\]|&\[T; N\]|std::boxed::Box<\[T\]>)>>::from|std::slice::<impl std::borrow::ToOwned for \[T\]>::to_owned|<std::boxed::Box<\[T\]> as std::convert::From<.*>>::from")
def v_to(ip, st, ci, vals):
    v = ng(vals, 0)
    if isinstance(v, Ref):
        sl = slice_ref(ip, st, v)
        r = VecV([ip.load(st, x) for x in erefs(sl)])
    else: r = VecV(ip.elems(v))
    if "for Box" in ci["path"] or "<std::boxed::Box" in ci["path"]:
        q = ip.alloc(st, r); return Ref(q.obj, (), (0, len(r.e)))
    return r
@rx(r"(smallvec::SmallVec|std::vec)::(from_elem)|std::vec::from_elem")
def v_fromelem(ip, st, ci, vals): return VecV([vals[0]] * cint(vals[1]))
@model("std::vec::Vec::into_boxed_slice", "smallvec::SmallVec::into_boxed_slice")
def v_boxed(ip, st, ci, vals):
    v = ng(vals, 0)
    r = ip.alloc(st, v)
    return Ref(r.obj, (), (0, len(v.e)))
@rx(r"(std::vec::Vec|smallvec::SmallVec|std::slice::<impl \[T\]>)(::<impl .*>)?::(\w+)")
def v_method(ip, st, ci, vals):
    n = ci["path"].split("::")[-1]
    if not vals: return NI
    r = ng(vals, 0)
    if n in ("len", "is_empty", "push", "pop", "extend_from_slice", "clear", "truncate", "insert", "remove", "swap", "first", "last", "get", "iter", "iter_mut", "chunks_exact", "chunks", "windows",
             "clone_from_slice", "copy_from_slice", "first_mut", "last_mut", "get_mut", "reverse", "fill", "split_at", "split_first", "split_last", "get_unchecked", "reserve", "extend", "drain", "append",
             "reserve_exact", "shrink_to_fit", "capacity", "resize", "swap_remove", "contains", "concat", "rchunks", "get_unchecked_mut", "split_at_mut", "grow", "spilled", "starts_with", "chunks_mut", "chunks_exact_mut", "as_chunks", "extend_trusted", "repeat", "rotate_left", "rotate_right", "first_chunk", "last_chunk", "is_sorted", "array_windows", "split_off"):
        sl = slice_ref(ip, st, r)
        whole = Ref(sl[0], sl[1])
        L = sl[3]
        def cur(): return [ip.load(st, x) for x in erefs(sl)]
        def setv(e):
            ip.store(st, whole, VecV(e))
        if n == "len": return ic(L)
        if n == "is_empty": return bc(L == 0)
        if n == "push": setv(cur() + [vals[1]]); return UNIT
        if n == "pop":
            c = cur()
            if not c: return none(ip)
            setv(c[:-1]); return some(ip, c[-1])
        if n in ("extend_from_slice", "append"):
            o = slice_ref(ip, st, vals[1]); oe = [ip.load(st, x) for x in erefs(o)]
            setv(cur() + oe)
            if n == "append": ip.store(st, Ref(o[0], o[1]), VecV(()))
            return UNIT
        if n in ("reserve", "reserve_exact", "shrink_to_fit", "grow"): return UNIT
        if n == "clear": setv([]); return UNIT
        if n == "truncate":
            setv(cur()[:cint(vals[1])]); return UNIT
        if n == "resize":
            k = cint(vals[1]); c = cur(); setv(c[:k] + [vals[2]] * max(0, k - L)); return UNIT
        if n == "insert":
            k = cint(vals[1]); ip.require(st, bc(k <= L), "panic:insert index"); c = cur(); c.insert(k, vals[2]); setv(c); return UNIT
        if n in ("remove", "swap_remove"):
            k = cint(vals[1]); ip.require(st, bc(k < L), "panic:remove index"); c = cur(); x = c[k]
            if n == "remove": del c[k]
            else: c[k] = c[-1]; c.pop()
            setv(c); return x
        if n == "swap":
            a, b = elem_ref(sl, cint(vals[1])), elem_ref(sl, cint(vals[2]))
            ip.require(st, bc(cint(vals[1]) < L and cint(vals[2]) < L), "panic:swap index")
            x, y = ip.load(st, a), ip.load(st, b); ip.store(st, a, y); ip.store(st, b, x); return UNIT
        if n in ("first", "first_mut"): return some(ip, elem_ref(sl, 0)) if L else none(ip)
        if n in ("last", "last_mut"): return some(ip, elem_ref(sl, L - 1)) if L else none(ip)
        if n in ("split_first", "split_last"):
            if not L: return none(ip)
            k = 0 if n == "split_first" else L - 1
            return some(ip, Agg(None, (elem_ref(sl, k), win(sl, 1 if k == 0 and n == "split_first" else 0, L - 1))))
        if n in ("get", "get_mut", "get_unchecked", "get_unchecked_mut"):
            i = vals[1]
            if isinstance(i, Agg) or isinstance(i, EnumV):
                a, b = rng(ip, i, L)
                w = win(sl, a, b - a) if a <= b <= L else None
                return w if "unchecked" in n else (some(ip, w) if w else none(ip))
            if i.val is not None:
                if "unchecked" in n: return elem_ref(sl, i.val)
                return some(ip, elem_ref(sl, i.val)) if 0 <= i.val < L else none(ip)
            if L == 0: return none(ip)
            i2 = I("iadd", i, ic(sl[2])) if sl[2] else i
            return opt(ip, cmp("lt", i, ic(L)), Ref(sl[0], sl[1] + (("i", i2),)))
        if n in ("iter", "iter_mut"): return IterV("seq", erefs(sl))
        if n in ("chunks_exact", "chunks", "chunks_mut", "chunks_exact_mut"):
            k = cint(vals[1]); ip.require(st, bc(k > 0), "panic:chunk size")
            out = [win(sl, j, min(k, L - j)) for j in range(0, L, k)]
            if "exact" in n: out = [w for w in out if w.win[1] == k]
            return IterV("seq", out)
        if n == "windows":
            k = cint(vals[1]); ip.require(st, bc(k > 0), "panic:window size")
            return IterV("seq", [win(sl, j, k) for j in range(0, L - k + 1)])
        if n in ("clone_from_slice", "copy_from_slice"):
            o = slice_ref(ip, st, vals[1])
            ip.require(st, bc(o[3] == L), "panic:slice length mismatch")
            src = [ip.load(st, x) for x in erefs(o)]
            for d, v in zip(erefs(sl), src): ip.store(st, d, v)
            return UNIT
        if n == "reverse":
            c = cur()[::-1]
            for d, v in zip(erefs(sl), c): ip.store(st, d, v)
            return UNIT
        if n == "fill":
            for d in erefs(sl): ip.store(st, d, vals[1])
            return UNIT
        if n in ("split_at", "split_at_mut"):
            k = cint(vals[1]); ip.require(st, bc(k <= L), "panic:split index")
            return Agg(None, (win(sl, 0, k), win(sl, k, L - k)))
        if n == "drain":
            a, b = rng(ip, vals[1], L); c = cur(); setv(c[:a] + c[b:]); return IterV("seq", c[a:b])
        if n == "concat":
            out = []
            for x in cur():
                q = slice_ref(ip, st, x)
                out += [ip.load(st, y) for y in erefs(q)]
            return VecV(out)
        if n == "repeat": return VecV(cur() * cint(vals[1]))
        if n in ("rotate_left", "rotate_right"):
            k = cint(vals[1]); ip.require(st, bc(k <= L), "panic:rotation")
            c = cur(); k = k if n == "rotate_left" else L - k
            for x, y in zip(erefs(sl), c[k:] + c[:k]): ip.store(st, x, y)
            return UNIT
        if n == "rchunks":
            k = cint(vals[1]); ip.require(st, bc(k > 0), "panic:chunk size")
            return IterV("seq", [win(sl, max(0, e - k), e - max(0, e - k)) for e in range(L, 0, -k)])
        if n == "contains":
            x = scal(ip, st, vals[1]); c = [scal(ip, st, y) for y in cur()]
            if not isinstance(x, T) or not all(isinstance(y, T) and y.ty == x.ty for y in c): return NI
            r = bc(False)
            for y in c: r = bor(r, cmp("eq", y, x))
            return r
        if n == "split_off":
            k = cint(vals[1]); ip.require(st, bc(k <= L), "panic:split index")
            c = cur(); setv(c[:k]); return VecV(c[k:])
        return NI
    return NI

def rng(ip, i, L):
    """range value -> (start, end)"""
    d = norm(ip.tname(i.ty) or "") if i.ty is not None else ""
    if d.endswith("RangeFull"): return 0, L
    if d.endswith("RangeFrom"): return cint(i.f[0]), L
    if d.endswith("RangeToInclusive"): return 0, cint(i.f[0]) + 1
    if d.endswith("RangeTo"): return 0, cint(i.f[0])
    if d.endswith("RangeInclusive"): return cint(i.f[0]), cint(i.f[1]) + 1
    if d.endswith("Range"): return cint(i.f[0]), cint(i.f[1])
    raise Unsupported("range value " + d)
@rx(r"(<std::vec::Vec<T, A> as std::ops::Index(Mut)?<I>>|<smallvec::SmallVec<A> as std::ops::Index(Mut)?<I>>|std::array::<impl std::ops::Index(Mut)?<I> for \[T; N\]>|std::slice::index::<impl std::ops::Index(Mut)?<I> for \[T\]>)::index(_mut)?")
def v_index(ip, st, ci, vals):
    sl = slice_ref(ip, st, ng(vals, 0))
    i = ng(vals, 1); L = sl[3]
    if isinstance(i, T):
        ip.require(st, cmp("lt", i, ic(L)), "assert:BoundsCheck")
        return elem_ref(sl, i.val if i.val is not None else I("iadd", i, ic(sl[2])) if sl[2] else i)
    a, b = rng(ip, i, L)
    ip.require(st, bc(a <= b <= L), "panic:slice range")
    return win(sl, a, b - a)
@rx(r"std::array::<impl \[T; N\]>::map")
def a_map(ip, st, ci, vals):
    f = ip.alloc(st, vals[1])
    return Agg(None, [ip.call_closure(st, f, [x]) for x in ip.elems(ng(vals, 0))])
@rx(r"std::array::from_fn")
def a_fromfn(ip, st, ci, vals):
    n = None
    for a in ci["args"]:
        if isinstance(a, dict) and "n" in a: n = a["n"]
    m = re.search(r"from_fn::<.*?, (\d+)(_usize)?, ", ci["name"])
    if m: n = int(m.group(1))
    if n is None: return NI
    f = ip.alloc(st, vals[0])
    return Agg(None, [ip.call_closure(st, f, [ic(i)]) for i in range(n)])
@rx(r"<\[T; N\] as std::convert::TryFrom<std::vec::Vec<T(, A)?>>>::try_from|std::vec::<impl std::convert::TryFrom<std::vec::Vec<T(, A)?>> for \[T; N\]>::try_from|std::array::<impl std::convert::TryFrom<std::vec::Vec<T(, A)?>> for \[T; N\]>::try_from")
def a_fromvec(ip, st, ci, vals):
    m = re.search(r"\[.*?; (\d+)\]", ci["name"]); v = ng(vals, 0)
    if not m or not isinstance(v, VecV) or len(v.e) != int(m.group(1)): return NI
    return ok(ip, Agg(None, v.e))
@rx(r"<\[T; N\] as std::convert::TryFrom<&'?a? ?\[T\]>>::try_from|std::array::<impl std::convert::TryFrom<&'?a? ?(mut )?\[T\]> for (&'a )?\[T; N\]>::try_from")
def a_tryfrom(ip, st, ci, vals):
    m = re.search(r"\[.*; (\d+)\]", ci["name"])
    if not m: return NI
    sl = slice_ref(ip, st, ng(vals, 0))
    if sl[3] != int(m.group(1)): return NI
    return ok(ip, Agg(None, [ip.load(st, x) for x in erefs(sl)]))
def user_eq(ip, st, ci, x, y):
    """equality of two elements through the element type's own implementation"""
    v = ip.load(st, x)
    if not isinstance(v, (Agg, EnumV)) or v.ty is None: return None
    n = ip.ty(v.ty).get("name") or ip.tname(v.ty) or ""
    for k in ("<%s as std::cmp::PartialEq>::eq" % n, "<%s as core::cmp::PartialEq>::eq" % n):
        i = ip.p.by_name.get(k)
        if i is not None and "body" in i: return ip.invoke(st, i, i["def"], i["args"], [x, y])
    return None
def deep_eq(ip, st, a, b):
    a, b = scal(ip, st, a), scal(ip, st, b)
    if isinstance(a, T) and isinstance(b, T): return cmp("eq", a, b)
    if isinstance(a, (Str, Opq)): return str_eq(ip, st, a, b)
    return None
@rx(r"(std::vec::partial_eq::<impl std::cmp::PartialEq<.*> for .*>|std::array::equality::<impl std::cmp::PartialEq<.*> for .*>|std::slice::cmp::<impl std::cmp::PartialEq<.*> for .*>|<smallvec::SmallVec<A> as std::cmp::PartialEq<.*>>)::(eq|ne)")
def v_eq(ip, st, ci, vals):
    a, b = slice_ref(ip, st, ng(vals, 0)), slice_ref(ip, st, ng(vals, 1))
    if a[3] != b[3]: r = FALSE
    else:
        r = TRUE
        for x, y in zip(erefs(a), erefs(b)):
            c = deep_eq(ip, st, x, y)
            if c is None: c = user_eq(ip, st, ci, x, y)
            if c is None: raise Unsupported("element comparison")
            r = band(r, c)
    return r if ci["path"].endswith("eq") else bnot(r)

# ---------------------------------------------------------------- iterators
def as_iter(ip, st, v):
    if isinstance(v, IterV): return v
    if isinstance(v, VecV): return IterV("seq", v.e)
    if isinstance(v, Agg) and v.ty is not None:
        d = norm(ip.tname(v.ty) or "")
        if d.endswith("ops::Range"): return IterV("seq", [ic(k) for k in range(cint(v.f[0]), cint(v.f[1]))])
        if d.endswith("ops::RangeInclusive"): return IterV("seq", [ic(k) for k in range(cint(v.f[0]), cint(v.f[1]) + 1)])
        if d.endswith("ops::RangeFrom"): return IterV("from", (v.f[0],))
        if d.endswith("option::Option"): pass
    if isinstance(v, EnumV):
        if v.d.val == 0: return IterV("seq", ())
        if v.d.val == 1: return IterV("seq", (v.v[1][0],))
    if isinstance(v, Agg) and v.ty is None: return IterV("seq", v.f)
    if isinstance(v, Ref): return IterV("byref", (v,))
    raise Unsupported("iterator %r" % (type(v).__name__,))
END = object()
def nxt(ip, st, it, back=False):
    """-> (item | END, remaining iterator)"""
    if isinstance(it, IteV): raise IndexUnknown("gated iterator")
    k, p = it.kind, it.items
    if k == "seq":
        if not p: return END, it
        return (p[-1], IterV("seq", p[:-1])) if back else (p[0], IterV("seq", p[1:]))
    if k == "from": return p[0], IterV("from", (I("iadd", p[0], ic(1)),))
    if k == "byref":
        inner = as_iter(ip, st, ip.load(st, p[0]))
        x, r = nxt(ip, st, inner, back); ip.store(st, p[0], r); return x, it
    if k == "map":
        x, r = nxt(ip, st, p[0], back)
        return (END, IterV(k, (r, p[1]))) if x is END else (ip.call_closure(st, p[1], [x]), IterV(k, (r, p[1])))
    if k == "inspect":
        x, r = nxt(ip, st, p[0], back)
        if x is not END: ip.call_closure(st, p[1], [ip.alloc(st, x)])
        return x, IterV(k, (r, p[1]))
    if k == "cloned":
        x, r = nxt(ip, st, p[0], back)
        return (END if x is END else ip.load(st, x)), IterV(k, (r,))
    if k == "rev":
        x, r = nxt(ip, st, p[0], not back); return x, IterV(k, (r,))
    if k == "enum":
        if back:
            n = ilen(ip, st, p[0]); x, r = nxt(ip, st, p[0], True)
            return (END, it) if x is END else (Agg(None, (ic(p[1] + n - 1), x)), IterV(k, (r, p[1])))
        x, r = nxt(ip, st, p[0])
        return (END, it) if x is END else (Agg(None, (ic(p[1]), x)), IterV(k, (r, p[1] + 1)))
    if k == "zip":
        if back:
            a, b = list(drain(ip, st, p[0])), list(drain(ip, st, p[1])); n = min(len(a), len(b))
            return nxt(ip, st, IterV("seq", [Agg(None, z) for z in zip(a[:n], b[:n])]), True)
        x, r = nxt(ip, st, p[0])
        if x is END: return END, it
        y, q = nxt(ip, st, p[1])
        if y is END: return END, it
        return Agg(None, (x, y)), IterV(k, (r, q))
    if k == "chain":
        a, b = (1, 0) if back else (0, 1)
        x, r = nxt(ip, st, p[a], back)
        if x is not END: return x, IterV(k, (p[0], r) if back else (r, p[1]))
        x, r = nxt(ip, st, p[b], back)
        return x, IterV(k, (r, IterV("seq", ())) if back else (IterV("seq", ()), r))
    if k == "skip":
        it2 = p[0]
        if back:
            n = ilen(ip, st, it2)
            if n <= p[1]: return END, IterV("seq", ())
            x, r = nxt(ip, st, it2, True); return x, IterV(k, (r, p[1]))
        for _ in range(p[1]):
            x, it2 = nxt(ip, st, it2)
            if x is END: return END, IterV(k, (it2, 0))
        x, r = nxt(ip, st, it2); return x, IterV(k, (r, 0))
    if k == "take":
        if p[1] == 0: return END, it
        if back:
            xs = take(ip, st, p[0], p[1]); return nxt(ip, st, IterV("seq", xs), True)
        x, r = nxt(ip, st, p[0]); return x, IterV(k, (r, p[1] - 1))
    if k == "stepby":
        inner, step, first = p
        if back: raise Unsupported("step_by back")
        for _ in range(0 if first else step - 1):
            x, inner = nxt(ip, st, inner)
            if x is END: return END, IterV("seq", ())
        x, inner = nxt(ip, st, inner)
        return x, IterV(k, (inner, step, 0))
    if k == "peek":
        if p[1] is not None and p[1] != 0: return p[1], IterV(k, (p[0], 0))
        x, r = nxt(ip, st, p[0], back); return x, IterV(k, (r, 0))
    if k in ("filter", "takew", "skipw"):
        inner = p[0]
        while True:
            x, inner = nxt(ip, st, inner, back)
            if x is END: return END, IterV(k, (inner,) + p[1:])
            if k == "skipw" and p[2]: return x, IterV(k, (inner, p[1], 1))
            c = ip.decide(st, ip.call_closure(st, p[1], [ip.alloc(st, x)]))
            if c is None: raise Unsupported("iterator filter on an undecided condition")
            if k == "filter":
                if c: return x, IterV(k, (inner, p[1]))
            elif k == "takew":
                return (x, IterV(k, (inner, p[1]))) if c else (END, IterV("seq", ()))
            elif not c: return x, IterV(k, (inner, p[1], 1))
    if k in ("filtermap", "mapw"):
        inner = p[0]
        while True:
            x, inner = nxt(ip, st, inner, back)
            if x is END: return END, IterV(k, (inner, p[1]))
            o = ip.call_closure(st, p[1], [x])
            if not isinstance(o, EnumV) or o.d.val is None: raise Unsupported("iterator filter_map on an undecided condition")
            if o.d.val == 1: return o.v[1][0], IterV(k, (inner, p[1]))
            if k == "mapw": return END, IterV("seq", ())
    if k == "flat":
        cur, inner, f = p
        while True:
            if cur != 0:
                x, cur = nxt(ip, st, cur, back)
                if x is not END: return x, IterV(k, (cur, inner, f))
            y, inner = nxt(ip, st, inner, back)
            if y is END: return END, IterV(k, (0, inner, f))
            if f != 0: y = ip.call_closure(st, f, [y])
            cur = into(ip, st, y)
    if k == "succ":
        cur = p[0]
        if cur is None or cur == 0: return END, it
        o = ip.call_closure(st, p[1], [ip.alloc(st, cur)])
        if not isinstance(o, EnumV) or o.d.val is None: raise Unsupported("successors on an undecided condition")
        return cur, IterV(k, (o.v[1][0] if o.d.val == 1 else 0, p[1]))
    if k == "scan":
        x, r = nxt(ip, st, p[0])
        if x is END: return END, it
        o = ip.call_closure(st, p[2], [p[1], x])
        if not isinstance(o, EnumV) or o.d.val is None: raise Unsupported("scan on an undecided condition")
        return (o.v[1][0] if o.d.val == 1 else END), IterV(k, (r, p[1], p[2]))
    if k == "repeat": return p[0], it
    if k == "fromfn":
        o = ip.call_closure(st, p[0], [])
        if not isinstance(o, EnumV) or o.d.val is None: raise Unsupported("from_fn on an undecided condition")
        return (o.v[1][0] if o.d.val == 1 else END), it
    if k == "cycle":
        x, r = nxt(ip, st, p[0])
        if x is END: x, r = nxt(ip, st, p[1])
        return x, IterV(k, (r, p[1]))
    raise Unsupported("iterator " + k)
def into(ip, st, v):
    """IntoIterator::into_iter for the types modelled here"""
    if isinstance(v, Ref):
        x = ip.load(st, v)
        if isinstance(x, (VecV,)) or v.win is not None or (isinstance(x, Agg) and x.ty is None): return IterV("seq", erefs(slice_ref(ip, st, v)))
    return as_iter(ip, st, v)
LIMIT = 5000
def drain(ip, st, it):
    n = 0
    while True:
        x, it = nxt(ip, st, it)
        if x is END: return
        n += 1
        if n > LIMIT: raise Unsupported("iterator too long")
        yield x
def drain_if(ip, st, it):
    """the elements with the condition under which a filter lets them through"""
    if it.kind == "filter":
        for c0, x in drain_if(ip, st, it.items[0]):
            c = ip.call_closure(st, it.items[1], [ip.alloc(st, x)])
            d = ip.decide(st, c)
            if d is False: continue
            yield (c0 if d else band(c0, c)), x
    elif it.kind == "map":
        for c0, x in drain_if(ip, st, it.items[0]): yield c0, ip.call_closure(st, it.items[1], [x])
    else:
        for x in drain(ip, st, it): yield TRUE, x
def step_if(ip, st, c, acc, f):
    if c.val is True: return f(acc)
    k = len(ip.assumed)
    def go(s, y):
        del ip.assumed[k:]
        ip.assumed.append((c, y))
        return f(acc) if y else acc
    try: return ip.split_call(st, IteV(c, True, False), go)
    finally: del ip.assumed[k:]
def take(ip, st, it, n):
    out = []
    for x in drain(ip, st, it):
        if len(out) == n: break
        out.append(x)
        if len(out) == n: break
    return out
def ilen(ip, st, it):
    k, p = it.kind, it.items
    if k == "seq": return len(p)
    if k in ("map", "cloned", "rev", "enum", "inspect"): return ilen(ip, st, p[0])
    if k == "zip":
        if "from" in (p[0].kind, p[1].kind) or "repeat" in (p[0].kind, p[1].kind):
            return ilen(ip, st, p[0] if p[1].kind in ("from", "repeat") else p[1])
        return min(ilen(ip, st, p[0]), ilen(ip, st, p[1]))
    if k == "chain": return ilen(ip, st, p[0]) + ilen(ip, st, p[1])
    if k == "skip": return max(0, ilen(ip, st, p[0]) - p[1])
    if k == "take": return p[1] if p[0].kind in ("from", "repeat") else min(p[1], ilen(ip, st, p[0]))
    if k == "peek": return ilen(ip, st, p[0]) + (1 if p[1] != 0 else 0)
    if k == "byref": return ilen(ip, st, as_iter(ip, st, ip.load(st, p[0])))
    raise Unsupported("length of iterator " + k)

ADAPT = {"map": "map", "enumerate": "enum", "rev": "rev", "zip": "zip", "chain": "chain", "skip": "skip", "take": "take", "step_by": "stepby", "cloned": "cloned", "copied": "cloned", "peekable": "peek",
         "filter": "filter", "take_while": "takew", "skip_while": "skipw", "filter_map": "filtermap", "map_while": "mapw", "inspect": "inspect", "flat_map": "flat", "flatten": "flat", "scan": "scan", "fuse": "fuse",
         "by_ref": "by_ref", "into_iter": "into", "cycle": "cycle"}
CONSUME = {"next", "next_back", "fold", "rfold", "sum", "for_each", "count", "last", "nth", "any", "all", "position", "rposition", "find", "try_fold", "try_for_each", "size_hint", "len", "reduce", "min_by", "max_by", "min", "max",
           "collect", "product", "unzip", "eq", "peek", "next_if", "find_map", "nth_back", "is_empty", "rfind", "min_by_key", "max_by_key", "partition", "remainder", "as_slice", "rev", "extend_one"}
STDIT = r"(<(&mut )?(std::(iter|slice|vec|array|ops|option|collections|str)::[\w:]+(<.*>)?|I|A|smallvec::\w+<.*>|std::iter::adapters.*) as std::iter::(Iterator|DoubleEndedIterator|ExactSizeIterator|IntoIterator)>|std::iter::(Iterator|DoubleEndedIterator|ExactSizeIterator|IntoIterator)|<&'?a? ?(mut )?(std::vec::Vec<T, A>|smallvec::SmallVec<A>|\[T; N\]|\[T\]) as std::iter::IntoIterator>|std::(array|slice|iter|option)::[\w:]*<impl std::iter::(Iterator|IntoIterator|DoubleEndedIterator|ExactSizeIterator)( for .*)?>|std::iter::Peekable|std::iter::range::<impl std::iter::\w+ for std::ops::Range\w*(<A>)?>|<std::vec::Vec<T, A> as std::iter::IntoIterator>|<smallvec::SmallVec<A> as std::iter::IntoIterator>|std::iter::traits::collect::<impl .*>|std::slice::iter::<impl .*>|std::slice::(Iter|IterMut|ChunksExact)|std::vec::IntoIter|<std::slice::Iter<'a, T> as .*>)::(\w+)"
@rx(STDIT)
def iter_method(ip, st, ci, vals):
    n = ci["path"].split("::")[-1]
    if n not in ADAPT and n not in CONSUME: return NI
    if n == "into_iter":
        v = ng(vals, 0)
        if isinstance(v, Ref): return into(ip, st, v)
        if isinstance(v, Agg) and v.ty is not None and norm(ip.tname(v.ty) or "").startswith("std::ops::Range") and not all(isinstance(x, T) and x.val is not None for x in v.f):
            return v
        if isinstance(v, Agg) and v.ty is not None and not norm(ip.tname(v.ty) or "").startswith("std::"): return v
        return as_iter(ip, st, v)
    if n == "by_ref": return vals[0]
    ref = None
    v = ng(vals, 0)
    if n in ("next", "next_back", "nth", "nth_back", "any", "all", "position", "rposition", "find", "try_fold", "try_for_each", "size_hint", "len", "peek", "find_map", "is_empty", "rfind", "next_if", "remainder", "as_slice"):
        # these take self by reference
        ref = v
        while True:
            x = ip.load(st, ref)
            if isinstance(x, Ref) and x.win is None: ref = x; continue
            break
        if isinstance(x, IteV):
            def one(s, alt):
                ip.store(s, ref, alt)
                return ip.invoke(s, ci, ci["def"], ci["args"], vals)
            return ip.split_call(st, x, one)
        v = x
    if isinstance(v, Agg) and v.ty is not None:
        d = norm(ip.tname(v.ty) or "")
        if not d.startswith("std::"): return NI          # a user iterator: analyse its own body
        if d.startswith("std::ops::Range") and not all(isinstance(x, T) and x.val is not None for x in v.f):
            return NI
    it = as_iter(ip, st, v)
    cell = lambda f: ip.alloc(st, f) if not (isinstance(f, Ref)) else f
    def cl(f, args): return ip.call_closure(st, f, args)
    if n in ADAPT:
        k = ADAPT[n]
        if k == "fuse": return it
        if k in ("map", "filter", "takew", "filtermap", "mapw", "inspect"): return IterV(k, (it, cell(vals[1])))
        if k == "skipw": return IterV(k, (it, cell(vals[1]), 0))
        if k == "enum": return IterV(k, (it, 0))
        if k in ("rev", "cloned"): return IterV(k, (it,))
        if k in ("zip", "chain"): return IterV(k, (it, into(ip, st, ng(vals, 1))))
        if k in ("skip", "take"): return IterV(k, (it, cint(vals[1])))
        if k == "stepby":
            ip.require(st, bc(cint(vals[1]) > 0), "panic:step_by(0)")
            return IterV(k, (it, cint(vals[1]), 1))
        if k == "peek": return IterV(k, (it, 0))
        if k == "flat": return IterV(k, (0, it, cell(vals[1]) if n == "flat_map" else 0))
        if k == "scan": return IterV(k, (it, ip.alloc(st, vals[1]), cell(vals[2])))
        if k == "cycle": return IterV(k, (it, it))
    def save(r):
        if ref is not None: ip.store(st, ref, r)
    if n in ("next", "next_back"):
        x, r = nxt(ip, st, it, n == "next_back"); save(r)
        return none(ip) if x is END else some(ip, x)
    if n in ("nth", "nth_back"):
        for _ in range(cint(vals[1]) + 1):
            x, it = nxt(ip, st, it, n == "nth_back")
            if x is END: break
        save(it); return none(ip) if x is END else some(ip, x)
    if n == "peek":
        if it.kind != "peek": return NI
        if it.items[1] == 0:
            x, r = nxt(ip, st, it.items[0])
            if x is END: save(IterV("peek", (r, 0))); return none(ip)
            save(IterV("peek", (r, x)))
            return some(ip, ip.alloc(st, x))
        return some(ip, ip.alloc(st, it.items[1]))
    if n in ("size_hint", "len"):
        L = ilen(ip, st, it)
        return ic(L) if n == "len" else Agg(None, (ic(L), some(ip, ic(L))))
    if n == "as_slice" or n == "remainder": return NI
    if n in ("fold", "rfold"):
        acc, f = vals[1], cell(vals[2])
        if n == "rfold": it = IterV("rev", (it,))
        for c, x in drain_if(ip, st, it): acc = step_if(ip, st, c, acc, lambda a: cl(f, [a, x]))
        return acc
    if n == "for_each":
        f = cell(vals[1])
        for c, x in drain_if(ip, st, it): step_if(ip, st, c, UNIT, lambda a: (cl(f, [x]), UNIT)[1])
        return UNIT
    if n == "count":
        acc = ic(0)
        for c, x in drain_if(ip, st, it): acc = ite(c, I("iadd", acc, ic(1)), acc)
        return acc
    if n == "last":
        x = END
        for x in drain(ip, st, it): pass
        return none(ip) if x is END else some(ip, x)
    if n == "reduce":
        acc = None; f = cell(vals[1])
        for x in drain(ip, st, it): acc = x if acc is None else cl(f, [acc, x])
        return none(ip) if acc is None else some(ip, acc)
    if n in ("any", "all"):
        f = cell(vals[1]); r = FALSE if n == "any" else TRUE
        k = len(ip.assumed)
        for x in drain(ip, st, it):
            c = cl(f, [x])
            r = bor(r, c) if n == "any" else band(r, c)
            if r.val is (n == "any"): break
            ip.assumed.append((c, n == "all"))
        del ip.assumed[k:]
        return r
    if n in ("position", "find", "rfind", "find_map", "rposition"):
        f = cell(vals[1]); out = []
        if n == "rposition": L = ilen(ip, st, it)
        if n in ("rfind", "rposition"): it = IterV("rev", (it,))
        k = len(ip.assumed)
        for i, x in enumerate(drain(ip, st, it)):
            if n == "find_map":
                o = cl(f, [x]); c = cmp("eq", ip.discr(o), ic(1)); v = o.v[1][0] if 1 in o.v else UNIT
            else:
                c = cl(f, [ip.alloc(st, x) if "position" not in n else x]); v = ic(i) if n == "position" else ic(L - 1 - i) if n == "rposition" else x
            if c.val is False: continue
            out.append((c, v))
            if c.val is True: break
            ip.assumed.append((c, False))
        del ip.assumed[k:]
        r = none(ip)
        for c, v in reversed(out): r = mite(c, some(ip, v), r)
        save(IterV("seq", ()))
        return r
    if n in ("try_fold", "try_for_each"):
        f = cell(vals[-1]); acc = vals[1] if n == "try_fold" else None
        out, k, res = [], len(ip.assumed), None
        for x in drain(ip, st, it):
            res = cl(f, [acc, x] if n == "try_fold" else [x])
            if not isinstance(res, EnumV): return NI
            name = norm(ip.tname(res.ty) or "") if res.ty is not None else ""
            good = 1 if "Option" in name else 0
            c = cmp("eq", res.d, ic(good))
            if good in res.v: acc = res.v[good][0]
            if c.val is True: continue
            out.append((c, res))
            if c.val is False: break
            ip.assumed.append((c, True))
        del ip.assumed[k:]
        if res is None: return NI
        r = EnumV(res.ty, ic(good), {good: (acc,)}) if good in res.v else res
        for c, v in reversed(out): r = mite(c, r, v)
        save(IterV("seq", ()))
        return r
    if n in ("min_by", "max_by"):
        f = cell(vals[1]); acc = None
        for x in drain(ip, st, it):
            if acc is None: acc = x; continue
            o = cl(f, [ip.alloc(st, acc), ip.alloc(st, x)])
            c = cmp("eq", o.d, ic(2)) if n == "min_by" else bnot(cmp("eq", o.d, ic(2)))
            acc = mite(c, x, acc)
        return none(ip) if acc is None else some(ip, acc)
    if n in ("min", "max"):
        acc = None
        for x in drain(ip, st, it):
            if acc is None: acc = x; continue
            a, b = scal(ip, st, acc), scal(ip, st, x)
            if not isinstance(a, T): return NI
            c = cmp("lt", b, a) if n == "min" else cmp("le", a, b)
            acc = mite(c, x, acc)
        return none(ip) if acc is None else some(ip, acc)
    if n == "eq":
        a, b = list(drain(ip, st, it)), list(drain(ip, st, into(ip, st, vals[1])))
        if len(a) != len(b): return FALSE
        r = TRUE
        for x, y in zip(a, b):
            c = deep_eq(ip, st, x, y)
            if c is None: raise Unsupported("iterator eq")
            r = band(r, c)
        return r
    if n == "unzip":
        xs = list(drain(ip, st, it))
        return Agg(None, (VecV([x.f[0] for x in xs]), VecV([x.f[1] for x in xs])))
    return NI                                    # collect / sum / product: their std bodies call the leaf models below

@rx(r"<(f64|usize|[iu]\d+) as std::iter::(Sum|Product)(<.*>)?>::(sum|product)|std::iter::traits::accum::<impl std::iter::(Sum|Product)(<.*>)? for (f64|usize|[iu]\d+)>::(sum|product)")
def it_sum(ip, st, ci, vals):
    it = as_iter(ip, st, ng(vals, 0))
    prod = ci["path"].endswith("product")
    fl = "f64" in ci["path"]
    acc = None
    for c, x in drain_if(ip, st, it):
        x = scal(ip, st, x)
        op = lambda a: (F if fl else I)(("" if fl else "i") + ("mul" if prod else "add"), a, x)
        if c.val is True: acc = x if acc is None else op(acc)
        else:
            if acc is None: acc = (fc if fl else ic)(1 if prod else 0)
            acc = ite(c, op(acc), acc)
    if acc is None: return (fc if fl else ic)(1 if prod else 0)
    return acc
@rx(r"<(std::vec::Vec<T>|smallvec::SmallVec<A>|std::boxed::Box<\[I\]>) as std::iter::FromIterator<.*>>::from_iter")
def it_coll(ip, st, ci, vals):
    v = VecV(list(drain(ip, st, into(ip, st, ng(vals, 0)))))
    if "Box" in ci["path"].split(" as ")[0]:
        q = ip.alloc(st, v); return Ref(q.obj, (), (0, len(v.e)))
    return v
@rx(r"<(std::result::Result<V, E>|std::option::Option<V>) as std::iter::FromIterator<.*>>::from_iter")
def it_collres(ip, st, ci, vals):
    out, bad, k = [], [], len(ip.assumed)
    isres = "Result" in ci["path"].split(" as ")[0]
    good = 0 if isres else 1
    for x in drain(ip, st, into(ip, st, ng(vals, 0))):
        if not isinstance(x, EnumV): return NI
        c = cmp("eq", x.d, ic(good))
        if good in x.v: out.append(x.v[good][0])
        if c.val is True: continue
        bad.append((c, x))
        if c.val is False: break
        ip.assumed.append((c, True))
    del ip.assumed[k:]
    t = tid(ip, "std::result::Result" if isres else "std::option::Option")
    r = EnumV(t, ic(good), {good: (VecV(out),)})
    for c, x in reversed(bad):
        r = mite(c, r, EnumV(t, ic(1 - good), {1 - good: x.v.get(1 - good, ())}))
    return r
@rx(r"<(std::vec::Vec<T, A>|smallvec::SmallVec<A>) as std::iter::Extend<.*>>::extend")
def it_ext(ip, st, ci, vals):
    cp = "Extend<&'a T>" in ci["path"]
    xs = list(drain(ip, st, into(ip, st, ng(vals, 1))))
    if cp: xs = [ip.load(st, x) for x in xs]
    cur = ip.load(st, vals[0])
    ip.store(st, vals[0], VecV(tuple(ip.elems(cur)) + tuple(xs)))
    return UNIT
@rx(r"std::iter::(once|empty|repeat|repeat_n|successors|from_fn|zip|repeat_with)")
def it_src(ip, st, ci, vals):
    n = ci["path"].split("::")[-1]
    if n == "once": return IterV("seq", (vals[0],))
    if n == "empty": return IterV("seq", ())
    if n == "repeat": return IterV("repeat", (vals[0],))
    if n == "repeat_n": return IterV("seq", [vals[0]] * cint(vals[1]))
    if n == "zip": return IterV("zip", (into(ip, st, vals[0]), into(ip, st, vals[1])))
    if n == "from_fn": return IterV("fromfn", (ip.alloc(st, vals[0]),))
    if n == "successors":
        o = vals[0]
        if o.d.val is None: return NI
        return IterV("succ", (o.v[1][0] if o.d.val == 1 else 0, ip.alloc(st, vals[1])))
    return NI

# ---------------------------------------------------------------- closures
@rx(r"std::ops::(Fn|FnMut|FnOnce)::call(_mut|_once)?|.*as std::ops::(Fn|FnMut|FnOnce)<.*>>::call(_mut|_once)?|std::ops::function::impls::<impl std::ops::\w+<A> for &.*F>::call\w*")
def fn_call(ip, st, ci, vals):
    a = vals[1]
    return ip.call_closure(st, ng(vals, 0), list(ip.elems(a)))

# ---------------------------------------------------------------- nalgebra (column major, dense, small)
def mdim(n):
    return {1: (1, 1), 3: (3, 1), 9: (3, 3), 4: (2, 2), 2: (2, 1), 16: (4, 4), 6: (6, 1)}[n]
def mval(ip, st, v):
    v = scal(ip, st, v)
    return list(ip.elems(v))
@rx(r"nalgebra::base::construction::<impl nalgebra::Matrix<T, nalgebra::Const<(\d)>, nalgebra::Const<(\d)>, .*>>::new")
def na_new(ip, st, ci, vals):
    m = re.findall(r"nalgebra::Const<(\d)>", ci["path"])
    r, c = int(m[0]), int(m[1])
    return Agg(None, [vals[i * c + j] for j in range(c) for i in range(r)])
def na_dims(ip, ci):
    m = re.findall(r"Const<(\d)>", ci["name"]) or re.findall(r"Const<(\d)>", str([ip.ty(a).get("s") if isinstance(a, int) else "" for a in ci["args"]]))
    return (int(m[0]), int(m[1])) if len(m) >= 2 else None
@rx(r"nalgebra::base::construction::<impl nalgebra::Matrix<T, R, C, .*>>::(identity|zeros|from_diagonal_element)")
def na_id(ip, st, ci, vals):
    d = na_dims(ip, ci)
    if d is None: return NI
    n = ci["path"].split("::")[-1]
    x = vals[0] if vals else fc(1.0)
    return Agg(None, [x if (i == j and n != "zeros") else fc(0.0) for j in range(d[1]) for i in range(d[0])])
@rx(r"nalgebra::base::ops::<impl std::ops::(Add|Sub)<.*> for .*nalgebra::Matrix<.*>>::(add|sub)")
def na_add(ip, st, ci, vals):
    a, b = mval(ip, st, vals[0]), mval(ip, st, vals[1])
    o = ci["path"].split("::")[-1]
    return Agg(None, [F(o, x, y) for x, y in zip(a, b)])
@rx(r"nalgebra::base::ops::<impl std::ops::(Add|Sub|Mul|Div)Assign<.*> for nalgebra::Matrix<.*>>::\w+")
def na_assign(ip, st, ci, vals):
    a = mval(ip, st, vals[0]); o = ci["path"].split("::")[-1].replace("_assign", "")
    b = scal(ip, st, vals[1])
    r = [F(o, x, b) for x in a] if isinstance(b, T) else [F(o, x, y) for x, y in zip(a, ip.elems(b))]
    if o in ("mul",) and not isinstance(b, T): return NI
    ip.store(st, vals[0], Agg(None, r)); return UNIT
@rx(r"nalgebra::base::ops::<impl std::ops::Neg for .*nalgebra::Matrix<.*>>::neg")
def na_neg(ip, st, ci, vals): return Agg(None, [F("neg", x) for x in mval(ip, st, vals[0])])
def matmul(a, b):
    (r, k), (k2, c) = mdim(len(a)), mdim(len(b))
    if k != k2: raise Unsupported("matrix shapes")
    out = []
    for j in range(c):
        for i in range(r):
            acc = None
            for l in range(k):
                p = F("mul", a[l * r + i], b[j * k + l])
                acc = p if acc is None else F("add", acc, p)
            out.append(acc)
    return out
@rx(r"nalgebra::base::ops::<impl std::ops::(Mul|Div)<.*> for .*>::(mul|div)|<nalgebra::Matrix<.*> as std::ops::Mul<.*>>::mul")
def na_mul(ip, st, ci, vals):
    a, b = scal(ip, st, vals[0]), scal(ip, st, vals[1])
    o = ci["path"].split("::")[-1]
    if isinstance(b, T): return Agg(None, [F(o, x, b) for x in ip.elems(a)])
    if isinstance(a, T): return Agg(None, [F(o, a, x) for x in ip.elems(b)])
    return Agg(None, matmul(ip.elems(a), ip.elems(b)))
@rx(r"nalgebra::base::ops::<impl std::ops::Index(Mut)?<(usize|\(usize, usize\))> for nalgebra::Matrix<.*>>::index(_mut)?")
def na_index(ip, st, ci, vals):
    r = vals[0]
    while isinstance(ip.load(st, r), Ref): r = ip.load(st, r)
    n = len(ip.elems(ip.load(st, r)))
    i = vals[1]
    k = cint(i) if isinstance(i, T) else cint(i.f[0]) + mdim(n)[0] * cint(i.f[1])
    ip.require(st, bc(k < n), "assert:BoundsCheck")
    return ip.sub(st, r, ("i", k))
@rx(r"nalgebra::.*<impl std::ops::Deref(Mut)? for nalgebra::Matrix<.*>>::deref(_mut)?")
def na_deref(ip, st, ci, vals): return ng(vals, 0)
@rx(r"nalgebra::.*<impl nalgebra::Matrix<.*>>::(transpose|dot|cross|norm|norm_squared|scale|tr_mul)")
def na_misc(ip, st, ci, vals):
    n = ci["path"].split("::")[-1]
    a = mval(ip, st, vals[0])
    r, c = mdim(len(a))
    if n == "transpose": return Agg(None, [a[i * r + j] for j in range(r) for i in range(c)]) if c > 1 else NI
    if n == "scale": return Agg(None, [F("mul", x, vals[1]) for x in a])
    def dot(p, q):
        acc = None
        for x, y in zip(p, q):
            m = F("mul", x, y); acc = m if acc is None else F("add", acc, m)
        return acc
    if n == "dot": return dot(a, mval(ip, st, vals[1]))
    if n == "norm_squared": return dot(a, a)
    if n == "norm": return F("sqrt", dot(a, a))
    if n == "cross":
        b = mval(ip, st, vals[1])
        g = lambda i, j: F("sub", F("mul", a[i], b[j]), F("mul", a[j], b[i]))
        return Agg(None, (g(1, 2), g(2, 0), g(0, 1)))
    return NI
