"""Hash-consed value graph.  A node is one abstract value; structurally equal values are one node."""
import math, struct
from fractions import Fraction

class T:
    __slots__ = ("op", "args", "ty", "id", "val", "loc", "__weakref__")
    def __repr__(self):
        return show(self, 4)

_tab = {}
_list = []
CUR = [None]          # current source location, recorded on node creation

def mk(op, args, ty, val=None):
    k = (op, args, ty)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op, t.args, t.ty, t.val = op, args, ty, val
        t.id = len(_list)
        t.loc = CUR[0]
        _list.append(t)
        _tab[k] = t
    return t

def show(t, d=3):
    if t.op in ("fc", "ic", "bc"):
        return repr(t.val)
    if t.op == "sym":
        return str(t.args[0])
    if d <= 0:
        return "…"
    return "%s(%s)" % (t.op, ", ".join(show(a, d - 1) if isinstance(a, T) else str(a) for a in t.args))

# ---------------------------------------------------------------- constants
def bits_of(x):
    return struct.unpack("<Q", struct.pack("<d", x))[0]

def fc(x):
    x = float(x)
    return mk("fc", (bits_of(x),), "f", x)

def ic(n):
    return mk("ic", (int(n),), "i", int(n))

TRUE = mk("bc", (True,), "b", True)
FALSE = mk("bc", (False,), "b", False)

def bc(b):
    return TRUE if b else FALSE

def sym(name, ty):
    return mk("sym", (name,), ty)

# ---------------------------------------------------------------- float operations
def _fold(op, xs):
    try:
        if op == "add": return xs[0] + xs[1]
        if op == "sub": return xs[0] - xs[1]
        if op == "mul": return xs[0] * xs[1]
        if op == "div":
            a, b = xs
            if b == 0:
                if a == 0 or a != a: return math.nan
                return math.copysign(math.inf, a) * math.copysign(1.0, b)
            return a / b
        if op == "rem": return math.fmod(xs[0], xs[1]) if xs[1] != 0 and not math.isinf(xs[0]) else math.nan
        if op == "neg": return -xs[0]
        if op == "abs": return abs(xs[0])
        if op == "sqrt": return math.sqrt(xs[0]) if xs[0] >= 0 else math.nan
        if op == "cbrt": return math.cbrt(xs[0])
        if op in ("sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "exp"):
            return getattr(math, op)(xs[0])
        if op == "ln": return math.log(xs[0]) if xs[0] > 0 else (-math.inf if xs[0] == 0 else math.nan)
        if op == "expm1": return math.expm1(xs[0])
        if op == "ln1p": return math.log1p(xs[0])
        if op == "atan2": return math.atan2(xs[0], xs[1])
        if op == "powf": return xs[0] ** xs[1] if xs[0] > 0 or xs[1] == int(xs[1]) else math.nan
        if op == "floor": return float(math.floor(xs[0]))
        if op == "ceil": return float(math.ceil(xs[0]))
        if op == "trunc": return float(math.trunc(xs[0]))
        if op == "rte": return float(round(xs[0]))
        if op == "round": return math.copysign(float(math.floor(abs(xs[0]) + 0.5)), xs[0])
        if op == "signum": return math.copysign(1.0, xs[0])
        if op == "copysign": return math.copysign(xs[0], xs[1])
    except (ValueError, OverflowError, ZeroDivisionError):
        return None
    return None

def F(op, *args):
    if op in ("add", "mul") and args[0].id > args[1].id: args = (args[1], args[0])
    vs = [a.val for a in args]
    if all(v is not None for v in vs):
        v = _fold(op, vs)
        if v is not None:
            if op == "neg" and args[0].op == "fc" or any(isinstance(u, float) and (u in (float('inf'), -float('inf'))) for u in vs): return fc(v)
            t = mk(op, args, "f", v)
            t.val = v
            return t
    # identities that hold exactly
    if op in ("mul", "div") and args[1].val == 1.0: return args[0]
    if op == "mul" and args[0].val == 1.0: return args[1]
    if op in ("sub", "add") and args[1].val == 0.0: return args[0]
    if op == "add" and args[0].val == 0.0: return args[1]
    if op == "neg" and args[0].op == "neg":
        return args[0].args[0]
    if op == "abs" and args[0].op in ("abs", "neg"):
        return F("abs", args[0].args[0])
    return mk(op, args, "f")

# ---------------------------------------------------------------- int operations
def wrap(n, bits, signed):
    n &= (1 << bits) - 1
    if signed and n >> (bits - 1):
        n -= 1 << bits
    return n

def I(op, *args):
    vs = [a.val for a in args]
    if all(v is not None for v in vs):
        a = vs[0]; b = vs[1] if len(vs) > 1 else None
        try:
            if op == "iadd": return ic(a + b)
            if op == "isub": return ic(a - b)
            if op == "imul": return ic(a * b)
            if op == "idiv": return ic(int(a / b) if abs(a) < 2**50 and abs(b) < 2**50 else (abs(a)//abs(b)) * (1 if (a < 0) == (b < 0) else -1))
            if op == "irem": return ic(a - b * ((abs(a)//abs(b)) * (1 if (a < 0) == (b < 0) else -1)))
            if op == "iand": return ic(a & b)
            if op == "ior": return ic(a | b)
            if op == "ixor": return ic(a ^ b)
            if op == "ishl": return ic(a << b)
            if op == "ishr": return ic(a >> b)
            if op == "ineg": return ic(-a)
        except ZeroDivisionError:
            pass
    if len(args) == 2 and op in ("iadd", "isub", "imul", "idiv", "irem"):
        # distribute over ite of constants
        for k in (0, 1):
            x, y = args[k], args[1 - k]
            if x.op == "ite" and y.val is not None and _ite_consts(x):
                f = (lambda z: I(op, z, y)) if k == 0 else (lambda z: I(op, y, z))
                return ite(x.args[0], f(x.args[1]), f(x.args[2]))
    return mk(op, args, "i")

def _ite_consts(t):
    return t.val is not None or (t.op == "ite" and _ite_consts(t.args[1]) and _ite_consts(t.args[2]))

# ---------------------------------------------------------------- booleans
def bnot(a):
    if a.val is not None: return bc(not a.val)
    if a.op == "not": return a.args[0]
    return mk("not", (a,), "b")

def band(a, b):
    if a.val is not None: return b if a.val else FALSE
    if b.val is not None: return a if b.val else FALSE
    if a is b: return a
    if a.id > b.id: a, b = b, a
    return mk("and", (a, b), "b")

def bor(a, b):
    if a.val is not None: return TRUE if a.val else b
    if b.val is not None: return TRUE if b.val else a
    if a is b: return a
    if a.id > b.id: a, b = b, a
    return mk("or", (a, b), "b")

def ite(c, a, b):
    if c.val is not None: return a if c.val else b
    if a is b: return a
    if c.op == "not": return ite(c.args[0], b, a)
    if a.op == "ite" and a.args[0] is c: a = a.args[1]
    if b.op == "ite" and b.args[0] is c: b = b.args[2]
    if a is b: return a
    if a.ty == "b":
        if a.val is True and b.val is False: return c
        if a.val is False and b.val is True: return bnot(c)
        if a.val is False: return band(bnot(c), b)
        if b.val is False: return band(c, a)
        if a.val is True: return bor(c, b)
        if b.val is True: return bor(bnot(c), a)
    return mk("ite", (c, a, b), a.ty)

def cmp(op, a, b):
    """op in eq ne lt le gt ge on two terms of the same type"""
    if op == "gt": return cmp("lt", b, a)
    if op == "ge": return cmp("le", b, a)
    if op == "ne": return bnot(cmp("eq", a, b))
    if a.val is not None and b.val is not None:
        return bc({"eq": a.val == b.val, "lt": a.val < b.val, "le": a.val <= b.val}[op])
    if a.ty == "b" and op == "eq":
        if a.val is not None: a, b = b, a
        if b.val is not None: return a if b.val else bnot(a)
        if a is b: return TRUE
    if a.ty == "i":
        if a is b: return bc(op != "lt")
        for k, (x, y) in enumerate(((a, b), (b, a))):
            if x.op == "ite" and (y.val is not None) and _ite_consts(x):
                f = (lambda z: cmp(op, z, y)) if k == 0 else (lambda z: cmp(op, y, z))
                return ite(x.args[0], f(x.args[1]), f(x.args[2]))
    if op == "eq" and a.id > b.id:
        a, b = b, a
    return mk(op, (a, b), "b")
