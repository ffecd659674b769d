"""Interval domain over value graphs, with backward refinement from comparison facts.

Endpoints are computed with the IEEE operations themselves: rounding to nearest is monotone, so the bounds also hold for
the floating point values (library functions are taken to be faithful at the endpoints used here)."""
import math
from . import terms as tm
from .terms import T
INF = math.inf
TOP = (-INF, INF)

def _m(x, y):
    if x == 0 or y == 0: return 0.0
    return x * y
def mul(a, b):
    c = [_m(x, y) for x in a for y in b]
    return (min(c), max(c))
def div(a, b):
    if b[0] < 0 < b[1] or (b[0] == 0 and b[1] == 0): return TOP
    def d(x, y):
        if math.isinf(x) and math.isinf(y): return math.copysign(INF, x) * math.copysign(1, y)
        if y == 0: return 0.0 if x == 0 else math.copysign(INF, x) * (1 if b[1] > 0 else -1)
        return x / y
    c = [d(x, y) for x in a for y in b]
    if b[0] == 0 or b[1] == 0:
        if a[0] < 0 < a[1]: return TOP
    return (min(c), max(c))
def add(a, b):
    lo, hi = a[0] + b[0], a[1] + b[1]
    return (-INF if lo != lo else lo, INF if hi != hi else hi)
def sub(a, b): return add(a, (-b[1], -b[0]))
def mono(f, a, dlo=-INF, dhi=INF):
    def g(x):
        x = min(max(x, dlo), dhi)
        try: return f(x)
        except (OverflowError, ValueError, ZeroDivisionError): return math.copysign(INF, x)
    return (g(a[0]), g(a[1]))
def trig(f, a, peak):
    """range of sin/cos over [a]; peak: position of the maximum (minimum at peak+pi)"""
    lo, hi = a
    if math.isinf(lo) or math.isinf(hi) or hi - lo >= 2 * math.pi: return (-1.0, 1.0)
    vs = [f(lo), f(hi)]
    def has(p):
        k = math.ceil((lo - p) / (2 * math.pi) - 1e-15)
        return p + 2 * math.pi * k <= hi
    m, n = min(vs), max(vs)
    if has(peak): n = 1.0
    if has(peak + math.pi): m = -1.0
    # exact zeros at the quadrant borders (the float pi/2 is below pi/2)
    if abs(m) < 1e-15: m = 0.0
    if abs(n) < 1e-15: n = 0.0
    return (max(-1.0, m), min(1.0, n))
def inter(a, b): return (max(a[0], b[0]), min(a[1], b[1]))

class Infeasible(Exception):
    pass

_itd = {}
def itedepth(t):
    r = _itd.get(t.id)
    if r is not None: return r
    st = [t]
    while st:
        x = st[-1]
        if x.id in _itd: st.pop(); continue
        pend = [a for a in x.args if isinstance(a, T) and a.id not in _itd]
        if pend: st.extend(pend); continue
        st.pop()
        _itd[x.id] = max([_itd[a.id] for a in x.args if isinstance(a, T)] + [0]) + (x.op == "ite")
    return _itd[t.id]

class Env:
    REAL = False   # real-number reasoning (equalities) rather than IEEE (ranges)
    """facts: node -> interval; booleans: node -> bool"""
    def __init__(self, parent=None):
        self.facts = dict(parent.facts) if parent else {}
        self.bools = dict(parent.bools) if parent else {}
        self.cmps = list(parent.cmps) if parent else []
        self.memo = {}
        self.alias = parent.alias if parent else {}   # node -> nodes of equal value
    def copy(self): return Env(self)
    # ---- forward
    def iv(self, t):
        r = self.memo.get(t.id)
        if r is None:
            stack = [t]
            while stack:
                x = stack[-1]
                if x.id in self.memo: stack.pop(); continue
                pend = [a for a in x.args if isinstance(a, T) and a.ty in ("f", "i") and a.id not in self.memo]
                if x.ty in ("b", "o"): self.memo[x.id] = TOP; stack.pop(); continue
                if pend: stack.extend(pend); continue
                stack.pop()
                r = self._iv(x)
                f = self.facts.get(x.id)
                if f: r = inter(r, f)
                self.memo[x.id] = r
            r = self.memo[t.id]
        return r
    def _iv(self, t):
        op, a = t.op, t.args
        if t.val is not None and t.ty in ("f", "i"):
            return (t.val, t.val) if t.val == t.val else TOP
        g = lambda i: self.memo[a[i].id] if a[i].id in self.memo else self.iv(a[i])
        if op == "sym": return TOP
        if op in ("add", "iadd"): return add(g(0), g(1))
        if op in ("sub", "isub"):
            if a[0] is a[1]: return (0.0, 0.0)
            if a[1].op in ("trunc", "floor") and a[1].args[0] is a[0]:
                x, o = g(0), below(1.0)
                if a[1].op == "floor" or x[0] >= 0: return (0.0, o)
                return (-o, 0.0) if x[1] <= 0 else (-o, o)
            return sub(g(0), g(1))
        if op in ("mul", "imul"):
            if a[0] is a[1]:
                x = g(0)
                lo = 0.0 if x[0] <= 0 <= x[1] else min(_m(x[0], x[0]), _m(x[1], x[1]))
                return (lo, max(_m(x[0], x[0]), _m(x[1], x[1])))
            return mul(g(0), g(1))
        if op == "div": return div(g(0), g(1))
        if op in ("neg", "ineg"): x = g(0); return (-x[1], -x[0])
        if op == "abs":
            x = g(0)
            if x[0] >= 0: return x
            if x[1] <= 0: return (-x[1], -x[0])
            return (0.0, max(-x[0], x[1]))
        if op == "ite":
            c = self.bool(a[0])
            if c is True: return g(1)
            if c is False: return g(2)
            # refine each arm by the condition (one level)
            x, y = g(1), g(2)
            try: x2 = self.arm(a[0], True, a[1], x)
            except Infeasible: return y
            try: y2 = self.arm(a[0], False, a[2], y)
            except Infeasible: return x
            return (min(x2[0], y2[0]), max(x2[1], y2[1]))
        if op == "rem":
            x, y = g(0), g(1)
            if y[0] == y[1] and y[0] != 0:
                m = abs(y[0])
                if -m < x[0] and x[1] < m: return x
                return (0.0 if x[0] >= 0 else -m, 0.0 if x[1] <= 0 else m)
            m = max(abs(y[0]), abs(y[1]))
            return inter((-m, m), (min(x[0], 0.0), max(x[1], 0.0)))
        if op == "sqrt": return mono(math.sqrt, inter(g(0), (0.0, INF)), 0.0)
        if op == "cbrt": return mono(math.cbrt, g(0))
        if op == "sin": return trig(math.sin, g(0), math.pi / 2)
        if op == "cos": return trig(math.cos, g(0), 0.0)
        if op == "tan":
            x = g(0)
            if -math.pi / 2 < x[0] and x[1] < math.pi / 2: return mono(math.tan, x)
            return TOP
        if op == "asin": return inter(mono(math.asin, g(0), -1.0, 1.0), (-math.pi / 2, math.pi / 2))
        if op == "acos": x = mono(math.acos, g(0), -1.0, 1.0); return (x[1], x[0])
        if op == "atan": return mono(math.atan, g(0))
        if op == "atan2":
            y, x = g(0), g(1)
            lo, hi = -math.pi, math.pi
            if x == (0.0, 0.0) and y[0] > 0: return (math.pi / 2, math.pi / 2)
            if x == (0.0, 0.0) and y[1] < 0: return (-math.pi / 2, -math.pi / 2)
            if y[0] >= 0: lo = 0.0
            if y[1] <= 0: hi = 0.0
            if x[0] >= 0: lo, hi = max(lo, -math.pi / 2), min(hi, math.pi / 2)
            if Env.REAL and a[1].op == "add":
                # atan2(y, d + sqrt(y*y + ..)) with d >= 0
                for d, s in (a[1].args, a[1].args[::-1]):
                    if s.op == "sqrt" and s.args[0].op == "add" and self.iv(d)[0] >= 0:
                        for p, q in (s.args[0].args, s.args[0].args[::-1]):
                            if p.op == "mul" and p.args[0] is a[0] and p.args[1] is a[0] and self.iv(q)[0] >= 0:
                                lo, hi = max(lo, -math.pi / 4), min(hi, math.pi / 4)
            return (lo, hi)
        if op == "exp": return mono(math.exp, g(0))
        if op == "expm1": return mono(math.expm1, g(0))
        if op == "ln":
            x = g(0)
            return ((math.log(x[0]) if x[0] > 0 else -INF), (math.log(x[1]) if x[1] > 0 else -INF) if x[1] < INF else INF)
        if op == "ln1p":
            x = g(0)
            return ((math.log1p(x[0]) if x[0] > -1 else -INF), (math.log1p(x[1]) if -1 < x[1] < INF else INF))
        if op in ("sinh", "asinh", "tanh"): return mono(getattr(math, op), g(0))
        if op == "cosh":
            x = g(0); m = mono(math.cosh, x)
            return (1.0 if x[0] <= 0 <= x[1] else min(m), max(m))
        if op == "atanh":
            x = g(0)
            return (math.atanh(x[0]) if -1 < x[0] < 1 else -INF, math.atanh(x[1]) if -1 < x[1] < 1 else INF)
        if op in ("floor", "ceil", "trunc", "round", "rte"):
            f = {"floor": math.floor, "ceil": math.ceil, "trunc": math.trunc, "rte": round, "round": lambda v: math.copysign(math.floor(abs(v) + 0.5), v)}[op]
            return tuple(v if math.isinf(v) else float(f(v)) for v in g(0))
        if op == "signum":
            x = g(0)
            return (1.0, 1.0) if x[0] > 0 else (-1.0, -1.0) if x[1] < 0 else (-1.0, 1.0)
        if op == "copysign":
            x = g(0); m = max(abs(x[0]), abs(x[1])); y = g(1)
            if y[0] > 0: return (0.0, m)
            if y[1] < 0: return (-m, 0.0)
            return (-m, m)
        if op in ("i2f", "f2i"): return g(0)
        if op == "powf":
            x, e = g(0), g(1)
            if x[0] >= 0: return (0.0, INF)
            return TOP
        if op == "irem":
            y = g(1)
            if y[0] == y[1] and y[0] > 0: return (0 if g(0)[0] >= 0 else -y[0] + 1, y[0] - 1)
        return TOP
    def arm(self, c, pol, t, cur):
        """interval of t given that c has polarity pol (shallow: only comparisons that bound t or a direct child)"""
        if t.val is not None or itedepth(t) > 6 or itedepth(c) > 6: return cur
        e = Env.__new__(Env)
        e.facts, e.bools, e.memo, e.cmps = dict(self.facts), dict(self.bools), {}, []
        e.alias = self.alias
        if getattr(self, "_nest", 0) > 3: return cur
        e._nest = getattr(self, "_nest", 0) + 1
        e.learn(c, pol)
        return inter(cur, e.iv(t))
    # ---- booleans
    def bool(self, t):
        if t.val is not None: return t.val
        b = self.bools.get(t.id)
        if b is not None: return b
        op, a = t.op, t.args
        if op == "not":
            x = self.bool(a[0]); return None if x is None else not x
        if op == "and":
            x, y = self.bool(a[0]), self.bool(a[1])
            if x is False or y is False: return False
            return True if x and y else None
        if op == "or":
            x, y = self.bool(a[0]), self.bool(a[1])
            if x or y: return True
            return False if x is False and y is False else None
        if op == "ite":
            c = self.bool(a[0])
            if c is not None: return self.bool(a[1] if c else a[2])
            x, y = self.bool(a[1]), self.bool(a[2])
            return x if x == y else None
        if op in ("lt", "le", "eq") and a[0].ty in ("f", "i"):
            x, y = self.iv(a[0]), self.iv(a[1])
            if op == "lt":
                if x[1] < y[0]: return True
                if x[0] >= y[1]: return False
            elif op == "le":
                if x[1] <= y[0]: return True
                if x[0] > y[1]: return False
            else:
                if x[0] == x[1] == y[0] == y[1]: return True
                if x[1] < y[0] or y[1] < x[0]: return False
                if a[0] is a[1]: return True
            return None
        if op == "eq" and a[0].ty == "b":
            x, y = self.bool(a[0]), self.bool(a[1])
            return None if x is None or y is None else x == y
        if op == "ordered": return True
        if op == "ovf": return False
        return None
    # ---- backward
    def learn(self, t, pol):
        """assume that t has truth value pol"""
        if t.val is not None:
            if t.val != pol: raise Infeasible()
            return
        b = self.bools.get(t.id)
        if b is not None and b != pol: raise Infeasible()
        self.bools[t.id] = pol
        op, a = t.op, t.args
        if op == "not": return self.learn(a[0], not pol)
        if op == "and":
            if pol:
                for x in a: self.learn(x, True)
            else:
                for x, y in ((a[0], a[1]), (a[1], a[0])):
                    if self.bool(x) is True: self.learn(y, False)
            return
        if op == "or":
            if not pol:
                for x in a: self.learn(x, False)
            else:
                for x, y in ((a[0], a[1]), (a[1], a[0])):
                    if self.bool(x) is False: self.learn(y, True)
            return
        if op == "ite" and t.ty == "b":
            c = self.bool(a[0])
            if c is not None: self.learn(a[1] if c else a[2], pol)
            else:
                if self.bool(a[1]) is (not pol): self.learn(a[0], False); self.learn(a[2], pol)
                elif self.bool(a[2]) is (not pol): self.learn(a[0], True); self.learn(a[1], pol)
            return
        if op in ("lt", "le", "eq") and a[0].ty in ("f", "i"):
            x, y = a
            ix, iy = self.iv(x), self.iv(y)
            if op == "eq":
                if pol:
                    m = inter(ix, iy)
                    self.bound(x, m); self.bound(y, m)
                return
            if not pol: x, y, ix, iy, op = y, x, iy, ix, ("le" if op == "lt" else "lt")
            # x < y or x <= y
            if op == "lt" and ix[0] >= iy[1]: raise Infeasible()
            if op == "le" and ix[0] > iy[1]: raise Infeasible()
            if (op, x, y) not in self.cmps[-40:]:
                self.cmps.append((op, x, y))
                if x.val is None and y.val is None:
                    # what else this says about the pair
                    for o, p, q, r in ((("lt", y, x, False), ("eq", x, y, False), ("eq", y, x, False), ("le", y, x, False), ("le", x, y, True), ("lt", x, y, True)) if op == "lt" else (("lt", y, x, False), ("le", x, y, True))):
                        c = tm.cmp(o, p, q)
                        if c.val is None and c.op == o: self.bools.setdefault(c.id, r)
            if x.ty == "f" and x.val is None and y.val is None:
                z = above(0.0) if op == "lt" else 0.0
                for u, r in ((tm.F("sub", y, x), (z, INF)), (tm.F("sub", x, y), (-INF, -z))):
                    if u.val is None: self.facts[u.id] = inter(self.facts.get(u.id, TOP), r)
                self.memo = {}
            if op == "lt" and x.ty == "f": iy, ix = (iy[0], below(iy[1])), (above(ix[0]), ix[1])
            self.bound(x, (-INF, iy[1])); self.bound(y, (ix[0], INF))
    def bound(self, t, r, depth=0):
        cur = self.iv(t)
        n = inter(cur, r)
        if t.op in ("floor", "ceil", "trunc", "round", "rte"):
            n = (n[0] if math.isinf(n[0]) else float(math.ceil(n[0])), n[1] if math.isinf(n[1]) else float(math.floor(n[1])))
        if n[0] > n[1]: raise Infeasible()
        if n == cur: return
        self.facts[t.id] = inter(self.facts.get(t.id, TOP), n)
        for u in self.alias.get(t.id, ()): self.facts[u.id] = inter(self.facts.get(u.id, TOP), n)
        self.memo = {}
        if depth > 24: return
        op, a = t.op, t.args
        g = self.iv
        d = depth + 1
        if op in ("add", "iadd"):
            self.bound(a[0], sub(n, g(a[1])), d); self.bound(a[1], sub(n, g(a[0])), d)
        elif op in ("sub", "isub"):
            if a[0] is not a[1]:
                self.bound(a[0], add(n, g(a[1])), d); self.bound(a[1], sub(g(a[0]), n), d)
        elif op in ("neg", "ineg"): self.bound(a[0], (-n[1], -n[0]), d)
        elif op == "mul":
            for i in (0, 1):
                o = g(a[1 - i])
                if a[0] is not a[1] and (o[0] > 0 or o[1] < 0): self.bound(a[i], widen(div(n, o)), d)
        elif op == "div":
            o = g(a[1])
            if o[0] > 0 or o[1] < 0: self.bound(a[0], widen(mul(n, o)), d)
        elif op == "abs":
            self.bound(a[0], (-n[1], n[1]), d)
        elif op in ("i2f",): self.bound(a[0], n, d)
        elif op == "sqrt":
            lo = max(0.0, n[0]); self.bound(a[0], widen((lo * lo, n[1] * n[1] if n[1] < 1e150 else INF)), d)
        elif op == "ite":
            c = self.bool(a[0])
            if c is not None: self.bound(a[1] if c else a[2], n, d)
def below(x): return x if math.isinf(x) else math.nextafter(x, -INF)
def above(x): return x if math.isinf(x) else math.nextafter(x, INF)
def widen(r):
    return (r[0] - abs(r[0]) * 1e-15 if not math.isinf(r[0]) else r[0], r[1] + abs(r[1]) * 1e-15 if not math.isinf(r[1]) else r[1])
