"""Random interpretation of value graphs in a finite field (Gulwani & Necula, POPL 2004).

Every node of a value graph gets a value in F_p under a randomly drawn assignment of its symbols.  Equal expressions
get equal values by construction (the field laws, angle addition, exp/ln laws, sqrt and |x| via the quadratic
character), different ones get different values except with probability about degree / 2^146.
"""
import hashlib, heapq, math
from fractions import Fraction
from . import terms as tm
from .terms import T

P = 84091363614769560350014540621896598687229687
Q = 1979648110353563801          # prime, Q | (P+1)/24: order of the rotation group used for angles
Q2 = 1789238632544144347         # prime, Q2 | P-1: order of the group used for exp
HALF = (P - 1) // 2

class Retry(Exception):
    pass
class TooBig(Exception):
    pass
BOT = object()

def H(*xs):
    h = hashlib.blake2b(repr(xs).encode(), digest_size=32).digest()
    return int.from_bytes(h, "little")

def inv(a):
    if a % P == 0: raise Retry("division by zero")
    return pow(a, -1, P)
def chi(a):
    a %= P
    if a == 0: return 0
    return 1 if pow(a, HALF, P) == 1 else -1
def qroot(a):
    """the square root that is itself a square (p = 3 mod 4); a must be a square"""
    r = pow(a, (P + 1) // 4, P)
    return r if chi(r) >= 0 else P - r
def cmul(a, b): return ((a[0] * b[0] - a[1] * b[1]) % P, (a[0] * b[1] + a[1] * b[0]) % P)
def cpow(a, n):
    r = (1, 0)
    if n < 0: a = (a[0], -a[1] % P); n = -n
    while n:
        if n & 1: r = cmul(r, a)
        a = cmul(a, a); n >>= 1
    return r
def _gens():
    x = 2
    while True:          # element of norm 1 with the wanted order
        n = (x * x + 1) % P
        z = cmul((x, 1), cmul((x, 1), (inv(n), 0)))      # (x+i)/(x-i)
        h = cpow(z, (P + 1) // Q)
        u = cpow(z, (P + 1) // 24)
        if h != (1, 0) and cpow(u, 12) != (1, 0) and cpow(u, 8) != (1, 0): break
        x += 1
    g = 2
    while pow(g, (P - 1) // Q2, P) == 1: g += 1
    return h, u, pow(g, (P - 1) // Q2, P)
HQ, U24, GE = _gens()
def _pick_zeta():
    # the primitive 24th root whose small multiples look like angles in the first quadrant: cos, sin squares
    best = None
    for k in (1, 5, 7, 11, 13, 17, 19, 23):
        z = cpow(U24, k)
        ok = all(chi(cpow(z, j)[0]) == 1 and chi(cpow(z, j)[1]) == 1 for j in (1, 2, 3, 4, 5)) and cpow(z, 6) == (0, 1)
        if ok: return z
        if cpow(z, 6) == (0, 1):
            sc = sum(chi(cpow(z, j)[0]) + chi(cpow(z, j)[1]) for j in (1, 2, 3, 4, 5))
            if best is None or sc > best[0]: best = (sc, z)
    return best[1]
Z24 = _pick_zeta()

PI = math.pi
_rat = {}
def rationalise(x):
    """float constant -> (Fraction, power of pi)"""
    if x - x != 0: return Fraction(0), 0
    r = _rat.get(x)
    if r is not None: return r
    r = _rationalise(x)
    _rat[x] = r
    return r
def _rationalise(x):
    if x == 0: return Fraction(0), 0
    s = repr(abs(x))
    digits = s.split("e")[0].replace(".", "").strip("0")
    if len(digits) <= 13: return Fraction(repr(x)), 0
    for k in (1, -1, 2, -2):
        y = x / PI ** k
        f = Fraction(y).limit_denominator(1000000)
        if f != 0 and abs(float(f) - y) <= 4e-16 * abs(y) and (f.denominator <= 4000 or (f.numerator in (1, -1, 2, -2) and f.denominator < 1000001) or len(str(f.numerator)) + len(str(f.denominator)) <= 8):
            return f, k
    f = Fraction(x).limit_denominator(100000)
    if f != 0 and abs(float(f) - x) <= 3e-16 * abs(x) and len(str(abs(f.numerator))) + len(str(f.denominator)) <= 10: return f, 0
    return Fraction("%.13e" % x), 0

INTOPS = ("trunc", "floor", "ceil", "round", "rte", "i2f")

class Poly(dict):
    """monomial (sorted tuple of (atom, exp)) -> Fraction"""
def padd(a, b, k=1):
    r = Poly(a)
    for m, c in b.items():
        n = r.get(m, 0) + k * c
        if n: r[m] = n
        else: r.pop(m, None)
    return r
def pscale(a, k): return Poly({m: c * k for m, c in a.items()}) if k else Poly()
def pmul(a, b, cap):
    if len(a) * len(b) > cap: raise TooBig()
    r = Poly()
    for m, c in a.items():
        for n, d in b.items():
            e = dict(m)
            for at, x in n: e[at] = e.get(at, 0) + x
            mm = tuple(sorted((at, x) for at, x in e.items() if x))
            v = r.get(mm, 0) + c * d
            if v: r[mm] = v
            else: r.pop(mm, None)
    return r
PIAT = ("pi",)
def pconst(fr, k=0):
    if fr == 0: return Poly()
    return Poly({(((PIAT, k),) if k else ()): Fraction(fr)})

class Point:
    """one random assignment; nonneg(t) tells whether a node is known to be >= 0"""
    CAP = 120
    DEEP = 5
    def __init__(self, seed, sign=None, soft=False):
        self.seed = seed
        self.soft = soft          # a node without a value only spoils the nodes above it
        self.memo = {}
        self.pmemo = {}
        self.pcanon = {}
        self.sign = sign or (lambda t: None)
        self.atoms = None
        self.depth = {}
        self.hard = 0
        self.pi = self.h("pi")
        # pi is positive
        if chi(self.pi) < 0: self.pi = P - self.pi
    def h(self, *xs): return H(self.seed, *xs) % P

    # ---- numbers
    def v(self, t):
        r = self.memo.get(t.id)
        if r is None:
            # iterative post-order to avoid deep recursion
            stack = [t]
            while stack:
                x = stack[-1]
                if x.id in self.memo: stack.pop(); continue
                pend = [a for a in x.args if isinstance(a, T) and a.id not in self.memo and a.ty in ("f", "i")] if x.ty != "b" else []
                if x.ty == "b":
                    stack.pop()
                    if self.soft:
                        try: self.memo[x.id] = self.boolv(x)
                        except Retry: self.memo[x.id] = BOT
                    else: self.memo[x.id] = self.boolv(x)
                    continue
                if x.op == "ite": pend = [a for a in self.iteleaves(x) if a.id not in self.memo]
                if pend: stack.extend(pend); continue
                stack.pop()
                d = 0
                for a in x.args:
                    if isinstance(a, T): d = max(d, self.depth.get(a.id, 0))
                self.depth[x.id] = d + (1 if x.op in ("sqrt", "atan2", "asin", "acos", "atan") else 0)
                if self.soft:
                    try: self.memo[x.id] = self.comp(x) % P
                    except Retry: self.memo[x.id] = BOT
                else: self.memo[x.id] = self.comp(x) % P
            r = self.memo[t.id]
        if r is BOT: raise Retry("no value")
        return r
    def comp(self, t):
        op, a = t.op, t.args
        v = self.v
        if op == "fc":
            if t.val != t.val: return self.h("nan")
            if math.isinf(t.val): return self.h("inf") if t.val > 0 else -self.h("inf")
            f, k = rationalise(t.val)
            return self.fr(f) * pow(self.pi, k, P) if k >= 0 else self.fr(f) * inv(pow(self.pi, -k, P))
        if op == "ic": return t.val
        if op == "sym": return self.symv(t)
        if op == "add" or op == "iadd": return v(a[0]) + v(a[1])
        if op == "sub" or op == "isub": return v(a[0]) - v(a[1])
        if op == "mul" or op == "imul": return v(a[0]) * v(a[1])
        if op == "div": return v(a[0]) * inv(v(a[1]))
        if op in ("neg", "ineg"): return -v(a[0])
        if op == "i2f": return v(a[0])
        if op == "ite": return self.itev(t)
        if op == "sqrt":
            x = v(a[0])
            c = chi(x)
            if c >= 0: return qroot(x) if c else 0
            if self.depth.get(t.id, 0) > self.DEEP: return qroot(P - x) * self.h("I")
            raise Retry("sqrt of a non-residue")
        if op == "cbrt": return pow(v(a[0]), pow(3, -1, P - 1), P)
        if op == "abs":
            x = v(a[0]); c = chi(x)
            s = self.sign(a[0])
            if s is not None and c != 0 and ((s >= 0 and c < 0) or (s < 0 and c > 0)) and self.depth.get(t.id, 0) <= self.DEEP: raise Retry("sign fact")
            return x if c >= 0 else -x
        if op == "signum":
            c = chi(v(a[0]))
            return 1 if c >= 0 else -1
        if op == "copysign":
            x, y = v(a[0]), v(a[1])
            x = x if chi(x) >= 0 else -x
            return x if chi(y) >= 0 else -x
        if op in ("sin", "cos", "tan"):
            c, s = self.circle(a[0])
            if op == "cos" and self.depth.get(t.id, 0) <= self.DEEP:
                sg = self.sign(t)
                if sg is not None and sg > 0 and chi(c) < 0: raise Retry("sign fact")
            return s if op == "sin" else c if op == "cos" else s * inv(c)
        if op in ("atan2", "asin", "acos", "atan"):
            return self.angval(self.angpt(t))
        if op == "exp": return self.expv(self.poly(a[0]))
        if op == "expm1": return self.expv(self.poly(a[0])) - 1
        if op in ("sinh", "cosh", "tanh"):
            e = self.expv(self.poly(a[0])); ei = inv(e)
            if op == "sinh": return (e - ei) * inv(2)
            if op == "cosh": return (e + ei) * inv(2)
            return (e - ei) * inv(e + ei)
        if op in ("ln", "ln1p", "atanh", "asinh", "acosh"): return self.pval(self.lnpoly(t))
        if op == "powf":
            return self.expv(self.mulp(self.poly(a[1]), self.lnpoly_of(a[0])))
        if op == "rem": return v(a[0]) - v(a[1]) * self.intat("trunc", v(a[0]) * inv(v(a[1])))
        if op in ("trunc", "floor", "ceil", "round", "rte"): return self.intat(op, v(a[0]))
        if op == "irem" or op == "idiv" or op == "f2i": return self.h(op, *[v(x) if isinstance(x, T) else x for x in a])
        return self.h(op, *[self.any(x) for x in a])
    def any(self, x):
        if isinstance(x, T):
            if x.ty in ("f", "i"): return self.v(x)
            if x.ty == "b": return self.boolv(x)
            return ("o", x.op, tuple(self.any(y) for y in x.args))
        if isinstance(x, tuple): return tuple(self.any(y) for y in x)
        return x
    def intat(self, op, x):
        x %= P
        # a known integer stays itself
        f = ratrec(x)
        if f is not None and f.denominator == 1: return f.numerator
        if f is not None:
            n = f.numerator / f.denominator
            if op == "trunc": return math.trunc(n)
            if op == "floor": return math.floor(n)
        if op == "trunc" and chi(x) < 0: return -self.h("trunc", P - x)       # odd function
        return self.h(op, x)
    def fr(self, f): return f.numerator % P * (inv(f.denominator % P) if f.denominator != 1 else 1) % P
    def symv(self, t):
        x = self.h("sym", t.args[0])
        s = self.sign(t)
        if s is not None and s > 0 and chi(x) < 0: x = P - x
        if s is not None and s < 0 and chi(x) > 0: x = P - x
        if s == 0: pass
        return x
    # ---- polynomials over atoms (for angles and exponents)
    def poly(self, t):
        r = self.pmemo.get(t.id)
        if r is None:
            try:
                r = self._poly(t)
                if len(r) > self.CAP: raise TooBig()
            except TooBig:
                r = self.atom(("v", self.v(t)))
            if t.ty == "f": r = self.pcanon.setdefault(self.v(t), r)     # one form per value
            self.pmemo[t.id] = r
        return r
    def atom(self, at): return Poly({((at, 1),): Fraction(1)})
    def mulp(self, a, b): return pmul(a, b, self.CAP)
    def _poly(self, t):
        op, a = t.op, t.args
        if op == "fc":
            if t.val != t.val or math.isinf(t.val): return self.atom(("v", self.v(t)))
            return pconst(*rationalise(t.val))
        if op == "ic": return pconst(Fraction(t.val))
        if op in ("add", "iadd"): return padd(self.poly(a[0]), self.poly(a[1]))
        if op in ("sub", "isub"): return padd(self.poly(a[0]), self.poly(a[1]), -1)
        if op in ("neg", "ineg"): return pscale(self.poly(a[0]), -1)
        if op in ("mul", "imul"): return self.mulp(self.poly(a[0]), self.poly(a[1]))
        if op == "div":
            d = self.poly(a[1])
            if len(d) == 1:
                (m, c), = d.items()
                return self.mulp(self.poly(a[0]), Poly({tuple((x, -e) for x, e in m): 1 / c}))
            iv = inv(self.v(a[1]))
            return self.mulp(self.poly(a[0]), self.atom(("v", iv)))
        if op == "rem":
            n = self.atom(("int", self.intat("trunc", self.v(a[0]) * inv(self.v(a[1])))))
            return padd(self.poly(a[0]), self.mulp(self.poly(a[1]), n), -1)
        if op == "i2f": return self.poly(a[0])
        if op in ("trunc", "floor", "ceil", "round", "rte", "f2i"):
            x = self.v(t); f = ratrec(x)
            if f is not None and f.denominator == 1: return pconst(f)
            return self.atom(("int", x))
        if op in ("atan2", "asin", "acos", "atan"):
            z = self.angpt(t)
            k = unit_root(z)
            if k is not None: return pconst(Fraction(k, 12), 1)
            if self.isneg_ang(z): return pscale(self.atom(("ang", z[0], (P - z[1]) % P)), -1)
            return self.atom(("ang", z[0], z[1]))
        if op in ("ln", "ln1p", "atanh", "asinh", "acosh"): return self.lnpoly(t)
        x = self.v(t)
        f = ratrec(x)
        if f is not None: return pconst(f)
        if t.ty != "i" and op in ("abs", "copysign") and len(a) and chi(self.v(a[0])) != 0:
            y = self.v(a[0])
            if x == y: return self.poly(a[0])
            if (x + y) % P == 0: return pscale(self.poly(a[0]), -1)
        return self.atom(("int" if t.ty == "i" else "v", x))
    def pval(self, p):
        s = 0
        for m, c in p.items():
            x = self.fr(c)
            for at, e in m:
                x = x * (pow(self.atval(at), e, P) if e > 0 else inv(pow(self.atval(at), -e, P))) % P
            s += x
        return s % P
    def atval(self, at):
        if at == PIAT: return self.pi
        if at[0] in ("v", "int"): return at[1]
        if at[0] == "ang": return self.angval((at[1], at[2]))
        if at[0] == "ln": return self.h("ln", at[1])
        raise KeyError(at)
    # ---- angles
    def isneg_ang(self, z): return chi(z[1]) < 0
    def angval(self, z):
        k = unit_root(z)
        if k is not None: return k * self.pi * inv(12)
        if self.isneg_ang(z): return -self.h("ang", z[0], P - z[1])
        return self.h("ang", z[0], z[1])
    def root(self, x, t=None):
        c = chi(x)
        if c < 0:
            if t is not None and self.depth.get(t.id, 0) > self.DEEP: return qroot(P - x) * self.h("I") % P
            raise Retry("root of a non-residue")
        return qroot(x % P) if c else 0
    def angpt(self, t):
        op, a = t.op, t.args
        u = self.v(a[0])
        if op == "atan2":
            x = self.v(a[1])
            r = self.root((u * u + x * x) % P, t)
            ri = inv(r)
            return (x * ri % P, u * ri % P)
        if op == "atan":
            ri = inv(self.root((1 + u * u) % P, t))
            return (ri, u * ri % P)
        if op == "asin": return (self.root((1 - u * u) % P, t), u % P)
        return (u % P, self.root((1 - u * u) % P, t))
    def circle(self, t):
        p = self.poly(t)
        z = (1, 0)
        ex = 0
        for m, c in p.items():
            if m == ((PIAT, 1),):
                k = math.floor(c * 12)
                z = cmul(z, cpow(Z24, k % 24))
                rest = c - Fraction(k, 12)
                if rest: ex += int(H(self.seed, "pirest") % Q) * rest.numerator * pow(rest.denominator, -1, Q)
                continue
            if len(m) == 1 and m[0][1] == 1 and m[0][0][0] == "ang":
                at = m[0][0]
                w, d = (at[1], at[2]), c.denominator
                while d % 2 == 0:
                    # half angle: cos >= 0 for an angle in (-pi, pi]
                    cc = self.root((1 + w[0]) * inv(2) % P)
                    w = (cc, w[1] * inv(2 * cc) % P); d //= 2
                if d == 1:
                    z = cmul(z, cpow(w, c.numerator)); continue
            if len(m) == 2 and dict(m).get(PIAT) == 1 and all(x == PIAT or (x[0] == "int" and e == 1) for x, e in m) and c.denominator == 1 and c.numerator % 2 == 0:
                continue                                     # whole turns
            ex += int(H(self.seed, "mono", m) % Q) * c.numerator * pow(c.denominator, -1, Q)
        return cmul(z, cpow(HQ, ex % Q))
    # ---- exp / ln
    def expv(self, p):
        r, ex = 1, 0
        for m, c in p.items():
            if len(m) == 1 and m[0][1] == 1 and m[0][0][0] == "ln":
                u, d = m[0][0][1], c.denominator
                while d % 2 == 0: u = self.root(u); d //= 2
                if d == 1:
                    r = r * (pow(u, c.numerator, P) if c.numerator >= 0 else inv(pow(u, -c.numerator, P))) % P
                    continue
            ex += int(H(self.seed, "emono", m) % Q2) * c.numerator * pow(c.denominator, -1, Q2)
        return r * pow(GE, ex % Q2, P) % P
    def lnatom(self, u):
        u %= P
        if u == 1: return Poly()
        w = inv(u)
        if w < u: return pscale(self.atom(("ln", w)), -1)
        return self.atom(("ln", u))
    def lnpoly_of(self, t):
        """ln of node t as a polynomial"""
        op, a = t.op, t.args
        if op == "mul": return padd(self.lnpoly_of(a[0]), self.lnpoly_of(a[1]))
        if op == "div": return padd(self.lnpoly_of(a[0]), self.lnpoly_of(a[1]), -1)
        if op == "sqrt": return pscale(self.lnpoly_of(a[0]), Fraction(1, 2))
        if op == "cbrt": return pscale(self.lnpoly_of(a[0]), Fraction(1, 3))
        if op == "exp": return self.poly(a[0])
        if op == "powf": return self.mulp(self.poly(a[1]), self.lnpoly_of(a[0]))
        if op == "tan":
            c, s = self.circle(a[0]); return self.lnatom(s * inv(c))
        return self.lnatom(self.v(t))
    def lnpoly(self, t):
        op = t.op; x = t.args[0]
        if op == "ln": return self.lnpoly_of(x)
        u = self.v(x)
        if op == "ln1p": return self.lnatom(1 + u)
        if op == "atanh": return pscale(self.lnatom((1 + u) * inv(1 - u)), Fraction(1, 2))
        if op == "asinh": return self.lnatom(u + self.root((u * u + 1) % P, t))
        return self.lnatom(u + self.root((u * u - 1) % P, t))
    # ---- conditions: multi-valued decision diagrams over sign atoms
    def iteleaves(self, t):
        out, seen, st = [], set(), [t]
        while st:
            x = st.pop()
            if x.id in seen: continue
            seen.add(x.id)
            if x.op == "ite": st.extend(x.args[1:3])
            else: out.append(x)
        return out
    def itev(self, t, guard=1):
        """expectation of the decision tree over independent random signs: equal functions have equal expectations"""
        D = self._dds()
        if t.op != "ite": return D.value(guard) * self.v(t) % P
        reg, todo, s = {t.id: guard}, [(-t.id, t)], {}
        heapq.heapify(todo)
        while todo:
            x = heapq.heappop(todo)[1]
            g = reg.pop(x.id, None)
            if g is None or g == 0: continue
            c = D.of(x.args[0])
            for y, d in ((x.args[1], D.apply("and", g, c)), (x.args[2], D.apply("and", g, D.neg(c)))):
                if d == 0: continue
                if y.op == "ite" and y.val is None:
                    if y.id in reg: reg[y.id] = D.apply("or", reg[y.id], d)
                    else: reg[y.id] = d; heapq.heappush(todo, (-y.id, y))
                else:
                    v = self.v(y)
                    s[v] = (s.get(v, 0) + D.value(d)) % P
        if guard == 1 and len(s) == 1: return next(iter(s))
        return sum(v * w for v, w in s.items()) % P
    def boolv(self, t):
        r = self.memo.get(t.id)
        if r is None:
            r = self.ddval(self.dd(t)); self.memo[t.id] = r
        if r is BOT: raise Retry("no value")
        return r
    def dd(self, t):
        D = self._dds()
        return D.of(t)
    def _dds(self):
        if self.atoms is None: self.atoms = DDs(self)
        return self.atoms
    def ddval(self, d): return self._dds().value(d)

_rr = {}
def ratrec(x):
    """small rational equal to x mod P, if any"""
    if x in _rr: return _rr[x]
    r0, r1, t0, t1 = P, x % P, 0, 1
    B = 1 << 40
    while r1 > B:
        q = r0 // r1
        r0, r1, t0, t1 = r1, r0 - q * r1, t1, t0 - q * t1
    res = None
    if t1 != 0 and abs(t1) <= B:
        n, d = (r1, t1) if t1 > 0 else (-r1, -t1)
        if math.gcd(n, d) == 1: res = Fraction(n, d)
    if len(_rr) < 2000000: _rr[x] = res
    return res
_roots = {}
def unit_root(z):
    if not _roots:
        for k in range(24):
            kk = k if k <= 12 else k - 24
            _roots[cpow(Z24, k)] = kk
    return _roots.get((z[0] % P, z[1] % P))

class DDs:
    """canonical decision diagrams; atoms are signs of field elements, compared up to a rational factor times pi^k"""
    def __init__(self, pt):
        self.pt = pt
        self.at = {}                 # canonical value -> index
        self.info = []
        self.nodes = {}              # (atom, lo, mid, hi) -> id
        self.tab = [None, None]      # 0 = false, 1 = true
        self.vals = {0: 0, 1: 1}
        self.memo = {}
        self.amemo = {}
        self.bydiff = {}
    def atom(self, d):
        """field value d -> (index, orientation)"""
        d %= P
        if d == 0: return None, 0
        f = ratrec(d)
        if f is not None: return None, (1 if f > 0 else -1)
        e = self.at.get(d)
        if e is None:
            # same atom up to a rational factor?
            for k, (i, _) in list(self.at.items()):
                if i[1] != 1: continue
                q = d * inv(k) % P
                r = ratrec(q)
                if r is None:
                    for pk in (self.pt.pi, inv(self.pt.pi)):
                        r = ratrec(q * pk % P)
                        if r is not None: break
                if r is not None and abs(r.numerator) < 1 << 24 and r.denominator < 1 << 24:
                    s = 1 if r > 0 else -1
                    self.at[d] = ((i[0], 0), s)
                    return i[0], s
            # constant times pi^k?
            for pk, _ in ((self.pt.pi, 0), (inv(self.pt.pi), 0)):
                f = ratrec(d * pk % P)
                if f is not None: return None, (1 if f > 0 else -1)
            idx = len(self.info)
            self.info.append(d)
            self.at[d] = ((idx, 1), 1)
            return idx, 1
        return e[0][0], e[1]
    def mk(self, a, lo, mid, hi):
        if lo == mid == hi: return lo
        k = (a, lo, mid, hi)
        n = self.nodes.get(k)
        if n is None:
            n = len(self.tab); self.tab.append(k); self.nodes[k] = n
        return n
    def value(self, n):
        v = self.vals.get(n)
        if v is None:
            a, lo, mid, hi = self.tab[n]
            key = a if isinstance(a, tuple) else self.info[a]
            w0, w1 = self.pt.h("w0", key), self.pt.h("w1", key)
            v = (w0 * self.value(lo) + w1 * self.value(mid) + (1 - w0 - w1) * self.value(hi)) % P
            self.vals[n] = v
        return v
    def key(self, a): return (0, a) if isinstance(a, int) else (1,) + a
    def apply(self, op, x, y):
        if op == "and":
            if x == 0 or y == 0: return 0
            if x == 1: return y
            if y == 1 or x == y: return x
        else:
            if x == 1 or y == 1: return 1
            if x == 0: return y
            if y == 0 or x == y: return x
        if x > y: x, y = y, x
        k = (op, x, y)
        r = self.memo.get(k)
        if r is None:
            ax, ay = self.tab[x][0], self.tab[y][0]
            if self.key(ax) == self.key(ay):
                r = self.mk(ax, *[self.apply(op, self.tab[x][i], self.tab[y][i]) for i in (1, 2, 3)])
            elif self.key(ax) < self.key(ay):
                r = self.mk(ax, *[self.apply(op, self.tab[x][i], y) for i in (1, 2, 3)])
            else:
                r = self.mk(ay, *[self.apply(op, x, self.tab[y][i]) for i in (1, 2, 3)])
            self.memo[k] = r
        return r
    def neg(self, x):
        if x < 2: return 1 - x
        k = ("not", x)
        r = self.memo.get(k)
        if r is None:
            a, lo, mid, hi = self.tab[x]
            r = self.mk(a, self.neg(lo), self.neg(mid), self.neg(hi))
            self.memo[k] = r
        return r
    def of(self, t):
        r = self.amemo.get(t.id)
        if r is None:
            r = self._of(t); self.amemo[t.id] = r
        return r
    def _of(self, t):
        if t.val is not None: return 1 if t.val else 0
        op, a = t.op, t.args
        if op == "not": return self.neg(self.of(a[0]))
        if op == "and": return self.apply("and", self.of(a[0]), self.of(a[1]))
        if op == "or": return self.apply("or", self.of(a[0]), self.of(a[1]))
        if op == "ite":
            c, x, y = self.of(a[0]), self.of(a[1]), self.of(a[2])
            return self.apply("or", self.apply("and", c, x), self.apply("and", self.neg(c), y))
        if op in ("eq", "lt", "le") and a[0].ty in ("f", "i"):
            d = self.pt.v(a[0]) - self.pt.v(a[1])
            # comparisons with an infinity: finite values only
            for x, y, s in ((a[0], a[1], 1), (a[1], a[0], -1)):
                if x.op == "fc" and math.isinf(x.val):
                    sg = s * (1 if x.val > 0 else -1)
                    return int({"eq": False, "lt": sg < 0, "le": sg < 0}[op])
            i, s = self.atom(d)
            if i is None: return int({"eq": s == 0, "lt": s < 0, "le": s <= 0}[op])
            tv = {"eq": (0, 1, 0), "lt": (1, 0, 0), "le": (1, 1, 0)}[op]
            if s < 0: tv = tv[::-1]
            return self.mk(i, *tv)
        if op == "eq" and a[0].ty == "b":
            x, y = self.of(a[0]), self.of(a[1])
            return self.apply("or", self.apply("and", x, y), self.apply("and", self.neg(x), self.neg(y)))
        if op == "ordered": return 1
        if op == "ovf": return 0
        if op == "signbit":
            i, s = self.atom(self.pt.v(a[0]))
            if i is None: return int(s < 0)
            return self.mk(i, *((1, 0, 0) if s > 0 else (0, 0, 1)))
        if op == "sym": at = ("b", "sym", a[0])
        else: at = ("b", op, str(self.pt.any(a)))
        return self.mk(at, 0, 0, 1)
