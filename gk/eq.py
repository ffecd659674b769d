"""Deciding equalities and invariants of value graphs.

prove:   random interpretation in F_p, splitting on the sign of a comparison only where the plain comparison fails, with
         interval pruning of impossible sign combinations.
refute:  a point of the assumed input domain at which the two value graphs provably have different values (40 digit
         evaluation of both graphs; the graphs, not the program, are evaluated).
An obligation that is neither proved nor refuted is reported as undecided, never as a violation.
"""
import heapq, math, random, hashlib, time
import mpmath
from mpmath import mp, mpf
from . import terms as tm
from .terms import T, mk, fc, ic, bc, F, I, ite, bnot, band, bor, cmp, sym, TRUE, FALSE
from .fp import Point, Retry, P, rationalise, chi
from .iv import Env, Infeasible, inter, itedepth
from .interp import Agg, EnumV, Ref, VecV, Str, IteV, IterV, Opq, UNINIT, Unsupported
mp.dps = 90
NOISE = mpf(10) ** -60          # differences below this come from rounding in the evaluation itself

# ---------------------------------------------------------------- flattening result values
def flatten(a, b, guard, out, path, load):
    """compare two abstract values -> list of (path, guard, termA, termB); structural mismatch -> term pair (TRUE, FALSE)"""
    la, lb = load
    if isinstance(a, IteV):
        flatten(a.a, b, band(guard, a.c), out, path, load); flatten(a.b, b, band(guard, bnot(a.c)), out, path, load); return
    if isinstance(b, IteV):
        flatten(a, b.a, band(guard, b.c), out, path, load); flatten(a, b.b, band(guard, bnot(b.c)), out, path, load); return
    if a is UNINIT or b is UNINIT: return
    if isinstance(a, Ref) and isinstance(b, Ref): return flatten(la(a), lb(b), guard, out, path, load)
    if isinstance(a, Ref): return flatten(la(a), b, guard, out, path, load)
    if isinstance(b, Ref): return flatten(a, lb(b), guard, out, path, load)
    if isinstance(a, T) and isinstance(b, T):
        out.append((path, guard, a, b)); return
    if isinstance(a, (Agg, VecV)) and isinstance(b, (Agg, VecV)):
        x = a.f if isinstance(a, Agg) else a.e; y = b.f if isinstance(b, Agg) else b.e
        if len(x) != len(y):
            out.append((path + ".len", guard, ic(len(x)), ic(len(y)))); return
        for i, (p, q) in enumerate(zip(x, y)): flatten(p, q, guard, out, "%s.%d" % (path, i), load)
        return
    if isinstance(a, EnumV) and isinstance(b, EnumV):
        out.append((path + ".tag", guard, a.d, b.d))
        for k in sorted(set(a.v) & set(b.v)):
            g = band(guard, band(cmp("eq", a.d, ic(k)), cmp("eq", b.d, ic(k))))
            if g.val is False: continue
            x, y = a.v[k], b.v[k]
            if len(x) != len(y): continue
            for i, (p, q) in enumerate(zip(x, y)): flatten(p, q, g, out, "%s.v%d.%d" % (path, k, i), load)
        return
    if isinstance(a, Str) and isinstance(b, Str):
        out.append((path, guard, TRUE, bc(a.s == b.s))); return
    if isinstance(a, (Opq, Str)) and isinstance(b, (Opq, Str)):
        ta = a.t if isinstance(a, Opq) else mk("strc", (a.s,), "o"); tb = b.t if isinstance(b, Opq) else mk("strc", (b.s,), "o")
        out.append((path, guard, TRUE, TRUE if ta is tb else cmp("eq", ta, tb) if ta.op != "strc" or tb.op != "strc" else FALSE)); return
    if isinstance(a, IterV) or isinstance(b, IterV): return
    raise Unsupported("cannot compare %s with %s" % (type(a).__name__, type(b).__name__))

# ---------------------------------------------------------------- rewriting under facts
class Rw:
    REAL = False  # identities of the reals may be used (equalities), as opposed to IEEE facts only (ranges)
    def __init__(self, env, sub=None): self.env, self.sub, self.memo = env, sub or {}, {}
    def __call__(self, t):
        r = self.memo.get(t.id)
        if r is not None: return r
        stack = [(t, 0)]
        while stack:
            x, ph = stack.pop()
            if x.id in self.memo: continue
            if x.id in self.sub:
                self.memo[x.id] = self.sub[x.id]; continue
            if x.val is not None or x.op == "sym":
                if x.ty == "b" and x.op == "sym":
                    b = self.env.bool(x)
                    self.memo[x.id] = x if b is None else bc(b)
                else: self.memo[x.id] = x
                continue
            if x.op in ("floor", "ceil", "trunc", "round", "rte", "uf") and x.id in self.env.facts:
                lo, hi = self.env.iv(x)
                if lo == hi and not math.isinf(lo): self.memo[x.id] = fc(float(lo)); continue
            if x.op == "ite":
                c = self.env.bool(x.args[0])
                if c is not None:
                    y = x.args[1] if c else x.args[2]
                    if y.id in self.memo: self.memo[x.id] = self.memo[y.id]
                    else: stack.append((x, 0)); stack.append((y, 0))
                    continue
            if x.ty == "b":
                c = self.env.bool(x)
                if c is not None: self.memo[x.id] = bc(c); continue
            kids = [a for a in x.args if isinstance(a, T) and a.ty != "o"]
            pend = [a for a in kids if a.id not in self.memo]
            if pend:
                stack.append((x, 0)); stack.extend((a, 0) for a in pend); continue
            self.memo[x.id] = self.build(x)
        return self.memo[t.id]
    def build(self, x):
        a = [self.memo[k.id] if isinstance(k, T) and k.ty != "o" else k for k in x.args]
        op = x.op
        if op == "abs":
            i = inter(self.env.iv(x.args[0]), self.env.iv(a[0]))
            if i[0] >= 0: return a[0]
            if i[1] <= 0: return F("neg", a[0])
        if op == "signum":
            i = inter(self.env.iv(x.args[0]), self.env.iv(a[0]))
            if i[0] > 0: return fc(1.0)
            if i[1] < 0: return fc(-1.0)
        if op == "copysign":
            i = inter(self.env.iv(x.args[1]), self.env.iv(a[1]))
            if i[0] > 0: return F("abs", a[0])
            if i[1] < 0: return F("neg", F("abs", a[0]))
        if op == "trunc":
            i = inter(self.env.iv(x.args[0]), self.env.iv(a[0]))
            if -1 < i[0] and i[1] < 1: return fc(0.0)
            if i[0] >= 0: return F("floor", a[0])
            if i[1] <= 0: return F("neg", F("floor", F("neg", a[0])))
        if op == "rem":
            i, j = inter(self.env.iv(x.args[0]), self.env.iv(a[0])), inter(self.env.iv(x.args[1]), self.env.iv(a[1]))
            if j[0] == j[1] and -abs(j[0]) < i[0] and i[1] < abs(j[0]): return a[0]
        if op == "ite": return ite(*a)
        if op == "not": return bnot(a[0])
        if op == "and": return band(*a)
        if op == "or": return bor(*a)
        if op in ("eq", "lt", "le") and a[0].ty in ("f", "i", "b"):
            r = cmp(op, *a)
            if r.val is None:
                b = self.env.bool(r)
                if b is not None: return bc(b)
            return r
        if op == "sub" and Rw.REAL and a[0].op == "add":
            if a[0].args[1] is a[1]: return a[0].args[0]
            if a[0].args[0] is a[1]: return a[0].args[1]
        if x.ty == "f" and op not in ("uf", "i2f", "powi", "ffrombits"): return F(op, *a)
        if x.ty == "i" and op[0] == "i" and op not in ("inot",): return I(op, *a)
        if op == "i2f": return fc(float(a[0].val)) if a[0].val is not None else mk("i2f", tuple(a), "f")
        return mk(op, tuple(a), x.ty)

def rebuild(x, a):
    op = x.op
    if op == "ite": return ite(*a)
    if op == "not": return bnot(a[0])
    if op == "and": return band(*a)
    if op == "or": return bor(*a)
    if op in ("eq", "lt", "le") and a[0].ty in ("f", "i", "b"): return cmp(op, *a)
    if x.ty == "f" and op not in ("uf", "i2f", "powi", "ffrombits"): return F(op, *a)
    if x.ty == "i" and op[0] == "i" and op not in ("inot",): return I(op, *a)
    if op == "i2f": return fc(float(a[0].val)) if a[0].val is not None else mk("i2f", tuple(a), "f")
    return mk(op, tuple(a), x.ty)

def subterms(roots):
    seen, st = {}, list(roots)
    while st:
        t = st.pop()
        if not isinstance(t, T) or t.id in seen: continue
        seen[t.id] = t
        for a in t.args:
            if isinstance(a, T): st.append(a)
            elif isinstance(a, tuple): st.extend(_tt(a))
    return seen
def _tt(a):
    for x in a:
        if isinstance(x, T): yield x
        elif isinstance(x, tuple): yield from _tt(x)

SZ = {}
def size(t):
    r = SZ.get(t.id)
    if r is None: r = SZ[t.id] = len(subterms([t]))
    return r
def find_split(roots, env):
    """topmost undecided condition"""
    seen, q = set(), list(roots)
    late = None
    i = 0
    while i < len(q):
        t = q[i]; i += 1
        if t.id in seen: continue
        seen.add(t.id)
        if t.ty == "b":
            c = leafcond(t, env)
            if c is not None: return c
            continue
        if t.op == "ite":
            c = leafcond(t.args[0], env)
            if c is not None: return c
        if late is None:
            l = None
            if t.op == "rem" and t.args[1].val is not None:
                lo, hi = env.iv(t.args[0]); m = abs(t.args[1].val)
                if lo == -m and hi <= m: l = cmp("le", t.args[0], fc(-m))
                elif hi == m and lo >= -m: l = cmp("le", fc(m), t.args[0])
            elif t.op in ("abs", "signum", "trunc"): l = cmp("lt", t.args[0], fc(0.0))
            elif t.op == "copysign": l = cmp("lt", t.args[1], fc(0.0))
            if l is not None and l.val is None and env.bool(l) is None: late = l
        q.extend(a for a in t.args if isinstance(a, T) and a.ty in ("f", "i", "b"))
    if late is not None and env.bool(late) is None: return late
    return None
def leafcond(t, env):
    """an undecided atomic comparison inside a boolean"""
    if t.val is not None or env.bool(t) is not None: return None
    if t.op in ("not", "and", "or") or (t.op == "ite"):
        for a in t.args:
            if a.ty == "b":
                r = leafcond(a, env)
                if r is not None: return r
        return None
    if t.op == "eq" and t.args[0].ty == "b":
        for a in t.args:
            r = leafcond(a, env)
            if r is not None: return r
        return None
    return inner(t, env)
def inner(t, env):
    """the comparison itself, or an undecided condition its operands depend on"""
    if t.op in ("lt", "le", "eq"):
        seen, st = set(), [a for a in t.args if isinstance(a, T) and a.ty in ("f", "i")]
        while st:
            x = st.pop()
            if x.id in seen: continue
            seen.add(x.id)
            if x.op == "ite":
                r = leafcond(x.args[0], env)
                if r is not None: return r
            st.extend(a for a in x.args if isinstance(a, T) and a.ty in ("f", "i"))
    return t

def solve_eq(x, y, env=None):
    """x == y with a symbol that occurs linearly (outside rounding functions) -> substitution {node id: term} or None"""
    for a, b in ((x, y), (y, x)):
        if a.op in ("sym", "uf") and a.id not in subterms([b]): return {a.id: b}
    # peel linear operations
    for a, b in ((x, y), (y, x)):
        s = peel(a, b, 0, env)
        if s is not None: return s
    return None
def peel(a, b, depth=0, env=None):
    if depth > 14: return None
    if a.op in ("sym", "uf"):
        return {a.id: b} if a.ty == b.ty and a.id not in subterms([b]) else None
    if b.val is None and b.op != "sym" and len(subterms([b])) > 60: return None
    if a.op == "neg": return peel(a.args[0], F("neg", b), depth + 1, env)
    if a.op in ("add", "sub", "mul", "div") and len(a.args) == 2:
        l, r = a.args
        if a.op in ("add", "sub"):
            if l.val is None:
                s = peel(l, F("sub" if a.op == "add" else "add", b, r), depth + 1, env)
                if s is not None: return s
            if r.val is None:
                return peel(r, F("sub", b, l) if a.op == "add" else F("sub", l, b), depth + 1, env)
            return None
        if r.val is not None and r.val != 0: return peel(l, F("div" if a.op == "mul" else "mul", b, r), depth + 1, env)
        if l.val is not None and l.val != 0 and a.op == "mul": return peel(r, F("div", b, l), depth + 1, env)
        return None
    if a.op == "rem" and a.args[1].val is not None:
        # x rem m == b: x = b + m*N for an integer N
        n = mk("i2f", (sym("N#%d" % a.id, "i"),), "f")
        if env is not None:
            m = abs(a.args[1].val)
            (lo, hi), (bl, bh) = env.iv(a.args[0]), env.iv(b)
            if bh < 0: hi = min(hi, 0.0)
            if bl > 0: lo = max(lo, 0.0)
            if hi - lo <= 4 * m and bh - bl <= m / 2:
                ks = [k for k in range(-6, 7) if lo - 1e-9 * m <= bh + k * m and bl + k * m <= hi + 1e-9 * m]
                if len(ks) == 1: n = fc(float(ks[0]) * (1 if a.args[1].val > 0 else -1))
        s = peel(a.args[0], F("add", b, F("mul", a.args[1], n)), depth + 1, env)
        if s is not None: s[a.id] = b
        return s
    return None

# ---------------------------------------------------------------- prove
LIFT = {"sin", "cos", "tan", "sinh", "cosh", "tanh", "atan", "asin", "acos", "asinh", "atanh", "exp", "ln", "sqrt", "neg", "abs"}
def lift(op, t):
    """op(ite(c, x, y)) = ite(c, op(x), op(y))"""
    memo, st = {}, [t]
    while st:
        x = st[-1]
        if x.id in memo: st.pop(); continue
        if x.op != "ite": memo[x.id] = F(op, x); st.pop(); continue
        p = [a for a in x.args[1:3] if a.id not in memo]
        if p: st.extend(p); continue
        memo[x.id] = ite(x.args[0], memo[x.args[1].id], memo[x.args[2].id]); st.pop()
    return memo[t.id]
BRANCHY = {"abs", "signum", "copysign", "sqrt", "asin", "acos", "atan", "atan2", "asinh", "acosh"}
def show(t, d=8):
    if not isinstance(t, T): return repr(t)
    if t.val is not None: return str(t.val)
    if t.op == "sym": return t.args[0]
    if d == 0: return ".."
    return t.op + "(" + ",".join(show(a, d - 1) for a in t.args) + ")"
def orchain(t):
    """ite(c, K, ite(d, K, x)) = ite(c or d, K, x) on decision chains with constant results"""
    if t.op != "ite" or t.ty not in ("i", "b"): return t
    arms = []
    while t.op == "ite" and t.args[1].val is not None: arms.append(t.args[:2]); t = t.args[2]
    for c, k in reversed(arms):
        if t.op == "ite" and t.args[1] is k: t = ite(bor(c, t.args[0]), k, t.args[2])
        else: t = ite(c, k, t)
    return t
class Prover:
    MAXLEAF = 1500
    TRIES = 3000
    SEED, ROUNDS, EFFORT = 1, 1, 1
    BRPTS = 4
    SECS, RSECS = 150, 80     # per obligation: for proving, for refuting
    def __init__(self, facts=()):
        self.facts = list(facts)
        self.leaves = 0
        self.points = 0
        self.deadline = time.time() + self.SECS * self.EFFORT
    def base(self):
        e = Env()
        for t, p in self.facts: e.learn(t, p)
        return e
    def fpeq(self, env, pairs):
        """indices of the pairs that differ under random interpretation"""
        bad = self.fpeq1(env, pairs, [])
        if not bad: return bad
        # second attempt: points that also respect the signs of sums known by interval analysis
        extra, seen = [], set()
        for t in subterms([z for i in bad for z in pairs[i][2:4]]).values():
            if t.ty == "f" and t.op in ("add", "sub") and t.val is None and size(t) <= 60 and t.id not in seen:
                lo, hi = env.iv(t)
                if (lo >= 0 or hi <= 0) and not any(u.op in ("atan", "atan2", "asin", "acos") for u in subterms([t]).values()): seen.add(t.id); extra.append((t, 1 if lo >= 0 else -1))
        extra.sort(key=lambda c: size(c[0]))
        if not extra: return bad
        try: bad2 = self.fpeq1(env, [pairs[i] for i in bad], extra[:8])
        except Unsupported: return bad
        return [bad[i] for i in bad2]
    def fpeq1(self, env, pairs, extra):
        def sign(t):
            lo, hi = env.iv(t)
            return 1 if lo >= 0 else -1 if hi <= 0 else None
        # facts of the form 0 < t / t < 0 constrain the point
        cons, seen = [], set()
        for op, x, y in reversed(env.cmps):
            if op != "lt": continue
            c = (y, 1) if x.val == 0 and y.val is None else (x, -1) if y.val == 0 and x.val is None else None
            if c is not None and c[0].id not in seen: seen.add(c[0].id); cons.append(c)
        # signs enforced by rejection: keep the number small
        cons = [c for c in cons if c[0].op != "sym"][:12]
        have = {c[0].id for c in cons}
        cons += [c for c in extra if c[0].id not in have]
        todo = list(range(len(pairs)))
        last = None
        # absolute values and roots have a branch at each point: several points are needed
        br = any(t.op in BRANCHY for t in subterms([z for q in pairs for z in q[1:4]]).values())
        left, allbad = self.ROUNDS * (self.BRPTS if br and not extra else 1), set()
        for s in range(self.TRIES * self.ROUNDS * (6 if extra else 1)):
            if s % 64 == 63 and time.time() > self.deadline: break
            pt = Point(("pt", self.SEED, s), sign)
            try:
                for t, sg in cons:
                    if chi(pt.v(t)) == -sg: raise Retry("fact")
                bad = []
                for i in todo:
                    _, g, a, b = pairs[i]
                    x = pt.boolv(a) if a.ty == "b" else pt.v(a)
                    y = pt.boolv(b) if b.ty == "b" else pt.v(b)
                    if x != y:
                        # compare under the guard
                        if g.val is True: bad.append(i)
                        else:
                            gd = pt.dd(g)
                            if a.ty == "b":
                                D = pt._dds()
                                if D.apply("and", gd, pt.dd(a)) != D.apply("and", gd, pt.dd(b)): bad.append(i)
                            elif pt.itev(a, gd) != pt.itev(b, gd): bad.append(i)
                self.points += 1
                self.pt = pt
                if bad: bad = self.underfacts(pt, env, pairs, bad)
                allbad.update(bad); left -= 1
                if left and len(allbad) < len(todo): continue
                return sorted(allbad)
            except Retry as e:
                last = e
                continue
        raise Unsupported("no admissible random point (%s)" % last)
    def underfacts(self, pt, env, pairs, bad):
        """drop the pairs that are equal because of the comparison facts (as sign decision diagrams)"""
        conj, seen, n = TRUE, set(), 0
        for op, x, y in reversed(env.cmps):
            if (op, x.id, y.id) in seen or size(x) + size(y) > 150: continue
            if x.val is not None and y.op == "sym" or y.val is not None and x.op == "sym": continue
            seen.add((op, x.id, y.id))
            conj = band(conj, cmp(op, x, y)); n += 1
            if n > 30: break
        if conj is TRUE: return bad
        F0 = pt.dd(FALSE)
        if pt.dd(conj) == F0: return []
        out = []
        for i in bad:
            _, g, a, b = pairs[i]
            if a.ty == "b" and size(a) + size(b) < 600:
                xor = bor(band(a, bnot(b)), band(bnot(a), b))
                if pt.dd(band(band(conj, g), xor)) == F0: continue
            out.append(i)
        return out
    def prove(self, comps):
        """comps: [(path, guard, a, b)] -> list of unproved leaves [(path, env, subst)]"""
        self.leaves = 0
        self.bad = []
        try: e = self.base()
        except Infeasible: return []
        Rw.REAL = Env.REAL = True
        try:
            if any(size(z) > 6 for _, x, y in e.cmps for z in (x, y)):
                al = self.aliases(e, comps)
                if al:
                    e = Env(); e.alias = al
                    try:
                        for t, p in self.facts: e.learn(t, p)
                    except Infeasible: return []
            m = self.staged(e, comps)
            if m is not None:
                bad = []
                for c in m[1]:
                    # without the guard first: it is mostly about other iterations
                    for g in ((TRUE,) if c[1] is TRUE else (TRUE, c[1])):
                        self.bad = []
                        try: self.rec(m[0], [(c[0], g, c[2], c[3])], {}, 0)
                        except Unsupported: self.bad.append((c[0], e, {}, comps))
                        if not self.bad or time.time() > self.deadline: break
                    bad += self.bad
                self.bad = bad
                if not self.bad or time.time() > self.deadline: return self.bad
                self.bad = []
            m = self.merged(e, comps)
            if m is not None:
                try: self.rec(e, m, {}, 0)
                except Unsupported: self.bad.append(("", e, {}, comps))
                if not self.bad or time.time() > self.deadline: return self.bad
                self.bad = []
            self.rec(e, comps, {}, 0)
        finally: Rw.REAL = Env.REAL = False
        return self.bad
    CUTPTS = 40
    carried = ({}, {})
    def staged(self, env, comps):
        """value numbering of loops, iteration by iteration: values carried around a loop that agree on both sides are
        replaced by one unknown, so each iteration is compared for all values the previous one may have produced"""
        rw = Rw(env)
        comps = [(c[0],) + tuple(rw(z) for z in c[1:4]) for c in comps]
        nodes = sorted(subterms([z for c in comps for z in c[1:4]]).values(), key=lambda t: t.id)
        ids = {t.id for t in nodes}
        ca, cb = ({rw(t).id for t in s.values()} & ids for s in self.carried)
        if not ca or not cb: return None
        mark = ca | cb
        env = env.copy()
        def sign(t):
            lo, hi = env.iv(t)
            return 1 if lo >= 0 else -1 if hi <= 0 else None
        # nodes above a carried value wait until it has been matched with one of the other side
        base = set()
        for t in nodes:
            if all(a.id in base and a.id not in mark for a in t.args if isinstance(a, T)): base.add(t.id)
        roots = [t for t in nodes if t.id in base and t.op in BRANCHY][:8]
        br = any(t.op in BRANCHY for t in nodes)
        pts = []
        for s in range(400 * self.CUTPTS):
            pt = Point(("stage", self.SEED, s), sign, soft=True)
            try:
                for r in roots: pt.v(r)
            except Retry: continue
            pts.append(pt)
            if len(pts) == (self.CUTPTS if br else 3) or time.time() > self.deadline: break
        need = self.BRPTS if br else 1
        if len(pts) < need: return None
        new, idx, val, rep = {}, {}, {}, {}
        def number(u):
            """the representative of a node of the rewritten graph"""
            if u.ty != "f" or u.val is not None or u.op == "sym": return u
            if u.id in rep: return rep[u.id]
            rep[u.id] = r = number1(u)
            return r
        def ev(u, i):
            d = val.setdefault(u.id, {})
            if i not in d:
                try: d[i] = pts[i].v(u)
                except Retry: d[i] = None
            return d[i]
        def number1(u):
            have, tried = 0, set()
            for i in range(len(pts)):
                x = ev(u, i)
                if x is None: continue
                have += 1
                for w in idx.get((i, x), ()):
                    if w.id in tried: continue
                    tried.add(w.id)
                    com = 0
                    for k in range(len(pts)):
                        p = ev(u, k)
                        q = None if p is None else ev(w, k)
                        if q is None: continue
                        if p != q: break
                        com += 1
                        if com == need: return w
                if have == need + 2: break
            for i, x in val[u.id].items():
                if x is not None: idx.setdefault((i, x), []).append(u)
            return u
        def hole(a, b, memo):
            """the one pair of values in which two terms of the same shape differ"""
            if (a.id, b.id) in memo: return memo[a.id, b.id]
            r = (a, b)
            if a.ty == b.ty and a.op == b.op and a.op not in ("ite", "sym", "fc") and a.val is None and b.val is None and len(a.args) == len(b.args):
                ps = {}
                for x, y in zip(a.args, b.args):
                    if x is y: continue
                    if not isinstance(x, T) or not isinstance(y, T): ps = {0: 0, 1: 0}; break
                    q = hole(x, y, memo); ps[q[0].id, q[1].id] = q
                    if len(ps) > 1: break
                if len(ps) == 1:
                    q = next(iter(ps.values()))
                    if q[0].ty == "f" and q[1].ty == "f": r = q
            memo[a.id, b.id] = r
            return r
        def factor(u):
            """ite(c, f(x), f(y)) = f(ite(c, x, y))"""
            if u.op != "ite" or u.ty != "f": return u
            c, a, b = u.args
            x, y = hole(a, b, {})
            if x is a: return u
            z, m = factor(ite(c, x, y)), {}
            def sub(t, s):
                if t is s: return t
                if t is x and s is y: return z
                if (t.id, s.id) not in m: m[t.id, s.id] = number(rebuild(t, [sub(p, q) if isinstance(p, T) else p for p, q in zip(t.args, s.args)]))
                return m[t.id, s.id]
            return sub(a, b)
        ncut = 0
        users, wait = {}, {}
        for t in nodes:
            ch = {a.id for a in t.args if isinstance(a, T)}
            wait[t.id] = len(ch)
            for a in ch: users.setdefault(a, []).append(t)
        ready = [(t.id, t) for t in nodes if not wait[t.id]]
        heapq.heapify(ready)
        held = {}
        def release(t):
            for u in users.get(t.id, ()):
                wait[u.id] -= 1
                if not wait[u.id]: heapq.heappush(ready, (u.id, u))
        while ready or held:
            if time.time() > self.deadline: return None
            if ready:
                t = heapq.heappop(ready)[1]
                if t.ty == "o" or t.val is not None or t.op == "sym": u = t
                else: u = number(factor(rebuild(t, [new.get(a.id, a) if isinstance(a, T) else a for a in t.args])))
                new[t.id] = u
                if t.id in mark and u.ty == "f" and u.val is None and u.op not in ("sym", "sin", "cos"): held[t.id] = t
                else: release(t)
                continue
            sides = {}
            for x, t in held.items(): sides.setdefault(new[x].id, set()).update({k for k, s in ((0, ca), (1, cb)) if x in s})
            both = {x for x, s in sides.items() if len(s) == 2}
            if not both:
                t = held.pop(min(held)); release(t); continue
            cut = {}
            for x in sorted(held):
                u = new[x]
                if u.id not in both: continue
                if u.id not in cut:
                    s = cut[u.id] = sym("cut%d" % ncut, "f"); ncut += 1
                    lo, hi = env.iv(u)
                    try:
                        if lo > -math.inf: env.learn(cmp("le", fc(lo), s), True)
                        if hi < math.inf: env.learn(cmp("le", s, fc(hi)), True)
                    except Infeasible: return None
                new[x] = cut[u.id]
                release(held.pop(x))
        if not ncut: return None
        out = [(c[0],) + tuple(new[z.id] for z in c[1:4]) for c in comps]
        # what the loop delivers: gated values known to be the same on both sides
        sa, sb = (subterms([c[k] for c in out]) for k in (2, 3))
        sub = {}
        for x in sorted(sa, key=lambda z: -z):
            t = sa[x]
            if x in sb and t.op == "ite" and t.ty == "f" and itedepth(t) > 4:
                s = sub[x] = sym("cut%d" % ncut, "f"); ncut += 1
        if sub:
            r2 = Rw(env, sub)
            out = [(c[0],) + tuple(r2(z) for z in c[1:4]) for c in out]
        return env, [c[:2] + (orchain(c[2]), orchain(c[3])) for c in out]
    def merged(self, env, comps):
        """global value numbering: nodes of equal value at random points are replaced by one of them"""
        rw = Rw(env)
        comps = [(c[0],) + tuple(rw(z) for z in c[1:4]) for c in comps]
        nodes = sorted(subterms([z for c in comps for z in c[1:4]]).values(), key=lambda t: t.id)
        if len(nodes) < 40 or not any(t.op == "ite" for t in nodes): return None
        keep = {z.id for _, x, y in env.cmps for z in (x, y)}
        def sign(t):
            lo, hi = env.iv(t)
            return 1 if lo >= 0 else -1 if hi <= 0 else None
        br = any(t.op in BRANCHY for t in nodes)
        need, pts = (self.BRPTS if br else 1), []
        for s in range(400 * need):
            pt = Point(("merge", self.SEED, s), sign)
            try:
                for c in comps: pt.v(c[2]) if c[2].ty in ("f", "i") else pt.boolv(c[2])
            except Retry: continue
            pts.append(pt)
            if len(pts) == need or time.time() > self.deadline: break
        if len(pts) < need: return None
        new, cls, n = {}, {}, 0
        for t in nodes:
            if t.ty == "o": new[t.id] = t; continue
            v = None
            if t.ty == "f" and t.val is None and t.op != "sym":
                try: v = tuple(pt.v(t) for pt in pts)
                except Retry: v = None
            if t.id not in keep and v is not None and v in cls:
                new[t.id] = cls[v]; n += 1; continue
            if t.op in LIFT and new[t.args[0].id].op == "ite" and itedepth(new[t.args[0].id]) > 4:
                new[t.id] = lift(t.op, new[t.args[0].id]); continue
            new[t.id] = t if t.val is not None or t.op == "sym" else rebuild(t, [new.get(a.id, a) if isinstance(a, T) else a for a in t.args])
            if v is not None and (v not in cls or t.id in keep): cls[v] = new[t.id]
        if not n: return None
        return [(c[0],) + tuple(new[z.id] for z in c[1:4]) for c in comps]
    def aliases(self, env, comps):
        """composite nodes of equal value at a random point share what is known about one of them"""
        facts = [z for _, x, y in env.cmps for z in (x, y) if z.val is None and size(z) > 6]
        nodes = [t for t in subterms([z for c in comps for z in c[1:4]] + facts).values() if t.ty == "f" and t.val is None and t.op not in ("sym", "ite") and size(t) > 6]
        def sign(t):
            lo, hi = env.iv(t)
            return 1 if lo >= 0 else -1 if hi <= 0 else None
        for s in range(400):
            pt = Point(("alias", self.SEED, s), sign)
            try:
                cl = {}
                want = {pt.v(f): f for f in facts}
                for t in nodes:
                    try: v = pt.v(t)
                    except Retry: continue
                    if v in want and t is not want[v]: cl.setdefault(v, []).append(t)
                out = {}
                for v, ts in cl.items():
                    ts = ts + [want[v]]
                    for t in ts: out[t.id] = [u for u in ts if u is not t]
                return out
            except Retry: continue
        return None
    def rec(self, env, comps, sub, depth):
        self.leaves += 1
        if self.leaves > self.MAXLEAF or time.time() > self.deadline:
            self.bad.append((comps[0][0], env, sub, comps)); return
        rw = Rw(env, sub)
        todo = []
        for c in comps:
            path, g, a, b = c[:4]
            g2 = rw(g)
            if g2.val is False: continue
            a2, b2 = rw(a), rw(b)
            if a2 is b2: continue
            if a2.val is not None and b2.val is not None and a2.ty != "f" and a2.val == b2.val: continue
            todo.append((path, g2, a2, b2))
        if not todo: return
        nopoint = None
        try: bad = self.fpeq(env, todo)
        except Unsupported as e:
            # an arm that is never selected may have no value: split first
            nopoint, bad = e, list(range(len(todo)))
        if not bad: return
        todo = [todo[i] for i in bad]
        # the guard first, then the values
        c = None
        for x in todo:
            if x[1].val is None:
                c = leafcond(x[1], env)
                if c is not None: break
        if c is None or size(c) > 100:
            c = find_split([y for x in todo for y in (x[2], x[3])], env) or c
        if c is None:
            c = find_split([z for _, x, y in reversed(env.cmps) if size(x) + size(y) < 150 for z in (x, y)], env)
        if c is None and nopoint is not None: raise nopoint
        if c is None or depth > 40:
            self.bad.append((todo[0][0], env, sub, todo)); return
        for pol, e2, s2 in self.cases(env, c):
            s2 = self.refresh(e2, s2)
            if s2 is None: continue
            ns = dict(sub)
            if s2:
                r2 = Rw(e2, s2)
                ns.update(s2)
                t2 = [(p, r2(g), r2(a), r2(b)) for p, g, a, b in todo]
            else: t2 = todo
            self.rec(e2, t2, ns, depth + 1)
            if len(self.bad) > 6: return
    def refresh(self, env, sub):
        """restate the comparison facts in terms of what is now known -> further substitution, or None on contradiction"""
        sub = dict(sub or {})
        for _ in range(3):
            rw, new = Rw(env, sub), []
            seen = set()
            les = {(x.id, y.id) for op, x, y in env.cmps if op == "le"}
            more = None
            for op, x, y in list(env.cmps):
                if (op, x.id, y.id) in seen: continue
                seen.add((op, x.id, y.id))
                if size(x) + size(y) > 400: continue
                a, b = rw(x), rw(y)
                if op == "le" and (y.id, x.id) in les and a is not b and more is None:
                    more = solve_eq(a, b, env)
                if Rw.REAL:
                    # a <= a*u with a of known sign: compare u with 1
                    for p, q, fl in ((a, b, False), (b, a, True)):
                        if q.op == "mul" and (q.args[0] is p or q.args[1] is p):
                            lo, hi = env.iv(p)
                            u = q.args[1] if q.args[0] is p else q.args[0]
                            if lo > 0: new.append(cmp(op, u, fc(1.0)) if fl else cmp(op, fc(1.0), u))
                            elif hi < 0: new.append(cmp(op, fc(1.0), u) if fl else cmp(op, u, fc(1.0)))
                if a is x and b is y: continue
                new.append(cmp(op, a, b))
            try:
                n = len(env.bools)
                for c in new: env.learn(c, True)
                env.memo = {}
                for k in list(env.facts):
                    t = tm._list[k]
                    if size(t) < 300:
                        lo, hi = env.iv(t)
                        if lo > hi: return None
            except Infeasible: return None
            if more and not all(k in sub for k in more):
                r2 = Rw(env, more)
                sub = {k: r2(v) for k, v in sub.items()}
                sub.update(more)
                continue
            if len(env.bools) == n: break
        return sub
    def cases(self, env, c):
        if c.op in ("lt", "le", "eq") and c.args[0].ty in ("f", "i"):
            x, y = c.args
            for kind in ("lt", "gt", "eq"):
                e = env.copy()
                try:
                    if kind == "lt": e.learn(cmp("lt", x, y), True)
                    elif kind == "gt": e.learn(cmp("lt", y, x), True)
                    else: e.learn(cmp("le", x, y), True); e.learn(cmp("le", y, x), True); e.learn(cmp("eq", x, y), True)
                    if kind != "eq": e.learn(cmp("eq", x, y), False)
                    for op in ("lt", "le", "eq"):
                        for p, q in ((x, y), (y, x)):
                            k = cmp(op, p, q)
                            if k.val is None and k.op != "not":
                                v = (kind == "eq") if op == "eq" else (op == "le") if kind == "eq" else (kind == "lt") == (p is x)
                                e.learn(k, v)
                except Infeasible:
                    continue
                yield kind, e, (solve_eq(x, y, e) if kind == "eq" else None)
        else:
            for pol in (True, False):
                e = env.copy()
                try: e.learn(c, pol)
                except Infeasible: continue
                yield pol, e, None
    def prove_true(self, t):
        """t holds on every case"""
        self.leaves = 0
        self.bad = []
        try: e = self.base()
        except Infeasible: return []
        def rec(env, t, depth):
            self.leaves += 1
            b = env.bool(t)
            if b is True: return
            if self.leaves > self.MAXLEAF or depth > 40 or b is False or time.time() > self.deadline:
                self.bad.append(("", env, {}, [])); return
            t2 = Rw(env)(t)
            if t2.val is True: return
            c = find_split([t2], env)
            if c is None: c = deepcond(t2, env)
            if c is None:
                # last resort: the identity 'true'
                try:
                    if not self.fpeq(env, [("", TRUE, t2, TRUE)]): return
                except Unsupported: pass
                self.bad.append(("", env, {}, [])); return
            for _, e2, s2 in self.cases(env, c):
                s2 = self.refresh(e2, s2)
                if s2 is None: continue
                rec(e2, t2 if not s2 else Rw(e2, s2)(t2), depth + 1)
                if len(self.bad) > 6: return
        rec(e, t, 0)
        return self.bad
def deepcond(t, env):
    """conditions inside the operands of comparisons"""
    for x in subterms([t]).values():
        if x.op == "ite":
            c = leafcond(x.args[0], env)
            if c is not None: return c
    return None

# ---------------------------------------------------------------- refute
class Bad(Exception):
    pass
def hf(*xs):
    h = int.from_bytes(hashlib.blake2b(repr(xs).encode(), digest_size=8).digest(), "little")
    return h / 2.0**64
class Eval:
    """evaluation of a value graph at one point (mpmath reals, or IEEE doubles when exact=False)"""
    def __init__(self, asg, exact=True): self.asg, self.exact, self.memo = asg, exact, {}
    def __call__(self, t):
        if t.id in self.memo: return self.memo[t.id]
        st = [t]
        while st:
            x = st[-1]
            if x.id in self.memo: st.pop(); continue
            if x.op == "ite":
                c = x.args[0]
                if c.id not in self.memo: st.append(c); continue
                y = x.args[1] if self.memo[c.id] else x.args[2]
                if y.id not in self.memo: st.append(y); continue
                self.memo[x.id] = self.memo[y.id]; st.pop(); continue
            if x.op in ("and", "or"):
                a, b = x.args
                if a.id not in self.memo: st.append(a); continue
                va = self.memo[a.id]
                if (x.op == "and") != bool(va): self.memo[x.id] = bool(va); st.pop(); continue
                if b.id not in self.memo: st.append(b); continue
                self.memo[x.id] = bool(self.memo[b.id]); st.pop(); continue
            pend = [a for a in x.args if isinstance(a, T) and a.ty in ("f", "i", "b") and a.id not in self.memo]
            if pend: st.extend(pend); continue
            st.pop()
            self.memo[x.id] = self.comp(x)
        return self.memo[t.id]
    def num(self, x):
        if not self.exact: return float(x)
        f, k = rationalise(x)
        return mpf(f.numerator) / f.denominator * mp.pi ** k
    def comp(self, t):
        op, a = t.op, t.args
        M = mp if self.exact else math
        g = lambda i: self.memo[a[i].id]
        if op == "fc":
            if t.val != t.val or math.isinf(t.val): return mpf(t.val) if self.exact else t.val
            return self.num(t.val)
        if op == "ic": return t.val
        if op == "bc": return t.val
        if op == "sym":
            if t.args[0] in self.asg: return self.asg[t.args[0]]
            raise Bad("unassigned " + str(t.args[0]))
        if t.ty == "b":
            if op == "not": return not g(0)
            if op in ("eq", "lt", "le") and a[0].ty != "o":
                x, y = g(0), g(1)
                if isinstance(x, bool): return x == y
                if x != x or y != y: return False
                if self.exact and a[0].ty == "f" and not mp.isinf(x) and not mp.isinf(y):
                    d = x - y
                    if d != d: d = 0 if x == y else (1 if x > y else -1)
                    if abs(d) <= mpf(10) ** -28 * max(1, abs(x), abs(y)): d = 0
                    return {"eq": d == 0, "lt": d < 0, "le": d <= 0}[op]
                return {"eq": x == y, "lt": x < y, "le": x <= y}[op]
            if op == "ordered": return g(0) == g(0) and g(1) == g(1)
            if op == "ovf": return False
            if op == "signbit": return g(0) < 0
            return hf("b", op, self.key(a)) < 0.5
        try:
            return self.fl(op, a, g, M, t)
        except (ValueError, OverflowError, ZeroDivisionError):
            return mpf("nan") if self.exact else math.nan
    def key(self, a): return tuple(self.k1(x) for x in a)
    def k1(self, x):
        if isinstance(x, T):
            if x.ty == "o": return (x.op, self.key(x.args))
            v = self(x)
            if isinstance(v, (bool, int)): return v
            return "%.12g" % float(v) if v == v else "nan"
        if isinstance(x, tuple): return tuple(self.k1(y) for y in x)
        return x
    def fl(self, op, a, g, M, t):
        nan = mpf("nan") if self.exact else math.nan
        if op == "add": return g(0) + g(1)
        if op == "sub": return g(0) - g(1)
        if op == "mul": return g(0) * g(1)
        if op in ("iadd", "isub", "imul"): return {"iadd": g(0) + g(1), "isub": g(0) - g(1), "imul": g(0) * g(1)}[op]
        if op in ("idiv", "irem"):
            q = abs(g(0)) // abs(g(1)) * (1 if (g(0) < 0) == (g(1) < 0) else -1)
            return q if op == "idiv" else g(0) - q * g(1)
        if op in ("neg", "ineg"): return -g(0)
        if op == "i2f": return mpf(g(0)) if self.exact else float(g(0))
        if op == "f2i":
            x = g(0)
            if x != x: return 0
            lo = -(1 << (a[1] - 1)) if a[2] else 0; hi = (1 << (a[1] - 1)) - 1 if a[2] else (1 << a[1]) - 1
            return max(lo, min(hi, int(x)))
        if op == "uf":
            return (mpf if self.exact else float)(hf("uf", self.key(a)) * 4 - 1)
        vs = [g(i) for i in range(len(a)) if isinstance(a[i], T)]
        if any(v != v for v in vs): return nan
        x = vs[0]
        if op == "div":
            if vs[1] == 0:
                if x == 0: return nan
                r = (1 if x > 0 else -1) * (1 if self.exact or math.copysign(1, vs[1]) > 0 else -1)
                return mpf("inf") * r if self.exact else math.inf * r
            return x / vs[1]
        if op == "rem":
            if not self.exact: return math.fmod(x, vs[1])
            if vs[1] == 0 or mp.isinf(x): return nan
            q = x / vs[1]; n = mp.nint(q)
            if abs(q - n) < mpf(10) ** -28: return mpf(0)
            return x - vs[1] * (mp.floor(q) if q > 0 else mp.ceil(q))
        if op in ("floor", "ceil", "trunc", "round", "rte"):
            if self.exact:
                if mp.isinf(x): return x
                n = mp.nint(x)
                if abs(x - n) < mpf(10) ** -28: return n
                if op == "floor": return mp.floor(x)
                if op == "ceil": return mp.ceil(x)
                if op == "trunc": return mp.floor(x) if x > 0 else mp.ceil(x)
                h = mp.floor(abs(x) + mpf(1) / 2)
                if op == "rte": return mp.nint(x)
                return h if x > 0 else -h
            if math.isinf(x): return x
            return float({"floor": math.floor, "ceil": math.ceil, "trunc": math.trunc, "rte": round, "round": lambda v: math.copysign(math.floor(abs(v) + 0.5), v)}[op](x))
        if op == "abs": return abs(x)
        if op == "signum": return (mpf if self.exact else float)(1 if (x > 0 or (x == 0 and (self.exact or math.copysign(1, x) > 0))) else -1)
        if op == "copysign": return abs(x) if vs[1] >= 0 else -abs(x)
        if op == "sqrt": return nan if x < -mpf(10) ** -25 else M.sqrt(max(x, 0 * x))
        if op == "cbrt":
            if self.exact: return mp.cbrt(x) if x >= 0 else -mp.cbrt(-x)
            return math.cbrt(x)
        if op in ("asin", "acos"):
            if abs(x) > 1:
                if not self.exact or abs(x) > 1 + NOISE: return nan
                x = mpf(1 if x > 0 else -1)
            return getattr(M, op)(x)
        if op == "ln": return M.log(x) if x > 0 else (nan if x < 0 else -(mpf("inf") if self.exact else math.inf))
        if op == "ln1p": return M.log(1 + x) if self.exact else math.log1p(x)
        if op in ("exp", "sinh", "cosh", "expm1") and abs(x) > 2000: return nan
        if op in ("exp", "expm1"): return getattr(M, op)(x)
        if op == "atanh": return nan if abs(x) > 1 else M.atanh(x)
        if op == "acosh": return nan if x < 1 else M.acosh(x)
        if op == "atan2":
            y = vs[1]
            if self.exact and (x or y):
                m = max(abs(x), abs(y))
                if m < NOISE: raise Bad("direction of a vanishing vector")
                if abs(x) < NOISE * m: x = mpf(0)
            return M.atan2(x, y)
        if op == "powf":
            if x < 0: return nan
            return x ** vs[1]
        if op in ("sin", "cos", "tan", "atan", "sinh", "cosh", "tanh", "asinh"): return getattr(M, op)(x)
        return (mpf if self.exact else float)(hf(op, self.key(a)) * 4 - 1)

SPECIAL = [0.0, 1.0, -1.0, math.pi, -math.pi, math.pi / 2, -math.pi / 2, math.pi / 4, 0.5, 2.0, 90.0, 180.0, -180.0, 360.0, 1e-9]
def syms_of(roots):
    return sorted({(t.args[0], t.ty) for t in subterms(roots).values() if t.op == "sym" and t.ty in ("f", "i", "b")})
class Sampler:
    def __init__(self, roots, env, seed, extra=()):
        self.S = syms_of(roots); self.env = env; self.r = random.Random(seed)
        consts = set()
        for t in list(subterms(roots).values()):
            if t.op == "eq" or t.op in ("lt", "le"):
                for x in t.args:
                    if isinstance(x, T) and x.val is not None and x.ty == "f" and not math.isinf(x.val) and x.val == x.val: consts.add(x.val)
        self.consts = sorted(consts)[:60]
        self.iconsts = sorted({x.val for t in subterms(roots).values() if t.op in ("eq", "lt", "le") for x in t.args if isinstance(x, T) and x.ty == "i" and x.val is not None})[:40]
    def draw(self, k):
        out = self.draw1(k)
        if k % 8 in (3, 5, 7):
            # symbols of one kind (p1 and p2, ...) close to each other, opposite, or zero
            first, e = {}, 10 ** self.r.uniform(-14, -4)
            for n, ty in self.S:
                if ty != "f": continue
                b = n.rstrip("0123456789")
                if b == n: continue
                if b not in first:
                    first[b] = out[n]
                    if k % 8 == 5 and self.r.random() < 0.7: out[n] = first[b] = 0.0
                    continue
                lo, hi = self.env.iv(sym(n, ty))
                d = self.r.choice((0, 1, -1)) * e * self.r.random()
                v = first[b] + d
                if k % 8 == 3:
                    m = self.r.random()
                    v = -first[b] + d * 1e3 if m < 0.5 else first[b] + (math.pi - abs(d) * 1e3) * (1 if first[b] < 0 else -1) if m < 0.9 else v
                elif k % 8 == 5 and self.r.random() < 0.5: v = out[n] if first[b] else 0.0
                if lo <= v <= hi: out[n] = v
        return out
    def fit(self, k, facts):
        """a point at which the facts hold, if one is found soon"""
        for _ in range(40):
            asg = self.draw(k)
            ev = Eval({n: (mpf(v) if isinstance(v, float) else v) for n, v in asg.items()})
            try:
                if all(bool(ev(t)) == p for t, p in facts): return asg
            except Bad: pass
        return asg
    def draw1(self, k):
        r, out = self.r, {}
        for n, ty in self.S:
            s = sym(n, ty)
            if ty == "b": out[n] = r.random() < 0.5; continue
            lo, hi = self.env.iv(s)
            if ty == "i":
                c = [c for c in self.iconsts if lo <= c <= hi]
                if c and r.random() < 0.7: out[n] = int(r.choice(c)); continue
                lo2, hi2 = int(max(lo, -5)), int(min(hi, 70))
                out[n] = r.randint(min(lo2, hi2), max(lo2, hi2)); continue
            m = r.random()
            v = None
            if k % 3 and m < 0.22 and out:
                c = [x for x in out.values() if isinstance(x, float) and lo <= x <= hi]
                if c: v = r.choice(c) * (1 if r.random() < 0.6 else r.choice([-1, 1.0000001, 0.5]))
            elif k % 3 and m < 0.4:
                c = [x for x in SPECIAL + self.consts if lo <= x <= hi]
                if c: v = r.choice(c)
            elif k % 3 and m < 0.43:
                v = r.choice((1, -1)) * r.randint(0, 370) * (math.pi / 180 if r.random() < 0.7 else 1.0) * (1 + r.choice((0, 1, -1, 1, -1)) * 10 ** r.uniform(-15.5, -9))
            elif k % 3 and m < 0.46 and not math.isinf(lo): v = lo
            elif k % 3 and m < 0.52 and not math.isinf(hi): v = hi
            if v is None or not lo <= v <= hi:
                if not math.isinf(lo) and not math.isinf(hi): v = lo + (hi - lo) * r.random()
                else:
                    mag = 10 ** r.uniform(-2, 1) if r.random() < 0.7 else 10 ** r.uniform(-6, 7)
                    v = mag if lo >= 0 else -mag if hi <= 0 else mag * r.choice((-1, 1))
                    if not math.isinf(lo): v = lo + abs(v)
                    elif not math.isinf(hi): v = hi - abs(v)
            out[n] = float(v)
        return out

def differ(x, y, ty):
    if isinstance(x, bool) or isinstance(y, bool) or ty in ("i", "b"): return x != y
    # x: code, y: required; where nothing finite is required the outcome is left open
    if y != y: return False
    if mp.isinf(y): return not (x != x or mp.isinf(x))
    if x != x or mp.isinf(x): return True
    return abs(x - y) > mpf(10) ** -14 * max(abs(x), abs(y)) + mpf(10) ** -17
def confirm(prover, c, exact):
    """does the difference persist when everything is evaluated with 400 digits (no cancellation artefact)?
    exact: () -> assignment at the precision in force"""
    try:
        with mp.workdps(400):
            ev = Eval(exact())
            if not all(bool(ev(t)) == p for t, p in prover.facts) or not ev(c[1]): return False
            return bool(differ(ev(c[2]), ev(c[3]), c[2].ty))
    except Bad: return False
def refute(prover, comps, leaves, n=400, seed=7, nonan=False, secs=None):
    """-> witness dict or None"""
    roots = [z for c in comps for z in c[1:4]]
    envs = []
    try: envs.append((prover.base(), comps))
    except Infeasible: return None
    for l in leaves[:4]: envs.append((l[1], comps))
    factroots = [t for t, _ in prover.facts]
    n *= Prover.EFFORT
    stop = time.time() + (secs or Prover.RSECS * Prover.EFFORT)
    small = [(t, p) for t, p in prover.facts if size(t) < 60]
    for ei, (env, cs) in enumerate(envs):
        sm = Sampler(roots + factroots, env, seed + ei + 1000 * Prover.SEED)
        hits = 0
        for k in range(n if ei else n * 2):
            if time.time() > stop: return None
            asg = sm.fit(k, small)
            if ei and leaves[ei - 1][2]:
                # equalities assumed on this leaf fix some symbols
                try:
                    for i, tt in leaves[ei - 1][2].items():
                        s = tm._list[i]
                        if s.op == "sym":
                            full = dict(asg)
                            for q in syms_of([tt]): full.setdefault(q[0], 1 if q[1] == "i" else 0.5)
                            asg[s.args[0]] = float(Eval(full, False)(tt))
                except (Bad, Exception):
                    pass
            def exact():
                ex = {n_: (mpf(v) if isinstance(v, float) else v) for n_, v in asg.items()}
                # snap to exact special values
                for n_, v in asg.items():
                    if isinstance(v, float):
                        f, kk = rationalise(v)
                        if kk: ex[n_] = mpf(f.numerator) / f.denominator * mp.pi ** kk
                return ex
            ev = Eval(exact())
            try:
                if not all(bool(ev(t)) == p for t, p in prover.facts): continue
                hits += 1
                for c in cs:
                    path, g, a, b = c[:4]
                    if not ev(g): continue
                    x, y = ev(a), ev(b)
                    if nonan and (x != x or y != y): continue
                    if differ(x, y, a.ty) and confirm(prover, c, exact):
                        return {"at": {k_: (float(v) if isinstance(v, float) else v) for k_, v in asg.items()}, "path": path, "code": str(x)[:24], "spec": str(y)[:24]}
            except Bad:
                continue
    return None
def guided(prover, comps, secs=30, seed=13):
    """points on either side of the comparisons that only the code makes: found by descent on the difference of the
    operands, then by bisection; compared there at several distances from the border -> witness dict or None"""
    stop = time.time() + secs * Prover.EFFORT
    try: env = prover.base()
    except Infeasible: return None
    roots = [z for c in comps for z in c[1:4]]
    spec = {t.id for t in subterms([c[3] for c in comps] + [t for t, _ in prover.facts]).values()}
    gs = [t for t in subterms([c[2] for c in comps]).values() if t.op in ("lt", "le") and t.args[0].ty == "f" and t.id not in spec]
    gs.sort(key=lambda t: size(t))
    sm = Sampler(roots + [t for t, _ in prover.facts], env, seed + 1000 * Prover.SEED)
    small = [(t, p) for t, p in prover.facts if size(t) < 60]
    F_ = [n for n, ty in sm.S if ty == "f"]
    box = {n: env.iv(sym(n, "f")) for n in F_}
    def point(asg): return Eval({n: (mpf(v) if isinstance(v, float) else v) for n, v in asg.items()})
    def ok(ev): return all(bool(ev(t)) == p for t, p in prover.facts)
    def h(g, asg):
        try:
            ev = point(asg)
            if not ok(ev): return None
            d = ev(g.args[0]) - ev(g.args[1])
            return None if d != d or mp.isinf(d) else d
        except Bad: return None
    def differs(asg):
        try:
            ev = point(asg)
            if not ok(ev): return None
            for c in comps:
                if not ev(c[1]): continue
                x, y = ev(c[2]), ev(c[3])
                if x != x or y != y: continue
                if differ(x, y, c[2].ty) and confirm(prover, c, lambda: {n: (mpf(v) if isinstance(v, float) else v) for n, v in asg.items()}): return {"at": {k: (float(v) if not isinstance(v, (bool, int)) else v) for k, v in asg.items()}, "path": c[0], "code": str(x)[:24], "spec": str(y)[:24]}
        except Bad: pass
        return None
    base = []
    for k in range(60):
        if len(base) >= 12 or time.time() > stop: break
        a = sm.fit(3 * k, small)
        try:
            if ok(point(a)): base.append(a)
        except Bad: pass
    each = secs * Prover.EFFORT / max(1, min(len(gs), 12))
    for g in gs[:12]:
        end = min(stop, time.time() + each)
        names = [n for n in F_ if sym(n, "f").id in {t.id for t in subterms([g]).values()}]
        if not names: continue
        pos, neg = [], []
        for a in base:
            d = h(g, a)
            if d is None or d == 0: continue
            (pos if d > 0 else neg).append((abs(d), a))
        for rnd in range(3):
            if pos and neg or not pos and not neg or time.time() > end: break
            have = pos or neg
            have.sort(key=lambda x: x[0])
            sgn = 1 if pos else -1
            d, a = have[min(rnd, len(have) - 1)]
            step = {n: (box[n][1] - box[n][0]) / 4 if not math.isinf(box[n][0]) and not math.isinf(box[n][1]) else max(1.0, abs(a[n])) for n in names}
            found = None
            for it in range(400):
                if found or time.time() > end: break
                n = names[it % len(names)]
                best = None
                cand = [a[n] + step[n], a[n] - step[n], 0.0, a[n] * 0.1, a[n] * 10.0] + [a[m] for m in names if m != n]
                for v in cand:
                    if not box[n][0] <= v <= box[n][1]: continue
                    b = dict(a); b[n] = float(v)
                    e = h(g, b)
                    if e is None: continue
                    if e * sgn < 0: found = b; break
                    if abs(e) < d and (best is None or abs(e) < best[0]): best = (abs(e), b)
                if best: d, a = best
                else: step[n] /= 3
            if found: (neg if sgn > 0 else pos).append((0, found))
        if not pos or not neg: continue
        for (_, p), (_, q) in [(pos[0], neg[0]), (pos[-1], neg[0])][: 2 if len(pos) > 1 else 1]:
            if any(p[n] != q[n] for n, ty in sm.S if ty != "f"): q = dict(q, **{n: p[n] for n, ty in sm.S if ty != "f"})
            at = lambda s: {n: ((1 - s) * mpf(p[n]) + s * mpf(q[n]) if ty == "f" else p[n]) for n, ty in sm.S}
            lo, hi = mpf(0), mpf(1)
            for _ in range(70):
                if time.time() > end: break
                m = (lo + hi) / 2
                d = h(g, at(m))
                if d is None: break
                if d > 0: lo = m
                else: hi = m
            for k in (0.5, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12):
                for s in (lo - mpf(10) ** -k, hi + mpf(10) ** -k):
                    if time.time() > end: break
                    if 0 <= s <= 1:
                        w = differs(at(s))
                        if w: return w
    return None
def refute_true(prover, t, leaves, n=800, seed=11, secs=None):
    try: envs = [prover.base()]
    except Infeasible: return None
    envs += [l[1] for l in leaves[:4]]
    roots = [t] + [x for x, _ in prover.facts]
    n *= Prover.EFFORT
    stop = time.time() + (secs or Prover.RSECS * Prover.EFFORT)
    for ei, env in enumerate(envs):
        sm = Sampler(roots, env, seed + ei + 1000 * Prover.SEED)
        for k in range(n):
            if time.time() > stop: return None
            asg = sm.draw(k)
            for ty, v in list(asg.items()):
                if k % 7 == 3 and isinstance(v, float):
                    lo, hi = env.iv(sym(ty, "f"))
                    w = v * 10 ** sm.r.uniform(0, 12)
                    if lo <= w <= hi: asg[ty] = w
            ev = Eval(asg, False)
            try:
                if not all(bool(ev(f)) == p for f, p in prover.facts): continue
                if not ev(t): return {"at": asg, "path": "", "code": "false", "spec": "true"}
            except Bad: continue
    return None
