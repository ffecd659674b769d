"""Abstract interpreter over dumped MIR.

State-merging forward analysis: at a branch whose condition is not a constant both successors are analysed and
their states are joined at the join block with gated (ite) values, so each block of the unrolled flow graph is
visited once and no path is enumerated.  Calls into geokit are inlined; std containers and iterators have models.
"""
import sys, heapq, json, re, struct, math
from . import terms as tm
from .terms import T, mk, fc, ic, bc, F, I, ite, bnot, band, bor, cmp, sym, TRUE, FALSE

sys.setrecursionlimit(100000)

class Unsupported(Exception):
    pass
class IndexUnknown(Unsupported):
    """an index or length that depends on the path: the analysis is repeated with the functions on the call chain path-sensitive"""
    def __init__(self, m): Unsupported.__init__(self, m); self.fns = set()
class Diverged(Exception):
    pass

# ---------------------------------------------------------------- values
class Agg:
    __slots__ = ("ty", "f")
    def __init__(self, ty, f): self.ty, self.f = ty, tuple(f)
    def __eq__(self, o): return self is o or (type(o) is Agg and self.ty == o.ty and self.f == o.f)
    def __hash__(self): return hash((self.ty, self.f))
    def __repr__(self): return "Agg%s" % (list(self.f),)
class EnumV:
    __slots__ = ("ty", "d", "v")
    def __init__(self, ty, d, v): self.ty, self.d, self.v = ty, d, v   # d: int term holding the variant index
    def __eq__(self, o): return self is o or (type(o) is EnumV and self.d is o.d and self.v == o.v)
    def __hash__(self): return hash((self.d.id,))
    def __repr__(self): return "Enum(%r,%r)" % (self.d, self.v)
class Ref:
    __slots__ = ("obj", "path", "win", "vt")
    def __init__(self, obj, path=(), win=None, vt=None): self.obj, self.path, self.win, self.vt = obj, tuple(path), win, vt
    def __eq__(self, o): return self is o or (type(o) is Ref and (self.obj, self.path, self.win) == (o.obj, o.path, o.win))
    def __hash__(self): return hash((self.obj, self.path, self.win))
    def __repr__(self): return "&%s%s%s" % (self.obj, list(self.path), self.win or "")
class VecV:
    __slots__ = ("e",)
    def __init__(self, e): self.e = tuple(e)
    def __eq__(self, o): return self is o or (type(o) is VecV and self.e == o.e)
    def __hash__(self): return hash(self.e)
    def __repr__(self): return "Vec%s" % (list(self.e),)
class Str:
    __slots__ = ("s",)
    def __init__(self, s): self.s = s
    def __eq__(self, o): return type(o) is Str and self.s == o.s
    def __hash__(self): return hash(self.s)
    def __repr__(self): return "Str(%r)" % (self.s,)
class IteV:
    __slots__ = ("c", "a", "b")
    def __init__(self, c, a, b): self.c, self.a, self.b = c, a, b
    def __eq__(self, o): return self is o or (type(o) is IteV and self.c is o.c and self.a == o.a and self.b == o.b)
    def __hash__(self): return hash((self.c.id, 7))
    def __repr__(self): return "IteV(%r,%r,%r)" % (self.c, self.a, self.b)
class IterV:
    """a lazy iterator: kind names the adaptor, items its parts (for "seq" the remaining values)"""
    __slots__ = ("kind", "items")
    def __init__(self, kind, items): self.kind, self.items = kind, tuple(items)
    def __eq__(self, o): return self is o or (type(o) is IterV and self.kind == o.kind and self.items == o.items)
    def __hash__(self): return hash((self.kind, self.items))
    def __repr__(self): return "Iter:%s%r" % (self.kind, self.items)
class Opq:
    """opaque value: carries a term that identifies it"""
    __slots__ = ("t", "ty")
    def __init__(self, t, ty=None): self.t, self.ty = t, ty
    def __eq__(self, o): return type(o) is Opq and self.t is o.t
    def __hash__(self): return hash(self.t.id)
    def __repr__(self): return "Opq(%r)" % (self.t,)
class Uninit:
    def __repr__(self): return "uninit"
UNINIT = Uninit()
UNIT = Agg(None, ())

def floats(v, out):
    if isinstance(v, T):
        if v.ty == "f" and v.val is None: out[v.id] = v
    elif isinstance(v, Agg):
        for x in v.f: floats(x, out)

def mite(c, a, b):
    if c.val is not None: return a if c.val else b
    if a is b: return a
    if a is UNINIT: return b
    if b is UNINIT: return a
    ta, tb = type(a), type(b)
    if ta is T and tb is T: return ite(c, a, b)
    if a == b: return a
    if ta is Agg and tb is Agg and len(a.f) == len(b.f) and a.ty == b.ty:
        return Agg(a.ty, [mite(c, x, y) for x, y in zip(a.f, b.f)])
    if ta is EnumV and tb is EnumV:
        v = dict(a.v)
        for k, fs in b.v.items():
            v[k] = tuple(mite(c, x, y) for x, y in zip(v[k], fs)) if k in v else fs
        return EnumV(a.ty if a.ty is not None else b.ty, ite(c, a.d, b.d), v)
    if ta is VecV and tb is VecV and len(a.e) == len(b.e):
        return VecV([mite(c, x, y) for x, y in zip(a.e, b.e)])
    if ta is IterV and tb is IterV and a.kind == b.kind and len(a.items) == len(b.items):
        if all(x == y or not isinstance(x, int) for x, y in zip(a.items, b.items)):
            return IterV(a.kind, [x if x == y else mite(c, x, y) for x, y in zip(a.items, b.items)])
    if c.op == "not": return IteV(c.args[0], b, a)
    return IteV(c, a, b)

# ---------------------------------------------------------------- program
class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.crate = d["crate"]
        self.items, self.insts, self.types, self.files = d["items"], d["insts"], d["types"], d["files"]
        self.by_name = {}
        for i in self.insts: self.by_name.setdefault(i["name"], i)
        self.item_by_name = {i["name"]: i for i in self.items}
        self.tdef = {}
        for n, t in enumerate(self.types):
            if t["k"] == "adt": self.tdef.setdefault(norm(t["def"]), n)
        self.cfg = {}
        for i in self.insts:
            i["path"] = norm(strip_generics(i["def"]))
            i["short"] = "::".join(i["path"].split("::")[-2:])

def norm(s):
    """one spelling for the std facade crates"""
    s = re.sub(r"\b(derive_more::core|num::traits::real::core|core|alloc)::", "std::", s)
    return re.sub(r"\bnalgebra::base::(matrix|dimension|array_storage|default_allocator|allocator)::(?=[A-Z])", "nalgebra::", s) if "nalgebra" in s else s

def strip_generics(s):
    """std::vec::Vec::<T>::push -> std::vec::Vec::push (keeps <A as B> forms)"""
    out, i, n = [], 0, len(s)
    while i < n:
        if s.startswith("::<", i) and not s.startswith("::<impl", i):
            d, j = 0, i + 2
            while j < n:
                if s[j] == "<": d += 1
                elif s[j] == ">" and s[j - 1] != "-":
                    d -= 1
                    if d == 0: break
                j += 1
            i = j + 1
            continue
        out.append(s[i]); i += 1
    return "".join(out)

class Cfg:
    """reverse post order, dominators, natural loops of one body (unwind edges excluded)"""
    def __init__(self, body):
        bl = body["blocks"]; n = len(bl)
        succ = [self.succs(b["t"]) for b in bl]
        order, seen = [], set()
        st = [(0, iter(succ[0]))]; seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); st.append((s, iter(succ[s]))); break
            else:
                order.append(b); st.pop()
        order.reverse()
        self.rpo = {b: i for i, b in enumerate(order)}
        self.succ = succ
        pred = {b: [] for b in order}
        for b in order:
            for s in succ[b]: pred[s].append(b)
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                new = None
                for p in pred[b]:
                    if p in idom:
                        new = p if new is None else self._inter(idom, p, new)
                if idom.get(b) != new: idom[b] = new; ch = True
        self.idom, self.pred = idom, pred
        loops = {}
        for b in order:
            for s in succ[b]:
                if self.dominates(s, b):
                    body_ = loops.setdefault(s, {s})
                    w = [b]
                    while w:
                        x = w.pop()
                        if x not in body_:
                            body_.add(x); w.extend(pred[x])
        self.loops = loops
        self.nest = {b: sorted([h for h in loops if b in loops[h]], key=lambda h: -len(loops[h])) for b in order}
        self.order = order
    def _inter(self, idom, a, b):
        while a != b:
            while self.rpo[a] > self.rpo[b]: a = idom[a]
            while self.rpo[b] > self.rpo[a]: b = idom[b]
        return a
    def dominates(self, a, b):
        while True:
            if a == b: return True
            if b == 0: return False
            b = self.idom[b]
    @staticmethod
    def succs(t):
        k = t[0]
        if k == "goto": return [t[1]]
        if k == "switch": return list(dict.fromkeys([x[1] for x in t[2]] + [t[3]]))
        if k == "drop": return [t[2]]
        if k == "call": return [t[5]] if t[5] is not None else []
        if k == "assert": return [t[4]]
        return []

def _uses(x, out):
    """locals read in an encoded operand / rvalue / place"""
    if isinstance(x, list):
        if len(x) == 2 and type(x[0]) is int and isinstance(x[1], list) and all(e == "*" or (isinstance(e, list) and e and isinstance(e[0], str)) for e in x[1]):
            out.add(x[0])
            for e in x[1]:
                if isinstance(e, list) and e[0] == "i": out.add(e[1])
            return
        for y in x: _uses(y, out)

def live_in(body, cfg):
    """locals live on entry to each block"""
    bl = body["blocks"]
    gen, kill = [], []
    for b in bl:
        g, k = set(), set()
        def use(x):
            s = set(); _uses(x, s); g.update(s - k)
        for s in b["s"]:
            if s[0] == "=":
                use(s[2])
                if s[1][1]: use(s[1])
                else: k.add(s[1][0])
            else: use(s[1:-1])
        t = b["t"]
        if t[0] == "call":
            use(t[1]); use(t[3])
            if t[4][1]: use(t[4])
            else: k.add(t[4][0])
        elif t[0] == "ret": g.update({0} - k)
        else: use(t[1:])
        gen.append(g); kill.append(k)
    live = [set(g) for g in gen]
    ch = True
    while ch:
        ch = False
        for i in range(len(bl) - 1, -1, -1):
            n = set(gen[i])
            for s in Cfg.succs(bl[i]["t"]): n |= live[s] - kill[i]
            if n != live[i]: live[i] = n; ch = True
    return live

class Node:
    __slots__ = ("parent", "pol", "cond", "kids", "dead", "assume")
    def __init__(self, parent, pol): self.parent, self.pol, self.cond, self.kids, self.dead, self.assume = parent, pol, None, None, False, []

def gate(v, deep=True):
    """condition on which an integer in v depends"""
    if isinstance(v, T):
        if v.ty != "i" or v.val is not None: return None
        todo, seen = [v], set()
        while todo:
            t = todo.pop()
            if not isinstance(t, T) or t.ty != "i" or t.id in seen: continue
            seen.add(t.id)
            if t.op == "ite": return t.args[0]
            todo.extend(t.args)
        return None
    if isinstance(v, IteV): return v.c
    if isinstance(v, Agg): sub = v.f
    elif isinstance(v, EnumV): sub = [x for f in v.v.values() for x in f]
    else: return None
    for x in sub:
        c = gate(x)
        if c is not None: return c
    return None
def _rebuild(v, a):
    from .eq import rebuild
    return rebuild(v, a)
def select(v, c, pol, memo):
    """v where condition c is known to be pol"""
    if isinstance(v, T):
        if v.val is not None or not v.args: return v
        r = memo.get(v.id)
        if r is None:
            if v is c: r = bc(pol)
            elif v.op == "ite" and v.args[0] is c: r = select(v.args[1 if pol else 2], c, pol, memo)
            else:
                a = [select(x, c, pol, memo) if isinstance(x, T) else x for x in v.args]
                r = v if all(x is y for x, y in zip(a, v.args)) else _rebuild(v, a)
            memo[v.id] = r
        return r
    if isinstance(v, IteV):
        if v.c is c: return select(v.a if pol else v.b, c, pol, memo)
        a, b = select(v.a, c, pol, memo), select(v.b, c, pol, memo)
        return v if a is v.a and b is v.b else IteV(v.c, a, b)
    if isinstance(v, Agg):
        f = [select(x, c, pol, memo) for x in v.f]
        return v if all(x is y for x, y in zip(f, v.f)) else Agg(v.ty, f)
    if isinstance(v, VecV):
        f = [select(x, c, pol, memo) for x in v.e]
        return v if all(x is y for x, y in zip(f, v.e)) else VecV(f)
    if isinstance(v, EnumV):
        d = select(v.d, c, pol, memo)
        w = {k: tuple(select(x, c, pol, memo) for x in f) for k, f in v.v.items()}
        return v if d is v.d and all(x is y for k in w for x, y in zip(w[k], v.v[k])) else EnumV(v.ty, d, w)
    return v

class State:
    __slots__ = ("mem", "region", "iters", "part")
    def __init__(self, mem, region): self.mem, self.region, self.iters, self.part = mem, region, (), ()

class Event:
    def __init__(self, kind, what, fn, loc, pc): self.kind, self.what, self.fn, self.loc, self.pc = kind, what, fn, loc, pc
    def __repr__(self): return "%s %s in %s at %s" % (self.kind, self.what, self.fn, self.loc)

def freeze(v):
    """flatten a value into a hashable tuple of terms (for uninterpreted applications)"""
    if isinstance(v, T): return v
    if isinstance(v, Agg): return ("A",) + tuple(freeze(x) for x in v.f)
    if isinstance(v, EnumV): return ("E", v.d) + tuple((k,) + tuple(freeze(x) for x in fs) for k, fs in sorted(v.v.items()))
    if isinstance(v, VecV): return ("V",) + tuple(freeze(x) for x in v.e)
    if isinstance(v, Str): return ("S", v.s)
    if isinstance(v, IteV): return ("I", v.c, freeze(v.a), freeze(v.b))
    if isinstance(v, Opq): return v.t
    if isinstance(v, IterV): return ("It", v.kind) + tuple(freeze(x) for x in v.items)
    return ("?", repr(v))

class Interp:
    MAX_ITERS = 3000
    MAX_DEPTH = 170
    def __init__(self, prog, models=None):
        self.p = prog
        self.nobj = 0
        self.nframe = 0
        self.carried = {}     # values carried around a loop
        self.events = []
        self.stack = []          # (inst name, region, callsite loc)
        self.calls = {}          # inlined functions, in order of first visit
        self.uses_models = set()
        self.sites = 0
        self.blocks_visited = 0
        self.notes = []
        from . import models as md
        self.models = md
        self.assumed = []
        self.cur_loc = None
        self.parted = set()      # functions whose states are kept apart when they differ in an integer

    # ---- types
    def ty(self, i): return self.p.types[i]
    def tname(self, i):
        return self.p.types[i].get("def") if i is not None else None
    # ---- memory
    def alloc(self, st, v):
        self.nobj += 1
        k = ("h", self.nobj)
        st.mem[k] = v
        return Ref(k)
    def get(self, st, v, path):
        for n, e in enumerate(path):
            if isinstance(v, IteV):
                return mite(v.c, self.get(st, v.a, path[n:]), self.get(st, v.b, path[n:]))
            v = self.proj(st, v, e)
        return v
    def proj(self, st, v, e):
        k = e[0]
        if k == "f":
            if isinstance(v, Agg):
                if e[1] < len(v.f): return v.f[e[1]]
                raise Unsupported("field %s of %r" % (e[1], v))
            if isinstance(v, (Ref, Opq)):
                return v                      # Box / Unique / NonNull newtypes collapse to the pointer
            if isinstance(v, EnumV) and len(v.v) == 1:
                return next(iter(v.v.values()))[e[1]]
            if v is UNINIT: return UNINIT
            raise Unsupported("field %s of %r" % (e[1], type(v).__name__))
        if k == "d":
            if isinstance(v, EnumV):
                if e[1] in v.v: return Agg(None, v.v[e[1]])
                raise Unsupported("downcast to absent variant")
            if isinstance(v, Opq): return v
            raise Unsupported("downcast of %r" % type(v).__name__)
        if k == "i":
            el = self.elems(v)
            i = e[1]
            if isinstance(i, T) and i.val is not None: i = i.val
            if isinstance(i, int):
                if 0 <= i < len(el): return el[i]
                raise Unsupported("index out of range")
            r = el[-1]
            for j in range(len(el) - 2, -1, -1):
                r = mite(cmp("eq", i, ic(j)), el[j], r)
            return r
        raise Unsupported("proj " + str(e))
    def elems(self, v):
        if isinstance(v, Agg): return v.f
        if isinstance(v, VecV): return v.e
        raise Unsupported("elements of %s" % type(v).__name__)
    def put(self, st, v, path, new):
        if not path: return new
        if isinstance(v, IteV):
            return IteV(v.c, self.put(st, v.a, path, new), self.put(st, v.b, path, new))
        e = path[0]
        if e[0] == "f":
            if isinstance(v, Agg):
                f = list(v.f)
                while len(f) <= e[1]: f.append(UNINIT)
                f[e[1]] = self.put(st, f[e[1]], path[1:], new)
                return Agg(v.ty, f)
            if v is UNINIT:
                f = [UNINIT] * (e[1] + 1)
                f[e[1]] = self.put(st, UNINIT, path[1:], new)
                return Agg(None, f)
            raise Unsupported("put field in %s" % type(v).__name__)
        if e[0] == "d":
            if isinstance(v, EnumV):
                if len(path) < 2: raise Unsupported("put variant")
                fs = list(v.v.get(e[1], ()))
                i = path[1][1]
                while len(fs) <= i: fs.append(UNINIT)
                fs[i] = self.put(st, fs[i], path[2:], new)
                nv = dict(v.v); nv[e[1]] = tuple(fs)
                return EnumV(v.ty, v.d, nv)
            if v is UNINIT:
                fs = [UNINIT] * (path[1][1] + 1)
                fs[path[1][1]] = self.put(st, UNINIT, path[2:], new)
                return EnumV(None, ic(e[1]), {e[1]: tuple(fs)})
            raise Unsupported("put downcast")
        if e[0] == "i":
            el = list(self.elems(v)); i = e[1]
            if isinstance(i, T) and i.val is not None: i = i.val
            if isinstance(i, int):
                if not 0 <= i < len(el): raise Unsupported("index out of range")
                el[i] = self.put(st, el[i], path[1:], new)
            else:
                for j in range(len(el)):
                    el[j] = mite(cmp("eq", i, ic(j)), self.put(st, el[j], path[1:], new), el[j])
            return Agg(v.ty, el) if isinstance(v, Agg) else VecV(el)
        raise Unsupported("put " + str(e))
    def load(self, st, r):
        if isinstance(r, IteV): return mite(r.c, self.load(st, r.a), self.load(st, r.b))
        if isinstance(r, Opq): return r
        if not isinstance(r, Ref): raise Unsupported("load through %s" % type(r).__name__)
        if r.obj not in st.mem: raise Unsupported("load of dead object %r" % (r,))
        v = self.get(st, st.mem[r.obj], r.path)
        if r.win is not None:
            return VecV(self.elems(v)[r.win[0]:r.win[0] + r.win[1]])
        return v
    def store(self, st, r, v):
        if isinstance(r, IteV):
            for pol, x in ((True, r.a), (False, r.b)):
                old = self.load(st, x)
                self.store(st, x, mite(r.c, v, old) if pol else mite(r.c, old, v))
            return
        if not isinstance(r, Ref): raise Unsupported("store through %s" % type(r).__name__)
        if r.win is not None:
            whole = self.get(st, st.mem[r.obj], r.path)
            el = list(self.elems(whole)); nv = self.elems(v)
            el[r.win[0]:r.win[0] + r.win[1]] = nv
            nw = Agg(whole.ty, el) if isinstance(whole, Agg) else VecV(el)
            st.mem[r.obj] = self.put(st, st.mem[r.obj], r.path, nw)
            return
        st.mem[r.obj] = self.put(st, st.mem[r.obj], r.path, v)
    def sub(self, st, r, e):
        """reference to component e of the place r"""
        if isinstance(r, IteV):
            return mite(r.c, self.sub(st, r.a, e), self.sub(st, r.b, e))
        if isinstance(r, Opq): return r
        if e[0] == "i" and r.win is not None:
            i = e[1]
            if isinstance(i, T) and i.val is not None: i = i.val
            if isinstance(i, int):
                return Ref(r.obj, r.path + (("i", i + r.win[0]),))
            return Ref(r.obj, r.path + (("i", I("iadd", i, ic(r.win[0]))),))
        return Ref(r.obj, r.path + (e,), None, None)
    def place(self, st, fr, pl):
        """-> reference to the place"""
        r = Ref((fr, pl[0]))
        for e in pl[1]:
            if e == "*":
                r = self.deref(st, self.load(st, r))
            elif e[0] == "f":
                r = self.sub_newtype(st, r, e)
            elif e[0] == "d":
                r = self.sub(st, r, ("d", e[1]))
            elif e[0] == "i":
                ix = self.load(st, Ref((fr, e[1])))
                r = self.sub(st, r, ("i", ix))
            elif e[0] == "c":
                off, _, fe = e[1:]
                if fe: off = self.length(st, r) - off
                r = self.sub(st, r, ("i", off))
            elif e[0] == "s":
                frm, to, fe = e[1:]
                n = self.length(st, r)
                end = n - to if fe else to
                w0 = r.win[0] if r.win else 0
                r = Ref(r.obj, r.path, (w0 + frm, end - frm))
            elif e[0] == "o":
                pass
        return r
    def sub_newtype(self, st, r, e):
        return self.sub(st, r, ("f", e[1]))
    def deref(self, st, v):
        if isinstance(v, IteV): return mite(v.c, self.deref(st, v.a), self.deref(st, v.b))
        if isinstance(v, Ref): return v
        if isinstance(v, Agg) and len(v.f) >= 1:
            return self.deref(st, v.f[0])
        if isinstance(v, Str):
            return self.alloc(st, v)
        if isinstance(v, Opq): return v
        raise Unsupported("deref of %s" % type(v).__name__)
    def length(self, st, r):
        if isinstance(r, Ref) and r.win is not None: return r.win[1]
        v = self.load(st, r)
        if isinstance(v, Str): return len(v.s)
        return len(self.elems(v))

    # ---- constants
    def const(self, st, ty, c):
        t = self.ty(ty)
        if c == "zst":
            if t["k"] == "fndef": return Agg(ty, ())
            if t["k"] == "closure": return Agg(ty, ())
            if t["k"] == "adt" and t["kind"] == "enum" and len(t["variants"]) == 1: return EnumV(ty, ic(0), {0: ()})
            return self.zst(ty)
        if "f" in c: return fc(struct.unpack("<d", struct.pack("<Q", int(c["f"], 16)))[0])
        if "i" in c: return ic(int(c["i"]))
        if "b" in c: return bc(c["b"])
        if "str" in c:
            return Str(c["str"])
        if "a" in c:
            et = t.get("elem")
            return Agg(None, [self.const(st, et, x) for x in c["a"]])
        if "e" in c:
            fs = t["variants"][c["e"]]["fields"]
            return EnumV(ty, ic(c["e"]), {c["e"]: tuple(self.const(st, fs[i][1], x) for i, x in enumerate(c["s"]))})
        if "s" in c:
            if t["k"] == "adt":
                fs = [x[1] for x in t["variants"][0]["fields"]]
            else:
                fs = t.get("elems", [])
            return Agg(ty if t["k"] == "adt" else None, [self.const(st, fs[i], x) for i, x in enumerate(c["s"])])
        if "ref" in c:
            to = t.get("to")
            tt = self.ty(to)
            if tt["k"] == "slice":
                v = Agg(None, [self.const(st, tt["elem"], x) for x in c["ref"]["a"]])
                r = self.alloc(st, v)
                return Ref(r.obj, (), (0, len(v.f)))
            if c.get("mut"): raise Unsupported("mutable static " + c.get("static", ""))
            return self.alloc(st, self.const(st, to, c["ref"]))
        if "fn" in c: return Opq(mk("fnptr", (c["fn"],), "o"))
        if "addr" in c: return Opq(mk("addr", (c["addr"],), "o"))
        if "uneval" in c or "opaque" in c:
            return Opq(mk("opaqueconst", (str(c),), "o"))
        raise Unsupported("const %s" % c)
    def zst(self, ty):
        t = self.ty(ty)
        if t["k"] == "tuple": return Agg(None, [self.zst(e) for e in t["elems"]])
        if t["k"] == "adt" and t["kind"] == "struct": return Agg(ty, [self.zst(f[1]) for f in t["variants"][0]["fields"]])
        if t["k"] == "array": return Agg(None, ())
        return Agg(ty, ())

    def symval(self, st, ty, name):
        t = self.ty(ty)
        k = t["k"]
        if k == "float": return sym(name, "f")
        if k == "int": return sym(name, "i")
        if k == "bool": return sym(name, "b")
        if k == "char": return sym(name, "i")
        if k == "tuple": return Agg(None, [self.symval(st, e, "%s.%d" % (name, i)) for i, e in enumerate(t["elems"])])
        if k == "array": return Agg(None, [self.symval(st, t["elem"], "%s[%d]" % (name, i)) for i in range(t["len"])])
        if k in ("ref", "ptr"):
            to = self.ty(t["to"])
            if to["k"] in ("str",): return Opq(sym(name, "o"))
            if to["k"] in ("slice", "dyn"): raise Unsupported("symbolic " + t["s"])
            return self.alloc(st, self.symval(st, t["to"], name))
        if k == "adt":
            if t["def"] in ("smol_str::SmolStr", "std::string::String"): return Opq(sym(name, "o"))
            if t["def"].endswith("PhantomData"): return Agg(ty, ())
            if t["kind"] == "struct":
                return Agg(ty, [self.symval(st, f[1], "%s.%s" % (name, f[0])) for f in t["variants"][0]["fields"]])
            if t["kind"] == "enum":
                d = sym(name + ".tag", "i") if len(t["variants"]) > 1 else ic(0)
                return EnumV(ty, d, {i: tuple(self.symval(st, f[1], "%s.%s.%s" % (name, v["name"], f[0])) for f in v["fields"]) for i, v in enumerate(t["variants"])})
        raise Unsupported("symbolic value of type " + t["s"])

    # ---- operands / rvalues
    def operand(self, st, fr, o):
        k = o[0]
        if k in ("cp", "mv"):
            return self.load(st, self.place(st, fr, o[1]))
        if k == "k": return self.const(st, o[1], o[2])
        if k == "rt": return FALSE
        raise Unsupported("operand " + k)
    def optype(self, body, o):
        if o[0] == "k": return o[1]
        if o[0] == "rt": return None
        pl = o[1]
        t = body["locals"][pl[0]]
        for e in pl[1]:
            if e == "*":
                tt = self.ty(t)
                t = tt["to"] if "to" in tt else (tt["args"][0] if tt.get("box") else None)
            elif e[0] in ("f", "o"): t = e[2] if e[0] == "f" else e[1]
            elif e[0] in ("i", "c"): t = self.ty(t).get("elem")
            if t is None: return None
        return t
    def binop(self, op, a, b, tya):
        if isinstance(a, IteV): return mite(a.c, self.binop(op, a.a, b, tya), self.binop(op, a.b, b, tya))
        if isinstance(b, IteV): return mite(b.c, self.binop(op, a, b.a, tya), self.binop(op, a, b.b, tya))
        if not isinstance(a, T) or not isinstance(b, T):
            if op in ("Eq", "Ne") and isinstance(a, (Ref, Opq)) and isinstance(b, (Ref, Opq)):
                if a == b: return bc(op == "Eq")
                if isinstance(a, Ref) and isinstance(b, Ref): return bc(op == "Ne")
                if isinstance(a, Ref) or isinstance(b, Ref): return bc(op == "Ne")
                r = cmp("eq", a.t, b.t) if a.t.id < b.t.id else cmp("eq", b.t, a.t)
                return r if op == "Eq" else bnot(r)
            if isinstance(a, Ref) and isinstance(b, T):
                # alignment and null checks of references
                if op == "BitAnd": return ic(0)
                if op in ("Eq", "Ne") and b.val == 0: return bc(op == "Ne")
            if isinstance(a, Agg) and a.f == () and isinstance(b, Agg) and b.f == ():
                return bc(op in ("Eq", "Le", "Ge"))
            raise Unsupported("binop %s on %s" % (op, type(a).__name__))
        lo = {"Eq": "eq", "Ne": "ne", "Lt": "lt", "Le": "le", "Gt": "gt", "Ge": "ge"}
        if op in lo: return cmp(lo[op], a, b)
        if a.ty == "f":
            f = {"Add": "add", "Sub": "sub", "Mul": "mul", "Div": "div", "Rem": "rem"}.get(op)
            if f: return F(f, a, b)
        if a.ty == "b":
            if op == "BitAnd": return band(a, b)
            if op == "BitOr": return bor(a, b)
            if op == "BitXor": return bnot(cmp("eq", a, b))
        if a.ty == "i":
            f = {"Add": "iadd", "Sub": "isub", "Mul": "imul", "Div": "idiv", "Rem": "irem", "AddUnchecked": "iadd", "SubUnchecked": "isub", "MulUnchecked": "imul",
                 "BitAnd": "iand", "BitOr": "ior", "BitXor": "ixor", "Shl": "ishl", "Shr": "ishr", "ShlUnchecked": "ishl", "ShrUnchecked": "ishr"}.get(op)
            if f: return self.wrapint(I(f, a, b), tya)
            if op == "Cmp":
                return EnumV(None, ite(cmp("lt", a, b), ic(0), ite(cmp("eq", a, b), ic(1), ic(2))), {0: (), 1: (), 2: ()})
        raise Unsupported("binop %s on %s" % (op, a.ty))
    def wrapint(self, t, ty):
        if t.val is None or ty is None: return t
        d = self.ty(ty)
        if d["k"] != "int": return t
        return ic(tm.wrap(t.val, d["bits"], d["signed"]))
    def rvalue(self, st, fr, body, r, dst_ty):
        k = r[0]
        if k == "use": return self.operand(st, fr, r[1])
        if k in ("ref", "addr", "reborrow"):
            return self.place(st, fr, r[1])
        if k == "bin":
            return self.binop(r[1], self.operand(st, fr, r[2]), self.operand(st, fr, r[3]), self.optype(body, r[2]))
        if k == "cbin":
            a, b = self.operand(st, fr, r[2]), self.operand(st, fr, r[3])
            if not (isinstance(a, T) and isinstance(b, T)): raise Unsupported("checked binop")
            f = {"Add": "iadd", "Sub": "isub", "Mul": "imul", "Shl": "ishl", "Shr": "ishr"}[r[1]]
            x = I(f, a, b)
            ty = self.optype(body, r[2]); d = self.ty(ty)
            if x.val is not None:
                w = tm.wrap(x.val, d["bits"], d["signed"])
                return Agg(None, (ic(w), bc(w != x.val)))
            if f == "isub" and not d["signed"]:
                return Agg(None, (x, cmp("lt", a, b)))
            return Agg(None, (x, mk("ovf", (x,), "b")))
        if k == "un":
            a = self.operand(st, fr, r[2])
            if r[1] == "PtrMetadata":
                return self.ptrmeta(st, a)
            if isinstance(a, IteV): raise IndexUnknown("unop on gated value")
            if r[1] == "Neg": return F("neg", a) if a.ty == "f" else I("ineg", a)
            if r[1] == "Not":
                if a.ty == "b": return bnot(a)
                if a.val is not None:
                    return self.wrapint(ic(~a.val), self.optype(body, r[2]))
                return mk("inot", (a,), "i")
        if k == "agg":
            kind, ops = r[1], [self.operand(st, fr, o) for o in r[2]]
            if kind[0] in ("array", "tuple"): return Agg(None, ops)
            if kind[0] == "adt":
                t = self.ty(kind[1])
                if t["kind"] == "enum": return EnumV(kind[1], ic(kind[2]), {kind[2]: tuple(ops)})
                if t["kind"] == "union": return Agg(kind[1], ops)
                return Agg(kind[1], ops)
            if kind[0] == "closure": return Agg(kind[1], ops)
            if kind[0] == "rawptr":
                p, m = ops
                if isinstance(p, Ref) and isinstance(m, T) and m.val is not None:
                    w0 = p.win[0] if p.win else 0
                    if p.path and p.path[-1][0] == "i" and p.win is None:
                        return Ref(p.obj, p.path[:-1], (p.path[-1][1], m.val))
                    return Ref(p.obj, p.path, (w0, m.val))
                return p
            raise Unsupported("aggregate " + kind[0])
        if k == "cast":
            return self.cast(st, fr, body, r)
        if k == "discr":
            v = self.load(st, self.place(st, fr, r[1]))
            return self.discr(v)
        if k == "len":
            return ic(self.length(st, self.place(st, fr, r[1])))
        if k == "repeat":
            v = self.operand(st, fr, r[1])
            return Agg(None, [v] * r[2])
        raise Unsupported("rvalue " + k)
    def ptrmeta(self, st, a):
        if isinstance(a, IteV): return mite(a.c, self.ptrmeta(st, a.a), self.ptrmeta(st, a.b))
        if isinstance(a, Ref) and a.vt is None: return ic(self.length(st, a))
        if isinstance(a, Str): return ic(len(a.s))
        raise Unsupported("ptr metadata")
    def discr(self, v):
        if isinstance(v, IteV): return mite(v.c, self.discr(v.a), self.discr(v.b))
        if isinstance(v, EnumV):
            t = self.ty(v.ty) if v.ty is not None else None
            if t is None or t["k"] != "adt": return v.d
            ds = [int(x["discr"]) for x in t["variants"]]
            if norm(t["def"]) == "std::cmp::Ordering": ds = [-1, 0, 1]
            if ds == list(range(len(ds))): return v.d
            def mp(d):
                if d.val is not None: return ic(ds[d.val])
                if d.op == "ite": return ite(d.args[0], mp(d.args[1]), mp(d.args[2]))
                r = ic(ds[-1])
                for i in range(len(ds) - 2, -1, -1): r = ite(cmp("eq", d, ic(i)), ic(ds[i]), r)
                return r
            return mp(v.d)
        if isinstance(v, Agg): return ic(0)
        raise Unsupported("discriminant of %s" % type(v).__name__)
    def cast(self, st, fr, body, r):
        kind, o, to, frm, vt = r[1], r[2], r[3], r[4], r[5]
        v = self.operand(st, fr, o)
        return self.cast1(st, kind, v, to, frm, vt)
    def cast1(self, st, kind, v, to, frm, vt):
        if isinstance(v, IteV): return mite(v.c, self.cast1(st, kind, v.a, to, frm, vt), self.cast1(st, kind, v.b, to, frm, vt))
        if kind == "IntToInt":
            if isinstance(v, EnumV): v = self.discr(v)
            if v.ty == "b": return ite(v, ic(1), ic(0))
            if v.val is not None: return self.wrapint(v, to)
            return v
        if kind == "IntToFloat":
            if v.val is not None: return fc(float(v.val))
            return self.i2f(v)
        if kind == "FloatToInt":
            d = self.ty(to)
            if v.val is not None:
                x = v.val
                lo = -(1 << (d["bits"] - 1)) if d["signed"] else 0
                hi = (1 << (d["bits"] - 1)) - 1 if d["signed"] else (1 << d["bits"]) - 1
                if x != x: return ic(0)
                return ic(int(max(lo, min(hi, x))) if abs(x) < 1e300 else (hi if x > 0 else lo))
            return mk("f2i", (v, d["bits"], d["signed"]), "i")
        if kind == "FloatToFloat": return v
        if kind.startswith("PointerCoercion"):
            if "Unsize" in kind:
                if isinstance(v, Agg) and len(v.f) == 1 and isinstance(v.f[0], Ref): v = v.f[0]
                if isinstance(v, Ref):
                    if vt: return Ref(v.obj, v.path, v.win, (vt["src"], tuple(vt["m"])))
                    if v.vt is not None: return v
                    return Ref(v.obj, v.path, (0, self.length(st, v)))
                if isinstance(v, Opq): return v
                raise Unsupported("unsize of %s" % type(v).__name__)
            return v
        if kind in ("PtrToPtr", "Transmute", "BoxDerefTransmute", "Subtype", "FnPtrToPtr", "PointerExposeAddress", "PointerWithExposedProvenance"):
            if kind == "Transmute" and isinstance(v, T) and frm is not None:
                a, b = self.ty(frm), self.ty(to)
                if a["k"] == "float" and b["k"] == "int": return mk("fbits", (v,), "i")
                if a["k"] == "int" and b["k"] == "float":
                    if v.op == "fbits": return v.args[0]
                    return mk("ffrombits", (v,), "f")
            if kind == "PtrToPtr" and isinstance(v, Ref) and v.win is not None and self.ty(to)["k"] in ("ptr", "ref") and self.ty(self.ty(to)["to"])["k"] not in ("slice", "dyn", "str"):
                tt = self.ty(self.ty(to)["to"])
                if tt["k"] == "array": return Ref(v.obj, v.path, v.win)
                return Ref(v.obj, v.path + (("i", v.win[0]),))
            return v
        raise Unsupported("cast " + kind)
    def i2f(self, v):
        if v.val is not None: return fc(float(v.val))
        if v.op == "ite": return ite(v.args[0], self.i2f(v.args[1]), self.i2f(v.args[2]))
        if v.op == "f2i": return F("trunc", v.args[0])
        return mk("i2f", (v,), "f")

    # ---- path conditions
    def facts_of(self, st):
        """literals that hold in the state (common ancestors of its region, plus the callers')"""
        out = []
        nodes = st.region
        if nodes:
            def chain(n):
                c = []
                while n is not None:
                    c.append(n); n = n.parent
                return c[::-1]
            ch = [chain(n) for n in nodes]
            i = 0
            while all(len(c) > i for c in ch) and all(c[i] is ch[0][i] for c in ch): i += 1
            for n in ch[0][:i]:
                out.extend(n.assume)
                if n.parent is not None: out.append((n.parent.cond, n.pol))
        return out
    def all_facts(self, st):
        out = list(self.assumed)
        for fr in self.stack: out.extend(fr[1])
        out.extend(self.facts_of(st))
        return out
    def decide(self, st, c):
        if c.val is not None: return c.val
        fs = {}
        for t, p in self.all_facts(st):
            self.addfact(fs, t, p)
        return self.dec(fs, c)
    def addfact(self, fs, t, p):
        if t.op == "not": return self.addfact(fs, t.args[0], not p)
        fs[t] = p
        if t.op == "and" and p:
            for a in t.args: self.addfact(fs, a, True)
        if t.op == "or" and not p:
            for a in t.args: self.addfact(fs, a, False)
    def dec(self, fs, c):
        if c.val is not None: return c.val
        if c in fs: return fs[c]
        if c.op == "not":
            x = self.dec(fs, c.args[0])
            return None if x is None else not x
        if c.op == "and":
            a, b = self.dec(fs, c.args[0]), self.dec(fs, c.args[1])
            if a is False or b is False: return False
            if a and b: return True
            return None
        if c.op == "or":
            a, b = self.dec(fs, c.args[0]), self.dec(fs, c.args[1])
            if a or b: return True
            if a is False and b is False: return False
            return None
        if c.op == "ite":
            x = self.dec(fs, c.args[0])
            if x is not None: return self.dec(fs, c.args[1] if x else c.args[2])
        if c.op == "eq" and c.args[0].ty == "i":
            # x == k known for another k
            x, k = c.args
            if x.val is not None: x, k = k, x
            if k.val is not None:
                for t, p in fs.items():
                    if p and t.op == "eq" and x in t.args:
                        o = t.args[1] if t.args[0] is x else t.args[0]
                        if o.val is not None and o.val != k.val: return False
        return None
    def fork(self, st, c):
        """split the state on c (undecided) -> (true state, false state)"""
        T_, F_ = [], []
        for n in st.region:
            n.cond = c
            f, t = Node(n, False), Node(n, True)
            n.kids = (f, t)
            T_.append(t); F_.append(f)
            d = 0; x = n
            while x is not None: d += 1; x = x.parent
            if d > self.MAX_DEPTH: raise Unsupported("branch depth exceeded (unbounded loop?)")
        a, b = State(dict(st.mem), tuple(T_)), State(st.mem, tuple(F_))
        a.iters = b.iters = st.iters
        a.part = b.part = st.part
        return a, b
    def split_on(self, st, c):
        """fork on c and simplify every value of the two states accordingly"""
        a, b = self.fork(st, c)
        for s, pol in ((a, True), (b, False)):
            memo = {}
            s.mem = {k: select(v, c, pol, memo) for k, v in s.mem.items()}
            s.part = s.part + ((c.id, pol),)
        return a, b
    def kill(self, st):
        for n in st.region: n.dead = True
    def require(self, st, c, kind, loc=None):
        """c must hold here or the program panics"""
        d = self.decide(st, c)
        if d is True: return
        loc = loc or self.cur_loc
        if d is False:
            self.event(st, kind, kind, loc); raise Diverged()
        self.event(st, kind, kind, loc, [(c, False)])
        for n in st.region: n.assume = n.assume + [(c, True)]
    def event(self, st, kind, what, loc, extra=()):
        pc = self.all_facts(st)
        own = None
        if len(st.region) > 1:
            # disjunction over the region below the common ancestor
            own = FALSE
            for n in st.region:
                c = TRUE
                while n.parent is not None:
                    c = band(c, n.parent.cond if n.pol else bnot(n.parent.cond)); n = n.parent
                own = bor(own, c)
        e = Event(kind, what, self.stack[-1][0] if self.stack else "?", loc, pc + ([(own, True)] if own is not None else []) + list(extra))
        e.chain = [f[0] for f in self.stack]
        self.events.append(e)
    def merge(self, states):
        if len(states) == 1:
            st = states[0]
            st.region = self.collapse(st.region)
            return st
        owner = {}
        for i, s in enumerate(states):
            for n in s.region: owner[n] = i
        root = states[0].region[0]
        while root.parent is not None: root = root.parent
        def skel(n):
            if n in owner: return owner[n]
            if n.kids is None: return None
            f, t = skel(n.kids[0]), skel(n.kids[1])
            if f is None: return t
            if t is None: return f
            if f == t: return f
            return (n.cond, t, f)
        sk = skel(root)
        def build(s, vals):
            if isinstance(s, int): return vals[s]
            return mite(s[0], build(s[1], vals), build(s[2], vals))
        mem = {}
        keys = set()
        for s in states: keys |= s.mem.keys()
        m0 = states[0].mem
        for k in keys:
            vals = [s.mem.get(k, UNINIT) for s in states]
            v0 = vals[0]
            if all(v is v0 for v in vals): mem[k] = v0
            else: mem[k] = build(sk, vals)
        reg = []
        for s in states: reg.extend(s.region)
        st = State(mem, self.collapse(tuple(reg)))
        st.iters = states[0].iters
        st.part = states[0].part if all(s.part == states[0].part for s in states) else ()
        return st
    def collapse(self, reg):
        reg = set(reg)
        ch = True
        while ch:
            ch = False
            for n in list(reg):
                p = n.parent
                if n not in reg or p is None: continue
                sib = p.kids[0] if p.kids[1] is n else p.kids[1]
                if sib in reg or self.isdead(sib):
                    if self.isdead(sib):
                        p.assume = p.assume + [(p.cond, n.pol)] + n.assume
                    reg.discard(n); reg.discard(sib)
                    p.kids = None; p.cond = None
                    reg.add(p); ch = True
        return tuple(reg)
    def isdead(self, n):
        if n.dead: return True
        if n.kids is None: return False
        return self.isdead(n.kids[0]) and self.isdead(n.kids[1])

    # ---- functions
    def cfg(self, inst):
        c = self.p.cfg.get(inst["id"])
        if c is None:
            c = self.p.cfg[inst["id"]] = Cfg(inst["body"])
        return c
    def loc(self, sp):
        return (self.p.files[sp[0]], sp[1]) if sp else None

    def run(self, inst, args, mem):
        """analyse inst with argument values; -> (return value, memory)"""
        if "body" not in inst: raise Unsupported("no body: " + inst["name"])
        if len(self.stack) > 160: raise Unsupported("recursion depth in " + inst["name"])
        body = inst["body"]
        cfg = self.cfg(inst)
        self.calls[inst["name"]] = True
        self.nframe += 1
        fr = self.nframe
        mem = dict(mem)
        for i in range(len(body["locals"])): mem[(fr, i)] = UNINIT
        if body["argc"] != len(args):
            if body["spread"] is not None and body["argc"] == len(args): pass
            else: raise Unsupported("arity %s: %d vs %d" % (inst["name"], body["argc"], len(args)))
        for i, a in enumerate(args): mem[(fr, i + 1)] = a
        root = Node(None, True)
        s0 = State(mem, (root,))
        pend, heap = {}, []
        done, heads = [], {}
        def push(b, st):
            key = []
            for h, it in st.iters: key += [cfg.rpo[h], it]
            key.append(cfg.rpo[b])
            key = (tuple(key), st.part)
            if key not in pend:
                pend[key] = (b, []); heapq.heappush(heap, key)
            pend[key][1].append(st)
        def go(b, s, st):
            old = dict(st.iters)
            new = []
            for h in cfg.nest[s]:
                if h in old and b in cfg.loops[h]:
                    if s == h:
                        new.append((h, old[h] + 1))
                        if old[h] > self.MAX_ITERS: raise Unsupported("loop does not terminate within %d iterations in %s" % (self.MAX_ITERS, inst["name"]))
                    else: new.append((h, old[h]))
                else: new.append((h, 0))
            st.iters = tuple(new)
            push(s, st)
        s0.iters = tuple((h, 0) for h in cfg.nest[0])
        push(0, s0)
        self.stack.append((inst["name"], []))
        saved = tm.CUR[0]
        try:
            while heap:
                key = heapq.heappop(heap)
                b, sts = pend.pop(key)
                st = self.merge(sts)
                self.blocks_visited += 1
                if inst["name"] in self.parted:
                    if not hasattr(cfg, "live"): cfg.live = live_in(body, cfg)
                    c = next((x for x in (gate(st.mem.get((fr, i))) for i in sorted(cfg.live[b])) if x is not None), None)
                    if c is not None:
                        d = self.decide(st, c)
                        if d is None:
                            for x in self.split_on(st, c): push(b, x)
                        else:
                            memo = {}
                            st.mem = {k: select(v, c, d, memo) for k, v in st.mem.items()}
                            push(b, st)
                        continue
                if b in cfg.loops and inst["crate"] in ("geokit", "obs") and dict(st.iters).get(b, 0) >= 1:
                    if not hasattr(cfg, "live"): cfg.live = live_in(body, cfg)
                    for i in cfg.live[b]:
                        if st.mem.get((fr, i)) != heads.get((b, i)): floats(st.mem.get((fr, i)), self.carried)
                if b in cfg.loops: heads.update(((b, i), st.mem.get((fr, i))) for i in range(len(body["locals"])))
                try:
                    self.block(inst, body, cfg, fr, b, st, go, done)
                except Diverged:
                    self.kill(st)
        except IndexUnknown as e:
            e.fns |= {inst["name"]}
            raise
        finally:
            self.stack.pop()
            tm.CUR[0] = saved
        if not done: raise Diverged()
        st = self.merge(done)
        # facts learnt in the callee (assertions that passed) hold in the caller
        lit = []
        if len(st.region) == 1 and st.region[0] is root: lit = root.assume
        else: lit = self.facts_of(st)
        rv = st.mem[(fr, 0)]
        m = {k: v for k, v in st.mem.items() if k[0] != fr}
        return (rv if rv is not UNINIT else UNIT), m, lit

    def block(self, inst, body, cfg, fr, b, st, go, done):
        blk = body["blocks"][b]
        isgk = inst["crate"] in ("geokit", "obs")
        for s in blk["s"]:
            sp = s[-1]
            if isgk: tm.CUR[0] = (self.p.files[sp[0]], sp[1], inst["name"])
            if s[0] == "=":
                v = self.rvalue(st, fr, body, s[2], None)
                self.store(st, self.place(st, fr, s[1]), v)
            elif s[0] == "sd":
                r = self.place(st, fr, s[1])
                v = self.load(st, r)
                if isinstance(v, EnumV): self.store(st, r, EnumV(v.ty, ic(s[2]), v.v))
                elif v is UNINIT: self.store(st, r, EnumV(None, ic(s[2]), {s[2]: ()}))
                else: raise Unsupported("set discriminant")
            elif s[0] == "cno":
                raise Unsupported("copy_nonoverlapping")
        t = blk["t"]
        k = t[0]
        if k == "goto": return go(b, t[1], st)
        if k == "ret":
            done.append(st); return
        if k in ("unreachable", "resume", "asm"):
            self.kill(st); return
        if k == "drop": return go(b, t[2], st)
        if k == "assert":
            if isgk: tm.CUR[0] = (self.p.files[t[5][0]], t[5][1], inst["name"])
            c = self.operand(st, fr, t[1])
            if not t[2]: c = bnot(c)
            d = self.decide(st, c)
            if d is True: return go(b, t[4], st)
            if d is False:
                self.event(st, "assert:" + t[3], t[3], self.loc(t[5])); self.kill(st); return
            a, bb = self.fork(st, c)
            self.event(bb, "assert:" + t[3], t[3], self.loc(t[5])); self.kill(bb)
            return go(b, t[4], a)
        if k == "switch":
            v = self.operand(st, fr, t[1])
            if isinstance(v, IteV): raise IndexUnknown("switch on gated value")
            cases = []
            if v.ty == "b":
                br = {int(x[0]): x[1] for x in t[2]}
                fT = br.get(1, t[3]); fF = br.get(0, t[3])
                self.branch(st, v, lambda s: go(b, fT, s), lambda s: go(b, fF, s))
                return
            ty = self.optype(body, t[1]); d = self.ty(ty) if ty is not None else None
            cur = st
            for val, tgt in t[2]:
                val = int(val)
                if d and d["k"] == "int": val = tm.wrap(val, d["bits"], d["signed"])
                c = cmp("eq", v, ic(val))
                dd = self.decide(cur, c)
                if dd is True: return go(b, tgt, cur)
                if dd is False: continue
                # an exhaustive match has an unreachable otherwise block: the last case is then implied
                a, cur = self.fork(cur, c)
                go(b, tgt, a)
            return go(b, t[3], cur)
        if k == "call":
            return self.call(inst, body, fr, b, st, t, go)
        raise Unsupported("terminator " + k)
    def branch(self, st, c, ft, ff):
        d = self.decide(st, c)
        if d is True: return ft(st)
        if d is False: return ff(st)
        a, b = self.fork(st, c)
        ft(a); ff(b)

    def call(self, inst, body, fr, b, st, t, go):
        _, f, fty, args, dest, target, sp = t
        isgk = inst["crate"] in ("geokit", "obs")
        if isgk: tm.CUR[0] = (self.p.files[sp[0]], sp[1], inst["name"])
        self.sites += 1
        vals = [self.operand(st, fr, a) for a in args]
        if inst["name"] in self.parted:
            c = next((x for x in map(gate, vals) if x is not None), None)
            if c is not None:
                d = self.decide(st, c)
                if d is None:
                    for x in self.split_on(st, c): self.call(inst, body, fr, b, x, t, go)
                else:
                    memo = {}
                    st.mem = {k: select(v, c, d, memo) for k, v in st.mem.items()}
                    self.call(inst, body, fr, b, st, t, go)
                return
        tf = self.ty(fty)
        self.cur_loc = self.loc(sp)
        if tf["k"] != "fndef":
            fv = self.operand(st, fr, f)
            if isinstance(fv, Opq) and fv.t.op == "fnptr":
                ci = self.p.insts[fv.t.args[0]]
            elif isinstance(fv, Agg) and fv.ty is not None and self.ty(fv.ty)["k"] == "fndef":
                ci = self.p.insts[self.ty(fv.ty)["inst"]]
            else:
                raise Unsupported("call through pointer")
            defn, targs = ci["def"], ci["args"]
        else:
            if tf["inst"] is None: raise Unsupported("unresolved call " + tf["def"])
            ci = self.p.insts[tf["inst"]]
            defn, targs = tf["def"], tf["args"]
        if target is None:
            self.event(st, "panic", panic_text(self, st, ci, vals), self.loc(sp))
            self.kill(st)
            return
        saved = list(self.stack[-1][1])
        self.stack[-1] = (self.stack[-1][0], self.facts_of(st))
        try:
            rv = self.invoke(st, ci, defn, targs, vals)
        finally:
            self.stack[-1] = (self.stack[-1][0], saved)
        if isgk: tm.CUR[0] = (self.p.files[sp[0]], sp[1], inst["name"])
        self.store(st, self.place(st, fr, dest), rv)
        go(b, target, st)

    def invoke(self, st, ci, defn, targs, vals):
        """call ci with vals in state st (mutated) -> value"""
        if "body" in ci and re.search(r"ops::(function::)?Fn(Mut|Once)?::call(_mut|_once)?$", defn) and len(vals) == 2 and len(vals) != ci["body"]["argc"] or \
           "body" in ci and "{closure" in ci["name"] and re.search(r"::call(_mut|_once)?$", defn) and len(vals) == 2:
            return self.call_closure(st, vals[0], list(self.elems(vals[1])))
        r = self.models.call(self, st, ci, defn, targs, vals)
        if r is not NotImplemented: return r
        if ci["kind"] == "virtual":
            return self.vcall(st, ci, defn, targs, vals)
        if "body" in ci:
            rv, m, lit = self.run(ci, vals, st.mem)
            st.mem = m
            if lit and st.region:
                for n in st.region: n.assume = n.assume + lit
            return rv
        if ci["crate"] == "obs":
            raise Unsupported("no body in obs: " + ci["name"])
        raise Unsupported("no model for %s [%s]" % (ci["name"], defn))
    def vcall(self, st, ci, defn, targs, vals):
        r = vals[0]
        if isinstance(r, IteV):
            return self.split_call(st, r, lambda s, x: self.vcall(s, ci, defn, targs, [x] + vals[1:]))
        rr = r
        while isinstance(rr, Ref) and rr.vt is None:
            rr = self.load(st, rr)
            if isinstance(rr, IteV):
                return self.split_call(st, rr, lambda s, x: self.vcall(s, ci, defn, targs, [x] + vals[1:]))
        if not isinstance(rr, Ref) or rr.vt is None: raise Unsupported("dyn call on %r" % (r,))
        iid = rr.vt[1][ci["idx"] + 3] if len(rr.vt[1]) > ci["idx"] + 3 and False else self.vtlookup(rr.vt, ci)
        mi = self.p.insts[iid]
        return self.invoke(st, mi, mi["def"], mi["args"], [Ref(rr.obj, rr.path, rr.win)] + vals[1:])
    def vtlookup(self, vt, ci):
        m = vt[1][ci["idx"]] if ci["idx"] < len(vt[1]) else None
        if m is None: raise Unsupported("vtable slot")
        return m
    def split_call(self, st, gated, fn):
        """call on a gated receiver: analyse both and join"""
        m0 = dict(st.mem)
        st.mem = dict(m0)
        a = fn(st, gated.a); ma = st.mem
        st.mem = dict(m0)
        b = fn(st, gated.b); mb = st.mem
        out = {}
        for k in ma.keys() | mb.keys():
            x, y = ma.get(k, UNINIT), mb.get(k, UNINIT)
            out[k] = x if x is y else mite(gated.c, x, y)
        st.mem = out
        return mite(gated.c, a, b)
    def call_closure(self, st, f, args):
        """call a closure value / fn item with a list of arguments"""
        if isinstance(f, IteV): return self.split_call(st, f, lambda s, x: self.call_closure(s, x, args))
        fv, ref = f, None
        while isinstance(fv, Ref):
            ref = fv
            if fv.vt is not None:
                t = self.ty(fv.vt[0])
                fv = self.load(st, Ref(fv.obj, fv.path))
                if isinstance(fv, Agg) and fv.ty is None: fv = Agg(None, fv.f)
                break
            fv = self.load(st, fv)
        if isinstance(fv, Opq) and fv.t.op == "fnptr":
            ci = self.p.insts[fv.t.args[0]]
            return self.invoke(st, ci, ci["def"], ci["args"], args)
        if isinstance(fv, IteV): return self.split_call(st, fv, lambda s, x: self.call_closure(s, x, args))
        if not isinstance(fv, Agg) or fv.ty is None: raise Unsupported("call of non-closure %r" % (fv,))
        t = self.ty(fv.ty)
        if t["k"] == "fndef":
            ci = self.p.insts[t["inst"]]
            return self.invoke(st, ci, t["def"], t["args"], args)
        if t["k"] != "closure": raise Unsupported("call of " + t["s"])
        iid = t.get("fn", t.get("fnmut", t.get("fnonce")))
        if iid is None: raise Unsupported("closure body of " + t["s"])
        ci = self.p.insts[iid]
        self_ty = self.ty(ci["body"]["locals"][1])
        if self_ty["k"] == "ref":
            if ref is None: ref = self.alloc(st, fv)
            a0 = Ref(ref.obj, ref.path)
        else: a0 = fv
        return self.invoke(st, ci, ci["def"], ci["args"], [a0] + list(args))

    # ---- entry
    def analyse(self, fname, prefix="", args=None):
        inst = self.p.by_name.get(fname)
        if inst is None: raise KeyError(fname)
        st = State({}, ())
        if args is None:
            args = []
            names = dict((x[0], x[1]) for x in inst["body"]["names"])
            for i in range(1, inst["body"]["argc"] + 1):
                nm = names.get(i, "arg%d" % i)
                args.append(self.symval(st, inst["body"]["locals"][i], prefix + nm))
        fresh = {k: v for k, v in self.__dict__.items() if k in ("nobj", "nframe")}
        while True:
            try:
                rv, mem, lit = self.run(inst, args, st.mem)
                break
            except IndexUnknown as e:
                if e.fns <= self.parted or len(self.parted) > 40: raise
                self.parted |= e.fns
                self.__dict__.update(fresh)
                self.carried, self.events, self.stack, self.calls, self.assumed, self.notes = {}, [], [], {}, [], []
        self.final_lits = lit
        return rv, State(mem, ())

def panic_text(ip, st, ci, vals):
    s = ""
    for v in vals:
        if isinstance(v, Str): s = v.s
    return (ci["path"] + (": " + s if s else ""))
