"""Not-a-number analysis: a forward dataflow over value graphs that tracks which nodes are certainly NaN."""
import math
from . import terms as tm
from .terms import T
from . import eq as E

N, U = "N", "U"
class Nan:
    """abstract evaluation with the given symbols NaN and everything else unknown"""
    def __init__(self, syms): self.syms, self.memo = set(syms), {}
    def __call__(self, t):
        m = self.memo
        st = [t]
        while st:
            x = st[-1]
            if x.id in m: st.pop(); continue
            if x.op == "ite":
                c = x.args[0]
                if c.id not in m: st.append(c); continue
                ys = [x.args[1]] if m[c.id] is True else [x.args[2]] if m[c.id] is False else [x.args[1], x.args[2]]
                p = [y for y in ys if y.id not in m]
                if p: st.extend(p); continue
                vs = {m[y.id] for y in ys}
                m[x.id] = vs.pop() if len(vs) == 1 else U
                st.pop(); continue
            p = [a for a in x.args if isinstance(a, T) and a.ty in ("f", "i", "b") and a.id not in m]
            if p: st.extend(p); continue
            st.pop()
            m[x.id] = self.comp(x)
        return m[t.id]
    def comp(self, t):
        op, a = t.op, t.args
        g = lambda i: self.memo[a[i].id]
        if op == "sym": return N if t.args[0] in self.syms else U
        if t.ty == "b":
            if op == "bc": return t.val
            if op == "not": return (not g(0)) if g(0) is not U else U
            if op == "and": return False if False in (g(0), g(1)) else True if g(0) is True and g(1) is True else U
            if op == "or": return True if True in (g(0), g(1)) else False if g(0) is False and g(1) is False else U
            if op in ("eq", "lt", "le", "ordered") and a[0].ty == "f" and N in (g(0), g(1)): return False
            if op in ("eq", "lt", "le") and a[0].val is not None and a[1].val is not None: return tm.cmp(op, a[0], a[1]).val
            if op in ("eq", "lt", "le") and a[0].ty == "i" and isinstance(g(0), int) and isinstance(g(1), int):
                return {"eq": g(0) == g(1), "lt": g(0) < g(1), "le": g(0) <= g(1)}[op]
            return U
        if t.ty == "i":
            if t.val is not None: return t.val
            if op == "f2i": return 0 if g(0) is N else U
            vs = [g(i) for i in range(len(a)) if isinstance(a[i], T)]
            if vs and all(isinstance(v, int) and not isinstance(v, bool) for v in vs):
                r = tm.I(op, *[tm.ic(v) for v in vs])
                if r.val is not None: return r.val
            return U
        if t.val is not None: return N if t.val != t.val else U
        if op == "uf": return U
        vs = [g(i) for i in range(len(a)) if isinstance(a[i], T) and a[i].ty == "f"]
        if op == "powf":
            return N if vs[0] is N and not (a[1].val == 0) else N if vs[1] is N and a[0].val is not None and a[0].val != 1 else U
        if op == "i2f": return U
        return N if N in vs else U

def components(va, st, ip):
    out = []
    E.flatten(va, va, tm.TRUE, out, "result", (lambda x: ip.load(st, x), lambda x: ip.load(st, x)))
    return out

def depends(t, s):
    return any(x.op == "sym" and x.args[0] == s for x in E.subterms([t]).values())
def open_components(s, comps, pc):
    """components that depend on s and are not shown to be NaN (false) when s is NaN"""
    ev = Nan([s])
    if ev(pc) is True: return []
    out = []
    for c in comps:
        p, g, t = c[:3]
        if t.ty not in ("f", "b") or ev(g) is False or p.endswith(".tag"): continue
        if ev(t) is (N if t.ty == "f" else False) or not depends(t, s): continue
        out.append(c)
    return out
class NEval(E.Eval):
    """evaluation in doubles that gives up where the value of an unknown function would be needed"""
    def comp(self, t):
        if t.op in ("uf", "fbits") or (t.ty == "b" and t.op == "signbit" and self.memo[t.args[0].id] != self.memo[t.args[0].id]): raise E.Bad("unknown")
        return super().comp(t)
def witness(open_, comps, pc, n=200):
    from .iv import Env
    roots = [pc] + [z for c in comps for z in c[1:3]]
    sm = E.Sampler(roots, E.Prover([]).base(), 5)
    for s, todo in open_:
        for k in range(n):
            asg = sm.draw(k)
            asg[s] = math.nan
            ev = NEval(asg, False)
            try:
                if ev(pc): continue
                for p, g, t, _ in todo:
                    if not ev(g): continue
                    v = ev(t)
                    if v is True or (not isinstance(v, bool) and v == v):
                        return {"arg": s, "path": p, "code": str(v)[:24], "at": asg, "where": culprit(ev, t)}
            except (E.Bad, TypeError, OverflowError): continue
    return None
def culprit(ev, t):
    """the choice or call at which NaN is lost"""
    while True:
        if t.op == "ite":
            c, y = t.args[0], t.args[1] if ev(t.args[0]) else t.args[2]
            if y.val is not None or not any(x.id in ev.memo and ev.memo[x.id] != ev.memo[x.id] for x in E.subterms([y]).values()):
                l = t.loc or c.loc
                return "%s:%s in %s" % l if l else None
            t = y; continue
        nx = [a for a in t.args if isinstance(a, T) and a.id in ev.memo and any(x.id in ev.memo and ev.memo[x.id] != ev.memo[x.id] for x in E.subterms([a]).values())]
        if not nx: return "%s:%s in %s" % t.loc if t.loc else None
        t = nx[0]
