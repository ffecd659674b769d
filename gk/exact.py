"""Exactness: two value graphs are the same number bit for bit.  Only rewritings that IEEE arithmetic honours are used
(no reassociation, no field laws): branches decided by intervals, x*1, x+0, 0*x for finite x, x%m for |x|<m, --x."""
import time
from . import terms as tm
from .terms import T, fc, TRUE
from . import eq as E
from .iv import Infeasible

class XRw(E.Rw):
    def build(self, x):
        r = super().build(x)
        if r.ty != "f": return r
        if r.val is not None: return fc(r.val + 0.0)
        if r.op == "mul" and 0.0 in (r.args[0].val, r.args[1].val): return fc(0.0)
        if r.op in ("add", "sub") and r.args[1].val == 0.0: return r.args[0]
        if r.op == "add" and r.args[0].val == 0.0: return r.args[1]
        if r.op == "sub" and r.args[0].val == 0.0: return tm.F("neg", r.args[1])
        if r.op == "div" and r.args[0].val == 0.0:
            lo, hi = self.env.iv(r.args[1])
            if lo > 0 or hi < 0: return fc(0.0)
        if r.op in ("round", "rte"):
            lo, hi = self.env.iv(r.args[0])
            if -0.5 < lo and hi < 0.5: return fc(0.0)
        return r

def same(a, b): return a is b or (a.val is not None and b.val is not None and a.val == b.val)
def unresolved(env, comps, budget=400):
    """cases in which a component is not shown to be identical: [(env, path, a, b)]"""
    bad, n = [], 0
    def rec(env, todo, depth):
        nonlocal n
        n += 1
        rw, left = XRw(env), []
        for p, g, a, b in todo:
            g2 = rw(g)
            if g2.val is False: continue
            a2, b2 = rw(a), rw(b)
            if not same(a2, b2): left.append((p, g2, a2, b2))
        if not left: return
        c = None
        for p, g, a, b in left:
            c = E.find_split([g, a, b], env)
            if c is not None: break
        if c is None or depth > 30 or n > budget:
            bad.append((env, left)); return
        for pol in (True, False):
            e = env.copy()
            try: e.learn(c, pol)
            except Infeasible: continue
            rec(e, left, depth + 1)
            if len(bad) > 4: return
    rec(env, comps, 0)
    return bad, n
def witness(prover, comps, n=600, secs=20):
    roots = [z for c in comps for z in c[1:4]] + [t for t, _ in prover.facts]
    sm = E.Sampler(roots, prover.base(), 9 + 1000 * E.Prover.SEED)
    stop = time.time() + secs
    for k in range(n):
        if time.time() > stop: return None
        asg = sm.draw(k)
        ev = E.Eval(asg, False)
        try:
            if not all(bool(ev(f)) == p for f, p in prover.facts): continue
            for path, g, a, b in comps:
                if not ev(g): continue
                x, y = ev(a), ev(b)
                if x != y and not (x != x and y != y):
                    return {"path": path, "code": repr(x), "spec": repr(y), "at": asg, "node": a}
        except (E.Bad, TypeError, OverflowError): continue
    return None
def culprit(t):
    """the outermost geokit operation of the value that should have come through untouched"""
    st, seen = [t], set()
    while st:
        x = st.pop(0)
        if x.id in seen: continue
        seen.add(x.id)
        if x.op not in ("ite", "sym") and x.val is None and x.loc and "/obs/" not in x.loc[0]: return "%s:%s in %s" % x.loc
        st += [a for a in x.args if isinstance(a, T) and a.ty == "f"]
    return None
