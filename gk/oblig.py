"""Obligations: pairs foo__code / foo__spec and predicates foo__holds in the obs crate."""
import os, json, time, re
from . import terms as tm
from .terms import T, bc, band, bor, bnot, TRUE, FALSE
from .interp import Program, Interp, Unsupported, Diverged, State
from . import eq as E
from . import nan, exact, models

CROSS = 30
class Res:
    def __init__(self, name): self.name = name; self.status = None; self.detail = ""; self.stats = {}; self.witness = None; self.where = None

def panic_cond(ip):
    c = FALSE
    for e in ip.events:
        x = TRUE
        for t, p in e.pc: x = band(x, t if p else bnot(t))
        c = bor(c, x)
    return c

def side(prog, fname):
    ip = Interp(prog)
    try:
        rv, st = ip.analyse(fname)
        lits = list(ip.final_lits)
    except Diverged:
        rv, st, lits = None, State({}, ()), []
    return ip, rv, st, lits

def stats(ip):
    return {"functions": len([c for c in ip.calls]), "blocks": ip.blocks_visited, "call_sites": ip.sites, "models": len(ip.uses_models), "panic_sites": len(ip.events)}

def localise(prover, comps, leaf):
    """smallest code-side nodes without a counterpart on the spec side"""
    try:
        todo = leaf[3] or comps
        pt = getattr(prover, "pt", None)
        if pt is None: return None
        spec = {pt.v(t) for t in E.subterms([c[3] for c in todo]).values() if t.ty in ("f", "i") and t.id in pt.memo}
        best = None
        for t in sorted(E.subterms([c[2] for c in todo]).values(), key=lambda t: t.id):
            if t.ty != "f" or t.id not in pt.memo or t.loc is None or "/obs/" in t.loc[0]: continue
            if pt.memo[t.id] in spec or t.val is not None: continue
            if all((not isinstance(a, T)) or a.val is not None or a.op == "sym" or (a.id in pt.memo and pt.memo[a.id] in spec) for a in t.args):
                return "%s:%s in %s" % t.loc
            best = best or t
        return "%s:%s in %s" % best.loc if best is not None else None
    except Exception:
        return None

def run_pair(prog, base, log=None):
    r = Res(base)
    t0 = time.time()
    try:
        ia, va, sa, la = side(prog, base + "__code")
        ib, vb, sb, lb = side(prog, base + "__spec")
        r.stats = stats(ia)
        r.fns = list(ia.calls)
        facts = ia.assumed + ib.assumed
        comps = []
        pa, pb = panic_cond(ia), panic_cond(ib)
        if not (pa is pb): comps.append(("panics", TRUE, pa, pb))
        if va is not None and vb is not None:
            g = band(bnot(pa), bnot(pb))
            E.flatten(va, vb, g, comps, "result", (lambda x: ia.load(sa, x), lambda x: ib.load(sb, x)))
        elif (va is None) != (vb is None) and pa is pb:
            comps.append(("panics", TRUE, bc(va is None), bc(vb is None)))
        r.stats["components"] = len(comps)
        pr = E.Prover(facts)
        pr.carried = (ia.carried, ib.carried)
        # a difference that is easy to see is reported without trying a proof
        w = E.refute(pr, comps, [], 30, seed=3, nonan=True, secs=8)
        if w is not None: leaves = [("early", pr.base(), {}, comps)]
        else:
            try: leaves = pr.prove(comps)
            except Unsupported as e:
                leaves = [("unsupported: %s" % e, pr.base(), {}, comps)]
        r.stats["cases"] = pr.leaves; r.stats["points"] = pr.points
        if not leaves:
            r.status = "proved"
            # the branches of roots and absolute values: cross-check of the two graphs
            w = E.refute(pr, comps, [], CROSS, nonan=True)
            if w is not None: leaves = [("cross-check", None, {}, comps)]
        if leaves:
            w = w or E.refute(pr, comps, leaves) or E.guided(pr, comps)
            r.where = localise(pr, comps, leaves[0])
            if w is None:
                r.status = "undecided"; r.detail = "not proved (%s) and no differing point found" % leaves[0][0]
            else:
                r.status = "refuted"; r.witness = w
                r.detail = "%s: code gives %s, required %s at %s" % (w["path"], w["code"], w["spec"], w["at"])
                if w["path"] == "panics":
                    ev = [str(e) for e in ia.events]
                    r.detail += "; panic sites: " + "; ".join(ev[:3])
                    r.where = ev[0] if ev else None
    except Unsupported as e:
        r.status = "undecided"; r.detail = "unsupported: %s" % e
    except RecursionError:
        r.status = "undecided"; r.detail = "unsupported: recursion"
    r.time = time.time() - t0
    if r.status == "refuted" and not r.where: r.where = call_path(getattr(r, "fns", []))
    return r

def run_holds(prog, base):
    r = Res(base)
    t0 = time.time()
    try:
        ia, va, sa, la = side(prog, base + "__holds")
        r.stats = stats(ia); r.fns = list(ia.calls)
        facts = list(ia.assumed)
        pa = panic_cond(ia)
        if va is None: t = FALSE
        else: t = band(bnot(pa), va)
        pr = E.Prover(facts)
        leaves = pr.prove_true(t)
        r.stats["cases"] = pr.leaves; r.stats["components"] = 1
        if not leaves: r.status = "proved"
        else:
            w = E.refute_true(pr, t, leaves)
            if w is None: r.status = "undecided"; r.detail = "not proved and no counterexample point found"
            else:
                r.status = "refuted"; r.witness = w; r.detail = "false at %s" % (w["at"],)
                if ia.events: r.detail += "; panic sites: " + "; ".join(str(e) for e in ia.events[:3])
    except Unsupported as e:
        r.status = "undecided"; r.detail = "unsupported: %s" % e
    except RecursionError:
        r.status = "undecided"; r.detail = "unsupported: recursion"
    r.time = time.time() - t0
    if r.status == "refuted" and not r.where: r.where = call_path(getattr(r, "fns", []))
    return r

def run_exact(prog, base):
    """x__exact and x__want give the same numbers bit for bit (up to the sign of zero)"""
    r = Res(base)
    t0 = time.time()
    try:
        ia, va, sa, _ = side(prog, base + "__exact")
        ib, vb, sb, _ = side(prog, base + "__want")
        r.stats = stats(ia); r.fns = list(ia.calls)
        pa, comps = panic_cond(ia), []
        if not (pa is FALSE): comps.append(("panics", TRUE, pa, FALSE))
        if va is None: comps = [("panics", TRUE, TRUE, FALSE)]
        else: E.flatten(va, vb, bnot(pa), comps, "result", (lambda x: ia.load(sa, x), lambda x: ib.load(sb, x)))
        r.stats["components"] = len(comps)
        pr = E.Prover(ia.assumed + ib.assumed)
        bad, r.stats["cases"] = exact.unresolved(pr.base(), comps)
        if not bad: r.status = "proved"
        else:
            w = exact.witness(pr, comps)
            if w is None: r.status = "undecided"; r.detail = "not shown to be exact and no inexact value found: %s" % [c[0] for c in bad[0][1]][:3]
            else:
                r.status = "refuted"; r.witness = w; r.where = exact.culprit(w.pop("node"))
                r.detail = "%s is %s, exactly %s is required, at %s" % (w["path"], w["code"], w["spec"], w["at"])
                if w["path"] == "panics": r.where = str(ia.events[0]) if ia.events else None
    except Unsupported as e:
        r.status = "undecided"; r.detail = "unsupported: %s" % e
    r.time = time.time() - t0
    if r.status == "refuted" and not r.where: r.where = call_path(r.fns)
    return r

def run_nan(prog, base):
    r = Res(base)
    t0 = time.time()
    models.NANMODE[0] = True
    try:
        ip, va, st, _ = side(prog, base + "__nan")
        r.stats = stats(ip); r.fns = list(ip.calls)
        pc = panic_cond(ip)
        comps = nan.components(va, st, ip) if va is not None else []
        args = sorted({n for n, ty in E.syms_of([pc] + [z for c in comps for z in c[1:3]]) if ty == "f" and not n.startswith("k_")})
        r.stats["components"] = len(comps); r.stats["arguments"] = len(args); r.stats["cases"] = 0
        open_ = []
        for s in args:
            todo = nan.open_components(s, comps, pc)
            r.stats["cases"] += len(comps)
            if todo: open_.append((s, todo))
        if not args: r.status = "undecided"; r.detail = "no numeric argument reaches the result"
        elif not open_: r.status = "proved"
        else:
            w = nan.witness(open_, comps, pc)
            if w is None: r.status = "undecided"; r.detail = "not shown to be NaN and no plausible value found: %s" % [(s, [c[0] for c in t][:3]) for s, t in open_][:3]
            else:
                r.status = "refuted"; r.witness = w
                r.detail = "%s is %s although %s is NaN, at %s" % (w["path"], w["code"], w["arg"], w["at"])
                r.where = w["where"]
    except Unsupported as e:
        r.status = "undecided"; r.detail = "unsupported: %s" % e
    finally: models.NANMODE[0] = False
    r.time = time.time() - t0
    if r.status == "refuted" and not r.where: r.where = call_path(r.fns)
    return r

def call_path(fns):
    g = [f for f in fns if not f.startswith("obs::") and not f.startswith(("core::", "std::", "alloc::", "<core", "<std", "approx", "smallvec", "<T as")) ]
    return "in " + " -> ".join(g[:4]) if g else None

def names(prog, mod):
    out = []
    for n in prog.by_name:
        m = re.match(r"(?:obs::)?(%s)::(\w+)__(code|holds|nan|exact)$" % mod, n)
        if m: out.append((n[: n.rindex("__")], m.group(3)))
    return sorted(set(out))

def run_one(prog, base, kind):
    try:
        if kind == "nan": return run_nan(prog, base)
        if kind == "exact": return run_exact(prog, base)
        return run_pair(prog, base) if kind == "code" else run_holds(prog, base)
    except (AttributeError, TypeError, KeyError, IndexError, RecursionError) as e:
        r = Res(base); r.status = "undecided"; r.detail = "analysis failed: %r" % (e,); r.fns = []
        return r
