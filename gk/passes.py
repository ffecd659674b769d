"""IR passes registered per property (beside the obligations of obs/).

They read the MIR of every non-test function of geokit: the instances reachable without type parameters plus the
polymorphic bodies of generic functions."""
import re
from .interp import Cfg, live_in

def bodies(p):
    """(name, body) of every geokit function"""
    seen = set()
    for i in p.insts:
        if i["crate"] == "geokit" and "body" in i and i["name"] not in seen:
            seen.add(i["name"]); yield i["name"], i["body"]
    for it in p.items:
        if it.get("generic") and "body" in it and it["name"] not in seen:
            seen.add(it["name"]); yield it["name"], it["body"]

def row(name, status, detail, where=None, key=None, **stats):
    return {"name": name, "kind": "pass", "status": status, "detail": detail, "where": where, "stats": stats, "fns": [name], "time": 0, "path": "", "key": key}

def loc(p, sp): return "%s:%s" % (p.files[sp[0]], sp[1]) if sp else None
def callee(p, t):
    """(definition path, resolved instance or None, type text) of a call terminator"""
    f = p.types[t[2]]
    if f["k"] != "fndef": return None, None, f.get("s", "")
    i = p.insts[f["inst"]] if f.get("inst") is not None else None
    return f["def"], i, f.get("s", "")
def tspan(t):
    for x in reversed(t):
        if isinstance(x, list) and len(x) == 2 and all(isinstance(y, int) for y in x): return x
    return None

# ------------------------------------------------------------------ shared: definitions, copies
def operands(x, out):
    """operands and places read by an rvalue"""
    if isinstance(x, list):
        if len(x) == 2 and x[0] in ("cp", "mv") and isinstance(x[1], list):
            out.append(x[1]); return
        for y in x: operands(y, out)
def reads(rv):
    out = []
    if rv[0] in ("ref", "discr", "len", "addr", "rawptr", "cfd") and isinstance(rv[1], list) and rv[1] and isinstance(rv[1][0], int): out.append(rv[1])
    operands(rv[1:], out)
    ls = []
    for pl in out:
        ls.append(pl[0])
        for e in pl[1]:
            if isinstance(e, list) and e and e[0] == "i": ls.append(e[1])
    return ls

class Loop:
    def __init__(self, p, name, body, cfg, head):
        self.p, self.name, self.body, self.cfg, self.head = p, name, body, cfg, head
        self.blocks = set(cfg.loops[head])
        self.defs = {}            # local -> [(block, reads, is_call_with_mut)]
        self.muts = {}            # block -> locals its call may change through a mutable reference
        refs = {}
        for b in self.blocks:
            for s in body["blocks"][b]["s"]:
                if s[0] == "=":
                    self.defs.setdefault(s[1][0], []).append((b, reads(s[2]), s))
                    if s[2][0] == "ref" and s[2][2]: refs.setdefault(s[1][0], set()).add(s[2][1][0])
                    elif s[2][0] == "use" and s[2][1][0] in ("cp", "mv") and p.types[body["locals"][s[1][0]]]["k"] == "ref" and not s[1][1]: refs.setdefault(s[1][0], set()).add(s[2][1][1][0])
        for b in self.blocks:
            t = body["blocks"][b]["t"]
            if t[0] == "call":
                rd = []
                operands(t[3], rd)
                self.defs.setdefault(t[4][0], []).append((b, [x[0] for x in rd], t))
                for x in rd:
                    ty = p.types[body["locals"][x[0]]]
                    if (ty["k"] == "ref" and ty.get("mut")) or x[0] in refs:
                        os = self.origins(x[0], refs)
                        self.muts.setdefault(b, set()).update(os)
                        if ty.get("mut"):
                            for o in os: self.defs.setdefault(o, []).append((b, [y[0] for y in rd] + [o], t))
        self.latches = [b for b in self.blocks if head in Cfg.succs(body["blocks"][b]["t"])]
        self.exits = [b for b in self.blocks if any(s not in self.blocks for s in Cfg.succs(body["blocks"][b]["t"]))]
    def origins(self, l, refs):
        seen, todo, out = set(), [l], set()
        while todo:
            x = todo.pop()
            if x in seen: continue
            seen.add(x)
            if x in refs: todo.extend(refs[x])
            else: out.add(x)
        return out
    def deps(self, l):
        """locals the value of l depends on inside the loop"""
        seen, todo = set(), [l]
        while todo:
            x = todo.pop()
            if x in seen: continue
            seen.add(x)
            for b, rd, _ in self.defs.get(x, ()): todo.extend(rd)
        return seen
    def isint(self, l):
        return self.p.types[self.body["locals"][l]]["k"] == "int"
    def dominates_latches(self, b): return all(self.cfg.dominates(b, x) for x in self.latches)

INFINITE = re.compile(r"ops::RangeFrom|iter::Repeat\b|iter::RepeatWith|iter::Cycle|sources::repeat")
BOUNDED = re.compile(r"iter::(adapters::)?(take::)?(Take|Zip|TakeWhile|MapWhile|Scan)\b")
def loop_verdict(L):
    p, body, cfg = L.p, L.body, L.cfg
    T = p.types
    # (a) a finite iterator is advanced on every way round and its end leaves the loop
    for b in L.blocks:
        t = body["blocks"][b]["t"]
        if t[0] != "call": continue
        d, i, s = callee(p, t)
        if d and re.search(r"Iterator::next$|DoubleEndedIterator::next_back$", d):
            if INFINITE.search(s) and not BOUNDED.search(s): continue
            if not L.dominates_latches(b): continue
            if cfg.nest[b][-1] != L.head: continue                    # belongs to a loop inside this one
            it = iterator_of(L, t)
            if it is None or any(st[0] == "=" and st[1] == [it, []] or st[0] == "call" and st[4] == [it, []] for _, _, st in L.defs.get(it, ())): continue   # made anew on every way round
            return "proved", "advances a finite iterator on every way round"
    # loop-carried integers that change by themselves
    live = cfg.live[L.head] if hasattr(cfg, "live") else None
    if live is None:
        cfg.live = live_in(body, cfg); live = cfg.live[L.head]
    prog = set()           # blocks in which something countable changes
    ctr = set()
    for l, ds in L.defs.items():
        if l in live and L.isint(l):
            for b, rd, st in ds:
                r = set(rd)
                for x in rd: r |= L.deps(x)
                if l in r and not trivial(L, l, st): prog.add(b); ctr.add(l)
    nexts = {b for b, os in L.muts.items() if any(o in live or L.p.types[L.body["locals"][o]]["k"] in ("ref", "ptr", "closure") for o in os)}      # changes something that outlives the way round
    # (b) counter compared with a loop-invariant bound on every way round
    for b in L.exits:
        t = body["blocks"][b]["t"]
        if t[0] != "switch" or not L.dominates_latches(b): continue
        c = t[1]
        if c[0] not in ("cp", "mv"): continue
        for db, rd, st in L.defs.get(c[1][0], ()):
            if st[0] != "=" or st[2][0] not in ("bin",) or st[2][1] not in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"): continue
            for l in ctr:
                if all(b2 in prog and L.dominates_latches(b2) for b2, _, s2 in L.defs[l]) and any(l in L.deps(x) or l == x for x in rd):
                    others = [x for x in rd if l not in L.deps(x)]
                    if all(x not in L.defs or L.deps(x).isdisjoint(ctr) for x in others):
                        if st[2][1] in ("Eq", "Ne") and not unit_step(L, l): continue
                        return "proved", "an integer that advances on every way round is compared with a fixed bound (%s)" % st[2][1]
    # a way round on which nothing countable changes, or what changed is put back?
    gain, loss = {}, {}
    for l in ctr:
        for b, rd, st in L.defs[l]:
            r = set(rd)
            for x in rd: r |= L.deps(x)
            if l in r: gain.setdefault(b, set()).add(l)
            elif st[0] == "=" and st[1] == [l, []] and st[2][0] == "use" and st[2][1][0] not in ("cp", "mv"): loss.setdefault(b, set()).add(l)
    for b in nexts: gain.setdefault(b, set()).add("*")
    for l, ds in L.defs.items():
        if l in live and p.types[body["locals"][l]]["k"] == "bool":
            for b, rd, st in ds:
                if st[0] == "=" and not rd: gain.setdefault(b, set()).add("*")           # a flag set on the way: it may only be taken once
    lost = False
    def step(b, have, back):
        return (have | gain.get(b, set())) - loss.get(b, set()), back or bool(loss.get(b, set()) & (have | gain.get(b, set())))
    seen, todo, cyc = set(), [(L.head, frozenset(), False)], False
    while todo and not cyc and len(seen) < 200000:
        x = todo.pop()
        if x in seen: continue
        seen.add(x)
        have, back = step(*x)
        if "*" in have: continue
        for t2 in Cfg.succs(body["blocks"][x[0]]["t"]):
            if t2 == L.head:
                if not have: cyc, lost = True, back
            elif t2 in L.blocks: todo.append((t2, frozenset(have), back))
    if cyc and lost: return "refuted", "there is a way round the loop that puts its counter back: it ends only if floating-point values happen to converge"
    if cyc: return "refuted", "there is a way round the loop on which no counter and no iterator advances: it ends only if floating-point values happen to converge"
    # does any exit look at what changes?
    need = ctr | {x for b in nexts for x, ds in L.defs.items() if any(d[0] == b for d in ds)}
    endless = set()          # results of advancing an iterator that has no end
    for b in L.blocks:
        t = body["blocks"][b]["t"]
        if t[0] == "call":
            d, i, s = callee(p, t)
            if d and re.search(r"Iterator::next$", d) and INFINITE.search(s) and not BOUNDED.search(s): endless.add(t[4][0])
    for b in L.exits:
        t = body["blocks"][b]["t"]
        if t[0] == "switch" and t[1][0] in ("cp", "mv") and any(st[0] == "=" and st[2][0] == "discr" and st[2][1][0] in endless for _, _, st in L.defs.get(t[1][1][0], ())): continue
        if t[0] == "switch" and t[1][0] in ("cp", "mv") and (L.deps(t[1][1][0]) & need): return "undecided", "an exit depends on a changing counter or collection, but no bound was derived"
        if t[0] in ("assert",) and t[1][0] in ("cp", "mv"):
            pass        # an overflow check is no way to end a loop
    return "refuted", "no exit of the loop depends on a counter or iterator: it ends only if floating-point values happen to converge"
def iterator_of(L, t):
    """local that holds the iterator a next() call advances"""
    a = t[3][0]
    if a[0] not in ("cp", "mv"): return None
    l = a[1][0]
    for _ in range(8):
        d = [st for _, _, st in L.defs.get(l, ()) if st[0] == "=" and st[1] == [l, []]]
        if len(d) != 1 or L.p.types[L.body["locals"][l]]["k"] != "ref": return l
        rv = d[0][2]
        pl = rv[1] if rv[0] == "ref" else rv[1][1] if rv[0] == "use" and rv[1][0] in ("cp", "mv") else None
        if pl is None: return l
        l = pl[0]
    return l
def unit_step(L, l):
    """every change of l inside the loop adds or subtracts one"""
    seen, todo, steps = set(), [l], 0
    while todo:
        x = todo.pop()
        if x in seen: continue
        seen.add(x)
        for _, rd, st in L.defs.get(x, ()):
            if st[0] != "=": return False
            rv = st[2]
            if rv[0] in ("bin", "cbin", "checked") or rv[0].endswith("bin"):
                k = [o for o in rv[2:] if isinstance(o, list) and o and o[0] == "k"]
                if not str(rv[1]).startswith(("Add", "Sub")) or len(k) != 1 or not re.search(r"'i': '1'", str(k[0])): return False
                steps += 1
            todo.extend(rd)
    return steps > 0
def trivial(L, l, st):
    """assignment that only copies l to itself"""
    return st[0] == "=" and st[2][0] == "use" and st[2][1][0] in ("cp", "mv") and st[2][1][1] == [l, []]

def termination(prog, tier):
    p = prog("geokit.lib")
    rows, nb, nl = [], 0, 0
    calls = {}
    for name, body in bodies(p):
        nb += 1
        cfg = Cfg(body)
        calls[name] = set()
        for b in body["blocks"]:
            if b["t"][0] == "call":
                d, i, s = callee(p, b["t"])
                if i is not None and i["crate"] == "geokit": calls[name].add(i["name"])
                elif d and d.startswith("geokit"): calls[name].add(d)
                if d and INFINITE.search(s) and not BOUNDED.search(s) and re.search(r"Iterator::(fold|find|find_map|position|any|all|last|count|sum|for_each|collect|map_or|reduce|max|min)", d):
                    rows.append(row(name, "refuted", "an endless iterator is consumed by %s" % d.split("::")[-1], loc(p, tspan(b["t"])), "endless/%s" % name))
        for h in sorted(cfg.loops):
            nl += 1
            L = Loop(p, name, body, cfg, h)
            st, why = loop_verdict(L)
            sp = body["blocks"][h]["s"][0][-1] if body["blocks"][h]["s"] else tspan(body["blocks"][h]["t"])
            rows.append(row("%s loop at %s" % (name, loc(p, sp)), st, why, loc(p, sp), "loop/%s" % name, blocks=len(L.blocks), call_sites=sum(1 for b in L.blocks if body["blocks"][b]["t"][0] == "call")))
    # recursion
    idx, low, st, comp, n = {}, {}, [], [], [0]
    def strong(v):
        idx[v] = low[v] = n[0]; n[0] += 1; st.append(v)
        for w in calls.get(v, ()):
            if w not in calls: continue
            if w not in idx: strong(w); low[v] = min(low[v], low[w])
            elif w in st: low[v] = min(low[v], idx[w])
        if low[v] == idx[v]:
            c = []
            while True:
                w = st.pop(); c.append(w)
                if w == v: break
            if len(c) > 1 or v in calls[v]: comp.append(c)
    for v in list(calls):
        if v not in idx: strong(v)
    for c in comp:
        rows.append(row("recursion " + ", ".join(sorted(c))[:200], "undecided", "recursive call chain: no bound derived"))
    rows.append(row("call graph of geokit", "proved", "%d functions, %d calls among them, %d recursive groups, %d loops" % (nb, sum(map(len, calls.values())), len(comp), nl), None, None, blocks=nb, call_sites=sum(map(len, calls.values()))))
    return rows

# ------------------------------------------------------------------ unfinished operations
def reach_return(p, body, diverging):
    seen, todo = set(), [0]
    while todo:
        b = todo.pop()
        if b in seen: continue
        seen.add(b)
        t = body["blocks"][b]["t"]
        if t[0] == "ret": return True
        if t[0] == "call":
            d, i, s = callee(p, t)
            if i is not None and i["name"] in diverging: continue
        todo.extend(Cfg.succs(t))
    return False
UNFINISHED = re.compile(r"not (yet )?(implemented|supported)|unimplemented|\bTODO\b|\bFIXME\b|not yet (done|written|available)")
def texts(x):
    """all string and byte constants inside a piece of MIR"""
    if isinstance(x, dict):
        if isinstance(x.get("a"), list) and x["a"] and all(isinstance(e, dict) and str(e.get("i", "x")).isdigit() and int(e["i"]) < 256 for e in x["a"]):
            yield bytes(int(e["i"]) for e in x["a"]).decode("latin-1")
            return
        for k, v in x.items():
            if k in ("str", "bstr") and isinstance(v, str): yield v
            else: yield from texts(v)
    elif isinstance(x, list):
        for e in x: yield from texts(e)
def unfinished(prog, tier):
    p = prog("geokit.lib")
    bs = list(bodies(p))
    ret = {name: p.types[b["locals"][0]]["k"] for name, b in bs}
    div = set()
    while True:
        new = {n for n, b in bs if n not in div and not reach_return(p, b, div)}
        if not new: break
        div |= new
    rows = []
    for name, body in bs:
        bad, fmt = None, None
        for b in body["blocks"]:
            t = b["t"]
            if t[0] != "call": continue
            d, i, s = callee(p, t)
            if d and re.search(r"fmt::Arguments|panic_any|begin_panic|::expect$", d) and any(UNFINISHED.search(x) for x in texts([b["s"], t[3]])): fmt = b
        panics = any(re.search(r"panicking::(panic_fmt|panic_display|panic_explicit|unreachable_display)", callee(p, b["t"])[0] or "") for b in body["blocks"] if b["t"][0] == "call")
        if fmt is not None and (panics or "fmt::Arguments" not in (callee(p, fmt["t"])[0] or "")): bad = (fmt, "reaches an unfinished branch")
        for b in body["blocks"] if bad is None else []:
            t = b["t"]
            if t[0] != "call": continue
            d, i, s = callee(p, t)
            if d and re.search(r"panicking::(panic|panic_fmt|todo|unimplemented)", d) and (UNFINISHED.search(str(t[3])) or "todo" in d or "unimplemented" in d): bad = (b, "reaches an unfinished branch"); break
        if bad is None and name in div and ret[name] != "never": bad = (body["blocks"][0], "no way through this function returns")
        if bad is None: rows.append((name, body)); continue
        yield row(name, "refuted", bad[1], loc(p, tspan(bad[0]["t"])), "unfinished/%s" % name)
    yield row("functions of geokit", "proved", "%d functions have a way from entry to return and no unfinished branch" % len(rows), None, None, blocks=sum(len(b["blocks"]) for _, b in rows), functions=len(rows))
def unfinished_pass(prog, tier): return list(unfinished(prog, tier))

# ------------------------------------------------------------------ effects
IMPURE = re.compile(r"^(std|core|alloc)::(fs|net|env|process|thread|time|io|os|random)::|^(std|core)::sync::(atomic|mpsc)::|^(std|core)::(sync|cell)::(\w+::)*(Mutex|RwLock|Cell|RefCell|Condvar|Barrier|ReentrantLock|UnsafeCell|OnceCell|Once)\b|^(rand|rand_\w+|getrandom)::|LocalKey|std::hash::(\w+::)*RandomState|collections::hash_(map|set)::.*::(iter|keys|values|drain|into_iter)|std::backtrace|core::arch|std::ptr::(write|read)_volatile|^libc::")
INTERIOR = re.compile(r"\b(UnsafeCell|Cell|RefCell|OnceCell|LazyCell|Mutex|RwLock|Atomic\w+|SyncUnsafeCell)\b")
def back(body, l):
    """locals a local is computed from, flow-insensitively"""
    seen, todo = set(), [l]
    while todo:
        x = todo.pop()
        if x in seen: continue
        seen.add(x)
        for b in body["blocks"]:
            for s in b["s"]:
                if s[0] == "=" and s[1][0] == x: todo.extend(reads(s[2]))
            t = b["t"]
            if t[0] == "call" and t[4][0] == x:
                rd = []
                operands(t[3], rd); todo.extend(y[0] for y in rd)
    return seen
def once(p, name, body, t, q):
    """a value that is set once and kept"""
    args = set(range(1, body["argc"] + 1))
    def from_args(o): return o[0] in ("cp", "mv") and bool(back(body, o[1][0]) & args)
    if from_args(t[3][0]): return row(name, "undecided", "a value kept in an object is set once: " + q[:100], loc(p, tspan(t)))
    if from_args(t[3][1]): return row(name, "refuted", "a value kept for all later calls is set from the arguments of the first one (%s)" % q[:100], loc(p, tspan(t)), "effect/%s" % name)
    return row(name, "proved", "a value kept for all later calls is a constant", loc(p, tspan(t)))
def effects(prog, tier):
    p = prog("geokit.lib")
    rows, nf, ns, prints = [], 0, 0, 0
    # state kept between calls
    stat = 0
    for it in p.items:
        if "mutstatic" in it and "Static" in str(it["kind"]):
            stat += 1
            ty = p.types[it["ty"]].get("s", "") if isinstance(it.get("ty"), int) else str(it.get("ty"))
            if it["mutstatic"]: rows.append(row(it["name"], "refuted", "mutable static", loc(p, it["span"]), "static/" + it["name"]))
            elif re.search(r"LazyLock|OnceLock|LazyCell", ty): pass       # set once: judged where it is set
            elif INTERIOR.search(ty): rows.append(row(it["name"], "refuted", "static with interior mutability: " + ty[:80], loc(p, it["span"]), "static/" + it["name"]))
    # values that change behind a shared reference
    adts = {}
    for t in p.types:
        if t["k"] == "adt" and t["def"].startswith("geokit"): adts.setdefault(t["def"], t)
    def inner(i, path, seen):
        t = p.types[i]
        if i in seen: return None
        seen.add(i)
        if t["k"] == "adt":
            if re.fullmatch(r"OnceCell|LazyCell", t["def"].split("::")[-1]): return None       # set once: judged where it is set
            if INTERIOR.fullmatch(t["def"].split("::")[-1]) and not t["def"].startswith("geokit"): return t["def"]
            if t.get("box") or re.search(r"::(Vec|SmallVec|Option|Result|Arc|Rc)$", t["def"]):
                for a in t["args"]:
                    if isinstance(a, int):
                        r = inner(a, path, seen)
                        if r: return r
                return None
            if not t["def"].startswith("geokit"): return None
            for v in t["variants"]:
                for f in v["fields"]:
                    r = inner(f[1], path, seen)
                    if r: return r
        elif t["k"] in ("array", "slice", "tuple"):
            for k in ("elem", "elems", "of", "ty"):
                for a in ([t[k]] if isinstance(t.get(k), int) else t.get(k) or []):
                    if isinstance(a, int):
                        r = inner(a, path, seen)
                        if r: return r
        elif t["k"] == "ptr": return "raw pointer"
        return None
    for d, t in sorted(adts.items()):
        for v in t["variants"]:
            for f in v["fields"]:
                r = inner(f[1], d, set())
                if r: rows.append(row(d, "refuted", "field %s can change behind a shared reference: %s" % (f[0], r), None, "interior/%s" % d))
    for name, body in bodies(p):
        nf += 1
        for b in body["blocks"]:
            t = b["t"]
            if t[0] == "call":
                ns += 1
                d, i, s = callee(p, t)
                path = (i or {}).get("path") or d or ""
                for q in sorted({path, d or "", (i or {}).get("name") or ""}):
                    if re.search(r"io::(stdio::)?_e?print$", q): prints += 1; break       # text for a human reader: no result depends on it
                    if re.search(r"(OnceLock|OnceCell)(::)?(<.*>)?::(get_or_init|set|get_or_try_init|get_mut_or_init)", q):
                        rows.append(once(p, name, body, t, q)); break
                    if re.search(r"OnceLock|LazyLock|OnceCell|LazyCell", q): break
                    if IMPURE.search(q):
                        rows.append(row(name, "refuted", "calls %s, whose result or effect is not determined by the arguments" % q[:100], loc(p, tspan(t)), "effect/%s" % name)); break
            for st in b["s"]:
                if st[0] == "=" and st[2][0] == "cast" and "Expose" in str(st[2][1]):
                    rows.append(row(name, "refuted", "turns an address into a number", loc(p, st[-1]), "effect/%s" % name))
    rows.append(row("functions of geokit", "proved", "%d functions, %d call sites, %d types, %d statics: no state is kept between calls and nothing but the arguments is read (%d diagnostic prints)" % (nf, ns, len(adts), stat, prints), None, None, functions=nf, call_sites=ns, blocks=len(adts)))
    return rows

# ------------------------------------------------------------------ error discipline
SWALLOW = re.compile(r"^std::result::Result::<.*>::(unwrap|expect|unwrap_or|unwrap_or_else|unwrap_or_default|unwrap_unchecked|map_or)$")
MAYSWALLOW = re.compile(r"^std::result::Result::<.*>::(ok|map_or_else|is_ok_and|into_iter|iter|or|or_else)$")
def looked_at(p, body):
    """does the function branch on a Result of its own (is_ok / is_err / a match that is not the ? operator)?"""
    def isres(l):
        ty = p.types[body["locals"][l]]
        return ty["k"] == "adt" and ty["def"].endswith("result::Result")
    for b in body["blocks"]:
        t = b["t"]
        if t[0] == "call":
            d = callee(p, t)[0] or ""
            if re.search(r"^std::result::Result::<.*>::(is_ok|is_err|is_ok_and|is_err_and|as_ref)$", d): return True
        for s in b["s"]:
            if s[0] == "=" and s[2][0] == "discr" and isinstance(s[2][1], list) and not s[2][1][1] and isres(s[2][1][0]): return True
    return False
def errors(prog, tier):
    p = prog("geokit.lib")
    rows, n, nf = [], 0, 0
    for name, body in bodies(p):
        nf += 1
        used = set()
        for b in body["blocks"]:
            for s in b["s"]:
                if s[0] == "=": used.update(reads(s[2]))
            t = b["t"]
            rd = []
            operands(t[1:], rd)
            used.update(x[0] for x in rd)
        tested = looked_at(p, body)
        for b in body["blocks"]:
            t = b["t"]
            if t[0] != "call": continue
            d, i, s = callee(p, t)
            if d and SWALLOW.search(d) and re.search(r"TransformationError|ProjectionError|Result<[^,]*, &", s):
                res = p.types[body["locals"][t[4][0]]] if isinstance(t[4], list) and not t[4][1] else {}
                keeps = d.endswith("map_or") and res.get("k") == "adt" and res["def"].endswith("result::Result")
                keeps = keeps or tested          # the function branches on an outcome: whether this one can still fail is for the obligations
                rows.append(row(name, "undecided" if keeps else "refuted", "a failure is turned into a value or a panic by %s" % d.split("::")[-1], loc(p, tspan(t)), "swallow/%s" % name))
            elif d and MAYSWALLOW.search(d) and re.search(r"TransformationError|ProjectionError|Result<[^,]*, &", s):
                rows.append(row(name, "undecided", "a failure is looked into by %s" % d.split("::")[-1], loc(p, tspan(t))))
            # a fallible geokit operation whose outcome nobody looks at
            dst = t[4]
            ty = p.types[body["locals"][dst[0]]] if isinstance(dst, list) and not dst[1] else None
            if ty is not None and ty["k"] == "adt" and ty["def"].endswith("result::Result"):
                n += 1
                if dst[0] != 0 and dst[0] not in used and d and (d.startswith("geokit") or "geokit::" in d):
                    rows.append(row(name, "refuted", "the outcome of %s is ignored" % d, loc(p, tspan(t)), "ignored/%s" % name))
    rows.append(row("functions of geokit", "proved", "%d functions, %d calls that may fail: every failure is handed on" % (nf, n), None, None, functions=nf, call_sites=n))
    return rows

def sharing(prog, tier):
    """names the field on account of which a type of G33 cannot be shared (only explains; the compiler decides)"""
    p = prog("geokit.lib")
    out = {}
    BAD = re.compile(r"::(Rc|Weak|Cell|RefCell|UnsafeCell|OnceCell|LazyCell|NonNull|MutexGuard)$")
    def walk(i, path, seen):
        t = p.types[i]
        if i in seen: return None
        seen.add(i)
        if t["k"] == "ptr": return path + ": a raw pointer"
        if t["k"] == "adt":
            if BAD.search(t["def"]): return path + ": " + t["def"]
            for v in t.get("variants") or [] if t["def"].startswith("geokit") else []:
                for f in v["fields"]:
                    r = walk(f[1], path + "." + str(f[0]), seen)
                    if r: return r
        for k in ("args", "elem", "elems", "of", "ty"):
            for a in ([t[k]] if isinstance(t.get(k), int) else t.get(k) or []) if k != "args" or t["k"] == "adt" else []:
                if isinstance(a, int):
                    r = walk(a, path, seen)
                    if r: return r
        return None
    for i, t in enumerate(p.types):
        if t["k"] == "adt" and t["def"].startswith("geokit"):
            r = walk(i, t["def"], set())
            if r: out[t["def"].split("::")[-1]] = r
    return out

ASM = ["the MIR of non-test code is what runs", "code of dependencies is finite and pure where it is called with the arguments seen here"]
REG = {
 "G25": {"passes": [termination], "level": "proof", "rule": "natural loops of the MIR: a finite iterator or a counter compared with a fixed bound on every way round; call graph free of cycles",
         "explanation": "Termination is decided on the control-flow graph of each function and on the call graph, independently of floating-point values.", "assumptions": ASM},
 "G26": {"passes": [unfinished_pass], "level": "proof", "rule": "every function has a path from entry to return (interprocedurally) and no path to an unfinished-branch panic", "explanation": "Reachability on the MIR of every function.", "assumptions": ASM},
 "G27": {"passes": [effects], "level": "proof", "rule": "no mutable static, no interior mutability in any type, no call into I/O, time, environment, threads, randomness or shared cells, no address arithmetic", "explanation": "Effect analysis over all functions, types and statics of geokit.", "assumptions": ASM},
 "G29": {"passes": [errors], "level": "proof", "rule": "no failure of a fallible operation is unwrapped, defaulted or left unread", "explanation": "Use analysis of every Result in the MIR.", "assumptions": ASM},
 "G31": {"passes": [], "level": "proof", "rule": "with one argument NaN, every component of the result is NaN, every comparison false, or the operation fails", "explanation": "Forward dataflow of certainly-NaN nodes over the value graph, with IEEE semantics of comparisons, min, max, clamp and selection.", "assumptions": ["libm functions return NaN for NaN arguments (hypot with an infinite argument and pow with exponent 0 or base 1 excepted)", "one argument at a time is NaN; the others are finite"]},
 "G32": {"passes": [], "level": "proof", "rule": "the value graph of the result rewrites, by steps that are exact in IEEE double arithmetic, to the argument", "explanation": "Exact rewriting and interval case splits; no real-number idealisation.", "assumptions": ["round to nearest, no flush to zero", "the sign of zero is not observed"]},
 "G33": {"passes": [], "level": "proof", "rule": "the trait solver proves Send and Sync for the type", "explanation": "A type-level witness selects a constant according to the bounds; its value is read from the type-checked program.", "assumptions": ["unsafe impls of Send or Sync do not lie (there are none)"]},
}
