"""python3-vt -m gk.check <property> [quick|thorough]

Decides one property: dumps the compiler's IR of /repo's working tree together with the observations of the
property (obs/src/gNN.rs), analyses every obligation and every registered IR pass, writes evidence/<ID>.json.
exit 0 held / 1 VIOLATION / 2 no answer (tree does not compile, observation no longer compiles, too little decided)."""
import json, os, subprocess, sys, time, multiprocessing, hashlib
sys.setrecursionlimit(20000)
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from gk.interp import Program
from gk import oblig, eq
from gk import passes

TRUSTED = ["rustc nightly front end (MIR construction, type checking)", "driver/ MIR-to-JSON dumper", "gk/ abstract interpreter and models of core/std/smallvec/approx primitives",
           "identities of elementary functions used for random interpretation in F_p (one-sided error < 2^-50 per point)", "floating point idealised as reals outside interval obligations"]
_prog = None
def _work(a):
    base, kind = a
    try: r = oblig.run_one(_prog, base, kind)
    except Exception as e:
        r = oblig.Res(base); r.status = "undecided"; r.detail = "analysis error: %s: %s" % (type(e).__name__, str(e)[:200]); r.time = 0; r.fns = []
    return {"name": base, "kind": kind, "status": r.status, "detail": r.detail, "where": r.where, "stats": r.stats, "fns": getattr(r, "fns", []), "time": r.time, "path": (r.witness or {}).get("path", "")}

def run_obligations(prog, mod, budget):
    global _prog
    _prog = prog
    todo = oblig.names(prog, mod)
    if not todo: return []
    ctx = multiprocessing.get_context("fork")
    out, t0 = [], time.time()
    n = min(8, os.cpu_count() or 4, len(todo))
    with ctx.Pool(n, maxtasksperchild=8) as pool:
        hs = [(t, pool.apply_async(_work, (t,))) for t in todo]
        for t, h in hs:
            left = budget - (time.time() - t0)
            try: out.append(h.get(max(1.0, left)))
            except multiprocessing.TimeoutError:
                out.append({"name": t[0], "kind": t[1], "status": "undecided", "detail": "time budget of the run used up", "where": None, "stats": {}, "fns": [], "time": 0, "path": ""})
        pool.terminate()
    return out

def known(pid):
    """lines 'known: property=<id> key=<key> <text>' of known-findings.txt"""
    out = {}
    for l in open(os.path.join(ROOT, "known-findings.txt")):
        l = l.strip()
        if l.startswith("known: property=%s key=" % pid):
            k, _, text = l.split("key=", 1)[1].partition(" :: ")
            out[k.strip()] = text
    return out

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    mod = pid.lower()
    eq.Prover.SEED = seed
    if tier == "thorough": eq.Prover.ROUNDS, eq.Prover.EFFORT = 4, 8
    build = os.environ.get("GK_BUILD", os.path.join(ROOT, ".build"))
    p = subprocess.run(["bash", os.path.join(ROOT, "dump.sh"), mod], capture_output=True, text=True)
    if p.returncode:
        print((p.stdout + p.stderr)[-3000:])
        print("NO-ANSWER property=%s: /repo or the observations of this property do not compile" % pid)
        return 2
    dump = os.path.join(build, "dump")
    spec = passes.REG.get(pid, {})
    rows, progs = [], {}
    def prog(name):
        if name not in progs: progs[name] = Program(os.path.join(dump, name + ".json"))
        return progs[name]
    if os.path.exists(os.path.join(ROOT, "obs/src/%s.rs" % mod)):
        rows += run_obligations(prog("obs.lib"), mod, 780 if tier == "quick" else 3300)
    for f in spec.get("passes", []):
        rows += f(prog, tier)
    if pid == "G33" and any(r["status"] == "refuted" for r in rows):
        why = passes.sharing(prog, tier)
        for r in rows:
            if r["status"] == "refuted":
                n = r["name"].split("::")[-1]
                n = {"Vincenty": "VincentyGeodesicSolver", "Rapp": "RappIterativeGeodisicSolver", "Karney": "KarneyGeodesicSolver"}.get(n, n)
                r["detail"], r["where"] = "%s is not Send + Sync" % n, why.get(n)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": spec.get("level", "proof"), "wall_s": 0, "violations": 0}
    proved = [r for r in rows if r["status"] == "proved"]
    bad = [r for r in rows if r["status"] == "refuted"]
    und = [r for r in rows if r["status"] == "undecided"]
    kf = known(pid)
    def key(r): return r.get("key") or (r["name"].split("::")[-1] + ("/" + r["path"] if r["path"] else ""))
    kn = [r for r in bad if key(r) in kf]
    new = [r for r in bad if key(r) not in kf]
    for r in kn: print("KNOWN-FINDING: property=%s %s" % (pid, kf[key(r)] or key(r)))
    for r in und: print("UNDECIDED property=%s %s: %s" % (pid, r["name"], r["detail"][:200]))
    fns = sorted({f for r in rows for f in r["fns"]})
    ev["coverage"] = {
        "obligations": len(rows), "discharged": len(proved), "checker_cmd": "bash /verif/check.sh %s %s" % (pid, tier), "trusted_base": TRUSTED,
        "undecided": [r["name"] + ": " + r["detail"][:160] for r in und], "known_findings": [key(r) for r in kn],
        "geokit_functions_analysed": len([f for f in fns if f.startswith("geokit") or "geokit::" in f]), "functions_analysed": len(fns),
        "basic_blocks_interpreted": sum(r["stats"].get("blocks", 0) for r in rows), "call_sites": sum(r["stats"].get("call_sites", 0) for r in rows),
        "value_components_compared": sum(r["stats"].get("components", 0) for r in rows), "cases_after_splitting": sum(r["stats"].get("cases", 0) for r in rows),
        "random_points": sum(r["stats"].get("points", 0) for r in rows), "panic_sites_seen": sum(r["stats"].get("panic_sites", 0) for r in rows),
        "rule": spec.get("rule", "value graph of the observed code equals the value graph of the required behaviour for every input (interval/sign case split, then random interpretation over F_p)"),
        "explanation": spec.get("explanation", ""),
        "samples": [{"obligation": r["name"], "status": r["status"], "analysed": r["fns"][:6], "stats": r["stats"]} for r in (new + rows)[:4]],
    }
    ev["assumptions"] = spec.get("assumptions", ["libm functions are the real functions they name", "overflow to infinity and NaN inputs outside the stated preconditions are not considered"])
    code = 0
    if new:
        rd = os.path.join(ROOT, "evidence")
        os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, "%s.violation.txt" % pid)
        with open(rp, "w") as f:
            f.write("re-run: bash /verif/check.sh %s %s\n" % (pid, tier))
            for r in new: f.write("\n%s\n  %s\n  at: %s\n  analysed: %s\n" % (r["name"], r["detail"], r["where"], ", ".join(r["fns"][:12])))
        for r in new[:10]: print("  %s: %s [%s]" % (r["name"], r["detail"][:400], r["where"] or ""))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        code = 1
    elif not proved and not kn:
        print("NO-ANSWER property=%s: %d of %d obligations undecided" % (pid, len(und), len(rows)))
        code = 2
    else:
        print("OK property=%s: %d obligations, %d proved, %d known, %d undecided" % (pid, len(rows), len(proved), len(kn), len(und)))
    ev["violations"] = len(new)
    ev["wall_s"] = round(time.time() - t0, 2)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", pid + ".json"), "w"), indent=1)
    return code
if __name__ == "__main__": sys.exit(main())
