"""writes properties.jsonl and MANIFEST.json from meta/props.py"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NA
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS + NA:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p.get("over", ["inputs"]), "text": p["quant"]},
                            "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": [{"name": p["mech"], "where": p["files"][0]}]}}) + "\n")
m = {"version": 1, "setup_cmd": "bash /verif/setup.sh", "hooks": {"guard": "cfg(geokit_verif)", "enable": "dump.sh compiles geokit with rustc --cfg geokit_verif", "source_commits": ["5469c95"]}, "checks": [], "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA]}
for p in PROPS:
    m["checks"].append({"property": p["id"], "quick_cmd": "bash /verif/check.sh %s quick" % p["id"], "thorough_cmd": "bash /verif/check.sh %s thorough" % p["id"],
                        "technique": p.get("tech", "abstract interpretation of rustc MIR into value graphs; equality/range decided by interval and sign analysis plus random interpretation over a finite field"),
                        "level": p.get("level", "proof"), "level_note": p.get("note", "Every obligation is discharged for all inputs inside the stated preconditions, with IEEE arithmetic idealised as real arithmetic for the equalities and outward-rounded IEEE intervals for the ranges; equalities carry the one-sided error of random interpretation (< 2^-50). Trusts rustc's MIR, the dumper, the interpreter's models of core and the algebraic laws of elementary functions.")})
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)

# DESIGN.md: the text of design.md with the table of planted bugs
import os
rows = []
sd = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "seeded")
for d in sorted(os.listdir(sd)):
    b = json.load(open(os.path.join(sd, d, "meta.json")))
    rows.append("| %s: %s | %s | %s |" % (d, b["what_it_breaks"], b["property"], b.get("caught", b["property"] + (" pass" if b["property"] in ("G25", "G26", "G27") else " obligations"))))
t = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "design.md")).read().replace("@@TABLE@@", "\n".join(rows))
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "DESIGN.md"), "w").write(t)
