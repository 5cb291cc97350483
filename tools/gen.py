#!/usr/bin/env python3
"""Writes properties.jsonl, harness/registry.json and MANIFEST.json from tools/props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from props import PROPS, COMMON_ASSUME

out, reg, checks, na = [], {}, [], []
for p in PROPS:
    out.append({
        "id": p["id"], "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p["kind"], "text": p["qtext"]},
        "why_tests_cant": p["why"],
        "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                    "observe_at": p.get("observe", []), "hook_needed": None},
    })
    c = p.get("check")
    if not c:
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    hs = []
    for h in c["harnesses"]:
        d = {"fn": h[0], "pkg": h[1], "params": h[2], "thorough": h[3], "reach": h[4], "bounds": h[5], "budget": 60, "budget_thorough": 400}
        if len(h) > 6:
            d.update(h[6])
        hs.append(d)
    reg[p["id"]] = {"files": c["files"], "harnesses": hs,
                    "assumptions": COMMON_ASSUME + c.get("assume", []), "outside": c.get("outside", [])}
    if c.get("stubs"):
        reg[p["id"]]["stubs"] = c["stubs"]
    checks.append({
        "property": p["id"],
        "quick_cmd": "bash check.sh " + p["id"],
        "thorough_cmd": "VERIF_TIER=thorough bash check.sh " + p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": "bounded symbolic execution of the Go SSA of /repo, SMT (z3)",
        "level": "model_checking",
        "level_note": c["note"],
    })
with open(root + "/properties.jsonl", "w") as f:
    for o in out:
        f.write(json.dumps(o) + "\n")
json.dump(reg, open(root + "/harness/registry.json", "w"), indent=1)
m = {"version": 1, "setup_cmd": "bash build.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: harnesses are injected as overlay files of the analysed packages. "
              "Every check loads and type checks /repo's working tree, builds its SSA form and executes it symbolically; see DESIGN.md."}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    sc = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for o in out:
        jsonschema.validate(o, sc)
except ImportError:
    pass
from how import HOW
sec = []
for p in PROPS:
    c = p["check"]
    sec.append("### %s %s\n" % (p["id"], p["title"]))
    sec.append("Code: " + ", ".join("`%s` (%s)" % m for m in p["mech"]) + "\n")
    sec.append(HOW[p["id"]] + "\n")
    for h in c["harnesses"]:
        ps = lambda d: " ".join("%s=%s" % x for x in d.items()) or "-"
        sec.append("- `%s` (quick %s; thorough %s): %s" % (h[0], ps(h[2]), ps(h[3]), h[5]))
    for k, t in (("assume", "Assumed"), ("outside", "Outside")):
        if c.get(k):
            sec.append("- %s: %s" % (t, "; ".join(c[k])))
    sec.append("")
d = open(root + "/DESIGN.md").read()
B, E = "<!-- properties: generated by tools/gen.py -->", "<!-- end of properties -->"
if B in d:
    d = d[:d.index(B) + len(B)] + "\n\n" + "\n".join(sec) + "\n" + d[d.index(E):]
    open(root + "/DESIGN.md", "w").write(d)
print(len(out), "properties", len(checks), "checks", len(na), "not applicable")
