#!/usr/bin/env python3
"""Writes properties.jsonl, checks.json and MANIFEST.json from one table."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(V, "tools", "table.py")).read())
props, checks, man = [], {}, []
for p in P:
    props.append({"id": p["id"], "title": p["title"], "statement": p["statement"],
                  "quantifier": {"over": p["over"], "text": p["quant"]},
                  "why_tests_cant": p["why"],
                  "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}})
    if "na" in p:
        continue
    runs = []
    for r in p["runs"]:
        fn, tier, time, params = r[:4]
        d = {"fn": fn, "tier": tier, "time": time}
        if params:
            d["params"] = params
        if len(r) > 4:
            d.update(r[4])
        runs.append(d)
    checks[p["id"]] = {"title": p["title"], "pkgs": p["pkgs"], "runs": runs, "assumptions": COMMON + p.get("assume", []), "bounds": p["bounds"]}
    man.append({"property": p["id"], "quick_cmd": "./check %s quick" % p["id"], "thorough_cmd": "./check %s thorough" % p["id"],
                "technique": p.get("technique", "symbolic execution of the Go SSA of /repo with SMT (z3); counterexamples replayed natively"),
                "level": "model_checking", "level_note": p["note"]})
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for x in props:
        f.write(json.dumps(x) + "\n")
with open(os.path.join(V, "checks.json"), "w") as f:
    f.write("{\n" + ",\n".join(' "%s": {"title": %s, "pkgs": %s,\n  "runs": [\n   %s\n  ],\n  "assumptions": %s,\n  "bounds": %s}' % (
        k, json.dumps(c["title"]), json.dumps(c["pkgs"]), ",\n   ".join(json.dumps(r) for r in c["runs"]), json.dumps(c["assumptions"]), json.dumps(c["bounds"])) for k, c in checks.items()) + "\n}\n")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "./check build", "checks": man,
               "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in P if "na" in p],
               "notes": NOTES}, f, indent=1)
    f.write("\n")

# the section of DESIGN.md on each property
exec(open(os.path.join(V, "tools", "design.py")).read())
d = open(os.path.join(V, "DESIGN.md")).read()
a, b = "<!-- properties: written by tools/mk.py -->\n", "<!-- end -->\n"
seeds = {}
for s in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = os.path.join(V, "seeded", s, "meta.json")
    if os.path.exists(m):
        seeds.setdefault(json.load(open(m))["property"], []).append(s)
out = ""
for p in P:
    how, oracle, secs = DES[p["id"]]
    out += "### %s %s\n\n%s\n\n* Oracle: %s.\n" % (p["id"], p["title"], how, oracle)
    for x in p["bounds"]:
        out += "* Bounds: %s.\n" % x
    out += "* Cost: about %d s (quick). Planted and caught: %s.\n\n" % (secs, ", ".join(seeds.get(p["id"], ["none"])))
if a in d:
    d = d[:d.index(a) + len(a)] + "\n" + out + d[d.index(b):]
    open(os.path.join(V, "DESIGN.md"), "w").write(d)
