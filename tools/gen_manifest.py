#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the harnesses present."""
import json, os, glob, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
checks, na = [], []
for p in props:
    h = glob.glob(f"{V}/harness/{p['id']}_*.cpp")
    if not h:
        na.append(dict(property=p["id"], reason=NA.get(p["id"], "check under construction")))
        continue
    t = open(h[0]).read()
    bound = " ".join(re.findall(r"^//MC-BOUND (.*)$", t, re.M))
    tech = " ".join(re.findall(r"^//MC-TECH (.*)$", t, re.M)) or "stateless model checking of the real code (exhaustive bounded enumeration against a reference model)"
    checks.append(dict(property=p["id"], quick_cmd=f"python3 run.py {p['id']}", thorough_cmd=f"python3 run.py {p['id']}",
                       technique=tech, level="model_checking", level_note="Exhaustive within: " + bound + ". Nothing is claimed beyond these bounds."))
m = dict(version=1, setup_cmd="python3 --version && g++ --version", checks=checks, not_applicable=na)
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
