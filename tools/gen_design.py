#!/usr/bin/env python3
"""Regenerates DESIGN.md from tools/design_*.md, properties.jsonl and the MC-BOUND / MC-ASSUME lines of the harnesses."""
import json, glob, re, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = {}
for blk in re.split(r"^## ", open(f"{V}/tools/design_methods.md").read(), flags=re.M)[1:]:
    k, _, v = blk.partition("\n"); M[k.strip()] = v.strip()
out = [open(f"{V}/tools/design_head.md").read(), "## 3. Properties\n"]
for l in open(f"{V}/properties.jsonl"):
    p = json.loads(l); i = p["id"]
    t = open(glob.glob(f"{V}/harness/{i}_*.cpp")[0]).read()
    b = " ".join(re.findall(r"^//MC-BOUND (.*)$", t, re.M)); a = " ".join(re.findall(r"^//MC-ASSUME (.*)$", t, re.M))
    v = ", ".join(n.replace("T_","") for n in re.findall(r"^//MC-VARIANT (\S+):", t, re.M)) or "asan"
    m, _, c = M[i].partition("COST:")
    out.append(f"### {i} {p['title']}\n*Property.* {p['statement']}\n\n*Decided by.* {m.strip()}\n\n*Bounds.* {b}.\n\n*Domain.* {a}.\n\n*Builds.* {v}. *Cost (quick / thorough).* {c.strip()}. *Why tests cannot.* {p['why_tests_cant']}\n")
out.append(open(f"{V}/tools/design_tail.md").read())
rows = []
for d in sorted(glob.glob(f"{V}/seeded/*/meta.json")):
    m = json.load(open(d)); n = os.path.basename(os.path.dirname(d))
    rows.append(f"| {n} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {m.get('caught_by', m['property'])} |")
out.append("## 6. Planted bugs and mutation campaign\nEach bug was written from the property's text, builds, passes the 81 tests, and has a demonstration.\n\n| id | property | needs | breaks | caught by |\n|---|---|---|---|---|\n" + "\n".join(rows) + "\n")
out.append(open(f"{V}/tools/design_end.md").read())
open(f"{V}/DESIGN.md", "w").write("\n".join(out))
