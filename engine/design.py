#!/usr/bin/env python3
"""Rewrite the generated part of DESIGN.md (between the markers) from the properties, the notes and the last evidence."""
import json, os, sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import props
from check import registry
from notes import NA, NOTES, TRUST

reg = registry()
ev = os.environ.get("VERIF_EVIDENCE_DIR", os.path.join(ROOT, "evidence"))
kf = json.load(open(os.path.join(ROOT, "known_findings.json")))
known, fixed = {}, {}
for f in kf["findings"]:
    known.setdefault(f["property"], []).append(f["what"])
for f in kf["fixed"]:
    a = f.split("property=", 1)[1].split(" ", 2)
    fixed.setdefault(a[0], []).append((a[1], a[2]))
seeded = {}
sd = "/verif/seeded"
for d in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m = json.load(open(os.path.join(sd, d, "meta.json")))
    seeded.setdefault(m["property"], []).append((d, m["what_it_breaks"]))
out = []
for x in props.P:
    i = x["id"]
    if i not in reg:
        continue
    tech, note = NOTES[i]
    out.append(f"### {i} {x['title']}\n")
    out.append(f"*Decided by*: {tech}. *Extent*: {note.replace(TRUST, '')}\n")
    try:
        e = json.load(open(os.path.join(ev, f"{i}.json")))["coverage"]
        out.append("*Obligations* — each is one construct of the program, discharged when every abstract path to it satisfies the rule:\n")
        for r, t in e["rules"].items():
            out.append(f"- `{r}`: {t}")
        out.append("")
        out.append(f"*On the present tree*: {e['obligations']} obligations over {e['functions_analysed']} functions.\n")
    except (OSError, KeyError):
        pass
    out.append(f"*Why tests cannot settle it*: {x['why_tests_cant']}\n")
    for c, w in fixed.get(i, []):
        out.append(f"- repaired ({c}): {w}")
    for w in known.get(i, []):
        out.append(f"- known finding: {w}")
    for d, w in seeded.get(i, []):
        out.append(f"- planted change `{d}` (caught by this check): {w}")
    out.append("")
out.append("## Not applicable\n")
for x in props.P:
    if x["id"] not in reg:
        out.append(f"- **{x['id']} {x['title']}**: {NA[x['id']]}")
text = "\n".join(out)
while "\n\n\n" in text:
    text = text.replace("\n\n\n", "\n\n")
p = os.path.join(ROOT, "DESIGN.md")
s = open(p).read()
A, B = "<!-- generated by engine/design.py -->", "<!-- end of the generated part -->"
a, b = s.index(A), s.index(B)
open(p, "w").write(s[: a + len(A)] + "\n\n" + text + "\n\n" + s[b:])
