"""Writes DESIGN.md from design_head.md, design_props.py, properties, findings, planted bugs."""
import glob, json, os
from design_props import D
from meta_text import META
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda f: open(os.path.join(V, f)).read()
props = [json.loads(l) for l in rd("properties.jsonl").splitlines()]
kf = json.loads(rd("known_findings.json"))
fixed = kf["fixed"]
out = [rd("tools/design_head.md").rstrip() + "\n"]
for p in props:
    i = p["id"]
    s, g, o, b, t = D[i]
    out.append(f"### {i} {p['title']}\n")
    out.append(f"{META[i]['technique']}. *Specified:* {s}. *Generated:* {g}. *Oracle:* {o}. *Bounds and free choices:* {b}. *Beyond the tests:* {t}.\n")
    out += [f"* known finding {k['id']}: {k['what_fails']}." for k in kf["known"] if k["property"] == i]
    n = [f for f in fixed if f"property={i} " in f]
    if n:
        out.append(f"* {len(n)} defects found and repaired (listed in `known_findings.json`).")
    out.append("")
out.append(rd("tools/design_tail.md").rstrip() + "\n")
first = set(rd("tools/first_missed.txt").split())
out.append("| planted change | what it breaks | caught by |\n|---|---|---|")
for f in sorted(glob.glob(os.path.join(V, "seeded/*/meta.json"))):
    m, i = json.load(open(f)), f.split("/")[-2]
    out.append(f"| {i} | {m['what_it_breaks']} | {m['property']}{' (after strengthening)' if i in first else ''} |")
missed = rd("tools/design_missed.md").strip()
if missed:
    out.append("\n" + missed)
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out) + "\n")
