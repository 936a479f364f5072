"""Assemble DESIGN.md from design_head.md, the property table, per-property notes (design_notes.json), findings and seeded bugs."""
import json, os, re, sys
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
sys.path.insert(0, here)
from props import PROPS
notes = json.load(open(os.path.join(here, "design_notes.json")))
out = open(os.path.join(here, "design_head.md")).read()
for p in sorted(PROPS, key=lambda p: p["id"]):
    src = open(os.path.join(root, "vk", "checks", p["id"].lower() + ".py")).read()
    wl = re.findall(r'Workload\("(\w+)", .*?, (\d+), (\d+)', src)
    out += f"### {p['id']} {p['title']}\n\n{p['statement']}\n\n"
    out += f"- *Deciding method:* {p['technique']}.\n"
    for k in ("monitor", "oracle", "bounds"):
        if notes.get(p["id"], {}).get(k):
            out += f"- *{k.capitalize()}:* {notes[p['id']][k]}\n"
    out += f"- *Why the tests cannot settle it:* {p['why']}.\n"
    if wl:
        out += "- *Workloads (quick/thorough cases):* " + ", ".join(f"{n} {a}/{b}" for n, a, b in wl) + ".\n"
    out += "\n"
out += open(os.path.join(here, "design_tail.md")).read()
kf = json.load(open(os.path.join(root, "known_findings.json")))["findings"]
out += "\n## Known findings (recorded, not repaired)\n\n"
for f in kf:
    if f["status"] == "known":
        out += f"- {f['property']} `{f['key']}`: {f['what']}\n"
out += "\n## Genuine defects found and repaired\n\n"
for f in kf:
    if f["status"] == "fixed":
        out += f"- {f['property']} {f['commit']}: {f['what']}\n"
res = os.path.join(here, "seed_results.json")
if os.path.exists(res):
    out += "\n## Planted bugs and what catches them (quick tier, seed 1)\n\n| id | property | needs | caught by |\n|---|---|---|---|\n"
    for k, v in sorted(json.load(open(res)).items()):
        if os.path.isdir(os.path.join(root, "seeded", k)):
            out += f"| {k} | {v['property']} | {v['needs']} | {v['by']} |\n"
open(os.path.join(root, "DESIGN.md"), "w").write(out)
