import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
sys.path.insert(0, here)
from props import PROPS
import re
levels = {}
for p in PROPS:
    src = open(os.path.join(root, "vk", "checks", p["id"].lower() + ".py")).read()
    levels[p["id"]] = re.search(r'level="(\w+)"', src).group(1)
PROPS.sort(key=lambda p: p["id"])
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["quant"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                         observe_at=p["observe"], hook_needed=None))) + "\n")
man = dict(version=1, setup_cmd="bash setup.sh",
    hooks=dict(guard="none", enable="no hooks in /repo: the monitors attach from outside (registered merge methods, patched torch/OS boundary)", source_commits=[]),
    checks=[dict(property=p["id"], quick_cmd=f"bash run.sh {p['id']} quick", thorough_cmd=f"bash run.sh {p['id']} thorough",
        evidence_file=f"evidence/{p['id']}.json", technique=p["technique"], level=levels[p["id"]], level_note=p["note"]) for p in PROPS],
    not_applicable=[], notes="Runtime monitoring; see DESIGN.md. Repairs in /repo are listed in known_findings.json (status fixed).")
json.dump(man, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(PROPS), "properties")
