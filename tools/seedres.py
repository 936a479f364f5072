"""Rewrite tools/seed_results.json: python3 tools/seedres.py [id=by ...] (default: caught by the check of its property)."""
import json, pathlib, sys
root = pathlib.Path(__file__).resolve().parent.parent
f = root / "tools" / "seed_results.json"
old = json.loads(f.read_text()) if f.exists() else {}
given = dict(a.split("=", 1) for a in sys.argv[1:])
res = {}
for d in sorted((root / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    res[d.name] = dict(property=m["property"], needs=m["needs"], by=given.get(d.name) or old.get(d.name, {}).get("by") or m["property"])
f.write_text(json.dumps(res, indent=1) + "\n")
