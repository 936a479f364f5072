"""Build and validate a planted bug: python3 tools/mkseed.py SPEC.py [ids...]
A spec file defines SEEDS: list of dicts(id, property, needs, breaks, edits=[(file, old, new)], demo=python source).
Applies it to /repo, writes seeded/<id>, runs demo and tests and the property's check, and undoes it."""
import importlib.util, json, os, pathlib, shutil, subprocess, sys, textwrap
root = pathlib.Path(__file__).resolve().parent.parent
R = "/repo"

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)

def undo():
    subprocess.check_call(["git", "-C", R, "checkout", "-q", "--", "."])

def demo(d):
    try:
        r = sh(f"bash {d}/demo.sh", cwd=R, timeout=280)
    except subprocess.TimeoutExpired:
        return 124, "timeout"
    return r.returncode, (r.stdout + r.stderr)[-300:]

def main():
    spec = importlib.util.spec_from_file_location("spec", sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    only = [a for a in sys.argv[2:] if not a.startswith("-")]
    notest = "--notest" in sys.argv
    nocheck = "--nocheck" in sys.argv
    assert not sh(f"git -C {R} status --porcelain").stdout.strip(), "repo dirty"
    for s in m.SEEDS:
        if only and s["id"] not in only: continue
        d = root / "seeded" / s["id"]
        shutil.rmtree(d, ignore_errors=True); d.mkdir(parents=True)
        (d / "demo.sh").write_text('#!/bin/bash\nd="$(cd "$(dirname "$0")" && pwd)"\nexport PYTHONDONTWRITEBYTECODE=1 CUDA_VISIBLE_DEVICES= PYTHONPATH="$d:/repo"\nexec /opt/venv/bin/python "$d/demo.py"\n')
        (d / "demo.py").write_text(textwrap.dedent(s["demo"]).lstrip())
        if "from helper" in s["demo"] or "import helper" in s["demo"]:
            shutil.copy(root / "tools" / "seeds" / "helper.py", d / "helper.py")
        (d / "meta.json").write_text(json.dumps(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), indent=1) + "\n")
        clean = demo(d)
        res = {"clean": clean[0]}
        try:
            for f, a, b in s["edits"]:
                p = pathlib.Path(R) / f; t = p.read_text()
                assert t.count(a) == 1, (s["id"], f, t.count(a), a)
                p.write_text(t.replace(a, b))
            (d / "patch.diff").write_text(sh(f"git -C {R} diff").stdout)
            dirty = demo(d); res["bug"] = dirty[0]
            if not notest:
                sh("bash /opt/vp/test.sh /tmp/seedtest.json"); res["failed"] = json.load(open("/tmp/seedtest.json"))["failed"]
            if not nocheck:
                r = sh(f"bash run.sh {s['property']} quick", cwd=root, env={**os.environ, "VERIF_SEED": "1", "VERIF_TIER": "quick"})
                v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
                w = [l.strip()[:170] for l in r.stdout.splitlines() if l.startswith("    [")]
                res["check"] = (r.returncode, len(v), w[:1])
        finally:
            undo()
        ok = res["clean"] == 0 and res["bug"] not in (0,) and not res.get("failed")
        print(s["id"], "VALID" if ok else "INVALID", "CAUGHT" if res.get("check", (0,))[0] == 1 else "missed", res, "" if ok else (clean, dirty), flush=True)
main()
