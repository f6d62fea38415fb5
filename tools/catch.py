"""Run every planted change (seeded/) against its property's quick check.

usage: catch.py [ids...]   writes seeded_results.json in the current folder of tools
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
OUT = os.path.join(ROOT, "tools", "catch.json")


def main():
    ids = sys.argv[1:] or sorted(os.listdir(os.path.join(ROOT, "seeded")))
    res = json.load(open(OUT)) if os.path.exists(OUT) else {}
    for i in ids:
        d = os.path.join(ROOT, "seeded", i)
        meta = json.load(open(os.path.join(d, "meta.json")))
        tmp = tempfile.mkdtemp(prefix="catch_")
        r = os.path.join(tmp, "repo")
        shutil.copytree("/repo", r, symlinks=True)
        t = time.time()
        if subprocess.run(["git", "-C", r, "apply", os.path.join(d, "patch.diff")]).returncode:
            res[i] = dict(property=meta["property"], result="does not apply")
        else:
            p = subprocess.run([PY, "run.py", "--property", meta["property"], "--tier", "quick", "--procs", os.environ.get("PROCS", "3")], cwd=ROOT, env=dict(os.environ, VERIF_REPO=r), capture_output=True, text=True)
            hit = p.returncode == 1 and f"VIOLATION property={meta['property']} " in p.stdout
            res[i] = dict(property=meta["property"], result="caught" if hit else f"missed rc={p.returncode}")
        shutil.rmtree(tmp)
        print(i, res[i], round(time.time() - t), flush=True)
        known = set(os.listdir(os.path.join(ROOT, "seeded")))
        json.dump({k: v for k, v in sorted(res.items()) if k in known}, open(OUT, "w"), indent=1)


main()
