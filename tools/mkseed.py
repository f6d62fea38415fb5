"""Build and validate planted changes in a scratch copy of /repo.

usage: mkseed.py SPEC.py [id ...]    (SPEC defines SEEDS)
Each seed: dict(id, property, edits=[(file, old, new[, count])], demo=python source, needs, breaks)
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "src/tad_dftd4/"
BASE = "90d8ae1"
PY = "/opt/venv/bin/python"


def run(cmd, env=None, cwd=None, timeout=900):
    e = dict(os.environ, OMP_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", **(env or {}))
    return subprocess.run(cmd, env=e, cwd=cwd, capture_output=True, text=True, timeout=timeout)


def build(s, out):
    w = tempfile.mkdtemp(prefix="seed_", dir="/tmp")
    try:
        r = os.path.join(w, "repo")
        shutil.copytree("/repo", r, symlinks=True, ignore=shutil.ignore_patterns("__pycache__"))
        for e in s["edits"]:
            f = os.path.join(r, SRC, e[0])
            t = open(f).read()
            n = e[3] if len(e) > 3 else 1
            if t.count(e[1]) != n:
                return f"edit matches {t.count(e[1])} times in {e[0]}"
            open(f, "w").write(t.replace(e[1], e[2]))
        diff = run(["git", "diff"], cwd=r).stdout
        if not diff:
            return "empty diff"
        # only changes of original lines count
        mine, f = True, None
        for line in diff.splitlines():
            if line.startswith("--- a/"):
                f = run(["git", "show", BASE + ":" + line[6:]], cwd=r).stdout.splitlines()
            elif line.startswith("-") and f is not None and line[1:] not in f:
                mine = False
        s["note"] = "" if mine else "[touches lines of fix commits] "
        d = os.path.join(out, s["id"])
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.py"), "w").write(s["demo"].lstrip())
        open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
        env = {"PYTHONPATH": os.path.join(r, "src")}
        a = run(["bash", os.path.join(d, "demo.sh")], cwd="/repo")
        b = run(["bash", os.path.join(d, "demo.sh")], env=env, cwd=r)
        if a.returncode != 0:
            return "demo fails on the unchanged tree: " + (a.stdout + a.stderr)[-400:]
        if b.returncode == 0:
            return "demo passes with the change"
        t = run([PY, "-m", "pytest", "-q", "-n", "4", "-p", "no:cacheprovider", "--timeout=300", "-x", "test"], env=env, cwd=r)
        last = t.stdout.strip().splitlines()[-1] if t.stdout.strip() else t.stderr[-300:]
        if t.returncode != 0:
            return "tests: " + "\n".join([x for x in t.stdout.splitlines() if x.startswith("FAILED")][:3]) + " " + last
        c = run([PY, os.path.join(ROOT, "run.py"), "--property", s["property"], "--tier", "quick", "--procs", "4"], env={"VERIF_REPO": r}, cwd=ROOT)
        v = [x for x in c.stdout.splitlines() if x.startswith(("VIOLATION", "ERROR", "property"))]
        s["caught"] = c.returncode == 1
        return ("CAUGHT " + s["note"] if c.returncode == 1 else f"MISSED rc={c.returncode} " + s["note"]) + last + " | " + " | ".join(v)[-260:] + "  demo: " + (b.stdout + b.stderr).strip().splitlines()[-1][:150]
    finally:
        shutil.rmtree(w)


if __name__ == "__main__":
    from concurrent.futures import ThreadPoolExecutor

    g = {}
    exec(open(sys.argv[1]).read(), g)
    out = os.path.join(ROOT, "seeded")
    os.makedirs(out, exist_ok=True)
    todo = [s for s in g["SEEDS"] if len(sys.argv) < 3 or s["id"] in sys.argv[2:]]
    with ThreadPoolExecutor(2) as ex:
        for s, m in zip(todo, ex.map(lambda s: build(s, out), todo)):
            print(s["id"], s["property"], m, flush=True)
            if not m.startswith(("CAUGHT", "MISSED")):
                shutil.rmtree(os.path.join(out, s["id"]), ignore_errors=True)
