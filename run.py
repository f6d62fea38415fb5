#!/opt/venv/bin/python
"""
Decide one property:  run.py --property C01 --tier quick|thorough
Replay a violation:   run.py --replay evidence/replay/C01.json
"""

from __future__ import annotations

import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import resource
import sys
import time
import traceback

os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("MKL_NUM_THREADS", "1")
os.environ["CUDA_VISIBLE_DEVICES"] = ""
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(REPO, "src"))

LEVEL = "other"


def load(pid):
    return importlib.import_module(f"checks.{pid.lower()}")


def key_of(job):
    return job["fn"] + "|" + json.dumps(job.get("cfg", {}), sort_keys=True)


class Trace:
    """Functions of the code under test that were executed symbolically."""

    def __init__(self):
        self.seen = set()
        self.root = os.path.join(REPO, "src")

    def __enter__(self):
        m = sys.monitoring
        m.use_tool_id(4, "verif")

        def start(code, off):
            if code.co_filename.startswith(self.root):
                self.seen.add(os.path.relpath(code.co_filename, self.root) + ":" + code.co_qualname)
            return m.DISABLE

        m.register_callback(4, m.events.PY_START, start)
        m.set_events(4, m.events.PY_START)
        return self

    def __exit__(self, *a):
        m = sys.monitoring
        m.set_events(4, 0)
        m.free_tool_id(4)


def run_job(pid, job, seed, tier):
    from symt import explore, stubs  # noqa: F401

    mod = load(pid)
    fn = getattr(mod, job["fn"])
    budget = job.get("budget", 120 if tier == "quick" else 600)
    t0 = time.time()
    with Trace() as tr:
        if job.get("kind") == "direct":
            # the function runs its own queries and returns a Result
            r = fn(job.get("cfg", {}), seed, budget)
        else:
            r = explore.explore(
                fn,
                job.get("cfg", {}),
                seed=seed,
                max_paths=job.get("max_paths", 200),
                budget=budget,
                ncand=job.get("ncand", 4),
                timeout_ms=job.get("timeout_ms", 400),
            )
    return dict(
        status=r.status,
        message=r.message,
        env=r.env,
        failures=r.failures[:8],
        paths=r.paths,
        obligations=r.obligations,
        labels=r.labels[:60],
        bounds=r.bounds,
        witnesses=r.witnesses,
        stats=r.stats,
        wall=time.time() - t0,
        functions=sorted(tr.seen),
    )


def _child(conn, pid, job, seed, tier, mem):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    except (ValueError, OSError):
        pass
    try:
        r = run_job(pid, job, seed, tier)
    except BaseException as ex:  # noqa: BLE001
        r = dict(status="inconclusive", message=f"{type(ex).__name__}: {ex}", trace=traceback.format_exc()[-2000:])
    try:
        conn.send(r)
    except Exception as ex:  # noqa: BLE001
        conn.send(dict(status="inconclusive", message=f"result not sendable: {ex}"))
    conn.close()
    os._exit(0)


def pool(pid, jobs, seed, tier, total, nproc):
    """Run the jobs in forked workers with hard limits."""
    ctx = mp.get_context("fork")
    todo = list(enumerate(jobs))
    todo.sort(key=lambda t: -t[1].get("weight", 1))
    running = {}
    out = [None] * len(jobs)
    t0 = time.time()
    mem = 6 << 30
    stop = False
    while todo or running:
        left = total - (time.time() - t0)
        while todo and len(running) < nproc and not stop and left > 5:
            k, job = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(b, pid, job, seed, tier, mem))
            p.start()
            b.close()
            lim = job.get("budget", 120 if tier == "quick" else 600) * 1.5 + 30
            running[k] = (p, a, time.time() + min(lim, max(left, 5)))
        if left <= 5 and not running:
            for k, _ in todo:
                out[k] = dict(status="inconclusive", message="not started: time budget used up")
            break
        if stop:
            # a confirmed violation settles the property
            for k, (p, a, dl) in running.items():
                p.kill()
                p.join()
                out[k] = dict(status="inconclusive", message="not finished: another configuration is violated")
            for k, _ in todo:
                out[k] = dict(status="inconclusive", message="not run: another configuration is violated")
            break
        mp.connection.wait([v[1] for v in running.values()], timeout=0.5)
        for k, (p, a, dl) in list(running.items()):
            r = None
            if a.poll():
                try:
                    r = a.recv()
                except EOFError:
                    r = dict(status="inconclusive", message="worker died (memory?)")
            elif not p.is_alive():
                r = dict(status="inconclusive", message=f"worker died ({p.exitcode})")
            elif time.time() > dl:
                r = dict(status="inconclusive", message="time limit")
            if r is not None:
                out[k] = r
                if r["status"] == "violation" and not is_known(pid, jobs[k], r):
                    stop = True
                p.kill()
                p.join()
                a.close()
                del running[k]
                if os.environ.get("VERIF_VERBOSE"):
                    print(f"[{time.time()-t0:6.1f}s] {key_of(jobs[k])[:150]} -> {r['status']} {r.get('wall', 0):.1f}s {r.get('message', '')}", flush=True)
    for k, v in enumerate(out):
        if v is None:
            out[k] = dict(status="inconclusive", message="not run")
    return out


def sources():
    root = os.path.join(REPO, "src", "tad_dftd4")
    h = hashlib.sha256()
    for d, ds, fs in sorted(os.walk(root)):
        ds.sort()
        for f in sorted(fs):
            if f.endswith((".py", ".toml", ".npy", ".pt")):
                h.update(f.encode())
                with open(os.path.join(d, f), "rb") as fp:
                    h.update(fp.read())
    return h.hexdigest()[:16]


def is_known(pid, job, r):
    ks = [x for x in known_findings(pid) if x["job"] == key_of(job)]
    return bool(ks) and all(any(x["match"] in f for x in ks) for f in r["failures"])


def known_findings(pid):
    path = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as fp:
        return [k for k in json.load(fp)["findings"] if k["property"] == pid and k["status"] == "known"]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--only")
    ap.add_argument("--procs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        return replay_file(a.replay)
    pid, tier = a.property, a.tier
    t0 = time.time()
    import warnings

    warnings.simplefilter("ignore")
    try:
        import torch

        torch.set_num_threads(1)
        from symt import explore, stubs  # noqa: F401

        from symt import symtensor

        symtensor.decomps()
        import torch._dynamo  # noqa: F401  (otherwise loaded by every worker)

        import tad_dftd4  # noqa: F401
        mod = load(pid)
        jobs = mod.jobs(tier)
    except Exception as ex:  # noqa: BLE001
        traceback.print_exc()
        # the package under test cannot even be imported
        path = write_replay(pid, dict(kind="import", error=repr(ex)))
        print(f"ERROR property={pid}: {ex}")
        return 2
    if a.only:
        jobs = [j for j in jobs if a.only in key_of(j)]
    if a.list:
        for j in jobs:
            print(key_of(j))
        return 0
    total = 780 if tier == "quick" else 3300
    res = pool(pid, jobs, a.seed, tier, total, a.procs)
    # once more, with more time per query, what a busy machine left open
    again = [k for k, r in enumerate(res) if r["status"] == "inconclusive" and not r["message"].startswith(("not encodable", "vacuous"))]
    left = total - (time.time() - t0)
    if again and left > 60 and not any(r["status"] == "violation" and not is_known(pid, j, r) for j, r in zip(jobs, res)):
        slow = [dict(jobs[k], timeout_ms=4 * jobs[k].get("timeout_ms", 400), budget=2 * jobs[k].get("budget", 120 if tier == "quick" else 600)) for k in again]
        for k, r in zip(again, pool(pid, slow, a.seed, tier, left, a.procs)):
            res[k] = r
    known = known_findings(pid)
    viol, und, hit = [], [], []
    for j, r in zip(jobs, res):
        if r["status"] == "violation":
            if is_known(pid, j, r):
                hit.append((next(x for x in known if x["job"] == key_of(j)), j, r))
            else:
                viol.append((j, r))
        elif r["status"] != "ok":
            und.append((j, r))
    wall = time.time() - t0
    evidence(pid, tier, a.seed, mod, jobs, res, viol, und, hit, wall)
    for k, j, r in hit:
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    for j, r in und if not viol else ():
        print(f"UNDECIDED property={pid} {key_of(j)[:200]}: {r['message'][:300]}")
    nok = sum(r["status"] == "ok" for r in res)
    st = [r.get("stats", {}) for r in res]
    print(
        f"property={pid} tier={tier} jobs={len(jobs)} proved={nok} undecided={len(und)} violations={len(viol)} "
        f"obligations={sum(r.get('obligations', 0) for r in res)} queries={sum(s.get('queries', 0) for s in st)} "
        f"solver={sum(s.get('solver_s', 0) for s in st):.1f}s wall={wall:.1f}s"
    )
    if viol:
        j, r = viol[0]
        path = write_replay(pid, dict(kind="job", job=j, env=r["env"], failures=r["failures"]))
        for x in r["failures"][:4]:
            print("  " + x[:300])
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    if und and nok * 2 < len(jobs):
        print(f"ERROR property={pid}: fewer than half of the queries were decided")
        return 2
    return 0


def write_replay(pid, data):
    d = os.path.join(HERE, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{pid}.json")
    data["property"] = pid
    with open(path, "w") as fp:
        json.dump(data, fp, indent=1)
    return path


def replay_file(path):
    """Re-run a recorded counterexample against the real code."""
    with open(path) as fp:
        d = json.load(fp)
    from symt import explore, stubs  # noqa: F401

    mod = load(d["property"])
    fn = getattr(mod, d["job"]["fn"])
    if d["job"].get("kind") == "direct":
        fails = mod.replay(d["job"], d["env"])
    else:
        fails = explore.replay_twice(fn, d["job"].get("cfg", {}), d["env"])
    for f in fails:
        print(f)
    print(f"VIOLATION property={d['property']} replay={path}" if fails else "not reproduced")
    return 1 if fails else 0


def evidence(pid, tier, seed, mod, jobs, res, viol, und, hit, wall):
    fns = sorted({f for r in res for f in r.get("functions", [])})
    st = [r.get("stats", {}) for r in res]
    bounds = {}
    for j, r in zip(jobs, res):
        for k, v in (r.get("bounds") or {}).items():
            bounds.setdefault(k, v)
    ok = [r for r in res if r["status"] == "ok"]
    doc = dict(
        property=pid,
        tier=tier,
        seed=seed,
        level=LEVEL,
        coverage=dict(
            explanation=getattr(mod, "EXPLANATION", "").strip(),
            technique="symbolic execution of the real code (torch dispatch) + z3",
            obligations=sum(r.get("obligations", 0) for r in res),
            discharged=sum(r.get("obligations", 0) for r in ok),
            harness_configurations=len(jobs),
            configurations_proved=len(ok),
            configurations_undecided=[dict(job=key_of(j), why=r["message"][:300]) for j, r in und],
            known_findings=[dict(job=key_of(j), what=k["what"]) for k, j, r in hit],
            paths=sum(r.get("paths", 0) for r in res),
            witnesses_replayed=sum(r.get("witnesses", 0) for r in res),
            queries=sum(s.get("queries", 0) for s in st),
            unsat=sum(s.get("unsat", 0) for s in st),
            sat=sum(s.get("sat", 0) for s in st),
            unknown=sum(s.get("unknown", 0) for s in st),
            solver_s=round(sum(s.get("solver_s", 0) for s in st), 3),
            functions_encoded=fns,
            bounds=dict(sorted(bounds.items())[:80]),
            source_hash=sources(),
            configurations=[dict(job=key_of(j), status=r["status"], obligations=r.get("obligations", 0), paths=r.get("paths", 0), checks=r.get("labels", [])[:12]) for j, r in zip(jobs, res)][:120],
        ),
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])) + COMMON_ASSUMPTIONS,
        violations=[dict(job=key_of(j), failures=r["failures"], inputs=r["env"]) for j, r in viol],
        wall_s=round(wall, 2),
    )
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, f"{pid}.json"), "w") as fp:
        json.dump(doc, fp, indent=1, default=str)


COMMON_ASSUMPTIONS = [
    "real arithmetic stands for IEEE arithmetic: results count as equal when they agree to 1e-9 relative to the sum of the absolute terms; rounding errors inside one precision are outside the claim",
    "inputs range over the stated intervals; element choices and array shapes are the listed configurations",
    "semantics of the torch operators as encoded in symt/symtensor.py (validated by replaying witnesses of every path on the real code)",
    "tad-mctc and tad-multicharge are third-party; tad-mctc code is executed symbolically too, the EEQ linear solve is a nondeterministic stub where positions are symbolic",
]


if __name__ == "__main__":
    sys.exit(main())
