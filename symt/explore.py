"""
Path exploration and replay of one harness configuration.
"""

from __future__ import annotations

import os
import time
import traceback
import warnings

import torch

from . import poly as P
from . import solve as Z
from . import symtensor as S
from .harness import Broken, ConCtx, Inconclusive, Infeasible, SymCtx
from .poly import Unsupported


class Result:
    def __init__(self):
        self.status = "ok"  # ok | violation | inconclusive
        self.paths = 0
        self.obligations = 0
        self.labels: list = []
        self.bounds: dict = {}
        self.env = None
        self.message = ""
        self.failures: list = []
        self.reached = False
        self.cut = 0
        self.wall = 0.0
        self.stats: dict = {}
        self.known: list = []
        self.witnesses = 0


def replay(fn, cfg, env):
    """Run the harness on the unmodified code at a concrete point."""
    ctx = ConCtx(env)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            fn(ctx, cfg)
        except (Unsupported, KeyError) as ex:
            if isinstance(ex, KeyError) and ex.args and ex.args[0] not in env:
                # an exception of the code under test
                ctx._fail(f"raised {type(ex).__name__}: {ex}")
            elif isinstance(ex, Unsupported):
                raise
            else:
                raise
        except Infeasible:  # outside the assumptions
            return []
        except Exception as ex:  # noqa: BLE001
            ctx._fail(f"raised {type(ex).__name__}: {ex}")
    return ctx.failures


def replay_twice(fn, cfg, env):
    """Replay, and replay again in the state the first run left behind."""
    return replay(fn, cfg, env) or replay(fn, cfg, env)


class Zygote:
    """A process forked before the symbolic run: every replay happens in a
    fresh copy of it, in a state no earlier (symbolic) call has touched."""

    def __init__(self, fn, cfg):
        import multiprocessing as mp

        ctx = mp.get_context("fork")
        self.a, b = ctx.Pipe()
        pid = os.fork()
        if pid:
            b.close()
            self.pid = pid
            return
        self.a.close()
        try:
            self._serve(b, fn, cfg)
        finally:
            os._exit(0)

    @staticmethod
    def _serve(b, fn, cfg):
        while True:
            try:
                env = b.recv()
            except (EOFError, OSError):
                return
            pid = os.fork()
            if pid == 0:
                try:
                    try:
                        out = ("ok", replay_twice(fn, cfg, env))
                    except BaseException:  # noqa: BLE001
                        out = ("error", traceback.format_exc()[-3000:])
                    b.send(out)
                finally:
                    os._exit(0)
            _, st = os.waitpid(pid, 0)
            if st:
                b.send(("error", f"replay died ({st})"))

    def replay(self, env):
        self.a.send(env)
        kind, r = self.a.recv()
        if kind == "error":
            raise RuntimeError(r)
        return r

    def close(self):
        self.a.close()
        try:
            os.waitpid(self.pid, 0)
        except OSError:
            pass


def explore(fn, cfg, seed=1, max_paths=64, budget=600.0, timeout_ms=400, ncand=4) -> Result:
    zyg = Zygote(fn, cfg)
    try:
        return _explore(fn, cfg, zyg, seed, max_paths, budget, timeout_ms, ncand)
    finally:
        zyg.close()


def _explore(fn, cfg, zyg, seed, max_paths, budget, timeout_ms, ncand) -> Result:
    import tad_dftd4

    S.install_numbers(tad_dftd4)
    res = Result()
    t0 = time.time()
    q0 = (Z.STATS.queries, Z.STATS.unsat, Z.STATS.sat, Z.STATS.unknown, Z.STATS.time)
    stack = [[]]
    try:
        while stack:
            if res.paths >= max_paths:
                res.status = "inconclusive"
                res.message = f"more than {max_paths} paths"
                break
            if time.time() - t0 > budget:
                res.status = "inconclusive"
                res.message = "time budget used up"
                break
            dec = stack.pop()
            ctx = SymCtx(seed, list(dec), timeout_ms)
            res.paths += 1
            broken = None
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    with S.SymMode():
                        fn(ctx, cfg)
                res.reached = res.reached or ctx.obligations > 0
            except Broken as b:
                broken = b
            except Infeasible:
                pass
            except Unsupported as u:
                res.status = "inconclusive"
                res.message = f"not encodable: {u} at {where(u)}"
                broken = None
                cands = _try(lambda: _any(ctx)(ncand))
                if _confirm(zyg, cands, res):
                    return res
                return res
            except (KeyboardInterrupt, MemoryError):
                raise
            except Exception as ex:  # raised by the code under test (or by us)
                from .harness import candidates_any

                broken = Broken(f"raised {type(ex).__name__}: {ex} at {where(ex)}", candidates_any(ctx))
            res.obligations += ctx.obligations
            for l in ctx.labels:
                if l not in res.labels:
                    res.labels.append(l)
            res.bounds.update({k: [None if x is None else float(x) for x in v] for k, v in ctx.bounds.items()})
            if broken is not None:
                # never report on an infeasible path
                cands = _try(lambda: broken.finder(ncand)) or []
                if _confirm(zyg, cands, res):
                    return res
                if not cands and ctx.solver.path and str(ctx.solver.query([], "feasible", 10000, all_=True)) == "unsat":
                    pass
                else:
                    res.status = "inconclusive"
                    res.message = f"{broken.label}: not proved and no counterexample reproduced ({len(cands)} tried)"
                    return res
            elif ctx.obligations:
                # reachability witness; replaying it also validates the encoding
                w = _try(lambda: _any(ctx)(1))
                if w:
                    res.witnesses += 1
                    if _confirm(zyg, w, res):
                        res.message = "encoding and code disagree at a witness: " + res.message
                        return res
                elif str(ctx.solver.query([], "feasible", 10000, all_=True)) == "unsat":
                    ctx.obligations = 0
            for k in reversed(ctx.new_alts):
                stack.append(ctx.decisions[:k] + [False])
    finally:
        res.wall = time.time() - t0
        q1 = (Z.STATS.queries, Z.STATS.unsat, Z.STATS.sat, Z.STATS.unknown, Z.STATS.time)
        res.stats = dict(zip(("queries", "unsat", "sat", "unknown", "solver_s"), [b - a for a, b in zip(q0, q1)]))
    if res.status == "ok" and not res.witnesses:
        res.status = "inconclusive"
        res.message = "vacuous: the assumptions have no witness"
    if res.status == "ok" and not res.reached:
        res.status = "inconclusive"
        res.message = "vacuous: no check was reached"
    return res


def _any(ctx):
    from .harness import candidates_any

    return candidates_any(ctx)


def _try(f):
    try:
        return f()
    except Exception:  # noqa: BLE001
        traceback.print_exc()
        return []


def _confirm(zyg, cands, res) -> bool:
    for env in cands:
        try:
            fails = zyg.replay(env)
        except Exception:  # noqa: BLE001
            traceback.print_exc()
            continue
        if fails:
            res.status = "violation"
            res.env = {k: str(v) for k, v in env.items()}
            res.failures = fails
            res.message = fails[0]
            return True
    return False


def where(ex):
    tb = traceback.extract_tb(ex.__traceback__)
    for f in reversed(tb):
        if "tad_" in f.filename or "checks" in f.filename:
            return f"{f.filename.split('/')[-1]}:{f.lineno}"
    return f"{tb[-1].filename.split('/')[-1]}:{tb[-1].lineno}" if tb else "?"
