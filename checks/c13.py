"""C13: damping parameters of a functional."""

import json
import os

import torch

from . import common as C

EXPLANATION = """
get_params runs for every functional and every damping variant of both methods
on a string whose letter case is symbolic (the lookup forks only if the code
looks at the case); z3 compares the returned values with the published table
(pinned copy).  Default variant, DOI handling, unknown names, repeated calls
after the caller changed an earlier result, and the energy obtained from the
returned dictionary are covered.
"""
ASSUMPTIONS = ["letter case of the functional: all lower or not, symbolic per name"]

_P: dict = {}


def table():
    if not _P:
        with open(os.path.join(os.path.dirname(__file__), "..", "data", "params.json")) as fp:
            _P.update(json.load(fp))
    return _P


class Name(str):
    """A functional name with symbolic letter case."""

    def __new__(cls, ctx, low, var):
        s = super().__new__(cls, low)
        s.ctx, s.low, s.var = ctx, low, var
        return s

    def _real(self):
        up = self.ctx.decide(self.ctx.lt(0.5, self.var))
        return self.low.upper() if up else self.low

    def casefold(self):
        return self.low

    lower = casefold

    def upper(self):
        return self.low.upper()

    def strip(self, *a):
        return self

    def __eq__(self, o):
        if not isinstance(o, str) or o.casefold() != self.low:
            return False
        return self._real() == str.__str__(o)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self._real())

    def __str__(self):
        return self._real()

    def __repr__(self):
        return repr(self.low)

    def __format__(self, spec):
        return self.low


def name(ctx, low):
    v = ctx.real(f"case_{low}", 0, 1)
    return Name(ctx, low, v) if ctx.symbolic else (low.upper() if v > 0.5 else low)


def same(ctx, label, got, want, doi):
    want = {k: v for k, v in want.items() if doi or k != "doi"}
    ctx.check_bool(f"{label}: keys", set(got) == set(want))
    num = [k for k in want if not isinstance(want[k], str)]
    ctx.check_eq(f"{label}: values", [ctx.lit(got[k]) for k in num], [ctx.lit(want[k]) for k in num])
    ctx.check_bool(f"{label}: text", all(got[k] == want[k] for k in want if isinstance(want[k], str)))


def raises(f, *exc):
    try:
        f()
    except exc:
        return True
    except Exception:
        return False
    return False


def lookup(ctx, cfg):
    from tad_dftd4.damping import get_params
    from tad_dftd4.damping.parameters import DispersionMethod

    m = cfg["method"]
    T = table()[m]
    names = sorted(T["parameter"])[cfg["start"] : cfg["start"] + cfg["count"]]
    default = T["default"][m][0]
    meth = DispersionMethod(m) if cfg.get("enum") else m
    for k, f in enumerate(names):
        block = T["parameter"][f].get(m, {})
        n = name(ctx, f)
        for v, want in block.items():
            for doi in (False, True) if k % 4 == 0 else (bool(k % 2),):
                got = get_params(method=meth, functional=n, variant=v, keep_doi=doi)
                same(ctx, f"{m}/{f}/{v}", got, want, doi)
                # the caller owns the result
                for key in list(got):
                    got[key] = 99.0
                got["extra"] = 1.0
                same(ctx, f"{m}/{f}/{v} again", get_params(method=meth, functional=n, variant=v, keep_doi=doi), want, doi)
        if default in block:
            same(ctx, f"{m}/{f} default", get_params(method=meth, functional=n), block[default], False)
            same(ctx, f"{m}/{f} default", get_params(method=meth, functional=n, variant=None, keep_doi=True), block[default], True)
        else:
            ctx.check_bool(f"{m}/{f}: no default", raises(lambda: get_params(method=meth, functional=n), KeyError))
        ctx.check_bool(f"{m}/{f}: unknown variant", raises(lambda: get_params(method=meth, functional=n, variant="nope"), KeyError))


def near_misses(f):
    """Names that resemble f."""
    out = {f + x for x in ("-d", "-d2", "-d3", "-d4", "d3", "d4", "-3c", "-", "_", " ", "0", "h", "x", "-bj", "(0)", "-v", "/d4", ".")}
    out |= {x + f for x in ("-", " ", "_", "r", "u", "d-", "x", "0")}
    out |= {f.replace("-", ""), f.replace("_", ""), f.replace("-", "_"), f.replace("_", "-"), f.replace("-", " "), f.replace("/", ""), f[:-1], f[1:], f * 2, f[::-1]}
    out |= {f[:k] + "-" + f[k:] for k in range(1, len(f))}
    return out


def unknown(ctx, cfg):
    """Names that only resemble a functional are refused."""
    from tad_dftd4.damping import get_params

    m = cfg["method"]
    T = table()[m]
    known = {x.casefold() for x in T["parameter"]} | {"default"}
    tried = sorted(set().union(*(near_misses(f) for f in T["parameter"])) - known)
    ok = ctx.real("case", 0, 1)
    ctx.check_le("case", ok, 1)
    for i, f in enumerate(tried):
        g = (f, f.upper(), f.capitalize())[i % 3]
        ctx.check_bool(f"{m}: {g!r} is refused", raises(lambda: get_params(method=m, functional=g, variant=None if i % 2 else T["default"][m][0]), KeyError))
    variants = {v for b in T["parameter"].values() for v in b.get(m, {})}
    for f in sorted(T["parameter"]):
        block = T["parameter"][f].get(m, {})
        for v in sorted(variants | {x for v in variants for x in near_misses(v)}):
            if v not in block:
                ctx.check_bool(f"{m}/{f}: variant {v!r} is refused", raises(lambda: get_params(method=m, functional=f, variant=v), KeyError))


def errors(ctx, cfg):
    from tad_dftd4.damping import get_params

    for m in ("d3", "d4"):
        T = table()[m]
        v = T["default"][m][0]
        ctx.check_bool("unknown functional", raises(lambda: get_params(method=m, functional=name(ctx, "no-such-thing"), variant=v), KeyError))
        ctx.check_bool("unknown functional, default variant", raises(lambda: get_params(method=m, functional=name(ctx, "pbe "), variant=None), KeyError))
        ctx.check_bool("unknown default variant", raises(lambda: get_params(method=m, functional=None, variant="nope"), KeyError))
        for f in (None, "default"):
            for doi in (False, True):
                same(ctx, f"{m} default", get_params(method=m, functional=f, variant=v, keep_doi=doi), T["default"]["parameter"][m][v], doi)
            got = get_params(method=m, functional=f)
            same(ctx, f"{m} default variant", got, T["default"]["parameter"][m][v], False)
            got.clear()
            same(ctx, f"{m} default variant again", get_params(method=m, functional=f), T["default"]["parameter"][m][v], False)
    ctx.check_bool("unknown method", raises(lambda: get_params(method="d9", functional="pbe"), ValueError, KeyError))
    ctx.check_bool("d5 has no table", raises(lambda: get_params(method="d5", functional="pbe"), FileNotFoundError, KeyError))


def energy(ctx, cfg):
    """The dictionary can be used as it is, with and without DOI."""
    from tad_dftd4 import dftd4
    from tad_dftd4.damping import get_params

    num = torch.tensor([6, 8, 1])
    pos = ctx.tensor(ctx.positions("p", 3, coords=[[None, 0.3, 0.1], [2.5, -1.0, 0.4], [0.5, 2.8, -1.9]]))
    q = torch.tensor([0.1, -0.2, 0.1], dtype=C.DT)
    want = table()["d4"]["parameter"][cfg["f"]]["d4"]["bj-eeq-atm"]
    a = dftd4(num, pos, 0, get_params(method="d4", functional=name(ctx, cfg["f"])), q=q)
    b = dftd4(num, pos, 0, get_params(method="d4", functional=name(ctx, cfg["f"]), keep_doi=True), q=q)
    c = dftd4(num, pos, 0, {k: torch.tensor(want[k], dtype=C.DT) for k in want if k != "doi"}, q=q)
    ctx.check_eq("energy from get_params", a, c)
    ctx.check_eq("energy with DOI", b, c)


def jobs(tier):
    J = []

    def add(fn, **k):
        J.append(dict(fn=fn, cfg=k))

    for m, n in (("d4", 117), ("d3", 171)):
        for s in range(0, n, 15):
            add("lookup", method=m, start=s, count=15, enum=(s // 15) % 2 == 1)
    add("errors")
    add("unknown", method="d4")
    add("unknown", method="d3")
    for f in ("pbe", "b3lyp", "tpssh"):
        add("energy", f=f)
    return J
