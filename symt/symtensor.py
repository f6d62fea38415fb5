"""
Symbolic tensors: a torch tensor subclass whose entries are terms.

Torch itself executes the code under test -- Python control flow, composite
operators, einsum lowering, broadcasting rules, autograd -- down to the aten
operators, which are interpreted here over terms instead of floats.  Operators
without an interpretation raise Unsupported: the run is then inconclusive,
never a pass.
"""

from __future__ import annotations

import math

import numpy as np
import torch
from torch.utils._python_dispatch import TorchDispatchMode
from torch.utils._pytree import tree_map

from . import elem as X
from . import poly as P
from .elem import E, E0, E1
from .poly import P1, ZERO, Unsupported

aten = torch.ops.aten

FLOATS = (torch.float64, torch.float32, torch.float16, torch.bfloat16)
RANK = {torch.bfloat16: 0, torch.float16: 0, torch.float32: 1, torch.float64: 2}


class Stats:
    def __init__(self):
        self.ops: dict[str, int] = {}
        self.elements = 0


STATS = Stats()


def _strides(a: np.ndarray):
    return tuple(s // a.itemsize for s in a.strides)


class SymTensor(torch.Tensor):
    """Tensor of terms."""

    @staticmethod
    def __new__(cls, arr: np.ndarray, dtype, requires_grad=False):
        t = torch.Tensor._make_wrapper_subclass(
            cls,
            arr.shape,
            strides=_strides(arr),
            dtype=dtype,
            device="cpu",
            requires_grad=requires_grad,
        )
        t.arr = arr
        return t

    def __repr__(self):
        return f"SymTensor({self.arr.tolist()!r}, dtype={self.dtype})"

    __str__ = __repr__

    @classmethod
    def __torch_dispatch__(cls, func, types, args=(), kwargs=None):
        return dispatch(func, args, kwargs or {})

    def __deepcopy__(self, memo):
        return SymTensor(self.arr.copy(), self.dtype, self.requires_grad)

    def item(self):
        """Python number of a one-element tensor: stays a term."""
        if self.arr.size != 1:
            raise RuntimeError(f"a Tensor with {self.arr.size} elements cannot be converted to Scalar")
        return number(self.arr.reshape(-1)[0], self.dtype)

    def tolist(self):
        f = lambda x: [f(y) for y in x] if isinstance(x, list) else number(x, self.dtype)  # noqa: E731
        return f(self.arr.tolist()) if self.arr.ndim else number(self.arr[()], self.dtype)


def number(e, dtype):
    """What .item() / float() of an element gives: a number, or a term that acts as one."""
    if dtype == torch.bool:
        return decide_elem(e)
    if e.is_const():
        v = X.value(e)
        return int(v) if dtype not in FLOATS else v
    a = np.empty((), dtype=object)
    a[()] = e
    t = SymTensor(a, torch.float64)
    t.pynum = True
    return t


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, float) or getattr(x, "pynum", False) is True

    def __subclasscheck__(cls, c):
        return issubclass(c, float)

    def __eq__(cls, o):
        return o is float or o is PyFloat

    def __hash__(cls):
        return hash(float)

    def __getattr__(cls, k):
        return getattr(float, k)


class PyFloat(metaclass=_FloatMeta):
    """The name `float` as the code under test sees it."""

    def __new__(cls, x=0.0):
        return x.item() if isinstance(x, SymTensor) else float(x)


def _holds_sym(x):
    return isinstance(x, SymTensor) or (isinstance(x, (list, tuple)) and any(_holds_sym(y) for y in x))


def install_numbers(package):
    """Python-level conversions (float(), torch.tensor, torch.full) accept terms."""
    import sys

    for name, m in list(sys.modules.items()):
        if m is not None and (name == package.__name__ or name.startswith(package.__name__ + ".")):
            m.__dict__.setdefault("float", PyFloat)
    if getattr(torch.tensor, "_terms", False):
        return
    tensor, full = torch.tensor, torch.full

    def make(data, dtype):
        if isinstance(data, (list, tuple)):
            return torch.stack([make(x, dtype) for x in data])
        if isinstance(data, SymTensor):
            return data.detach().clone().to(dtype or (torch.get_default_dtype() if getattr(data, "pynum", False) else data.dtype))
        return tensor(data, dtype=dtype)

    def tensor_(data, *, dtype=None, device=None, requires_grad=False, pin_memory=False):
        if not _holds_sym(data):
            return tensor(data, dtype=dtype, device=device, requires_grad=requires_grad, pin_memory=pin_memory)
        if dtype is None and isinstance(data, (list, tuple)):
            dtype = torch.get_default_dtype()
        return make(data, dtype).requires_grad_(requires_grad)

    def full_(size, fill_value, **kw):
        if not isinstance(fill_value, SymTensor):
            return full(size, fill_value, **kw)
        dt = kw.get("dtype") or torch.get_default_dtype()
        return fill_value.detach().reshape(()).to(dt).expand(size).clone()

    tensor_._terms = True
    torch.tensor, torch.full = tensor_, full_


def objarr(shape, items) -> np.ndarray:
    a = np.empty(shape, dtype=object)
    if a.ndim == 0:
        a[()] = items[0]
    else:
        a.reshape(-1)[:] = items if len(items) else []
    return a


def _fill(shape, x) -> np.ndarray:
    n = int(np.prod(shape)) if len(shape) else 1
    a = np.empty(shape, dtype=object)
    a.reshape(-1)[:] = [x] * n if n else []
    if a.ndim == 0:
        a[()] = x
    return a


_CC: dict = {}


def c_elem(v) -> E:
    k = (type(v), v)
    r = _CC.get(k)
    if r is None:
        r = _CC[k] = X.cst(v)
    return r


def const_arr(t: torch.Tensor) -> np.ndarray:
    if t.is_complex():
        raise Unsupported("complex tensor")
    with torch._C._DisableTorchDispatch():
        vals = t.detach().reshape(-1).tolist()
    out = np.empty(tuple(t.shape), dtype=object)
    its = [c_elem(v) for v in vals]
    if out.ndim == 0:
        out[()] = its[0]
    else:
        flat = np.empty(len(its), dtype=object)
        flat[:] = its
        out = flat.reshape(tuple(t.shape))
    return out


def A(x, dtype=None) -> np.ndarray:
    """Anything -> object array of elements."""
    if isinstance(x, SymTensor):
        return x.arr
    if isinstance(x, torch.Tensor):
        return const_arr(x)
    a = np.empty((), dtype=object)
    if isinstance(x, E):
        a[()] = x
    else:
        a[()] = c_elem(x)
    return a


def sym(arr, dtype) -> SymTensor:
    STATS.elements += arr.size
    return SymTensor(arr, dtype)


def from_polys(polys, shape, dtype=torch.float64, requires_grad=False) -> SymTensor:
    t = SymTensor(objarr(shape, [E(p) for p in polys]), dtype)
    if requires_grad:
        t.requires_grad_(True)
    return t


def is_sym(x):
    return isinstance(x, SymTensor)


def elems(t) -> list[E]:
    return list(A(t).reshape(-1))


def is_const(t: SymTensor) -> bool:
    return all(e.is_const() for e in t.arr.reshape(-1))


def concrete(t: SymTensor) -> torch.Tensor:
    vals = [X.value(e) for e in t.arr.reshape(-1)]
    with torch._C._DisableTorchDispatch():
        r = torch.tensor(vals, dtype=torch.float64).reshape(tuple(t.shape))
        return r.to(t.dtype)


def decide_bool(p) -> bool:
    """Truth value of a 0/1 term as a Python bool (forks when undetermined)."""
    if p.is_const():
        return p.const() != 0
    i = p.has_ind()
    while i is not None:
        at = P.W.atoms[i]
        if P.W.branch is None:
            raise Unsupported("data-dependent branch outside an exploration")
        v = P.W.branch(at)
        p = p.subst_ind(i, 1 if v else 0)
        if p.is_const():
            return p.const() != 0
        i = p.has_ind()
    raise Unsupported(f"undecidable branch on {P.show(p)}")


def decide_elem(e: E) -> bool:
    if e.inf:
        return True
    if not e.bad.is_zero() and decide_bool(e.bad):
        return True
    p = e.p
    if p.is_const():
        return p.const() != 0
    if _is01(p):
        return decide_bool(p)
    return not decide_bool(P.ind_eq(p))


def _is01(p):
    for (pw, ex) in p.t:
        if ex is not None:
            return False
        for i, _ in pw:
            if P.W.atoms[i].kind != "ind":
                return False
    return True


# ------------------------------------------------------------------ dispatch

TABLE: dict = {}


def op(*overloads):
    def deco(f):
        for o in overloads:
            TABLE[o] = f
        return f

    return deco


class Ctx:
    """Static information for one operator call."""

    def __init__(self, func):
        self.func = func


def has_sym(args, kwargs):
    for a in args:
        if isinstance(a, SymTensor):
            return True
        if isinstance(a, (list, tuple)) and any(isinstance(x, SymTensor) for x in a):
            return True
    return any(isinstance(a, SymTensor) for a in kwargs.values())


_DECOMP = None


def decomps():
    global _DECOMP
    if _DECOMP is None:
        import torch._decomp
        import torch._refs  # noqa: F401  (registers the reference decompositions)

        _DECOMP = torch._decomp.decomposition_table
    return _DECOMP


def dispatch(func, args, kwargs):
    name = str(func)
    STATS.ops[name] = STATS.ops.get(name, 0) + 1
    f = TABLE.get(func)
    if f is not None:
        return f(func, *args, **kwargs)
    # in-place variant of a known functional op
    r = _inplace_fallback(func, args, kwargs)
    if r is not NotImplemented:
        return r
    # all-constant inputs: run the real operator
    try:
        r = func.decompose(*args, **kwargs)
        if r is not NotImplemented:
            return r
    except Unsupported:
        raise
    except NotImplementedError:
        pass
    d = decomps().get(func)
    if d is not None:
        return d(*args, **kwargs)
    if _all_const(args, kwargs):
        return _run_concrete(func, args, kwargs)
    raise Unsupported(f"operator {name}")


def _all_const(args, kwargs):
    ok = True

    def chk(x):
        nonlocal ok
        if isinstance(x, SymTensor) and not is_const(x):
            ok = False
        return x

    tree_map(chk, (args, kwargs))
    return ok


def _run_concrete(func, args, kwargs):
    conv = lambda x: concrete(x) if isinstance(x, SymTensor) else x
    a2, k2 = tree_map(conv, (args, kwargs))
    with torch._C._DisableTorchDispatch():
        r = func(*a2, **k2)

    def back(x):
        if isinstance(x, torch.Tensor) and x.dtype in FLOATS:
            return sym(const_arr(x), x.dtype)
        return x

    return tree_map(back, r)


def _inplace_fallback(func, args, kwargs):
    schema = func._schema
    nm = schema.name.split("::")[1]
    if nm.endswith("_") and not nm.startswith("_") and not nm.endswith("__"):
        base = getattr(aten, nm[:-1], None)
        if base is None:
            return NotImplemented
        ov = getattr(base, schema.overload_name or "default", None)
        if ov is None:
            return NotImplemented
        tgt = args[0]
        if not isinstance(tgt, SymTensor):
            raise Unsupported(f"in-place {func} of a symbolic value into a plain tensor")
        val = ov(*args, **kwargs)
        return write(tgt, val)
    if "out" in kwargs:
        raise Unsupported(f"out= variant {func}")
    return NotImplemented


def write(tgt: SymTensor, val):
    v = A(val)
    v = cast_arr(v, dtype_of(val), tgt.dtype)
    tgt.arr[...] = np.broadcast_to(v, tgt.arr.shape)
    return tgt


def dtype_of(x):
    if getattr(x, "pynum", False) is True:
        return torch.get_default_dtype()
    if isinstance(x, torch.Tensor):
        return x.dtype
    if isinstance(x, bool):
        return torch.bool
    if isinstance(x, int):
        return torch.int64
    return torch.get_default_dtype()


def result_dtype(*xs):
    """Torch type promotion on metadata only."""
    ms = []
    for x in xs:
        if getattr(x, "pynum", False) is True:
            ms.append(1.0)
        elif isinstance(x, torch.Tensor):
            ms.append(torch.empty(tuple([1] * x.dim()), dtype=x.dtype, device="meta"))
        elif isinstance(x, E):
            continue
        else:
            ms.append(x)
    r = ms[0]
    if len(ms) == 1:
        return dtype_of(xs[0])
    dt = None
    with torch._C._DisableTorchDispatch():
        if len(ms) == 2:
            dt = torch.result_type(ms[0], ms[1])
        else:
            dt = torch.result_type(ms[0], ms[1])
            for m in ms[2:]:
                d2 = torch.result_type(r, m)
                dt = torch.promote_types(dt, d2)
    return dt


def as_float(dt):
    return dt if dt in FLOATS else torch.get_default_dtype()


def cast_arr(arr, src, dst):
    if src == dst:
        return arr
    if dst in FLOATS:
        if src in FLOATS and RANK[dst] < RANK[src] and P.W.track_round:
            k = {torch.float32: "f32", torch.float16: "f16"}.get(dst)
            if k is None:
                raise Unsupported("bfloat16")
            f = X.round_to(k)
            return umap(f, arr)
        return arr
    if dst == torch.bool:
        return umap(lambda a: a if (not a.inf and _is01(a.p) and _01range(a.p)) else X.ne(a, E0), arr)
    # to integer
    if src == torch.bool:
        return arr
    if src in FLOATS:
        def tr(a):
            if a.is_const():
                return c_elem(int(X.value(a)))
            if _is01(a.p):
                return a
            raise Unsupported("symbolic float -> int")
        return umap(tr, arr)
    return arr


def _01range(p):
    return p.is_const() and p.const() in (0, 1) or not p.is_const()


def umap(f, a: np.ndarray) -> np.ndarray:
    out = np.empty(a.shape, dtype=object)
    cache = {}
    if a.ndim == 0:
        out[()] = f(a[()])
        return out
    flat = []
    for e in a.reshape(-1):
        k = id(e)
        r = cache.get(k)
        if r is None:
            r = cache[k] = f(e)
        flat.append(r)
    if flat:
        out.reshape(-1)[:] = flat
    return out


def bmap(f, a: np.ndarray, b: np.ndarray) -> np.ndarray:
    sh = np.broadcast_shapes(a.shape, b.shape)
    a2, b2 = np.broadcast_to(a, sh), np.broadcast_to(b, sh)
    out = np.empty(sh, dtype=object)
    if out.ndim == 0:
        out[()] = f(a2[()], b2[()])
        return out
    cache = {}
    flat = []
    for x, y in zip(a2.reshape(-1), b2.reshape(-1)):
        k = (id(x), id(y))
        r = cache.get(k)
        if r is None:
            r = cache[k] = f(x, y)
        flat.append(r)
    if flat:
        out.reshape(-1)[:] = flat
    return out


# ------------------------------------------------------------------ pointwise


def _round_result(arr, a, dt):
    """In single precision every arithmetic result is rounded; the model keeps
    exact values (rounding of arithmetic is outside the model)."""
    return arr


def binary(f, *ops_, floaty=False, boolean=False, logical=False):
    def impl(func, a, b, **kw):
        alpha = kw.pop("alpha", 1)
        if kw.pop("rounding_mode", None) is not None:
            if _all_const((a, b), {}):
                return _run_concrete(func, (a, b), {"rounding_mode": "floor"})
            raise Unsupported("rounding division")
        dt = result_dtype(a, b)
        if floaty:
            dt = as_float(dt)
        x, y = A(a), A(b)
        if alpha != 1:
            al = c_elem(alpha)
            y = umap(lambda e: X.mul(e, al), y)
        if not boolean:
            x = _operand_cast(x, a, dt)
            y = _operand_cast(y, b, dt)
            g = f
            if dt == torch.bool:
                g = BOOLOPS.get(f, f)
            return sym(bmap(g, x, y), dt)
        return sym(bmap(f, x, y), torch.bool)

    op(*ops_)(impl)
    return impl


def _operand_cast(arr, t, dt):
    if isinstance(t, torch.Tensor) and t.dtype in FLOATS and dt in FLOATS:
        return cast_arr(arr, t.dtype, dt)
    return arr


def b_and(a, b):
    return E(a.p * b.p)


def b_or(a, b):
    return E(X.b_or(a.p, b.p))


def b_xor(a, b):
    return E(a.p + b.p - (a.p * b.p).scale(P.num(2)))


def truth(e: E) -> E:
    if e.inf:
        return E1
    if e.bad.is_zero() and _is01(e.p):
        return e
    r = X.ne(e, E0)
    return E(X.b_or(r.p, e.bad))


BOOLOPS = {X.mul: b_and, X.add: b_or}

binary(X.add, aten.add.Tensor, aten.add.Scalar)
binary(X.sub, aten.sub.Tensor, aten.sub.Scalar)
binary(X.mul, aten.mul.Tensor, aten.mul.Scalar)
binary(X.div, aten.div.Tensor, aten.div.Scalar, aten.div.Tensor_mode, aten.div.Scalar_mode, floaty=True)
binary(X.power, aten.pow.Tensor_Tensor, aten.pow.Tensor_Scalar, aten.pow.Scalar)
binary(X.maximum_lazy, aten.maximum.default, aten.fmax.default)
binary(X.minimum_lazy, aten.minimum.default, aten.fmin.default)
binary(lambda a, b: X.sqrt(X.add(X.mul(a, a), X.mul(b, b))), aten.hypot.default)
binary(X.le, aten.le.Tensor, aten.le.Scalar, boolean=True)
binary(X.lt, aten.lt.Tensor, aten.lt.Scalar, boolean=True)
binary(X.ge, aten.ge.Tensor, aten.ge.Scalar, boolean=True)
binary(X.gt, aten.gt.Tensor, aten.gt.Scalar, boolean=True)
binary(X.eq, aten.eq.Tensor, aten.eq.Scalar, boolean=True)
binary(X.ne, aten.ne.Tensor, aten.ne.Scalar, boolean=True)
binary(lambda a, b: b_and(truth(a), truth(b)), aten.logical_and.default, boolean=True)
binary(lambda a, b: b_or(truth(a), truth(b)), aten.logical_or.default, boolean=True)
binary(lambda a, b: b_xor(truth(a), truth(b)), aten.logical_xor.default, boolean=True)


def bitwise(f, *ops_):
    def impl(func, a, b):
        if result_dtype(a, b) != torch.bool:
            raise Unsupported("bitwise operation on integers")
        return sym(bmap(f, A(a), A(b)), torch.bool)

    op(*ops_)(impl)


bitwise(b_and, aten.bitwise_and.Tensor, aten.bitwise_and.Scalar, aten.__and__.Tensor)
bitwise(b_or, aten.bitwise_or.Tensor, aten.bitwise_or.Scalar, aten.__or__.Tensor)
bitwise(b_xor, aten.bitwise_xor.Tensor, aten.bitwise_xor.Scalar, aten.__xor__.Tensor)


@op(aten.rsub.Tensor, aten.rsub.Scalar)
def _rsub(func, a, b, alpha=1):
    return aten.sub.Tensor(b if isinstance(b, torch.Tensor) else scal(b, a), a, alpha=alpha)


def scal(x, like):
    """A Python scalar as a 0-dim wrapped number."""
    t = torch.tensor(x, dtype=like.dtype)
    return t


@op(aten.bitwise_not.default, aten.logical_not.default)
def _not(func, a):
    return sym(umap(lambda e: E(P1 - truth(e).p), A(a)), torch.bool)


def unary(f, *ops_, keepint=False):
    def impl(func, a, **kw):
        dt = a.dtype if keepint else as_float(a.dtype)
        return sym(umap(f, A(a)), dt)

    op(*ops_)(impl)


def _sigmoid(e):
    return X.div(E1, X.add(E1, X.exp(X.neg(e))))


unary(X.neg, aten.neg.default, keepint=True)
unary(X.abs_, aten.abs.default, keepint=True)
unary(X.sign, aten.sign.default, aten.sgn.default, keepint=True)
unary(X.exp, aten.exp.default)
unary(lambda e: X.sub(X.exp(e), E1), aten.expm1.default)
unary(lambda e: X.power(c_elem(2), e), aten.exp2.default)
unary(X.log, aten.log.default)
unary(lambda e: X.log(X.add(E1, e)), aten.log1p.default)
unary(X.sqrt, aten.sqrt.default)
unary(lambda e: X.power(e, c_elem(-0.5)), aten.rsqrt.default)
unary(lambda e: X.div(E1, e), aten.reciprocal.default)
unary(lambda e: X.mul(e, e), aten.square.default)
unary(X.fn("erf"), aten.erf.default)
unary(lambda e: X.sub(E1, X.fn("erf")(e)), aten.erfc.default)
unary(X.fn("cos"), aten.cos.default)
unary(X.fn("sin"), aten.sin.default)
unary(_sigmoid, aten.sigmoid.default)
unary(
    lambda e: X.sub(c_elem(1), X.div(c_elem(2), X.add(X.exp(X.mul(c_elem(2), e)), E1))),
    aten.tanh.default,
)
unary(lambda e: X.maximum(e, E0), aten.relu.default)
unary(lambda e: e, aten.clone.default, aten.detach.default, aten.alias.default,
      aten.lift_fresh.default, aten.contiguous.default, keepint=True)


@op(aten.alias.default, aten.detach.default, aten.lift_fresh.default)
def _alias(func, a):
    return SymTensor(a.arr, a.dtype)


@op(aten.clone.default, aten.contiguous.default)
def _clone(func, a, memory_format=None):
    return SymTensor(a.arr.copy(), a.dtype)


def flagop(f, *ops_):
    def impl(func, a):
        return sym(umap(f, A(a)), torch.bool)

    op(*ops_)(impl)


flagop(X.isnan, aten.isnan.default)
flagop(X.isinf, aten.isinf.default)
flagop(lambda e: E0 if e.inf else E(P1 - e.bad), aten.isfinite.default)


@op(aten.nan_to_num.default)
def _nan_to_num(func, a, nan=0.0, posinf=None, neginf=None):
    fi = torch.finfo(a.dtype)
    hi = c_elem(fi.max if posinf is None else float(posinf))
    lo = c_elem(fi.min if neginf is None else float(neginf))
    nv = c_elem(0.0 if nan is None else float(nan))

    def f(e):
        if e.inf:
            return hi if e.inf > 0 else lo
        return X.where(e.bad, nv, E(e.p)) if not e.bad.is_zero() else e

    return sym(umap(f, A(a)), a.dtype)


@op(aten.where.self, aten.where.ScalarSelf, aten.where.ScalarOther, aten.where.Scalar)
def _where(func, c, a, b):
    dt = result_dtype(a, b)
    x, y = _operand_cast(A(a), a, dt), _operand_cast(A(b), b, dt)
    ca = A(c)
    sh = np.broadcast_shapes(ca.shape, x.shape, y.shape)
    c2 = np.broadcast_to(ca, sh)
    out = np.empty(sh, dtype=object)
    x2, y2 = np.broadcast_to(x, sh), np.broadcast_to(y, sh)
    r = [
        X.where(k.p, u, v)
        for k, u, v in zip(c2.reshape(-1), x2.reshape(-1), y2.reshape(-1))
    ]
    if out.ndim == 0:
        out[()] = r[0]
    elif r:
        out.reshape(-1)[:] = r
    return sym(out, dt)


@op(aten.clamp.default, aten.clamp.Tensor, aten.clamp_min.default, aten.clamp_max.default,
    aten.clamp_min.Tensor, aten.clamp_max.Tensor)
def _clamp(func, a, *lim, min=None, max=None):
    n = str(func)
    if "clamp_min" in n:
        min = lim[0]
    elif "clamp_max" in n:
        max = lim[0]
    else:
        if len(lim) > 0:
            min = lim[0]
        if len(lim) > 1:
            max = lim[1]
    r = A(a)
    if min is not None:
        r = bmap(X.maximum, r, A(min))
    if max is not None:
        r = bmap(X.minimum, r, A(max))
    return sym(r, result_dtype(*[v for v in (a, min, max) if v is not None]))


@op(aten.lerp.Tensor, aten.lerp.Scalar)
def _lerp(func, a, b, w):
    return a + (b - a) * w


@op(aten.addcmul.default)
def _addcmul(func, a, b, c, value=1):
    return a + b * c * value


@op(aten.addcdiv.default)
def _addcdiv(func, a, b, c, value=1):
    return a + b / c * value


@op(aten.fill.Scalar, aten.fill.Tensor)
def _fillop(func, a, v):
    out = np.empty(a.arr.shape, dtype=object)
    x = A(v)[()]
    if out.ndim == 0:
        out[()] = x
    elif out.size:
        out.reshape(-1)[:] = [x] * out.size
    return sym(out, a.dtype)


@op(aten.copy_.default)
def _copy_(func, a, b, non_blocking=False):
    if not isinstance(a, SymTensor):
        raise Unsupported("copy_ of a symbolic value into a plain tensor")
    return write(a, b)


@op(aten.copy.default)
def _copy(func, a, b, non_blocking=False):
    t = SymTensor(np.empty(tuple(a.shape), dtype=object), a.dtype)
    return write(t, b)


@op(aten.pow_.Scalar)
def _pow_s(func, a, b):
    return write(a, aten.pow.Tensor_Scalar(a, b))


@op(aten.pow_.Tensor)
def _pow_t(func, a, b):
    return write(a, aten.pow.Tensor_Tensor(a, b))


@op(aten.square_.default)
def _square_(func, a):
    return write(a, aten.mul.Tensor(a, a))


@op(aten.fill_.Scalar, aten.fill_.Tensor)
def _fill_(func, a, v):
    return write(a, v)


@op(aten.zero_.default)
def _zero_(func, a):
    return write(a, 0.0)


@op(aten.masked_fill.Scalar, aten.masked_fill.Tensor)
def _masked_fill(func, a, m, v):
    return _where(func, m, v if isinstance(v, torch.Tensor) else torch.tensor(v, dtype=a.dtype), a)


@op(aten._to_copy.default)
def _to_copy(func, a, dtype=None, layout=None, device=None, pin_memory=None, non_blocking=False, memory_format=None):
    dt = dtype or a.dtype
    r = cast_arr(A(a), a.dtype, dt)
    return SymTensor(r.copy(), dt)


# ------------------------------------------------------------------ creation


@op(aten.zeros_like.default)
def _zeros_like(func, a, dtype=None, **kw):
    return sym(_fill(tuple(a.shape), E0), dtype or a.dtype)


@op(aten.ones_like.default)
def _ones_like(func, a, dtype=None, **kw):
    return sym(_fill(tuple(a.shape), E1), dtype or a.dtype)


@op(aten.full_like.default)
def _full_like(func, a, v, dtype=None, **kw):
    return sym(_fill(tuple(a.shape), A(v)[()]), dtype or a.dtype)


@op(aten.empty_like.default)
def _empty_like(func, a, dtype=None, **kw):
    return sym(_fill(tuple(a.shape), E0), dtype or a.dtype)


@op(aten.new_zeros.default, aten.new_empty.default)
def _new_zeros(func, a, size, dtype=None, **kw):
    return sym(_fill(tuple(size), E0), dtype or a.dtype)


@op(aten.new_empty_strided.default)
def _new_es(func, a, size, stride, dtype=None, **kw):
    return sym(_fill(tuple(size), E0), dtype or a.dtype)


@op(aten.new_ones.default)
def _new_ones(func, a, size, dtype=None, **kw):
    return sym(_fill(tuple(size), E1), dtype or a.dtype)


@op(aten.new_full.default)
def _new_full(func, a, size, v, dtype=None, **kw):
    return sym(_fill(tuple(size), A(v)[()]), dtype or a.dtype)


# ------------------------------------------------------------------ views


def view(f, *ops_):
    def impl(func, a, *args, **kw):
        r = f(a.arr, *args, **kw)
        if isinstance(r, list):
            return [SymTensor(x, a.dtype) for x in r]
        return SymTensor(r, a.dtype)

    op(*ops_)(impl)


def _resolve(shape, n):
    shape = list(shape)
    if -1 in shape:
        i = shape.index(-1)
        k = int(np.prod([s for s in shape if s != -1])) if len(shape) > 1 else 1
        shape[i] = n // k if k else 0
    return tuple(shape)


def _np_view(a, shape):
    shape = _resolve(shape, a.size)
    v = a.view()
    try:
        v.shape = shape  # raises when a copy would be needed
        return v
    except AttributeError:
        return a.reshape(shape)


view(_np_view, aten.view.default, aten._unsafe_view.default)


@op(aten.reshape.default, aten._reshape_alias.default)
def _reshape(func, a, shape, *rest):
    return SymTensor(a.arr.reshape(_resolve(shape, a.arr.size)), a.dtype)


view(lambda a, d: np.transpose(a, d), aten.permute.default)
view(lambda a, i, j: np.swapaxes(a, i, j) if a.ndim else a, aten.transpose.int)
view(lambda a: a.T, aten.t.default)


def _unsq(a, d):
    d = d if d >= 0 else d + a.ndim + 1
    return np.expand_dims(a, d)


view(_unsq, aten.unsqueeze.default)


def _sq(a, d=None):
    if d is None:
        return np.squeeze(a)
    ds = [d] if isinstance(d, int) else list(d)
    ds = tuple(x % a.ndim for x in ds if a.ndim and a.shape[x] == 1)
    return np.squeeze(a, axis=ds) if ds else a


view(_sq, aten.squeeze.default, aten.squeeze.dim, aten.squeeze.dims)


def _expand(a, size, implicit=False):
    size = list(size)
    off = len(size) - a.ndim
    for i, s in enumerate(size):
        if s == -1:
            size[i] = a.shape[i - off]
    return np.broadcast_to(a, tuple(size))


view(_expand, aten.expand.default)


def _select(a, d, i):
    d %= a.ndim
    n = a.shape[d]
    if not -n <= i < n:
        raise IndexError("select(): index out of range")
    idx = [slice(None)] * a.ndim
    idx[d] = i
    r = a[tuple(idx)]
    if not isinstance(r, np.ndarray):
        # keep aliasing for 0-dim results
        idx[d] = slice(i % n, i % n + 1)
        r = a[tuple(idx)].reshape(())
    return r


view(_select, aten.select.int)


def _slice(a, d=0, start=None, end=None, step=1):
    idx = [slice(None)] * a.ndim
    idx[d % a.ndim] = slice(start, end, step)
    return a[tuple(idx)]


view(_slice, aten.slice.Tensor)


def _diagonal(a, offset=0, dim1=0, dim2=1):
    r = np.diagonal(a, offset, dim1, dim2)
    r = r.view()
    try:
        r.flags.writeable = a.flags.writeable
    except ValueError:
        pass
    return r


view(_diagonal, aten.diagonal.default)
view(lambda a, s, d=0: [x for x in np.split(a, list(range(s, a.shape[d], s)), axis=d)], aten.split.Tensor)
view(lambda a, s, d=0: [x for x in np.split(a, list(np.cumsum(s))[:-1], axis=d)], aten.split_with_sizes.default)


def _unbind(a, d=0):
    return [_select(a, d, i) for i in range(a.shape[d])]


view(_unbind, aten.unbind.int)


@op(aten.as_strided.default)
def _as_strided(func, a, size, stride, offset=None):
    base = a.arr
    if offset not in (None, 0):
        raise Unsupported("as_strided with offset")
    k = base.itemsize
    r = np.lib.stride_tricks.as_strided(base, tuple(size), tuple(s * k for s in stride))
    return SymTensor(r, a.dtype)


@op(aten.flip.default)
def _flip(func, a, dims):
    return SymTensor(np.flip(a.arr, tuple(dims)).copy(), a.dtype)


@op(aten.roll.default)
def _roll(func, a, shifts, dims=()):
    sh = shifts if isinstance(shifts, (list, tuple)) else [shifts]
    if not dims:
        return SymTensor(np.roll(a.arr, sh[0]), a.dtype)
    return SymTensor(np.roll(a.arr, tuple(sh), tuple(dims)), a.dtype)


@op(aten.repeat.default)
def _repeat(func, a, reps):
    x = a.arr.reshape((1,) * (len(reps) - a.arr.ndim) + a.arr.shape)
    return SymTensor(np.tile(x, tuple(reps)), a.dtype)


@op(aten.cat.default)
def _cat(func, ts, dim=0):
    dt = ts[0].dtype
    for t in ts[1:]:
        dt = torch.promote_types(dt, t.dtype)
    arrs = [cast_arr(A(t), t.dtype, dt) for t in ts if not (t.dim() == 1 and t.shape[0] == 0)]
    if not arrs:
        return sym(A(ts[0]), dt)
    return sym(np.concatenate(arrs, axis=dim), dt)


@op(aten.stack.default)
def _stack(func, ts, dim=0):
    dt = ts[0].dtype
    for t in ts[1:]:
        dt = torch.promote_types(dt, t.dtype)
    return sym(np.stack([cast_arr(A(t), t.dtype, dt) for t in ts], axis=dim if dim >= 0 else dim + ts[0].dim() + 1), dt)


@op(aten.tril.default)
def _tril(func, a, diagonal=0):
    m = np.tril(np.ones(a.arr.shape[-2:]), diagonal).astype(bool)
    out = a.arr.copy()
    out[..., ~m] = E0
    return sym(out, a.dtype)


@op(aten.triu.default)
def _triu(func, a, diagonal=0):
    m = np.triu(np.ones(a.arr.shape[-2:]), diagonal).astype(bool)
    out = a.arr.copy()
    out[..., ~m] = E0
    return sym(out, a.dtype)


@op(aten.diag_embed.default)
def _diag_embed(func, a, offset=0, dim1=-2, dim2=-1):
    if offset or (dim1, dim2) != (-2, -1):
        raise Unsupported("diag_embed options")
    n = a.arr.shape[-1]
    out = _fill(a.arr.shape + (n,), E0)
    for i in range(n):
        out[..., i, i] = a.arr[..., i]
    return sym(out, a.dtype)


# ------------------------------------------------------------------ indexing


def _np_index(idx, shape):
    """aten index list -> numpy index (all integer/bool/None)."""
    out = []
    for t in idx:
        if t is None:
            out.append(slice(None))
        elif isinstance(t, SymTensor):
            if t.dtype == torch.bool:
                v = [decide_elem(e) for e in t.arr.reshape(-1)]
                out.append(np.array(v, dtype=bool).reshape(t.arr.shape))
            elif is_const(t):
                out.append(concrete(t).numpy())
            else:
                raise Unsupported("symbolic index")
        else:
            out.append(t.detach().numpy())
    return tuple(out)


def _torch_get(base: np.ndarray, idx):
    """Use torch itself to compute which flat positions an index selects."""
    pos = torch.arange(base.size).reshape(base.shape)
    ii = []
    for t in idx:
        if t is None:
            ii.append(None)
        elif isinstance(t, SymTensor):
            n = _np_index([t], None)[0]
            ii.append(torch.from_numpy(np.ascontiguousarray(n)))
        else:
            ii.append(t)
    with torch._C._DisableTorchDispatch():
        sel = aten.index.Tensor(pos, ii)
    return sel.numpy()


@op(aten.index.Tensor)
def _index(func, a, idx):
    sel = _torch_get(A(a), idx)
    flat = A(a).reshape(-1)
    return sym(flat[sel] if sel.ndim else objarr((), [flat[int(sel)]]), a.dtype)


def _index_put(a, idx, val, accumulate):
    out = a.arr
    pos = _torch_get(out, idx)
    v = np.broadcast_to(cast_arr(A(val), dtype_of(val), a.dtype), pos.shape)
    tmp = out.reshape(-1).copy()
    for k, x in zip(pos.reshape(-1), v.reshape(-1)):
        tmp[k] = X.add(tmp[k], x) if accumulate else x
    return tmp.reshape(out.shape)


@op(aten.index_put.default, aten._unsafe_index_put.default)
def _iput(func, a, idx, val, accumulate=False):
    if not isinstance(a, SymTensor):
        a = SymTensor(const_arr(a), a.dtype)
    return sym(_index_put(a, idx, val, accumulate), a.dtype)


@op(aten.index_put_.default, aten._index_put_impl_.default)
def _iput_(func, a, idx, val, accumulate=False, unsafe=False):
    if not isinstance(a, SymTensor):
        raise Unsupported("index_put_ of a symbolic value into a plain tensor")
    a.arr[...] = _index_put(a, idx, val, accumulate)
    return a


@op(aten.index_select.default)
def _index_select(func, a, dim, index):
    i = index.numpy() if not isinstance(index, SymTensor) else concrete(index).numpy()
    return sym(np.take(a.arr, i, axis=dim), a.dtype)


@op(aten.gather.default)
def _gather(func, a, dim, index, sparse_grad=False):
    return sym(np.take_along_axis(a.arr, index.numpy(), axis=dim), a.dtype)


@op(aten.scatter_add.default)
def _scatter_add(func, a, dim, index, src):
    out = A(a).copy()
    it = index.numpy()
    s = A(src)
    for pos in np.ndindex(*it.shape):
        q = list(pos)
        q[dim] = int(it[pos])
        out[tuple(q)] = X.add(out[tuple(q)], s[pos])
    return sym(out, src.dtype)


@op(aten.scatter.src, aten.scatter.value)
def _scatter(func, a, dim, index, src):
    out = A(a).copy()
    it = index.numpy()
    s = np.broadcast_to(A(src), it.shape) if not isinstance(src, torch.Tensor) else A(src)
    for pos in np.ndindex(*it.shape):
        q = list(pos)
        q[dim] = int(it[pos])
        out[tuple(q)] = s[pos]
    return sym(out, a.dtype)


@op(aten.index_add.default)
def _index_add(func, a, dim, index, src, alpha=1):
    out = np.moveaxis(A(a).copy(), dim, 0)
    s = np.moveaxis(A(src), dim, 0)
    al = c_elem(alpha)
    for k, i in enumerate(index.tolist()):
        out[i] = bmap(lambda x, y: X.add(x, X.mul(al, y)), out[i], s[k]) if isinstance(out[i], np.ndarray) else X.add(out[i], X.mul(al, s[k]))
    return sym(np.moveaxis(out, 0, dim), a.dtype)


@op(aten.select_backward.default)
def _select_backward(func, g, sizes, dim, index):
    out = _fill(tuple(sizes), E0)
    idx = [slice(None)] * len(sizes)
    idx[dim] = index
    v = A(g)
    out[tuple(idx)] = v[()] if v.ndim == 0 and out[tuple(idx)].__class__ is E else v
    return sym(out, g.dtype)


@op(aten.slice_backward.default)
def _slice_backward(func, g, sizes, dim, start, end, step):
    out = _fill(tuple(sizes), E0)
    idx = [slice(None)] * len(sizes)
    idx[dim] = slice(start, end, step)
    out[tuple(idx)] = A(g)
    return sym(out, g.dtype)


@op(aten.diagonal_backward.default)
def _diag_backward(func, g, sizes, offset, d1, d2):
    out = _fill(tuple(sizes), E0)
    v = _diagonal(out, offset, d1, d2)
    v[...] = A(g)
    return sym(out, g.dtype)


@op(aten.nonzero.default)
def _nonzero(func, a):
    v = np.array([decide_elem(e) for e in a.arr.reshape(-1)], dtype=bool).reshape(a.arr.shape)
    with torch._C._DisableTorchDispatch():
        return torch.from_numpy(v).nonzero()


@op(aten.masked_select.default)
def _masked_select(func, a, m):
    return _index(func, a if isinstance(a, SymTensor) else SymTensor(const_arr(a), a.dtype), [m])


# ------------------------------------------------------------------ reductions


def _dims(a, dim):
    if dim is None or (isinstance(dim, (list, tuple)) and len(dim) == 0):
        return tuple(range(a.ndim))
    if isinstance(dim, int):
        dim = [dim]
    return tuple(d % a.ndim if a.ndim else 0 for d in dim)


def reduce(arr, dims, f, init, keepdim=False):
    if arr.ndim == 0:
        out = np.empty((), dtype=object)
        out[()] = f(init, arr[()]) if init is not None else arr[()]
        return out
    keep = [d for d in range(arr.ndim) if d not in dims]
    t = np.transpose(arr, keep + list(dims))
    ks = [arr.shape[d] for d in keep]
    t = t.reshape(ks + [-1])
    out = np.empty(tuple(ks), dtype=object)
    for pos in np.ndindex(*ks):
        acc = init
        for e in t[pos]:
            acc = e if acc is None else f(acc, e)
        if acc is None:
            raise Unsupported("empty reduction")
        out[pos] = acc
    if keepdim:
        out = out.reshape([1 if d in dims else arr.shape[d] for d in range(arr.ndim)])
    return out


def fast_sum(arr, dims, keepdim=False):
    """Sum (collects all terms at once)."""
    if arr.ndim == 0:
        return arr.copy()
    keep = [d for d in range(arr.ndim) if d not in dims]
    t = np.transpose(arr, keep + list(dims))
    ks = [arr.shape[d] for d in keep]
    t = t.reshape(ks + [int(np.prod([arr.shape[d] for d in dims]))])
    out = np.empty(tuple(ks), dtype=object)
    for pos in np.ndindex(*ks):
        out[pos] = sum_elems(t[pos])
    if keepdim:
        out = out.reshape([1 if d in dims else arr.shape[d] for d in range(arr.ndim)])
    return out


def sum_elems(es) -> E:
    acc_items = []
    bad = ZERO
    infs = E0
    hasinf = False
    n = 0
    last = None
    for e in es:
        if e.inf:
            infs = X.add(infs, e)
            hasinf = True
            continue
        if not e.bad.is_zero():
            bad = X.b_or(bad, e.bad)
        if e.p.t:
            n += 1
            last = e.p
            acc_items.append(e.p)
    if hasinf:
        return infs
    if n == 0:
        return E(ZERO, bad) if not bad.is_zero() else E0
    if n == 1:
        return E(last, bad)
    s = P.addup(kv for p in acc_items for kv in p.t.items())
    if P.W.names:
        s = P.renamed(s)
    return E(s, bad)


def _sum_dtype(a, dtype):
    if dtype is not None:
        return dtype
    return a.dtype if a.dtype in FLOATS else torch.int64


@op(aten.sum.default, aten.sum.dim_IntList, aten.nansum.default)
def _sum(func, a, dim=None, keepdim=False, dtype=None):
    return sym(fast_sum(A(a), _dims(A(a), dim), keepdim), _sum_dtype(a, dtype))


@op(aten.mean.default, aten.mean.dim)
def _mean(func, a, dim=None, keepdim=False, dtype=None):
    x = A(a)
    d = _dims(x, dim)
    n = int(np.prod([x.shape[i] for i in d])) if x.ndim else 1
    c = P.num(n)
    return sym(umap(lambda e: X.div(e, E(P.const(c))), fast_sum(x, d, keepdim)), dtype or a.dtype)


@op(aten.prod.default, aten.prod.dim_int)
def _prod(func, a, dim=None, keepdim=False, dtype=None):
    return sym(reduce(A(a), _dims(A(a), dim), X.mul, E1, keepdim), _sum_dtype(a, dtype))


@op(torch.ops.prims.prod.default)
def _pprod(func, a, dims, *, output_dtype=None):
    if dims is None:
        dims = tuple(range(a.dim()))
    return sym(reduce(A(a), _dims(A(a), dims), X.mul, E1, False), output_dtype or a.dtype)


@op(aten.any.default, aten.any.dim, aten.any.dims)
def _any(func, a, dim=None, keepdim=False):
    return sym(reduce(umap(truth, A(a)), _dims(A(a), dim), b_or, E0, keepdim), torch.bool)


@op(aten.all.default, aten.all.dim, aten.all.dims)
def _all(func, a, dim=None, keepdim=False):
    return sym(reduce(umap(truth, A(a)), _dims(A(a), dim), b_and, E1, keepdim), torch.bool)


@op(aten.amax.default, aten.max.default)
def _amax(func, a, dim=(), keepdim=False):
    return sym(reduce(A(a), _dims(A(a), dim), X.maximum, None, keepdim), a.dtype)


@op(aten.amin.default, aten.min.default)
def _amin(func, a, dim=(), keepdim=False):
    return sym(reduce(A(a), _dims(A(a), dim), X.minimum, None, keepdim), a.dtype)


def _maxdim(cmp):
    def f(func, a, dim, keepdim=False):
        x = np.moveaxis(A(a), dim, -1)
        vals = np.empty(x.shape[:-1], dtype=object)
        idxs = np.zeros(x.shape[:-1], dtype=np.int64)
        for pos in np.ndindex(*x.shape[:-1]):
            row = x[pos]
            best = 0
            for k in range(1, len(row)):
                if decide_elem(cmp(row[best], row[k])):
                    best = k
            vals[pos] = row[best]
            idxs[pos] = best
        if keepdim:
            vals, idxs = np.expand_dims(vals, dim), np.expand_dims(idxs, dim)
        with torch._C._DisableTorchDispatch():
            it = torch.from_numpy(np.ascontiguousarray(idxs))
        return sym(vals, a.dtype), it

    return f


TABLE[aten.max.dim] = _maxdim(X.lt)
TABLE[aten.min.dim] = _maxdim(X.gt)


@op(aten.argmax.default)
def _argmax(func, a, dim=None, keepdim=False):
    if dim is None:
        a = SymTensor(A(a).reshape(-1), a.dtype)
        dim = 0
    return TABLE[aten.max.dim](func, a, dim, keepdim)[1]


@op(aten.argmin.default)
def _argmin(func, a, dim=None, keepdim=False):
    if dim is None:
        a = SymTensor(A(a).reshape(-1), a.dtype)
        dim = 0
    return TABLE[aten.min.dim](func, a, dim, keepdim)[1]


@op(aten.cumsum.default)
def _cumsum(func, a, dim, dtype=None):
    x = np.moveaxis(A(a), dim, 0).copy()
    for i in range(1, x.shape[0]):
        x[i] = bmap(X.add, np.asarray(x[i - 1], dtype=object), np.asarray(x[i], dtype=object)) if x.ndim > 1 else X.add(x[i - 1], x[i])
    return sym(np.moveaxis(x, 0, dim), _sum_dtype(a, dtype))


@op(aten.cumprod.default)
def _cumprod(func, a, dim, dtype=None):
    x = np.moveaxis(A(a), dim, 0).copy()
    for i in range(1, x.shape[0]):
        x[i] = bmap(X.mul, np.asarray(x[i - 1], dtype=object), np.asarray(x[i], dtype=object)) if x.ndim > 1 else X.mul(x[i - 1], x[i])
    return sym(np.moveaxis(x, 0, dim), _sum_dtype(a, dtype))


@op(aten.var.correction)
def _var(func, a, dim=None, *, correction=None, keepdim=False):
    x = A(a)
    d = _dims(x, dim)
    n = int(np.prod([x.shape[i] for i in d])) if x.ndim else 1
    c = 1 if correction is None else correction
    m = umap(lambda e: X.div(e, c_elem(n)), fast_sum(x, d, True))
    y = bmap(X.sub, x, m)
    s = fast_sum(umap(lambda e: X.mul(e, e), y), d, keepdim)
    return sym(umap(lambda e: X.div(e, c_elem(n - c)), s), a.dtype)


@op(aten.masked_scatter.default)
def _masked_scatter(func, a, m, src):
    x, mm = np.broadcast_arrays(A(a), A(m))
    out = np.array(x, dtype=object, copy=True)
    it = iter(A(src).reshape(-1))
    for pos in np.ndindex(*out.shape):
        if decide_elem(truth(mm[pos])):
            out[pos] = next(it)
    return sym(out, a.dtype)


@op(aten.sort.default, aten.sort.stable)
def _sort(func, a, dim=-1, descending=False, stable=None, **kw):
    """Insertion sort; every comparison is a branch of the exploration."""
    if kw.get("stable") is not None:
        pass
    x = np.moveaxis(A(a), dim, -1)
    vals = np.empty(x.shape, dtype=object)
    idxs = np.zeros(x.shape, dtype=np.int64)
    cmp = X.gt if descending else X.lt
    for pos in np.ndindex(*x.shape[:-1]):
        order = []
        for k in range(x.shape[-1]):
            j = len(order)
            while j > 0 and decide_elem(cmp(x[pos][k], x[pos][order[j - 1]])):
                j -= 1
            order.insert(j, k)
        for t, k in enumerate(order):
            vals[pos + (t,)] = x[pos][k]
            idxs[pos + (t,)] = k
    with torch._C._DisableTorchDispatch():
        it = torch.from_numpy(np.ascontiguousarray(np.moveaxis(idxs, -1, dim)))
    return sym(np.moveaxis(vals, -1, dim), a.dtype), it


@op(aten.linalg_vector_norm.default)
def _vnorm(func, a, ord=2, dim=None, keepdim=False, dtype=None):
    x = A(a)
    d = _dims(x, dim)
    if ord == 2:
        s = fast_sum(umap(lambda e: X.mul(e, e), x), d, keepdim)
        return sym(umap(X.sqrt, s), a.dtype)
    if ord == 1:
        return sym(fast_sum(umap(X.abs_, x), d, keepdim), a.dtype)
    raise Unsupported(f"vector norm of order {ord}")


@op(aten._euclidean_dist.default)
def _euclid(func, a, b):
    d = a.unsqueeze(-2) - b.unsqueeze(-3)
    return (d * d).sum(-1).sqrt()


@op(aten._cdist_forward.default)
def _cdist(func, a, b, p, mode):
    if p != 2.0:
        raise Unsupported("cdist with p != 2")
    return _euclid(func, a, b)


# ------------------------------------------------------------------ linear algebra


def matmul_arr(a, b):
    """(..., i, k) @ (..., k, j)"""
    bs = np.broadcast_shapes(a.shape[:-2], b.shape[:-2])
    a = np.broadcast_to(a, bs + a.shape[-2:])
    b = np.broadcast_to(b, bs + b.shape[-2:])
    out = np.empty(bs + (a.shape[-2], b.shape[-1]), dtype=object)
    K = a.shape[-1]
    for pos in np.ndindex(*bs):
        x, y = a[pos], b[pos]
        for i in range(x.shape[0]):
            xi = x[i]
            nz = [k for k in range(K) if not _plain_zero(xi[k])]
            for j in range(y.shape[1]):
                out[pos + (i, j)] = sum_elems(
                    [
                        X.mul(xi[k], y[k, j])
                        for k in (nz if all(_finite(y[k, j]) for k in range(K)) else range(K))
                        if not (_plain_zero(y[k, j]) and _finite(xi[k]))
                    ]
                )
    return out


def _const(t):
    """Ordinary tensor of a tensor of finite constants, or None."""
    if not isinstance(t, SymTensor):
        return t
    arr = A(t)
    if not all(_finite(e) and e.is_const() for e in arr.reshape(-1)):
        return None
    return torch.tensor([X.value(e) for e in arr.reshape(-1)], dtype=torch.float64).reshape(arr.shape).to(t.dtype)


def _plain_zero(e):
    return e.inf == 0 and not e.p.t and not e.bad.t


def _finite(e):
    return e.inf == 0 and not e.bad.t


@op(aten.mm.default, aten.bmm.default)
def _mm(func, a, b):
    if P.W.__dict__.get("plain"):
        # constants only, large system: floating point
        x, y = _const(a), _const(b)
        if x is not None and y is not None:
            return func(x, y)
    return sym(matmul_arr(A(a), A(b)), result_dtype(a, b))


@op(aten.mv.default)
def _mv(func, a, b):
    return sym(matmul_arr(A(a), A(b)[:, None])[:, 0], a.dtype)


@op(aten.dot.default, aten.vdot.default)
def _dot(func, a, b):
    x, y = A(a), A(b)
    return sym(objarr((), [sum_elems([X.mul(u, v) for u, v in zip(x, y)])]), a.dtype)


@op(aten.addmm.default, aten.baddbmm.default)
def _addmm(func, c, a, b, beta=1, alpha=1):
    r = _mm(func, a, b)
    return c * beta + r * alpha


# ------------------------------------------------------------------ scalars


@op(aten._local_scalar_dense.default, aten.item.default)
def _item(func, a):
    e = a.arr.reshape(-1)[0]
    if a.dtype == torch.bool:
        return decide_elem(e)
    if e.is_const():
        v = X.value(e)
        return int(v) if a.dtype not in FLOATS else v
    if P.W.realise is not None:
        return P.W.realise(e)
    raise Unsupported("item() of a symbolic value")


@op(aten.is_nonzero.default)
def _is_nonzero(func, a):
    return decide_elem(a.arr.reshape(-1)[0])


@op(aten.equal.default)
def _equal(func, a, b):
    if tuple(a.shape) != tuple(b.shape):
        return False
    for x, y in zip(A(a).reshape(-1), A(b).reshape(-1)):
        if not decide_elem(X.eq(x, y)):
            return False
    return True


# backward helpers that autograd calls directly


@op(aten.threshold_backward.default)
def _thr_bw(func, g, x, t):
    return torch.where(x <= t, torch.zeros_like(g), g)


@op(aten.tanh_backward.default)
def _tanh_bw(func, g, y):
    return g * (1.0 - y * y)


@op(aten.sigmoid_backward.default)
def _sig_bw(func, g, y):
    return g * (1.0 - y) * y


@op(aten._cdist_backward.default)
def _cdist_bw(func, grad, a, b, p, cdist):
    diff = a.unsqueeze(-2) - b.unsqueeze(-3)
    return (grad.unsqueeze(-1) * diff / cdist.unsqueeze(-1)).sum(-2)


# ------------------------------------------------------------------ mode

_FACTORY = {
    aten.zeros.default, aten.ones.default, aten.full.default, aten.empty.memory_format,
    aten.zeros_like.default, aten.ones_like.default, aten.full_like.default, aten.empty_like.default,
    aten.new_zeros.default, aten.new_ones.default, aten.new_full.default, aten.new_empty.default,
    aten.eye.default, aten.eye.m, aten.scalar_tensor.default,
}


class SymMode(TorchDispatchMode):
    """Float tensors created while the code runs become symbolic constants, so
    that symbolic values can be written into them."""

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        if has_sym(args, kwargs):
            return dispatch(func, args, kwargs)
        r = func(*args, **kwargs)
        if func in _FACTORY and isinstance(r, torch.Tensor) and r.dtype in FLOATS and not isinstance(r, SymTensor) and 0 < r.numel() <= 4096 and r.dim() > 0:
            if func is aten.empty.memory_format or func is aten.empty_like.default or func is aten.new_empty.default:
                r.zero_()
            return SymTensor(const_arr(r), r.dtype)
        return r


def _wrap_load():
    """Tables read from files are plain data, not part of the execution."""
    from torch.utils._python_dispatch import _disable_current_modes

    orig = torch.load

    def load(*a, **k):
        with _disable_current_modes():
            return orig(*a, **k)

    torch.load = load


_wrap_load()
