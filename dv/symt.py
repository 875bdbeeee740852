"""Symbolic tensors: the real /repo code runs on these unchanged.

`SymTensor` is a torch.Tensor wrapper subclass whose entries are symbolic reals
(`expr.E`); every aten operator the code issues is interpreted exactly over the
reals.  The batch dimension may be *generic*: its logical size is a large prime
token standing for an arbitrary positive batch size, represented by one
arbitrary row.  Operators that would mix rows of a generic dimension raise
`Unsupported`.
"""
from __future__ import annotations

import math
from fractions import Fraction
from typing import Any, Dict, List, Optional, Sequence, Tuple

import numpy as np
import torch
from torch.utils._python_dispatch import TorchDispatchMode
from torch.utils._pytree import tree_map

from . import expr as X
from .expr import E

BATCH = 1009  # token prime: "any batch size"


class Unsupported(Exception):
    """The engine cannot interpret this construct (never a verdict)."""


class Infeasible(Exception):
    """Current path contradicts its assumptions."""


class Ctx:
    """Per-run symbolic context: tokens, facts, path decisions."""

    cur: Optional["Ctx"] = None

    def __init__(self, prefix: Sequence[bool] = (), decider=None):
        self.tokens: Dict[int, int] = {BATCH: 1}
        self.mask_of: Dict[int, Any] = {}
        self.facts: List[E] = []  # assumptions + taken branches
        self.prefix = list(prefix)
        self.taken: List[bool] = []
        self.open: List[bool] = []  # alternative still unexplored?
        self.decider = decider
        self.next_tok = 10007
        self.quantified = {}
        self.ops: Dict[str, int] = {}
        self.simplify = None

    def simp(self, e: E) -> E:
        if self.simplify is None or e.op in ("c", "bc"):
            return e
        return self.simplify(e)

    def phys(self, n: int) -> int:
        n = int(n)
        if n <= 1:
            return n
        for p, k in self.tokens.items():
            while n % p == 0:
                n = n // p * k
        return n

    def new_token(self, physical: int) -> int:
        def isprime(n):
            return all(n % i for i in range(2, int(math.isqrt(n)) + 1))

        self.next_tok += 2
        while not isprime(self.next_tok):
            self.next_tok += 2
        self.tokens[self.next_tok] = physical
        return self.next_tok

    def assume(self, b):
        b = X.boolean(X.lift(b))
        if b is X.FALSE:
            raise Infeasible()
        if b is not X.TRUE:
            self.facts.append(b)

    def decide(self, b: E) -> bool:
        b = X.boolean(b)
        if b is X.TRUE:
            return True
        if b is X.FALSE:
            return False
        if b in self.facts:
            return True
        if X.bnot(b) in self.facts:
            return False
        k = len(self.taken)
        if k < len(self.prefix):
            v = self.prefix[k]
            self.taken.append(v)
            self.open.append(False)
        else:
            ft, ff = (True, True)
            if self.decider is not None:
                ft, ff = self.decider(self, b)
            if not ft and not ff:
                raise Infeasible()
            v = ft
            self.taken.append(v)
            self.open.append(ft and ff)
        self.facts.append(b if v else X.bnot(b))
        return v


def ctx() -> Ctx:
    if Ctx.cur is None:
        Ctx.cur = Ctx()
    return Ctx.cur


def obj(x) -> np.ndarray:
    a = np.empty((), dtype=object)
    if isinstance(x, np.ndarray):
        return x if x.dtype == object else np.asarray(x, dtype=object)
    a[()] = x
    return a


def U(f, *arrs) -> np.ndarray:
    r = np.frompyfunc(f, len(arrs), 1)(*[obj(a) for a in arrs])
    return obj(r)


class SymTensor(torch.Tensor):
    __torch_function__ = torch._C._disabled_torch_function_impl

    @staticmethod
    def __new__(cls, arr: np.ndarray, shape, dtype, requires_grad=False, strides=None, offset=0, mask=None):
        shape = tuple(int(s) for s in shape)
        r = torch.Tensor._make_wrapper_subclass(
            cls, shape, dtype=dtype, device=torch.device("cpu"), requires_grad=requires_grad
        )
        r._d = arr
        r._mask = mask
        return r

    def __init__(self, *a, **k):
        pass

    def __repr__(self):
        return f"SymTensor({tuple(self.shape)}, {self.dtype})"

    @classmethod
    def __torch_dispatch__(cls, func, types, args=(), kwargs=None):
        return dispatch(func, args, kwargs or {})

    def tolist(self):
        return self._d.tolist()

    def numpy(self, *a, **k):
        """a mask: every element is decided (one path per answer)."""
        c = ctx()
        if self.dtype != torch.bool or any(_generic(c, n) for n in self.shape):
            if all(e.op == "c" for e in self._d.flat) and not any(_generic(c, n) for n in self.shape):
                return np.array([e.val for e in self._d.flat], dtype=float).astype(str(self.dtype).split(".")[-1]).reshape(self._d.shape)
            if self.dtype == torch.bool and all(X.boolean(e) in (X.TRUE, X.FALSE) for e in self._d.flat):
                v = np.array([X.boolean(e) is X.TRUE for e in self._d.flat]).reshape(self._d.shape)
                return np.broadcast_to(v, self.shape).copy()
            raise Unsupported("numpy() of symbolic values")
        return np.array([c.decide(X.boolean(e)) for e in self._d.flat], dtype=bool).reshape(self._d.shape)

    def __array__(self, dtype=None, copy=None):
        a = self.numpy()
        return a if dtype is None else a.astype(dtype)

    def clamp(self, min=None, max=None):
        r = self
        for b, f, g in ((min, torch.clamp_min, torch.maximum), (max, torch.clamp_max, torch.minimum)):
            if isinstance(b, torch.Tensor):
                r = g(r, b.to(r.dtype))
            elif b is not None:
                r = f(r, b)
        return r

    def __deepcopy__(self, memo):
        r = SymTensor(self._d.copy(), self.shape, self.dtype, self.requires_grad, mask=self._mask)
        memo[id(self)] = r
        return r


class SymMode(TorchDispatchMode):
    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        return dispatch(func, args, kwargs or {})


# ---------------------------------------------------------------------------
# conversions


def from_plain(t: torch.Tensor) -> SymTensor:
    c = ctx()
    t = t.detach()
    if t.is_sparse or t.layout != torch.strided:
        raise Unsupported("sparse tensor")
    a = t.cpu().numpy()
    for d, n in enumerate(a.shape):
        m = c.phys(n)
        if m != n:
            first = np.take(a, range(m), axis=d)
            if n // m * m != n:
                raise Unsupported("token size")
            full = np.take(a, [i % m for i in range(n)], axis=d)
            if not (a.ndim == 1 and np.issubdtype(a.dtype, np.integer) and m == 1 and np.array_equal(a, np.arange(n))):
                if not np.array_equal(full, a, equal_nan=np.issubdtype(a.dtype, np.floating)):
                    raise Unsupported("plain tensor not constant along a generic dimension")
            a = first
    return SymTensor(U(lambda v: X.const(v.item() if hasattr(v, "item") else v), a), t.shape, t.dtype)


def sym(arr, shape=None, dtype=torch.float64, requires_grad=False) -> SymTensor:
    a = np.empty(np.shape(arr), dtype=object)
    src = np.asarray(arr, dtype=object)
    for i in np.ndindex(a.shape):
        a[i] = X.lift(src[i])
    return SymTensor(a, shape if shape is not None else a.shape, dtype, requires_grad)


def fresh_tensor(name: str, shape, dtype=torch.float64, requires_grad=False) -> SymTensor:
    """Tensor of fresh variables; generic dims share one arbitrary row."""
    c = ctx()
    ps = tuple(c.phys(s) for s in shape)
    a = np.empty(ps, dtype=object)
    for i in np.ndindex(ps):
        nm = name + "[" + ",".join(map(str, i)) + "]"
        a[i] = X.bvar(nm) if dtype == torch.bool else X.var(nm)
    return SymTensor(a, shape, dtype, requires_grad)


def data(t) -> np.ndarray:
    """Physical object array of a tensor."""
    if isinstance(t, SymTensor):
        return t._d
    return from_plain(t)._d


# ---------------------------------------------------------------------------
# dispatch

HANDLERS: Dict[str, Any] = {}


def handles(*names):
    def deco(f):
        for n in names:
            HANDLERS[n] = f
        return f

    return deco


def _to_meta(x):
    if isinstance(x, torch.Tensor):
        return torch.empty(tuple(x.shape), dtype=x.dtype, device="meta")
    if isinstance(x, torch.device):
        return torch.device("meta")
    return x


def meta_run(func, args, kwargs):
    a = tree_map(_to_meta, args)
    k = tree_map(_to_meta, dict(kwargs))
    if "device" in k:
        k["device"] = torch.device("meta")
    if "pin_memory" in k:
        k["pin_memory"] = None
    return func(*a, **k)


def cast_arr(arr: np.ndarray, dtype: torch.dtype) -> np.ndarray:
    if dtype == torch.bool:
        return U(X.boolean, arr)
    r = U(X.num, arr)
    if not dtype.is_floating_point:
        for e in r.flat:
            if not X.is_int(e):
                raise Unsupported("non-integral value in an integer tensor")
    return r


def wrap(arr, shape, dtype, mask=None):
    arr = obj(arr)
    c = ctx()
    want = tuple(c.phys(s) for s in shape)
    if arr.shape != want:
        raise Unsupported(f"generic-shape mismatch {arr.shape} vs {want} (logical {tuple(shape)})")
    return SymTensor(arr, shape, dtype, mask=mask)


def getmask(args):
    m = None
    for a in args:
        if isinstance(a, SymTensor) and a._mask is not None:
            m = a._mask
    return m


def dispatch(func, args, kwargs):
    name = func._schema.name.split("::")[-1]
    ns = func._schema.name.split("::")[0]
    c = ctx()
    c.ops[name] = c.ops.get(name, 0) + 1
    key = name
    if ns == "prim" and name == "device":
        return torch.device("cpu")
    h = HANDLERS.get(key)
    inplace = False
    if h is None and name.endswith("_") and not name.endswith("__"):
        h = HANDLERS.get(name[:-1])
        inplace = True
    if h is None:
        raise Unsupported(f"aten::{name}")

    def conv(x):
        if isinstance(x, torch.Tensor) and not isinstance(x, SymTensor):
            return from_plain(x)
        return x

    tgt = args[0] if (inplace or name.endswith("_")) and args else None
    if tgt is not None and not isinstance(tgt, SymTensor):
        raise Unsupported(f"in-place {name} on a plain tensor")
    args = tree_map(conv, args)
    kwargs = tree_map(conv, kwargs)
    if "out" in kwargs and kwargs["out"] is not None:
        raise Unsupported("out= variant")
    if inplace:
        base_func = func
        res = h(func, args, kwargs)
        src = res._d if isinstance(res, SymTensor) else res
        tgt._d[...] = cast_arr(np.broadcast_to(src, tgt._d.shape).copy(), tgt.dtype)
        return tgt
    return h(func, args, kwargs)


# -- elementwise ---------------------------------------------------------------


def ew(f):
    def h(func, args, kwargs):
        m = meta_run(func, args, kwargs)
        arrs = [a._d if isinstance(a, SymTensor) else obj(X.const(a)) for a in args if isinstance(a, (SymTensor, int, float, bool))]
        r = U(f, *arrs)
        if m.dtype != torch.bool:
            r = U(X.num, r)
        else:
            r = U(X.boolean, r)
        return wrap(np.ascontiguousarray(r) if r.ndim else r, m.shape, m.dtype, getmask(args))

    return h


for _n, _f in {
    "neg": X.neg, "abs": X.eabs, "sin": X.sin, "cos": X.cos, "sqrt": X.sqrt, "exp": X.exp, "log": X.log,
    "sign": X.sign, "sgn": X.sign, "floor": X.floor,
    "tan": lambda a: X.div(X.sin(a), X.cos(a)),
    "tanh": lambda a: X.div(X.sub(X.exp(a), X.exp(X.neg(a))), X.add(X.exp(a), X.exp(X.neg(a)))),
    "sigmoid": lambda a: X.div(X.ONE, X.add(X.ONE, X.exp(X.neg(a)))),
    "ceil": lambda a: X.neg(X.floor(X.neg(a))),
    "reciprocal": lambda a: X.div(X.ONE, a), "rsqrt": lambda a: X.div(X.ONE, X.sqrt(a)),
    "square": lambda a: X.mul(a, a), "log1p": lambda a: X.log(X.add(X.ONE, a)),
    "expm1": lambda a: X.sub(X.exp(a), X.ONE),
    "relu": lambda a: X.emax(a, X.ZERO),
    "logical_not": lambda a: X.bnot(X.boolean(a)), "bitwise_not": lambda a: X.bnot(X.boolean(a)),
    "isnan": lambda a: X.TRUE if a.op == "special" and a.val == "nan" else X.FALSE,
    "isinf": lambda a: X.TRUE if a.op == "special" and "inf" in a.val else X.FALSE,
    "isfinite": lambda a: X.FALSE if a.op == "special" else X.TRUE,
    "mul": lambda a, b: X.band(a, b) if a.isbool and b.isbool else X.mul(a, b),
    "atan2": X.atan2, "minimum": X.emin, "maximum": X.emax,
    "lt": X.lt, "le": X.le, "gt": X.gt, "ge": X.ge, "eq": X.eq, "ne": lambda a, b: X.bnot(X.eq(a, b)),
    "logical_and": lambda a, b: X.band(X.boolean(a), X.boolean(b)),
    "logical_or": lambda a, b: X.bor(X.boolean(a), X.boolean(b)),
    "logical_xor": lambda a, b: X.bnot(X.eq(X.boolean(a), X.boolean(b))),
    "__and__": lambda a, b: X.band(X.boolean(a), X.boolean(b)),
    "__or__": lambda a, b: X.bor(X.boolean(a), X.boolean(b)),
    "bitwise_and": lambda a, b: X.band(X.boolean(a), X.boolean(b)),
    "bitwise_or": lambda a, b: X.bor(X.boolean(a), X.boolean(b)),
    "where": lambda c, a, b: X.ite(X.boolean(c), a, b),
    "pow": X.power,
    "clone": lambda a: a, "contiguous": lambda a: a,
    "threshold_backward": lambda g, a, t: X.ite(X.lt(t, a), g, X.ZERO),
    "conj_physical": lambda a: a, "_conj_physical": lambda a: a, "resolve_conj": lambda a: a,
    "sinc": None,
}.items():
    if _f is not None:
        HANDLERS[_n] = ew(_f)


@handles("add", "sub", "rsub")
def _addsub(func, args, kwargs):
    name = func._schema.name.split("::")[-1].rstrip("_")
    m = meta_run(func, args, kwargs)
    alpha = kwargs.get("alpha", 1)
    if name == "rsub" and len(args) > 2:
        alpha = args[2]
    elif len(args) > 2:
        alpha = args[2]
    a, b = [x._d if isinstance(x, SymTensor) else obj(X.const(x)) for x in args[:2]]
    if name == "rsub":
        a, b = b, a
        # rsub: other - alpha*self
        r = U(lambda x, y: X.sub(x, X.mul(X.const(alpha), X.num(y))), a, b)
    elif name == "add":
        r = U(lambda x, y: X.add(x, y if alpha == 1 else X.mul(X.const(alpha), X.num(y))), a, b)
        if m.dtype == torch.bool:
            r = U(lambda x, y: X.bor(X.boolean(x), X.boolean(y)), a, b)
    else:
        r = U(lambda x, y: X.sub(X.num(x), y if alpha == 1 else X.mul(X.const(alpha), X.num(y))), a, b)
    return wrap(r, m.shape, m.dtype, getmask(args))


@handles("div")
def _div(func, args, kwargs):
    m = meta_run(func, args, kwargs)
    a, b = [x._d if isinstance(x, SymTensor) else obj(X.const(x)) for x in args[:2]]
    rm = kwargs.get("rounding_mode")
    r = U(X.div, a, b)
    if rm == "floor":
        r = U(X.floor, r)
    elif rm is not None:
        raise Unsupported("div trunc")
    return wrap(r, m.shape, m.dtype, getmask(args))


@handles("clamp", "clamp_min", "clamp_max")
def _clamp(func, args, kwargs):
    m = meta_run(func, args, kwargs)
    name = func._schema.name.split("::")[-1].rstrip("_")
    lo = hi = None
    if name == "clamp":
        lo = args[1] if len(args) > 1 else kwargs.get("min")
        hi = args[2] if len(args) > 2 else kwargs.get("max")
    elif name == "clamp_min":
        lo = args[1]
    else:
        hi = args[1]
    r = args[0]._d
    if lo is not None:
        r = U(X.emax, r, lo._d if isinstance(lo, SymTensor) else obj(X.const(lo)))
    if hi is not None:
        r = U(X.emin, r, hi._d if isinstance(hi, SymTensor) else obj(X.const(hi)))
    return wrap(r, m.shape, m.dtype, getmask(args))


@handles("lerp")
def _lerp(func, args, kwargs):
    m = meta_run(func, args, kwargs)
    a, b, w = [x._d if isinstance(x, SymTensor) else obj(X.const(x)) for x in args[:3]]
    return wrap(U(lambda p, q, t: X.add(p, X.mul(t, X.sub(q, p))), a, b, w), m.shape, m.dtype)


@handles("addcmul", "addcdiv")
def _addc(func, args, kwargs):
    m = meta_run(func, args, kwargs)
    k = X.const(kwargs.get("value", 1))
    f = X.mul if "cmul" in func._schema.name else X.div
    r = U(lambda a, b, c_: X.add(a, X.mul(k, f(b, c_))), *[x._d for x in args[:3]])
    return wrap(r, m.shape, m.dtype)


@handles("_to_copy", "to")
def _to_copy(func, args, kwargs):
    m = meta_run(func, args, kwargs)
    return wrap(cast_arr(args[0]._d.copy(), m.dtype), m.shape, m.dtype, args[0]._mask)


@handles("detach", "alias", "lift_fresh", "lift", "detach_copy", "_reshape_alias_copy")
def _alias(func, args, kwargs):
    t = args[0]
    return SymTensor(t._d, t.shape, t.dtype, mask=t._mask)


@handles("copy")
def _copy(func, args, kwargs):
    dst, src = args[0], args[1]
    return SymTensor(np.broadcast_to(cast_arr(src._d, dst.dtype), dst._d.shape), dst.shape, dst.dtype)


@handles("fill")
def _fill(func, args, kwargs):
    t, v = args[:2]
    vv = v._d if isinstance(v, SymTensor) else obj(X.const(v))
    return SymTensor(np.broadcast_to(cast_arr(vv, t.dtype), t._d.shape), t.shape, t.dtype)


@handles("zero")
def _zero(func, args, kwargs):
    t = args[0]
    return SymTensor(np.broadcast_to(cast_arr(obj(X.ZERO), t.dtype), t._d.shape), t.shape, t.dtype)


# -- factories --------------------------------------------------------------


def _factory(val):
    def h(func, args, kwargs):
        m = meta_run(func, args, kwargs)
        c = ctx()
        name = func._schema.name.split("::")[-1]
        v = val
        if name in ("full", "new_full", "full_like"):
            v = args[2] if name == "new_full" else args[1]
            if isinstance(v, SymTensor):
                v = v._d.item() if v._d.shape == () else v._d.reshape(-1)[0]
        ps = tuple(c.phys(s) for s in m.shape)
        if v is None:  # uninitialised memory: fresh unconstrained reals
            a = np.empty(ps, dtype=object)
            for i in np.ndindex(ps):
                a[i] = X.bvar(f"uninit!{X._fresh_n[0]}") if m.dtype == torch.bool else X.fresh("uninit")
        else:
            e = X.lift(v)
            e = X.boolean(e) if m.dtype == torch.bool else X.num(e)
            a = np.empty(ps, dtype=object)
            a[...] = e
        return SymTensor(a, m.shape, m.dtype)

    return h


for _n in ("zeros", "new_zeros", "zeros_like", "_efficientzerotensor"):
    HANDLERS[_n] = _factory(0)
for _n in ("ones", "new_ones", "ones_like"):
    HANDLERS[_n] = _factory(1)
for _n in ("empty", "new_empty", "empty_like", "empty_strided", "new_empty_strided"):
    HANDLERS[_n] = _factory(None)
for _n in ("full", "new_full", "full_like"):
    HANDLERS[_n] = _factory(0)


@handles("eye", "arange", "scalar_tensor", "triu_indices", "tril_indices", "linspace")
def _plainfac(func, args, kwargs):
    kwargs = {k: v for k, v in kwargs.items() if k not in ("pin_memory",)}
    kwargs["device"] = torch.device("cpu")
    name = func._schema.name.split("::")[-1]
    if name == "scalar_tensor" and isinstance(args[0], SymTensor):
        raise Unsupported("scalar_tensor of symbolic")
    return from_plain(func(*args, **kwargs))


@handles("rand", "randn", "rand_like", "randn_like", "bernoulli", "normal", "randint")
def _rand(func, args, kwargs):
    m = meta_run(func, [a for a in args], {k: v for k, v in kwargs.items() if k != "generator"})
    t = fresh_tensor(f"rand!{X.fresh('r').val}", m.shape, m.dtype)
    if "rand" == func._schema.name.split("::")[-1]:
        for e in t._d.flat:
            ctx().assume(X.le(X.ZERO, e))
            ctx().assume(X.lt(e, X.ONE))
    return t


# -- views --------------------------------------------------------------------


def npview(arr, shape):
    v = arr.view()
    try:
        v.shape = shape
    except AttributeError:
        # the wrapper reports contiguous strides, so a reshape() that has to copy
        # (numpy's strides are the true ones) arrives here as a view
        return arr.reshape(shape)
    return v


@handles("view", "_unsafe_view", "reshape", "_reshape_alias")
def _view(func, args, kwargs):
    m = meta_run(func, args, kwargs) if "alias" not in func._schema.name else torch.empty(args[1], device="meta", dtype=args[0].dtype)
    c = ctx()
    t = args[0]
    ps = tuple(c.phys(s) for s in m.shape)
    name = func._schema.name.split("::")[-1]
    a = t._d.reshape(ps) if name == "_unsafe_view" else npview(t._d, ps)
    return wrap(a, m.shape, m.dtype, t._mask)


@handles("expand", "broadcast_to")
def _expand(func, args, kwargs):
    m = meta_run(func, args, kwargs)
    c = ctx()
    return wrap(np.broadcast_to(args[0]._d, tuple(c.phys(s) for s in m.shape)), m.shape, m.dtype)


@handles("permute")
def _permute(func, args, kwargs):
    m = meta_run(func, args, kwargs)
    return wrap(np.transpose(args[0]._d, [d % args[0].ndim for d in args[1]]), m.shape, m.dtype)


@handles("transpose", "t", "adjoint", "numpy_T", "mT")
def _transpose(func, args, kwargs):
    m = meta_run(func, args, kwargs)
    a = args[0]._d
    if len(args) == 3:
        a = np.swapaxes(a, args[1], args[2])
    elif a.ndim >= 2:
        a = np.swapaxes(a, -1, -2)
    return wrap(a, m.shape, m.dtype)


@handles("squeeze")
def _squeeze(func, args, kwargs):
    m = meta_run(func, args, kwargs)
    c = ctx()
    t = args[0]
    dims = range(t.ndim)
    if len(args) > 1:
        dd = args[1] if isinstance(args[1], (list, tuple)) else [args[1]]
        dims = [d % max(t.ndim, 1) for d in dd]
    drop = [d for d in dims if d < t.ndim and t.shape[d] == 1]
    idx = tuple(0 if d in drop else slice(None) for d in range(t.ndim))
    a = t._d[idx] if drop else t._d.view()
    return wrap(a, m.shape, m.dtype)


@handles("unsqueeze")
def _unsqueeze(func, args, kwargs):
    m = meta_run(func, args, kwargs)
    d = args[1] % (args[0].ndim + 1)
    idx = [slice(None)] * args[0].ndim
    idx.insert(d, None)
    return wrap(args[0]._d[tuple(idx)], m.shape, m.dtype)


def _generic(c, n):
    return c.phys(n) != n


@handles("select")
def _select(func, args, kwargs):
    t, d, i = args[0], args[1], args[2]
    d %= t.ndim
    c = ctx()
    n = t.shape[d]
    if _generic(c, n):
        if i < 0:
            i += n
        if c.phys(n) == 1 and n == BATCH:
            raise Unsupported("selecting one row of a generic batch")
        raise Unsupported("select on generic dim")
    m = meta_run(func, args, kwargs)
    idx = [slice(None)] * t.ndim
    a = t._d[tuple(idx[:d] + [slice(i, i + 1) if i != -1 else slice(-1, None)] + idx[d + 1:])]
    a = a[tuple(idx[:d] + [0] + idx[d + 1:])]
    # keep a writable view: integer-index through basic slicing
    return wrap(_sel(t._d, d, i), m.shape, m.dtype)


def _sel(a, d, i):
    idx = [slice(None)] * a.ndim
    idx[d] = i
    if a.ndim == 1:
        v = a[i:i + 1] if i != -1 else a[-1:]
        return npview(v, ())
    return a[tuple(idx)]


@handles("select_backward", "slice_backward", "diagonal_backward")
def _sel_bwd(func, args, kwargs):
    name = func._schema.name.split("::")[-1][: -len("_backward")]
    g, sizes = args[0], args[1]
    z = torch.ops.aten.zeros.default(list(sizes), dtype=g.dtype)
    if not isinstance(z, SymTensor):
        z = from_plain(z)
    z._d = z._d.copy()
    view = HANDLERS[name](getattr(torch.ops.aten, name).default if name == "diagonal" else
                          (torch.ops.aten.select.int if name == "select" else torch.ops.aten.slice.Tensor), (z, *args[2:]), {})
    if not np.shares_memory(view._d, z._d) and view._d.size:
        raise Unsupported("select_backward view")
    view._d[...] = g._d
    return z


@handles("slice")
def _slice(func, args, kwargs):
    m = meta_run(func, args, kwargs)
    t = args[0]
    c = ctx()
    d = (args[1] if len(args) > 1 else 0) % t.ndim
    s = args[2] if len(args) > 2 else None
    e = args[3] if len(args) > 3 else None
    st = args[4] if len(args) > 4 else 1
    n = t.shape[d]
    idx = [slice(None)] * t.ndim
    if _generic(c, n):
        p = c.phys(n)
        s0 = 0 if s is None else (s + n if s < 0 else s)
        e0 = n if e is None or e > n else (e + n if e < 0 else e)
        if st != 1:
            raise Unsupported("strided slice of generic dim")
        if s0 == 0 and e0 == n:
            idx[d] = slice(None)
        else:
            # (batch, k) layout is not sliceable; (k, batch) blocks are
            if getattr(t, "_blk", None) != d and n == BATCH:
                raise Unsupported("partial slice of a generic batch")
            unit = n // p
            if s0 % unit or e0 % unit:
                raise Unsupported("partial slice of a generic batch")
            idx[d] = slice(s0 // unit, e0 // unit)
    else:
        idx[d] = slice(s, e, st)
    return wrap(t._d[tuple(idx)], m.shape, m.dtype)


@handles("split", "split_with_sizes", "chunk", "unsafe_split")
def _split(func, args, kwargs):
    t = args[0]
    ms = meta_run(func, args, kwargs)
    d = (args[2] if len(args) > 2 else kwargs.get("dim", 0)) % t.ndim
    out = []
    pos = 0
    c = ctx()
    for m in ms:
        k = c.phys(m.shape[d])
        idx = [slice(None)] * t.ndim
        idx[d] = slice(pos, pos + k)
        pos += k
        out.append(wrap(t._d[tuple(idx)], m.shape, m.dtype))
    return out


@handles("unbind")
def _unbind(func, args, kwargs):
    t = args[0]
    d = (args[1] if len(args) > 1 else 0) % t.ndim
    if _generic(ctx(), t.shape[d]):
        raise Unsupported("iterating a generic dimension")
    ms = meta_run(func, args, kwargs)
    return [wrap(_sel(t._d, d, i), m.shape, m.dtype) for i, m in enumerate(ms)]


@handles("diagonal")
def _diagonal(func, args, kwargs):
    t = args[0]
    off = args[1] if len(args) > 1 else kwargs.get("offset", 0)
    d1 = args[2] if len(args) > 2 else kwargs.get("dim1", 0)
    d2 = args[3] if len(args) > 3 else kwargs.get("dim2", 1)
    m = meta_run(func, args, kwargs)
    a = np.diagonal(t._d, off, d1 % t.ndim, d2 % t.ndim)
    if t._d.flags.writeable:
        a.flags.writeable = True
    return wrap(a, m.shape, m.dtype)


@handles("as_strided")
def _as_strided(func, args, kwargs):
    raise Unsupported("as_strided")


# -- joins ---------------------------------------------------------------------


@handles("cat")
def _cat(func, args, kwargs):
    m = meta_run(func, args, kwargs)
    d = args[1] if len(args) > 1 else kwargs.get("dim", 0)
    arrs = [t._d for t in args[0] if not (t.ndim == 1 and t.shape[0] == 0)]
    if m.dtype != torch.bool:
        arrs = [U(X.num, a) for a in arrs]
    r = np.concatenate(arrs, axis=d)
    return wrap(r, m.shape, m.dtype)


@handles("stack")
def _stack(func, args, kwargs):
    m = meta_run(func, args, kwargs)
    d = args[1] if len(args) > 1 else kwargs.get("dim", 0)
    arrs = [t._d for t in args[0]]
    if m.dtype != torch.bool:
        arrs = [U(X.num, a) for a in arrs]
    return wrap(np.stack(arrs, axis=d), m.shape, m.dtype)


@handles("repeat")
def _repeat(func, args, kwargs):
    m = meta_run(func, args, kwargs)
    c = ctx()
    t = args[0]
    for s, r_ in zip(((1,) * (len(args[1]) - t.ndim) + tuple(t.shape)), args[1]):
        if _generic(c, s) and r_ > 1:
            raise Unsupported("repeat of a generic dim")
    a = np.tile(t._d, [c.phys(r_) for r_ in args[1]])
    return wrap(a, m.shape, m.dtype)


@handles("flip")
def _flip(func, args, kwargs):
    m = meta_run(func, args, kwargs)
    if any(_generic(ctx(), args[0].shape[d]) for d in args[1]):
        raise Unsupported("flip of a generic dim")
    return wrap(np.flip(args[0]._d, args[1]).copy(), m.shape, m.dtype)


@handles("triu", "tril")
def _tri(func, args, kwargs):
    t = args[0]
    k = args[1] if len(args) > 1 else kwargs.get("diagonal", 0)
    up = "triu" in func._schema.name
    a = t._d.copy()
    for i in np.ndindex(a.shape):
        r, c_ = i[-2], i[-1]
        if (c_ - r < k) if up else (c_ - r > k):
            a[i] = X.ZERO
    return wrap(a, t.shape, t.dtype)


@handles("diag_embed")
def _diag_embed(func, args, kwargs):
    m = meta_run(func, args, kwargs)
    t = args[0]
    if len(args) > 1 or kwargs:
        raise Unsupported("diag_embed args")
    n = t._d.shape[-1]
    a = np.empty(t._d.shape + (n,), dtype=object)
    a[...] = X.FALSE if t.dtype == torch.bool else X.ZERO
    for i in range(n):
        a[..., i, i] = t._d[..., i]
    return wrap(a, m.shape, m.dtype)


# -- reductions -----------------------------------------------------------------


def _dims(t, d):
    if d is None or (isinstance(d, (list, tuple)) and len(d) == 0):
        return list(range(t.ndim))
    if isinstance(d, int):
        d = [d]
    return [x % max(t.ndim, 1) for x in d]


def _check_reduce(t, dims):
    c = ctx()
    for d in dims:
        if t.ndim and _generic(c, t.shape[d]):
            raise Unsupported("reduction over a generic dimension")


def reduce_arr(a, dims, f, init):
    dims = sorted(dims, reverse=True)
    out = a
    for d in dims:
        n = out.shape[d]
        idx = [slice(None)] * out.ndim
        if n == 0:
            sh = list(out.shape)
            del sh[d]
            r = np.empty(sh, dtype=object)
            r[...] = init
            out = r
            continue
        acc = None
        for i in range(n):
            idx[d] = i
            s = obj(out[tuple(idx)])
            acc = s if acc is None else U(f, acc, s)
        out = obj(acc)
    return out


def _kd(a, dims, keep, nd):
    if keep:
        for d in sorted(dims):
            a = np.expand_dims(a, d)
    return a


@handles("sum")
def _sum(func, args, kwargs):
    t = args[0]
    m = meta_run(func, args, kwargs)
    d = args[1] if len(args) > 1 else kwargs.get("dim")
    keep = args[2] if len(args) > 2 else kwargs.get("keepdim", False)
    dims = _dims(t, d)
    total = LinFacts.batch_sums and any(_generic(ctx(), t.shape[x]) for x in dims) if t.ndim else False
    if not total:
        _check_reduce(t, dims)
    r = reduce_arr(U(X.num, t._d), dims, X.add, X.ZERO)
    if total:  # a sum over the whole batch: a value about which nothing is known
        r = obj(U(lambda v: X.fn("batchsum", v), obj(r)))
    return wrap(_kd(r, dims, keep, t.ndim), m.shape, m.dtype)


@handles("mean")
def _mean(func, args, kwargs):
    t = args[0]
    m = meta_run(func, args, kwargs)
    d = args[1] if len(args) > 1 else kwargs.get("dim")
    keep = args[2] if len(args) > 2 else kwargs.get("keepdim", False)
    dims = _dims(t, d)
    _check_reduce(t, dims)
    n = 1
    for x in dims:
        n *= t._d.shape[x]
    r = U(lambda v: X.mul(v, X.const(Fraction(1, n))), reduce_arr(t._d, dims, X.add, X.ZERO))
    return wrap(_kd(r, dims, keep, t.ndim), m.shape, m.dtype)


@handles("prod")
def _prod(func, args, kwargs):
    t = args[0]
    m = meta_run(func, args, kwargs)
    d = args[1] if len(args) > 1 else kwargs.get("dim")
    keep = args[2] if len(args) > 2 else kwargs.get("keepdim", False)
    dims = _dims(t, d)
    _check_reduce(t, dims)
    r = reduce_arr(t._d, dims, X.mul, X.ONE)
    return wrap(_kd(r, dims, keep, t.ndim), m.shape, m.dtype)


@handles("cumsum")
def _cumsum(func, args, kwargs):
    t, d = args[0], args[1]
    m = meta_run(func, args, kwargs)
    _check_reduce(t, [d % t.ndim])
    a = U(X.num, t._d.copy())
    a = np.moveaxis(a, d, 0)
    for i in range(1, a.shape[0]):
        a[i] = U(X.add, a[i - 1], a[i])
    return wrap(np.moveaxis(a, 0, d), m.shape, m.dtype)


@handles("linalg_vector_norm", "norm", "frobenius_norm")
def _norm(func, args, kwargs):
    t = args[0]
    m = meta_run(func, args, kwargs)
    name = func._schema.name.split("::")[-1]
    p = args[1] if len(args) > 1 else kwargs.get("ord", kwargs.get("p", 2))
    d = args[2] if len(args) > 2 else kwargs.get("dim")
    keep = args[3] if len(args) > 3 else kwargs.get("keepdim", False)
    if p is None:
        p = 2
    dims = _dims(t, d)
    _check_reduce(t, dims)
    if p == 2:
        r = U(X.sqrt, reduce_arr(U(lambda v: X.mul(v, v), t._d), dims, X.add, X.ZERO))
    elif p == 1:
        r = reduce_arr(U(X.eabs, t._d), dims, X.add, X.ZERO)
    elif p == float("inf"):
        r = reduce_arr(U(X.eabs, t._d), dims, X.emax, X.ZERO)
    else:
        raise Unsupported("norm order")
    return wrap(_kd(r, dims, keep, t.ndim), m.shape, m.dtype)


@handles("any", "all")
def _anyall(func, args, kwargs):
    t = args[0]
    m = meta_run(func, args, kwargs)
    d = args[1] if len(args) > 1 else kwargs.get("dim")
    keep = args[2] if len(args) > 2 else kwargs.get("keepdim", False)
    dims = _dims(t, d)
    isall = func._schema.name.endswith("all")
    c = ctx()
    a = U(X.boolean, t._d)
    r = reduce_arr(a, dims, X.band if isall else X.bor, X.TRUE if isall else X.FALSE)
    if any(t.ndim and _generic(c, t.shape[x]) for x in dims):
        # quantified over the generic rows: only one implication is known
        def q(b):
            b = c.simp(b)
            if b in (X.TRUE, X.FALSE):
                return b
            if c.decider is not None:  # facts hold for every row
                yes, no = c.decider(c, b)
                if yes != no:
                    return X.TRUE if yes else X.FALSE
            # the same condition over the same rows has one value
            key = (isall, b.id, tuple(t.shape[x] for x in dims))
            v = c.quantified.get(key)
            if v is not None:
                return v
            v = c.quantified[key] = X.bvar(f"{'all' if isall else 'any'}!{X.fresh('q').val}")
            c.assume(X.bor(X.bnot(v), b) if isall else X.bor(X.bnot(b), v))
            return v

        r = U(q, r)
    return wrap(_kd(obj(r), dims, keep, t.ndim), m.shape, m.dtype)


def _ext_reduce(t, dims, f, rel):
    c = ctx()
    r = reduce_arr(t._d, dims, f, None)
    if any(t.ndim and _generic(c, t.shape[x]) for x in dims):
        def q(v):
            v = c.simp(v)
            if v.op == "c":
                return v
            z = X.fresh("ext")
            c.assume(rel(v, z))
            return z

        r = U(q, r)
        if len(set(dims)) == t.ndim and np.size(r) == 1:  # a bound of every entry
            z = np.asarray(r, dtype=object).reshape(-1)[0]
            if z.op != "c":
                for e in t._d.reshape(-1)[:16]:
                    c.assume(rel(e, z))
    return obj(r)


@handles("amax", "amin")
def _amax(func, args, kwargs):
    t = args[0]
    m = meta_run(func, args, kwargs)
    d = args[1] if len(args) > 1 else kwargs.get("dim")
    keep = args[2] if len(args) > 2 else kwargs.get("keepdim", False)
    dims = _dims(t, d)
    mx = "amax" in func._schema.name
    r = _ext_reduce(t, dims, X.emax if mx else X.emin, X.le if mx else X.ge)
    return wrap(_kd(r, dims, keep, t.ndim), m.shape, m.dtype)


@handles("max", "min")
def _maxmin(func, args, kwargs):
    t = args[0]
    mx = "max" in func._schema.name
    m = meta_run(func, args, kwargs)
    if len(args) == 1:
        r = _ext_reduce(t, list(range(t.ndim)), X.emax if mx else X.emin, X.le if mx else X.ge)
        return wrap(r, m.shape, m.dtype)
    if isinstance(args[1], SymTensor):
        return HANDLERS["maximum" if mx else "minimum"](torch.ops.aten.maximum.default if mx else torch.ops.aten.minimum.default, args, kwargs)
    d = args[1] % t.ndim
    keep = args[2] if len(args) > 2 else kwargs.get("keepdim", False)
    _check_reduce(t, [d])
    v, i = argext(t._d, d, mx)
    mv, mi = m
    return (wrap(_kd(v, [d], keep, t.ndim), mv.shape, mv.dtype), wrap(_kd(i, [d], keep, t.ndim), mi.shape, mi.dtype))


def argext(a, d, mx):
    a = np.moveaxis(a, d, 0)
    v = obj(a[0])
    i = U(lambda _: X.ZERO, v)
    for k in range(1, a.shape[0]):
        cnd = U(X.lt, v, obj(a[k])) if mx else U(X.lt, obj(a[k]), v)
        i = U(X.ite, cnd, obj(X.const(k)), i)
        v = U(X.ite, cnd, obj(a[k]), v)
    return obj(v), obj(i)


@handles("argmax", "argmin")
def _argmax(func, args, kwargs):
    t = args[0]
    m = meta_run(func, args, kwargs)
    d = args[1] if len(args) > 1 else kwargs.get("dim")
    keep = args[2] if len(args) > 2 else kwargs.get("keepdim", False)
    mx = "max" in func._schema.name
    if d is None:
        _check_reduce(t, range(t.ndim))
        _, i = argext(t._d.reshape(-1), 0, mx)
        return wrap(i, m.shape, m.dtype)
    d %= t.ndim
    _check_reduce(t, [d])
    _, i = argext(t._d, d, mx)
    return wrap(_kd(i, [d], keep, t.ndim), m.shape, m.dtype)


# -- linear algebra ---------------------------------------------------------------


def omatmul(a, b):
    """object matmul with constant folding."""
    n = a.shape[-1]
    sh = np.broadcast_shapes(a.shape[:-2], b.shape[:-2])
    a = np.broadcast_to(a, sh + a.shape[-2:])
    b = np.broadcast_to(b, sh + b.shape[-2:])
    out = np.empty(sh + (a.shape[-2], b.shape[-1]), dtype=object)
    for idx in np.ndindex(sh):
        A, B = a[idx], b[idx]
        for i in range(A.shape[0]):
            for j in range(B.shape[1]):
                s = X.ZERO
                for k in range(n):
                    s = X.add(s, X.mul(A[i, k], B[k, j]))
                out[idx + (i, j)] = s
    return out


def _nogen_inner(t, d):
    if _generic(ctx(), t.shape[d]):
        raise Unsupported("contraction over a generic dimension")


@handles("mm", "bmm", "matmul")
def _mm(func, args, kwargs):
    m = meta_run(func, args, kwargs)
    a, b = args[:2]
    _nogen_inner(a, -1)
    return wrap(omatmul(a._d, b._d), m.shape, m.dtype)


@handles("mv")
def _mv(func, args, kwargs):
    m = meta_run(func, args, kwargs)
    _nogen_inner(args[0], -1)
    return wrap(omatmul(args[0]._d, args[1]._d[:, None])[:, 0], m.shape, m.dtype)


@handles("dot", "vdot")
def _dot(func, args, kwargs):
    m = meta_run(func, args, kwargs)
    _nogen_inner(args[0], -1)
    return wrap(obj(omatmul(args[0]._d[None], args[1]._d[:, None])[0, 0]), m.shape, m.dtype)


@handles("addmm", "baddbmm", "addmv")
def _addmm(func, args, kwargs):
    m = meta_run(func, args, kwargs)
    beta, alpha = X.const(kwargs.get("beta", 1)), X.const(kwargs.get("alpha", 1))
    b_ = args[2]._d
    vec = "addmv" in func._schema.name
    r = omatmul(args[1]._d, b_[:, None] if vec else b_)
    if vec:
        r = r[..., 0]
    _nogen_inner(args[1], -1)
    r = U(lambda x, y: X.add(X.mul(beta, x), X.mul(alpha, y)), args[0]._d, r)
    return wrap(r, m.shape, m.dtype)


@handles("linalg_cross", "cross")
def _cross(func, args, kwargs):
    m = meta_run(func, args, kwargs)
    d = kwargs.get("dim", args[2] if len(args) > 2 else -1)
    a, b = np.broadcast_arrays(args[0]._d, args[1]._d)
    a, b = np.moveaxis(a, d, 0), np.moveaxis(b, d, 0)
    r = np.stack([
        U(lambda p, q, r_, s: X.sub(X.mul(p, q), X.mul(r_, s)), obj(a[i]), obj(b[j]), obj(a[j]), obj(b[i]))
        for i, j in ((1, 2), (2, 0), (0, 1))
    ])
    return wrap(np.moveaxis(r, 0, d), m.shape, m.dtype)


def odet(A):
    n = A.shape[0]
    if n == 1:
        return A[0, 0]
    s = X.ZERO
    for j in range(n):
        if A[0, j] is X.ZERO:
            continue
        t = X.mul(A[0, j], odet(np.delete(np.delete(A, 0, 0), j, 1)))
        s = X.add(s, t) if j % 2 == 0 else X.sub(s, t)
    return s


@handles("_linalg_det", "det", "linalg_det")
def _det(func, args, kwargs):
    t = args[0]
    out = np.empty(t._d.shape[:-2], dtype=object)
    for i in np.ndindex(out.shape):
        out[i] = odet(t._d[i])
    d = wrap(out, t.shape[:-2], t.dtype)
    if func._schema.name.endswith("_linalg_det"):
        return d, t, t  # LU / pivots are not used by forward callers
    return d


@handles("linalg_inv_ex")
def _inv(func, args, kwargs):
    t = args[0]
    n = t._d.shape[-1]
    out = np.empty(t._d.shape, dtype=object)
    for i in np.ndindex(t._d.shape[:-2]):
        A = t._d[i]
        D = odet(A)
        for r in range(n):
            for s in range(n):
                cf = odet(np.delete(np.delete(A, s, 0), r, 1)) if n > 1 else X.ONE
                out[i + (r, s)] = X.div(cf if (r + s) % 2 == 0 else X.neg(cf), D)
    info = np.empty(t._d.shape[:-2], dtype=object)
    info[...] = X.ZERO
    return wrap(out, t.shape, t.dtype), wrap(info, t.shape[:-2], torch.int32)


def _chol_num(idx, *a):
    n = int(round(math.sqrt(len(a))))
    arrs = np.broadcast_arrays(*[np.asarray(x, dtype=float) for x in a])
    M = np.stack(arrs, -1).reshape(arrs[0].shape + (n, n))
    out = np.full(arrs[0].shape, np.nan)
    flat = M.reshape(-1, n, n)
    of = out.reshape(-1)
    for k in range(flat.shape[0]):
        try:
            of[k] = np.linalg.cholesky(flat[k])[idx // n, idx % n]
        except np.linalg.LinAlgError:
            pass
    return of.reshape(out.shape)


X.FN_NUM["chol"] = _chol_num


def _solve_num(idx, *a):
    # args: n*n matrix entries then n rhs entries; idx selects component
    k = len(a)
    n = int(round((-1 + math.sqrt(1 + 4 * k)) / 2))
    arrs = np.broadcast_arrays(*[np.asarray(x, dtype=float) for x in a])
    M = np.stack(arrs[: n * n], -1).reshape(arrs[0].shape + (n, n)).reshape(-1, n, n)
    b = np.stack(arrs[n * n:], -1).reshape(-1, n)
    out = np.full(len(M), np.nan)
    for i in range(len(M)):
        try:
            out[i] = np.linalg.solve(M[i], b[i])[idx]
        except np.linalg.LinAlgError:
            pass
    return out.reshape(arrs[0].shape)


X.FN_NUM["solve"] = _solve_num


class LinFacts:
    """Trusted contracts of torch's dense factorisations, recorded per run."""

    chol: Dict[Tuple[int, ...], np.ndarray] = {}
    solves: List[Tuple[np.ndarray, np.ndarray, np.ndarray]] = []
    chols: List[Tuple[np.ndarray, np.ndarray]] = []
    explicit = False  # expand factorisations by the textbook recurrence
    batch_sums = False  # allow sums over the generic batch, as uninterpreted values
    solved = False  # expand solves by Cramer's rule

    @classmethod
    def reset(cls):
        cls.chol = {}
        cls.solves = []
        cls.chols = []


@handles("_linalg_check_errors")
def _check_errors(func, args, kwargs):
    return None  # trusted: raises exactly when the factorisation is impossible


@handles("linalg_cholesky_ex", "cholesky")
def _cholesky(func, args, kwargs):
    t = args[0]
    upper = kwargs.get("upper", False)
    n = t._d.shape[-1]
    out = np.empty(t._d.shape, dtype=object)
    for i in np.ndindex(t._d.shape[:-2]):
        A = t._d[i]
        flat = tuple(A.reshape(-1))
        L = np.empty((n, n), dtype=object)
        L[...] = X.ZERO
        if LinFacts.explicit:
            simp = getattr(ctx(), "canon", lambda e: e)
            for s in range(n):
                d = A[s, s]
                for q in range(s):
                    d = X.sub(d, X.mul(L[s, q], L[s, q]))
                L[s, s] = simp(X.sqrt(simp(d)))
                for r in range(s + 1, n):
                    v = A[r, s]
                    for q in range(s):
                        v = X.sub(v, X.mul(L[r, q], L[s, q]))
                    L[r, s] = simp(X.div(v, L[s, s]))
            LinFacts.chols.append((A.copy(), L.copy()))
            out[i] = L.T if upper else L
            continue
        for r in range(n):
            for s in range(n):
                L[r, s] = X.fn("chol", r * n + s, *flat) if s <= r else X.ZERO
        LinFacts.chols.append((A.copy(), L.copy()))
        for r in range(n):
            ctx().assume(X.lt(X.ZERO, L[r, r]))
        out[i] = L.T if upper else L
    w = wrap(out, t.shape, t.dtype)
    if func._schema.name.endswith("_ex"):
        info = np.empty(t._d.shape[:-2], dtype=object)
        info[...] = X.ZERO
        return w, wrap(info, t.shape[:-2], torch.int32)
    return w


def cramer_det(M):
    simp = getattr(ctx(), "canon", lambda e: e)
    if M.shape[0] == 1:
        return M[0, 0]
    r = X.ZERO
    for j in range(M.shape[0]):
        t = X.mul(M[0, j], cramer_det(np.delete(M[1:], j, axis=1)))
        r = X.add(r, t) if j % 2 == 0 else X.sub(r, t)
    return simp(r)


def solve_arr(A, b):
    """x with A x = b (trusted contract of the dense solver)."""
    n = A.shape[-1]
    sh = np.broadcast_shapes(A.shape[:-2], b.shape[:-2])
    A = np.broadcast_to(A, sh + A.shape[-2:])
    b = np.broadcast_to(b, sh + b.shape[-2:])
    out = np.empty(b.shape, dtype=object)
    for i in np.ndindex(sh):
        if LinFacts.solved:
            det = cramer_det(A[i])
            for k in range(b.shape[-1]):
                for r in range(n):
                    M = A[i].copy()
                    M[:, r] = b[i][:, k]
                    out[i + (r, k)] = X.div(cramer_det(M), det)
            continue
        for k in range(b.shape[-1]):
            col = b[i][:, k]
            xs = [X.fn("solve", r, *A[i].reshape(-1), *col) for r in range(n)]
            for r in range(n):
                out[i + (r, k)] = xs[r]
            LinFacts.solves.append((A[i].copy(), col.copy(), np.array(xs, dtype=object)))
    return out


@handles("_linalg_solve_ex")
def _solve(func, args, kwargs):
    A, b = args[:2]
    bd = b._d
    vec = b.ndim == 1 or (b.ndim == A.ndim - 1 and tuple(b.shape) == tuple(A.shape[:-1]))
    r = solve_arr(A._d, bd[..., None] if vec else bd)
    if vec:
        r = r[..., 0]
    info = np.empty(A._d.shape[:-2], dtype=object)
    info[...] = X.ZERO
    m = meta_run(func, args, kwargs)
    return (wrap(r, m[0].shape, b.dtype), wrap(A._d.copy(), A.shape, A.dtype), wrap(obj(np.broadcast_to(obj(X.ZERO), A._d.shape[:-1])), A.shape[:-1], torch.int32), wrap(info, A.shape[:-2], torch.int32))


@handles("cholesky_solve")
def _cholsolve(func, args, kwargs):
    b, L = args[:2]
    upper = (args[2] if len(args) > 2 else kwargs.get("upper", False))
    m = meta_run(func, args, kwargs)
    Ld = L._d
    Lt = np.swapaxes(Ld, -1, -2)
    A = omatmul(Lt, Ld) if upper else omatmul(Ld, Lt)
    # recognise L L^T of a recorded factorisation: use the factored matrix
    A = A.copy()
    for i in np.ndindex(A.shape[:-2]):
        for (M, LL) in LinFacts.chols:
            cand = Ld[i].T if upper else Ld[i]
            if cand.shape == LL.shape and all(p is q for p, q in zip(cand.reshape(-1), LL.reshape(-1))):
                A[i] = M
    return wrap(solve_arr(A, b._d), m.shape, m.dtype)


@handles("linalg_solve_triangular")
def _trisolve(func, args, kwargs):
    A, b = args[:2]
    m = meta_run(func, args, kwargs)
    if not kwargs.get("left", True):
        T = lambda a: np.swapaxes(a, -1, -2)
        return wrap(T(solve_arr(T(A._d), T(b._d))), m.shape, m.dtype)
    return wrap(solve_arr(A._d, b._d), m.shape, m.dtype)


@handles("linalg_lu_factor_ex", "linalg_ldl_factor_ex")
def _lu_factor(func, args, kwargs):
    t = args[0]
    m = meta_run(func, args, kwargs)
    outs = []
    lu = SymTensor(t._d.copy(), t.shape, t.dtype)
    piv = np.empty(t._d.shape[:-1], dtype=object)
    piv[...] = X.ZERO
    info = np.empty(t._d.shape[:-2], dtype=object)
    info[...] = X.ZERO
    return lu, wrap(piv, t.shape[:-1], torch.int32), wrap(info, t.shape[:-2], torch.int32)


@handles("linalg_lu_solve")
def _lu_solve(func, args, kwargs):
    lu, piv, b = args[:3]
    m = meta_run(func, args, kwargs)
    A = lu._d
    if kwargs.get("adjoint"):
        A = np.swapaxes(A, -1, -2)
    if kwargs.get("left", True) is False:
        T = lambda a: np.swapaxes(a, -1, -2)
        return wrap(T(solve_arr(T(A), T(b._d))), m.shape, m.dtype)
    return wrap(solve_arr(A, b._d), m.shape, m.dtype)


# -- indexing ------------------------------------------------------------------------


def _is_const_arr(a):
    return all(e.op in ("c", "bc") for e in a.flat)


def _prep_index(t, indices):
    """-> list over dims of None | ('i', object-int-array, logical shape) and mask info."""
    c = ctx()
    out = []
    d = 0
    masks = []
    for ix in indices:
        if ix is None:
            out.append(None)
            d += 1
            continue
        if ix.dtype in (torch.bool, torch.uint8):
            a = U(X.boolean, ix._d)
            if _is_const_arr(a):
                b = np.frompyfunc(lambda e: bool(e.val), 1, 1)(a)
                b = np.asarray(b, dtype=bool)
                nz = np.nonzero(b)
                gen = any(_generic(c, s) for s in ix.shape)
                if gen and not b.all():
                    if not b.any():
                        ln = 0
                    else:
                        raise Unsupported("partial constant mask over generic dim")
                else:
                    ln = int(np.prod(ix.shape)) if b.all() else int(b.sum())
                for z in nz:
                    out.append((U(X.const, np.asarray([int(v) for v in z], dtype=object)), (ln,)))
                d += ix.ndim
            else:
                masks.append((d, ix))
                out.append(("mask", ix))
                d += ix.ndim
        else:
            out.append((U(X.num, ix._d), tuple(ix.shape)))
            d += 1
    return out, masks


def _adv(t, spec):
    """Symbolic advanced index read.  spec per dim."""
    c = ctx()
    nd = t.ndim
    spec = list(spec) + [None] * (nd - len(spec))
    adv = [k for k, s in enumerate(spec) if s is not None]
    bshape = np.broadcast_shapes(*[spec[k][0].shape for k in adv])
    lshape = np.broadcast_shapes(*[spec[k][1] for k in adv])
    adjacent = adv == list(range(adv[0], adv[-1] + 1))
    pre = adv[0] if adjacent else 0
    post = nd - len(adv) - pre
    rest = [k for k in range(nd) if spec[k] is None]
    if adjacent:
        shape = tuple(t.shape[k] for k in range(pre)) + tuple(lshape) + tuple(t.shape[k] for k in range(adv[-1] + 1, nd))
    else:
        shape = tuple(lshape) + tuple(t.shape[k] for k in rest)
    return spec, adv, bshape, pre, post, shape


def _const_spec(spec, nd):
    idx = []
    for k in range(nd):
        s = spec[k]
        if s is None:
            idx.append(slice(None))
        else:
            idx.append(np.asarray(np.frompyfunc(lambda e: int(e.val), 1, 1)(s[0]), dtype=np.int64))
    return tuple(idx)


def _check_gen_index(t, spec, adv):
    c = ctx()
    for k in adv:
        if _generic(c, t.shape[k]):
            a = spec[k][0]
            if not _is_const_arr(a):
                raise Unsupported("symbolic index into generic dim")


def _enum_symbolic(t, spec, adv):
    symk = [k for k in adv if not _is_const_arr(spec[k][0])]
    return symk


def _neg_ok(e, n):
    if e.op == "c":
        v = int(e.val)
        return X.const(v + n if v < 0 else v)
    return e


def _holds(c, e):
    e = c.simp(X.boolean(e))
    if e.op == "c" or e in (X.TRUE, X.FALSE) or c.decider is None:
        return e is X.TRUE
    yes, no = c.decider(c, e)
    return yes and not no


@handles("index")
def _index(func, args, kwargs):
    t, indices = args[:2]
    spec, masks = _prep_index(t, indices)
    c = ctx()
    if masks:
        if len(masks) > 1 or any(s is not None and s[0] != "mask" for s in spec) or masks[0][0] != 0:
            raise Unsupported("mixed mask index")
        mk = masks[0][1]
        nd = mk.ndim
        ps = t._d.shape[:nd]
        n = int(np.prod(ps)) if ps else 1
        mkey = ("mask", n, tuple(e.id for e in mk._d.reshape(-1)))
        tok = c.mask_of.get(mkey)
        if tok is None and nd == 1 and all(_holds(c, e) for e in mk._d):
            return wrap(t._d.copy(), t.shape, t.dtype)  # every row is selected
        if tok is None:
            tok = c.mask_of[mkey] = c.new_token(n)
        a = t._d.reshape((n,) + t._d.shape[nd:]).copy()
        r = SymTensor(a, (tok,) + tuple(t.shape[nd:]), t.dtype, mask=(tuple(mk._d.reshape(-1)), tok))
        return r
    spec, adv, bshape, pre, post, shape = _adv(t, spec)
    if hasattr(t, "_fnsrc"):
        return t._fnsrc(t, spec, adv, bshape, shape)
    _check_gen_index(t, spec, adv)
    for k in adv:
        spec[k] = (U(lambda e, n=t._d.shape[k]: _neg_ok(e, n), spec[k][0]), spec[k][1])
    symk = _enum_symbolic(t, spec, adv)
    if not symk:
        return wrap(t._d[_const_spec(spec, t.ndim)], shape, t.dtype)

    def rec(sp, ks):
        if not ks:
            return t._d[_const_spec(sp, t.ndim)]
        k = ks[0]
        n = t._d.shape[k]
        a = np.broadcast_to(spec[k][0], bshape)
        res = None
        for v in range(n - 1, -1, -1):
            sp2 = list(sp)
            full = np.empty(bshape, dtype=object)
            full[...] = X.const(v)
            sp2[k] = (full, spec[k][1])
            r = rec(sp2, ks[1:])
            cond = U(lambda e, v=v: X.eq(e, X.const(v)), a).reshape((1,) * pre + bshape + (1,) * post)
            res = r if res is None else U(X.ite, np.broadcast_to(cond, r.shape), r, res)
        return res

    return wrap(rec(spec, symk), shape, t.dtype)


@handles("index_put", "_index_put_impl")
def _index_put(func, args, kwargs):
    t, indices, v = args[:3]
    acc = args[3] if len(args) > 3 else kwargs.get("accumulate", False)
    spec, masks = _prep_index(t, indices)
    out = t._d.copy()
    if masks:
        if len(masks) > 1 or any(s is not None and s[0] != "mask" for s in spec) or masks[0][0] != 0:
            raise Unsupported("mixed mask index_put")
        mk = masks[0][1]
        nd = mk.ndim
        ps = out.shape[:nd]
        n = int(np.prod(ps)) if ps else 1
        flat = out.reshape((n,) + out.shape[nd:])
        mflat = U(X.boolean, mk._d).reshape((n,) + (1,) * (out.ndim - nd))
        vd = v._d
        if v._mask is not None:
            if v._mask[0] != tuple(mk._d.reshape(-1)):
                raise Unsupported("masked assignment with a different mask")
        else:
            want = ctx().mask_of.get(("mask", n, tuple(e.id for e in mk._d.reshape(-1))))
            if v.ndim == flat.ndim and v.ndim > 0 and v.shape[0] != 1 and v.shape[0] != want:
                if not (nd == 1 and v.shape[0] == t.shape[0] and all(_holds(ctx(), e) for e in mk._d)):
                    raise Unsupported("unmasked rows into mask")
            vd = np.broadcast_to(vd, flat.shape)
        vd = cast_arr(vd, t.dtype)
        new = U(lambda m_, a, b: X.ite(m_, X.add(a, b) if acc else b, a), np.broadcast_to(mflat, flat.shape), np.broadcast_to(vd, flat.shape), flat) if not acc else U(lambda m_, b, a: X.ite(m_, X.add(a, b), a), np.broadcast_to(mflat, flat.shape), np.broadcast_to(vd, flat.shape), flat)
        if not acc:
            new = U(lambda m_, b, a: X.ite(m_, b, a), np.broadcast_to(mflat, flat.shape), np.broadcast_to(vd, flat.shape), flat)
        return SymTensor(new.reshape(out.shape), t.shape, t.dtype)
    spec, adv, bshape, pre, post, shape = _adv(t, spec)
    _check_gen_index(t, spec, adv)
    for k in adv:
        spec[k] = (U(lambda e, n=t._d.shape[k]: _neg_ok(e, n), spec[k][0]), spec[k][1])
    symk = _enum_symbolic(t, spec, adv)
    tgt_shape = tuple(ctx().phys(s) for s in shape)
    vd = np.broadcast_to(cast_arr(v._d, t.dtype), tgt_shape)
    if not symk:
        ix = _const_spec(spec, t.ndim)
        ids = np.arange(out.size).reshape(out.shape)[ix]
        flat = out.reshape(-1)
        for pos, val in zip(ids.reshape(-1), vd.reshape(-1)):
            flat[pos] = X.add(flat[pos], val) if acc else val
        return SymTensor(flat.reshape(out.shape), t.shape, t.dtype)

    # enumerate symbolic index values
    import itertools

    ranges = [range(t._d.shape[k]) for k in symk]
    for vals in itertools.product(*ranges):
        sp2 = list(spec)
        cond = None
        for k, vv in zip(symk, vals):
            full = np.empty(bshape, dtype=object)
            full[...] = X.const(vv)
            sp2[k] = (full, spec[k][1])
            ck = U(lambda e, vv=vv: X.eq(e, X.const(vv)), np.broadcast_to(spec[k][0], bshape))
            cond = ck if cond is None else U(X.band, cond, ck)
        cond = np.broadcast_to(cond.reshape((1,) * pre + bshape + (1,) * post), tgt_shape)
        ids = np.arange(out.size).reshape(out.shape)[_const_spec(sp2, t.ndim)]
        flat = out.reshape(-1)
        for pos, val, cc in zip(ids.reshape(-1), vd.reshape(-1), cond.reshape(-1)):
            flat[pos] = X.ite(cc, X.add(flat[pos], val) if acc else val, flat[pos])
        out = flat.reshape(out.shape)
    return SymTensor(out, t.shape, t.dtype)


@handles("index_select")
def _index_select(func, args, kwargs):
    t, d, ix = args[:3]
    sp = [None] * (d % t.ndim) + [ix]
    return _index(None, (t, sp), {})


@handles("gather")
def _gather(func, args, kwargs):
    t, d, ix = args[:3]
    d %= t.ndim
    out = np.empty(ix._d.shape, dtype=object)
    for i in np.ndindex(out.shape):
        e = X.num(ix._d[i])
        pos = list(i)
        if e.op == "c":
            pos[d] = int(e.val)
            out[i] = t._d[tuple(pos)]
        else:
            r = None
            for k in range(t._d.shape[d] - 1, -1, -1):
                pos[d] = k
                v = t._d[tuple(pos)]
                r = v if r is None else X.ite(X.eq(e, X.const(k)), v, r)
            out[i] = r
    return wrap(out, ix.shape, t.dtype)


@handles("masked_fill")
def _masked_fill(func, args, kwargs):
    t, m_, v = args[:3]
    vv = v._d if isinstance(v, SymTensor) else obj(X.const(v))
    return wrap(U(lambda c_, b, a: X.ite(c_, b, a), m_._d, vv, t._d), torch.broadcast_shapes(t.shape, m_.shape), t.dtype)


# -- scalars / control flow -------------------------------------------------------------


@handles("_local_scalar_dense", "item")
def _item(func, args, kwargs):
    t = args[0]
    e = t._d.reshape(-1)[0]
    if t._d.size != 1:
        raise Unsupported("item of a non scalar")
    if int(np.prod(t.shape)) != 1:
        raise Unsupported("item of a generic dim")
    if t.dtype == torch.bool:
        return ctx().decide(X.boolean(e))
    if e.op == "c":
        return int(e.val) if not t.dtype.is_floating_point else float(e.val)
    if e.op == "special":
        return float(e.val)
    if not t.dtype.is_floating_point:
        # enumerate by deciding equalities
        for k in range(0, 64):
            if ctx().decide(X.eq(e, X.const(k))):
                return k
    return SymFloat(e)


@handles("is_nonzero")
def _nonzero_s(func, args, kwargs):
    return ctx().decide(X.boolean(args[0]._d.reshape(-1)[0]))


@handles("equal")
def _equal(func, args, kwargs):
    a, b = args[:2]
    if tuple(a.shape) != tuple(b.shape):
        return False
    r = X.band(*[X.eq(x, y) for x, y in zip(a._d.reshape(-1), b._d.reshape(-1))]) if a._d.size else X.TRUE
    return ctx().decide(r)


@handles("allclose")
def _allclose(func, args, kwargs):
    a, b = args[:2]
    rtol = args[2] if len(args) > 2 else kwargs.get("rtol", 1e-5)
    atol = args[3] if len(args) > 3 else kwargs.get("atol", 1e-8)
    c = ctx()
    A, B = np.broadcast_arrays(a._d, b._d)
    out = []
    for x, y in zip(A.reshape(-1), B.reshape(-1)):
        d = c.simp(X.eabs(X.sub(X.num(x), X.num(y))))
        out.append(X.le(d, X.add(X.const(atol), X.mul(X.const(rtol), X.eabs(X.num(y))))) if d is not X.ZERO else X.TRUE)
    r = X.band(*out) if out else X.TRUE
    if r not in (X.TRUE, X.FALSE) and any(_generic(c, s) for s in tuple(a.shape) + tuple(b.shape)):
        v = X.bvar(f"all!{X.fresh('q').val}")
        c.assume(X.bor(X.bnot(v), r))
        r = v
    return c.decide(r)


@handles("isclose")
def _isclose(func, args, kwargs):
    m = meta_run(func, args, kwargs)
    a, b = args[:2]
    rtol = args[2] if len(args) > 2 else kwargs.get("rtol", 1e-5)
    atol = args[3] if len(args) > 3 else kwargs.get("atol", 1e-8)
    r = U(lambda x, y: X.le(X.eabs(X.sub(x, y)), X.add(X.const(atol), X.mul(X.const(rtol), X.eabs(y)))), a._d, b._d)
    return wrap(r, m.shape, m.dtype)


@handles("_assert_async", "_functional_assert_async")
def _assert_async(func, args, kwargs):
    return None


@handles("is_same_size")
def _same(func, args, kwargs):
    return tuple(args[0].shape) == tuple(args[1].shape)


class SymFloat(float):
    """Python float standing for a symbolic real (result of .item())."""

    def __new__(cls, e):
        r = float.__new__(cls, float("nan"))
        r.e = e
        return r

    def _b(self, f, o):
        return SymFloat(f(self.e, o.e if isinstance(o, SymFloat) else X.const(o)))

    def __add__(self, o): return self._b(X.add, o)
    __radd__ = __add__
    def __mul__(self, o): return self._b(X.mul, o)
    __rmul__ = __mul__
    def __sub__(self, o): return self._b(X.sub, o)
    def __rsub__(self, o): return SymFloat(X.sub(X.const(o), self.e))
    def __truediv__(self, o): return self._b(X.div, o)
    def __rtruediv__(self, o): return SymFloat(X.div(X.const(o), self.e))
    def __neg__(self): return SymFloat(X.neg(self.e))
    def _c(self, f, o):
        return ctx().decide(f(self.e, o.e if isinstance(o, SymFloat) else X.const(o)))
    def __lt__(self, o): return self._c(X.lt, o)
    def __le__(self, o): return self._c(X.le, o)
    def __gt__(self, o): return self._c(X.gt, o)
    def __ge__(self, o): return self._c(X.ge, o)
    def __eq__(self, o): return self._c(X.eq, o)
    def __ne__(self, o): return not self._c(X.eq, o)
    def __bool__(self): return not self._c(X.eq, 0)
    __hash__ = float.__hash__
