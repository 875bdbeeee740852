"""Hash-consed symbolic expressions over the reals (plus booleans).

Every scalar entry of a symbolic tensor is one of these nodes.  Machine
arithmetic is treated as real arithmetic; Python float literals are snapped to
the simplest rational that rounds to the same double.
"""
from __future__ import annotations

import math
from fractions import Fraction
from typing import Callable, Dict, Iterable, List, Optional, Tuple

import numpy as np


def snap(x) -> Fraction:
    """Simplest rational within ~1e-15 relative of the double x."""
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (bool, int, np.integer)):
        return Fraction(int(x))
    x = float(x)
    if math.isinf(x) or math.isnan(x):
        raise ValueError("non finite constant")
    f = Fraction(x)
    if f.denominator == 1:
        return f
    for lim in (10, 100, 1000, 10000, 100000, 1000000, 10**8, 10**10, 10**13):
        g = f.limit_denominator(lim)
        if abs(g - f) <= abs(f) * Fraction(1, 10**15) and g != 0:
            return g
    return f


class E:
    __slots__ = ("op", "args", "val", "id", "isbool", "__weakref__")
    _table: Dict = {}
    _next = 0

    def __repr__(self):
        return show(self)

    # numpy object-array arithmetic hooks
    def __add__(self, o):
        return add(self, lift(o))

    def __radd__(self, o):
        return add(lift(o), self)

    def __sub__(self, o):
        return add(self, neg(lift(o)))

    def __rsub__(self, o):
        return add(lift(o), neg(self))

    def __mul__(self, o):
        return mul(self, lift(o))

    def __rmul__(self, o):
        return mul(lift(o), self)

    def __truediv__(self, o):
        return div(self, lift(o))

    def __rtruediv__(self, o):
        return div(lift(o), self)

    def __neg__(self):
        return neg(self)

    def __pow__(self, k):
        return power(self, k)

    def __bool__(self):
        if self.op == "bc":
            return self.val
        raise TypeError("truth value of a symbolic expression: " + show(self)[:80])

    # identity equality / hash (hash-consing)
    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o

    def __hash__(self):
        return self.id


def _mk(op, args=(), val=None, isbool=False) -> E:
    key = (op, tuple(a.id for a in args), val)
    e = E._table.get(key)
    if e is None:
        e = E.__new__(E)
        e.op = op
        e.args = tuple(args)
        e.val = val
        e.isbool = isbool
        E._next += 1
        e.id = E._next
        E._table[key] = e
    return e


_const_cache: Dict = {}


def const(x) -> E:
    if isinstance(x, E):
        return x
    if isinstance(x, (bool, np.bool_)):
        return TRUE if x else FALSE
    if isinstance(x, float) and (math.isinf(x) or math.isnan(x)):
        return _mk("special", (), repr(x))
    f = snap(x)
    e = _const_cache.get(f)
    if e is None:
        e = _mk("c", (), f)
        _const_cache[f] = e
    return e


def lift(x) -> E:
    return x if isinstance(x, E) else const(x)


TRUE = _mk("bc", (), True, True)
FALSE = _mk("bc", (), False, True)
ZERO = const(0)
ONE = const(1)


def var(name: str) -> E:
    return _mk("var", (), name)


def bvar(name: str) -> E:
    return _mk("bvar", (), name, True)


_fresh_n = [0]


def fresh(prefix="f") -> E:
    _fresh_n[0] += 1
    return var(f"{prefix}!{_fresh_n[0]}")


def fn(name: str, idx, *args: E) -> E:
    """Opaque function result `name[idx](args)` with numeric interpretation in FN_NUM."""
    return _mk("fn", args, (name, idx))


FN_NUM: Dict[str, Callable] = {}


def isconst(e: E) -> bool:
    return e.op == "c"


def add(a: E, b: E) -> E:
    a = num(a)
    b = num(b)
    if a.op == "c":
        if b.op == "c":
            return const(a.val + b.val)
        if a.val == 0:
            return b
    elif b.op == "c" and b.val == 0:
        return a
    if a.op == "special" or b.op == "special":
        return _mk("special", (), "inf" if "inf" in (a.val, b.val) else "nan")
    if b.op == "neg" and b.args[0] is a:
        return ZERO
    if a.op == "neg" and a.args[0] is b:
        return ZERO
    if a.id > b.id:
        a, b = b, a
    return _mk("add", (a, b))


def neg(a: E) -> E:
    a = num(a)
    if a.op == "c":
        return const(-a.val)
    if a.op == "neg":
        return a.args[0]
    return _mk("neg", (a,))


def sub(a, b):
    return add(a, neg(b))


def mul(a: E, b: E) -> E:
    a = num(a)
    b = num(b)
    if a.op == "c":
        if b.op == "c":
            return const(a.val * b.val)
        if a.val == 0:
            return ZERO
        if a.val == 1:
            return b
        if a.val == -1:
            return neg(b)
    elif b.op == "c":
        return mul(b, a)
    if a.op == "neg":
        return neg(mul(a.args[0], b))
    if b.op == "neg":
        return neg(mul(a, b.args[0]))
    if a.id > b.id:
        a, b = b, a
    return _mk("mul", (a, b))


def div(a: E, b: E) -> E:
    a = num(a)
    b = num(b)
    if b.op == "c":
        if b.val == 0:
            return _mk("special", (), "nan")
        return mul(a, const(Fraction(1) / b.val))
    if a.op == "c" and a.val == 0:
        return ZERO
    if a is b:
        return ONE
    return _mk("div", (a, b))


def power(a: E, k) -> E:
    a = num(a)
    if isinstance(k, E):
        if k.op != "c":
            return _mk("fn", (a, k), ("pow", 0))
        k = k.val
    k = snap(k)
    if k.denominator == 1:
        k = int(k)
        if a.op == "c":
            if a.val == 0 and k < 0:
                return _mk("special", (), "inf")
            return const(a.val**k)
        if k == 0:
            return ONE
        if k < 0:
            return div(ONE, power(a, -k))
        if k == 1:
            return a
        r = a
        for _ in range(k - 1):
            r = mul(r, a)
        return r
    if k.denominator == 2:
        return power(sqrt(a), k.numerator)
    return _mk("fn", (a, const(k)), ("pow", 0))


def sqrt(a: E) -> E:
    a = num(a)
    if a.op == "c":
        if a.val >= 0:
            n, d = math.isqrt(a.val.numerator), math.isqrt(a.val.denominator)
            if n * n == a.val.numerator and d * d == a.val.denominator:
                return const(Fraction(n, d))
        else:
            return _mk("special", (), "nan")
    return _mk("sqrt", (a,))


def _un(op, a):
    return _mk(op, (num(a),))


def sin(a: E) -> E:
    a = num(a)
    if a.op == "c" and a.val == 0:
        return ZERO
    if a.op == "neg":
        return neg(sin(a.args[0]))
    return _mk("sin", (a,))


def cos(a: E) -> E:
    a = num(a)
    if a.op == "c" and a.val == 0:
        return ONE
    if a.op == "neg":
        return cos(a.args[0])
    return _mk("cos", (a,))


def atan2(y: E, x: E) -> E:
    return _mk("atan2", (num(y), num(x)))


def eabs(a: E) -> E:
    a = num(a)
    if a.op == "c":
        return const(abs(a.val))
    if a.op in ("sqrt", "abs"):
        return a
    if a.op == "neg":
        return eabs(a.args[0])
    return _mk("abs", (a,))


def sign(a: E) -> E:
    a = num(a)
    if a.op == "c":
        return const((a.val > 0) - (a.val < 0))
    return _mk("sign", (a,))


def floor(a: E) -> E:
    a = num(a)
    if a.op == "c":
        return const(math.floor(a.val))
    if is_int(a):
        return a
    return _mk("floor", (a,))


INTVARS: set = set()  # names of integer-valued variables


def is_int(e: E) -> bool:
    if e.op == "var":
        return e.val in INTVARS
    if e.op == "c":
        return e.val.denominator == 1
    if e.op in ("floor", "sign"):
        return True
    if e.op in ("add", "mul", "neg"):
        return all(is_int(a) for a in e.args)
    if e.op == "ite":
        return is_int(e.args[1]) and is_int(e.args[2])
    return False


def exp(a: E) -> E:
    a = num(a)
    if a.op == "c" and a.val == 0:
        return ONE
    return _mk("exp", (a,))


def log(a: E) -> E:
    a = num(a)
    if a.op == "c" and a.val == 1:
        return ZERO
    if a.op == "exp":
        return a.args[0]
    return _mk("log", (a,))


def num(a) -> E:
    """bool -> 0/1 real."""
    if not isinstance(a, E):
        a = const(a)
    if a.isbool:
        return ite(a, ONE, ZERO)
    return a


def boolean(a) -> E:
    if not isinstance(a, E):
        a = const(a)
    if a.isbool:
        return a
    if a.op == "c":
        return TRUE if a.val != 0 else FALSE
    if a.op == "ite" and a.args[1] is ONE and a.args[2] is ZERO:
        return a.args[0]
    return bnot(eq(a, ZERO))


def ite(c: E, a: E, b: E) -> E:
    c = boolean(c)
    if not isinstance(a, E):
        a = const(a)
    if not isinstance(b, E):
        b = const(b)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.isbool and b.isbool:
        return bor(band(c, a), band(bnot(c), b))
    a, b = num(a), num(b)
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    return _mk("ite", (c, a, b))


def lt(a: E, b: E) -> E:
    a, b = num(a), num(b)
    if a.op == "c" and b.op == "c":
        return TRUE if a.val < b.val else FALSE
    if a is b:
        return FALSE
    if b.op == "special" or a.op == "special":
        if b.val == "inf" or a.val == "-inf":
            return TRUE
        if a.val == "inf" or b.val == "-inf":
            return FALSE
    if a.op == "sqrt" and b.op == "c" and b.val <= 0:
        return FALSE
    return _mk("lt", (a, b), None, True)


def le(a: E, b: E) -> E:
    return bnot(lt(b, a))


def gt(a, b):
    return lt(b, a)


def ge(a, b):
    return bnot(lt(a, b))


def eq(a: E, b: E) -> E:
    if not isinstance(a, E):
        a = const(a)
    if not isinstance(b, E):
        b = const(b)
    if a.isbool and b.isbool:
        return bor(band(a, b), band(bnot(a), bnot(b)))
    a, b = num(a), num(b)
    if a is b:
        return TRUE
    if a.op == "c" and b.op == "c":
        return TRUE if a.val == b.val else FALSE
    if a.id > b.id:
        a, b = b, a
    return _mk("eq", (a, b), None, True)


def bnot(a: E) -> E:
    a = boolean(a)
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    return _mk("not", (a,), None, True)


def band(*xs) -> E:
    out = []
    for x in xs:
        x = boolean(x)
        if x is FALSE:
            return FALSE
        if x is TRUE or x in out:
            continue
        if bnot(x) in out:
            return FALSE
        out.append(x)
    if not out:
        return TRUE
    r = out[0]
    for x in out[1:]:
        r = _mk("and", (r, x), None, True)
    return r


def bor(*xs) -> E:
    return bnot(band(*[bnot(x) for x in xs]))


def emax(a, b):
    return ite(lt(a, b), b, a)


def emin(a, b):
    return ite(lt(b, a), b, a)


# ---------------------------------------------------------------------------


def postorder(roots: Iterable[E]) -> List[E]:
    seen = set()
    out: List[E] = []
    stack = [(r, False) for r in roots]
    while stack:
        e, done = stack.pop()
        if done:
            out.append(e)
            continue
        if e.id in seen:
            continue
        seen.add(e.id)
        stack.append((e, True))
        for a in e.args:
            if a.id not in seen:
                stack.append((a, False))
    return out


def variables(roots) -> List[E]:
    return [e for e in postorder(roots) if e.op in ("var", "bvar")]


BUILD = {
    "add": add, "neg": neg, "mul": mul, "div": div, "sqrt": sqrt, "sin": sin,
    "cos": cos, "atan2": atan2, "abs": eabs, "sign": sign, "floor": floor,
    "exp": exp, "log": log, "ite": ite, "lt": lt, "eq": eq, "not": bnot,
    "and": band,
}


def substitute(roots: List[E], mapping: Dict[E, E]) -> List[E]:
    """Simultaneous substitution (expr -> expr), rebuilding with simplification."""
    memo: Dict[int, E] = {k.id: v for k, v in mapping.items()}
    out = []
    for r in roots:
        for e in postorder([r]):
            if e.id in memo:
                continue
            if not e.args:
                memo[e.id] = e
                continue
            new = [memo[a.id] for a in e.args]
            if all(n is a for n, a in zip(new, e.args)):
                memo[e.id] = e
            elif e.op in BUILD:
                memo[e.id] = BUILD[e.op](*new)
            else:
                memo[e.id] = _mk(e.op, new, e.val, e.isbool)
        out.append(memo[r.id])
    return out


def evaluate(roots: List[E], env: Dict[str, np.ndarray]) -> List[np.ndarray]:
    """Vectorised float64 evaluation; env maps variable names to arrays."""
    vals: Dict[int, np.ndarray] = {}
    with np.errstate(all="ignore"):
        for e in postorder(roots):
            a = [vals[x.id] for x in e.args]
            op = e.op
            if op == "c":
                v = np.float64(e.val)
            elif op == "bc":
                v = np.bool_(e.val)
            elif op == "special":
                v = np.float64(float(e.val))
            elif op in ("var", "bvar"):
                v = env[e.val]
            elif op == "add":
                v = a[0] + a[1]
            elif op == "neg":
                v = -a[0]
            elif op == "mul":
                v = a[0] * a[1]
            elif op == "div":
                v = np.divide(a[0], a[1])
            elif op == "sqrt":
                v = np.sqrt(np.maximum(a[0], 0.0)) if e.val is None else np.sqrt(a[0])
            elif op == "sin":
                v = np.sin(a[0])
            elif op == "cos":
                v = np.cos(a[0])
            elif op == "atan2":
                v = np.arctan2(a[0], a[1])
            elif op == "abs":
                v = np.abs(a[0])
            elif op == "sign":
                v = np.sign(a[0])
            elif op == "floor":
                v = np.floor(a[0])
            elif op == "exp":
                v = np.exp(a[0])
            elif op == "log":
                v = np.log(a[0])
            elif op == "ite":
                v = np.where(a[0], a[1], a[2])
            elif op == "lt":
                v = a[0] < a[1]
            elif op == "eq":
                v = a[0] == a[1]
            elif op == "not":
                v = np.logical_not(a[0])
            elif op == "and":
                v = np.logical_and(a[0], a[1])
            elif op == "fn":
                name, idx = e.val
                if name == "pow":
                    v = np.power(a[0], a[1])
                else:
                    v = FN_NUM[name](idx, *a)
            else:
                raise NotImplementedError(op)
            vals[e.id] = v
    return [vals[r.id] for r in roots]


def show(e: E, depth=12) -> str:
    if depth == 0:
        return "..."
    s = [show(a, depth - 1) for a in e.args]
    if e.op == "c":
        return str(e.val)
    if e.op in ("var", "bvar", "bc", "special"):
        return str(e.val)
    if e.op == "add":
        return f"({s[0]} + {s[1]})"
    if e.op == "mul":
        return f"{s[0]}*{s[1]}"
    if e.op == "neg":
        return f"-{s[0]}"
    if e.op == "div":
        return f"({s[0]})/({s[1]})"
    if e.op == "lt":
        return f"({s[0]} < {s[1]})"
    if e.op == "eq":
        return f"({s[0]} = {s[1]})"
    if e.op == "fn":
        return f"{e.val[0]}[{e.val[1]}](...)"
    return f"{e.op}({', '.join(s)})"


# ---------------------------------------------------------------------------
# differentiation (forward mode over the DAG)


class NoDeriv(Exception):
    pass


FN_DIFF: Dict[str, Callable] = {}


def jvp(roots: List[E], seeds: Dict[E, E]) -> List[E]:
    """Directional derivative of each root along d var = seeds[var]."""
    d: Dict[int, E] = {}
    for e in postorder(roots):
        if e in seeds:
            d[e.id] = num(seeds[e])
            continue
        if not e.args or e.isbool:
            d[e.id] = ZERO
            continue
        a = e.args
        da = [d[x.id] for x in a]
        if all(x is ZERO for x in da):
            d[e.id] = ZERO
            continue
        op = e.op
        if op == "add":
            v = add(da[0], da[1])
        elif op == "neg":
            v = neg(da[0])
        elif op == "mul":
            v = add(mul(da[0], a[1]), mul(a[0], da[1]))
        elif op == "div":
            v = sub(div(da[0], a[1]), div(mul(a[0], da[1]), mul(a[1], a[1])))
        elif op == "sqrt":
            v = div(da[0], mul(const(2), e))
        elif op == "sin":
            v = mul(cos(a[0]), da[0])
        elif op == "cos":
            v = neg(mul(sin(a[0]), da[0]))
        elif op == "atan2":
            y, x = a
            v = div(sub(mul(x, da[0]), mul(y, da[1])), add(mul(x, x), mul(y, y)))
        elif op == "abs":
            v = mul(sign(a[0]), da[0])
        elif op in ("sign", "floor"):
            v = ZERO
        elif op == "exp":
            v = mul(e, da[0])
        elif op == "log":
            v = div(da[0], a[0])
        elif op == "ite":
            v = ite(a[0], da[1], da[2])
        elif op == "fn":
            name, idx = e.val
            if name == "pow":
                if da[1] is not ZERO or a[1].op != "c":
                    raise NoDeriv("pow exponent")
                v = mul(mul(a[1], power(a[0], a[1].val - 1)), da[0])
            elif name in FN_DIFF:
                v = FN_DIFF[name](idx, a, da)
            else:
                raise NoDeriv(name)
        else:
            raise NoDeriv(op)
        d[e.id] = v
    return [d[r.id] for r in roots]


def conditions(roots) -> List[E]:
    """Atomic boolean conditions in creation order."""
    out = []
    for e in postorder(roots):
        if e.isbool and e.op in ("lt", "eq", "bvar"):
            out.append(e)
    return sorted(out, key=lambda e: e.id)
