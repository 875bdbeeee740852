"""Taylor models: |P(t, ...)| <= bound for 0 <= t <= T, other atoms in boxes.

Works on NF polynomials.  `t` is one declared non-negative variable, all other
variable atoms carry an interval |x| <= B.  sin/cos/sqrt/inverse atoms of t are
expanded with a Lagrange / geometric remainder (trusted lemmas of calculus);
the result is a rigorous rational upper bound, or None.
"""
from __future__ import annotations

from fractions import Fraction
from math import factorial
from typing import Dict, Optional

from .poly import NF, ONE_M, Poly, mono_mul, padd, pscale


class Fail(Exception):
    pass


class TM:
    """sum_k c[k] t^k + [-r, r] * t^o."""

    __slots__ = ("c", "r", "o")

    def __init__(self, c: Dict[int, Poly], r: Fraction, o: int):
        self.c, self.r, self.o = c, r, o


class Engine:
    def __init__(self, nf: NF, tname: str, T, bounds: Dict[str, Fraction], K=12, shift_pi=False):
        self.nf, self.K, self.T = nf, K, Fraction(T)
        self.tid = nf.var_atom(tname).id
        self.bounds = bounds
        self.memo: Dict[int, TM] = {}

    def polybound(self, p: Poly) -> Fraction:
        s = Fraction(0)
        for m, c in p.items():
            v = abs(Fraction(c))
            for i, e in m:
                a = self.nf.atoms[i]
                if e < 0:
                    raise Fail("negative power of " + str(a.key)[:40])
                v *= self.atombound(a) ** e
            s += v
        return s

    def atombound(self, a) -> Fraction:
        if a.kind == "var":
            if a.key in self.bounds:
                return Fraction(self.bounds[a.key])
            raise Fail(f"unbounded {a.key}")
        if a.kind in ("sin", "cos", "sign"):
            return Fraction(1)
        if a.kind == "abs":
            return self.polybound(a.data)
        if a.kind == "sqrt":
            b = self.polybound(a.data)
            return max(b, Fraction(1))
        raise Fail("atom " + a.kind)

    # arithmetic -----------------------------------------------------------
    def mk(self, c: Dict[int, Poly], rems) -> TM:
        """collect remainders [(r, order)]; drop terms above K."""
        rems = [(r, o) for r, o in rems if r]
        out = {}
        for k, p in c.items():
            if not p:
                continue
            if k > self.K:
                rems.append((self.polybound(p), k))
            else:
                out[k] = p
        if not rems:
            return TM(out, Fraction(0), self.K + 1)
        o = min(o for _, o in rems)
        r = sum((x * self.T ** (k - o) for x, k in rems), Fraction(0))
        return TM(out, r, o)

    def mag(self, a: TM) -> Fraction:
        if a.r and a.o < 0:
            raise Fail("remainder pole")
        s = a.r * self.T ** a.o if a.r else Fraction(0)
        for k, p in a.c.items():
            if k < 0:
                raise Fail("pole")
            s += self.polybound(p) * self.T ** k
        return s

    def lead(self, a: TM):
        """|a| <= s * t^lo."""
        lo = min(list(a.c) + ([a.o] if a.r else []), default=0)
        s = a.r * self.T ** (a.o - lo) if a.r else Fraction(0)
        for k, p in a.c.items():
            s += self.polybound(p) * self.T ** (k - lo)
        return lo, s

    def add(self, a: TM, b: TM) -> TM:
        c = dict(a.c)
        for k, p in b.c.items():
            c[k] = self.nf.reduce(padd(c.get(k, {}), p))
        return self.mk(c, [(a.r, a.o), (b.r, b.o)])

    def mul(self, a: TM, b: TM) -> TM:
        c: Dict[int, Poly] = {}
        for i, p in a.c.items():
            for j, q in b.c.items():
                c[i + j] = padd(c.get(i + j, {}), self.nf.pmul(p, q))
        rems = [(a.r * b.r, a.o + b.o)]
        if a.r:
            for k, p in b.c.items():
                rems.append((a.r * self.polybound(p), a.o + k))
        if b.r:
            for k, p in a.c.items():
                rems.append((b.r * self.polybound(p), b.o + k))
        return self.mk(c, rems)

    def const(self, v) -> TM:
        return TM({0: {ONE_M: v}} if v else {}, Fraction(0), self.K + 1)

    def scale(self, a: TM, k) -> TM:
        return TM({i: pscale(p, k) for i, p in a.c.items()}, a.r * abs(Fraction(k)), a.o)

    def shift(self, a: TM, n: int) -> TM:
        return self.mk({k + n: p for k, p in a.c.items()}, [(a.r, a.o + n)])

    def _unit(self, a: TM):
        """a = k0 t^lo (1 + u)."""
        if not a.c:
            raise Fail("zero")
        lo = min(a.c)
        c0 = a.c[lo]
        if set(c0) != {ONE_M}:
            raise Fail("non constant leading coefficient")
        k0 = Fraction(c0[ONE_M])
        if a.r and a.o <= lo:
            raise Fail("leading term lost")
        u = self.mk({k - lo: pscale(p, 1 / k0) for k, p in a.c.items() if k != lo}, [(a.r / abs(k0), a.o - lo)])
        rho = self.mag(u)
        if rho >= Fraction(1, 2):
            raise Fail("not small")
        return lo, k0, u, rho

    def _series(self, u: TM, rho, coef, cbound) -> TM:
        """sum coef(j) u^j + |.|<= cbound*|u|^{J+1}/(1-rho)."""
        res = self.const(coef(0))
        term = self.const(1)
        lo, s = self.lead(u)
        if not s:
            return res
        J = self.K // max(lo, 1) + 1
        for j in range(1, J + 1):
            term = self.mul(term, u)
            res = self.add(res, self.scale(term, coef(j)))
        return self.mk(res.c, [(res.r, res.o), (cbound * s ** (J + 1) / (1 - rho), lo * (J + 1))])

    def inverse(self, a: TM) -> TM:
        lo, k0, u, rho = self._unit(a)
        res = self._series(u, rho, lambda j: Fraction((-1) ** j), 1)
        return self.shift(self.scale(res, 1 / k0), -lo)

    def sqrt(self, a: TM) -> TM:
        from math import isqrt

        lo, k0, u, rho = self._unit(a)
        n, d = isqrt(k0.numerator), isqrt(k0.denominator)
        if k0 < 0 or lo % 2 or n * n != k0.numerator or d * d != k0.denominator:
            raise Fail("sqrt const")

        def coef(j):
            co = Fraction(1)
            for i in range(1, j + 1):
                co = co * (Fraction(1, 2) - (i - 1)) / i
            return co

        res = self._series(u, rho, coef, 1)
        return self.shift(self.scale(res, Fraction(n, d)), lo // 2)

    def atan(self, u: TM) -> TM:
        lo, s = self.lead(u)
        if lo < 1 or self.mag(u) >= Fraction(1, 2):
            raise Fail("atan of non small")
        return self._series(u, self.mag(u), lambda j: Fraction((-1) ** (j // 2), j) if j % 2 else Fraction(0), 1)

    def leaf(self, i) -> TM:
        return TM({0: {((i, 1),): 1}}, Fraction(0), self.K + 1)

    def atom(self, i: int) -> TM:
        got = self.memo.get(i)
        if got is not None:
            return got
        a = self.nf.atoms[i]
        if i == self.tid:
            r = TM({1: {ONE_M: 1}}, Fraction(0), self.K + 1)
        elif not self.depends(a):
            r = self.leaf(i)
        elif a.kind in ("sin", "cos"):
            u = self.poly(a.data)
            if set(u.c) != {1} or u.r or set(u.c[1]) != {ONE_M}:
                raise Fail("trig of non-linear")
            k = Fraction(u.c[1][ONE_M])
            c: Dict[int, Poly] = {}
            for n in range(self.K + 1):
                if (n % 2 == 1) == (a.kind == "sin"):
                    sgn = -1 if (n // 2) % 2 else 1
                    c[n] = {ONE_M: sgn * k ** n / factorial(n)}
            r = TM(c, abs(k) ** (self.K + 1) / factorial(self.K + 1), self.K + 1)
        elif a.kind == "inv":
            r = self.inverse(self.poly(a.data))
        elif a.kind == "sqrt":
            r = self.sqrt(self.poly(a.data))
        elif a.kind == "atan2":
            y, x = self.poly(a.data[0]), self.poly(a.data[1])
            if set(x.c.get(0, {})) != {ONE_M} or x.c[0][ONE_M] <= 0:
                raise Fail("atan2 branch")
            r = self.atan(self.mul(y, self.inverse(x)))
        else:
            raise Fail("atom " + a.kind)
        self.memo[i] = r
        return r

    def depends(self, a) -> bool:
        if a.kind == "var":
            return a.id == self.tid
        data = a.data
        if isinstance(data, dict):
            return any(self.depends(self.nf.atoms[i]) for m in data for i, _ in m)
        if isinstance(data, tuple):
            return any(self.depends(self.nf.atoms[i]) for p in data for m in p for i, _ in m)
        return True

    def poly(self, p: Poly) -> TM:
        res = TM({}, Fraction(0), self.K + 1)
        for m, c in p.items():
            t = self.const(c)
            sh = 0
            for i, e in m:
                if i == self.tid:
                    sh += e
                    continue
                a = self.atom(i)
                if e < 0:
                    a, e = self.inverse(a), -e
                for _ in range(e):
                    t = self.mul(t, a)
            res = self.add(res, self.shift(t, sh))
        return res

    def bound(self, p: Poly) -> Fraction:
        return self.mag(self.poly(p))


def taylor_bound(nf: NF, p: Poly, tname: str, T, bounds, K=12) -> Optional[Fraction]:
    try:
        return Engine(nf, tname, T, bounds, K).bound(p)
    except Fail as e:
        return None
