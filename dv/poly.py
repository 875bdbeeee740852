"""Normal forms: Laurent polynomials over atoms modulo an ideal of side relations.

`NF.nf(e)` maps an (ite-free) expression to a canonical polynomial;
`NF.is_zero` decides vanishing after clearing denominators (denominators are
assumed non-zero; the caller discharges or records that side condition).
Rules used (each is an identity of real analysis):
  sqrt(p)^2 = p, sqrt(p) >= 0, sqrt(q^2) = |q|, sin^2 = 1 - cos^2,
  sin/cos addition formulas, atan2(k sin u, k cos u) = u (k>0, u in (-pi,pi]),
  sin(atan2(y,x)) = y/r, cos(atan2(y,x)) = x/r, r = sqrt(x^2+y^2),
  exp(a+b)=exp(a)exp(b), log(exp a)=a.
"""
from __future__ import annotations

import math
from fractions import Fraction
from typing import Callable, Dict, List, Optional, Tuple

from . import expr as X
from .expr import E

Mono = Tuple[Tuple[int, int], ...]
Poly = Dict[Mono, Fraction]
ONE_M: Mono = ()


class TooBig(Exception):
    pass


class NotPoly(Exception):
    pass


class Atom:
    __slots__ = ("id", "kind", "key", "data", "rule", "expr", "sign")

    def __init__(self, id, kind, key, data, expr):
        self.id, self.kind, self.key, self.data, self.expr = id, kind, key, data, expr
        self.rule = None  # (exp, Poly) : atom^exp -> Poly
        self.sign = None  # 'pos','nonneg',None


def mono_mul(a: Mono, b: Mono) -> Mono:
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for i, e in b:
        n = d.get(i, 0) + e
        if n:
            d[i] = n
        else:
            del d[i]
    return tuple(sorted(d.items()))


def padd(a: Poly, b: Poly, k=1) -> Poly:
    if len(a) < len(b) and k == 1:
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        n = r.get(m, 0) + k * c
        if n:
            r[m] = n
        else:
            r.pop(m, None)
    return r


def pscale(a: Poly, k) -> Poly:
    return {m: c * k for m, c in a.items()} if k else {}


def pconst(k) -> Poly:
    k = _norm(k)
    return {ONE_M: k} if k else {}


def _norm(k):
    if isinstance(k, Fraction) and k.denominator == 1:
        return k.numerator
    return k


def pkey(p: Poly):
    return tuple(sorted(p.items()))


class NF:
    MAXTERMS = 60000

    def __init__(self, constrained: bool = True):
        self.atoms: List[Atom] = []
        self.by_key: Dict = {}
        self.memo: Dict[int, Poly] = {}
        self.mono_rules: List[Tuple[Mono, Poly]] = []
        self.pm1: set = set()
        self.raw: Optional["NF"] = NF(False) if constrained else None
        self.signs: Dict[str, str] = {}
        self.nonneg_oracle: Optional[Callable[[E], Optional[bool]]] = None
        self.angle_range: Dict[str, str] = {}
        self.used_inverses: Dict[int, E] = {}
        self.bounds: Dict[str, Fraction] = {}
        self.fracs: set = set()  # variables with values in [0, 1)

    # -- atoms ------------------------------------------------------------
    def atom(self, kind, key, data=None, expr=None) -> Atom:
        k = (kind, key)
        a = self.by_key.get(k)
        if a is None:
            a = Atom(len(self.atoms), kind, key, data, expr)
            self.atoms.append(a)
            self.by_key[k] = a
        return a

    def var_atom(self, name) -> Atom:
        a = self.atom("var", name, None, X.var(name))
        a.sign = self.signs.get(name)
        return a

    def declare_sign(self, name, s):
        self.signs[name] = s
        self.var_atom(name).sign = s
        if self.raw:
            self.raw.declare_sign(name, s)

    def add_rule(self, lhs: E, exp: int, rhs: E):
        """var^exp -> rhs (an input-domain constraint)."""
        a = self.var_atom(lhs.val)
        a.rule = (exp, self.nf(rhs))
        if exp == 2 and a.rule[1] == pconst(1):
            self.pm1.add(a.id)
        self.memo.clear()

    def add_mono_rule(self, lhs: E, rhs: E):
        p = self.nf(lhs)
        assert len(p) == 1
        (m, c), = p.items()
        self.mono_rules.append((m, pscale(self.nf(rhs), Fraction(1) / c)))
        self.memo.clear()

    def _single(self, a: Atom, e=1) -> Poly:
        return {((a.id, e),): 1}

    # -- reduction ----------------------------------------------------------
    def reduce(self, p: Poly) -> Poly:
        atoms = self.atoms
        out: Poly = {}
        work = [(m, c) for m, c in p.items()]
        n = 0
        while work:
            m, c = work.pop()
            n += 1
            if n > self.MAXTERMS * 8:
                raise TooBig()
            hit = None
            for i, e in m:
                r = atoms[i].rule
                if r is not None and e >= r[0]:
                    hit = (i, e, r)
                    break
            if hit is not None:
                i, e, (re, rp) = hit
                rest = []
                for j, f in m:
                    if j == i:
                        if f - re:
                            rest.append((j, f - re))
                    else:
                        rest.append((j, f))
                rest = tuple(rest)
                for m2, c2 in rp.items():
                    work.append((mono_mul(rest, m2), c * c2))
                continue
            mr = None
            for lm, rp in self.mono_rules:
                d = dict(m)
                if all(d.get(i, 0) >= e for i, e in lm):
                    mr = (lm, rp)
                    break
            if mr is not None:
                lm, rp = mr
                rest = mono_mul(m, tuple((i, -e) for i, e in lm))
                for m2, c2 in rp.items():
                    work.append((mono_mul(rest, m2), c * c2))
                continue
            v = out.get(m, 0) + c
            if v:
                out[m] = _norm(v)
            else:
                out.pop(m, None)
        return out

    def pmul(self, a: Poly, b: Poly) -> Poly:
        if not a or not b:
            return {}
        if len(a) > len(b):
            a, b = b, a
        if len(a) * len(b) > self.MAXTERMS * 20:
            raise TooBig()
        r: Poly = {}
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = mono_mul(m1, m2)
                v = r.get(m, 0) + c1 * c2
                if v:
                    r[m] = v
                else:
                    del r[m]
        return self.reduce(r)

    def ppow(self, a: Poly, n: int) -> Poly:
        r = pconst(1)
        for _ in range(n):
            r = self.pmul(r, a)
        return r

    # -- to expression ------------------------------------------------------
    def to_expr(self, p: Poly) -> E:
        s = X.ZERO
        for m, c in sorted(p.items()):
            t = X.const(Fraction(c))
            for i, e in m:
                a = self.atom_expr(self.atoms[i])
                if e < 0:
                    t = X.div(t, X.power(a, -e))
                else:
                    t = X.mul(t, X.power(a, e))
            s = X.add(s, t)
        return s

    def atom_expr(self, a: Atom) -> E:
        return a.expr

    # -- normal form --------------------------------------------------------
    def nf(self, e: E) -> Poly:
        e = X.num(e)
        got = self.memo.get(e.id)
        if got is not None:
            return got
        for x in X.postorder([e]):
            if x.id in self.memo or x.isbool:
                continue
            self.memo[x.id] = self._node(x)
            if len(self.memo[x.id]) > self.MAXTERMS:
                raise TooBig()
        return self.memo[e.id]

    def _node(self, x: E) -> Poly:
        op = x.op
        M = self.memo
        if op == "c":
            return pconst(x.val)
        if op == "var":
            return self._single(self.var_atom(x.val))
        if op == "add":
            return padd(M[x.args[0].id], M[x.args[1].id])
        if op == "neg":
            return pscale(M[x.args[0].id], -1)
        if op == "mul":
            return self.pmul(M[x.args[0].id], M[x.args[1].id])
        if op == "div":
            return self.pmul(M[x.args[0].id], self.inv(M[x.args[1].id]))
        if op == "sqrt":
            return self.sqrt(M[x.args[0].id], x.args[0])
        if op in ("sin", "cos"):
            s, c = self.sincos(M[x.args[0].id])
            return s if op == "sin" else c
        if op == "atan2":
            return self.atan2(x)
        if op == "abs":
            return self.pabs(M[x.args[0].id], x.args[0])
        if op == "sign":
            return self.psign(M[x.args[0].id])
        if op == "exp":
            return self.pexp(M[x.args[0].id])
        if op == "log":
            return self.plog(M[x.args[0].id])
        if op == "special":
            raise NotPoly(x.val)
        if op == "ite":
            key = (self._boolkey(x.args[0]), pkey(M[x.args[1].id]), pkey(M[x.args[2].id]))
            if key[1] == key[2]:
                return M[x.args[1].id]
            a = self.atom("ite", key, None, x)
            return self._single(a)
        if op == "floor":
            p = M[x.args[0].id]
            whole, rest = {}, {}
            for m, c in p.items():
                ints = Fraction(c).denominator == 1 and all(e > 0 and self.atoms[i].kind == "var" and self.atoms[i].key in X.INTVARS for i, e in m)
                (whole if ints else rest)[m] = c
            if len(rest) == 1:
                (m, c), = rest.items()
                if c == 1 and len(m) == 1 and m[0][1] == 1 and self.atoms[m[0][0]].kind == "var" and self.atoms[m[0][0]].key in self.fracs:
                    rest = {}  # floor(n + u) = n for integer n and 0 <= u < 1
            if not rest:
                return whole
        if op in ("fn", "floor"):
            key = (x.val, tuple(pkey(M[a.id]) for a in x.args))
            a = self.atom(op, key, None, x)
            return self._single(a)
        raise NotImplementedError(op)

    def _boolkey(self, b: E):
        return b.id

    # -- inverse ------------------------------------------------------------
    def clear(self, p: Poly) -> Tuple[Poly, Poly]:
        """p = N / D with N, D free of inverse atoms/negative exponents."""
        D = pconst(1)
        for _ in range(60):
            inv_at = None
            negs: Dict[int, int] = {}
            for m in p:
                for i, e in m:
                    if self.atoms[i].kind == "inv":
                        inv_at = i if inv_at is None else max(inv_at, i)
                    if e < 0:
                        negs[i] = min(negs.get(i, 0), e)
            if inv_at is None and not negs:
                return p, D
            if inv_at is not None:
                q = self.atoms[inv_at].data
                n = max(dict(m).get(inv_at, 0) for m in p)
                pw = [pconst(1)]
                for _k in range(n):
                    pw.append(self.pmul(pw[-1], q))
                r: Poly = {}
                for k in range(n + 1):
                    part = {}
                    for m, c in p.items():
                        d = dict(m)
                        if d.get(inv_at, 0) == k:
                            d.pop(inv_at, None)
                            part[tuple(sorted(d.items()))] = c
                    if part:
                        r = padd(r, self.pmul(part, pw[n - k]))
                p = r
                D = self.pmul(D, pw[n])
            else:
                mm = tuple(sorted((i, -e) for i, e in negs.items()))
                p = self.reduce({mono_mul(m, mm): c for m, c in p.items()})
                D = self.reduce({mono_mul(m, mm): c for m, c in D.items()})
        raise TooBig()

    def inv(self, p: Poly) -> Poly:
        if not p:
            raise NotPoly("division by zero")
        if len(p) == 1:
            (m, c), = p.items()
            # sqrt atoms: 1/S = S * 1/p
            r: Poly = {ONE_M: Fraction(1) / c}
            plain = []
            for i, e in m:
                a = self.atoms[i]
                if a.kind == "inv":
                    r = self.pmul(r, self.ppow(a.data, e))
                elif a.kind == "sign" or i in self.pm1:
                    plain.append((i, e % 2))
                elif a.kind in ("sqrt", "abs") and e > 0:
                    q = self.inv(a.rule[1])
                    for _ in range(e):
                        r = self.pmul(r, self.pmul(self._single(a), q))
                else:
                    plain.append((i, -e))
            return self.pmul(r, {tuple(t for t in plain if t[1]): 1})
        N, D = self.clear(p)
        if not N:
            raise NotPoly("division by zero")
        if len(N) == 1:
            return self.pmul(D, self.inv(N))
        # pull monomial content
        common: Optional[Dict[int, int]] = None
        for m in N:
            d = dict(m)
            if common is None:
                common = d
            else:
                common = {i: min(e, d[i]) for i, e in common.items() if i in d}
        common = common or {}
        cm = tuple(sorted((i, -e) for i, e in common.items()))
        Nn = {mono_mul(m, cm): c for m, c in N.items()}
        lead = max(Nn)
        lc = Nn[lead]
        Nn = {m: _norm(Fraction(c) / lc) for m, c in Nn.items()}
        a = self.atom("inv", pkey(Nn), Nn, X.div(X.ONE, self.to_expr(Nn)))
        r = pscale(D, Fraction(1) / lc)
        if common:
            r = self.pmul(r, self.inv({tuple(sorted(common.items())): 1}))
        return self.pmul(r, self._single(a))

    def is_zero(self, p: Poly) -> bool:
        if not p:
            return True
        N, _ = self.clear(p)
        return not N

    # -- sqrt / abs / sign --------------------------------------------------
    def _atom_range(self, a):
        """(lo, hi) rational bounds of an atom or None."""
        if a.kind in ("sin", "cos"):
            if a.sign in ("pos", "nonneg"):
                return Fraction(0), Fraction(1)
            return Fraction(-1), Fraction(1)
        if a.kind == "sign":
            return Fraction(-1), Fraction(1)
        if a.kind == "var" and a.key in self.bounds:
            h = Fraction(self.bounds[a.key])
            return (Fraction(0) if a.sign in ("pos", "nonneg") else -h), h
        return None

    def prange(self, p: Poly):
        lo = hi = Fraction(0)
        for m, c in p.items():
            l, h = Fraction(1), Fraction(1)
            for i, e in m:
                if e < 0:
                    return None
                r = self._atom_range(self.atoms[i])
                if r is None:
                    return None
                al, ah = r
                if e % 2 == 0:
                    top = max(abs(al), abs(ah)) ** e
                    al, ah = (Fraction(0), top)
                    k = 1
                else:
                    al, ah = al ** e, ah ** e
                c4 = [l * al, l * ah, h * al, h * ah]
                l, h = min(c4), max(c4)
            c = Fraction(c)
            lo += min(c * l, c * h)
            hi += max(c * l, c * h)
        return lo, hi

    def psign_of(self, p: Poly, strict=False) -> Optional[int]:
        """+1 (>=0) / -1 (<=0) / 0 when provable; strict asks for > / <."""
        if not p:
            return None if strict else 0
        tot = None
        for m, c in p.items():
            s = 1 if c > 0 else -1
            for i, e in m:
                a = self.atoms[i]
                if e % 2 == 0:
                    if strict and a.sign != "pos" and a.kind not in ("exp", "sign"):
                        s = None
                        break
                    continue
                if a.sign == "pos" or a.kind == "exp":
                    continue
                if not strict and (a.kind in ("sqrt", "abs") or a.sign == "nonneg"):
                    continue
                if a.sign == "nonpos" and not strict:
                    s = -s
                    continue
                # x * sign(x) pairs
                if not strict and self._paired(i, m):
                    continue
                s = None
                break
            if s is None or (tot is not None and tot != s):
                tot = None
                break
            tot = s
        if tot is not None:
            return tot
        r = self.prange(p)
        if r is not None:
            lo, hi = r
            if lo > 0 or (lo >= 0 and not strict):
                return 1
            if hi < 0 or (hi <= 0 and not strict):
                return -1
        if self.nonneg_oracle is not None and not strict:
            e = self.to_expr(p)
            if self.nonneg_oracle(e):
                return 1
            if self.nonneg_oracle(X.neg(e)):
                return -1
        return None

    def _paired(self, i, m) -> bool:
        d = dict(m)
        a = self.atoms[i]
        if a.kind == "sign":
            (mm, _), = a.data.items() if len(a.data) == 1 else ((None, None),)
            return mm is not None and all(d.get(j, 0) % 2 == 1 for j, _ in mm)
        sa = self.by_key.get(("sign", pkey({((i, 1),): 1})))
        return sa is not None and d.get(sa.id, 0) % 2 == 1

    def content(self, p: Poly):
        """p = monomial * rest (rest has no common monomial)."""
        common = None
        for m in p:
            d = dict(m)
            if common is None:
                common = d
            else:
                common = {i: min(e, d.get(i, 0)) for i, e in common.items() if i in d}
        common = {i: e for i, e in (common or {}).items() if e}
        cm = tuple(sorted(common.items()))
        ic = tuple((i, -e) for i, e in cm)
        return cm, {mono_mul(m, ic): c for m, c in p.items()}

    def pabs(self, p: Poly, src: Optional[E] = None) -> Poly:
        s = self.psign_of(p)
        if s == 0:
            return {}
        if s == 1:
            return p
        if s == -1:
            return pscale(p, -1)
        cm, rest = self.content(p)
        if len(rest) == 1:
            r = pconst(abs(next(iter(rest.values()))))
        elif cm:
            r = self.pabs(rest)
        else:
            return self._abs_atom(p)
        for i, e in cm:
            f = {((i, e),): 1}
            if i in self.pm1:
                continue
            if e % 2 == 0 or self.psign_of(f) == 1:
                r = self.pmul(r, f)
            else:
                r = self.pmul(self.pmul(r, f), self._single(self._sign_atom({((i, 1),): 1})))
        return r

    def _abs_atom(self, p: Poly) -> Poly:
        lead = max(p)
        if p[lead] < 0:
            p = pscale(p, -1)
        a = self.atom("abs", pkey(p), p, X.eabs(self.to_expr(p)))
        if a.rule is None:
            a.rule = (2, self.pmul(p, p))
        return self._single(a)

    def _sign_atom(self, p: Poly):
        a = self.atom("sign", pkey(p), p, X.sign(self.to_expr(p)))
        if a.rule is None:
            a.rule = (2, pconst(1))
        return a

    def psign(self, p: Poly) -> Poly:
        """sign(p); s*s = 1 is used, i.e. p != 0 (a p = 0 case is a separate leaf)."""
        if not p:
            return {}
        s = self.psign_of(p, strict=True)
        if s is not None:
            return pconst(s)
        cm, rest = self.content(p)
        k = 1
        if len(rest) == 1:
            r = pconst(1 if next(iter(rest.values())) > 0 else -1)
        else:
            st = self.psign_of(rest, strict=True)
            if st is not None:
                r = pconst(st)
            else:
                if rest[max(rest)] < 0:
                    rest, k = pscale(rest, -1), -1
                r = pscale(self._single(self._sign_atom(rest)), k)
        for i, e in cm:
            if e % 2 == 0:
                continue
            st = self.psign_of({((i, 1),): 1}, strict=True)
            if self.atoms[i].kind == "sign":
                r = self.pmul(r, {((i, 1),): 1})
            elif st is not None:
                r = pscale(r, st)
            else:
                r = self.pmul(r, self._single(self._sign_atom({((i, 1),): 1})))
        return r

    def _rat_sqrt(self, c: Fraction):
        c = Fraction(c)
        if c < 0:
            return None
        n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if n * n == c.numerator and d * d == c.denominator:
            return Fraction(n, d)
        return None

    def sqrt(self, p: Poly, src: Optional[E] = None) -> Poly:
        if not p:
            return {}
        r = self._psqrt(p)
        if r is not None:
            return self.pabs(r)
        r = self._sqrt_by_rule(p)
        if r is not None:
            return r
        alt = self._swap_trig(p)
        if alt is not None:
            r = self._psqrt(alt)
            if r is not None:
                return self.pabs(r)
        if self.raw is not None and src is not None:
            r = self._sqrt_by_factoring(src)
            if r is not None:
                return r
        # even powers of the monomial content: sqrt(m^2 q) = |m| sqrt(q)
        com: Optional[Dict[int, int]] = None
        for m in p:
            d = dict(m)
            com = d if com is None else {i: (min(e, d.get(i, 0))) for i, e in com.items()}
            for i, e in d.items():
                if i not in com and e < 0:
                    com[i] = e
        half = tuple(sorted((i, (e // 2)) for i, e in (com or {}).items() if e // 2 and self.atoms[i].kind not in ("inv",)))
        if half:
            dbl = tuple((i, -2 * e) for i, e in half)
            rest = {mono_mul(m, dbl): c for m, c in p.items()}
            return self.pmul(self.pabs({half: 1}), self.sqrt(rest))
        # content
        cont = None
        for c in p.values():
            c = abs(Fraction(c))
            cont = c if cont is None else Fraction(
                math.gcd(cont.numerator * c.denominator, c.numerator * cont.denominator),
                cont.denominator * c.denominator,
            )
        # keep only the square part of the content
        k = Fraction(1)
        q = p
        sq = self._rat_sqrt(cont)
        if sq is not None and cont != 1:
            k, q = sq, pscale(p, Fraction(1) / cont)
        q = {m: _norm(c) for m, c in q.items()}
        a = self.atom("sqrt", pkey(q), q, X.sqrt(self.to_expr(q)))
        if a.rule is None:
            a.rule = (2, q)
        return pscale(self._single(a), _norm(k))

    def _sqrt_by_rule(self, p: Poly) -> Optional[Poly]:
        """p = k^2 * m^2 * (right-hand side of v^2 -> rhs): the root is k |m v|."""
        if len(p) < 2 or len(p) > 12:
            return None
        cm, rest = self.content(p)
        if any(e % 2 for _, e in cm):
            return None
        lead = max(rest)
        for a in list(self.atoms):
            if a.kind != "var" or a.rule is None or a.rule[0] != 2 or len(a.rule[1]) != len(rest):
                continue
            rhs = a.rule[1]
            if lead not in rhs:
                continue
            k = Fraction(rest[lead]) / Fraction(rhs[lead])
            s = self._rat_sqrt(k)
            if s is None or any(Fraction(rest.get(m, 0)) != k * Fraction(c) for m, c in rhs.items()):
                continue
            r = pscale(self.pabs(self._single(a)), _norm(s))
            for i, e in cm:
                r = self.pmul(r, self.pabs({((i, e // 2),): 1}))
            return r
        return None

    def _swap_trig(self, p: Poly) -> Optional[Poly]:
        """rewrite cos^2 -> 1 - sin^2 (for perfect-square detection)."""
        cosids = {a.id: a.key for a in self.atoms if a.kind == "cos"}
        used = {i for m in p for i, e in m if i in cosids and e >= 2}
        if not used:
            return None
        r: Poly = {}
        for m, c in p.items():
            t: Poly = {ONE_M: c}
            for i, e in m:
                f: Poly
                if i in cosids and e >= 2:
                    s = self.atom("sin", cosids[i], None, None)
                    base = {ONE_M: 1, ((s.id, 2),): -1}
                    f = {ONE_M: 1}
                    for _ in range(e // 2):
                        f = self._plain_mul(f, base)
                    if e % 2:
                        f = self._plain_mul(f, {((i, 1),): 1})
                else:
                    f = {((i, e),): 1}
                t = self._plain_mul(t, f)
            r = padd(r, t)
        return r

    @staticmethod
    def _plain_mul(a: Poly, b: Poly) -> Poly:
        r: Poly = {}
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = mono_mul(m1, m2)
                v = r.get(m, 0) + c1 * c2
                if v:
                    r[m] = v
                else:
                    r.pop(m, None)
        return r

    def _psqrt(self, p: Poly) -> Optional[Poly]:
        """exact polynomial square root (plain polynomial ring, Laurent monomials)."""
        if len(p) == 1:
            (m, c), = p.items()
            s = self._rat_sqrt(c)
            if s is None or any(e % 2 for _, e in m):
                return None
            return {tuple((i, e // 2) for i, e in m): _norm(s)}
        if len(p) > 60:
            return None
        # Newton-like: order by a fixed monomial order (lex on exponent vectors)
        ids = sorted({i for m in p for i, _ in m})
        pos = {i: k for k, i in enumerate(ids)}

        def vec(m):
            v = [0] * len(ids)
            for i, e in m:
                v[pos[i]] = e
            return tuple(v)

        lead = max(p, key=vec)
        s = self._rat_sqrt(p[lead])
        if s is None or any(e % 2 for _, e in lead):
            return None
        q: Poly = {tuple((i, e // 2) for i, e in lead): _norm(s)}
        lm = next(iter(q))
        rem = padd(p, self._plain_mul(q, q), -1)
        for _ in range(40):
            if not rem:
                return q
            l = max(rem, key=vec)
            t = mono_mul(l, tuple((i, -e) for i, e in lm))
            tc = Fraction(rem[l]) / (2 * s)
            new: Poly = {t: _norm(tc)}
            rem = padd(rem, pscale(self._plain_mul(q, new), 2), -1)
            rem = padd(rem, self._plain_mul(new, new), -1)
            q = padd(q, new)
            if vec(t) >= vec(lm):
                return None
        return None

    def _sqrt_by_factoring(self, src: E) -> Optional[Poly]:
        import sympy

        try:
            rp = self.raw.nf(src)
            N, D = self.raw.clear(rp)
        except (TooBig, NotPoly):
            return None
        if len(N) > 400 or len(N) < 2 or len(D) > 60:
            return None
        ids = sorted({i for P in (N, D) for m in P for i, _ in m})
        syms = {i: sympy.Symbol(f"a{i}") for i in ids}

        def tosym(P):
            return sympy.Add(*[
                sympy.Rational(Fraction(c).numerator, Fraction(c).denominator)
                * sympy.Mul(*[syms[i] ** e for i, e in m])
                for m, c in P.items()
            ])

        back = {v: self.raw.atoms[k].expr for k, v in syms.items()}
        res = pconst(1)
        left: Poly = pconst(1)
        for P, inverse in ((N, False), (D, True)):
            if len(P) == 1 and ONE_M in P:
                cont, facs = Fraction(P[ONE_M]), []
            else:
                c0, facs = sympy.factor_list(tosym(P), *[syms[i] for i in ids])
                cont = Fraction(int(c0.p), int(c0.q))
            s = self._rat_sqrt(cont)
            if s is None:
                return None
            res = pscale(res, s if not inverse else 1 / s)
            for f, k in facs:
                ex = self._from_sympy(f, back)
                fp = self.nf(ex)
                if k % 2:
                    # odd factor: must reduce to something with a known root
                    if len(fp) == 1 and ONE_M in fp:
                        s = self._rat_sqrt(fp[ONE_M])
                        if s is None:
                            left = self.pmul(left, fp if not inverse else self.inv(fp))
                        else:
                            res = pscale(res, s if not inverse else 1 / s)
                    else:
                        left = self.pmul(left, fp if not inverse else self.inv(fp))
                if k >= 2:
                    g = self.pabs(self.ppow(fp, k // 2))
                    res = self.pmul(res, g if not inverse else self.inv(g))
        if left == pconst(1):
            return res
        base = self.nf(src)
        r = self._psqrt(left)
        if r is not None:
            return self.pmul(res, self.pabs(r))
        if left == base:
            return None
        return self.pmul(res, self.sqrt(left, None))

    def _from_sympy(self, f, back) -> E:
        p = f.as_poly(*f.free_symbols) if f.free_symbols else None
        if p is None:
            return X.const(Fraction(int(f.p), int(f.q)))
        s = X.ZERO
        for exps, c in p.terms():
            t = X.const(Fraction(int(c.p), int(c.q)))
            for g, e in zip(p.gens, exps):
                t = X.mul(t, X.power(back[g], e))
            s = X.add(s, t)
        return s

    # -- trig / exp / log ---------------------------------------------------
    def sincos(self, p: Poly) -> Tuple[Poly, Poly]:
        if not p:
            return {}, pconst(1)
        if len(p) > 1 and len(p) <= 4:
            items = sorted(p.items())
            s, c = self.sincos({items[0][0]: items[0][1]})
            for m, k in items[1:]:
                s2, c2 = self.sincos({m: k})
                s, c = (
                    padd(self.pmul(s, c2), self.pmul(c, s2)),
                    padd(self.pmul(c, c2), self.pmul(s, s2), -1),
                )
            return s, c
        lead = max(p)
        sg = 1
        if p[lead] < 0:
            p, sg = pscale(p, -1), -1
        if len(p) == 1 and self.pm1:
            (m, k), = p.items()
            pm = [i for i, e in m if i in self.pm1 and e % 2]
            if pm:
                s_, c_ = self.sincos({tuple((i, e) for i, e in m if i not in self.pm1): k})
                for i in pm:
                    s_ = self.pmul(s_, {((i, 1),): 1})
                return pscale(s_, sg), c_
        if len(p) == 1:
            (m, k), = p.items()
            if len(m) == 1 and m[0][1] == 1 and self.atoms[m[0][0]].kind == "atan2":
                if k == 1:
                    y, x = self.atoms[m[0][0]].data
                    r = self.sqrt(padd(self.pmul(x, x), self.pmul(y, y)))
                    ri = self.inv(r)
                    return pscale(self.pmul(y, ri), sg), self.pmul(x, ri)
            # integer multiples: expand
            if Fraction(k).denominator == 1 and 1 < k <= 4:
                s1, c1 = self.sincos({m: 1})
                s, c = s1, c1
                for _ in range(int(k) - 1):
                    s, c = (
                        padd(self.pmul(s, c1), self.pmul(c, s1)),
                        padd(self.pmul(c, c1), self.pmul(s, s1), -1),
                    )
                return pscale(s, sg), c
        ue = self.to_expr(p)
        key = pkey(p)
        sa = self.atom("sin", key, p, X.sin(ue))
        sa.expr = X.sin(ue)
        ca = self.atom("cos", key, p, X.cos(ue))
        if sa.rule is None:
            sa.rule = (2, {ONE_M: 1, ((ca.id, 2),): -1})
            if len(p) == 1:
                (m, k), = p.items()
                if k == 1 and len(m) == 1 and m[0][1] == 1:
                    rg = self.angle_range.get(self.atoms[m[0][0]].key)
                    if rg == "0pi":
                        sa.sign = "nonneg"
                    elif rg == "0pi_open":
                        sa.sign = "pos"
        return pscale(self._single(sa), sg), self._single(ca)

    def atan2(self, x: E) -> Poly:
        return self.atan2_poly(self.memo[x.args[0].id], self.memo[x.args[1].id], x)

    def atan2_poly(self, y: Poly, c: Poly, x: E) -> Poly:
        # atan2(s*y', x) = s*atan2(y', x) for s = +-1 unless y' = 0 and x < 0
        for i in self.pm1:
            if y and all((i, 1) in m for m in y):
                y2 = {tuple(f for f in m if f != (i, 1)): k for m, k in y.items()}
                r = self._atan2_known(y2, c)
                if r is not None and r[1]:
                    return self.pmul({((i, 1),): 1}, r[0])
        r = self._atan2_known(y, c)
        if r is not None:
            return r[0]
        if not y:
            s = self.psign_of(c)
            if s == 1:
                return {}
            if s == -1 and self.psign_of(c, strict=True) == -1:
                return self._single(self.var_atom("PI"))
        a = self.atom("atan2", (pkey(y), pkey(c)), (y, c), x)
        return self._single(a)

    def _atan2_known(self, y: Poly, c: Poly):
        """(value, angle is strictly below pi) when y, c are k*sin u, k*cos u."""
        # atan2(k sin u, k cos u) with declared u in (-pi, pi]
        for a in list(self.atoms):
            if a.kind != "sin" or a.data is None or len(a.data) != 1:
                continue
            (m, k), = a.data.items()
            if k != 1 or len(m) != 1 or m[0][1] != 1:
                continue
            base = self.atoms[m[0][0]]
            if self.angle_range.get(base.key) not in ("pi", "0pi", "0pi_open"):
                continue
            ca = self.by_key.get(("cos", a.key))
            if ca is None:
                continue
            # y*cos u - x*sin u == 0 and y sin u + x cos u > 0
            d = padd(self.pmul(y, self._single(ca)), self.pmul(c, self._single(a)), -1)
            if self.is_zero(d):
                s = padd(self.pmul(y, self._single(a)), self.pmul(c, self._single(ca)))
                if s and self.psign_of(s, strict=True) == 1:
                    bd = self.bounds.get(base.key)
                    below = self.angle_range[base.key] == "0pi_open" or (bd is not None and bd < Fraction(31415926, 10**7))
                    return self._single(base), below
        return None

    def pexp(self, p: Poly) -> Poly:
        if not p:
            return pconst(1)
        r = pconst(1)
        for m, k in sorted(p.items()):
            if len(m) == 1 and m[0][1] == 1 and self.atoms[m[0][0]].kind == "log" and Fraction(k).denominator == 1:
                q = self.atoms[m[0][0]].data
                f = self.ppow(q, abs(int(k)))
                r = self.pmul(r, f if k > 0 else self.inv(f))
                continue
            if m == ONE_M:
                key, e, n = pkey({m: Fraction(k)}), X.exp(X.const(k)), 1
            else:
                n = int(k) if Fraction(k).denominator == 1 else 1
                kk = 1 if Fraction(k).denominator == 1 else k
                key, e = pkey({m: kk}), X.exp(self.to_expr({m: kk}))
            a = self.atom("exp", key, None, e)
            a.sign = "pos"
            r = self.pmul(r, {((a.id, n),): 1})
        return r

    def plog(self, p: Poly) -> Poly:
        if len(p) == 1:
            (m, c), = p.items()
            if c == 1 and m and all(self.atoms[i].kind == "exp" for i, _ in m):
                r: Poly = {}
                for i, e in m:
                    r = padd(r, pscale(dict(self.atoms[i].key), e))
                return r
            if c == 1 and not m:
                return {}
        a = self.atom("log", pkey(p), p, X.log(self.to_expr(p)))
        return self._single(a)
