"""Discharging obligations: case split, normal forms, Taylor models, z3, refuter."""
from __future__ import annotations

import sys
import time
from fractions import Fraction
from typing import Dict, List, Optional

import numpy as np

sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")

from . import expr as X
from . import taylor
from .expr import E
from .poly import NF, NotPoly, TooBig


class Domain:
    """Inputs of a contract: parametrisation, side relations, samples."""

    N = 1200

    def __init__(self, seed=1):
        self.seed = seed
        self.sigma: Dict[E, E] = {}
        self.order: List[E] = []
        self.rules = []  # (var, exp, rhs)
        self.signs: Dict[str, str] = {}
        self.angle_range: Dict[str, str] = {}
        self.bounds: Dict[str, Fraction] = {}
        self.constraints: List[E] = []
        self.env: Dict[str, np.ndarray] = {}
        self.small: List[str] = []  # Taylor variables
        self.fracs: set = set()  # variables in [0, 1)
        self.env["PI"] = np.full(self.N, np.pi)

    def rng(self, name):
        import zlib

        return np.random.default_rng([self.seed, zlib.crc32(name.encode())])

    def make_nf(self) -> NF:
        nf = NF()
        for n, s in self.signs.items():
            nf.declare_sign(n, s)
        nf.angle_range = dict(self.angle_range)
        nf.bounds = dict(self.bounds)
        nf.fracs = self.fracs
        if nf.raw:
            nf.raw.fracs = self.fracs
        nf.declare_sign("PI", "pos")
        if nf.raw:
            nf.raw.angle_range = dict(self.angle_range)
        for v, e, rhs in self.rules:
            nf.add_rule(v, e, rhs)
        return nf

    def sub(self, exprs: List[E]) -> List[E]:
        if not self.sigma:
            return list(exprs)
        for _ in range(6):
            if not any(v in self.sigma for v in X.variables(exprs)):
                return exprs
            exprs = X.substitute(exprs, self.sigma)
        return exprs

    def full_env(self, exprs):
        env = {}
        for v in X.variables(exprs):
            if v.val not in self.env:
                r = self.rng(v.val)
                self.env[v.val] = (r.random(self.N) < 0.5) if v.op == "bvar" else r.normal(size=self.N)
            env[v.val] = self.env[v.val]
        return env


class Res:
    def __init__(self, name):
        self.name = name
        self.status = "proved"
        self.leaves = 0
        self.proved = 0
        self.methods: Dict[str, int] = {}
        self.note = ""
        self.witness: Optional[int] = None
        self.wall = 0.0
        self.side: List[str] = []

    def ok(self, how):
        self.proved += 1
        self.methods[how] = self.methods.get(how, 0) + 1


class Prover:
    MAXLEAVES = 600

    def __init__(self, dom: Domain, deadline=None):
        self.dom = dom
        self.nf = dom.make_nf()
        self.deadline = deadline
        self.solver_s = 0.0
        self._bmemo: Dict[int, E] = {}
        self._feas: Dict = {}
        self._cmemo: Dict = {}

    # -- booleans -----------------------------------------------------------
    def simp_atom(self, b: E) -> E:
        if b.op not in ("lt", "eq"):
            return b
        got = self._bmemo.get(b.id)
        if got is not None:
            return got
        r = b
        if not any(x.op == "ite" for x in X.postorder(b.args)):
            try:
                d = X.sub(b.args[1], b.args[0])
                p = self.nf.nf(d)
                if len(p) > 400:
                    raise TooBig()
                if not p:
                    r = X.TRUE if b.op == "eq" else X.FALSE
                elif len(p) == 1 and () in p:
                    v = p[()]
                    r = X.const(bool(v > 0)) if b.op == "lt" else X.FALSE
                elif b.op == "lt":
                    s = self.nf.psign_of(p)
                    if s == -1:
                        r = X.FALSE
                    elif s == 1:
                        # strictly positive when a positive constant term is present and all terms nonneg
                        c = p.get((), 0)
                        if c > 0:
                            q = dict(p)
                            q.pop(())
                            if self.nf.psign_of(q) == 1:
                                r = X.TRUE
                if r is b:
                    r = self._interval(b, p)
            except (TooBig, NotPoly, ZeroDivisionError, NotImplementedError):
                pass
        self._bmemo[b.id] = r
        return r

    def _interval(self, b, p):
        try:
            lo = hi = Fraction(0)
            for m, c in p.items():
                l, h = Fraction(1), Fraction(1)
                for i, e in m:
                    a = self.nf.atoms[i]
                    if a.kind in ("sin", "cos"):
                        al, ah = Fraction(-1), Fraction(1)
                        if a.sign in ("nonneg", "pos"):
                            al = Fraction(0)
                    elif a.kind == "var" and a.key == "PI":
                        al, ah = Fraction(314159265, 10**8), Fraction(314159266, 10**8)
                    elif a.kind == "var" and a.key in self.dom.bounds:
                        ah = Fraction(self.dom.bounds[a.key])
                        al = Fraction(0) if self.dom.signs.get(a.key) in ("pos", "nonneg") else -ah
                    else:
                        return b
                    if e < 0:
                        return b
                    for _ in range(e):
                        c4 = [l * al, l * ah, h * al, h * ah]
                        l, h = min(c4), max(c4)
                    if e % 2 == 0:
                        l = max(l, Fraction(0)) if len(m) == 1 else l
                c = Fraction(c)
                lo += min(c * l, c * h)
                hi += max(c * l, c * h)
            if b.op == "lt":
                if lo > 0:
                    return X.TRUE
                if hi <= 0:
                    return X.FALSE
            elif lo > 0 or hi < 0:
                return X.FALSE
        except Exception:
            pass
        return b

    def decider(self, ctx, b: E):
        """feasibility of (b, not b) under the current path (used by Ctx.decide)."""
        bs = self.dom.sub([b])[0]
        bs = self.simplify_bool(bs)
        if bs is X.TRUE:
            return True, False
        if bs is X.FALSE:
            return False, True
        fs = self.dom.sub(ctx.facts)
        t = not self.infeasible(fs + [bs], quick=True)
        f = not self.infeasible(fs + [X.bnot(bs)], quick=True)
        return t, f

    def simplify_bool(self, b: E) -> E:
        for _ in range(20):
            conds = [c for c in X.conditions([b])]
            m = {}
            for c in conds:
                s = self.simp_atom(c)
                if s is not c:
                    m[c] = s
                    break
            if not m:
                return b
            b = X.substitute([b], m)[0]
        return b

    # -- z3 -----------------------------------------------------------------
    def infeasible(self, facts: List[E], quick=False, timeout=None) -> bool:
        facts = [f for f in facts if f is not X.TRUE]
        if any(f is X.FALSE for f in facts):
            return True
        key = frozenset(f.id for f in facts)
        if key in self._feas:
            return self._feas[key]
        # sampling first: a witness means feasible
        try:
            env = self.dom.full_env(facts)
            ok = np.ones(self.dom.N, bool)
            for v in X.evaluate(facts, env):
                ok = ok & v
            if ok.any() and not any("!" in v.val for v in X.variables(facts)):
                self._feas[key] = False
                return False
        except Exception:
            pass
        r = self._taylor_unsat(facts) or self._z3_unsat(self._nf_facts(facts), timeout or (1500 if quick else 4000))
        self._feas[key] = r
        return r

    def _nf_facts(self, facts):
        """literals rewritten through their normal form (equivalent, usually simpler)."""
        out = []
        for f in facts:
            g = f.args[0] if f.op == "not" else f
            if g.op in ("lt", "eq") and not any(x.op == "ite" for x in X.postorder(g.args)):
                try:
                    p = self.nf.nf(X.sub(g.args[1], g.args[0]))
                    if len(p) <= 80 and all(e > 0 for m in p for _, e in m):
                        d = self.nf.to_expr(p)
                        g2 = X.lt(X.ZERO, d) if g.op == "lt" else X.eq(X.ZERO, d)
                        out.append(X.bnot(g2) if f.op == "not" else g2)
                        continue
                except (TooBig, NotPoly, ZeroDivisionError, NotImplementedError):
                    pass
            out.append(f)
        return out

    def _taylor_unsat(self, facts) -> bool:
        """a literal contradicted by a Taylor enclosure around a small variable."""
        for tname, T in self._smalls(facts):
            for f in facts:
                neg = f.op == "not"
                g = f.args[0] if neg else f
                if g.op != "lt" or any(x.op == "ite" for x in X.postorder(g.args)):
                    continue
                try:
                    p = self.nf.nf(X.sub(g.args[1], g.args[0]))
                    if len(p) > 60:
                        continue
                    c0 = Fraction(0)
                    for m, c in p.items():
                        if all(self.nf.atoms[i].kind == "cos" for i, _ in m):
                            c0 += Fraction(c)
                    q = dict(p)
                    q[()] = q.get((), 0) - c0
                    if not q[()]:
                        q.pop(())
                    b = taylor.taylor_bound(self.nf, q, tname, T, self.dom.bounds)
                except (TooBig, NotPoly, ZeroDivisionError, NotImplementedError):
                    continue
                if b is None:
                    continue
                # value of (rhs - lhs) lies in [c0 - b, c0 + b]
                if not neg and c0 + b <= 0:
                    return True
                if neg and c0 - b > 0:
                    return True
        return False

    def _z3_unsat(self, facts, timeout_ms) -> bool:
        import z3

        t0 = time.time()
        cons: List = []
        memo: Dict[int, object] = {}
        cnt = [0]

        def fr(tag):
            cnt[0] += 1
            return z3.Real(f"{tag}_{cnt[0]}")

        base = list(facts)
        vs = {v for v in X.variables(base)}
        base += [c for c in self.dom.constraints]
        trig = {}

        def tr(e: E):
            for x in X.postorder([e]):
                if x.id in memo:
                    continue
                a = [memo[y.id] for y in x.args]
                op = x.op
                if op == "c":
                    v = z3.RealVal(str(x.val))
                elif op == "bc":
                    v = z3.BoolVal(x.val)
                elif op == "var":
                    v = z3.ToReal(z3.Int(x.val)) if x.val in X.INTVARS else z3.Real(x.val)
                    s = self.dom.signs.get(x.val)
                    if s == "pos":
                        cons.append(v > 0)
                    elif s == "nonneg":
                        cons.append(v >= 0)
                    elif s == "nonpos":
                        cons.append(v <= 0)
                    if x.val in self.dom.bounds:
                        bd = z3.RealVal(str(self.dom.bounds[x.val]))
                        cons.append(v <= bd)
                        cons.append(v >= -bd)
                elif op == "bvar":
                    v = z3.Bool(x.val)
                elif op == "add":
                    v = a[0] + a[1]
                elif op == "neg":
                    v = -a[0]
                elif op == "mul":
                    v = a[0] * a[1]
                elif op == "div":
                    v = fr("q")
                    cons.append(z3.Implies(a[1] != 0, v * a[1] == a[0]))
                elif op == "sqrt":
                    v = fr("r")
                    cons.append(v >= 0)
                    cons.append(z3.Implies(a[0] >= 0, v * v == a[0]))
                elif op in ("sin", "cos"):
                    k = x.args[0].id
                    if k not in trig:
                        s, c = fr("s"), fr("c")
                        u = a[0]
                        trig[k] = (s, c)
                        cons.append(s * s + c * c == 1)
                        cons.append(c >= 1 - u * u / 2)
                        cons.append(c <= 1 - u * u / 2 + u * u * u * u / 24)
                        cons.append(z3.Implies(u >= 0, z3.And(s <= u, s >= u - u * u * u / 6)))
                        cons.append(z3.Implies(u <= 0, z3.And(s >= u, s <= u - u * u * u / 6)))
                        cons.append(z3.Implies(z3.And(u >= 0, u <= z3.RealVal("3.14159265358979")), s >= 0))
                    v = trig[k][0 if op == "sin" else 1]
                elif op == "abs":
                    v = z3.If(a[0] >= 0, a[0], -a[0])
                elif op == "sign":
                    v = z3.If(a[0] > 0, z3.RealVal(1), z3.If(a[0] < 0, z3.RealVal(-1), z3.RealVal(0)))
                elif op == "exp":
                    v = fr("e")
                    cons.append(v > 0)
                    cons.append(v >= 1 + a[0])
                    cons.append(z3.Implies(a[0] <= 0, v <= 1))
                elif op == "floor":
                    v = z3.ToReal(z3.ToInt(a[0]))
                elif op == "atan2":
                    v = fr("at")
                    cons.append(v <= z3.RealVal("3.1415926536"))
                    cons.append(v >= z3.RealVal("-3.1415926536"))
                    cons.append(z3.Implies(a[0] > 0, v > 0))
                    cons.append(z3.Implies(a[0] < 0, v < 0))
                    cons.append(z3.Implies(z3.And(a[0] == 0, a[1] > 0), v == 0))
                elif op == "ite":
                    v = z3.If(a[0], a[1], a[2])
                elif op == "lt":
                    v = a[0] < a[1]
                elif op == "eq":
                    v = a[0] == a[1]
                elif op == "not":
                    v = z3.Not(a[0])
                elif op == "and":
                    v = z3.And(a[0], a[1])
                else:
                    v = z3.Bool(f"b{x.id}") if x.isbool else z3.Real(f"f{x.id}")
                memo[x.id] = v
            return memo[e.id]

        s = z3.Solver()
        s.set("timeout", int(timeout_ms))
        try:
            zs = [tr(f) for f in facts]
            rel = {v.val for v in X.variables(facts)}
            grow = True
            dc = list(self.dom.constraints)
            while grow:
                grow = False
                for c in list(dc):
                    vv = {v.val for v in X.variables([c])}
                    if vv & rel:
                        zs.append(tr(c))
                        dc.remove(c)
                        rel |= vv
                        grow = True
            s.add(*zs)
            s.add(*cons)
            r = s.check()
        except z3.Z3Exception:
            return False
        finally:
            self.solver_s += time.time() - t0
        return r == z3.unsat

    # -- case split -----------------------------------------------------------
    def leaves(self, exprs: List[E], facts: List[E], depth=0):
        """yield (exprs, facts) with no conditions left in exprs."""
        stack = [(exprs, facts)]
        n = 0
        while stack:
            ex, fs = stack.pop()
            conds = X.conditions(ex)
            if not conds:
                n += 1
                if n > self.MAXLEAVES:
                    raise TooBig()
                yield ex, fs
                continue
            c = conds[0]
            if self.deadline and time.time() > self.deadline:
                raise TimeoutError()
            s = self.simp_atom(c)
            if s is X.TRUE or s is X.FALSE:
                stack.append((X.substitute(ex, {c: s}), fs))
                continue
            cc = self._canon(c)
            if cc is not None:
                hit = None
                for f in fs:
                    ng = f.op == "not"
                    if self._canon(f.args[0] if ng else f) == cc:
                        hit = X.FALSE if ng else X.TRUE
                        break
                if hit is not None:
                    stack.append((X.substitute(ex, {c: hit}), fs))
                    continue
            if c in fs or X.bnot(c) in fs:
                stack.append((X.substitute(ex, {c: X.TRUE if c in fs else X.FALSE}), fs))
                continue
            for val in (X.FALSE, X.TRUE):
                lit = c if val is X.TRUE else X.bnot(c)
                f2 = [self.simplify_bool(f) for f in X.substitute(fs, {c: val})] if fs else []
                if any(f is X.FALSE for f in f2):
                    continue
                f2 = [f for f in f2 if f is not X.TRUE] + [lit]
                if self.infeasible(f2, quick=True):
                    continue
                stack.append((X.substitute(ex, {c: val}), f2))

    def _canon(self, c: E):
        """key of a comparison: its operator and the normal form of its two sides."""
        if c.op not in ("lt", "eq"):
            return None
        got = self._cmemo.get(c.id, 0)
        if got != 0:
            return got
        r = None
        if not any(x.op == "ite" for x in X.postorder(c.args)):
            try:
                p = self.nf.nf(X.sub(c.args[1], c.args[0]))
                if len(p) <= 200:
                    r = (c.op, tuple(sorted(p.items())))
            except (TooBig, NotPoly, ZeroDivisionError, NotImplementedError):
                pass
        self._cmemo[c.id] = r
        return r

    # -- obligations ------------------------------------------------------------
    def prove_eq(self, name, diffs: List[E], facts: List[E], tol=0.0, scale: Optional[List[E]] = None) -> Res:
        t0 = time.time()
        res = Res(name)
        try:
            diffs = [d for d in self.dom.sub(diffs)]
            facts = [self.simplify_bool(f) for f in self.dom.sub(facts)]
            facts = [f for f in facts if f is not X.TRUE]
            if any(f is X.FALSE for f in facts):
                res.ok("infeasible-path")
                return res
            for ex, fs in self.leaves(diffs, facts):
                res.leaves += 1
                self._leaf_eq(res, ex, fs, tol)
                if res.status == "refuted":
                    break
        except TooBig:
            res.status, res.note = "unknown", "normal form too large"
        except (NotPoly, NotImplementedError) as e:
            res.status, res.note = "unknown", f"{type(e).__name__}: {e}"
        except TimeoutError:
            res.status, res.note = "unknown", "time limit"
        except RecursionError:
            res.status, res.note = "unknown", "recursion"
        res.wall = time.time() - t0
        return res

    def _mask(self, fs):
        env = self.dom.full_env(fs)
        m = np.ones(self.dom.N, bool)
        for v in X.evaluate(fs, env):
            m = m & v
        return m

    def _leaf_eq(self, res: Res, ex, fs, tol):
        rest = []
        for d in ex:
            if d is X.ZERO:
                continue
            try:
                p = self.nf.nf(d)
                z = self.nf.is_zero(p)
            except (TooBig, NotPoly) as e:
                rest.append((d, None, f"{type(e).__name__} {e}"))
                continue
            if not z:
                rest.append((d, p, ""))
        if not rest:
            res.ok("normal-form")
            return
        # equalities of the case solved for a variable
        m = {}
        for f in fs:
            if f.op == "eq":
                for a, b in (f.args, f.args[::-1]):
                    if a.op == "var" and a not in m and a not in X.variables([b]):
                        m[a] = X.substitute([b], m)[0] if m else b
                        break
        if m:
            new = []
            for d, p, why in rest:
                try:
                    if self.nf.is_zero(self.nf.nf(X.substitute([d], m)[0])):
                        continue
                except (TooBig, NotPoly, ZeroDivisionError):
                    pass
                new.append((d, p, why))
            rest = new
            if not rest:
                res.ok("normal-form with case equalities")
                return
        # |a| and sign(a) whose argument has a sign in this case
        m = {}
        for x in X.postorder([d for d, _, _ in rest]):
            if x.op in ("abs", "sign") and len(m) < 8:
                a = x.args[0]
                if self.infeasible(fs + [X.lt(a, X.ZERO)], quick=True):
                    if x.op == "abs":
                        m[x] = a
                    elif self.infeasible(fs + [X.eq(a, X.ZERO)], quick=True):
                        m[x] = X.ONE
                elif self.infeasible(fs + [X.lt(X.ZERO, a)], quick=True):
                    if x.op == "abs":
                        m[x] = X.neg(a)
                    elif self.infeasible(fs + [X.eq(a, X.ZERO)], quick=True):
                        m[x] = X.neg(X.ONE)
        if m:
            new = []
            for d, p, why in rest:
                d2 = X.substitute([d], m)[0]
                try:
                    p = self.nf.nf(d2)
                    if self.nf.is_zero(p):
                        continue
                    d = d2
                except (TooBig, NotPoly, ZeroDivisionError):
                    pass
                new.append((d, p, why))
            rest = new
            if not rest:
                res.ok("normal-form with case signs")
                return
        # numeric refutation
        try:
            mask = self._mask(fs)
            idx = np.nonzero(mask)[0]
        except Exception:
            idx = np.array([], int)
        if len(idx):
            ds = [d for d, _, _ in rest]
            env = {k: v[idx] for k, v in self.dom.full_env(ds).items()}
            vals = X.evaluate(ds, env)
            for d, v in zip(ds, vals):
                v = np.broadcast_to(v, (len(idx),))
                bad = np.nonzero(~(np.abs(v) <= max(tol * 1.05, 1e-7)))[0]
                for b in bad[:6]:
                    i = int(idx[b])
                    val = mp_eval(d, {k: w[i] for k, w in self.dom.full_env([d]).items()})
                    if val is None:
                        res.status, res.note = "refuted", "undefined value (nan)"
                        res.witness = i
                        return
                    if abs(val) > max(tol * 1.02, 1e-12):
                        res.status, res.note = "refuted", f"|lhs-rhs| = {float(abs(val)):.3e} > {tol:g}"
                        res.witness = i
                        return
        # rigorous bound
        if tol:
            for tname, T in self._smalls(fs):
                good = True
                for d, p, why in rest:
                    if p is None:
                        good = False
                        break
                    for K in (12, 18, 24):
                        b = taylor.taylor_bound(self.nf, p, tname, T, self.dom.bounds, K)
                        if b is not None and b <= Fraction(tol):
                            break
                    if b is None or b > Fraction(tol):
                        good = False
                        res.note = f"taylor bound {None if b is None else float(b)} vs {tol} T={float(T):.3g} case: " + " & ".join(X.show(f, 6) for f in fs)[:600]
                        break
                    res.bound = max(getattr(res, "bound", 0.0), float(b))
                if good:
                    res.tol = tol
                    res.ok("taylor-model")
                    return
        if self.infeasible(fs):
            res.ok("infeasible-case")
            return
        res.status = "unknown"
        import os
        if os.environ.get("DV_DEBUG"):
            for d, p, w in rest[:2]:
                print(res.name, "RESIDUE", X.show(self.nf.to_expr(p), 30)[:1500] if p is not None else w)
        if not res.note:
            res.note = (rest[0][2] or ("not reducible to 0 (%d samples agree)" % len(idx))) + " case: " + " & ".join(X.show(f, 6) for f in fs)[:600]

    def _smalls(self, fs):
        out = []
        for v in self.dom.small:
            a = X.var(v)
            T = None
            for f in fs:
                # t < T  (or monotone variants t*t < T)
                if f.op == "lt" and f.args[1].op == "c":
                    try:
                        p = self.nf.nf(f.args[0])
                    except Exception:
                        continue
                    i = self.nf.var_atom(v).id
                    if p == {((i, 1),): 1}:
                        c = f.args[1].val
                        T = c if T is None else min(T, c)
                    elif p == {((i, 2),): 1}:
                        c = Fraction(float(f.args[1].val) ** 0.5 * (1 + 1e-12))
                        T = c if T is None else min(T, c)
            if T is not None:
                out.append((v, Fraction(T)))
        return out

    def prove_true(self, name, bs: List[E], facts: List[E]) -> Res:
        t0 = time.time()
        res = Res(name)
        try:
            bs = [self.simplify_bool(b) for b in self.dom.sub(bs)]
            facts = [self.simplify_bool(f) for f in self.dom.sub(facts)]
            facts = [f for f in facts if f is not X.TRUE]
            if any(f is X.FALSE for f in facts):
                res.ok("infeasible-path")
                return res
            for b in bs:
                res.leaves += 1
                if b is X.TRUE:
                    res.ok("normal-form")
                    continue
                neg = X.bnot(b)
                try:
                    m = self._mask(facts + [neg])
                    for i in np.nonzero(m)[0][:3]:
                        res.status, res.witness, res.note = "refuted", int(i), "sampled counterexample"
                        return res
                except Exception as e:
                    pass
                if self.infeasible(facts + [neg], timeout=8000):
                    res.ok("z3")
                else:
                    res.status, res.note = "unknown", "z3 did not discharge"
        except (TooBig, NotPoly, NotImplementedError) as e:
            res.status, res.note = "unknown", f"{type(e).__name__}: {e}"
        res.wall = time.time() - t0
        return res


def mp_eval(e: E, env, dps=40):
    """High-precision evaluation at a point; None when undefined."""
    import mpmath as mp

    with mp.workdps(dps):
        vals = {}
        try:
            for x in X.postorder([e]):
                a = [vals[y.id] for y in x.args]
                op = x.op
                if any(v is None for v in a) and op != "ite":
                    vals[x.id] = None
                    continue
                if op == "c":
                    v = mp.mpf(x.val.numerator) / x.val.denominator
                elif op == "bc":
                    v = x.val
                elif op in ("var",):
                    v = mp.mpf(float(env[x.val]))
                elif op == "bvar":
                    v = bool(env[x.val])
                elif op == "add":
                    v = a[0] + a[1]
                elif op == "neg":
                    v = -a[0]
                elif op == "mul":
                    v = a[0] * a[1]
                elif op == "div":
                    v = None if a[1] == 0 else a[0] / a[1]
                elif op == "sqrt":
                    v = mp.sqrt(a[0]) if a[0] >= 0 else (mp.mpf(0) if a[0] > -1e-20 else None)
                elif op == "sin":
                    v = mp.sin(a[0])
                elif op == "cos":
                    v = mp.cos(a[0])
                elif op == "atan2":
                    v = mp.atan2(a[0], a[1]) if (a[0] or a[1]) else mp.mpf(0)
                elif op == "abs":
                    v = abs(a[0])
                elif op == "sign":
                    v = mp.sign(a[0])
                elif op == "floor":
                    v = mp.floor(a[0])
                elif op == "exp":
                    v = mp.exp(a[0])
                elif op == "log":
                    v = mp.log(a[0]) if a[0] > 0 else None
                elif op == "ite":
                    v = None if a[0] is None else (a[1] if a[0] else a[2])
                elif op == "lt":
                    v = a[0] < a[1]
                elif op == "eq":
                    v = a[0] == a[1]
                elif op == "not":
                    v = not a[0]
                elif op == "and":
                    v = a[0] and a[1]
                elif op == "fn":
                    name, idx = x.val
                    if name == "pow":
                        v = a[0] ** a[1]
                    else:
                        v = mp.mpf(float(X.FN_NUM[name](idx, *[np.array(float(z)) for z in a])))
                else:
                    return None
                vals[x.id] = v
            return vals[e.id]
        except Exception:
            return mp.mpf(0)
