"""Contract kit: the same contract text runs symbolically (all inputs, any
batch size) and concretely (bounded replay on the real code)."""
from __future__ import annotations

import contextlib
import math
from fractions import Fraction
from typing import Callable, List, Optional

import numpy as np
import torch
from torch.utils._python_dispatch import _disable_current_modes

from . import expr as X
from .expr import E
from .prove import Domain
from .symt import BATCH, Ctx, LinFacts, SymTensor, Unsupported, data, fresh_tensor, sym, ctx, obj

PI = math.pi


class Fail(Exception):
    """A contract clause that is false on the concrete run."""

    def __init__(self, name, msg):
        super().__init__(f"{name}: {msg}")
        self.ob = name
        self.msg = msg


class Kit:
    symbolic = False

    def __init__(self, dom: Domain, dtype=torch.float64):
        self.dom = dom
        self.dtype = dtype
        self.nominal = dtype  # the dtype whose branch thresholds are in force
        self.inputs = {}

    @contextlib.contextmanager
    def explicit_linalg(self, solves=False):
        """expand Cholesky factorisations (and solves) into arithmetic."""
        old = LinFacts.explicit, LinFacts.solved
        LinFacts.explicit, LinFacts.solved = True, solves
        try:
            yield
        finally:
            LinFacts.explicit, LinFacts.solved = old

    @contextlib.contextmanager
    def batch_sums(self):
        """allow sums over the generic batch (symbolic side: an uninterpreted value whose
        reverse-mode derivative autograd knows)."""
        old, LinFacts.batch_sums = LinFacts.batch_sums, True
        try:
            yield
        finally:
            LinFacts.batch_sums = old

    def sel(self, d):
        return d[self.nominal]

    @property
    def pi(self):
        """the number pi (exact on the symbolic side)."""
        return torch.tensor(PI, dtype=self.dtype)

    # ---- domains ------------------------------------------------------------
    def _angle_samples(self, name, hi):
        r = self.dom.rng(name + "/t")
        N = self.dom.N
        eps = 4e-3 if self.nominal == torch.float64 else 8e-3
        k = r.integers(0, 20, N)
        t = r.uniform(0.05, min(hi, PI) - 0.05, N)
        t = np.where(k < 3, 10 ** r.uniform(-8, math.log10(eps), N), t)
        t = np.where(k == 3, 0.0, t)
        t = np.where(k == 4, eps * 10 ** r.uniform(0.15, 1.2, N), t)
        if hi <= PI + 1e-9:
            t = np.where(k == 5, hi - 10 ** r.uniform(-2.5, -1, N), t)
        else:
            t = np.where((k == 5) | (k == 6), r.uniform(PI, hi, N), t)
        return t

    def _unit_samples(self, name, n):
        r = self.dom.rng(name + "/n")
        v = r.normal(size=(self.dom.N, n))
        k = r.integers(0, 8, self.dom.N)
        ax = np.eye(n)[r.integers(0, n, self.dom.N)] * np.sign(r.normal(size=(self.dom.N, 1)))
        v = np.where((k == 0)[:, None], ax, v)
        v = v / np.linalg.norm(v, axis=1, keepdims=True)
        return v

    def _declare(self, vname, samples, sign=None, bound=None):
        d = self.dom
        d.env[vname] = samples
        if sign:
            d.signs[vname] = sign
        if bound is not None:
            d.bounds[vname] = Fraction(bound)

    def unit(self, base, n):
        """declare unit-vector parameters base0..; returns exprs."""
        s = self._unit_samples(base, n)
        vs = [X.var(f"{base}{i}") for i in range(n)]
        for i in range(n):
            self._declare(f"{base}{i}", s[:, i], bound=1)
        if (vs[0], 2) not in [(a, b) for a, b, _ in self.dom.rules]:
            rhs = X.ONE
            tot = X.mul(vs[0], vs[0])
            for v in vs[1:]:
                rhs = X.sub(rhs, X.mul(v, v))
                tot = X.add(tot, X.mul(v, v))
            self.dom.rules.append((vs[0], 2, rhs))
            self.dom.constraints.append(X.eq(tot, X.ONE))
        return vs

    def angle(self, base, hi=PI, zero=True):
        v = X.var(base)
        s = self._angle_samples(base, hi)
        if not zero:
            s = np.where(s <= 0, 0.7, s)
        self._declare(base, s, sign="nonneg" if zero else "pos", bound=Fraction(hi) if hi <= 10 else None)
        self.dom.angle_range[base] = "0pi" if hi <= PI + 1e-9 else "any"
        if base not in self.dom.small:
            self.dom.small.append(base)
        return v

    # ---- tensors ------------------------------------------------------------
    def _emit(self, name, exprs: np.ndarray, batched=True, dtype=None):
        """tensor input `name` whose entries are given by parameter expressions."""
        raise NotImplementedError

    def real(self, name, *shape, scale=1.0, batched=True, bound=None, dtype=None):
        r = self.dom.rng(name)
        a = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            vn = name + "".join(f"_{j}" for j in i)
            s = r.normal(size=self.dom.N) * scale
            if bound is not None:
                s = np.clip(s, -float(bound), float(bound))
            self._declare(vn, s, bound=bound)
            a[i] = X.var(vn)
        return self._emit(name, a, batched, dtype)

    def pos(self, name, *shape, lo=0.2, hi=3.0, batched=True, sign="pos", dtype=None):
        r = self.dom.rng(name)
        a = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            vn = name + "".join(f"_{j}" for j in i)
            self._declare(vn, np.exp(r.uniform(math.log(lo), math.log(hi), self.dom.N)), sign=sign)
            a[i] = X.var(vn)
        return self._emit(name, a, batched, dtype)

    def integer(self, name, lo, hi, batched=True):
        """any integer (sampled between lo and hi), shape (B, 1)."""
        X.INTVARS.add(name)
        self._declare(name, self.dom.rng(name).integers(lo, hi + 1, self.dom.N).astype(float))
        return self._emit(name, np.array([X.var(name)], dtype=object), batched)

    def frac(self, name):
        """any real number in [0, 1), shape (B, 1)."""
        self.dom.fracs.add(name)
        self._declare(name, self.dom.rng(name).uniform(0.03, 0.97, self.dom.N), sign="nonneg", bound=1)
        self.dom.constraints.append(X.lt(X.var(name), X.ONE))
        return self._emit(name, np.array([X.var(name)], dtype=object))

    def size(self, name, n):
        """any array extent >= 1 (a number on the symbolic side); n concretely."""
        return n

    def resolve(self, t):
        return t

    def given(self, name, exprs, samples: dict, batched=True, signs=None, bounds=None, dtype=None):
        for k, v in samples.items():
            self._declare(k, v, sign=(signs or {}).get(k), bound=(bounds or {}).get(k))
        a = np.empty(np.shape(exprs), dtype=object)
        src = np.asarray(exprs, dtype=object)
        for i in np.ndindex(a.shape):
            a[i] = X.lift(src[i])
        return self._emit(name, a, batched, dtype)

    def aa(self, name, hi=2 * PI - 0.1, zero=True, batched=True):
        """any vector of R^3, written t*n with t>=0 and |n|=1."""
        t = self.angle(name + "_t", hi, zero)
        n = self.unit(name + "_n", 3)
        return self._emit(name, np.array([X.mul(t, x) for x in n], dtype=object), batched)

    def aa_parts(self, name, hi=2 * PI - 0.1, zero=True):
        """any rotation vector w = t*n with its unit axis n (B,3) and angle t (B,)."""
        t = self.angle(name + "_t", hi, zero)
        n = self.unit(name + "_n", 3)
        w = self._emit(name, np.array([X.mul(t, x) for x in n], dtype=object))
        return w, self._emit(name + "_axis", np.array(n, dtype=object)), self._emit(name + "_ang", np.array([t], dtype=object))[:, 0]

    def vec_unit(self, name, n):
        """any unit vector of R^n."""
        return self._emit(name, np.array(self.unit(name + "_u", n), dtype=object))

    def _signed(self, name, hi, zero=True):
        """any real angle, written s*t with t >= 0 and s*s = 1."""
        t = self.angle(name + "_t", hi, zero)
        s = X.var(name + "_s")
        r = self.dom.rng(name + "/s")
        self._declare(name + "_s", np.where(r.random(self.dom.N) < 0.5, -1.0, 1.0), bound=1)
        if not any(v is s for v, _, _ in self.dom.rules):
            self.dom.rules.append((s, 2, X.ONE))
            self.dom.constraints.append(X.eq(X.mul(s, s), X.ONE))
        return X.mul(s, t)

    def signed_angle(self, name, hi=2 * PI - 0.1, zero=True):
        return self._emit(name, np.array([self._signed(name, hi, zero)], dtype=object))

    def se2_tangent(self, name, hi=2 * PI - 0.1, zero=True):
        a = self._signed(name, hi, zero)
        r = self.dom.rng(name)
        v = []
        for i in range(2):
            self._declare(f"{name}_v{i}", np.clip(r.normal(size=self.dom.N), -3, 3), bound=3)
            v.append(X.var(f"{name}_v{i}"))
        return self._emit(name, np.array(v + [a], dtype=object))

    def se3_tangent(self, name, hi=2 * PI - 0.1, zero=True):
        t = self.angle(name + "_t", hi, zero)
        n = self.unit(name + "_n", 3)
        r = self.dom.rng(name)
        v = []
        for i in range(3):
            self._declare(f"{name}_v{i}", np.clip(r.normal(size=self.dom.N), -3, 3), bound=3)
            v.append(X.var(f"{name}_v{i}"))
        return self._emit(name, np.array(v + [X.mul(t, x) for x in n], dtype=object))

    @staticmethod
    def quat_to_R(q):
        w, x, y, z = q
        two = X.const(2)

        def m(a, b):
            return X.mul(a, b)

        return np.array([
            [X.sub(X.ONE, X.mul(two, X.add(m(y, y), m(z, z)))), X.mul(two, X.sub(m(x, y), m(w, z))), X.mul(two, X.add(m(x, z), m(w, y)))],
            [X.mul(two, X.add(m(x, y), m(w, z))), X.sub(X.ONE, X.mul(two, X.add(m(x, x), m(z, z)))), X.mul(two, X.sub(m(y, z), m(w, x)))],
            [X.mul(two, X.sub(m(x, z), m(w, y))), X.mul(two, X.add(m(y, z), m(w, x))), X.sub(X.ONE, X.mul(two, X.add(m(x, x), m(y, y))))],
        ], dtype=object)

    def quat(self, name):
        return self._emit(name, np.array(self.unit(name + "_q", 4), dtype=object))

    def rot(self, name, batched=True):
        """any rotation matrix, through the unit quaternion double cover."""
        return self._emit(name, self.quat_to_R(self.unit(name + "_q", 4)), batched)

    def open_angle(self, name):
        """angle in the open interval (0, pi)."""
        t = self.angle(name, PI, zero=False)
        s = self.dom.env[name]
        self.dom.env[name] = np.where(s >= PI, 0.7, s)
        self.dom.angle_range[name] = "0pi_open"
        return t

    def rot_aa(self, name):
        """any rotation by an angle in (0, pi), with its axis-angle coordinates."""
        t = self.open_angle(name + "_t")
        n = self.unit(name + "_n", 3)
        return self._emit(name, self.rodrigues(t, n)), self._emit(name + "_axis", np.array(n, dtype=object)), self._emit(name + "_ang", np.array([t], dtype=object))

    @staticmethod
    def rodrigues(t, n):
        c, s = X.cos(t), X.sin(t)
        oc = X.sub(X.ONE, c)
        K = [[X.ZERO, X.neg(n[2]), n[1]], [n[2], X.ZERO, X.neg(n[0])], [X.neg(n[1]), n[0], X.ZERO]]
        R = np.empty((3, 3), dtype=object)
        for i in range(3):
            for j in range(3):
                R[i, j] = X.add(X.add(X.mul(oc, X.mul(n[i], n[j])), X.mul(s, K[i][j])), c if i == j else X.ZERO)
        return R

    def pose3(self, name, batched=True):
        R = self.quat_to_R(self.unit(name + "_q", 4))
        r = self.dom.rng(name)
        t = []
        for i in range(3):
            self._declare(f"{name}_p{i}", np.clip(r.normal(size=self.dom.N), -3, 3), bound=3)
            t.append(X.var(f"{name}_p{i}"))
        return self._emit(name, np.concatenate([R, np.array(t, dtype=object)[:, None]], axis=1), batched)

    def so2(self, name, batched=True):
        return self._emit(name, np.array(self.unit(name + "_c", 2), dtype=object), batched)

    def pose2(self, name, batched=True):
        c = self.unit(name + "_c", 2)
        r = self.dom.rng(name)
        t = []
        for i in range(2):
            self._declare(f"{name}_p{i}", np.clip(r.normal(size=self.dom.N), -3, 3), bound=3)
            t.append(X.var(f"{name}_p{i}"))
        return self._emit(name, np.array(t + c, dtype=object), batched)


class _Opaque:
    """one call of a function replaced by its contract (uninterpreted, congruent)."""

    def __init__(self, name, args, outs, tangent):
        self.name, self.args, self.outs, self.tangent = name, args, outs, tangent

    def push(self, kit, seeds):
        flat = [X.num(e) for t in self.args for e in data(t).reshape(-1)]
        v = X.jvp(flat, seeds)
        if all(e is X.ZERO for e in v):
            return
        if self.tangent is None:
            raise Unsupported(f"derivative of opaque {self.name}")
        vel, at = [], 0
        for t in self.args:
            o = np.empty(data(t).size, dtype=object)
            o[:] = v[at: at + o.size]
            at += o.size
            vel.append(SymTensor(o.reshape(data(t).shape), t.shape, t.dtype))
        for t, d in zip(self.outs, self.tangent(self.args, vel, self.outs)):
            if d is not None:
                for e, de in zip(data(t).reshape(-1), np.broadcast_to(data(d), data(t).shape).reshape(-1)):
                    if e.op == "var":
                        seeds[e] = de


class SymKit(Kit):
    symbolic = True

    def opaque(self, name, fn, args, tangent=None):
        """replace fn(*args) by fresh outputs: equal arguments (modulo the theory
        of the prover) give equal outputs; nothing else is assumed here."""
        big = [t for t in args if t.shape[0] != 1] or args
        lead, mask = big[0].shape[0], next((t._mask for t in big if t._mask is not None), None)
        rows = max(data(t).shape[0] for t in args)
        if rows > 1:  # several blocks of batch elements: one call per block
            if mask is not None or any(data(t).shape[0] not in (1, rows) for t in args):
                raise Unsupported("opaque call on blocks")
            cut = lambda t, i: SymTensor(data(t)[i: i + 1], (lead // rows,) + tuple(t.shape[1:]), t.dtype) if data(t).shape[0] > 1 else t
            parts = [self.opaque(name, fn, [cut(t, i) for t in args], tangent) for i in range(rows)]
            return [SymTensor(np.concatenate([data(p[j]) for p in parts]), (lead,) + tuple(parts[0][j].shape[1:]), args[0].dtype) for j in range(len(parts[0]))]
        back = lambda outs: [SymTensor(data(o), (lead,) + tuple(o.shape[1:]), o.dtype, **({} if mask is None else dict(mask=mask))) for o in outs]
        d = self.dom
        flat = d.sub([X.num(e) for t in args for e in data(t).reshape(-1)])
        shp = [tuple(t.shape[1:]) for t in args]
        env = d.full_env(flat)
        num = [np.broadcast_to(np.asarray(v, dtype=float), (d.N,)) for v in X.evaluate(flat, env)]
        num = np.stack(num) if num else np.zeros((0, d.N))
        for nm, sh, nu, fl, rec in self._memo:
            if nm != name or sh != shp or not np.allclose(nu, num, rtol=1e-7, atol=1e-9, equal_nan=True):
                continue
            nf = d.make_nf()
            try:
                same = all(p is q or not nf.nf(X.sub(p, q)) for p, q in zip(fl, flat))
            except Exception:
                same = False
            if same:
                r = _Opaque(name, args, rec.outs, tangent)
                self._opq.append(r)
                return back(rec.outs)
        with _disable_current_modes():
            real, at = [], 0
            for t in args:
                n = data(t).size
                real.append(torch.tensor(num[at: at + n].T.reshape((d.N,) + tuple(data(t).shape[1:])).copy(), dtype=torch.float64))
                at += n
            ys = [y.detach().double().numpy() for y in fn(*real)]
        outs = []
        for yn in ys:
            a = np.empty((1,) + yn.shape[1:], dtype=object)
            for i in np.ndindex(yn.shape[1:]):
                v = X.fresh(name)
                d.env[v.val] = yn[(slice(None),) + i]
                a[(0,) + i] = v
            outs.append(SymTensor(a, (self.B,) + yn.shape[1:], args[0].dtype))
        rec = _Opaque(name, args, outs, tangent)
        self._memo.append((name, shp, num, flat, rec))
        self._opq.append(rec)
        return back(outs)

    def size(self, name, n):
        X.INTVARS.add(name)
        self._declare(name, np.full(self.dom.N, float(n)), sign="pos")
        self.dom.constraints.append(X.le(X.ONE, X.var(name)))
        return SymTensor(obj(X.var(name)), (), self.dtype)

    def resolve(self, t):
        a = data(t)
        r = np.empty(a.shape, dtype=object)
        for i in np.ndindex(a.shape):
            r[i] = ctx().resolve(a[i])
        return SymTensor(r, t.shape, t.dtype)

    def __init__(self, dom, dtype=torch.float64):
        super().__init__(dom, dtype)
        self._memo, self._opq = [], []
        self.obs: List = []
        self.B = BATCH
        self.notes: List[str] = []

    def _emit(self, name, exprs, batched=True, dtype=None):
        if name in self.inputs:
            return self.inputs[name]
        a = np.empty(exprs.shape, dtype=object)
        for i in np.ndindex(exprs.shape):
            e = exprs[i]
            if e.op == "c":
                a[i] = e
                continue
            v = X.var(name + "[" + ",".join(map(str, i)) + "]")
            if e is not v:
                self.dom.sigma[v] = e
            a[i] = v
        t = SymTensor(a[None] if batched else a, ((self.B,) if batched else ()) + exprs.shape, dtype or self.dtype)
        self.inputs[name] = t
        return t

    @property
    def pi(self):
        return SymTensor(obj(X.var("PI")), (), self.dtype)

    # ---- obligations ----------------------------------------------------------
    def _arr(self, x):
        if isinstance(x, torch.Tensor):
            return data(x)
        return obj(X.const(x))

    def eq(self, name, a, b, tol=0.0, ctol=None):
        if isinstance(a, torch.Tensor) and isinstance(b, torch.Tensor):
            self.same(name + "/shape", tuple(a.shape), tuple(b.shape))
            if tuple(a.shape) != tuple(b.shape):
                return
        A, Bv = np.broadcast_arrays(self._arr(a), self._arr(b))
        d = [X.sub(X.num(x), X.num(y)) for x, y in zip(A.reshape(-1), Bv.reshape(-1))]
        self.obs.append(("eq", name, d, list(ctx().facts), tol))

    def true(self, name, b):
        bs = [X.boolean(x) for x in self._arr(b).reshape(-1)] if isinstance(b, torch.Tensor) else [X.const(bool(b))]
        self.obs.append(("true", name, bs, list(ctx().facts), 0.0))

    def le(self, name, a, b, slack=0.0):
        A, Bv = np.broadcast_arrays(self._arr(a), self._arr(b))
        self.obs.append(("true", name, [X.le(X.num(x), X.num(y)) for x, y in zip(A.reshape(-1), Bv.reshape(-1))], list(ctx().facts), 0.0))

    def same(self, name, a, b):
        self.obs.append(("true", name, [X.TRUE if a == b else X.FALSE], list(ctx().facts), 0.0))
        if a != b:
            self.notes.append(f"{name}: {a!r} != {b!r}")

    def raises(self, name, fn, exc=Exception):
        try:
            fn()
        except exc:
            self.obs.append(("true", name, [X.TRUE], list(ctx().facts), 0.0))
            return
        self.obs.append(("true", name, [X.FALSE], list(ctx().facts), 0.0))

    def assume(self, b):
        for e in self._arr(b).reshape(-1):
            ctx().assume(e)

    def D(self, f: Callable, x: torch.Tensor, V: torch.Tensor):
        """directional derivative of f at x along V (entrywise; V same shape as x)."""
        xd, vd = data(x), np.broadcast_to(self._arr(V), data(x).shape)
        a = np.empty(xd.shape, dtype=object)
        for i in np.ndindex(xd.shape):
            v = X.fresh("D")
            self.dom.sigma[v] = xd[i]
            a[i] = v
        x2 = SymTensor(a, x.shape, x.dtype)
        mark = len(self._opq)
        y = f(x2)
        seeds = {e: v for e, v in zip(a.flat, vd.flat)}
        for rec in self._opq[mark:]:
            rec.push(self, seeds)
        ys = y if isinstance(y, (list, tuple)) else [y]
        out = []
        for t in ys:
            td = data(t)
            try:
                r = X.jvp([X.num(e) for e in td.reshape(-1)], seeds)
            except X.NoDeriv as e:
                raise Unsupported(f"derivative of {e}")
            o = np.empty(td.size, dtype=object)
            o[:] = r
            out.append(SymTensor(o.reshape(td.shape), t.shape, t.dtype))
        return out if isinstance(y, (list, tuple)) else out[0]


    def vjp(self, f, xs, gs):
        """reverse-mode gradients of f(*xs) against output cotangents gs."""
        with torch.enable_grad():
            ls = [SymTensor(data(x), x.shape, x.dtype, requires_grad=True) for x in xs]
            y = f(*ls)
            ys = list(y) if isinstance(y, (list, tuple)) else [y]
            r = torch.autograd.grad(ys, ls, grad_outputs=list(gs), allow_unused=True)
        return [torch.zeros_like(x) if g is None else g.detach() for g, x in zip(r, xs)]


class ConKit(Kit):
    """Concrete run on rows of the sample table."""

    def __init__(self, dom, rows, dtype=torch.float64, collect=True):
        super().__init__(dom, dtype)
        self.rows = np.asarray(rows)
        self.B = len(self.rows)
        self.fails: List = []
        self.checked = 0
        self.skipped = 0
        self.alive = np.ones(self.B, bool)
        self.precise = False  # float64 run under float32 thresholds: only `tol` counts

    def _emit(self, name, exprs, batched=True, dtype=None):
        if name in self.inputs:
            return self.inputs[name]
        flat = list(exprs.reshape(-1))
        env = self.dom.full_env(flat)
        vals = [np.broadcast_to(v, (self.dom.N,)) for v in X.evaluate(flat, env)]
        rows = self.rows if batched else self.rows[:1]
        a = np.stack([v[rows] for v in vals], axis=-1).reshape((len(rows),) + exprs.shape) if vals else np.zeros((len(rows),) + exprs.shape)
        t = torch.tensor(np.ascontiguousarray(a), dtype=dtype or self.dtype)
        if not batched:
            t = t[0]
        self.inputs[name] = t
        return t.clone()

    def eq(self, name, a, b, tol=0.0, ctol=None):
        self.checked += 1
        A = a.detach() if isinstance(a, torch.Tensor) else torch.as_tensor(a, dtype=self.dtype)
        Bv = b.detach() if isinstance(b, torch.Tensor) else torch.as_tensor(b, dtype=self.dtype)
        if isinstance(a, torch.Tensor) and isinstance(b, torch.Tensor) and a.shape != b.shape:
            self.fails.append((name, f"shape {tuple(a.shape)} expected {tuple(b.shape)}", None))
            return
        A, Bv = A.double(), Bv.double()
        base = 1e-6 if self.dtype == torch.float64 else 2e-2
        # never stricter than the rounding of an equivalent order of operations
        floor = 32 * torch.finfo(self.dtype).eps
        lim = max(ctol if ctol is not None and not self.precise else base, tol * 1.1, floor)
        err = (A - Bv).abs()
        sc = 1 + Bv.abs()
        bad = ~(err <= lim * sc)
        for z in (a, b):
            u = getattr(z, "_unreliable", None)
            if u is not None:
                self.skipped += int(u.sum())
                bad = bad & ~u.expand_as(bad)
        if self.alive is not None and bad.ndim and bad.shape[0] == self.B:
            bad = bad & torch.from_numpy(self.alive).view(-1, *([1] * (bad.ndim - 1)))
        if bad.any():
            ix = bad.nonzero()[0].tolist()
            row = ix[0] if ix and bad.shape[0] == self.B else None
            self.fails.append((name, f"entry {ix}: got {A.expand(bad.shape)[tuple(ix)].item():.9g}, expected {Bv.expand(bad.shape)[tuple(ix)].item():.9g}", row))

    def opaque(self, name, fn, args, tangent=None):
        return fn(*args)

    def true(self, name, b):
        self.checked += 1
        ok = b if isinstance(b, torch.Tensor) else torch.tensor(bool(b))
        if ok.ndim and ok.shape[0] == self.B and not self.alive.all():
            ok = ok | ~torch.from_numpy(self.alive).view(-1, *([1] * (ok.ndim - 1)))
        if not bool(ok.all()):
            self.fails.append((name, "clause is false", None))

    def le(self, name, a, b, slack=1e-9):
        A = a if isinstance(a, torch.Tensor) else torch.as_tensor(float(a))
        Bv = b if isinstance(b, torch.Tensor) else torch.as_tensor(float(b))
        self.true(name, A.double() <= Bv.double() + max(slack, 1e-9) * (1 + Bv.double().abs()))

    def same(self, name, a, b):
        self.checked += 1
        if a != b:
            self.fails.append((name, f"got {a!r}, expected {b!r}", None))

    def raises(self, name, fn, exc=Exception):
        self.checked += 1
        try:
            fn()
        except exc:
            return
        self.fails.append((name, f"expected {getattr(exc, '__name__', exc)}", None))

    def assume(self, b):
        ok = b.detach().reshape(self.B, -1).all(dim=1).numpy() if b.ndim and b.shape[0] == self.B else np.full(self.B, bool(b.all()))
        self.alive = self.alive & ok

    def D(self, f, x, V):
        """directional derivative by extrapolated central differences at two step
        sizes; entries on which they disagree (a branch inside the stencil) are
        marked and left out of the comparison."""
        V = torch.as_tensor(V, dtype=x.dtype).expand_as(x)
        f64 = x.dtype == torch.float64
        single = []

        def g(s):
            y = f(x + s * V)
            if not isinstance(y, (list, tuple)):
                single.append(1)
                y = [y]
            return [t.detach().clone().double() for t in y]

        def est(h):
            p1, m1, p2, m2 = g(h), g(-h), g(2 * h), g(-2 * h)
            return [(8 * (a - b) - (c - d)) / (12 * h) for a, b, c, d in zip(p1, m1, p2, m2)]

        h = 2e-4 if f64 else 1.5e-2
        a, b = est(h), est(h * 0.37)
        out = []
        for p, q in zip(a, b):
            lim = 2e-7 if f64 else 1e-2
            t = p.clone().to(x.dtype)
            t._unreliable = ~((p - q).abs() <= lim * (1 + p.abs()))
            out.append(t)
        return out[0] if single else out

    def vjp(self, f, xs, gs):
        with torch.enable_grad():
            ls = [x.detach().clone().requires_grad_(True) for x in xs]
            y = f(*ls)
            ys = list(y) if isinstance(y, (list, tuple)) else [y]
            r = torch.autograd.grad(ys, ls, grad_outputs=list(gs), allow_unused=True)
        return [torch.zeros_like(x) if g is None else g.detach() for g, x in zip(r, xs)]
