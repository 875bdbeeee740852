"""C19: dogleg steps stay in the trust region and follow its definition."""
import random
import warnings

import torch
import theseus as th
from theseus.optimizer.nonlinear.trust_region import TrustRegion
from dv.run import contract
from .c14 import products_by_contract
from .c15 import FakeExtensions, normal, STRUCTS
from .c17 import scene
from .c18 import make as make_lm, residual, jacobian

INFO = dict(
    level="proof",
    trusted=["the contracts of the linear solvers and of the linearization (C14, C15): the step is verified for any gradient, any product A v and any Gauss-Newton step"],
    assumptions=["the definition of the step is proved with the regularisation EPS (1e-14, relative to the radius) set to zero; the clauses run with the real one are bounded and allow for it",
                 "dimensions one and two of the step are proved; batch size and values are unconstrained"],
)
EPS = getattr(th.Dogleg, "EPS", 0.0)


class Lin:
    """any linearization: its gradient, and its product with the gradient."""

    def __init__(self, g, p):
        self.Atb, self.p, self.g = g.unsqueeze(2), p, g

    def Av(self, v):
        return self.p


class Solver:
    def __init__(self, gn, lin):
        self.gn, self.linearization = gn, lin

    def solve(self, **kw):
        return self.gn


class Exact:
    """EPS as zero."""

    def __init__(self, k):
        self.on = k.symbolic

    def __enter__(self):
        self.old = th.Dogleg.__dict__.get("EPS")
        if self.on and self.old is not None:
            th.Dogleg.EPS = 0.0

    def __exit__(self, *a):
        if self.on and self.old is not None:
            th.Dogleg.EPS = self.old


def bare(k, g, p, gn, tr):
    o, vs, opt, x, y = scene(k, 2)
    d = th.Dogleg(o)
    d.linear_solver = Solver(gn, Lin(g, p))
    d._trust_region = tr
    return d


def sq(t):
    return (t * t).sum(dim=1, keepdim=True)


def _case(n):
    """any batch: each element is judged by its own radius, gradient and steps."""

    def body(k):
        g, p, u = k.real(f"g{n}", n), None, k.real(f"u{n}", n)
        tr = k.pos("tr", 1)
        k.assume(sq(g) > 1e-6)
        k.assume(sq(u) > 1e-6)
        t = k.pos("t", 1)
        p = (sq(g) / t).sqrt()  # any length of the product, by way of the step t = |g|^2 / |A g|^2
        c = g * t
        gn = c + u
        cc, nn, T = sq(g) * t ** 2, sq(gn), tr * tr
        d = bare(k, g, p, gn, tr)
        with Exact(k):
            s = d._compute_delta_impl()
        tol = 1e-5
        k.eq("the radius is left alone", d._trust_region, tr, ctol=0)
        zero = torch.zeros_like(s)
        inside, far = nn < T, cc > T
        k.eq("the Gauss-Newton step, if it is inside (and so is the Cauchy point)", torch.where(inside & (cc < T), s - gn, zero), zero, ctol=tol)
        k.eq("along the gradient, if the Cauchy point is outside", torch.where(far & ~inside, s * sq(g).sqrt(), zero), torch.where(far & ~inside, g * tr, zero), ctol=tol)
        mid = (cc < T) & (nn > T)
        k.eq("as long as the radius, in between", torch.where(mid, sq(s), T), T, ctol=tol)
        if n > 1:
            k.eq("in between it is on the line through both points", torch.where(mid[:, 0], (s - c)[:, 0] * u[:, 1] - (s - c)[:, 1] * u[:, 0], 0 * u[:, 0]), 0 * u[:, 0], ctol=tol)
        if n > 1 and k.symbolic:
            return  # the next two clauses: proved in one dimension, bounded in two
        along = ((s - c) * u).sum(dim=1, keepdim=True)
        k.le("not before the Cauchy point", 0 * tr, torch.where(mid, along, 0 * tr), 1e-6)
        k.le("not past the Gauss-Newton step", torch.where(mid, along, 0 * tr), sq(u), 1e-6)

    return body


for _n in (1, 2):
    contract("C19", f"step/{_n}", con=(24, 1), budget=150, funcs=["Dogleg._compute_delta_impl"])(_case(_n))


# -- the radius and the acceptance --------------------------------------------------------
def radius_update(tr, rho, kw):
    new = torch.where(rho < kw["shrink_threshold"], tr * kw["shrink_ratio"], tr)
    new = torch.where(rho > kw["expand_threshold"], tr * kw["expand_ratio"], new)
    lo, hi = (torch.full_like(tr, kw[n]) for n in ("min_trust_region", "max_trust_region"))
    return torch.minimum(torch.maximum(new, lo), hi), (rho < kw["accept_threshold"]).view(-1)


DEFAULT = dict(accept_threshold=0.0, shrink_threshold=0.25, expand_threshold=0.75, shrink_ratio=0.25, expand_ratio=2.0, min_trust_region=1e-5, max_trust_region=1e5)
OTHER = dict(accept_threshold=0.1, shrink_threshold=0.3, expand_threshold=0.5, shrink_ratio=0.5, expand_ratio=3.0, min_trust_region=0.1, max_trust_region=2.0)
SOLVERS = [th.CholeskyDenseSolver, th.LUCudaSparseSolver, th.BaspachoSparseSolver, th.CholmodSparseSolver]


def make(k, cls, si):
    from .c14 import build
    o, vs, fs = build(k, *STRUCTS[si])
    lk = dict(num_solver_contexts=3, batch_size=k.B) if cls is th.LUCudaSparseSolver else {}
    return o, vs, fs, th.Dogleg(o, linear_solver_cls=cls, linear_solver_kwargs=lk)


def _radius(cls, si):
    def body(k):
        with FakeExtensions(k), products_by_contract(k):
            o, vs, fs, opt = make(k, cls, si)
            lin = opt.linear_solver.linearization
            lin.linearize()
            A, b, AtA, Atb = normal(k, fs, list(lin.ordering))
            n = A.shape[2]
            d, ne, pe, tr = k.real(f"delta{n}", n), k.pos("ne", 1)[:, 0], k.pos("pe", 1)[:, 0], k.pos("tr", 1)
            Ad = A.bmm(d.unsqueeze(2)).squeeze(2)
            model = (d * Atb.squeeze(2)).sum(dim=1) - (Ad * Ad).sum(dim=1) / 2
            r = b - Ad
            k.eq("the model's reduction", model, ((b * b).sum(dim=1) - (r * r).sum(dim=1)) / 2, ctol=1e-8)
            k.eq("predicted error", opt._predicted_error(pe, d), pe - model, ctol=1e-8)
            k.assume(model.abs() > 1e-3)
            rho = ((pe - ne) / (pe - (pe - model))).view(-1, 1)
            for nm, kw in (("default", {}), ("given", OTHER)):
                full = dict(DEFAULT, **kw)
                if not k.symbolic:
                    for th_ in ("accept_threshold", "shrink_threshold", "expand_threshold"):
                        k.assume((rho - full[th_]).abs() > 1e-9)
                opt._trust_region = tr
                d0 = d.clone()
                rej = opt._complete_step(d0, ne, pe, **kw)
                new, want = radius_update(tr, rho, full)
                k.eq(nm + "/radius", opt._trust_region, new, ctol=1e-9)
                k.true(nm + "/rejected", rej == want)
                k.eq(nm + "/the step is left alone", d0, d, ctol=0)

    return body


for _c in SOLVERS:
    for _s in (1, 2):
        contract("C19", f"radius/{_c.__name__}/{_s}", con=(8, 1), budget=60, funcs=["TrustRegion._complete_step", "TrustRegion._compute_rho", "TrustRegion._predicted_error"])(_radius(_c, _s))


@contract("C19", "thresholds", mode="con", con=(3,), funcs=["TrustRegion._complete_step"])
def thresholds(k):
    o, vs, fs, opt = make(k, th.CholeskyDenseSolver, 1)
    opt.linear_solver.linearization.linearize()
    d, e = torch.ones(k.B, 2, dtype=k.dtype), torch.ones(k.B, dtype=k.dtype)
    for nm, bad in (("shrink ratio 0", dict(shrink_ratio=0.0)), ("shrink ratio 1.5", dict(shrink_ratio=1.5)), ("expand ratio", dict(expand_ratio=0.9)), ("order", dict(shrink_threshold=0.8, expand_threshold=0.7)), ("accept", dict(accept_threshold=0.3))):
        tr = torch.ones(k.B, 1, dtype=k.dtype)
        opt._trust_region = tr
        k.raises(nm, lambda: opt._complete_step(d, e, e, **bad), ValueError)
        k.same(nm + "/radius as before", opt._trust_region is tr and bool((tr == 1).all()), True)


@contract("C19", "reset", con=(5, 1), dtypes=("float64", "float32"), budget=30, funcs=["TrustRegion.reset"])
def reset(k):
    o, vs, fs, opt = make(k, th.CholeskyDenseSolver, 1)
    for before in (None, k.pos("tr", 1)):
        for mode in (th.BackwardMode.UNROLL, th.BackwardMode.IMPLICIT):
            for given in (None, 3.0, 0.25):
                opt._trust_region = before
                opt.reset(backward_mode=mode, **({} if given is None else dict(trust_region_init=given)))
                nm = f"{mode}/{given}"
                k.same(nm + "/shape and dtype", (tuple(opt._trust_region.shape), opt._trust_region.dtype), ((k.B, 1), k.dtype))
                k.eq(nm, opt._trust_region, torch.full((k.B, 1), 0.5 if given is None else given, dtype=k.dtype), ctol=0)


# -- the step with its real regularisation (bounded) --------------------------------------
@contract("C19", "step at every scale", mode="con", con=(1,), dtypes=("float64", "float32"), funcs=["Dogleg._compute_delta_impl"])
def scales(k):
    """lengths of gradient, products, steps and radii over many orders of magnitude, mixed
    in one batch."""
    g_ = torch.Generator().manual_seed(2)
    f64 = k.dtype == torch.float64
    tol = 2e-6 if f64 else 2e-3
    r = lambda *s: torch.randn(*s, generator=g_, dtype=torch.float64)
    for trial in range(60):
        B, n = 7, 1 + trial % 4
        ex = lambda lo, hi: 10 ** (lo + (hi - lo) * torch.rand(B, 1, generator=g_, dtype=torch.float64))
        spread = (-5, 3) if f64 else (-3, 2)
        tr = ex(*spread)
        g = r(B, n)
        g = g / sq(g).sqrt() * ex(*spread)
        rel = ex(-3, 1)  # Cauchy step over radius
        t = rel * tr / sq(g).sqrt()
        p = r(B, n)
        p = p / sq(p).sqrt() * (sq(g) / t).sqrt()
        c = g * t
        u = r(B, n)
        gn = c + u / sq(u).sqrt() * tr * ex(-3, 2)
        if trial % 3 == 0:
            gn[0], c_in = c[0], True  # the Gauss-Newton step is the Cauchy point
        if trial % 5 == 0:
            g[1], p[1], gn[1] = 0.0, 0.0, 0.0  # at a stationary point
        args = [z.to(k.dtype) for z in (g, p, gn, tr)]
        d = bare(k, *args)
        s = d._compute_delta_impl().double()
        g, p, gn, tr = (z.double() for z in args)
        nm = f"{trial}"
        k.same(nm + "/finite", bool(torch.isfinite(s).all()), True)
        k.le(nm + "/never longer than the radius", sq(s).sqrt() / tr, torch.ones(B, 1, dtype=torch.float64) * (1 + tol))
        t = torch.where(sq(p) > 0, sq(g) / sq(p), 0 * tr)
        c = g * t
        ngn, nc = sq(gn).sqrt(), sq(c).sqrt()
        ins = (ngn < tr * (1 - tol)) & (nc < tr * (1 - tol))
        k.eq(nm + "/the Gauss-Newton step", torch.where(ins, s - gn, 0 * s) / tr, 0 * s, ctol=1e-5 if f64 else 2e-3)
        far = (nc > tr * (1 + tol)) & (ngn > tr * (1 + tol))
        k.eq(nm + "/along the gradient", torch.where(far, s / tr - c / nc.clamp(min=1e-300), 0 * s), 0 * s, ctol=1e-5 if f64 else 2e-3)
        mid = (nc < tr * (1 - tol)) & (ngn > tr * (1 + tol))
        k.eq(nm + "/on the boundary", torch.where(mid, sq(s).sqrt() / tr, torch.ones_like(tr)), torch.ones_like(tr), ctol=1e-5 if f64 else 5e-3)
        tau = ((s - c) * (gn - c)).sum(dim=1, keepdim=True) / sq(gn - c).clamp(min=1e-300)
        k.eq(nm + "/on the leg", torch.where(mid, s - (c + tau * (gn - c)), 0 * s) / tr, 0 * s, ctol=1e-5 if f64 else 5e-3)
        k.true(nm + "/within the leg", ~mid | ((tau >= -1e-6) & (tau <= 1 + 1e-6)) | (sq(gn - c).sqrt() < tr * 1e-2))


# -- whole runs (bounded) -----------------------------------------------------------------
class Watched(th.Dogleg):
    def compute_delta(self, **kw):
        x = super().compute_delta(**kw)
        self.log.append(dict(x=self.v.tensor.detach().clone(), tr=self._trust_region.clone(), delta=x.detach().clone()))
        return x

    def _complete_step(self, delta, new_err, previous_err, **kw):
        rej = super()._complete_step(delta, new_err, previous_err, **kw)
        self.log[-1].update(step=delta.detach().clone(), new=new_err.detach().clone(), prev=previous_err.detach().clone(), rej=rej)
        return rej


@contract("C19", "whole runs", mode="con", con=(1,), funcs=["Dogleg", "TrustRegion", "NonlinearLeastSquares._step"])
def whole(k):
    g = torch.Generator().manual_seed(4)
    rng = random.Random(4)
    for trial in range(25):
        B = rng.choice([1, 2, 3, 5])
        t, s = torch.randn(B, 1, generator=g, dtype=k.dtype), 0.3 + torch.rand(B, 1, generator=g, dtype=k.dtype)
        unit = rng.choice([1.0, 1.0, 1e-3])  # the same problem in other units
        x0 = 2 * torch.randn(B, 2, generator=g, dtype=k.dtype) * unit
        v = th.Vector(tensor=x0.clone(), name="v")
        o = th.Objective(dtype=k.dtype)
        f = lambda x, t, s: residual(x / unit, t, s)
        o.add(th.AutoDiffCostFunction([v], lambda optim_vars, aux_vars: f(optim_vars[0].tensor, aux_vars[0].tensor, aux_vars[1].tensor), 3, cost_weight=th.ScaleCostWeight(torch.ones(1, 1, dtype=k.dtype)),
                                      aux_vars=[th.Vector(tensor=t, name="t"), th.Vector(tensor=s, name="s")]))
        o.update()
        opt = Watched(o, max_iterations=12)
        opt.v = v
        for again in range(2):
            kw = dict(rng.choice([{}, {}, OTHER, dict(accept_threshold=0.2)]))
            if kw and unit != 1.0:
                kw.pop("min_trust_region", None)
            tr0 = rng.choice([0.5, 0.01, 10.0]) * unit
            opt.log = []
            with torch.no_grad(), warnings.catch_warnings():
                warnings.simplefilter("ignore")
                info = opt.optimize(trust_region_init=tr0, **kw)
            full = dict(DEFAULT, **kw)
            tr = torch.full((B, 1), tr0, dtype=k.dtype)
            for n, e in enumerate(opt.log):
                nm = f"{trial}/{again}/attempt {n}"
                k.eq(nm + "/radius", e["tr"] / unit, tr / unit, ctol=1e-9)
                J = jacobian(e["x"] / unit, t, s) / unit
                r = f(e["x"], t, s)
                AtA, Atb = J.transpose(1, 2).bmm(J), -J.transpose(1, 2).bmm(r.unsqueeze(2))
                good = torch.linalg.cond(AtA) < 1e8
                gn, gr = torch.linalg.solve(AtA + 0 * AtA, Atb).squeeze(2) if bool(good.all()) else None, Atb.squeeze(2)
                k.le(nm + "/within the radius", sq(e["delta"]).sqrt() / tr, torch.ones_like(tr) * (1 + 1e-6))
                if gn is not None:
                    ins = sq(gn).sqrt() < tr * (1 - 1e-6)
                    k.eq(nm + "/Gauss-Newton inside", torch.where(ins, e["delta"] - gn, 0 * gn) / tr, 0 * gn, ctol=1e-5)
                    k.eq(nm + "/on the boundary otherwise", torch.where(ins, torch.ones_like(tr), sq(e["delta"]).sqrt() / tr), torch.ones_like(tr), ctol=1e-5)
                Jd = J.bmm(e["step"].unsqueeze(2)).squeeze(2)
                model = (e["step"] * gr).sum(dim=1) - (Jd * Jd).sum(dim=1) / 2
                rho = ((e["prev"] - e["new"]) / model).view(-1, 1)
                new, rej = radius_update(tr, rho, full)
                clear = torch.ones(B, 1, dtype=torch.bool)
                for z in ("accept_threshold", "shrink_threshold", "expand_threshold"):
                    clear &= (rho - full[z]).abs() > 1e-4
                clear &= model.view(-1, 1).abs() > 1e-9 * (1 + e["prev"].view(-1, 1))
                k.same(nm + "/rejected", e["rej"][clear[:, 0]].tolist(), rej[clear[:, 0]].tolist())
                nxt = opt.log[n + 1]["tr"] if n + 1 < len(opt.log) else opt._trust_region
                k.eq(nm + "/next radius", torch.where(clear, nxt, new) / unit, new / unit, ctol=1e-9)
                tr = nxt
                after = opt.log[n + 1]["x"] if n + 1 < len(opt.log) else v.tensor
                k.eq(nm + "/rejected elements keep their variables", after[e["rej"]], e["x"][e["rej"]], ctol=0)
                acc = ~e["rej"] & (after != e["x"]).any(dim=1)
                k.eq(nm + "/accepted ones move by the step", after[acc], (e["x"] + e["step"])[acc], ctol=1e-12)
