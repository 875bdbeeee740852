"""C18: Levenberg-Marquardt damping and acceptance follow the gain."""
import itertools
import random
import warnings

import torch
import theseus as th
from dv.run import contract
from .c14 import build, fill, expected, products_by_contract
from .c15 import STRUCTS, FakeExtensions, normal, damped, solves, sparse_solver

INFO = dict(
    level="proof",
    trusted=["the contracts of the linear solvers and of the linearization (C14, C15)"],
    assumptions=["structures are enumerated (up to three variables); matrices, steps, errors, damping, ratios' effect and batch size are unconstrained",
                 "the gain denominator is the model reduction of the full damped step (for a step size of one; otherwise the same expression of the scaled step, as the code documents)"],
)
LM = th.LevenbergMarquardt
SOLVERS = [th.CholeskyDenseSolver, th.LUDenseSolver, th.LUCudaSparseSolver, th.BaspachoSparseSolver]
UNSUITABLE = [th.CholmodSparseSolver]
LO, HI = 1e-7, 1e7


def make(k, cls, si, **kw):
    o, vs, fs = build(k, *STRUCTS[si])
    lk = dict(num_solver_contexts=3, batch_size=k.B) if cls is th.LUCudaSparseSolver else {}
    opt = LM(o, linear_solver_cls=cls, linear_solver_kwargs=lk, **kw)
    if cls is th.BaspachoSparseSolver:
        opt.linear_solver.reset()
    return o, vs, fs, opt


def gain_update(damping, rho, accept, up, down):
    rej = rho <= accept
    new = torch.where(rej, damping * up, damping / down)
    return rej, torch.minimum(torch.maximum(new, torch.full_like(new, LO)), torch.full_like(new, HI))


def _accept(si, cls, ell):
    def body(k):
        with FakeExtensions(k), products_by_contract(k):
            o, vs, fs, opt = make(k, cls, si)
            opt.linear_solver.linearization.linearize()
            A, b, AtA, Atb = normal(k, fs, list(opt.linear_solver.linearization.ordering))
            n = A.shape[2]
            d, ne, pe = k.real(f"delta{n}", n), k.pos("ne", 1)[:, 0], k.pos("pe", 1)[:, 0]
            lam = k.pos("lam", 1)[:, 0]
            for acc, up, down in ((None, None, None), (0.5, 3.0, 7.0)):
                kw = {} if acc is None else dict(damping_accept=acc, up_damping_ratio=up, down_damping_ratio=down)
                opt._damping = lam.clone()
                d0 = d.clone()
                rej = opt._complete_step(d0, ne, pe, adaptive_damping=True, ellipsoidal_damping=ell, **kw)
                D = lam.view(-1, 1) * (AtA.diagonal(dim1=1, dim2=2) if ell else torch.ones_like(d))
                den = (d * (D * d + Atb.squeeze(2))).sum(dim=1) / 2
                want, new = gain_update(lam, (pe - ne) / den, acc or 0.1, up or 11.0, down or 9.0)
                nm = "default" if acc is None else "given"
                k.true(f"{nm}/rejects exactly the steps that fail", rej == want)
                k.eq(f"{nm}/damping", opt._damping, new, ctol=1e-9)
                k.eq(f"{nm}/the step is left alone", d0, d, ctol=0)
                k.eq(f"{nm}/A is left alone", opt.linear_solver.linearization.AtA if hasattr(opt.linear_solver.linearization, "_AtA") else AtA, AtA, ctol=1e-9)
            # without adaptation: nothing is rejected, the damping is what it was
            for keep in (lam.clone(), 0.25):
                opt._damping = keep
                k.same("no mask", opt._complete_step(d, ne, pe, adaptive_damping=False, ellipsoidal_damping=ell), None)
                k.same("the same damping object", opt._damping is keep, True)
                k.same("adaptation is off unless asked for", opt._complete_step(d, ne, pe), None)
                k.same("still the same damping", opt._damping is keep, True)

    return body


for _c in SOLVERS:
    for _e in (False, True):
        contract("C18", f"acceptance/{_c.__name__}/{'ellipsoidal' if _e else 'plain'}", con=(8, 1), budget=60, funcs=["LevenbergMarquardt._check_accept", "LevenbergMarquardt._complete_step"])(_accept(2, _c, _e))
contract("C18", "acceptance/one variable", con=(8, 1), budget=60, funcs=["LevenbergMarquardt._check_accept"])(_accept(1, th.CholeskyDenseSolver, False))


@contract("C18", "bounds of the damping", con=(8, 1), budget=40, funcs=["LevenbergMarquardt._check_accept"])
def bounds(k):
    """from any damping within the bounds, and any gain, the new damping is within them,
    and moves in the direction of the gain."""
    o, vs, fs, opt = make(k, th.CholeskyDenseSolver, 0)
    opt.linear_solver.linearization.linearize()
    d, ne, pe, s = k.real("delta1", 1), k.pos("ne", 1)[:, 0], k.pos("pe", 1)[:, 0], k.pos("lam", 1)[:, 0]
    for nm, lam in (("low", LO * (1 + s)), ("high", HI / (1 + s)), ("middle", s)):
        k.assume((lam >= LO) & (lam <= HI))
        opt._damping = lam
        rej = opt._complete_step(d, ne, pe, adaptive_damping=True)
        k.le(nm + "/not below", torch.full_like(s, LO), opt._damping)
        k.le(nm + "/not above", opt._damping, torch.full_like(s, HI))
        k.le(nm + "/up when rejected, down when accepted", torch.where(rej, lam, opt._damping), torch.where(rej, opt._damping, lam))


@contract("C18", "the denominator is the model's reduction", con=(8, 1), budget=60, funcs=["LevenbergMarquardt._check_accept"])
def model_reduction(k):
    """if the step solves (A'A + lambda D) delta = A'b, an element is rejected exactly when
    its error went down by no more than `damping_accept` times what the quadratic model
    |b - A delta|^2 / 2 predicts."""
    for n, ell in ((2, True), (1, False), (2, False)):
        A, d, lam = k.real(f"A{n}", n, n), k.real(f"d{n}", n), k.pos("lam", 1)[:, 0]
        ne, pe = k.pos("ne", 1)[:, 0], k.pos("pe", 1)[:, 0]
        AtA = A.transpose(1, 2).bmm(A)
        D = lam.view(-1, 1) * (AtA.diagonal(dim1=1, dim2=2) if ell else torch.ones_like(d))
        g = AtA.bmm(d.unsqueeze(2)) + (D * d).unsqueeze(2)
        o, vs, fs, opt = make(k, th.CholeskyDenseSolver, 0)
        lin = opt.linear_solver.linearization
        lin._AtA, lin._Atb = AtA, g
        opt._damping = lam
        rej = opt._complete_step(d, ne, pe, adaptive_damping=True, ellipsoidal_damping=ell)
        Ad = A.bmm(d.unsqueeze(2)).squeeze(2)
        red = (d * g.squeeze(2)).sum(dim=1) - (Ad * Ad).sum(dim=1) / 2
        # with the clauses on acceptance: their denominator is this reduction
        k.eq(f"{n}/{ell}/denominator", (d * (D * d + g.squeeze(2))).sum(dim=1) / 2, red, ctol=1e-9)
        if n == 2 and ell:
            continue
        k.assume(red > 1e-3)
        if not k.symbolic:
            k.assume(((pe - ne) - 0.1 * red).abs() > 1e-9)
        k.true(f"{n}/{ell}", rej == ((pe - ne) / red <= 0.1))


def _delta(si, cls):
    def body(k):
        with FakeExtensions(k), products_by_contract(k):
            o, vs, fs, opt = make(k, cls, si)
            lin = opt.linear_solver.linearization
            lin.linearize()
            A, b, AtA, Atb = normal(k, fs, list(lin.ordering))
            lam = k.pos("lam", 1)
            for ell in (False, True):
                for eps in (None, 0.5, 0.0):
                    for nm, dm, dv in (("tensor", lam[:, 0], lam), ("float", 0.25, 0 * lam + 0.25)):
                        opt._damping = dm
                        # whatever else the caller passes, the damping is the optimiser's own
                        x = opt.compute_delta(ellipsoidal_damping=ell, damping_eps=eps, damping=77.0)
                        solves(k, f"{ell}/{eps}/{nm}", x, damped(k, AtA, dv, ell, 1e-8 if eps is None else eps), Atb)
                        k.same(f"{ell}/{eps}/{nm}/damping kept", opt._damping is dm, True)

    return body


for _c in SOLVERS:
    contract("C18", f"step/{_c.__name__}", con=(8, 1), budget=100, funcs=["LevenbergMarquardt.compute_delta"])(_delta(2, _c))


@contract("C18", "reset", con=(5, 1), dtypes=("float64", "float32"), budget=30, funcs=["LevenbergMarquardt.reset", "LevenbergMarquardt.__init__"])
def reset(k):
    """whatever the state, a new run starts from the configured damping."""
    o, vs, fs, opt = make(k, th.CholeskyDenseSolver, 1)
    for before in (0.5, k.pos("lam", 1)[:, 0], 1e7):
        for mode in ("unroll", "implicit"):
            bm = th.BackwardMode.resolve(mode)
            opt._damping = before
            opt.reset(backward_mode=bm)
            k.same(f"{mode}/default", opt._damping, 1e-3)
            opt._damping = before
            opt.reset(damping=0.7, backward_mode=bm)
            k.same(f"{mode}/given", opt._damping, 0.7)
            opt._damping = before
            opt.reset(damping=0.7, adaptive_damping=True, backward_mode=bm)
            k.same(f"{mode}/shape and dtype", (tuple(opt._damping.shape), opt._damping.dtype), ((k.B,), k.dtype))
            k.eq(f"{mode}/adaptive", opt._damping, torch.full((k.B,), 0.7, dtype=k.dtype), ctol=0)
            opt.reset(adaptive_damping=True, backward_mode=bm)
            k.eq(f"{mode}/adaptive default", opt._damping, torch.full((k.B,), 1e-3, dtype=k.dtype), ctol=0)


@contract("C18", "unsuitable solvers", mode="con", con=(2,), funcs=["LevenbergMarquardt.reset", "LevenbergMarquardt.compute_delta"])
def unsuitable(k):
    for cls in UNSUITABLE:
        o, vs, fs, opt = make(k, cls, 1)
        bm = th.BackwardMode.UNROLL
        k.raises(cls.__name__ + "/adaptive", lambda: opt.reset(adaptive_damping=True, backward_mode=bm), NotImplementedError)
        opt.reset(damping=0.5, backward_mode=bm)
        opt.linear_solver.linearization.linearize()
        k.raises(cls.__name__ + "/ellipsoidal", lambda: opt.compute_delta(ellipsoidal_damping=True), NotImplementedError)
        k.raises(cls.__name__ + "/eps", lambda: opt.compute_delta(damping_eps=1e-3), NotImplementedError)
        A, b, AtA, Atb = normal(k, fs, list(opt.linear_solver.linearization.ordering))
        x = opt.compute_delta()
        solves(k, cls.__name__ + "/plain", x, AtA + 0.5 * torch.eye(A.shape[2], dtype=k.dtype), Atb)


# -- whole runs (bounded) -----------------------------------------------------------------
def residual(x, t, s):
    return torch.cat([s * (x[:, 1:] - x[:, :1] ** 2) * 3, 1 - x[:, :1] + t, torch.sin(2 * x[:, :1] * x[:, 1:])], dim=1)


def jacobian(x, t, s):
    z = x.detach().clone().requires_grad_(True)
    with torch.enable_grad():
        r = residual(z, t, s)
        return torch.stack([torch.autograd.grad(r[:, i].sum(), z, retain_graph=True)[0] for i in range(r.shape[1])], dim=1)


class Watched(LM):
    """records what the method is given and does."""

    def compute_delta(self, **kw):
        dm = self._damping
        x = super().compute_delta(**kw)
        self.log.append(dict(x=self.v.tensor.detach().clone(), damping=dm.clone() if isinstance(dm, torch.Tensor) else dm, delta=x.detach().clone()))
        return x

    def _complete_step(self, delta, new_err, previous_err, **kw):
        rej = super()._complete_step(delta, new_err, previous_err, **kw)
        self.log[-1].update(step=delta.detach().clone(), new=new_err.detach().clone(), prev=previous_err.detach().clone(), rej=rej, after=self._damping)
        return rej


@contract("C18", "whole runs", mode="con", con=(1,), dtypes=("float64", "float32"), funcs=["LevenbergMarquardt", "NonlinearLeastSquares._optimize_loop", "NonlinearLeastSquares._step"])
def whole(k):
    g = torch.Generator().manual_seed(4)
    rng = random.Random(4)
    f64 = k.dtype == torch.float64
    tol = 1e-8 if f64 else 2e-3
    for trial in range(25):
        B = rng.choice([1, 2, 3, 5])
        t, s = torch.randn(B, 1, generator=g, dtype=torch.float64).to(k.dtype), (0.3 + torch.rand(B, 1, generator=g, dtype=torch.float64)).to(k.dtype)
        x0 = (2 * torch.randn(B, 2, generator=g, dtype=torch.float64)).to(k.dtype)
        v = th.Vector(tensor=x0.clone(), name="v")
        o = th.Objective(dtype=k.dtype)
        o.add(th.AutoDiffCostFunction([v], lambda optim_vars, aux_vars: residual(optim_vars[0].tensor, aux_vars[0].tensor, aux_vars[1].tensor), 3, cost_weight=th.ScaleCostWeight(torch.ones(1, 1, dtype=k.dtype)),
                                      aux_vars=[th.Vector(tensor=t, name="t"), th.Vector(tensor=s, name="s")]))
        o.update()
        cls = rng.choice([th.CholeskyDenseSolver, th.LUDenseSolver])
        step = rng.choice([1.0, 1.0, 0.5])
        opt = Watched(o, linear_solver_cls=cls, max_iterations=10, step_size=step)
        opt.v = v
        for again in range(2):
            adaptive, ell = rng.random() < 0.8, rng.random() < 0.4
            lam0 = rng.choice([1e-7, 1e-4, 1e-2, 1.0, 1e3])
            acc = rng.choice([0.1, 0.0, 0.6])
            up, down = rng.choice([(11.0, 9.0), (2.0, 3.0), (50.0, 20.0)])
            opt.log = []
            with torch.no_grad(), warnings.catch_warnings():
                warnings.simplefilter("ignore")
                info = opt.optimize(damping=lam0, adaptive_damping=adaptive, ellipsoidal_damping=ell, damping_accept=acc, up_damping_ratio=up, down_damping_ratio=down, track_state_history=True)
            lam = torch.full((B,), lam0, dtype=k.dtype)
            ended = [False] * B
            for n, e in enumerate(opt.log):
                nm = f"{trial}/{again}/attempt {n}"
                k.same(nm + "/kind of damping", isinstance(e["damping"], torch.Tensor), adaptive)
                k.eq(nm + "/damping", torch.as_tensor(e["damping"], dtype=k.dtype).expand(B), lam, ctol=1e-6 if f64 else 1e-4)
                J, r = jacobian(e["x"], t, s), residual(e["x"], t, s)
                AtA, Atb = J.transpose(1, 2).bmm(J), -J.transpose(1, 2).bmm(r.unsqueeze(2))
                M = AtA + torch.diag_embed(lam.view(-1, 1) * AtA.diagonal(dim1=1, dim2=2) + 1e-8 if ell else lam.view(-1, 1).expand(B, 2))
                good = torch.linalg.cond(M.double()) < (1e6 if f64 else 1e3)
                k.eq(nm + "/direction", e["delta"][good], torch.linalg.solve(M.double(), Atb.double()).squeeze(2)[good].to(k.dtype), ctol=tol)
                k.eq(nm + "/step", e["step"], e["delta"] * step, ctol=0)
                k.eq(nm + "/error before", e["prev"], 0.5 * (r ** 2).sum(dim=1), ctol=1e-9 if f64 else 1e-4)
                if adaptive:
                    D = lam.view(-1, 1) * (AtA.diagonal(dim1=1, dim2=2) if ell else torch.ones(B, 2, dtype=k.dtype))
                    den = (e["step"] * (D * e["step"] + Atb.squeeze(2))).sum(dim=1) / 2
                    rho = (e["prev"] - e["new"]) / den
                    clear = (rho - acc).abs() > (1e-6 if f64 else 1e-2) * (1 + rho.abs())
                    want, new = gain_update(lam, rho, acc, up, down)
                    want = torch.where(clear, want, e["rej"])
                    k.same(nm + "/rejected", e["rej"].tolist(), want.tolist())
                    lam = torch.where(e["rej"], lam * up, lam / down).clamp(LO, HI)
                else:
                    k.same(nm + "/never rejects", e["rej"], None)
                rej = torch.zeros(B, dtype=torch.bool) if e["rej"] is None else e["rej"]
                after = opt.log[n + 1]["x"] if n + 1 < len(opt.log) else v.tensor
                k.eq(nm + "/rejected elements keep their variables", after[rej], e["x"][rej], ctol=0)
                moved = (after != e["x"]).any(dim=1)
                for i in range(B):
                    if moved[i]:
                        k.same(f"{nm}/{i}/moves only before it has converged", ended[i], False)
                        k.eq(f"{nm}/{i}/moves by the step", after[i], e["x"][i] + e["step"][i], ctol=1e-12 if f64 else 1e-6)
                    elif not rej[i] and bool((e["step"][i].abs() > 1e-6 * (1 + e["x"][i].abs())).any()):
                        ended[i] = True  # it stopped moving: only because it had converged
                k.same(nm + "/stopped elements have converged", all(info.status[i] == th.NonlinearOptimizerStatus.CONVERGED for i in range(B) if ended[i]), True)
