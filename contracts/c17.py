"""C17: the nonlinear optimisation loop reports what it did.

The loop of the real `_optimize_loop` is cut at its head (dv/loops.py) and run from an
arbitrary state of the invariant: arbitrary variables, errors, histories, best values,
directions, tolerances and step size; every pattern of converged and rejected elements.
The state it hands back is the one the statement prescribes, so it holds after every
number of iterations.  Bounded clauses run whole optimisations against a reference."""
import itertools
import random
import warnings

import numpy as np
import torch
import theseus as th
from theseus.optimizer import Linearization
from theseus.optimizer.linear import LinearSolver
from theseus.optimizer.nonlinear.nonlinear_least_squares import NonlinearLeastSquares
from theseus.optimizer.nonlinear.nonlinear_optimizer import BackwardMode, NonlinearOptimizerInfo, NonlinearOptimizerStatus as S
from .objs import Quad
from dv.loops import step as loop_step
from dv.run import contract

INFO = dict(
    level="proof",
    trusted=["numpy masks and torch indexed assignment"],
    assumptions=["the inductive step is run for two batch elements, two variables and the iteration indices 0, 2 and 3 of 4; values are unconstrained",
                 "previous errors are positive where their relative change is used (zero errors are in the bounded clauses)"],
)
MAXIT = 4


class Landscape(th.CostFunction):
    """a residual that is an unconstrained function of the variables."""

    def __init__(self, k, vs, weight):
        super().__init__(weight, name="landscape")
        self.k, self.n = k, len(vs)
        for i, v in enumerate(vs):
            setattr(self, f"o{i}", v)
            self.register_optim_var(f"o{i}")

    def dim(self):
        return 1

    def error(self):
        return self.k.opaque("landscape", lambda *a: [terrain(*a)], [v.tensor for v in self.optim_vars])[0]

    def jacobians(self):
        e = self.error()
        return [torch.ones(e.shape[0], 1, v.dof(), dtype=e.dtype) for v in self.optim_vars], e

    def _copy_impl(self, new_name=None):
        raise NotImplementedError


def terrain(x, *ys):
    y = ys[0] if ys else 0 * x
    return 1.5 + x[:, :1] ** 2 + 0.3 * torch.sin(3 * x[:, :1]) + 0.5 * (y ** 2).sum(dim=1, keepdim=True)


class NoLin(Linearization):
    calls = ()

    def _linearize_jacobian_impl(self):
        self.calls = self.calls + ("jac",)

    def _linearize_hessian_impl(self, _detach_hessian=False):
        self.calls = self.calls + (("hess", _detach_hessian),)

    def _ata_impl(self):
        raise AssertionError

    _atb_impl = Av = diagonal_scaling = _ata_impl


class StubSolver(LinearSolver):
    answer = None

    def __init__(self, objective, linearization_cls=None, linearization_kwargs=None, **kw):
        super().__init__(objective, NoLin, {})

    def solve(self, damping=None, **kw):
        if isinstance(self.answer, Exception):
            raise self.answer
        return self.answer


class Stub(NonlinearLeastSquares):
    """any method: the direction and the rejected elements are whatever the contract says."""

    answer, rejected, seen, force = None, None, None, None

    def compute_delta(self, **kw):
        if isinstance(self.answer, Exception):
            raise self.answer
        return self.answer

    def _complete_step(self, delta, new_err, previous_err, **kw):
        self.seen = (delta, new_err, previous_err)
        return self.rejected


def scene(k, B=2, linear=StubSolver, cost=None):
    if B is None:
        x, y = k.real("x", 1), k.real("y", 2)
    else:
        x, y = k.real("x", B, 1, batched=False), k.real("y", B, 2, batched=False)
    w = th.ScaleCostWeight(torch.ones(1, 1, dtype=k.dtype))
    vs = [th.Vector(tensor=x.clone(), name="x"), th.Vector(tensor=y.clone(), name="y")]
    o = th.Objective(dtype=k.dtype)
    o.add(Landscape(k, vs, w) if cost is None else cost(vs, w))
    o.update()
    opt = Stub(o, linear_solver_cls=linear, abs_err_tolerance=1e-4, rel_err_tolerance=1e-3, max_iterations=MAXIT, step_size=0.5)
    return o, vs, opt, x, y


def record(k, B, cols, best=True):
    r = lambda nm, *s: k.real(nm, *s, batched=False)
    return NonlinearOptimizerInfo(
        best_solution={"x": r("bx", B, 1).clone(), "y": r("by", B, 2).clone()} if best else None,
        last_err=None,
        best_err=k.pos("be", B, lo=0.5, hi=4.0, batched=False).clone() if best else None,
        status=np.array([S.START] * B),
        converged_iter=torch.tensor([3, 2][:B]), best_iter=torch.tensor([1, 0][:B]),
        err_history=r("eh", B, cols).clone(), state_history={"x": r("sx", B, 1, cols).clone(), "y": r("sy", B, 2, cols).clone()})


def mask(p):
    return torch.tensor([c == "T" for c in p])


def _loop(it, conv, rej, attempts, force=False):
    def body(k):
        with torch.no_grad():
            run(k)

    def run(k):
        o, vs, opt, x, y = scene(k)
        go = loop_step(NonlinearLeastSquares._optimize_loop, need=("it_", "iters_done", "converged_indices", "all_reject_attempts", "info"))
        d = k.real("d", 2, 3, batched=False)
        opt.answer, opt.rejected = d, None if rej is None else mask(rej)
        opt.linear_solver.answer = d
        info = record(k, 2, MAXIT + 1)
        E0 = o.error_metric()
        info.last_err = E0
        for i, c in enumerate(conv):
            if c == "T":
                info.status[i] = S.CONVERGED
        before = {n: t.clone() for n, t in [("eh", info.err_history), ("sx", info.state_history["x"]), ("sy", info.state_history["y"]), ("bx", info.best_solution["x"]), ("by", info.best_solution["y"]), ("be", info.best_err), ("ci", info.converged_iter), ("bi", info.best_iter)]}
        status0 = list(info.status)
        calls = []
        r = go(dict(it_=it, iters_done=it, converged_indices=mask(conv), all_reject_attempts=attempts), opt, num_iter=MAXIT, info=info, verbose=False, end_iter_callback=lambda *a: calls.append(a), _last_implicit_diff_step=force)
        # what the iteration must have done
        skip = torch.zeros(2, dtype=torch.bool) if force else mask(conv)
        rj = torch.zeros(2, dtype=torch.bool) if rej is None or force else mask(rej)
        scale = 1.0 if force else 0.5
        keep = (skip | rj).view(2, 1)
        x1, y1 = torch.where(keep, x, x + scale * d[:, :1]), torch.where(keep, y, y + scale * d[:, 1:])
        k.eq("x after the step", vs[0].tensor, x1, ctol=1e-12)
        k.eq("y after the step", vs[1].tensor, y1, ctol=1e-12)
        k.same("linearised once", opt.linear_solver.linearization.calls, (("hess", force),))
        again = bool(rj.all()) and attempts + 1 < 3
        if again:
            k.same("tries again", r.exited, False)
            st = r.state
            k.same("the counters", (st["it_"], st["iters_done"], st["all_reject_attempts"]), (it, it, attempts + 1))
            k.same("nobody converged", st["converged_indices"].tolist() if not k.symbolic else None, mask(conv).tolist() if not k.symbolic else None)
            k.eq("converged as before", st["converged_indices"].to(k.dtype), mask(conv).to(k.dtype))
            E1, it1, conv1 = E0, it, None
            k.same("status as before", list(info.status), status0)
            k.same("no callback", len(calls), 0)
            for nm, a in [("eh", info.err_history), ("sx", info.state_history["x"]), ("sy", info.state_history["y"]), ("bx", info.best_solution["x"]), ("by", info.best_solution["y"]), ("be", info.best_err)]:
                k.eq(nm + " as before", a, before[nm], ctol=0)
            k.eq("last error as before", info.last_err, E0)
            return
        E1 = o.error_metric()
        settled = ((E0 - E1).abs() < 1e-4) | (((E0 - E1) / E0).abs() < 1e-3)
        stuck = torch.zeros(2, dtype=torch.bool) if bool(rj.all()) else rj
        conv1 = (E1.abs().mean() < 1e-4) | mask(conv) | (settled & ~stuck)
        now = conv1.numpy()
        want = [S.CONVERGED if c or s == S.CONVERGED else s for c, s in zip(now, status0)]
        fin = bool(now.all())
        k.same("stops when all have converged", r.exited, fin)
        k.eq("last error is the error now", info.last_err, E1)
        col = it + 1
        for c in range(MAXIT + 1):
            k.eq(f"error history {c}", info.err_history[:, c], E1 if c == col else before["eh"][:, c])
            k.eq(f"x history {c}", info.state_history["x"][..., c], x1 if c == col else before["sx"][..., c])
            k.eq(f"y history {c}", info.state_history["y"][..., c], y1 if c == col else before["sy"][..., c])
        better = E1 < before["be"]
        bm = torch.tensor(better.numpy())
        k.eq("best error", info.best_err, torch.where(bm, E1, before["be"]))
        k.eq("best x", info.best_solution["x"], torch.where(bm.view(2, 1), x1, before["bx"]))
        k.eq("best y", info.best_solution["y"], torch.where(bm.view(2, 1), y1, before["by"]))
        k.eq("best iteration", info.best_iter.to(k.dtype), torch.where(bm, torch.full((2,), float(it), dtype=k.dtype), before["bi"].to(k.dtype)))
        k.eq("converged iteration", info.converged_iter.to(k.dtype), (before["ci"] + (~mask(conv)).long()).to(k.dtype))
        if r.exited:
            k.same("iterations", r.value, it + 1)
            k.same("status at the end", list(info.status), want)
        else:
            st = r.state
            k.same("the counters", (st["it_"], st["iters_done"], st["all_reject_attempts"]), (it + 1, it + 1, 0))
            k.eq("who has converged", st["converged_indices"].to(k.dtype), conv1.to(k.dtype))
            k.same("status", list(info.status), want)
            k.same("callback", [c[3] for c in calls], [it])

    return body


for _it in (0, 2, 3):
    for _c in ("FF", "TF"):
        for _r, _a in [(None, 0), ("FF", 2), ("TF", 1), ("FT", 0)] + [("TT", a) for a in (0, 1, 2)]:
            if _it == 3 and _r in ("FF", "FT"):
                continue
            contract("C17", f"one iteration/{_it}/converged {_c}/rejected {_r}/{_a}", con=(1, 1), budget=60, npaths=64, internal=True,
                     funcs=["NonlinearLeastSquares._optimize_loop", "NonlinearLeastSquares._step", "NonlinearOptimizer._update_info", "NonlinearOptimizer._check_convergence"])(_loop(_it, _c, _r, _a))
contract("C17", "one iteration/last implicit step", con=(1, 1), budget=60, npaths=64, internal=True, funcs=["NonlinearLeastSquares._optimize_loop", "NonlinearLeastSquares._step"])(_loop(0, "FF", "TT", 0, force=True))
contract("C17", "one iteration/last implicit step, elements converged", con=(1, 1), budget=60, npaths=64, internal=True, funcs=["NonlinearLeastSquares._optimize_loop", "NonlinearLeastSquares._step"])(_loop(0, "TF", "TF", 0, force=True))


# -- the ways out of the loop -----------------------------------------------------------
@contract("C17", "budget used", con=(1, 1), budget=30, internal=True, funcs=["NonlinearLeastSquares._optimize_loop"])
def budget_used(k):
    with torch.no_grad():
        for conv in ("FF", "TF", "FT"):
            o, vs, opt, x, y = scene(k)
            go = loop_step(NonlinearLeastSquares._optimize_loop, need=("it_", "iters_done", "converged_indices"))
            info = record(k, 2, MAXIT + 1)
            info.last_err = E = o.error_metric()
            eh = info.err_history.clone()
            for i, c in enumerate(conv):
                if c == "T":
                    info.status[i] = S.CONVERGED
            opt.answer = k.real("d", 2, 3, batched=False)
            for num in (MAXIT, 2):
                r = go(dict(it_=num, iters_done=num, converged_indices=mask(conv), all_reject_attempts=1), opt, num_iter=num, info=info, verbose=False)
                k.same(f"{conv}/{num}/iterations", (r.exited, r.value), (True, num))
                k.same(f"{conv}/{num}/status", list(info.status), [S.CONVERGED if c == "T" else S.MAX_ITERATIONS for c in conv])
                k.eq(f"{conv}/{num}/x", vs[0].tensor, x, ctol=0)
                k.eq(f"{conv}/{num}/last error", info.last_err, E, ctol=0)
                k.eq(f"{conv}/{num}/history", info.err_history, eh, ctol=0)
                k.same(f"{conv}/{num}/nothing linearised", opt.linear_solver.linearization.calls, ())


@contract("C17", "failing solver", con=(1, 1), budget=30, internal=True, funcs=["NonlinearLeastSquares._optimize_loop"])
def failing(k):
    for it in (0, 2):
        for conv in ("FF", "TF"):
            for grad in (False, True):
                o, vs, opt, x, y = scene(k)
                go = loop_step(NonlinearLeastSquares._optimize_loop, need=("it_", "iters_done", "converged_indices"))
                info = record(k, 2, MAXIT + 1)
                info.last_err = E = o.error_metric()
                eh, bx, be = info.err_history.clone(), info.best_solution["x"].clone(), info.best_err.clone()
                for i, c in enumerate(conv):
                    if c == "T":
                        info.status[i] = S.CONVERGED
                opt.answer = RuntimeError("singular")
                nm = f"{it}/{conv}/{grad}"
                call = lambda: go(dict(it_=it, iters_done=it, converged_indices=mask(conv), all_reject_attempts=0), opt, num_iter=MAXIT, info=info, verbose=False)
                if grad:
                    with torch.enable_grad():
                        k.raises(nm + "/raises", call, RuntimeError)
                else:
                    with torch.no_grad(), warnings.catch_warnings(record=True) as ws:
                        warnings.simplefilter("always")
                        r = call()
                    k.same(nm + "/iterations", (r.exited, r.value), (True, it))
                    k.same(nm + "/status", list(info.status), [S.FAIL] * 2)
                    k.same(nm + "/warned", any(issubclass(w.category, RuntimeWarning) for w in ws), True)
                k.eq(nm + "/x", vs[0].tensor, x, ctol=0)
                k.eq(nm + "/history", info.err_history, eh, ctol=0)
                k.eq(nm + "/best", info.best_solution["x"], bx, ctol=0)
                k.eq(nm + "/best error", info.best_err, be, ctol=0)
                k.eq(nm + "/last error", info.last_err, E, ctol=0)


# -- one step, any batch ----------------------------------------------------------------
@contract("C17", "_step", con=(6, 1), budget=60, funcs=["NonlinearLeastSquares._step", "NonlinearLeastSquares._compute_retracted_tensors_and_error"])
def one_step(k):
    """any batch size: whatever the masks, an element moves exactly when it is not frozen
    and not rejected, and the error returned is the one of the variables left."""
    with torch.no_grad():
        d = k.real("d", 3)
        conv, rej = k.real("c", 1)[:, 0] > 0, k.real("r", 1)[:, 0] > 0.3
        for r in (None, rej):
            for force in (False, True):
                o, vs, opt, x, y = scene(k, None, cost=lambda vs, w: Quad(vs, [], w, 2, name="q"))
                E0 = o.error_metric()
                opt.rejected = r
                opt.seen = None
                err, out = opt._step(d, E0, conv, force, delta_forced_to_gn=force)
                nm = f"{'no ' if r is None else ''}mask/{'forced' if force else 'free'}"
                if force:
                    keep = torch.zeros_like(conv)
                else:
                    keep = conv if r is None else conv | rej
                k.eq(nm + "/x", vs[0].tensor, torch.where(keep.view(-1, 1), x, x + d[:, :1]), ctol=1e-12)
                k.eq(nm + "/y", vs[1].tensor, torch.where(keep.view(-1, 1), y, y + d[:, 1:]), ctol=1e-12)
                k.eq(nm + "/error", err, o.error_metric(), ctol=1e-12)
                if not force:
                    sd, ne, pe = opt.seen
                    k.eq(nm + "/the method saw the direction", sd, d, ctol=0)
                    k.eq(nm + "/the method saw the previous error", pe, E0, ctol=0)


@contract("C17", "_check_convergence", con=(8, 1), budget=30, funcs=["NonlinearOptimizer._check_convergence"])
def convergence(k):
    o, vs, opt, x, y = scene(k, None)
    E, L = k.pos("E", 3, batched=False), k.pos("L", 3, batched=False)
    for ab, re in ((1e-4, 1e-3), (0.3, 0.0), (0.0, 0.4)):
        opt.set_params(abs_err_tolerance=ab, rel_err_tolerance=re)
        c = opt._check_convergence(E, L)
        k.true(f"{ab}/{re}", c == ((E.abs().mean() < ab) | ((L - E).abs() < ab) | (((L - E) / L).abs() < re)))
        for p in ("TFF", "FTT", "FFF", "TTT"):
            c = opt._check_convergence(E, L, mask(p))
            k.true(f"{ab}/{re}/rejected {p}", c == ((E.abs().mean() < ab) | ((((L - E).abs() < ab) | (((L - E) / L).abs() < re)) & ~mask(p))))
        k.same(f"{ab}/{re}/dtype", c.dtype, torch.bool)


@contract("C17", "_check_convergence of small errors", mode="con", con=(8, 1), funcs=["NonlinearOptimizer._check_convergence"])
def convergence_small(k):
    o, vs, opt, x, y = scene(k, None)
    opt.set_params(abs_err_tolerance=1e-3, rel_err_tolerance=1e-9)
    E, L = k.pos("E", 1)[:, 0] * 1e-4, k.pos("L", 1)[:, 0]
    k.same("all small", opt._check_convergence(E, L).tolist(), [True] * k.B)
    E = torch.zeros(k.B, dtype=k.dtype)
    k.same("zero before and after", opt._check_convergence(E, E).tolist(), [True] * k.B)
    big = torch.full((k.B,), 5.0, dtype=k.dtype)
    k.same("from zero up", opt._check_convergence(big, E).tolist(), [False] * k.B)
    nan = torch.full((k.B,), float("nan"), dtype=k.dtype)
    k.same("not a number", opt._check_convergence(nan, big).tolist(), [False] * k.B)


# -- the records at the start and after two loops -----------------------------------------
@contract("C17", "_init_info", con=(6, 1), dtypes=("float64", "float32"), budget=40, funcs=["NonlinearOptimizer._init_info", "NonlinearOptimizer._maybe_init_best_solution"])
def init_info(k):
    for best, eh, sh in itertools.product((False, True), repeat=3):
        o, vs, opt, x, y = scene(k, 2)
        info = opt._init_info(best, eh, sh)
        nm = f"{best}/{eh}/{sh}"
        E = o.error_metric()
        k.eq(nm + "/last", info.last_err, E, ctol=0)
        k.same(nm + "/status", list(info.status), [S.START] * 2)
        k.eq(nm + "/converged", info.converged_iter.to(k.dtype), 0 * E, ctol=0)
        k.eq(nm + "/best iteration", info.best_iter.to(k.dtype), 0 * E, ctol=0)
        k.same(nm + "/what is kept", (info.best_solution is not None, info.best_err is not None, info.err_history is not None, info.state_history is not None), (best, best, eh, sh))
        if best:
            k.eq(nm + "/best error", info.best_err, E, ctol=0)
            k.eq(nm + "/best x", info.best_solution["x"], x, ctol=0)
            k.eq(nm + "/best y", info.best_solution["y"], y, ctol=0)
            info.best_solution["x"][0] = 9.0
            info.best_err[0] = 9.0
            k.eq(nm + "/x unaffected by the record", vs[0].tensor, x, ctol=0)
            k.eq(nm + "/last error is another tensor", info.last_err, E, ctol=0)
        if eh:
            k.same(nm + "/shape", tuple(info.err_history.shape), (2, MAXIT + 1))
            k.same(nm + "/dtype", info.err_history.dtype, k.dtype)
            k.eq(nm + "/first error", info.err_history[:, 0], E, ctol=0)
        if sh:
            k.same(nm + "/shapes", [tuple(info.state_history[n].shape) for n in "xy"], [(2, 1, MAXIT + 1), (2, 2, MAXIT + 1)])
            k.same(nm + "/state dtype", [info.state_history[n].dtype for n in "xy"], [k.dtype] * 2)
            k.eq(nm + "/first x", info.state_history["x"][..., 0], x, ctol=0)
            k.eq(nm + "/first y", info.state_history["y"][..., 0], y, ctol=0)


@contract("C17", "split", mode="con", con=(1,), funcs=["NonlinearOptimizer._split_backward_iters"])
def split(k):
    o, vs, opt, x, y = scene(k, 2)
    for mx in range(0, 6):
        opt.set_params(max_iterations=mx)
        for m in (BackwardMode.UNROLL, BackwardMode.DLM):
            k.same(f"{mx}/{m}", opt._split_backward_iters(backward_mode=m), (mx, 0))
        if mx:
            k.same(f"{mx}/implicit", opt._split_backward_iters(backward_mode=BackwardMode.IMPLICIT), (1, mx - 1))
        for b in range(0, 8):
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                k.same(f"{mx}/truncated {b}", opt._split_backward_iters(backward_mode=BackwardMode.TRUNCATED, backward_num_iterations=b), (min(b, mx), mx - min(b, mx)))
        k.raises(f"{mx}/truncated needs a number", lambda: opt._split_backward_iters(backward_mode=BackwardMode.TRUNCATED), ValueError)


MS, CV, FL = S.MAX_ITERATIONS, S.CONVERGED, S.FAIL


def _merge(n, g, st, gst):
    def body(k):
        with torch.no_grad():
            o, vs, opt, x, y = scene(k)
            r = lambda nm, *s: k.real(nm, *s, batched=False).clone()
            info = record(k, 2, MAXIT + 1)
            info.last_err = k.pos("le", 2, batched=False)
            info.status = np.array(st)
            info.converged_iter = torch.tensor([n, min(n, 1)])
            gi = NonlinearOptimizerInfo(best_solution={"x": r("gx", 2, 1), "y": r("gy", 2, 2)}, last_err=k.pos("gl", 2, batched=False), best_err=k.pos("gb", 2, batched=False).clone(),
                                        status=np.array(gst), converged_iter=torch.tensor([min(1, g), g]), best_iter=torch.tensor([0, max(g - 1, 0)]),
                                        err_history=r("geh", 2, MAXIT + 1), state_history={"x": r("gsx", 2, 1, MAXIT + 1), "y": r("gsy", 2, 2, MAXIT + 1)})
            # the second loop starts where the first one ended
            gi.err_history[:, 0] = info.err_history[:, n]
            for v in "xy":
                gi.state_history[v][..., 0] = info.state_history[v][..., n]
            be, bx, by = info.best_err.clone(), info.best_solution["x"].clone(), info.best_solution["y"].clone()
            eh, sx, bi, ci = info.err_history.clone(), info.state_history["x"].clone(), info.best_iter.clone(), info.converged_iter.clone()
            opt._merge_infos(gi, n, g, info)
            for c in range(MAXIT + 1):
                fromg = n < c <= n + g
                k.eq(f"errors {c}", info.err_history[:, c], gi.err_history[:, c - n] if fromg else eh[:, c], ctol=0)
                k.eq(f"states {c}", info.state_history["x"][..., c], gi.state_history["x"][..., c - n] if fromg else sx[..., c], ctol=0)
            k.eq("last error", info.last_err, gi.last_err, ctol=0)
            bm = torch.tensor((gi.best_err < be).numpy())
            lower = torch.tensor((be < gi.best_err).numpy())
            k.eq("best error", info.best_err, torch.where(bm, gi.best_err, be), ctol=0)
            for i in range(2):
                # all of it comes from one loop; with equal errors from either
                it, first, second = info.best_iter[i].to(k.dtype), float(bi[i]), float(gi.best_iter[i] + n)
                tie = not bool(bm[i]) and not bool(lower[i])
                for v, old in (("x", bx), ("y", by)):
                    got, new = info.best_solution[v][i], gi.best_solution[v][i]
                    if not tie:
                        k.eq(f"best {v} {i}", got, new if bool(bm[i]) else old[i], ctol=0)
                        k.eq(f"best iteration {i}", it, 0 * it + (second if bool(bm[i]) else first), ctol=0)
                    elif first != second:
                        k.eq(f"best iteration {i}", (it - first) * (it - second), 0 * it, ctol=0)
                        k.eq(f"best {v} {i}, if its own", (it - first) * (got - new), 0 * got, ctol=0)
                        k.eq(f"best {v} {i}, if the first's", (it - second) * (got - old[i]), 0 * got, ctol=0)
            want = [b if a == MS else a for a, b in zip(st, gst)]
            k.same("status", list(info.status), want)
            wc = [-1 if a == MS and b == MS else int(ci[i]) + int(gi.converged_iter[i]) if a == MS else int(ci[i]) for i, (a, b) in enumerate(zip(st, gst))]
            k.eq("converged iterations", info.converged_iter.to(k.dtype), torch.tensor(wc).to(k.dtype), ctol=0)

    return body


for _j, (_n, _g, _st, _gst) in enumerate([(3, 1, (MS, MS), (MS, CV)), (2, 2, (CV, MS), (CV, MS)), (0, 4, (MS, MS), (CV, CV)), (1, 2, (CV, CV), (MS, CV)), (4, 0, (MS, CV), (MS, MS)), (2, 1, (FL, FL), (MS, MS)), (2, 0, (MS, MS), (FL, FL)), (1, 1, (CV, MS), (FL, FL))]):
    contract("C17", f"merged records {_j}", con=(1, 1), budget=30, npaths=64, funcs=["NonlinearOptimizer._merge_infos"])(_merge(_n, _g, _st, _gst))


@contract("C17", "best of equals", mode="con", con=(4,), funcs=["NonlinearOptimizer._merge_infos", "NonlinearOptimizer._update_info"])
def equals(k):
    """steps that jump between two points with the same error: the best solution is the
    state at the best iteration, whatever the split of the iterations."""
    x0 = torch.tensor([[3.0], [1.0], [1.0], [2.0]], dtype=k.dtype)[: k.B]
    points = torch.tensor([[1.0, 2.0, -1.0, 1.0], [-1.0, 1.0, 2.0, -1.0], [2.0, 1.0, -3.0, -1.0], [-2.0, 2.0, -2.0, 2.0]], dtype=k.dtype)[: k.B]
    for mode, kw in (("unroll", {}), ("implicit", {}), *[("truncated", dict(backward_num_iterations=b)) for b in (1, 2, 3, 4)]):
        v = th.Vector(1, name="x", dtype=k.dtype)
        o = th.Objective(dtype=k.dtype)
        o.add(th.Difference(v, th.Vector(tensor=torch.zeros(1, 1, dtype=k.dtype), name="t"), th.ScaleCostWeight(torch.ones(1, 1, dtype=k.dtype)), name="c"))
        opt = th.GaussNewton(o, max_iterations=4, abs_err_tolerance=0.0, rel_err_tolerance=0.0)
        at = iter(range(4))
        opt.compute_delta = lambda **kw: points[:, next(at)].unsqueeze(1) - v.tensor
        _, info = th.TheseusLayer(opt).forward({"x": x0.clone()}, dict(track_best_solution=True, track_state_history=True, track_err_history=True, backward_mode=mode, **kw))
        nm = f"{mode}/{kw.get('backward_num_iterations', '')}"
        for i in range(k.B):
            it = int(info.best_iter[i]) + 1  # initial values have no iteration; 0 is reported
            at = [j for j in ((0, 1) if it == 1 else (it,)) if torch.equal(info.best_solution["x"][i], info.state_history["x"][i, :, j])]
            k.same(f"{nm}/{i}/the state of that iteration", len(at) > 0, True)
            if at:
                k.eq(f"{nm}/{i}/error", info.best_err[i], info.err_history[i, at[0]], ctol=0)
            k.eq(f"{nm}/{i}/smallest", info.best_err[i], info.err_history[i].min(), ctol=0)


# -- how the loops are put together -------------------------------------------------------
@contract("C17", "_optimize_impl", mode="con", con=(3,), internal=True, funcs=["NonlinearLeastSquares._optimize_impl"])
def impl(k):
    """the loops are run with the budget, the gradient mode and the step kind of the
    backward mode, from the contract of the loop (whatever it does)."""
    rng = random.Random(3)
    for mode in list(BackwardMode) + ["unroll", "Truncated", "implicit", "DLM"]:
        for num in (0, 1, 3, MAXIT):
            for grad in (True, False):
                m = BackwardMode.resolve(mode)
                if num and m != BackwardMode.TRUNCATED:
                    continue
                o, vs, opt, x, y = scene(k, 3)
                calls, done = [], rng.randint(0, 2)

                def loop(**kw):
                    calls.append((kw["num_iter"], torch.is_grad_enabled(), bool(kw["_last_implicit_diff_step"]), kw["info"], kw["end_iter_callback"], kw.get("extra")))
                    kw["info"].status[:] = S.MAX_ITERATIONS
                    for v in vs:
                        v.update(v.tensor + 1.0)
                    return done

                resets, merges = [], []
                opt._optimize_loop = loop
                opt.reset = lambda **kw: resets.append(kw)
                real = opt._merge_infos
                opt._merge_infos = lambda *a: merges.append(a) or real(*a)
                cb = lambda *a: None
                kw = dict(backward_num_iterations=num) if m == BackwardMode.TRUNCATED else {}
                with torch.set_grad_enabled(grad):
                    info = opt._optimize_impl(track_best_solution=True, track_err_history=not grad, track_state_history=not grad, backward_mode=mode, end_iter_callback=cb, extra=5, **kw)
                nm = f"{mode}/{num}/{grad}"
                if m in (BackwardMode.UNROLL, BackwardMode.DLM):
                    want = [(MAXIT, grad, False)]
                elif m == BackwardMode.IMPLICIT:
                    want = [(MAXIT - 1, False, False), (1, grad, True)]
                else:
                    want = [(MAXIT - num, False, False), (num, grad, False)]
                k.same(nm + "/loops", [c[:3] for c in calls], want)
                k.same(nm + "/callback and options", [c[4:] for c in calls], [(cb, 5)] * len(want))
                k.same(nm + "/reset", [(r["extra"], r["backward_mode"]) for r in resets], [(5, m)])
                k.same(nm + "/the record is the first loop's", info is calls[0][3], True)
                if len(want) == 2:
                    k.same(nm + "/the second has its own", calls[1][3] is not calls[0][3], True)
                    k.same(nm + "/merged", [(a[0] is calls[1][3], a[1], a[2], a[3] is calls[0][3]) for a in merges], [(True, done, done, True)])
                    k.eq(nm + "/it starts where the first ended", calls[1][3].best_solution["x"], x + 1.0, ctol=0)
                k.same(nm + "/not converged", info.converged_iter.tolist(), [-1] * 3)


# -- whole optimisations against a reference --------------------------------------------
class Script(Stub):
    """directions, rejections and failures read from a script, one entry per attempt."""

    def start(self, dirs, rejs, fail):
        self.dirs, self.rejs, self.fail, self.at = dirs, rejs, fail, 0

    def compute_delta(self, **kw):
        if self.at == self.fail:
            raise RuntimeError("scripted")
        d = self.dirs[self.at]
        self.linear_solver.answer = d
        return d

    def _complete_step(self, *a, **kw):
        r = self.rejs[self.at]
        self.at += 1
        return r


def reference(x0, err, dirs, rejs, fail, budget, ab, re, step, tries=3):
    """what a loop of `budget` iterations does and records (the statement, in code)."""
    B = x0.shape[0]
    x, E = x0.clone(), err(x0)
    out = dict(errs=[E], xs=[x], status=[S.START] * B, cit=[0] * B, best=E.clone(), bx=x.clone(), bit=[0] * B)
    conv, at, it, streak = [False] * B, 0, 0, 0
    while it < budget:
        if at == fail:
            out["status"] = [S.FAIL] * B
            break
        d, r = dirs[at], rejs[at]
        at += 1
        rej = [False] * B if r is None else r.tolist()
        if all(rej):
            streak += 1
            if streak < tries:
                continue
            stuck = [False] * B
        else:
            stuck = rej
        streak = 0
        x = x.clone()
        for i in range(B):
            if not conv[i] and not rej[i]:
                x[i] = x[i] + step * d[i]
        E1 = err(x)
        for i in range(B):
            out["cit"][i] += not conv[i]
            if E1[i] < out["best"][i]:
                out["best"][i], out["bit"][i], out["bx"][i] = E1[i], it, x[i]
        everyone = bool(E1.abs().mean() < ab)
        for i in range(B):
            ch, rel = (E[i] - E1[i]).abs(), ((E[i] - E1[i]) / E[i]).abs()
            conv[i] = everyone or conv[i] or bool((ch < ab) | (rel < re)) and not stuck[i]
            if conv[i]:
                out["status"][i] = S.CONVERGED
        E = E1
        out["errs"].append(E)
        out["xs"].append(x)
        it += 1
        if all(conv):
            break
    out["status"] = [S.MAX_ITERATIONS if s == S.START else s for s in out["status"]]
    out.update(done=it, used=at, x=x, E=E)
    return out


def _whole(seed):
    def body(k):
        rng = random.Random(seed)
        g = torch.Generator().manual_seed(seed)
        for trial in range(40):
            B, budget = rng.choice([1, 1, 2, 3, 4]), rng.choice([0, 1, 2, 5, 8])
            x0 = torch.randn(B, 3, generator=g, dtype=torch.float64).to(k.dtype)
            n = 40
            scale = torch.tensor([rng.choice([1.0, 0.1, 1e-3, 1e-6, 0.0]) for _ in range(n * B)], dtype=torch.float64).view(n, B, 1)
            dirs = (torch.randn(n, B, 3, generator=g, dtype=torch.float64) * scale).to(k.dtype)
            p = rng.choice([0.0, 0.2, 0.7, 1.0])
            rejs = [None if rng.random() < 0.2 else torch.rand(B, generator=g) < p for _ in range(n)]
            step, ab, re = rng.choice([1.0, 0.5]), rng.choice([1e-6, 1e-2, 0.0]), rng.choice([1e-5, 1e-2, 0.0])
            mode = rng.choice(["unroll", "unroll", "truncated", "dlm"])
            back = rng.randint(0, budget)
            fail = rng.randint(0, budget) if rng.random() < 0.2 else -1
            w = th.ScaleCostWeight(torch.ones(1, 1, dtype=k.dtype))
            vs = [th.Vector(tensor=x0[:, :1].clone(), name="x"), th.Vector(tensor=x0[:, 1:].clone(), name="y")]
            o = th.Objective(dtype=k.dtype)
            o.add(Landscape(k, vs, w))
            opt = Script(o, linear_solver_cls=StubSolver, abs_err_tolerance=ab, rel_err_tolerance=re, max_iterations=budget, step_size=step)
            o.update()
            opt.start(dirs, rejs, fail)
            track = [rng.random() < 0.8 for _ in range(3)]
            err = lambda x: 0.5 * (terrain(x[:, :1], x[:, 1:]) ** 2).sum(dim=1)
            seen = []
            kw = dict(backward_num_iterations=back) if mode == "truncated" else {}
            with torch.no_grad(), warnings.catch_warnings():
                warnings.simplefilter("ignore")
                info = opt.optimize(track_best_solution=track[0], track_err_history=track[1], track_state_history=track[2], backward_mode=mode, end_iter_callback=lambda op, inf, d, i: seen.append((i, inf.last_err.clone())), **kw)
            if mode == "truncated":
                a = reference(x0, err, dirs, rejs, fail, budget - back, ab, re, step)
                u = a["used"]
                b = reference(a["x"], err, dirs[u:], rejs[u:], -1 if fail < 0 else fail - u, back, ab, re, step)
                failed = a["status"][0] == S.FAIL
                errs, xs = a["errs"] + b["errs"][1:], a["xs"] + b["xs"][1:]
                st = [s2 if s1 == S.MAX_ITERATIONS else s1 for s1, s2 in zip(a["status"], b["status"])]
                best = torch.minimum(a["best"], b["best"])
                bit = [bb + a["done"] if b["best"][i] < a["best"][i] else ab_ for i, (ab_, bb) in enumerate(zip(a["bit"], b["bit"]))]
                cit = [-1 if s1 == S.MAX_ITERATIONS and s2 == S.MAX_ITERATIONS else c1 + (c2 if s1 == S.MAX_ITERATIONS else 0) for s1, s2, c1, c2 in zip(a["status"], b["status"], a["cit"], b["cit"])]
                x, E = b["x"], b["E"]
            else:
                a = reference(x0, err, dirs, rejs, fail, budget, ab, re, step)
                errs, xs, st, best, bit, x, E = a["errs"], a["xs"], a["status"], a["best"], a["bit"], a["x"], a["E"]
                cit = [-1 if s == S.MAX_ITERATIONS else c for s, c in zip(st, a["cit"])]
            nm = f"{trial}/{mode}/{budget}"
            tol = 1e-12 if k.dtype == torch.float64 else 1e-5
            k.same(nm + "/status", list(info.status), st)
            k.same(nm + "/converged iteration", info.converged_iter.tolist(), cit)
            got = torch.cat([v.tensor for v in vs], dim=1)
            k.eq(nm + "/variables", got, x, ctol=tol)
            k.eq(nm + "/last error", info.last_err, E, ctol=tol)
            k.eq(nm + "/last error is the objective's", info.last_err, o.error_metric(), ctol=tol)
            if track[0]:
                k.eq(nm + "/best error", info.best_err, best, ctol=tol)
                k.same(nm + "/best iteration", info.best_iter.tolist(), bit)
                k.eq(nm + "/best error is the best solution's", info.best_err, err(torch.cat([info.best_solution["x"], info.best_solution["y"]], dim=1)), ctol=tol)
            if track[1]:
                m = len(errs)
                k.eq(nm + "/errors", info.err_history[:, :m], torch.stack(errs, dim=1), ctol=tol)
                k.same(nm + "/unused errors", bool(torch.isinf(info.err_history[:, m:]).all()), True)
            if track[2]:
                m = len(xs)
                k.eq(nm + "/states", torch.cat([info.state_history["x"], info.state_history["y"]], dim=1)[..., :m], torch.stack(xs, dim=2), ctol=tol)
                k.same(nm + "/unused states", bool(torch.isinf(info.state_history["x"][..., m:]).all()), True)

    return body


for _s in range(3):
    contract("C17", f"whole runs {_s}", mode="con", con=(1,), dtypes=("float64",) if _s else ("float64", "float32"), funcs=["NonlinearLeastSquares._optimize_impl", "NonlinearLeastSquares._optimize_loop", "NonlinearOptimizer._merge_infos"])(_whole(_s))


@contract("C17", "real methods", mode="con", con=(1,), funcs=["NonlinearLeastSquares._optimize_impl", "GaussNewton", "LevenbergMarquardt", "Dogleg", "DCEM"])
def methods(k):
    """Gauss-Newton, Levenberg-Marquardt, Dogleg and DCEM on random problems: what they
    report agrees with the states they record."""
    g = torch.Generator().manual_seed(9)
    torch.manual_seed(9)
    rng = random.Random(9)
    for trial in range(24):
        B = rng.choice([1, 2, 4])
        cls = [th.GaussNewton, th.LevenbergMarquardt, th.Dogleg, th.DCEM][trial % 4]
        tgt = torch.randn(B, 2, generator=g, dtype=k.dtype)
        sc = torch.rand(B, 1, generator=g, dtype=k.dtype) * 3
        v = th.Vector(tensor=torch.randn(B, 2, generator=g, dtype=k.dtype), name="v")
        t, s = th.Vector(tensor=tgt, name="t"), th.Vector(tensor=sc, name="s")

        def f(optim_vars, aux_vars):
            a, (b, c) = optim_vars[0].tensor, (z.tensor for z in aux_vars)
            return torch.cat([(a - b) * (1 + c), c * (a ** 3)[:, :1] - 0.5 * a[:, 1:]], dim=1)

        o = th.Objective(dtype=k.dtype)
        o.add(th.AutoDiffCostFunction([v], f, 3, cost_weight=th.ScaleCostWeight(torch.ones(1, 1, dtype=k.dtype)), aux_vars=[t, s]))
        o.update()
        opt = cls(o, max_iterations=12)
        kw = dict(adaptive_damping=True, damping=rng.choice([1e-3, 10.0])) if cls is th.LevenbergMarquardt else {}
        x0 = v.tensor.clone()
        with torch.no_grad():
            info = opt.optimize(track_best_solution=True, track_err_history=True, track_state_history=True, **kw)
        nm = f"{trial}/{cls.__name__}"
        n = int((~torch.isinf(info.err_history)).all(dim=0).sum())
        last = info.state_history["v"][..., n - 1]
        k.eq(nm + "/first state", info.state_history["v"][..., 0], x0, ctol=0)
        k.eq(nm + "/last state", last, v.tensor, ctol=0)
        k.eq(nm + "/last error", info.last_err, o.error_metric(), ctol=1e-9)
        k.eq(nm + "/last recorded", info.err_history[:, n - 1], o.error_metric(), ctol=1e-9)
        for c in range(n):
            k.eq(f"{nm}/error {c}", info.err_history[:, c], o.error_metric({"v": info.state_history["v"][..., c]}, also_update=False), ctol=1e-9)
        b = info.err_history[:, :n].min(dim=1)
        k.eq(nm + "/best error", info.best_err, b.values, ctol=0)
        k.eq(nm + "/best solution", info.best_solution["v"], info.state_history["v"][torch.arange(B), :, b.indices], ctol=0)
        k.same(nm + "/stops", n - 1 == 12 or all(s == S.CONVERGED for s in info.status), True)
        for i in range(B):
            ci = int(info.converged_iter[i])
            k.same(f"{nm}/status {i}", info.status[i] in (S.CONVERGED, S.MAX_ITERATIONS) and (ci == -1) == (info.status[i] == S.MAX_ITERATIONS), True)
            if ci != -1 and cls is not th.DCEM:
                k.eq(f"{nm}/frozen {i}", info.state_history["v"][i, :, ci:n], info.state_history["v"][i, :, ci:ci + 1].expand(2, n - ci), ctol=0)
