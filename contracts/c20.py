"""C20: backward modes of the layer give the promised derivatives."""
import itertools
import math
import random
import warnings

import torch
import theseus as th
from theseus.optimizer.nonlinear.nonlinear_optimizer import BackwardMode
from theseus.theseus_layer import TheseusLayer
from .groups import G
from .objs import Quad, quad, quad_jac
from .zoo import specs, value, wrap
from .c17 import mask
from .c19 import Exact, bare, sq
from dv.run import contract

INFO = dict(
    level="proof",
    trusted=["torch.autograd's engine and formulas of the ATen operations", "solves of the linear system are expanded by Cramer's rule (C15, C16 cover the solvers)"],
    assumptions=["derivatives are proved for one iteration of each method (any variables and inputs, any batch) and for several iterations with rejected and converged elements under any directions; longer runs follow by the chain rule, which is autograd's",
                 "one and two variables of one degree of freedom, residuals polynomial of degree two in the variables (a general second-order jet in one dimension); Lie groups, real solvers and whole runs are bounded clauses",
                 "the gradient of the adaptive damping and of the radius by the values is that of a piecewise constant function"],
)


def problem(k, dofs=(1,), dim=2, cls=th.GaussNewton, iters=2, vectorize=True, never=True, **kw):
    """a layer over a quadratic residual of the given variables and one auxiliary variable."""
    z = lambda d: torch.zeros(1, d, dtype=k.dtype)
    vs = [th.Vector(tensor=z(d), name=f"x{i}") for i, d in enumerate(dofs)]
    a = th.Vector(tensor=z(1), name="a")
    w = th.ScaleCostWeight(th.Variable(torch.ones(1, 1, dtype=k.dtype), name="w"))
    o = th.Objective(dtype=k.dtype)
    o.add(Quad(vs, [a], w, dim, name="c"))
    opt = cls(o, max_iterations=iters, abs_err_tolerance=0.0, rel_err_tolerance=0.0, **kw)
    if never:
        opt._check_convergence = lambda err, last, rej=None: torch.zeros_like(err, dtype=torch.bool)
    return o, TheseusLayer(opt, vectorize=vectorize)


def reverse_is(k, nm, run, true, xs, m, ctol=1e-5, batched=True):
    g = k.real(f"g{m}", m) if batched else k.real(f"g{m}", xs[0].shape[0], m, batched=False)
    got = k.vjp(lambda *t: [run(*t)], xs, [g])
    for i, x in enumerate(xs):
        cols = []
        for j in range(x.shape[1]):
            V = torch.zeros_like(x)
            V[:, j] = 1.0
            d = k.D(lambda t: true(*xs[:i], t, *xs[i + 1:]), x, V)
            cols.append((g * d).sum(dim=1))
        k.eq(f"{nm}/input {i}", got[i], torch.stack(cols, dim=1), ctol=ctol)


def _layer_run(o, L, mode, **kw):
    def run(*ts):
        n = len(o.optim_vars)
        data = {f"x{i}": t for i, t in enumerate(ts[:n])}
        data.update(zip(("a", "w"), ts[n:]))
        v, _ = L.forward(data, dict(backward_mode=mode, **kw))
        return torch.cat([v[f"x{i}"] for i in range(n)], dim=1)

    return run


def inputs(k, dofs):
    return [k.real(f"x{i}", d) for i, d in enumerate(dofs)] + [k.pos("a", 1), k.pos("w", 1)]


METHODS = {
    "GaussNewton": (th.GaussNewton, {}, {}),
    "GaussNewton half steps": (th.GaussNewton, dict(step_size=0.5), {}),
    "LU": (th.GaussNewton, dict(linear_solver_cls=th.LUDenseSolver), {}),
    "LM": (th.LevenbergMarquardt, {}, dict(damping=0.3)),
    "LM ellipsoidal": (th.LevenbergMarquardt, {}, dict(damping=0.3, ellipsoidal_damping=True)),
}


def _unroll(name, dofs, dim, iters, vectorize):
    cls, okw, kw = METHODS[name]

    def body(k):
        with k.explicit_linalg(solves=True):
            o, L = problem(k, dofs, dim, cls=cls, iters=iters, vectorize=vectorize, **okw)
            run = _layer_run(o, L, "unroll", **kw)
            reverse_is(k, "unrolled", run, run, inputs(k, dofs), sum(dofs))

    return body


def assume_first_loop(o, L, ts):
    """contract of the loop that is not differentiated: it leaves any values.  Here they
    are computed from the inputs, so that a derivative through them would be seen."""
    real, n = L.optimizer._optimize_loop, len(o.optim_vars)
    xs = [t * t + ts[n] for t in ts[:n]]
    calls = []

    def loop(**kw):
        calls.append(kw["num_iter"])
        if len(calls) % 2 == 1:
            L.optimizer.objective.update({f"x{i}": o.optim_vars[f"x{i}"].tensor ** 2 + o.aux_vars["a"].tensor for i in range(n)})
            return kw["num_iter"]
        return real(**kw)

    L.optimizer._optimize_loop = loop
    return [x.detach() for x in xs], calls


def _truncated(name, dofs, dim, back, vectorize):
    """the last iterations are differentiated, from a point taken as a constant."""
    cls, okw, kw = METHODS[name]

    def body(k):
        with k.explicit_linalg(solves=True):
            o, L = problem(k, dofs, dim, cls=cls, iters=4, vectorize=vectorize, **okw)
            o2, L2 = problem(k, dofs, dim, cls=cls, iters=back, vectorize=vectorize, **okw)
            ts = inputs(k, dofs)
            n = len(dofs)
            xs, calls = assume_first_loop(o, L, ts)
            run = _layer_run(o, L, "truncated", backward_num_iterations=back, **kw)
            last = _layer_run(o2, L2, "unroll", **kw)
            k.eq("values", run(*ts), last(*xs, *ts[n:]), ctol=1e-9)
            k.same("iterations", calls, [4 - back, back])
            reverse_is(k, "truncated", run, lambda *t: last(*xs, *t[n:]), ts, sum(dofs))

    return body


def linear_system(os, a, w, dim):
    e = w.view(-1, 1) * quad(os, [a], dim)
    J = torch.cat([w.view(-1, 1, 1) * j for j in quad_jac(os, [a], dim)], dim=2)
    return J, e


def _implicit(name, dofs, dim, vectorize):
    """one more full Gauss-Newton step is taken at the end; its derivative is that of the
    implicit function defined by A'e = 0, with the Gauss-Newton Hessian."""
    cls, okw, kw = METHODS[name]

    def body(k):
        with k.explicit_linalg(solves=True):
            o, L = problem(k, dofs, dim, cls=cls, iters=3, vectorize=vectorize, **okw)
            ts = inputs(k, dofs)
            n = len(dofs)
            xs, calls = assume_first_loop(o, L, ts)
            mid = torch.cat(xs, dim=1)
            A0, _ = linear_system(xs, *ts[n:], dim)
            H0 = A0.transpose(1, 2) @ A0

            def true(*t):
                # d x / d theta = - H^-1 d(A'e)/d theta
                A, e = linear_system(xs, *t[n:], dim)
                return mid - torch.linalg.solve(H0, A.transpose(1, 2) @ e.unsqueeze(2)).squeeze(2)

            run = _layer_run(o, L, "implicit", **kw)
            k.eq("values", run(*ts), true(*ts), ctol=1e-9)
            k.same("iterations", calls, [2, 1])
            reverse_is(k, "implicit", run, true, ts, sum(dofs))

    return body


def _dlm(dofs, dim, eps, vectorize, use=None):
    """the gradient of the surrogate: (dF/dt at the solution - dF/dt at the perturbed
    point) / eps, the perturbed point being one Gauss-Newton step of F + |eps x - g/2|^2
    away from the solution."""

    def body(k):
        with k.explicit_linalg(solves=True), k.batch_sums():
            o, L = problem(k, dofs, dim, vectorize=vectorize)
            ts = inputs(k, dofs)
            n, m = len(dofs), sum(dofs)
            xs, calls = assume_first_loop(o, L, ts)
            sol = torch.cat(xs, dim=1)
            run = _layer_run(o, L, "dlm", dlm_epsilon=eps)
            k.eq("values", run(*ts), sol, ctol=1e-9)
            calls.clear()
            g = k.real(f"g{m}", m)
            got = k.vjp(lambda *t: [run(*t)], ts, [g])
            split = lambda x: list(x.split(list(dofs), dim=1))
            F = lambda x, a, w: 0.5 * (linear_system(split(x), a, w, dim)[1] ** 2).sum(dim=1, keepdim=True)
            A, e = linear_system(xs, *ts[n:], dim)
            # sqrt(2) as the code rounds it, so that 1/2 |sqrt(2) (...)|^2 is the surrogate's term
            r2 = math.sqrt(2)
            H = A.transpose(1, 2) @ A + eps * (eps * (r2 * (r2 * torch.eye(m, dtype=k.dtype))))
            grad = (A.transpose(1, 2) @ e.unsqueeze(2)).squeeze(2) + eps * (r2 * (r2 * (eps * sol - 0.5 * g)))
            there = sol - torch.linalg.solve(H, grad.unsqueeze(2)).squeeze(2)
            for i, x in enumerate(split(there)):
                k.eq(f"perturbed point {i}", L._dlm_bwd_objective.optim_vars[f"x{i}"].tensor, x, ctol=1e-9)
            for i in range(n):
                k.eq(f"initial value {i}", got[i], torch.zeros_like(got[i]), ctol=0)
            if n > 1:
                # the perturbed point is as just shown; from here on it is any point
                step = k.real("step", m)
                L._dlm_bwd_optimizer.linear_solver.solve = lambda *a, **kw: step
                there = sol + step
                calls.clear()
                got = k.vjp(lambda *t: [run(*t)], ts, [g])
            for i, nm in ((0, "a"), (1, "w")):
                aw = ts[n:]
                d = [k.D(lambda t: F(x, *aw[:i], t, *aw[i + 1:]), aw[i], torch.ones_like(aw[i])) for x in (sol, there)]
                k.eq(f"input {nm}", got[n + i], (d[0] - d[1]) / eps, ctol=1e-4)

    return body


def _related(mode, kw, vectorize):
    """inputs that share a tensor, or are computed from one another, get the sum of what
    they would get as separate inputs."""

    def body(k):
        with k.explicit_linalg(solves=True), k.batch_sums():
            o, L = problem(k, (1,), 1, iters=1, vectorize=vectorize)
            x, a, g = k.real("x0", 1), k.pos("a", 1), k.real("g1", 1)
            run = _layer_run(o, L, mode, **kw)
            for nm, f, df in (("the same tensor", lambda t: t, 1.0), ("a function of it", lambda t: 2 * t, 2.0)):
                sep = k.vjp(lambda *t: [run(*t)], [x, a, f(a)], [g])
                rel = k.vjp(lambda x, t: [run(x, t, f(t))], [x, a], [g])
                k.eq(f"{nm}/initial value", rel[0], sep[0], ctol=1e-7)
                k.eq(nm, rel[1], sep[1] + df * sep[2], ctol=1e-5)

    return body


def _moved(vectorize):
    """a layer that was moved after a backward pass gives what a new one gives."""

    def body(k):
        other = torch.float32 if k.dtype == torch.float64 else torch.float64
        for mode, kw in (("dlm", dict(dlm_epsilon=0.125)), ("unroll", {}), ("implicit", {})):
            out = []
            for first in (True, False):
                o, L = problem(k, (1, 1), 2, iters=2, vectorize=vectorize)
                run = _layer_run(o, L, mode, **kw)
                if first:
                    ts = [t.clone().requires_grad_(True) for t in inputs(k, (1, 1))]
                    run(*ts).sum().backward()
                L.to(other)
                ts = [t.to(other).clone().requires_grad_(True) for t in inputs(k, (1, 1))]
                v = run(*ts)
                v.sum().backward()
                grads = [0 * t.detach() if t.grad is None else t.grad for t in ts]
                k.same(f"{mode}/dtypes", {t.dtype for t in [v] + grads}, {other})
                out.append([v.detach()] + grads)
            for i, (p, q) in enumerate(zip(*out)):
                k.eq(f"{mode}/{i}", p, q, ctol=1e-3)

    return body


class Script(th.GaussNewton):
    """any method: directions that depend on the variables and inputs, any rejections."""

    rejects, at = (), 0

    def reset(self, **kw):
        self.at = 0

    def compute_delta(self, **kw):
        x, y, a, w = self.tensors()
        return torch.cat([a * x * (1 + self.at) - w, y * w + a * x], dim=1)

    def tensors(self):
        v = {**self.objective.optim_vars, **self.objective.aux_vars}
        return [v[n].tensor for n in ("x0", "x1", "a", "w")]

    def _complete_step(self, *a, **kw):
        self.at += 1
        return self.rejects[self.at - 1]


def _loop(rejects, converge, vectorize):
    """every iteration is differentiated, through steps that single elements reject and
    elements that have converged."""

    def body(k):
        o, L = problem(k, (1, 1), 2, cls=Script, iters=len(rejects), vectorize=vectorize, step_size=0.5)
        opt = L.optimizer
        opt.rejects = [None if r is None else mask(r) for r in rejects]
        opt._check_convergence = lambda *a: mask(converge[opt.at - 1])
        x, y = k.real("x", 2, 1, batched=False), k.real("y", 2, 1, batched=False)
        a, w = k.pos("a", 2, 1, batched=False), k.pos("w", 2, 1, batched=False)

        def run(x, y, a, w):
            v, info = L.forward({"x0": x, "x1": y, "a": a, "w": w}, dict(backward_mode="unroll"))
            return torch.cat([v["x0"], v["x1"]], dim=1)

        def true(x, y, a, w):
            done = torch.zeros(2, 1, dtype=torch.bool)
            for i, (r, c) in enumerate(zip(rejects, converge)):
                stay = done if r is None else done | mask(r).view(-1, 1)
                x, y = torch.where(stay, x, x + 0.5 * (a * x * (1 + i) - w)), torch.where(stay, y, y + 0.5 * (y * w + a * x))
                done = done | mask(c).view(-1, 1)
            return torch.cat([x, y], dim=1)

        xs = [x, y, a, w]
        k.eq("values", run(*xs), true(*xs), ctol=1e-9)
        g = k.real("g", 2, 2, batched=False)
        got, want = k.vjp(lambda *t: [run(*t)], xs, [g]), k.vjp(lambda *t: [true(*t)], xs, [g])
        for n, p, q in zip(("x", "y", "a", "w"), got, want):
            k.eq(f"gradient by {n}", p, q, ctol=1e-8)

    return body


def _dogleg(k):
    """the dogleg step's derivative by the gradient, the product and the Gauss-Newton step."""
    g, p, gn = (k.real(n, 1, 1, batched=False) for n in ("g1", "p1", "gn1"))
    tr = k.pos("tr", 1, 1, batched=False)
    k.assume(sq(g) > 1e-2)
    k.assume(sq(p) > 1e-2)

    def run(g, p, gn):
        d = bare(k, g, p, gn, tr)
        return d._compute_delta_impl()

    with Exact(k):
        reverse_is(k, "dogleg", run, run, [g, p, gn], 1, ctol=1e-4, batched=False)


for _r, _c in [((None, None), ("FF", "FF")), (("TF", "FF"), ("FF", "FF")), (("FF", "FT"), ("TF", "FF")), (("FT", None, "FF"), ("FF", "FT", "FF"))]:
    for _v in (True, False):
        contract("C20", f"iterations/{'-'.join(x or 'any' for x in _r)}/{'-'.join(_c)}{'' if _v else '/not vectorized'}", con=(4, 1), budget=60, funcs=["NonlinearLeastSquares._optimize_loop", "NonlinearLeastSquares._step", "Objective.retract_vars_sequence"])(_loop(_r, _c, _v))
contract("C20", "dogleg direction", con=(16, 1), budget=100, funcs=["Dogleg._compute_delta_impl"])(_dogleg)

for _v in (True, False):
    _t = "" if _v else "/not vectorized"
    for _m in METHODS:
        contract("C20", f"unroll/{_m}{_t}", con=(8, 1), budget=60, funcs=["TheseusLayer.forward", "theseus_layer._forward", "NonlinearLeastSquares._optimize_impl", "NonlinearLeastSquares._step"])(_unroll(_m, (1,), 2, 1, _v))
    for _m in ("GaussNewton", "LM", "GaussNewton half steps"):
        contract("C20", f"truncated/{_m}{_t}", con=(8, 1), budget=60, funcs=["NonlinearOptimizer._split_backward_iters", "NonlinearLeastSquares._optimize_impl"])(_truncated(_m, (1,), 2, 1, _v))
        contract("C20", f"implicit/{_m}{_t}", con=(8, 1), budget=60, funcs=["NonlinearLeastSquares._optimize_impl", "NonlinearLeastSquares._optimize_loop"])(_implicit(_m, (1,), 2, _v))
    contract("C20", f"dlm{_t}", con=(8, 1), budget=60, funcs=["TheseusLayerDLMForward.forward", "TheseusLayerDLMForward.backward", "theseus_layer._instantiate_dlm_bwd_objective"])(_dlm((1,), 1, 0.125, _v))
    for _m, _kw in (("dlm", dict(dlm_epsilon=0.125)), ("unroll", {}), ("implicit", {})):
        contract("C20", f"related inputs/{_m}{_t}", con=(8, 1), budget=60, funcs=["TheseusLayer.forward", "TheseusLayerDLMForward.forward", "TheseusLayerDLMForward.backward", "TheseusLayerDLMForward._as_leaves"])(_related(_m, _kw, _v))
    contract("C20", f"moved{_t}", mode="con", con=(3,), dtypes=("float64", "float32"), funcs=["TheseusLayer.to", "TheseusLayerDLMForward.backward"])(_moved(_v))
    contract("C20", f"dlm/two variables{_t}", con=(8, 1), budget=100, funcs=["TheseusLayerDLMForward.forward", "TheseusLayerDLMForward.backward", "theseus_layer._instantiate_dlm_bwd_objective"])(_dlm((1, 1), 2, 0.125, _v))


# -- inputs and values --------------------------------------------------------------------
def _inputs(vectorize):
    def body(k):
        """given inputs are the values used; everything else keeps its value."""
        with k.explicit_linalg(solves=True):
            ts = inputs(k, (1, 1))
            names = ("x0", "x1", "a", "w")
            fresh = dict(zip(names, ts))
            alt = {n: (t + 1) for n, t in fresh.items()}
            first = {n: 0 * t + 2 for n, t in fresh.items()}
            for given in [(), ("x0",), ("a",), ("x1", "w"), names]:
                o, L = problem(k, (1, 1), 2, cls=Script, iters=1, vectorize=vectorize)
                L.optimizer.rejects = [None]
                L.forward(first, dict(backward_mode="unroll"))
                kept = {n: v.tensor for n, v in {**o.optim_vars, **o.aux_vars}.items()}
                data = {n: alt[n] for n in given}
                v, info = L.forward(data or None, dict(backward_mode="unroll") if len(given) % 2 else None)
                use = {n: alt[n] if n in given else kept[n] for n in names}
                want = {"x0": use["x0"] + use["a"] * use["x0"] - use["w"], "x1": use["x1"] + use["x1"] * use["w"] + use["a"] * use["x0"]}
                nm = "+".join(given) or "none"
                k.same(nm + "/returned", list(v), ["x0", "x1"])
                for n in ("x0", "x1"):
                    k.eq(f"{nm}/{n}", v[n], want[n], ctol=1e-9)
                    k.same(f"{nm}/{n} is the variable's value", v[n] is o.optim_vars[n].tensor, True)
                for n in ("a", "w"):
                    k.eq(f"{nm}/{n} is kept", o.aux_vars[n].tensor, use[n], ctol=0)

    return body


for _v in (True, False):
    contract("C20", f"inputs{'' if _v else '/not vectorized'}", con=(4, 1), budget=60, funcs=["TheseusLayer.forward", "theseus_layer._forward"])(_inputs(_v))


@contract("C20", "splitting the iterations", con=(1,), funcs=["NonlinearOptimizer._split_backward_iters", "BackwardMode.resolve"])
def splitting(k):
    o, L = problem(k)
    opt = L.optimizer
    for m in range(0, 6):
        opt.set_params(max_iterations=m)
        for mode in (BackwardMode.UNROLL, BackwardMode.DLM):
            k.same(f"{m}/{mode}", opt._split_backward_iters(backward_mode=mode), (m, 0))
        k.same(f"{m}/implicit", opt._split_backward_iters(backward_mode=BackwardMode.IMPLICIT), (1, m - 1))
        for b in range(0, 8):
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                k.same(f"{m}/truncated {b}", opt._split_backward_iters(backward_mode=BackwardMode.TRUNCATED, backward_num_iterations=b), (min(b, m), m - min(b, m)))
    k.raises("truncated needs a number", lambda: opt._split_backward_iters(backward_mode=BackwardMode.TRUNCATED), ValueError)
    for mode in BackwardMode:
        for key in (mode, mode.name, mode.name.lower(), mode.name.capitalize()):
            k.same(f"resolve {key}", BackwardMode.resolve(key), mode)
    for bad in ("unrolled", "", 3, None):
        k.raises(f"resolve {bad!r}", lambda: BackwardMode.resolve(bad), ValueError)
    k.raises("dlm_epsilon must be a float", lambda: L.forward({}, dict(backward_mode="dlm", dlm_epsilon=1)), ValueError)
    o.add(Quad(list(o.optim_vars.values()), [], th.ScaleCostWeight(torch.ones(1, 1, dtype=k.dtype)), 1, name="late"))
    k.raises("the objective changed", lambda: L.forward({}), RuntimeError)


# -- bounded: whole layers against independent derivatives ---------------------------------
def fit(k, rng, B, group, method, vectorize, solver=None, iters=6):
    """a layer with a variable of a group, pulled to two targets, by weights."""
    dt = k.dtype
    G = dict(SO2=th.SO2, SE2=th.SE2, SO3=th.SO3, SE3=th.SE3, V=lambda **kw: th.Vector(**kw))[group]
    rand = lambda: (torch.randn(B, 3, dtype=dt) if group == "V" else G.rand(B, dtype=dt).tensor)
    mk = lambda n: G(tensor=rand(), name=n)
    x, t1, t2 = mk("x"), mk("t1"), mk("t2")
    w1, w2 = (th.ScaleCostWeight(th.Variable(0.5 + torch.rand(1, 1, dtype=dt), name=n)) for n in ("w1", "w2"))
    o = th.Objective(dtype=dt)
    o.add(th.Difference(x, t1, w1, name="d1"))
    o.add(th.Difference(x, t2, w2, name="d2"))
    cls, okw, kw = METHODS[method]
    okw = dict(okw)
    if solver is not None:
        okw["linear_solver_cls"] = solver
    L = TheseusLayer(cls(o, max_iterations=iters, abs_err_tolerance=0.0, rel_err_tolerance=0.0, **okw), vectorize=vectorize)
    near = lambda t: t
    start = rand()
    a, b = rand(), rand()
    if group != "V":  # close to each other: a unique solution away from the cut
        near = lambda s: G(tensor=a).retract(0.3 * torch.randn(B, G(tensor=a).dof(), dtype=dt)).tensor
        b, start = near(b), near(start)
    data = {"x": start, "t1": a, "t2": b, "w1": 0.5 + torch.rand(B, 1, dtype=dt), "w2": 0.5 + torch.rand(B, 1, dtype=dt)}
    return o, L, data, kw, G


def numeric(run, data, name, G, g, k):
    """d <g, run> along random directions of an input (of its group)."""
    t = data[name]
    if name.startswith("w") or G is None:
        V = torch.randn_like(t)
        at = lambda s: t + s * V
        tangent = V
    else:
        X = G(tensor=t)
        d = torch.randn(t.shape[0], X.dof(), dtype=t.dtype)
        at = lambda s: X.retract(s * d).tensor
        h = 1e-6
        tangent = (at(h) - at(-h)) / (2 * h)
    h = 1e-5
    f = lambda s: (g * run({**data, name: at(s)})).sum()
    with torch.no_grad():
        return (8 * (f(h) - f(-h)) - (f(2 * h) - f(-2 * h))) / (12 * h), tangent


def _fits(seed):
    def body(k):
        torch.manual_seed(seed)
        rng = random.Random(seed)
        solvers = [None, th.CholeskyDenseSolver, th.LUDenseSolver, th.CholmodSparseSolver]
        for trial in range(10):
            group = ("V", "SO2", "SE2", "SO3", "SE3")[trial % 5]
            method = rng.choice(["GaussNewton", "GaussNewton half steps", "LM", "LM ellipsoidal", "LM adaptive", "Dogleg"])
            B, vec, solver = rng.choice([1, 2, 3]), rng.random() < 0.7, rng.choice(solvers)
            if method in ("LM ellipsoidal", "LM adaptive") and solver is th.CholmodSparseSolver:
                method = "LM"
            # few iterations: at convergence gains are noise, and the derivative is not defined
            o, L, data, kw, G = fit(k, rng, B, group, method, vec, solver, iters=3)
            g = torch.randn_like(data["x"])
            nm = f"{trial}/{group}/{method}/{getattr(solver, '__name__', 'default')}"

            def run(inp, mode="unroll", **more):
                v, info = L.forward(inp, dict(backward_mode=mode, **kw, **more))
                return v["x"]

            values = {}
            for mode, more in (("unroll", {}), ("truncated", dict(backward_num_iterations=2)), ("truncated", dict(backward_num_iterations=3)), ("dlm", dict(dlm_epsilon=1e-4))):
                leaf = {n: t.clone().requires_grad_() for n, t in data.items()}
                y = run(leaf, mode, **more)
                key = mode + str(more.get("backward_num_iterations", ""))
                values[key] = y.detach()
                grads = torch.autograd.grad((g * y).sum(), list(leaf.values()), allow_unused=True)
                if key in ("unroll", "truncated3"):
                    for (n, gr) in zip(data, grads):
                        want, tan = numeric(run, data, n, None if group == "V" else G, g, k)
                        k.eq(f"{nm}/{key}/{n}", (gr * tan).sum() if gr is not None else torch.zeros((), dtype=k.dtype), want, ctol=2e-5)
            for key in values:
                k.eq(f"{nm}/values {key}", values[key], values["unroll"], ctol=1e-10)

    return body


for _s in range(3):
    contract("C20", f"real methods {_s}", mode="con", con=(1,), funcs=["TheseusLayer.forward"])(_fits(_s))


def _converged(seed):
    def body(k):
        """at the solution implicit, truncated, unrolled and DLM derivatives agree (the
        last up to its epsilon), also for inputs that are shared, depend on each other,
        are left out, or when the layer was used or moved before."""
        torch.manual_seed(seed)
        rng = random.Random(seed)
        for trial in range(8):
            group = ("V", "SO2", "SE2", "SO3", "SE3")[rng.randrange(5)]
            B, vec = rng.choice([1, 2, 3]), rng.random() < 0.7
            o, L, data, kw, G = fit(k, rng, B, group, "GaussNewton", vec, iters=20)
            if group != "V":  # vanishing residuals: the Gauss-Newton Hessian is the Hessian
                data["t2"] = data["t1"].clone()
            used = rng.random() < 0.5
            if used:  # another run before, with other values and batch size
                o2, L2, other, _, _ = fit(k, rng, rng.choice([1, 2]), group, "GaussNewton", vec)
                lf = {n: t.clone().requires_grad_() for n, t in other.items()}
                L.forward(lf, dict(backward_mode="dlm"))[0]["x"].sum().backward()
            if rng.random() < 0.3:
                L.to(dtype=torch.float32)
                L.to(dtype=k.dtype)
            how = rng.choice(["plain", "shared", "dependent", "kept"])
            g = torch.randn_like(data["x"])
            nm = f"{trial}/{group}/{how}{'/used' if used else ''}"
            res = {}
            for mode, more in (("unroll", {}), ("truncated", dict(backward_num_iterations=12)), ("implicit", {}), ("dlm", dict(dlm_epsilon=1e-5))):
                w = data["w1"].clone().requires_grad_()
                t = data["t1"].clone().requires_grad_()
                inp = dict(data, w1=w, t1=t)
                if how == "shared":
                    inp["w2"] = w
                elif how == "dependent":
                    inp["w2"] = w * w + 0.5
                elif how == "kept":
                    o.update({n: data[n] for n in ("x", "w2", "t2")} | {n: data[n] for n in ("w1", "t1")})
                    for n in ("w2", "t2"):
                        del inp[n]
                y = L.forward(inp, dict(backward_mode=mode, **more))[0]["x"]
                res[mode] = (y.detach(), *torch.autograd.grad((g * y).sum(), [w, t]))
            for mode in res:
                for n, p, q in zip(("values", "by w", "by t"), res[mode], res["unroll"]):
                    if group != "V" and n == "by t":  # only tangent components are defined
                        X = G(tensor=data["t1"])
                        p, q = X.project(p), X.project(q)
                    k.eq(f"{nm}/{mode}/{n}", p, q, ctol=1e-6 if mode != "dlm" or n == "values" else 5e-3)

    return body


for _s in range(3):
    contract("C20", f"modes agree at the solution {_s}", mode="con", con=(1,), funcs=["TheseusLayer.forward", "TheseusLayer.to", "TheseusLayerDLMForward.forward", "TheseusLayerDLMForward.backward"])(_converged(_s))
METHODS["LM adaptive"] = (th.LevenbergMarquardt, {}, dict(damping=0.3, adaptive_damping=True))
METHODS["Dogleg"] = (th.Dogleg, {}, dict(trust_region_init=0.5))


def _graph(spec):
    def body(k):
        """unrolled derivatives flow through the weighted errors and Jacobians of every cost
        function, with respect to everything they depend on: gradients of both, vectorized
        (with some weights zero) or not."""
        torch.manual_seed(7)
        for how in ("plain", "vectorized", "zero weights"):
            if how == "zero weights" and spec.weight == "gp":
                continue
            n = 1 if how == "plain" else 2
            slots = [(i, s, kd) for i in range(n) for s, kd in spec.slots.items()]
            ts = [value(k, kd, f"{spec.name}.{s}@{i}", False) for i, s, kd in slots]
            if how == "zero weights":
                for j, (i, s, _) in enumerate(slots):
                    if s == "w":
                        keep = ((torch.arange(k.B) + i) % 2).to(k.dtype).unsqueeze(1)
                        ts[j] = ts[j] * keep

            def run(*a):
                o = th.Objective(dtype=k.dtype)
                for i in range(n):
                    v = {s: wrap(kd, t, f"{s}{i}") for (m, s, kd), t in zip(slots, a) if m == i}
                    o.add(spec.make(v, spec.mkweight(v, f"w{i}"), name=f"cf{i}"))
                if how != "plain":
                    th.Vectorize(o)
                o.update()
                out = []
                for c in o._get_jacobians_iter() if how != "plain" else o:
                    Js, e = c.weighted_jacobians_error()
                    out += [e] + [J.reshape(J.shape[0], -1) for J in Js]
                r = torch.cat(out, dim=1)
                # (a constant has the gradient zero)
                return r + 0.0 * sum(t.reshape(t.shape[0], -1).sum(dim=1, keepdim=True) for t in a)

            with torch.no_grad():
                g = torch.randn_like(run(*ts))
            grads = k.vjp(lambda *a: [run(*a)], ts, [g])
            for j, (i, s, kd) in enumerate(slots):
                t = ts[j]
                if kd in ("SO2", "SE2", "SO3", "SE3"):
                    G_ = G(kd)
                    V = G_.dtensor(t, torch.randn(k.B, G_.dof, dtype=k.dtype))
                else:
                    V = torch.randn_like(t)
                if kd[0] == "P" and kd[1:].isdigit():
                    V = V + V.transpose(-1, -2)
                if how == "zero weights" and s == "w":
                    continue  # the derivative of a weight at zero is not part of a masked evaluation
                d = k.D(lambda z: run(*ts[:j], z, *ts[j + 1:]), t, V)
                rhs = (g * d).sum(dim=1)
                u = getattr(d, "_unreliable", None)
                if u is not None:
                    rhs._unreliable = u.any(dim=1)
                k.eq(f"{how}/{s}{i}", rhs, (grads[j] * V).reshape(k.B, -1).sum(dim=1), ctol=1e-4)

    return body


for _s in specs():
    contract("C20", f"cost functions in the graph/{_s.name}", mode="con", con=(4,), budget=100, funcs=[f"{_s.name}: weighted_jacobians_error", "masked_jacobians", "Vectorize"])(_graph(_s))
