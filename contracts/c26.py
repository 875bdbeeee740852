"""C26: the sampling optimiser (DCEM) moves to the weighted mean of its samples."""
import contextlib
import math

import torch
import theseus as th
from theseus.optimizer.nonlinear import dcem
from theseus.third_party.lml import LML
from dv.run import contract
from .objs import Quad, quad

INFO = dict(level="proof", trusted=["torch.distributions.Normal draws from the normal distribution it is given"],
            assumptions=["the elite weights with a temperature are those of LML, whose own contract is bounded"])


@contextlib.contextmanager
def patched(**kw):
    old = {n: getattr(dcem, n) for n in kw}
    for n, v in kw.items():
        setattr(dcem, n, v)
    try:
        yield
    finally:
        for n, v in old.items():
            setattr(dcem, n, v)


class Noise:
    """stands for Normal: loc + scale * z with the z it is given, one table a call."""

    def __init__(self, tables):
        self.tables, self.calls = list(tables), []

    def __call__(self, loc, scale):
        self.calls.append((loc, scale))
        z = self.tables[len(self.calls) - 1]

        class N:
            def rsample(_, size):
                assert tuple(size) == tuple(z.shape[:1]), size
                return loc.unsqueeze(0) + scale.unsqueeze(0) * z

        return N()


def scene(k, B=None, dofs=(2, 1), given=None, names="xyzw"):
    """two costs over some vectors and one auxiliary variable."""
    B = B or k.B
    o = th.Objective(dtype=k.dtype)
    vs = []
    for i, d in enumerate(dofs):
        t = given[i] if given is not None else k.real(f"v{i}", d)
        vs.append(th.Vector(tensor=t, name=names[i]))
    a = th.Variable(given[-1] if given is not None else k.real("a", 2), name="a")
    w = th.ScaleCostWeight(torch.ones(1, 1, dtype=k.dtype))
    o.add(Quad(vs, [a], w, 2, name="c0"))
    o.add(Quad(vs[::-1], [a], w, 1, name="c1"))
    o.update()

    def metric(ts, at):
        e = torch.cat([quad(ts, [at], 2), quad(ts[::-1], [at], 1)], dim=1)
        return (e * e).sum(dim=1) / 2

    return o, vs, a, metric


def split(m, dofs):
    return list(torch.split(m, list(dofs), dim=1))


@contract("C26", "step", con=(5, 1), funcs=["DCEM._CEM_step", "DCEM._mu_vec_to_dict", "DCEM.reset_sigma"])
def step(k):
    """with a temperature: samples around the current variables with the current
    spread, weights from the scaled errors of the same batch element, new mean and
    spread from them; no variable is modified."""
    dofs = (2, 1)
    o, vs, a, metric = scene(k, dofs=dofs)
    before = [v.tensor for v in vs]
    opt = dcem.DCEM(o, n_sample=3, n_elite=2, temp=0.5, normalize=False)
    opt.sigma = k.pos("sigma", 3) + 0.1
    s0 = opt.sigma
    z = torch.stack([k.real(f"z{i}", 3) for i in range(3)], dim=0)
    w = k.pos("w", 3)
    seen = []

    class Weights:
        def __init__(self, N, verbose, eps):
            seen.append((N, eps))

        def __call__(self, x):
            seen.append(x)
            return w

    noise = Noise([z])
    with patched(Normal=noise, LML=Weights):
        new = opt._CEM_step()
    mu = torch.cat(before, dim=1)
    k.eq("mean of the samples", noise.calls[0][0], mu)
    k.eq("spread of the samples", noise.calls[0][1], s0)
    X = mu.unsqueeze(0) + s0.unsqueeze(0) * z
    f = torch.stack([metric(split(X[i], dofs), a.tensor) for i in range(3)], dim=1)
    k.same("weights", seen[0], (2, 1e-3))
    k.eq("weights of the scaled errors", seen[1], -f * 0.5)
    m = sum(w[:, i: i + 1] * X[i] for i in range(3)) / 2
    k.same("names", list(new), ["x", "y"])
    for v, t in zip("xy", split(m, dofs)):
        k.eq(f"new mean/{v}", new[v], t)
    k.eq("new spread", opt.sigma * opt.sigma, sum(w[:, i: i + 1] * (X[i] - m) ** 2 for i in range(3)) / 2)
    for v, t in zip(vs, before):
        k.eq(f"variable {v.name} unchanged", v.tensor, t)


def reference(k, mu, s, at, tables, dofs, metric, n_elite, temp, normalize, iters):
    for it in range(iters):
        z = tables[it]
        X = mu.unsqueeze(0) + s.unsqueeze(0) * z
        f = torch.stack([metric(split(x, dofs), at) for x in X], dim=1)
        eps = 0.0
        if temp is None or temp == math.inf:
            w = torch.zeros_like(f)
            for b in range(f.shape[0]):
                for i in sorted(range(f.shape[1]), key=lambda i: float(f[b, i]))[:n_elite]:
                    w[b, i] = 1.0
            eps = 1e-10
        else:
            g = (f - f.mean(dim=1, keepdim=True)) / (f.std(dim=1, keepdim=True) + 1e-6) if normalize else f
            if n_elite == 1:
                e = (-temp * (g - g.min(dim=1, keepdim=True)[0])).exp()
                w = e / e.sum(dim=1, keepdim=True)
            else:
                w = LML(N=n_elite, verbose=False, eps=1e-3)(-g * temp)
        w = w.t().unsqueeze(2)
        mu = (w * X).sum(0) / n_elite
        s = ((w * (X - mu) ** 2).sum(0) / n_elite).sqrt() + eps
    return mu, s


SETTINGS = [(1, 1.0, True), (1, 0.3, False), (3, 1.0, True), (3, 0.2, False), (3, None, True), (1, None, True), (2, math.inf, False), (5, 2.0, True)]


@contract("C26", "runs", mode="con", con=(3, 1), dtypes=("float64",), funcs=["DCEM._CEM_step", "DCEM._optimize_loop", "DCEM._optimize_impl", "DCEM.reset_sigma"])
def runs(k):
    """whole runs through a layer against the definition with the same noise: values
    and gradients, for elite sets with and without a temperature; a second run
    starts from the configured spread again."""
    g = torch.Generator().manual_seed(6)
    dofs = (2, 1)
    compared = []
    for case, (n_elite, temp, normalize) in enumerate(SETTINGS):
        for init in (0.7, "tensor", "argument"):
            T = [torch.randn(7, k.B, 3, generator=g, dtype=k.dtype) for _ in range(4)]
            x0 = [torch.randn(k.B, d, generator=g, dtype=k.dtype) for d in dofs] + [torch.randn(k.B, 2, generator=g, dtype=k.dtype).abs()]
            o, vs, a, metric = scene(k, dofs=dofs, given=x0)
            s = 0.2 + torch.rand(k.B, 3, generator=g, dtype=k.dtype)
            opt = dcem.DCEM(o, n_sample=7, n_elite=n_elite, temp=temp, normalize=normalize, max_iterations=4, init_sigma=s if init == "tensor" else 0.7, abs_err_tolerance=0.0, rel_err_tolerance=0.0)
            layer = th.TheseusLayer(opt)
            s = s if init == "tensor" else torch.full((k.B, 3), 0.7 if init != "argument" else 0.4, dtype=k.dtype)
            for again in range(2):
                nm = f"{n_elite}/{temp}/{normalize}/{init}/{again}"
                at = x0[2].clone().requires_grad_()
                st = x0[0].clone().requires_grad_()
                hist = []
                noise = Noise(T)
                with patched(Normal=noise):
                    sol, info = layer.forward({"x": st, "y": x0[1], "a": at}, optimizer_kwargs=dict(track_err_history=True, track_best_solution=True, end_iter_callback=lambda o_, i_, m, it: hist.append([m[v].detach().clone() for v in "xy"]), **(dict(init_sigma=0.4) if init == "argument" else {})))
                k.same(nm + "/attempts", len(noise.calls), 4)
                a2, s2 = x0[2].clone().requires_grad_(), x0[0].clone().requires_grad_()
                errs = [metric(x0[:2], x0[2])]
                best = [t.clone() for t in x0[:2]]
                bi, be = torch.zeros(k.B, dtype=torch.long), errs[0].clone()
                for it in range(1, 5):
                    m, sp = reference(k, torch.cat([s2, x0[1]], 1), s, a2, T, dofs, metric, n_elite, temp, normalize, it)
                    e = metric(split(m, dofs), x0[2]).detach()
                    errs.append(e)
                    good = e < be
                    for t, n in zip(best, split(m.detach(), dofs)):
                        t[good] = n[good]
                    bi[good], be = it - 1, torch.minimum(be, e)
                    if it < 5 and it - 1 < len(hist):
                        for t, n in zip(hist[it - 1], split(m.detach(), dofs)):
                            k.eq(nm + f"/callback {it}", t, n, ctol=1e-8)
                for v, t in zip("xy", split(m, dofs)):
                    k.eq(nm + f"/value/{v}", sol[v], t, ctol=1e-8)
                k.eq(nm + "/final spread", opt.sigma, sp, ctol=1e-8)
                u = torch.randn(k.B, 3, generator=g, dtype=k.dtype)
                got = torch.autograd.grad((torch.cat([sol["x"], sol["y"]], 1) * u).sum(), [at, st], allow_unused=True)
                want = torch.autograd.grad((m * u).sum(), [a2, s2], allow_unused=True)
                for i, (p, q) in enumerate(zip(got, want)):
                    p, q = (t if t is not None else torch.zeros_like((at, st)[i]) for t in (p, q))
                    if q.isfinite().all() and q.abs().max() < 1e6:  # else the spread has collapsed
                        k.eq(nm + f"/gradient {i}", p, q, ctol=1e-6)
                        compared.append(nm)
                k.eq(nm + "/error history", info.err_history, torch.stack(errs, dim=1), ctol=1e-8)
                k.eq(nm + "/last error", info.last_err, errs[-1], ctol=1e-8)
                k.eq(nm + "/best error", info.best_err, be, ctol=1e-8)
                k.same(nm + "/best iteration", info.best_iter.tolist(), bi.tolist())
                for v, t in zip("xy", best):
                    k.eq(nm + f"/best/{v}", info.best_solution[v], t, ctol=1e-8)
                k.same(nm + "/status", [str(x) for x in info.status], [str(th.NonlinearOptimizerStatus.MAX_ITERATIONS)] * k.B)
    k.same("gradients compared", len(compared) > 40, True)


@contract("C26", "spread", mode="con", con=(4,), dtypes=("float64",), funcs=["DCEM._CEM_step"])
def spread(k):
    """batch elements do not influence each other, and the order of the variables
    only orders the columns."""
    g = torch.Generator().manual_seed(9)
    for dofs in ((1,), (2, 1), (1, 3, 2)):
        n = sum(dofs)
        T = [torch.randn(6, k.B, n, generator=g, dtype=k.dtype) for _ in range(3)]
        x0 = [torch.randn(k.B, d, generator=g, dtype=k.dtype) for d in dofs] + [torch.randn(k.B, 2, generator=g, dtype=k.dtype).abs()]
        for n_elite, temp, normalize in SETTINGS:

            def run(sel):
                o, vs, a, metric = scene(k, dofs=dofs, given=[t[sel] for t in x0])
                opt = dcem.DCEM(o, n_sample=6, n_elite=n_elite, temp=temp, normalize=normalize, max_iterations=3, abs_err_tolerance=0.0, rel_err_tolerance=0.0)
                with patched(Normal=Noise([t[:, sel] for t in T])):
                    opt.optimize()
                return torch.cat([v.tensor for v in vs], dim=1)

            whole = run(slice(None))
            for b in range(k.B):
                k.eq(f"{dofs}/{n_elite}/{temp}/alone", run(slice(b, b + 1)), whole[b: b + 1], ctol=1e-8 if temp is None or n_elite == 1 else 5e-3)


@contract("C26", "elite weights", mode="con", con=(4, 1), dtypes=("float64",), funcs=["LML.forward", "LML_Function.backward"])
def elite(k):
    """the relaxed top-N weights lie in (0, 1), sum to N, are sigmoid(x + nu) of one
    nu per element, and have the gradient of that implicit definition."""
    g = torch.Generator().manual_seed(12)
    for nx, N in ((5, 1), (5, 2), (6, 5), (20, 5), (3, 3)):
        for scale in (0.1, 1.0, 6.0):
            x = (torch.randn(k.B, nx, generator=g, dtype=k.dtype) * scale).requires_grad_()
            y = LML(N=N, eps=1e-8, verbose=-1)(x)
            nm = f"{nx}/{N}/{scale}"
            k.eq(nm + "/sum", y.sum(dim=1), torch.full((k.B,), float(N), dtype=k.dtype), ctol=1e-4)
            k.same(nm + "/range", bool(((y > 0) & (y < 1)).all()), True)
            u = torch.randn(k.B, nx, generator=g, dtype=k.dtype)
            (got,) = torch.autograd.grad((y * u).sum(), x)
            if nx == N:
                k.eq(nm + "/gradient", got, torch.zeros_like(got), ctol=0)
                continue
            nu = torch.logit(y.detach()) - x.detach()
            h = y.detach() * (1 - y.detach())
            mid = (h * nu).sum(dim=1, keepdim=True) / h.sum(dim=1, keepdim=True)
            k.eq(nm + "/one offset per element", h * (nu - mid), torch.zeros_like(nu), ctol=1e-6)
            want = h * (u - (h * u).sum(dim=1, keepdim=True) / h.sum(dim=1, keepdim=True))
            k.eq(nm + "/gradient", got, want, ctol=1e-8)


@contract("C26", "stopping", mode="con", con=(3,), dtypes=("float64",), funcs=["DCEM._optimize_loop", "DCEM._optimize_impl"])
def stopping(k):
    """the loop ends as soon as no element's error changes by more than the
    tolerances, at the latest with the budget; unsupported backward modes raise."""
    g = torch.Generator().manual_seed(15)
    for budget in (1, 2, 5):
        for still in range(1, 6):
            T = [torch.randn(7, k.B, 3, generator=g, dtype=k.dtype) * (it < still) for it in range(8)]
            x0 = [torch.randn(k.B, d, generator=g, dtype=k.dtype) for d in (2, 1)] + [torch.randn(k.B, 2, generator=g, dtype=k.dtype).abs()]
            o, vs, a, metric = scene(k, given=x0)
            opt = dcem.DCEM(o, n_sample=7, n_elite=2, temp=None, max_iterations=budget, abs_err_tolerance=1e-12, rel_err_tolerance=1e-12)
            noise = Noise(T)
            with patched(Normal=noise):
                info = opt.optimize(track_err_history=True)
            n = len(noise.calls)
            k.same(f"{budget}/{still}/attempts", n, min(budget, still + 1))
            e = metric([v.tensor for v in vs], x0[2])
            k.eq(f"{budget}/{still}/last error", info.last_err, e, ctol=1e-10)
            conv = budget > still
            k.same(f"{budget}/{still}/status", [str(s) for s in info.status], [str(th.NonlinearOptimizerStatus.CONVERGED if conv else th.NonlinearOptimizerStatus.MAX_ITERATIONS)] * k.B)
            k.same(f"{budget}/{still}/iterations", info.converged_iter.tolist(), [still + 1 if conv else -1] * k.B)
    for mode in ("implicit", "truncated"):
        k.raises(mode, lambda: opt.optimize(backward_mode=mode, backward_num_iterations=1), NotImplementedError)
