"""C09: robust costs evaluate and linearise the documented loss."""
import contextlib

import torch
import theseus as th
import theseus.core.robust_cost_function as rcf
import theseus.core.robust_loss as rl
from dv.run import contract
from .c08 import Poly, poly, both_batches, opt_zero

INFO = dict(
    level="proof",
    assumptions=["derivative clauses are proved with the guard constants _LOSS_EPS and RobustCostFunction._EPS (1e-20) set to 0; value clauses keep them, and the concrete runs keep them everywhere"],
)
EPS = 1e-20


@contextlib.contextmanager
def no_eps(k):
    """the documented guards against division by zero taken to their limit 0
    (symbolic side only)."""
    if not k.symbolic:
        yield
        return
    a, b = rl._LOSS_EPS, rcf.RobustCostFunction._EPS
    rl._LOSS_EPS, rcf.RobustCostFunction._EPS = 0.0, 0.0
    try:
        yield
    finally:
        rl._LOSS_EPS, rcf.RobustCostFunction._EPS = a, b


def sq(k, name):
    """a squared norm s >= 0 (also exactly 0) with its root."""
    r = k.pos(name, 1, lo=0.01, hi=30.0)
    z = k.real(name + "z", 1)
    q = torch.where(z > -1.5, r, torch.zeros_like(r))
    return q * q, q


def radius(k, name):
    """log radius and its radius R = g*g, g > 0; shared or per element."""
    l = k.real(name, 1)
    return l, l.exp()


@contract("C09", "Huber", funcs=["HuberLoss._evaluate_impl", "HuberLoss._linearize_impl", "RobustLoss.evaluate", "RobustLoss.linearize"])
def huber(k):
    s, q = sq(k, "s")
    l, R = radius(k, "l")
    L = th.HuberLoss
    s0, l0 = s.clone(), l.clone()
    v, d = L.evaluate(s, l), L.linearize(s, l)
    inner = s <= R
    k.true("inside: identity", ~inner | (v == s))
    with no_eps(k):
        vi = L.evaluate(s, l)
        # outside: 2 sqrt(R s) - R, stated without the square root
        k.true("outside: value", inner | (vi + R >= 0))
        k.eq("outside: 2 sqrt(R s) - R", torch.where(inner, torch.zeros_like(s), (vi + R) * (vi + R) - 4 * R * s), torch.zeros_like(s), ctol=1e-6)
        one = torch.ones_like(s)
        di = L.linearize(s, l)
        at = s == R  # the two branches meet there: stated separately below
        k.eq("linearize = derivative", torch.where(at, one, di), torch.where(at, one, k.D(lambda x: L.evaluate(x, l), s, one)))
        # at the radius (where the two branches meet) and at zero
        k.eq("linearize at the radius", L.linearize(R, l), one, ctol=1e-9)
        k.eq("value at the radius", L.evaluate(R, l), R, ctol=1e-9)
        k.le("increasing", torch.zeros_like(s), di)
        k.le("derivative at most one", di, one)
        k.le("never exceeds s", vi, s)
        k.le("non-negative", torch.zeros_like(s), vi)
    k.eq("operand s", s, s0, ctol=0)
    k.eq("operand radius", l, l0, ctol=0)
    k.same("shapes", (tuple(v.shape), tuple(d.shape)), ((k.B, 1), (k.B, 1)))


@contract("C09", "Welsch", funcs=["WelschLoss._evaluate_impl", "WelschLoss._linearize_impl"])
def welsch(k):
    s, q = sq(k, "s")
    l, R = radius(k, "l")
    L = th.WelschLoss
    one = torch.ones_like(s)
    v, d = L.evaluate(s, l), L.linearize(s, l)
    k.eq("definition", v, R - R * torch.exp(-s / (R + EPS)))
    k.eq("linearize definition", d, torch.exp(-s / (R + EPS)))
    with no_eps(k):
        di = L.linearize(s, l)
        k.eq("linearize = derivative", di, k.D(lambda x: L.evaluate(x, l), s, one))
        k.le("increasing", torch.zeros_like(s), di)
        k.le("derivative at most one", di, one)
        k.le("never exceeds s", L.evaluate(s, l), s)
        k.le("non-negative", torch.zeros_like(s), L.evaluate(s, l))
        k.le("below radius", L.evaluate(s, l), R)
        k.eq("zero at zero", L.evaluate(torch.zeros_like(s), l), torch.zeros_like(s), ctol=1e-12)


@contract("C09", "hinge loss", funcs=["HingeLoss._evaluate_impl", "HingeLoss._linearize_impl"])
def hinge(k):
    s, q = sq(k, "s")
    l, R = radius(k, "l")
    L = rl.HingeLoss
    one = torch.ones_like(s)
    inner = s <= R
    k.true("inside: epsilon", ~inner | (L.evaluate(s, l) == EPS))
    k.eq("outside: value", torch.where(inner, torch.zeros_like(s), L.evaluate(s, l)), torch.where(inner, torch.zeros_like(s), q - torch.sqrt(R)), ctol=1e-9)
    k.assume(s != R)
    with no_eps(k):
        di = L.linearize(s, l)
        k.eq("linearize = derivative", di, k.D(lambda x: L.evaluate(x, l), s, one))
        k.le("increasing", torch.zeros_like(s), di)


@contract("C09", "Geman-McClure", funcs=["GemanMcClureLoss._evaluate_impl", "GemanMcClureLoss._linearize_impl", "GNCRobustLoss.evaluate", "GNCRobustLoss.linearize"])
def geman(k):
    s, q = sq(k, "s")
    l, R = radius(k, "l")
    mu = k.pos("mu", 1)
    L = th.GemanMcClureLoss
    one = torch.ones_like(s)
    k.eq("definition", L.evaluate(s, l, mu), mu * R * s / (mu * R + s + EPS))
    with no_eps(k):
        v, di = L.evaluate(s, l, mu), L.linearize(s, l, mu)
        k.eq("linearize = derivative", di, k.D(lambda x: L.evaluate(x, l, mu), s, one))
        k.le("increasing", torch.zeros_like(s), di)
        k.le("never exceeds s", v, s)
        k.le("below mu * radius", v, mu * R)


def losses(k, batched):
    """(loss, cost class, extra constructor arguments, rho, rho')."""
    l = k.real("l" if batched else "l1", 1, batched=batched)
    mu = k.pos("mu" if batched else "mu1", 1, batched=batched)
    if not batched:
        l, mu = l.unsqueeze(0), mu.unsqueeze(0)
    for nm, L in (("Huber", th.HuberLoss), ("Welsch", th.WelschLoss), ("hinge", rl.HingeLoss)):
        yield nm, th.RobustCostFunction, L, (th.Vector(tensor=l, name="lr"),), lambda s, L=L: L.evaluate(s, l), lambda s, L=L: L.linearize(s, l)
    L = th.GemanMcClureLoss
    yield "GNC", rcf.GNCRobustCostFunction, L, (th.Vector(tensor=l, name="lr"), th.Vector(tensor=mu, name="mu")), lambda s: L.evaluate(s, l, mu), lambda s: L.linearize(s, l, mu)


def _robust(flat, batched):
    @contract("C09", f"robust cost/{'per entry' if flat else 'norm'}/{'per-element radius' if batched else 'shared radius'}", con=(24, 1, 3),
              funcs=["RobustCostFunction.weighted_error", "RobustCostFunction.weighted_jacobians_error", "RobustCostFunction.error", "RobustCostFunction.jacobians", "GNCRobustCostFunction._evaluate_loss", "GNCRobustCostFunction._linearize", "RobustCostFunction._copy_impl"])
    def robust(k):
        for nm, cls, L, args, rho, drho in losses(k, batched):
            w = th.DiagonalCostWeight(k.real("w", 2))
            base, ts = poly(k, w)
            cf = cls(base, L, *args, flatten_dims=flat, name="r" + nm)
            we = base.weighted_error()
            Jw, _ = base.weighted_jacobians_error()
            s = we * we
            if not flat:
                s = s.sum(dim=1, keepdim=True)
            h = cf.weighted_error()
            k.same(f"{nm}/dim", cf.dim(), 2)
            k.same(f"{nm}/variables", [v.name for v in cf.optim_vars] + [v.name for v in cf.aux_vars], ["vx", "vy", "va", "lr"] + (["mu"] if nm == "GNC" else []))
            k.same(f"{nm}/weight", cf.weight is base.weight, True)
            k.same(f"{nm}/error shape", tuple(h.shape), (k.B, 2))
            if flat:
                k.eq(f"{nm}/entry squared = rho(entry squared)", h * h, rho(s) + EPS, ctol=1e-9)
            else:
                k.eq(f"{nm}/squared norm = rho(squared norm)", (h * h).sum(dim=1, keepdim=True), rho(s) + 2 * EPS, ctol=1e-9)
            k.eq(f"{nm}/error is weighted_error", cf.error(), h, ctol=0)
            J, e = cf.weighted_jacobians_error()
            J2, e2 = cf.jacobians()
            f2 = drho(s) + EPS
            # J_i' e = rho' J' e and J_i' J_j = rho' J' J, entry by entry of the residual
            k.eq(f"{nm}/rescaled error", e * e, f2 * we * we, ctol=1e-9)
            k.same(f"{nm}/count", len(J), 2)
            for i in range(2):
                k.same(f"{nm}/J[{i}] shape", tuple(J[i].shape), tuple(Jw[i].shape))
                k.eq(f"{nm}/J[{i}] e", J[i] * e.unsqueeze(2), (f2 * we).unsqueeze(2) * Jw[i], ctol=1e-8)
                k.eq(f"{nm}/J[{i}] J", J[i][:, :, :1] * J[i], f2.unsqueeze(2) * Jw[i][:, :, :1] * Jw[i], ctol=1e-8)
                k.eq(f"{nm}/jacobians J[{i}]", J2[i], J[i], ctol=0)
            k.eq(f"{nm}/jacobians error", e2, e, ctol=0)
            for i, (v, t) in enumerate(zip((base.x, base.y, base.a), ts)):
                k.eq(f"{nm}/variable {i} unchanged", v.tensor, t, ctol=0)
            # a copy keeps the loss, the flag and the values
            c = cf.copy()
            k.same(f"{nm}/copy", (type(c), type(c.loss), c.flatten_dims), (cls, L, flat))
            k.eq(f"{nm}/copy error", c.weighted_error(), h, ctol=0)
            k.same(f"{nm}/copy shares nothing", c.log_loss_radius is cf.log_loss_radius or c.cost_function is base, False)


for _f in (False, True):
    for _b in (True, False):
        _robust(_f, _b)


def any_loss(k):
    """a loss known only by its contract: linearize is the derivative of evaluate."""

    class AnyLoss(th.RobustLoss):
        @staticmethod
        def _linearize_impl(x, radius):
            if not k.symbolic:
                return th.WelschLoss._linearize_impl(x, radius)
            r = k.opaque("drho", lambda s, R: [th.WelschLoss._linearize_impl(s, R)], [x, radius.expand_as(x)])[0]
            k.assume(r > 0)
            return r

        @staticmethod
        def _evaluate_impl(x, radius):
            if not k.symbolic:
                return th.WelschLoss._evaluate_impl(x, radius)
            return k.opaque("rho", lambda s, R: [th.WelschLoss._evaluate_impl(s, R)], [x, radius.expand_as(x)],
                            lambda a, v, o: [AnyLoss._linearize_impl(a[0], a[1]) * v[0]])[0]

    return AnyLoss


def _grad(flat):
    @contract("C09", f"gradient/{'per entry' if flat else 'norm'}", funcs=["RobustCostFunction.weighted_jacobians_error", "RobustCostFunction.weighted_error"], budget=120)
    def gradient(k):
        """J'r is the derivative of half the robust loss, for every loss that
        meets its contract (linearize = derivative of evaluate)."""
        with no_eps(k):
            l = k.real("l", 1)
            lr = th.Vector(tensor=l, name="lr")
            for nm, L in (("any loss", any_loss(k)), ("Welsch", th.WelschLoss)):
                base, (x, y, a) = poly(k, th.ScaleCostWeight(k.pos("w", 1)))
                cf = th.RobustCostFunction(base, L, lr, flatten_dims=flat, name="r" + nm)
                J, e = cf.weighted_jacobians_error()

                def half(t, var):
                    old = var.tensor
                    var.update(t)
                    we = base.weighted_error()
                    var.update(old)
                    s = we * we
                    if not flat:
                        s = s.sum(dim=1, keepdim=True)
                    return 0.5 * L.evaluate(s, l).sum(dim=1)

                for i, (var, t) in enumerate(((base.x, x), (base.y, y))):
                    g = (J[i] * e.unsqueeze(2)).sum(dim=1)
                    for j in range(t.shape[1]):
                        V = torch.zeros_like(t)
                        V[:, j] = 1
                        k.eq(f"{nm}/var {i}, direction {j}", g[:, j], k.D(lambda u: half(u, var), t, V), ctol=1e-5)


for _f in (False, True):
    _grad(_f)


@contract("C09", "masking", con=(12, 2, 5), funcs=["RobustCostFunction._supports_masking", "masked_jacobians"])
def masking(k):
    """masking the inner cost leaves the robust cost unchanged."""
    for flat in (False, True):
        w = th.ScaleCostWeight(opt_zero(k, "s", 1))
        lr = k.real("l", 1)
        r = []
        for m in (True, False):
            base, ts = poly(k, w)
            cf = th.RobustCostFunction(base, th.HuberLoss, th.Vector(tensor=lr, name="lr"), flatten_dims=flat)
            cf._supports_masking = m
            k.same(f"{flat}/{m}/flag reaches the inner cost", (cf._supports_masking, base._supports_masking), (m, m))
            r.append(cf.weighted_jacobians_error())
        (J, e), (Ju, eu) = r
        k.eq(f"{flat}/error", e, eu)
        for i in range(2):
            k.eq(f"{flat}/J[{i}]", J[i], Ju[i])


@contract("C09", "in an objective", mode="con", con=(5, 1, 4), funcs=["RobustCostFunction", "Vectorize", "Objective.error_metric"])
def objective(k):
    """several robust costs in one (vectorized) objective: each keeps its own
    radius and loss; the metric is half the robust loss."""
    g = torch.Generator().manual_seed(3)
    for flat in (False, True):
        for br in (1, k.B):
            for shared in (False, True):
                obj = th.Objective(dtype=k.dtype)
                vs = [th.Vector(tensor=torch.randn(k.B, 2, generator=g, dtype=k.dtype), name=f"v{i}") for i in range(3)]
                ts = [th.Vector(tensor=torch.randn(1, 2, generator=g, dtype=k.dtype), name=f"t{i}") for i in range(3)]
                rs = [th.Vector(tensor=torch.randn(br, 1, generator=g, dtype=k.dtype), name=f"r{i}") for i in range(3)]
                ws = th.ScaleCostWeight(torch.full((1, 1), 1.3, dtype=k.dtype))
                exp = []
                for i in range(3):
                    r = rs[0] if shared else rs[i]
                    L = th.WelschLoss if i == 2 else th.HuberLoss
                    obj.add(th.RobustCostFunction(th.Difference(vs[i], ts[i], ws, name=f"d{i}"), L, r, flatten_dims=flat, name=f"c{i}"))
                    e = 1.3 * (vs[i].tensor - ts[i].tensor)
                    s = e * e if flat else (e * e).sum(1, keepdim=True)
                    exp.append(L.evaluate(s, r.tensor).sum(1))
                for vec in (False, True):
                    if vec:
                        th.Vectorize(obj)
                    obj.update()
                    k.eq(f"{flat}/{br}/{shared}/metric vec={vec}", obj.error_metric(), sum(exp) / 2, ctol=1e-9)
                    Js = {cf.name: cf.weighted_jacobians_error() for cf in obj._get_jacobians_iter()} if not vec else None
                    it = list(obj._get_jacobians_iter())
                    for i, cf in enumerate(it):
                        J, e = cf.weighted_jacobians_error()
                        k.same(f"{flat}/{br}/{shared}/{i} shapes vec={vec}", (tuple(J[0].shape), tuple(e.shape)), ((k.B, 2, 2), (k.B, 2)))
                        if vec:
                            k.eq(f"{flat}/{br}/{shared}/{i} J", J[0], base[i][0], ctol=1e-10)
                            k.eq(f"{flat}/{br}/{shared}/{i} e", e, base[i][1], ctol=1e-10)
                    if not vec:
                        base = [(cf.weighted_jacobians_error()[0][0].clone(), cf.weighted_jacobians_error()[1].clone()) for cf in it]


@contract("C09", "rejected", mode="con", con=(2,), funcs=["GNCRobustCostFunction.__init__"])
def rejected(k):
    base, _ = poly(k, th.ScaleCostWeight(1.0))
    v = th.Vector(1, name="l")
    k.raises("GNC needs a GNC loss", lambda: rcf.GNCRobustCostFunction(base, th.HuberLoss, v, th.Vector(1, name="m")), RuntimeError)
