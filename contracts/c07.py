"""C07: the Jacobians of the built-in cost functions are derivatives of their errors."""
import math

import torch
import theseus as th
import theseus.embodied as emb
from dv.run import contract
from .groups import ALL, LIE, G, log_by_contract

INFO = dict(level="proof")


def with_log(f):
    def h(k):
        with log_by_contract(k):
            f(k)
    h.__name__ = f.__name__
    return h


def wts(k, d):
    return th.ScaleCostWeight(torch.ones(1, 1, dtype=k.dtype))


def var(g, t, name):
    v = g.wrap(t)
    v.name = name
    return v


def col(J, j):
    return J[:, :, j]


def check_cf(k, nm, cf, tol=0.0, ctol=None, deriv=True, skip=()):
    """jacobians() returns one block per optimisation variable, in registration
    order, equal to the derivative of error() along retractions of it."""
    e0 = cf.error()
    vs = list(cf.optim_vars)
    before = [v.tensor for v in vs] + [a.tensor for a in cf.aux_vars]
    J, e = cf.jacobians()
    after = [v.tensor for v in vs] + [a.tensor for a in cf.aux_vars]
    for i, (a, b) in enumerate(zip(before, after)):
        k.eq(f"{nm}/variable {i} unchanged", b, a, ctol=0)
    k.eq(f"{nm}/error reported with Jacobians", e, e0, tol=tol)
    k.same(f"{nm}/error shape", tuple(e.shape), (k.B, cf.dim()))
    k.same(f"{nm}/count", len(J), len(vs))
    for i, v in enumerate(vs):
        g = G(type(v).__name__) if type(v).__name__ != "Vector" else None
        x = v.tensor
        dof = v.dof()
        k.same(f"{nm}/J[{i}] shape", tuple(J[i].shape), (k.B, cf.dim(), dof))
        if not deriv or (k.symbolic and i in skip):
            continue

        def f(t, v=v, x=x):
            v.update(t)
            try:
                return cf.error()
            finally:
                v.update(x)

        for j in range(dof):
            if g is None:
                z = torch.zeros_like(x[:, 0])
                dx = torch.stack([torch.ones_like(z) if a == j else z for a in range(dof)], dim=-1)
            else:
                dx = g.dtensor(x, g.basis(x, j))
            k.eq(f"{nm}/J[{i}][:, {j}]", k.D(f, x, dx), col(J[i], j), tol=tol, ctol=ctol)
    return J, e


def dot_group(g, k, nm, zero=True):
    return g.elem(k, nm)


@contract("C07", "Local", con=(16, 1), funcs=["Local.error", "Local.jacobians"], budget=90)
@with_log
def local(k):
    for name in ALL:
        g = G(name)
        x, t = g.elem(k, "X" + name), g.elem(k, "T" + name)
        cf = th.Difference(var(g, x, "x"), var(g, t, "t"), wts(k, g.dof))
        _, e = check_cf(k, name, cf, ctol=1e-4)
        J, _ = cf.jacobians()
        Jl = []
        l = g.wrap(t).inverse().compose(g.wrap(x)).log_map(jacobians=Jl)
        k.eq(f"{name}/error = log(target^-1 var)", e, l, ctol=1e-5)
        k.eq(f"{name}/J = dlog", J[0], Jl[0], ctol=1e-5)


@contract("C07", "Local/fast approximation", con=(16, 1), dtypes=("float64", "float32"), funcs=["Local.jacobians"], budget=90)
@with_log
def local_fast(k):
    """with the documented approximation switched on the error stays the same and
    the block is the identity of the current batch and type; it is the derivative
    for vectors; switched off again, the block is the exact one."""
    for n in ("SO2", "SE2", "SO3", "SE3", "Point2"):
        g = G(n)
        cf = emb.Local(var(g, g.elem(k, n + "x"), "x" + n), var(g, g.elem(k, n + "y"), "y" + n), wts(k, g.dof))
        e = cf.error()
        (exact,), _ = cf.jacobians()
        th.set_global_params({"fast_approx_local_jacobians": True})
        try:
            (J,), e2 = cf.jacobians()
            k.eq(n + "/error", e2, e)
            k.eq(n + "/block", J, torch.eye(g.dof, dtype=k.dtype).expand(k.B, -1, -1))
            (J,), e2 = cf.jacobians()
            k.eq(n + "/again", J, torch.eye(g.dof, dtype=k.dtype).expand(k.B, -1, -1))
            if n == "Point2":
                k.eq(n + "/exact for vectors", J, exact)
            if not k.symbolic:
                for dt, B in ((torch.float64, 1), (torch.float32, 1), (torch.float32, 3), (torch.float64, 3), (torch.float64, 2)):
                    cf.var.to(dtype=dt)
                    cf.target.to(dtype=dt)
                    cf.var.update(g.cls.rand(B, dtype=dt).tensor)
                    cf.target.update(g.cls.rand(B, dtype=dt).tensor)
                    (J,), e2 = cf.jacobians()
                    k.same(n + "/type and batch", (str(J.dtype), tuple(J.shape), str(e2.dtype)), (str(dt), (B, g.dof, g.dof), str(dt)))
                    k.eq(n + "/block after update", J, torch.eye(g.dof, dtype=dt).expand(B, -1, -1), ctol=0)
        finally:
            th.set_global_params({"fast_approx_local_jacobians": False})
        if k.symbolic:
            k.eq(n + "/exact afterwards", cf.jacobians()[0][0], exact)


@contract("C07", "Between", con=(16, 1), funcs=["Between.error", "Between.jacobians"], budget=120)
@with_log
def between(k):
    for name in ALL:
        g = G(name)
        a, b, m = g.elem(k, "A" + name), g.elem(k, "B" + name), g.elem(k, "M" + name)
        cf = th.Between(var(g, a, "a"), var(g, b, "b"), var(g, m, "m"), wts(k, g.dof))
        J, e = check_cf(k, name, cf, ctol=1e-4)
        Jl = []
        d = g.wrap(a).inverse().compose(g.wrap(b))
        l = g.wrap(m).inverse().compose(d).log_map(jacobians=Jl)
        k.eq(f"{name}/error = log(m^-1 a^-1 b)", e, l, ctol=1e-5)
        k.eq(f"{name}/d b = dlog", J[1], Jl[0], ctol=1e-5)
        k.eq(f"{name}/d a = -dlog Ad((a^-1 b)^-1)", J[0], -(Jl[0] @ d.inverse().adjoint()), ctol=1e-5)


@contract("C07", "MovingFrameBetween/derivative", mode="con", con=(16, 1, 2), funcs=["MovingFrameBetween.jacobians"])
def moving_con(k):
    """at zero residual the blocks are the derivatives (away from it the log
    Jacobian is missing: see the known finding checked below)."""
    for name in ALL:
        g = G(name)
        f1, f2, p1, p2 = (g.elem(k, n + name) for n in ("F1", "F2", "P1", "P2"))
        z = g.wrap(f1).between(g.wrap(p1)).between(g.wrap(f2).between(g.wrap(p2)))
        cf = th.eb.MovingFrameBetween(*(var(g, t, n) for t, n in ((f1, "f1"), (f2, "f2"), (p1, "p1"), (p2, "p2"))), var(g, z.tensor, "m"), wts(k, g.dof))
        check_cf(k, name, cf, ctol=2e-3)
        e = cf.error()
        k.eq(f"{name}/zero residual", e, torch.zeros_like(e), ctol=1e-5)


@contract("C07", "MovingFrameBetween/nonzero residual", mode="con", con=(1,), funcs=["MovingFrameBetween.jacobians"])
def moving_nz(k):
    """known finding F06: one fixed input with a residual far from zero."""
    f1, f2 = th.SE2(x_y_theta=torch.tensor([[0.0, 0.0, 0.0]], dtype=k.dtype)), th.SE2(x_y_theta=torch.tensor([[0.0, 0.0, 0.0]], dtype=k.dtype))
    p1, p2 = th.SE2(x_y_theta=torch.tensor([[0.0, 0.0, 0.0]], dtype=k.dtype)), th.SE2(x_y_theta=torch.tensor([[1.0, 2.0, 1.0]], dtype=k.dtype))
    m = th.SE2(x_y_theta=torch.tensor([[0.0, 0.0, 0.0]], dtype=k.dtype))
    cf = th.eb.MovingFrameBetween(f1, f2, p1, p2, m, wts(k, 3))
    check_cf(k, "SE2 fixed", cf, ctol=1e-3)


@contract("C07", "MovingFrameBetween", con=(8, 1), funcs=["MovingFrameBetween.error", "MovingFrameBetween.jacobians"], budget=120)
@with_log
def moving(k):
    for name in ALL:
        g = G(name)
        f1, f2, p1, p2, m = (g.elem(k, n + name) for n in ("F1", "F2", "P1", "P2", "M"))
        cf = th.eb.MovingFrameBetween(*(var(g, t, n) for t, n in ((f1, "f1"), (f2, "f2"), (p1, "p1"), (p2, "p2"), (m, "m"))), wts(k, g.dof))
        J, e = check_cf(k, name, cf, deriv=False)
        W = g.wrap
        q1, q2 = W(f1).inverse().compose(W(p1)), W(f2).inverse().compose(W(p2))
        d = q1.inverse().compose(q2)
        k.eq(f"{name}/error", e, W(m).inverse().compose(d).log_map(), ctol=1e-5)
        if name == "SE3" and k.symbolic:
            # chain of the Jacobians that between reports (C03)
            J1, J2, Jb = [], [], []
            r1, r2 = W(f1).between(W(p1), jacobians=J1), W(f2).between(W(p2), jacobians=J2)
            r1.between(r2, jacobians=Jb)
            for i, (j, want) in enumerate((("frame1", Jb[0] @ J1[0]), ("frame2", Jb[1] @ J2[0]), ("pose1", Jb[0] @ J1[1]), ("pose2", Jb[1] @ J2[1]))):
                k.eq(f"{name}/d {j}", J[i], want)
            continue
        A = d.inverse().adjoint()
        k.eq(f"{name}/d pose2", J[3], torch.eye(g.dof, dtype=k.dtype).expand(k.B, -1, -1))
        k.eq(f"{name}/d pose1", J[2], -A)
        k.eq(f"{name}/d frame2", J[1], -q2.inverse().adjoint())
        k.eq(f"{name}/d frame1", J[0], A @ q1.inverse().adjoint())


@contract("C07", "DoubleIntegrator", con=(8, 1), funcs=["DoubleIntegrator.error", "DoubleIntegrator.jacobians", "GPMotionModel"], budget=120)
@with_log
def dint(k):
    for name in ["Vector"] + ALL:
        if name == "Vector":
            g = None
            n = 4
            x1, x2 = k.real("x1", n), k.real("x2", n)
            p1, p2 = th.Vector(tensor=x1, name="p1"), th.Vector(tensor=x2, name="p2")
        else:
            g = G(name)
            n = g.dof
            x1, x2 = g.elem(k, "A" + name), g.elem(k, "B" + name)
            p1, p2 = var(g, x1, "p1"), var(g, x2, "p2")
        u1, u2 = k.real("u1" + name, n), k.real("u2" + name, n)
        dt = k.pos("dt", 1)
        cf = th.eb.DoubleIntegrator(p1, th.Vector(tensor=u1, name="v1"), p2, th.Vector(tensor=u2, name="v2"), th.Variable(dt, name="dt"), wts(k, n))
        # d pose1 is the Jacobian local reports (C03); clause below
        J, e = check_cf(k, name, cf, skip=(0,) if name in ("SE2", "SO3", "SE3") else (), ctol=1e-3)
        Jl = []
        l = p1.local(p2, jacobians=Jl)
        k.eq(f"{name}/error pose", e[:, :n], l - dt * u1)
        k.eq(f"{name}/error vel", e[:, n:], u2 - u1)
        I = torch.eye(n, dtype=k.dtype).expand(k.B, -1, -1)
        Z = torch.zeros_like(I)
        k.eq(f"{name}/d pose1", J[0], torch.cat([Jl[0], Z], dim=1))
        k.eq(f"{name}/d vel1", J[1], torch.cat([-dt.unsqueeze(-1) * I, -I], dim=1))
        k.eq(f"{name}/d pose2", J[2], torch.cat([Jl[1], Z], dim=1))
        k.eq(f"{name}/d vel2", J[3], torch.cat([Z, I], dim=1))


@contract("C07", "HingeCost", funcs=["HingeCost.error", "HingeCost.jacobians"])
def hinge(k):
    n = 3
    x = k.real("x", n, scale=3.0)
    lo = k.real("lo", n)
    w, th_ = k.pos("w", n), k.pos("th", n, lo=0.05, hi=0.5)
    up = lo + w
    cf = th.eb.HingeCost(th.Vector(tensor=x, name="x"), th.Variable(lo, name="lo"), th.Variable(up, name="up"), th.Variable(th_, name="thr"), wts(k, n))
    J, e = check_cf(k, "hinge", cf)
    below, above = x < lo + th_, x > up - th_
    z = torch.zeros_like(x)
    k.eq("value", e, torch.where(above, x - (up - th_), torch.where(below, lo + th_ - x, z)))
    s = torch.where(above, torch.ones_like(x), torch.where(below, -torch.ones_like(x), z))
    k.eq("J", J[0], torch.diag_embed(s))


@contract("C07", "Nonholonomic", funcs=["Nonholonomic.error", "Nonholonomic.jacobians"])
def nonhol(k):
    v = k.real("v", 3)
    g = G("SE2")
    cf = th.eb.Nonholonomic(var(g, g.elem(k, "X"), "p"), th.Vector(tensor=v, name="v"), wts(k, 1))
    _, e = check_cf(k, "SE2", cf)
    k.eq("SE2/error = lateral body velocity", e[:, 0], v[:, 1])
    for nm, t in (("Point3", k.signed_angle("th", zero=False)),):
        x = torch.cat([k.real("xy", 2), t], dim=1)
        for cls in (th.Point3, th.Vector):
            cf = th.eb.Nonholonomic(cls(tensor=x, name="p"), th.Vector(tensor=v, name="v"), wts(k, 1))
            _, e = check_cf(k, cls.__name__, cf)
            k.eq(cls.__name__ + "/error", e[:, 0], v[:, 1] * t[:, 0].cos() - v[:, 0] * t[:, 0].sin())


@contract("C07", "QuasiStaticPushingPlanar", funcs=["QuasiStaticPushingPlanar.error", "QuasiStaticPushingPlanar.jacobians"], budget=120)
def pushing(k):
    g = G("SE2")
    t = k.signed_angle("t", math.pi - 1e-2, zero=False)
    o1 = g.elem(k, "O1")
    z = torch.cat([k.real("p", 2, bound=3), t.cos(), t.sin()], dim=1)
    o2 = g.wrap(o1).compose(g.wrap(z)).tensor  # any relative motion with angle below pi
    e1, e2 = g.elem(k, "E1"), g.elem(k, "E2")
    c2 = k.pos("c2", 1)
    cf = th.eb.QuasiStaticPushingPlanar(var(g, o1, "o1"), var(g, o2, "o2"), var(g, e1, "e1"), var(g, e2, "e2"), th.Variable(c2, name="c2"), wts(k, 3))
    J, e = check_cf(k, "push", cf, ctol=1e-4)
    # Zhou et al.: D V = Vp in the object frame
    c, s = o2[:, 2], o2[:, 3]

    def unrot(v):
        return torch.stack([c * v[:, 0] + s * v[:, 1], -s * v[:, 0] + c * v[:, 1]], dim=1)

    p = unrot(e2[:, :2] - o2[:, :2])
    V = unrot(o2[:, :2] - o1[:, :2])
    Vp = unrot(e2[:, :2] - e1[:, :2])
    om = t[:, 0]
    want = torch.stack([V[:, 0] - p[:, 1] * om - Vp[:, 0], V[:, 1] + p[:, 0] * om - Vp[:, 1], -p[:, 1] * V[:, 0] + p[:, 0] * V[:, 1] - c2[:, 0] * om], dim=1)
    k.eq("value", e, want, ctol=1e-5)


@contract("C07", "Reprojection", con=(16, 1), funcs=["Reprojection.error", "Reprojection.jacobians"], budget=120)
def reproj(k):
    g, gp = G("SE3"), G("Point3")
    x = g.elem(k, "X")
    q = k.real("q", 2)
    z = k.pos("z", 1)  # depth in the camera frame (negative z axis is in front; both signs by symmetry)
    s = k.pm("sgn", 1) if hasattr(k, "pm") else 1.0
    pc = torch.cat([q, z * s], dim=1)
    p = (x[:, :, :3].transpose(1, 2) @ (pc - x[:, :, 3]).unsqueeze(-1)).squeeze(-1)
    f, k1, k2 = k.pos("f", 1), k.real("k1", 1, scale=0.1), k.real("k2", 1, scale=0.1)
    uv = k.real("uv", 2)
    V = lambda t, n: th.Vector(tensor=t, name=n)  # noqa: E731
    cf = th.eb.Reprojection(var(g, x, "cam"), th.Point3(tensor=p, name="pt"), th.Point2(tensor=uv, name="uv"), V(f, "f"), V(k1, "k1"), V(k2, "k2"), weight=wts(k, 2))
    J, e = check_cf(k, "reproj", cf, ctol=1e-3)
    n = -pc[:, :2] / pc[:, 2:]
    r2 = (n * n).sum(dim=1, keepdim=True)
    k.eq("value", e, n * f * (1 + r2 * (k1 + r2 * k2)) - uv, ctol=1e-5)


@contract("C07", "optim/aux order", mode="con", con=(2,), funcs=["CostFunction.register_optim_vars", "CostFunction.optim_vars"])
def order(k):
    g = G("SE2")
    a, b, m = (g.elem(k, n) for n in "abm")
    cf = th.Between(var(g, a, "zz"), var(g, b, "aa"), var(g, m, "mm"), wts(k, 3))
    k.same("optim order", [v.name for v in cf.optim_vars], ["zz", "aa"])
    k.same("aux", [v.name for v in cf.aux_vars], ["mm"])
    J, _ = cf.jacobians()
    k.eq("second block belongs to the second variable", J[1], cf.jacobians()[0][1])
