"""C03: every reported Jacobian of a group operation is the derivative of that operation
with respect to a right (local) perturbation of its argument."""
import math

import torch
import theseus as th
import torchlie
from torchlie import lie_tensor as LT
from dv.run import contract
from . import lietensor
from .groups import ALL, LIE, G, eye, skew, mat

INFO = dict(level="proof")
DT = ("float64", "float32")
# near zero rotation the Jacobians are truncated series
# truncation error of the documented small-angle series (proved by Taylor models)
LTOL = {"SO2": {torch.float64: 0.0, torch.float32: 0.0}, "SE2": {torch.float64: 1e-14, torch.float32: 3e-5}, "SO3": {torch.float64: 1e-9, torch.float32: 3e-6}, "SE3": {torch.float64: 3e-7, torch.float32: 3e-6}}
ETOL = {"SO2": {torch.float64: 0.0, torch.float32: 0.0}, "SE2": {torch.float64: 1e-14, torch.float32: 4e-6}, "SO3": {torch.float64: 1.7e-5, torch.float32: 7e-5}, "SE3": {torch.float64: 1.7e-5, torch.float32: 7e-5}}
TOL = {torch.float64: 1.7e-5, torch.float32: 7e-5}
CT = {torch.float64: None, torch.float32: 5e-2}


def col(J, j):
    return J[:, :, j]


def exact_exp(name, w):
    """the exact exponential (Rodrigues formula), spec side, w != 0."""
    ang = w[:, -3:]
    t = (ang * ang).sum(dim=1).sqrt()
    K = skew(ang)
    KK = K @ K
    a = (t.sin() / t)[:, None, None]
    b = ((1 - t.cos()) / (t * t))[:, None, None]
    R = eye(3, w) + a * K + b * KK
    if name == "SO3":
        return R
    c = ((t - t.sin()) / (t * t * t))[:, None, None]
    V = eye(3, w) + b * K + c * KK
    return torch.cat([R, V @ w[:, :3].unsqueeze(-1)], dim=-1)


def check_group_out(k, nm, g, f, wrapin, t, gin, J, tol=0.0):
    """f: argument tensor -> output group tensor; J its reported Jacobian."""
    out = f(t)
    M = g.M(out)
    for j in range(gin.dof):
        d = k.D(f, t, gin.dtensor(t, gin.basis(t, j)))
        k.eq(f"{nm}[:, {j}]", d, g.dtensor(out, col(J, j)), tol=tol, ctol=k.sel(CT))


def _mk(name):
    g = G(name)

    @contract("C03", f"binary/{name}", funcs=[f"{name}.compose", f"{name}.between", f"{name}.inverse"], budget=90)
    def binary(k):
        x, y = g.elem(k, "X"), g.elem(k, "Y")
        Js = []
        c = g.wrap(x).compose(g.wrap(y), jacobians=Js)
        k.same("compose/count", len(Js), 2)
        k.eq("compose/value", c.tensor, g.wrap(x).compose(g.wrap(y)).tensor)
        check_group_out(k, "compose d/dx", g, lambda t: g.wrap(t).compose(g.wrap(y)).tensor, None, x, g, Js[0])
        check_group_out(k, "compose d/dy", g, lambda t: g.wrap(x).compose(g.wrap(t)).tensor, None, y, g, Js[1])
        Js = []
        inv = g.wrap(x).inverse(jacobian=Js)
        k.same("inverse/count", len(Js), 1)
        k.eq("inverse/value", inv.tensor, g.wrap(x).inverse().tensor)
        check_group_out(k, "inverse d/dx", g, lambda t: g.wrap(t).inverse().tensor, None, x, g, Js[0])
        Js = []
        b = g.wrap(x).between(g.wrap(y), jacobians=Js)
        k.same("between/count", len(Js), 2)
        k.eq("between/value", b.tensor, g.wrap(x).between(g.wrap(y)).tensor)
        check_group_out(k, "between d/dx", g, lambda t: g.wrap(t).between(g.wrap(y)).tensor, None, x, g, Js[0])
        check_group_out(k, "between d/dy", g, lambda t: g.wrap(x).between(g.wrap(t)).tensor, None, y, g, Js[1])

    @contract("C03", f"exp/{name}", dtypes=DT if name in LIE else ("float64",), funcs=[f"{name}.exp_map"], budget=120)
    def exp(k):
        if name == "SO2":
            w = k.signed_angle("w", zero=False)
        elif name == "SE2":
            w = k.se2_tangent("w", zero=False)
        elif name == "SO3":
            w = k.aa("w", zero=False)
        elif name == "SE3":
            w = k.se3_tangent("w", zero=False)
        else:
            w = k.real("w", g.dof)
        Js = []
        e = g.cls.exp_map(w, jacobians=Js)
        k.same("count", len(Js), 1)
        k.eq("value", e.tensor, g.cls.exp_map(w).tensor)
        if name in ("SO3", "SE3"):
            w2, J2 = w.double(), Js[0].double()
            f = lambda t: exact_exp(name, t)  # noqa: E731
            ex = f(w2)
        else:
            w2, J2, ex = w, Js[0], e.tensor
            f = lambda t: g.cls.exp_map(t).tensor  # noqa: E731
        for j in range(g.dof):
            d = k.D(f, w2, g.basis(w2, j))
            k.eq(f"d exp/dv[:, {j}]", d, g.dtensor(ex, col(J2, j)), tol=k.sel(ETOL[name]) if name in LIE else 0.0, ctol=k.sel(CT))

    @contract("C03", f"log/{name}", dtypes=DT if name in LIE else ("float64",), funcs=[f"{name}.log_map"], budget=120)
    def log(k):
        if name == "SO2":
            t = k.signed_angle("t", math.pi - 1e-3, zero=False)
            x = torch.cat([t.cos(), t.sin()], dim=1)
        elif name == "SE2":
            t = k.signed_angle("t", math.pi - 1e-3, zero=False)
            x = torch.cat([k.real("p", 2, bound=3), t.cos(), t.sin()], dim=1)
        elif name == "SO3":
            x, _, t = k.rot_aa("R")
        elif name == "SE3":
            R, _, t = k.rot_aa("R")
            x = torch.cat([R, k.real("p", 3, bound=3).unsqueeze(-1)], dim=-1)
        else:
            x = k.real("x", g.dof)
            t = None
        Js = []
        l = g.wrap(x).log_map(jacobians=Js)
        k.same("count", len(Js), 1)
        k.eq("value", l, g.wrap(x).log_map())
        for j in range(g.dof):
            d = k.D(lambda z: g.wrap(z).log_map(), x, g.dtensor(x, g.basis(l, j)))
            k.eq(f"d log/dx[:, {j}]", d, col(Js[0], j), tol=k.sel(LTOL[name]) if name in LIE else 0.0, ctol=k.sel(CT))


for _n in ALL:
    _mk(_n)


@contract("C03", "points", funcs=["SO2.rotate", "SE2.transform_from", "SE2.transform_to", "SO3.rotate", "SO3.unrotate", "SE3.transform_from", "SE3.transform_to"])
def points(k):
    for name, fr, to, d in (("SO2", "rotate", "unrotate", 2), ("SE2", "transform_from", "transform_to", 2), ("SO3", "rotate", "unrotate", 3), ("SE3", "transform_from", "transform_to", 3)):
        g = G(name)
        x = g.elem(k, "X" + name)
        p = k.real("p" + name, d)
        P = {2: th.Point2, 3: th.Point3}[d]
        for m in (fr, to):
            Js = []
            o = getattr(g.wrap(x), m)(P(tensor=p), jacobians=Js)
            k.same(f"{name}.{m}/count", len(Js), 2)
            k.eq(f"{name}.{m}/value", o.tensor, getattr(g.wrap(x), m)(P(tensor=p)).tensor)
            for j in range(g.dof):
                dd = k.D(lambda z: getattr(g.wrap(z), m)(P(tensor=p)).tensor, x, g.dtensor(x, g.basis(x, j)))
                k.eq(f"{name}.{m} d/dx[:, {j}]", dd, col(Js[0], j))
            for j in range(d):
                z = torch.zeros_like(p[:, 0])
                e = torch.stack([torch.ones_like(z) if i == j else z for i in range(d)], dim=-1)
                dd = k.D(lambda q: getattr(g.wrap(x), m)(P(tensor=q)).tensor, p, e)
                k.eq(f"{name}.{m} d/dp[:, {j}]", dd, col(Js[1], j))


@contract("C03", "accessors", funcs=["SE2.theta", "SE2.xy", "SO2.theta"])
def accessors(k):
    g = G("SE2")
    t = k.signed_angle("t", math.pi - 1e-3, zero=False)
    x = torch.cat([k.real("p", 2), t.cos(), t.sin()], dim=1)
    J1, J2 = [], []
    a = g.wrap(x).theta(jacobians=J1)
    b = g.wrap(x).xy(jacobians=J2)
    k.eq("theta", a, t)
    k.eq("xy", b.tensor, x[:, :2])
    for j in range(3):
        dt = g.dtensor(x, g.basis(t, j))
        k.eq(f"d theta[{j}]", k.D(lambda z: g.wrap(z).theta(), x, dt), col(J1[0], j))
        k.eq(f"d xy[{j}]", k.D(lambda z: g.wrap(z).xy().tensor, x, dt), col(J2[0], j))
    g2 = G("SO2")
    x2 = torch.cat([t.cos(), t.sin()], dim=1)
    k.eq("SO2 theta", g2.wrap(x2).theta(), t)


@contract("C03", "local", con=(1, 16), funcs=["LieGroup._local_impl", "local"], budget=90)
def local(k):
    """local(x, y) = log(x^-1 y): its Jacobians follow by the chain rule from log's."""
    for name in ("SO2", "SE2", "Point2", "Point3") + (() if k.symbolic else ("SO3", "SE3")):
        g = G(name)
        if name == "SO2":
            t = k.signed_angle("t2", math.pi - 1e-3, zero=False)
            z = torch.cat([t.cos(), t.sin()], dim=1)
        elif name == "SE2":
            t = k.signed_angle("t3", math.pi - 1e-3, zero=False)
            z = torch.cat([k.real("p", 2, bound=3), t.cos(), t.sin()], dim=1)
        else:
            z = g.elem(k, "Z" + name)
        x = g.elem(k, "X" + name)
        y = g.wrap(x).compose(g.wrap(z)).tensor  # any y, written x o z
        Js, Jl = [], []
        v = th.local(g.wrap(x), g.wrap(y), jacobians=Js)
        lz = g.wrap(z).log_map(jacobians=Jl)
        k.same(f"{name}/count", len(Js), 2)
        k.eq(f"{name}/value = log(x^-1 y)", v, lz, tol=1e-9)
        k.eq(f"{name}/d/dy", Js[1], Jl[0])
        Ad = g.wrap(z).inverse().adjoint()
        k.eq(f"{name}/d/dx", Js[0], -(Jl[0] @ Ad), tol=1e-9)


@contract("C03", "torchlie tensors", con=(8, 1), budget=90, funcs=["LieTensor.jcompose", "LieTensor.jinv", "LieTensor.jtransform", "LieTensor.juntransform", "LieTensor.jlog", "ltype.jexp"])
def lie_tensors(k):
    for name in lietensor.NAMES:
        g = G(name)
        L = getattr(torchlie, name)
        x, y = g.elem(k, "X" + name), g.elem(k, "Y" + name)
        p = k.real("p" + name, 3)
        with lietensor.rig(k) as make:
            a, b = make(name, x), make(name, y)
            for nm, j, f, ins in (("compose", lambda: a.jcompose(b), lambda s, t: make(name, s).compose(make(name, t))._t, (x, y)), ("function compose", lambda: LT.jcompose(a, b), lambda s, t: make(name, s).compose(make(name, t))._t, (x, y)),
                                  ("inv", lambda: a.jinv(), lambda s: make(name, s).inv()._t, (x,)), ("function inv", lambda: LT.jinv(a), lambda s: make(name, s).inv()._t, (x,))):
                Js, o = j()
                k.same(f"{name} {nm}/count", len(Js), len(ins))
                k.same(f"{name} {nm}/a group tensor", lietensor.is_lie(o) and o.ltype is L, True)
                k.eq(f"{name} {nm}/value", o._t, f(*ins))
                for i in range(len(ins)):
                    def h(z, i=i):
                        w = list(ins)
                        w[i] = z
                        return f(*w)
                    check_group_out(k, f"{name} {nm} d/d{i}", g, h, None, ins[i], g, Js[i])
            for nm, j, f in (("transform", lambda: a.jtransform(p), lambda s, t: make(name, s).transform(t)), ("untransform", lambda: a.juntransform(p), lambda s, t: make(name, s).untransform(t)),
                             ("function transform", lambda: LT.jtransform(a, p), lambda s, t: make(name, s).transform(t)), ("function untransform", lambda: LT.juntransform(a, p), lambda s, t: make(name, s).untransform(t))):
                Js, o = j()
                k.same(f"{name} {nm}/count", len(Js), 2)
                k.eq(f"{name} {nm}/value", o, f(x, p))
                for i in range(g.dof):
                    k.eq(f"{name} {nm} d/dx[:, {i}]", k.D(lambda z: f(z, p), x, g.dtensor(x, g.basis(x, i))), col(Js[0], i))
                for i in range(3):
                    k.eq(f"{name} {nm} d/dp[:, {i}]", k.D(lambda z: f(x, z), p, G("SO3").basis(x, i)), col(Js[1], i))
            # exp and log: what the functional library reports (contracts above)
            R, _, t = k.rot_aa("R" + name)
            z = R if name == "SO3" else torch.cat([R, k.real("q", 3, bound=3).unsqueeze(-1)], dim=-1)
            F = L._fn_lib
            for nm, j in (("log", lambda: make(name, z).jlog()), ("function log", lambda: LT.jlog(make(name, z)))):
                Js, o = j()
                Jf, of = F.jlog(z)
                k.same(f"{name} {nm}/count", len(Js), 1)
                k.eq(f"{name} {nm}/value", o, of)
                k.eq(f"{name} {nm}/Jacobian", Js[0], Jf[0])
                k.eq(f"{name} {nm}/value without Jacobian", make(name, z).log(), of)
            w = k.aa("w3", zero=False) if name == "SO3" else k.se3_tangent("w6", zero=False)
            Js, o = L.jexp(w)
            Jf, of = F.jexp(w)
            k.same(f"{name} exp/a group tensor", lietensor.is_lie(o) and o.ltype is L, True)
            k.same(f"{name} exp/count", len(Js), 1)
            k.eq(f"{name} exp/value", o._t, of)
            k.eq(f"{name} exp/Jacobian", Js[0], Jf[0])
            k.eq(f"{name} exp/value without Jacobian", L.exp(w)._t, of)
