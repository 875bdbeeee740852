"""C04: retract / local are exact inverses and never touch their operands."""
import contextlib
import math

import torch
import theseus as th
import torchlie
from torchlie import lie_tensor as LT
from dv.run import contract
from . import lietensor
from .groups import ALL, LIE, G

INFO = dict(level="proof")
DT = ("float64", "float32")
TOL = {torch.float64: 1e-11, torch.float32: 3e-7}


def step(k, g, nm, zero=True):
    """a tangent vector; rotation angle below pi."""
    return g.tangent(k, nm, math.pi - 1e-2) if g.name in LIE else k.real(nm, g.dof)


def _mk(name):
    g = G(name)

    @contract("C04", f"retract/{name}", funcs=[f"{name}.retract", "Manifold.retract", "LieGroup._retract_impl"])
    def retract(k):
        x, d = g.elem(k, "X"), g.tangent(k, "d")
        v = g.wrap(x)
        r = v.retract(d)
        e = g.cls.exp_map(d).tensor
        k.same("type", type(r).__name__, name)
        k.eq("retract(x, d) = x exp(d)", g.M(r.tensor), g.M(x) @ g.M(e))
        k.eq("functional form", th.retract(v, d).tensor, r.tensor)
        k.eq("operand unchanged", v.tensor, x)
        k.same("new object", r is v, False)
        k.eq("zero step", g.M(v.retract(torch.zeros_like(d)).tensor), g.M(x))

    @contract("C04", f"local/{name}", dtypes=DT if name in LIE else ("float64",), funcs=[f"{name}.local", "LieGroup._local_impl"], budget=60)
    def local(k):
        """local(x, x exp(w)) = w for every w with rotation angle below pi, and x local(x, y) = y."""
        if name == "SO2":
            w = k.signed_angle("w", math.pi - 1e-2, zero=False)
            z = torch.cat([w.cos(), w.sin()], dim=1)
        elif name == "SO3":
            z, ax, t = k.rot_aa("Z")
            w = t * ax
        else:
            z = w = None
        x = g.elem(k, "X")
        tol = k.sel(TOL)
        ct = 2e-2 if k.dtype == torch.float32 else 1e-4
        if z is not None and not (k.symbolic and name == "SO3"):
            # (SO3: the clause below with C01 x^-1 (x z) = z and C02 log z = w)
            y = g.wrap(x).compose(g.wrap(z)).tensor
            k.eq("local(x, x exp(w)) = w", g.wrap(x).local(g.wrap(y)), w, tol=tol, ctol=ct)
        elif name.startswith("Point"):
            y = g.elem(k, "Y")
            k.eq("local(x, y) = y - x", g.wrap(x).local(g.wrap(y)), y - x)
            k.eq("retract(x, local(x, y)) = y", g.wrap(x).retract(g.wrap(x).local(g.wrap(y))).tensor, y)
        else:
            y = g.elem(k, "Y")
        if z is not None and k.symbolic:
            y = g.elem(k, "Y")
        k.eq("local(x, y) = log(x^-1 y)", g.wrap(x).local(g.wrap(y)), g.wrap(x).inverse().compose(g.wrap(y)).log_map(), ctol=ct)
        k.eq("functional form", th.local(g.wrap(x), g.wrap(y)), g.wrap(x).local(g.wrap(y)))

    @contract("C04", f"roundtrip/{name}", mode="con", con=(64, 1), dtypes=DT, funcs=[f"{name}.local", f"{name}.retract"])
    def roundtrip(k):
        x, y, d = g.elem(k, "X"), g.elem(k, "Y"), step(k, g, "d")
        a, b = g.wrap(x), g.wrap(y)
        ct = 5e-3 if k.dtype == torch.float32 else 2e-5
        k.eq("x.retract(x.local(y)) = y", a.retract(a.local(b)).tensor, y, ctol=ct)
        k.eq("x.local(x.retract(d)) = d", a.local(a.retract(d)), d, ctol=ct * 10)
        k.eq("x unchanged", a.tensor, x, ctol=0)
        k.eq("y unchanged", b.tensor, y, ctol=0)
        one = g.wrap(x[:1])
        rows = torch.cat([g.wrap(x[:1]).retract(d[i: i + 1]).tensor for i in range(len(d))])
        k.eq("batch of one steps like each row", one.retract(d).tensor, rows)


for _n in ALL:
    _mk(_n)


@contract("C04", "local2/SE", con=(16, 1), funcs=["SE2.local", "SE3.local"], budget=120)
def local_se(k):
    """local(x, x exp(w)) = w with the translation part, given log (C02)."""
    for name in ("SE2", "SE3") if not k.symbolic else ("SE2",):
        g = G(name)
        x = g.elem(k, "X" + name)
        if name == "SE2":
            t = k.signed_angle("t2", math.pi - 1e-2, zero=False)
            z = torch.cat([k.real("p2", 2, bound=3), t.cos(), t.sin()], dim=1)
        else:
            R, _, _ = k.rot_aa("Z3")
            z = torch.cat([R, k.real("p3", 3, bound=3).unsqueeze(-1)], dim=-1)
        y = g.wrap(x).compose(g.wrap(z)).tensor
        k.eq(f"{name}: local(x, x z) = log z", g.wrap(x).local(g.wrap(y)), g.wrap(z).log_map(), tol=1e-9, ctol=1e-5)


@contract("C04", "vector", funcs=["Vector.retract", "Vector.local"])
def vector(k):
    for n in (1, 2, 4, 7):
        x, y, d = k.real(f"x{n}", n), k.real(f"y{n}", n), k.real(f"d{n}", n)
        v = th.Vector(tensor=x)
        k.eq(f"retract[{n}]", v.retract(d).tensor, x + d)
        k.eq(f"local[{n}]", v.local(th.Vector(tensor=y)), y - x)
        k.same(f"dof[{n}]", v.dof(), n)


def _objective(dtype, specs):
    obj = th.Objective(dtype=dtype)
    vs = []
    for i, (g, t) in enumerate(specs):
        v = g.wrap(t)
        v.name = f"v{i}"
        vs.append(v)
    return obj, vs


@contract("C04", "step layout", funcs=["Objective.retract_vars_sequence", "Objective._retract_base", "Variable.update"])
def layout(k):
    """a step is split among the variables in the given order, each by its own dof."""
    gs = [G(n) for n in ("SE2", "Point3", "SO3", "SO2", "SE3", "Point2")]
    xs = [g.elem(k, f"X{i}") for i, g in enumerate(gs)]
    ds = [g.tangent(k, f"d{i}") for i, g in enumerate(gs)]
    for nm, order in (("given", list(range(6))), ("reversed", list(range(5, -1, -1))), ("mixed", [3, 0, 5, 4, 1, 2])):
        obj, vs = _objective(k.dtype, list(zip(gs, xs)))
        want = [gs[i].wrap(xs[i]).retract(ds[i]).tensor for i in range(6)]
        delta = torch.cat([ds[i] for i in order], dim=1)
        obj.retract_vars_sequence(delta, [vs[i] for i in order])
        for i in range(6):
            k.eq(f"{nm}: {gs[i].name}", vs[i].tensor, want[i])


@contract("C04", "ignore mask", funcs=["Objective._retract_base", "Variable.update"], con=(12, 1, 2), budget=90)
def mask(k):
    """rows under the ignore mask keep their value unless force_update is set."""
    m = k.real("m") > 0
    for name in ALL:
        g = G(name)
        x, d = g.elem(k, "X" + name), g.tangent(k, "d" + name)
        new = g.wrap(x).retract(d).tensor
        for force in (False, True):
            obj, (v,) = _objective(k.dtype, [(g, x)])
            obj.retract_vars_sequence(d, [v], ignore_mask=m, force_update=force)
            mm = m.view(-1, *([1] * (x.ndim - 1)))
            k.eq(f"{name} force={force}", v.tensor, new if force else torch.where(mm, x, new))
        obj, (v,) = _objective(k.dtype, [(g, x)])
        obj.retract_vars_sequence(d, [v])
        k.eq(f"{name} no mask", v.tensor, new)


@contract("C04", "torchlie tensors", con=(8, 1), budget=90, funcs=["LieTensor.retract", "LieTensor.local", "torchlie.local"])
def lie_tensors(k):
    """retract(x, d) = x exp(d) and local(x, y) = log(x^-1 y), of the contracts of exp and log."""
    for name in lietensor.NAMES:
        g = G(name)
        F = getattr(torchlie, name)._fn_lib
        x, d = g.elem(k, "X" + name), g.tangent(k, "d" + name, math.pi - 1e-2)
        R, _, t = k.rot_aa("R" + name)
        z = R if name == "SO3" else torch.cat([R, k.real("q", 3, bound=3).unsqueeze(-1)], dim=-1)
        y = F.compose(x, z)  # any element
        with lietensor.rig(k) as make, by_contract(k, F, name):
            a, b = make(name, x), make(name, y)
            e = g.M(F.exp(d))
            l = F.log(z)
            for nm, r in (("retract", a.retract(d)), ("function retract", LT.retract(a, d))):
                k.same(f"{name} {nm}/a group tensor", lietensor.is_lie(r) and str(r.ltype), name)
                k.eq(f"{name} {nm}(x, d) = x exp(d)", g.M(r._t), g.M(x) @ e)
            for nm, r in (("local", a.local(b)), ("function local", LT.local(a, b))):
                k.eq(f"{name} {nm}(x, y) = log(x^-1 y)", r, l, ctol=k.sel({torch.float64: 1e-6}))
            k.eq(f"{name} operands unchanged/x", a._t, x)
            k.eq(f"{name} operands unchanged/y", b._t, y)


@contextlib.contextmanager
def by_contract(k, F, name):
    """exp and log by contract: some functions of the step and of the element."""
    saved = F.exp, F.log
    if k.symbolic:
        F.exp = lambda v, jacobians=None: k.opaque(name + ".exp", lambda t: [saved[0](t)], [v])[0]
        F.log = lambda v, jacobians=None: k.opaque(name + ".log", lambda t: [saved[1](t)], [v])[0]
    try:
        yield
    finally:
        F.exp, F.log = saved
