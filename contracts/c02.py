"""C02: exponential and logarithm maps are the true Lie exponential/logarithm."""
import math

import torch
import theseus as th
import torchlie.functional
from dv.run import contract
from .groups import ALL, LIE, G, eye, skew, mat, options

INFO = dict(level="proof")
# the small-angle branches are series: allowed deviation from the exact map
# truncation error of the documented small-angle series (proved by Taylor models)
TOL = {torch.float64: 3e-7, torch.float32: 1e-4}


def V3(t, n):
    """SE3 left Jacobian from angle (B,) and unit axis (B,3), t > 0."""
    N = skew(n)
    a = (1 - t.cos()) / t
    b = 1 - t.sin() / t
    return eye(3, n) + a[:, None, None] * N + b[:, None, None] * (N @ N)


def V2(t):
    s, c = t.sin() / t, (1 - t.cos()) / t
    return mat([[s, -c], [c, s]])


HI = 2 * math.pi - 0.1
DT = ("float64", "float32")


@contract("C02", "exp/SO3", dtypes=DT, funcs=["SO3.exp_map"])
def exp_so3(k):
    w, n, t = k.aa_parts("w", zero=False)
    R = th.SO3.exp_map(w).tensor
    N = skew(n)
    e = eye(3, n)
    spec = e + t.sin()[:, None, None] * N + (1 - t.cos())[:, None, None] * (N @ N)
    k.eq("exp = matrix exponential (Rodrigues)", R, spec, tol=k.sel({torch.float64: 1.3e-8, torch.float32: 1.1e-7}))
    k.eq("exp is orthogonal", R.transpose(1, 2) @ R, e, ctol=3e-6 if k.dtype == torch.float32 else None)
    k.eq("alias", th.exp_map(th.SO3(dtype=k.dtype), w).tensor, R)
    k.same("class", type(th.SO3.exp_map(w)), th.SO3)


@contract("C02", "exp/SE3", dtypes=DT, funcs=["SE3.exp_map"])
def exp_se3(k):
    w, n, t = k.aa_parts("w", zero=False)
    v = k.real("v", 3, bound=3)
    T = th.SE3.exp_map(torch.cat([v, w], dim=1)).tensor
    N = skew(n)
    e = eye(3, n)
    spec = e + t.sin()[:, None, None] * N + (1 - t.cos())[:, None, None] * (N @ N)
    k.eq("rotation part", T[:, :, :3], spec, tol=k.sel({torch.float64: 1.3e-8, torch.float32: 1.1e-7}))
    k.eq("translation part = V(w) v", T[:, :, 3], (V3(t, n) @ v.unsqueeze(-1)).squeeze(-1), tol=k.sel({torch.float64: 7e-6, torch.float32: 3e-5}))
    k.same("class", type(th.SE3.exp_map(torch.cat([v, w], dim=1))), th.SE3)


@contract("C02", "exp/planar", dtypes=DT, funcs=["SO2.exp_map", "SE2.exp_map"])
def exp_planar(k):
    t = k.signed_angle("t", zero=False, hi=HI)
    v = k.real("v", 2, bound=3)
    k.eq("SO2", th.SO2.exp_map(t).tensor, torch.cat([t.cos(), t.sin()], dim=1))
    T = th.SE2.exp_map(torch.cat([v, t], dim=1)).tensor
    k.eq("SE2 rotation", T[:, 2:], torch.cat([t.cos(), t.sin()], dim=1))
    k.eq("SE2 translation = V(t) v", T[:, :2], (V2(t[:, 0]) @ v.unsqueeze(-1)).squeeze(-1), tol=k.sel({torch.float64: 1e-14, torch.float32: 3e-8}))


@contract("C02", "log/SO3", dtypes=DT, funcs=["SO3.log_map"])
def log_so3(k):
    R, n, t = k.rot_aa("R")
    w = th.SO3(tensor=R, disable_checks=True).log_map()
    k.eq("log = angle * axis", w, t * n, tol=k.sel({torch.float64: 1e-12, torch.float32: 1e-11}), ctol=2e-3 if k.dtype == torch.float32 else 1e-5)


@contract("C02", "log/SE3", dtypes=DT, funcs=["SE3.log_map"])
def log_se3(k):
    R, n, t = k.rot_aa("R")
    v = k.real("v", 3, bound=3)
    p = (V3(t[:, 0], n) @ v.unsqueeze(-1))
    T = torch.cat([R, p], dim=-1)
    w = th.SE3(tensor=T, disable_checks=True).log_map()
    k.eq("rotation part = angle * axis", w[:, 3:], t * n, tol=k.sel({torch.float64: 1e-12, torch.float32: 1e-11}), ctol=2e-3 if k.dtype == torch.float32 else 1e-5)
    k.eq("translation part = V^-1 p", w[:, :3], v, tol=k.sel({torch.float64: 5e-12, torch.float32: 1e-10}), ctol=6e-3 if k.dtype == torch.float32 else 1e-5)


@contract("C02", "log/half turn", dtypes=DT, funcs=["SO3.log_map", "SE3.log_map"])
def log_pi(k):
    """rotation by exactly pi about any axis."""
    n = k.vec_unit("n", 3)
    R = 2 * n.unsqueeze(2) * n.unsqueeze(1) - eye(3, n)
    w = th.SO3(tensor=R, disable_checks=True).log_map()
    k.eq("log log^T = pi^2 n n^T", w.unsqueeze(2) * w.unsqueeze(1), k.pi**2 * n.unsqueeze(2) * n.unsqueeze(1), ctol=2e-3 if k.dtype == torch.float32 else 1e-5)
    v = k.real("v", 3, bound=3)
    N = skew(n)
    V = eye(3, n) + (2 / k.pi) * N + N @ N
    p = V @ v.unsqueeze(-1)
    T = torch.cat([R, p], dim=-1)
    x = th.SE3(tensor=T, disable_checks=True).log_map()
    k.eq("SE3 rotation", x[:, 3:].unsqueeze(2) * x[:, 3:].unsqueeze(1), k.pi**2 * n.unsqueeze(2) * n.unsqueeze(1), ctol=2e-3 if k.dtype == torch.float32 else 1e-5)


@contract("C02", "log/faster maps", dtypes=DT, funcs=["SO3.log_map", "SE3.log_map (option _faster_log_maps)"])
def log_faster(k):
    with options(_faster_log_maps=True):
        log_so3(k)
        log_se3(k)
        log_pi(k)


@contract("C02", "exp/zero", dtypes=DT)
def exp_zero(k):
    """zero rotation angle: exp is the pure translation."""
    v3, v2 = k.real("v3", 3), k.real("v2", 2)
    z3 = torch.zeros_like(v3)
    k.eq("SO3 exp(0) = I", th.SO3.exp_map(z3).tensor, eye(3, v3))
    k.eq("SE3 exp(v, 0) = (I, v)", th.SE3.exp_map(torch.cat([v3, z3], dim=1)).tensor, torch.cat([eye(3, v3), v3.unsqueeze(-1)], dim=-1))
    k.eq("SO2 exp(0)", th.SO2.exp_map(z3[:, :1]).tensor, torch.cat([torch.ones_like(v3[:, :1]), z3[:, :1]], dim=1))
    k.eq("SE2 exp(v, 0)", th.SE2.exp_map(torch.cat([v2, z3[:, :1]], dim=1)).tensor, torch.cat([v2, torch.ones_like(v3[:, :1]), z3[:, :1]], dim=1))
    for cls, v in ((th.Point2, v2), (th.Point3, v3)):
        k.eq(f"{cls.__name__} exp(v) = v", cls.exp_map(v).tensor, v)
        k.eq(f"{cls.__name__} log(v) = v", cls(tensor=v).log_map(), v)
    one, zero = torch.ones_like(v3[:, :1]), z3[:, :1]
    k.eq("SO2 log(1)", th.SO2(tensor=torch.cat([one, zero], 1), disable_checks=True).log_map(), zero)
    k.eq("SE2 log(v, 1)", th.SE2(tensor=torch.cat([v2, one, zero], 1), disable_checks=True).log_map(), torch.cat([v2, zero], 1))


@contract("C02", "log/identity", dtypes=DT)
def log_id(k):
    p = k.real("p", 3)
    e = eye(3, p)
    k.eq("SO3 log(I) = 0", th.SO3(tensor=e.clone(), disable_checks=True).log_map(), torch.zeros_like(p))
    x = th.SE3(tensor=torch.cat([e, p.unsqueeze(-1)], -1), disable_checks=True).log_map()
    k.eq("SE3 log(I, p) = (p, 0)", x, torch.cat([p, torch.zeros_like(p)], dim=1))


@contract("C02", "log/planar", dtypes=DT, funcs=["SO2.log_map", "SE2.log_map"])
def log_planar(k):
    t = k.signed_angle("t", zero=False, hi=math.pi - 1e-3)
    cs = torch.cat([t.cos(), t.sin()], dim=1)
    k.eq("SO2 log", th.SO2(tensor=cs, disable_checks=True).log_map(), t)
    v = k.real("v", 2, bound=3)
    p = (V2(t[:, 0]) @ v.unsqueeze(-1)).squeeze(-1)
    w = th.SE2(tensor=torch.cat([p, cs], dim=1), disable_checks=True).log_map()
    k.eq("SE2 log rotation", w[:, 2:], t)
    k.eq("SE2 log translation = V^-1 p", w[:, :2], v, tol=k.sel({torch.float64: 1e-14, torch.float32: 2.5e-7}))


@contract("C02", "ties/half turn", mode="con", con=(1,))
def ties(k):
    """exact half turns about the axes where the largest diagonal entry ties."""
    for dt in (torch.float64, torch.float32):
        ax = torch.tensor([(a, b, c) for a in (-1, 0, 1) for b in (-1, 0, 1) for c in (-1, 0, 1) if (a, b, c) != (0, 0, 0)], dtype=dt)
        ax = ax / ax.norm(dim=1, keepdim=True)
        R = 2 * ax.unsqueeze(2) * ax.unsqueeze(1) - torch.eye(3, dtype=dt)
        w = th.SO3(tensor=R, disable_checks=True).log_map()
        k.eq(f"{dt}: log", w.unsqueeze(2) * w.unsqueeze(1), math.pi**2 * ax.unsqueeze(2) * ax.unsqueeze(1), ctol=5e-3)
        q = th.SO3.exp_map(w).tensor
        k.eq(f"{dt}: exp(log) = id", q, R, ctol=5e-3)
        p = torch.arange(26 * 3).view(26, 3).to(dt) / 10
        T = torch.cat([R, p.unsqueeze(-1)], -1)
        x = th.SE3(tensor=T, disable_checks=True)
        k.eq(f"{dt}: SE3 exp(log) = id", th.SE3.exp_map(x.log_map()).tensor, T, ctol=2e-2)
    for th0 in (math.pi, -math.pi):
        x = torch.tensor([[1.0, 2.0, -1.0, 0.0], [0.3, -0.2, -1.0, -0.0]], dtype=torch.float64)
        s = th.SE2(tensor=x)
        k.eq("SE2 half turn: exp(log) = id", th.SE2.exp_map(s.log_map()).tensor, x)
        k.true("SE2 half turn: finite", torch.isfinite(s.log_map()).all())


@contract("C02", "batch shapes", mode="con", con=(6,), dtypes=DT, funcs=["torchlie SO3/SE3 functions: any number of batch dimensions"])
def batch_shapes(k):
    """the functions of torchlie act on the last dimensions: whatever the dimensions of the
    batch (none, one, two), the results, Jacobians and gradients are those of the rows."""
    for name in ("SO3", "SE3"):
        g = G(name)
        F = getattr(torchlie.functional, name)
        w = g.tangent(k, "w" + name, math.pi - 0.05)
        z = torch.zeros_like(w)
        w = torch.where((torch.arange(k.B) == 1)[:, None], z, w)  # one at zero
        x, y, p = F.exp(w), g.elem(k, "Y" + name), k.real("p" + name, 3)
        half = torch.diag_embed(torch.tensor([[-1.0, 1, -1], [1, -1, -1]], dtype=k.dtype))
        x[2:4, :, :3] = half  # half turns
        A = k.real("A" + name, *x.shape[1:])
        q = k.quat("q" + name)
        smooth = torch.tensor([0, 1, 4, 5])
        ops = [("exp", F.exp, (w,)), ("log", F.log, (x,)), ("inv", F.inv, (x,)), ("adj", F.adj, (x,)), ("compose", F.compose, (x, y)), ("transform", F.transform, (x, p)), ("untransform", F.untransform, (x, p)),
               ("hat", F.hat, (w,)), ("vee", F.vee, (F.hat(w),)), ("lift", F.lift, (w,)), ("project", F.project, (A,)), ("left_act", F.left_act, (x, A)), ("left_project", F.left_project, (x, A)), ("normalize", F.normalize, (x,))]
        if name == "SO3":
            ops.append(("quaternion", F.quaternion_to_rotation, (q,)))
        for nm, f, a in ops:
            rows = [f(*(t[i:i + 1] for t in a)) for i in range(k.B)]
            want = torch.cat(rows)
            tol = k.sel({torch.float64: 1e-9, torch.float32: 1e-4})
            k.eq(f"{name} {nm}/one batch dimension", f(*a), want, ctol=tol)
            k.eq(f"{name} {nm}/two batch dimensions", f(*(t.reshape(2, 3, *t.shape[1:]) for t in a)).reshape(want.shape), want, ctol=tol)
            k.eq(f"{name} {nm}/no batch dimension", torch.stack([f(*(t[i] for t in a)) for i in range(k.B)]), want, ctol=tol)
            # gradients
            up = torch.cos(torch.arange(want.numel(), dtype=k.dtype)).reshape(want.shape)
            G1 = k.vjp(f, [t[smooth] for t in a], [up[smooth]])
            G2 = k.vjp(f, [t[smooth].reshape(2, 2, *t.shape[1:]) for t in a], [up[smooth].reshape(2, 2, *want.shape[1:])])
            G0 = [k.vjp(f, [t[i] for t in a], [up[i]]) for i in smooth]
            for j, t in enumerate(a):
                k.eq(f"{name} {nm}/gradient {j}, two batch dimensions", G2[j].reshape(G1[j].shape), G1[j], ctol=tol)
                k.eq(f"{name} {nm}/gradient {j}, no batch dimension", torch.stack([r[j] for r in G0]), G1[j], ctol=tol)
        for nm, f, a in [("jexp", F.jexp, (w,)), ("jlog", F.jlog, (x,)), ("jinv", F.jinv, (x,)), ("jcompose", F.jcompose, (x, y)), ("jtransform", F.jtransform, (x, p)), ("juntransform", F.juntransform, (x, p))]:
            Js, _ = f(*a)
            J2, _ = f(*(t.reshape(2, 3, *t.shape[1:]) for t in a))
            J0 = [f(*(t[i] for t in a))[0] for i in range(k.B)]
            for j, J in enumerate(Js):
                ok = torch.ones(k.B, dtype=torch.bool)
                if nm == "jlog":
                    ok[2:4] = False  # (unbounded at half turns)
                k.eq(f"{name} {nm}[{j}]/two batch dimensions", J2[j].reshape(J.shape)[ok], J[ok], ctol=tol)
                k.eq(f"{name} {nm}[{j}]/no batch dimension", torch.stack([r[j] for r in J0])[ok], J[ok], ctol=tol)
