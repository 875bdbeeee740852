"""C23: automatic-differentiation costs agree with the user function in every mode.

The code under contract only routes rows of tensors to the user function and rows
of its derivative back; torch's differentiation transforms (torch.func.vmap,
torch.func.jacrev, torch.autograd.functional.jacobian) are dependencies and are
replaced, in the symbolic runs, by their defining contracts below."""
import itertools

import torch
import theseus as th
import theseus.core.cost_function as cfm
from dv import symt
from dv.run import contract
from .groups import skew

INFO = dict(
    level="proof",
    trusted=[
        "torch.func.vmap(torch.func.jacrev(f)) is the row-by-row Jacobian of f; torch.autograd.functional.jacobian(f, xs) is d f / d xs (both replaced by that contract in the symbolic runs, the real ones run in the concrete runs)",
        "the user function: generic polynomial and Lie-group functions with unconstrained coefficient variables stand for every user function (the code only calls it)",
    ],
    assumptions=[
        "dense and loop_batch modes: batch sizes 1 to 3 (every mix), values unconstrained; vmap mode: any batch size",
        "retraction derivative of a group element is the derivative along left-invariant fields at it (the contract of retract, C01 to C03)",
    ],
)


# -- contracts of the differentiation transforms --------------------------------
def _jac(k, f, xs, i):
    """(out shape..., x_i shape...) derivative of f(*xs) by x_i."""
    x = xs[i]
    cols = []
    for ix in itertools.product(*[range(n) for n in x.shape]):
        e = torch.zeros(tuple(x.shape), dtype=x.dtype)
        e[ix] = 1
        cols.append(k.D(lambda t: f(*xs[:i], t, *xs[i + 1:]), x, e))
    d = torch.stack(cols, dim=-1)
    return d.reshape(tuple(d.shape[:-1]) + tuple(x.shape))


class Transforms:
    """with Transforms(k): the library's differentiation calls are replaced by
    their contracts (symbolic runs only)."""

    def __init__(self, k):
        self.k = k

    def __enter__(self):
        self.old = (cfm.vmap, cfm.jacrev, cfm.autogradF)
        k = self.k
        if not k.symbolic:
            return

        def row(t, n):
            if t.shape[0] == symt.BATCH:
                d = symt.data(t)
                return symt.SymTensor(d[0], tuple(t.shape[1:]), t.dtype)
            return t[n]

        def vmap(g):
            def run(*args):
                B = {t.shape[0] for a in args for t in a}
                assert len(B) == 1, "vmap over different sizes"
                B = B.pop()
                outs = [g(*[tuple(row(t, n) for t in a) for a in args]) for n in range(1 if B == symt.BATCH else B)]
                res = []
                for i in range(len(outs[0])):
                    if B == symt.BATCH:
                        t = outs[0][i]
                        res.append(symt.SymTensor(symt.data(t)[None], (B,) + tuple(t.shape), t.dtype))
                    else:
                        res.append(torch.stack([o[i] for o in outs]))
                return tuple(res)

            return run

        def jacrev(f, argnums=0):
            assert argnums == 0

            def run(xs, aux):
                return tuple(_jac(k, lambda *a: f(a, aux), tuple(xs), i) for i in range(len(xs)))

            return run

        class autogradF:
            @staticmethod
            def jacobian(f, xs, create_graph=False, strict=False, vectorize=False, strategy="reverse-mode"):
                return tuple(_jac(k, f, tuple(xs), i) for i in range(len(xs)))

        cfm.vmap, cfm.jacrev, cfm.autogradF = vmap, jacrev, autogradF

    def __exit__(self, *a):
        cfm.vmap, cfm.jacrev, cfm.autogradF = self.old


# -- variables ---------------------------------------------------------------------
def emit(k, make, name, b):
    """b rows (b == 0: any batch size)."""
    if b == 0:
        return make(k, name, True)
    return torch.stack([make(k, f"{name}r{i}", False) for i in range(b)])


MAKE = {
    "V1": lambda k, n, B: k.real(n, 1, batched=B),
    "V2": lambda k, n, B: k.real(n, 2, batched=B),
    "V3": lambda k, n, B: k.real(n, 3, batched=B),
    "SO2": lambda k, n, B: k.so2(n, batched=B),
    "SE2": lambda k, n, B: k.pose2(n, batched=B),
    "SO3": lambda k, n, B: k.rot(n, batched=B),
    "SE3": lambda k, n, B: k.pose3(n, batched=B),
}


def var(kind, t, name):
    if kind[0] == "V":
        return th.Vector(tensor=t, name=name)
    return getattr(th, kind)(tensor=t, name=name, disable_checks=True)


def fields(k, kind, t):
    """derivatives of the tensor along each tangent direction of its retraction."""
    if kind[0] == "V":
        return [torch.eye(t.shape[1], dtype=t.dtype)[i].expand(t.shape) for i in range(t.shape[1])]
    if kind == "SO2":
        return [torch.stack([-t[:, 1], t[:, 0]], dim=1)]
    if kind == "SE2":
        z = torch.zeros_like(t[:, 0])
        c, s = t[:, 2], t[:, 3]
        return [torch.stack(r, dim=1) for r in ([c, s, z, z], [-s, c, z, z], [z, z, -s, c])]
    R = t[:, :, :3]
    E = torch.eye(3, dtype=t.dtype)
    rot = [R @ skew(E[i].unsqueeze(0)) for i in range(3)]
    if kind == "SO3":
        return rot
    z1, z3 = torch.zeros_like(t[:, :, :1]), torch.zeros_like(R)
    return [torch.cat([z3, R[:, :, i:i + 1]], dim=2) for i in range(3)] + [torch.cat([r, z1], dim=2) for r in rot]


def check(k, nm, kinds, akinds, f, dim, sizes, mode, coef=True):
    n = len(kinds)
    ts = [emit(k, MAKE[kd], f"{nm}x{i}", b) for i, (kd, b) in enumerate(zip(kinds, sizes))]
    aux = [emit(k, MAKE[kd], f"{nm}a{i}", b) for i, (kd, b) in enumerate(zip(akinds, sizes[n:]))]
    xs = [var(kd, t, f"x{i}") for i, (kd, t) in enumerate(zip(kinds, ts))]
    as_ = [var(kd, t, f"a{i}") for i, (kd, t) in enumerate(zip(akinds, aux))]
    called = []

    def err(optim_vars, aux_vars):
        k_ = (len(optim_vars), len(aux_vars))
        called.append(k_)
        return f([v.tensor for v in optim_vars], [v.tensor for v in aux_vars])

    B = symt.BATCH if (k.symbolic and 0 in sizes) else max(t.shape[0] for t in ts + aux)
    with Transforms(k):
        cf = th.AutoDiffCostFunction(xs, err, dim, aux_vars=as_, cost_weight=th.ScaleCostWeight(torch.ones(1, 1, dtype=k.dtype)), autograd_mode=mode)
        cp = cf.copy()
        for who, c in (("", cf), ("copy/", cp)):
            p = f"{nm}/{mode}/{who}"
            vs = list(c.optim_vars)
            before = [v.tensor for v in vs] + [v.tensor for v in c.aux_vars]
            e = c.error()
            k.eq(p + "error", e, f(ts, aux))
            J, e2 = c.jacobians()
            k.eq(p + "error of jacobians()", e2, f(ts, aux))
            k.same(p + "blocks", len(J), n)
            k.same(p + "arguments of the user function", set(called), {(n, len(as_))})
            for i, (kd, t) in enumerate(zip(kinds, ts)):
                tb = t if t.shape[0] == B else t.expand((B,) + tuple(t.shape[1:]))
                cols = [k.D(lambda y: f(ts[:i] + [y] + ts[i + 1:], aux), tb, V) for V in fields(k, kd, tb)]
                k.same(p + f"J[{i}] shape", tuple(J[i].shape), (B, dim, vs[i].dof()))
                for j, col in enumerate(cols):
                    k.eq(p + f"J[{i}][:, :, {j}]", J[i][:, :, j], col, ctol=1e-8)
            after = [v.tensor for v in vs] + [v.tensor for v in c.aux_vars]
            k.same(p + "variables keep their tensors", [a is b for a, b in zip(before, after)], [True] * len(before))
            for a, b in zip(after, ts + aux):
                k.eq(p + "variables keep their values", a, b, ctol=0)
        k.same(f"{nm}/{mode}/copy: mode", cp._autograd_mode, cf._autograd_mode)
        k.same(f"{nm}/{mode}/copy: own variables", {id(v) for v in list(cp.optim_vars) + list(cp.aux_vars)} & {id(v) for v in xs + as_}, set())
        # the second evaluation, at other values and sizes, is not stale
        new = [emit(k, MAKE[kd], f"{nm}n{i}", b) for i, (kd, b) in enumerate(zip(kinds, [B if 0 not in sizes else 0] * n))]
        newa = [emit(k, MAKE[kd], f"{nm}m{i}", 1) for i, kd in enumerate(akinds)]
        for v, t in zip(xs + as_, new + newa):
            v.update(t)
        J, e2 = cf.jacobians()
        p = f"{nm}/{mode}/after update/"
        k.eq(p + "error", e2, f(new, newa))
        for i, (kd, t) in enumerate(zip(kinds, new)):
            for j, V in enumerate(fields(k, kd, t)):
                k.eq(p + f"J[{i}][:, :, {j}]", J[i][:, :, j], k.D(lambda y: f(new[:i] + [y] + new[i + 1:], newa), t, V), ctol=1e-8)


# -- user functions (they broadcast over the batch, as user functions must) -----------
def cols(*cs):
    n = max(c.shape[0] for c in cs)
    return torch.cat([c if c.shape[0] == n else c.expand((n,) + tuple(c.shape[1:])) for c in cs], dim=1)


def f_poly(x, a):
    u, v = x
    w, s = a
    e0 = u[:, :1] * v[:, 1:2] * w[:, :1] + u[:, 1:2] * u[:, 1:2]
    e1 = w[:, 1:2] * v[:, 2:3] * v[:, :1] + s[:, :1] * u[:, :1]
    e2 = torch.sin(u[:, 1:2]) * s[:, :1] + v[:, 1:2]
    return cols(e0, e1, e2)


def f_single(x, a):
    return cols(x[0][:, :1] * x[0][:, 1:2], torch.cos(x[0][:, 1:2]))


def f_so2(x, a):
    g, v = x
    (s,) = a
    return cols(g[:, :1] * v[:, :1] - g[:, 1:2] * s[:, :1], g[:, :1] * s[:, :1] + g[:, 1:2] * v[:, 1:2])


def f_se2(x, a):
    g, h = x
    (s,) = a
    return cols(g[:, :1] * h[:, 2:3] + s[:, :1], g[:, 1:2] * g[:, 2:3] - h[:, :1], g[:, 3:4] * h[:, 3:4] * s[:, :1])


def f_so3(x, a):
    g, v = x
    (s,) = a
    p = (g @ v.unsqueeze(2)).squeeze(2)
    return cols(p, p[:, :1] * s[:, :1])


def f_se3(x, a):
    g, v = x
    (s,) = a
    p = (g[:, :, :3] @ v.unsqueeze(2)).squeeze(2) + g[:, :, 3]
    return cols(p, g[:, 0, 3:4] * s[:, :1])


FUNCS = ["AutoDiffCostFunction.error", "AutoDiffCostFunction.jacobians", "AutoDiffCostFunction._compute_error", "AutoDiffCostFunction._copy_impl"]
CASES = {
    "two vectors": (["V2", "V3"], ["V2", "V1"], f_poly, 3),
    "one vector": (["V2"], [], f_single, 2),
    "SO2": (["SO2", "V2"], ["V1"], f_so2, 2),
    "SE2": (["SE2", "SE2"], ["V1"], f_se2, 3),
    "SO3": (["SO3", "V3"], ["V1"], f_so3, 4),
    "SE3": (["SE3", "V3"], ["V1"], f_se3, 4),
}


@contract("C23", "vmap mode, any batch size", budget=40, con=(1, 3), funcs=FUNCS + ["AutoDiffCostFunction._make_jac_fn_vmap", "AutoDiffCostFunction._compute_autograd_jacobian_vmap"])
def vmap_mode(k):
    for nm, (kd, ad, f, dim) in CASES.items():
        n = len(kd) + len(ad)
        for sizes in ([0] * n, *([0 if i == j else 1 for j in range(n)] for i in range(n))) if nm == "two vectors" else ([0] * n, [0] + [1] * (n - 1)):
            check(k, f"{nm} {sizes}", kd, ad, f, dim, list(sizes), "vmap")


def _mixes(n):
    yield [1] * n
    yield [2] * n
    for i in range(n):
        yield [2 if i == j else 1 for j in range(n)]
    yield [1 if j == 0 else 3 for j in range(n)]


def _mode(mode):
    @contract("C23", f"{mode} mode", budget=60, con=(1,), funcs=FUNCS + ["AutoDiffCostFunction._make_jac_fn", "AutoDiffCostFunction._compute_autograd_jacobian"])
    def run(k):
        for nm, (kd, ad, f, dim) in CASES.items():
            n = len(kd) + len(ad)
            for sizes in _mixes(n) if nm in ("two vectors", "one vector") else ([2] * n, [2] + [1] * (n - 1), [1] + [2] * (n - 1)):
                check(k, f"{nm} {sizes}", kd, ad, f, dim, list(sizes), mode)

    return run


_mode("dense")
_mode("loop_batch")
