"""C06: Euclidean gradients are projected to the tangent space correctly."""
import contextlib

import torch
import theseus as th
import torchlie
from torchlie import lie_tensor as LT
from theseus.geometry.utils import LieGroupTensor, enable_lie_tangent, no_lie_tangent, set_lie_tangent_enabled
from dv.run import contract
from . import lietensor
from .groups import ALL, LIE, G

INFO = dict(level="proof")


def proj(g, x, E):
    """spec: component j is the derivative of <E, x> when x moves along x exp(t e_j)."""
    out = []
    n = x.ndim - 1
    for j in range(g.dof):
        v = g.dtensor(x, g.basis(x, j))
        out.append((E * v).reshape(*E.shape[: E.ndim - n], -1).sum(dim=-1))
    return torch.stack(out, dim=-1)


def _mk(name):
    g = G(name)

    @contract("C06", f"project/{name}", funcs=[f"{name}._project_impl", "LieGroup._project_check"])
    def project(k):
        x = g.elem(k, "X")
        E = k.real("E", *x.shape[1:])
        v = g.wrap(x)
        k.eq("dense, one gradient per element", v.project(E), proj(g, x, E))
        k.eq("operand unchanged", v.tensor, x)
        # is_sparse: (batch, r, ...) gradients, r rows per element
        Es = k.real("Es", 3, *x.shape[1:])
        got = v.project(Es, is_sparse=True)
        for r in range(3):
            k.eq(f"sparse, row {r}", got[:, r], proj(g, x, Es[:, r]))
        k.raises("wrong dtype rejected", lambda: v.project(E.to(torch.float32 if k.dtype == torch.float64 else torch.float64)), ValueError)
        k.raises("wrong shape rejected", lambda: v.project(E[..., :1]), ValueError)

    @contract("C06", f"full gradient/{name}", mode="con", con=(4, 1), funcs=[f"{name}._project_impl"])
    def full(k):
        """gradients of every output row with respect to every batch element."""
        x = g.elem(k, "X")
        b = x.shape[0]
        E = torch.stack([torch.stack([k.real(f"E{i}{r}", *x.shape[1:]) for r in range(2)], dim=1) for i in range(3)], dim=0)  # 3,b,2,*
        E = E.transpose(1, 2)  # (3, 2, b, *)
        got = g.wrap(x).project(E)
        for i in range(3):
            for r in range(2):
                k.eq(f"[{i},{r}]", got[i, r], proj(g, x, E[i, r]))

    @contract("C06", f"jacobian/{name}", mode="con", con=(4, 1), funcs=[f"{name}._project_impl", "autograd"])
    def jac(k):
        """autograd Jacobians, projected, equal derivatives along retractions."""
        x = g.elem(k, "X")
        w = k.real("w", 2, *x.shape[1:])

        def f(t):
            s = (w * t.unsqueeze(1)).reshape(len(t), 2, -1).sum(dim=-1)
            return s.sin() + 0.3 * s * s

        with torch.enable_grad():
            J = torch.autograd.functional.jacobian(lambda t: f(t).sum(dim=0), x)  # (2, b, *)
        P = g.wrap(x).project(J.transpose(0, 1), is_sparse=True)
        for j in range(g.dof):
            k.eq(f"column {j}", P[:, :, j], k.D(lambda d: f(g.wrap(x).retract(d).tensor), torch.zeros(len(x), g.dof, dtype=k.dtype), g.basis(x, j)), ctol=1e-4)


for _n in ALL:
    _mk(_n)


@contract("C06", "optimizer steps", mode="con", con=(3, 1), funcs=["LieGroupTensor.add_/addcmul_/addcdiv_", "enable_lie_tangent"])
def steps(k):
    """inside the tangent context an in-place update retracts along the projected
    gradient; outside it is the plain tensor update."""
    for name in LIE:
        g = G(name)
        x = g.elem(k, "X" + name)
        u = k.real("U" + name, *x.shape[1:], scale=0.3)
        a = k.real("A" + name, *x.shape[1:], scale=0.3)
        b = k.pos("B" + name, *x.shape[1:])

        def fresh():
            return LieGroupTensor(g.wrap(x.clone()))

        def ret(e):
            return g.wrap(x).retract(proj(g, x, e)).tensor

        for cm in (enable_lie_tangent, lambda: set_lie_tangent_enabled(True)):
            with torch.no_grad(), cm():
                t = fresh()
                r = t.add_(u, alpha=-0.5)
                k.eq(f"{name} add_", torch.Tensor.detach(t).as_subclass(torch.Tensor), ret(-0.5 * u))
                k.same(f"{name} add_ returns itself", r is t, True)
                t = fresh()
                t.addcdiv_(a, b, value=-0.3)
                k.eq(f"{name} addcdiv_", t.detach().as_subclass(torch.Tensor), ret(-0.3 * a / b))
                t = fresh()
                t.addcmul_(a, b, value=0.2)
                k.eq(f"{name} addcmul_", t.detach().as_subclass(torch.Tensor), ret(0.2 * a * b))
        for cm in (no_lie_tangent, lambda: set_lie_tangent_enabled(False)):
            with torch.no_grad(), cm():
                t = fresh()
                t.add_(u, alpha=-0.5)
                k.eq(f"{name} plain add_", t.detach().as_subclass(torch.Tensor), x - 0.5 * u)
                t = fresh()
                t.addcdiv_(a, b, value=-0.3)
                k.eq(f"{name} plain addcdiv_", t.detach().as_subclass(torch.Tensor), x - 0.3 * a / b)
                t = fresh()
                t.addcmul_(a, b, value=0.2)
                k.eq(f"{name} plain addcmul_", t.detach().as_subclass(torch.Tensor), x + 0.2 * a * b)


@contract("C06", "sgd", mode="con", con=(2,), funcs=["LieGroupTensor under torch.optim"])
def sgd(k):
    for name in LIE:
        g = G(name)
        x = g.elem(k, "X" + name)
        w = k.real("w" + name, *x.shape[1:])
        t = LieGroupTensor(g.wrap(x.clone()))
        t.requires_grad_(True)
        opt = torch.optim.SGD([t], lr=0.1)
        with torch.enable_grad():
            loss = (t * w).sum()
        loss.backward()
        with enable_lie_tangent():
            opt.step()
        k.eq(f"{name}", t.detach().as_subclass(torch.Tensor), g.wrap(x).retract(-0.1 * proj(g, x, w)).tensor)


@contract("C06", "torchlie tensors", con=(4, 1), budget=60, funcs=["LieTensor.add_", "LieTensor.addcdiv_", "LieTensor.addcmul_", "_EuclideanGrad", "LieTensor.left_project"])
def lie_tensors(k):
    """in-place steps of torch's optimisers: x <- x exp(alpha * projected gradient)."""
    for name in lietensor.NAMES:
        g = G(name)
        F = getattr(torchlie, name)._fn_lib
        x = g.elem(k, "X" + name)
        u, a = k.real("U" + name, *x.shape[1:], scale=0.3), k.real("A" + name, *x.shape[1:], scale=0.3)
        b = k.pos("B" + name, *x.shape[1:])
        mark = lambda t: LT._EuclideanGrad(t) if not k.symbolic else marked(t)  # noqa: E731
        with lietensor.rig(k) as make, torch.no_grad():
            k.eq(f"{name} left_project", make(name, x).left_project(u), proj(g, x, u))
            k.eq(f"{name} function left_project", LT.left_project(make(name, x), u), proj(g, x, u))
            for nm, step, e in (("add_", lambda t: t.add_(mark(u), alpha=-0.5), (-0.5, u)), ("add_ without a factor", lambda t: t.add_(mark(u)), (1.0, u)),
                                ("addcdiv_", lambda t: t.addcdiv_(mark(a), b, value=-0.3), (1.0, -0.3 * a / b)), ("addcmul_", lambda t: t.addcmul_(mark(a), b, value=0.25), (1.0, 0.25 * a * b))):
                with replaced_exp(k, F, name):
                    t = make(name, x.clone())
                    step(t)
                    k.eq(f"{name} {nm}", g.M(t._t), g.M(x) @ g.M(F.exp(e[0] * proj(g, x, e[1]))))
            t = make(name, x.clone())
            # (whatever took part in an operation with a gradient counts as one)
            u, a, b = u.clone(), a.clone(), b.clone()
            for nm, step in (("add_", lambda: t.add_(u)), ("addcdiv_", lambda: t.addcdiv_(a, b)), ("addcmul_", lambda: t.addcmul_(a, b))):
                k.raises(f"{name} {nm} of a tensor that is no gradient", step, RuntimeError)
                k.eq(f"{name} {nm} of a tensor that is no gradient: unchanged", t._t, x)


def marked(t):
    t = t.clone()
    setattr(t, LT._EUCLID_GRAD_MARKER, True)
    return t


@contextlib.contextmanager
def replaced_exp(k, F, name):
    """the exponential by contract: some function of the step with values in the group."""
    if not k.symbolic:
        yield
        return
    orig, mark = F.exp, LT._EuclideanGrad
    F.exp = lambda v, jacobians=None: k.opaque(name + ".exp", lambda t: [orig(t)], [v])[0]
    LT._EuclideanGrad = marked
    try:
        yield
    finally:
        F.exp, LT._EuclideanGrad = orig, mark


@contract("C06", "torchlie tensors under torch.optim", mode="con", con=(2,), dtypes=("float64", "float32"), funcs=["LieTensor.add_", "LieTensor.addcdiv_", "LieTensor.grad"])
def optim(k):
    for name in lietensor.NAMES:
        g = G(name)
        L = getattr(torchlie, name)
        x, w = g.elem(k, "X" + name), k.real("w" + name, *g.elem(k, "X" + name).shape[1:])
        p = k.real("p" + name, 3)

        def loss(t):
            return (w * t).sum() + (L._fn_lib.transform(t, p) ** 2).sum()

        for nm, opt, direction in (
            ("sgd", lambda t: torch.optim.SGD([t], lr=0.1), lambda s, e: -0.1 * e),
            ("momentum", lambda t: torch.optim.SGD([t], lr=0.1, momentum=0.9), momentum),
            ("adam", lambda t: torch.optim.Adam([t], lr=0.1), adam),
        ):
            t = torchlie.LieTensor(x.clone(), L, requires_grad=True)
            o, state, ref = opt(t), {}, x.clone()
            for it in range(3):
                o.zero_grad()
                with torch.enable_grad():
                    loss(t._t).backward()
                    r = ref.clone().requires_grad_(True)
                    (e,) = torch.autograd.grad(loss(r), r)
                o.step()
                ref = L._fn_lib.compose(ref, L._fn_lib.exp(proj(g, ref, direction(state, e))))
                k.eq(f"{name} {nm} step {it}", t._t.detach(), ref, ctol=k.sel({torch.float64: 1e-8, torch.float32: 2e-3}))
                k.same(f"{name} {nm} step {it}: still a leaf of its type", t.is_leaf and t.requires_grad and t.ltype is L, True)


def momentum(s, e):
    s["m"] = e if "m" not in s else 0.9 * s["m"] + e
    return -0.1 * s["m"]


def adam(s, e):
    n = s["n"] = s.get("n", 0) + 1
    s["m"] = 0.9 * s.get("m", 0) + 0.1 * e
    s["v"] = 0.999 * s.get("v", 0) + 0.001 * e * e
    return -0.1 * (s["m"] / (1 - 0.9**n)) / ((s["v"] / (1 - 0.999**n)).sqrt() + 1e-8)
