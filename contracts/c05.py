"""C05: reverse-mode gradients of group operations agree with their derivatives."""
import math

import torch
import theseus as th
import torchlie
import torchlie.functional as tlf
from dv.run import contract
from .groups import ALL, LIE, G, eye, skew, mat, options
from .c03 import exact_exp

INFO = dict(level="proof")
DT = ("float64", "float32")
# truncation error of the documented small-angle series (proved by Taylor models)
ETOL = {"SO3": {torch.float64: 1.6e-4, torch.float32: 6.5e-4}, "SE3": {torch.float64: 2e-4, torch.float32: 8e-4}}
LTOL = {"SO3": {torch.float64: 4e-9, torch.float32: 8e-6}, "SE3": {torch.float64: 3e-7, torch.float32: 2e-5}}
CT = {torch.float64: None, torch.float32: 5e-2}


def dot(a, b):
    return (a * b).reshape(a.shape[0], -1).sum(dim=1)


def check(k, nm, f, xs, dirs, out_shape, tol=0.0, fwd=None, ctol=None):
    """<vjp(g), v> = <g, D f(v)> for every input and every admissible direction."""
    y = f(*xs)
    g = k.real("g_" + nm.replace(" ", "_").replace("/", "_").replace(".", "_"), *y.shape[1:], bound=3)
    grads = k.vjp(f, xs, [g])
    for i, x in enumerate(xs):
        k.same(f"{nm}/grad{i} shape", tuple(grads[i].shape), tuple(x.shape))
        for j, v in enumerate(dirs[i](x)):
            def h(z, i=i):
                a = list(xs)
                a[i] = z
                return (fwd or f)(*a)
            d = k.D(h, x, v)
            ud = getattr(d, "_unreliable", None)
            rhs = dot(g, d)
            if ud is not None:
                rhs._unreliable = ud.reshape(len(ud), -1).any(dim=1)
            k.eq(f"{nm}/grad{i} dir{j}", rhs, dot(grads[i], v), tol=tol, ctol=ctol if ctol is not None else k.sel(CT))


def group_dirs(g):
    return lambda x: [g.dtensor(x, g.basis(x, j)) for j in range(g.dof)]


def vec_dirs(x):
    n = 1
    for s in x.shape[1:]:
        n *= s
    z = torch.zeros_like(x).reshape(x.shape[0], n)[:, 0]
    o = torch.ones_like(z)
    return [torch.stack([o if i == j else z for i in range(n)], dim=-1).reshape(x.shape) for j in range(n)]


def _mk(name):
    g = G(name)
    M = getattr(tlf, name)
    d = 3

    @contract("C05", f"{name}/algebra", funcs=[f"torchlie {name} compose/inverse/adjoint/transform/untransform/hat/vee/lift/project"], budget=90)
    def algebra(k):
        x, y = g.elem(k, "X"), g.elem(k, "Y")
        p = k.real("p", d)
        gd = group_dirs(g)
        check(k, "compose", lambda a, b: M.compose(a, b), [x, y], [gd, gd], None)
        check(k, "inverse", lambda a: M.inv(a), [x], [gd], None)
        check(k, "adjoint", lambda a: M.adj(a), [x], [gd], None)
        check(k, "transform", lambda a, b: M.transform(a, b), [x, p], [gd, vec_dirs], None)
        check(k, "untransform", lambda a, b: M.untransform(a, b), [x, p], [gd, vec_dirs], None)
        v = k.real("v", g.dof)
        check(k, "hat", lambda a: M.hat(a), [v], [vec_dirs], None)
        check(k, "vee", lambda a: M.vee(M.hat(a)), [v], [vec_dirs], None)
        check(k, "lift", lambda a: M.lift(a), [k.real("l", 4, g.dof)], [vec_dirs], None)
        check(k, "project", lambda a: M.project(a), [k.real("pr", *g.M(x)[:, :3, :].shape[1:] if name == "SO3" else (3, 4))], [vec_dirs], None)

    @contract("C05", f"{name}/exp", dtypes=DT, funcs=[f"torchlie {name} exp"], budget=90)
    def exp(k):
        w = k.aa("w", zero=False) if name == "SO3" else k.se3_tangent("w", zero=False)
        gg = g
        y = M.exp(w)
        gr = k.real("g", *y.shape[1:], bound=3)
        grads = k.vjp(lambda a: M.exp(a), [w], [gr])
        w2 = w.double()
        for j in range(g.dof):
            dd = k.D(lambda t: exact_exp(name, t), w2, g.basis(w2, j))
            rhs = dot(gr.double(), dd)
            if getattr(dd, "_unreliable", None) is not None:
                rhs._unreliable = dd._unreliable.reshape(len(w2), -1).any(dim=1)
            k.eq(f"exp grad[{j}]", rhs, grads[0][:, j].double(), tol=k.sel(ETOL[name]), ctol=k.sel(CT))

    @contract("C05", f"{name}/log", dtypes=DT, funcs=[f"torchlie {name} log"], budget=120)
    def log(k):
        R, _, t = k.rot_aa("R")
        x = R if name == "SO3" else torch.cat([R, k.real("p", 3, bound=3).unsqueeze(-1)], dim=-1)
        if name == "SO3" or not k.symbolic:
            check(k, "log", lambda a: M.log(a), [x], [group_dirs(g)], None, tol=k.sel(LTOL[name]))
        # against the Jacobian reported for log (whose own contract is C03)
        Js, l = M.jlog(x)
        gl = k.real("gl", g.dof, bound=3)
        gr = k.vjp(lambda a: M.log(a), [x], [gl])[0]
        for j, v in enumerate(group_dirs(g)(x)):
            k.eq(f"log grad = J^T g [{j}]", dot(gr, v), dot(gl, Js[0][:, :, j]), ctol=k.sel(CT))


    @contract("C05", f"{name}/log options", dtypes=DT, funcs=[f"torchlie {name} log (options _faster_log_maps, _allow_passthrough_ops)"], budget=120)
    def log_options(k):
        """the options that make log cheaper change neither values nor gradients."""
        R, _, t = k.rot_aa("R")
        x = R if name == "SO3" else torch.cat([R, k.real("p", 3, bound=3).unsqueeze(-1)], dim=-1)
        gl = k.real("gl", g.dof, bound=3)
        Js, l = M.jlog(x)
        (want,) = k.vjp(lambda a: M.log(a), [x], [gl])
        for kw in (dict(_faster_log_maps=True), dict(_allow_passthrough_ops=True), dict(_faster_log_maps=True, _allow_passthrough_ops=True)):
            tag = "+".join(kw)

            def with_jacobians(a):
                J = []
                y = M.log(a, jacobians=J)
                with_jacobians.J = J
                return y

            with options(**kw):
                k.eq(f"{tag}/log", M.log(x), l)
                k.eq(f"{tag}/jlog", M.jlog(x)[0][0], Js[0])
                k.eq(f"{tag}/gradient", k.vjp(lambda a: M.log(a), [x], [gl])[0], want)
                k.eq(f"{tag}/gradient, Jacobians reported", k.vjp(with_jacobians, [x], [gl])[0], want)
                k.eq(f"{tag}/log, Jacobians reported", with_jacobians(x), l)
                k.eq(f"{tag}/Jacobians reported", with_jacobians.J[0], Js[0])


for _n in ("SO3", "SE3"):
    _mk(_n)


@contract("C05", "quaternion", funcs=["torchlie SO3/SE3 quaternion constructors"], budget=60)
def quaternion(k):
    q = k.quat("q")
    # any direction: the constructor normalises its argument
    check(k, "quat", lambda a: tlf.SO3.quaternion_to_rotation(a), [q], [vec_dirs], None)


@contract("C05", "left_act", funcs=["torchlie SO3/SE3 left_act/left_project"], budget=90)
def left_act(k):
    """R a, and the coefficients of R^T b on the basis of the tangent space, with and
    without further dimensions between those of the batch and of the matrix."""
    for name in ("SO3", "SE3"):
        g = G(name)
        M = getattr(tlf, name)
        x = g.elem(k, "X" + name)
        R = x[:, :, :3]
        a = k.real("a" + name, 3, 2)
        check(k, f"{name} left_act", lambda r, t: M.left_act(r, t), [x, a], [group_dirs(g), vec_dirs], None)
        k.eq(f"{name} left_act value", M.left_act(x, a), R @ a)
        b = k.real("b" + name, *x.shape[1:])
        check(k, f"{name} left_project", lambda r, t: M.left_project(r, t), [x, b], [group_dirs(g), vec_dirs], None)
        k.eq(f"{name} left_project value", M.left_project(x, b), coefficients(R, b))
        # several matrices for each element of the group
        a2 = k.real("a2" + name, 2, 3, 2)
        b2 = k.real("b2" + name, 2, *x.shape[1:])
        for i in range(2):
            k.eq(f"{name} left_act value of matrix {i}", M.left_act(x, a2, dim_out=1)[:, i], R @ a2[:, i])
            k.eq(f"{name} left_act value of matrix {i} by default", M.left_act(x, a2)[:, i], R @ a2[:, i])
            k.eq(f"{name} left_project value of matrix {i}", M.left_project(x, b2, dim_out=1)[:, i], coefficients(R, b2[:, i]))
        check(k, f"{name} left_act of many", lambda r, t: M.left_act(r, t, dim_out=1), [x, a2], [group_dirs(g), vec_dirs], None)
        check(k, f"{name} left_project of many", lambda r, t: M.left_project(r, t, dim_out=1), [x, b2], [group_dirs(g), vec_dirs], None)


def coefficients(R, b):
    z = R.transpose(1, 2) @ b[..., :3]
    w = torch.stack([z[:, 2, 1] - z[:, 1, 2], z[:, 0, 2] - z[:, 2, 0], z[:, 1, 0] - z[:, 0, 1]], dim=1)
    return w if b.shape[-1] == 3 else torch.cat([(R.transpose(1, 2) @ b[..., 3:]).squeeze(-1), w], dim=1)


class decomposed:
    """torch.svd (trusted) at matrices given by their decomposition U diag(s) V^T."""

    def __init__(self, k, u, s, v, det, what):
        self.k, self.svd, self.det, self.what = k, (u, s, v), det, what

    def __enter__(self):
        self.saved = torch.svd, torch.linalg.svd, torch.det, torch.linalg.det
        if self.k.symbolic:
            def det(m):  # (lemma: the determinant of what is asked is that of the signs)
                self.k.eq(f"{self.what}/determinant of the factors", self.saved[2](m), self.det)
                return self.det

            torch.det = torch.linalg.det = det
            u, s, v = self.svd
            torch.svd = lambda *a, **kw: (u, s, v)
            torch.linalg.svd = lambda *a, **kw: (u, s, v.transpose(-1, -2))

    def __exit__(self, *a):
        torch.svd, torch.linalg.svd, torch.det, torch.linalg.det = self.saved


def _mk_normalize(case):
    @contract("C05", f"normalize/{case}", con=(1, 8), budget=60, funcs=["torchlie SO3/SE3 normalize", "SO3/SE3.normalize"])
    def normalize(k):
        """normalize replaces A = R P (R a rotation, P symmetric) by R: the upstream gradient
        G is pulled back to the gradient with <grad, d(R P)> = <G, dR> for all dR = R X,
        X skew, and dP symmetric; also at repeated singular values (as at rotations)."""
        u, w = k.rot("U"), k.rot("W")
        one = torch.ones_like(u[:, 0, 0])
        sigma = [one, one, one] if case == "rotation" else k.pos("s" + case, 3).flip(1).cumsum(dim=1).flip(1).unbind(dim=1)
        last = -one if case == "reflected" else one  # det V
        V = w * torch.stack([one, one, last], dim=1).unsqueeze(1)
        D = torch.stack([sigma[0], sigma[1], sigma[2] * last], dim=1)
        R = u @ w.transpose(1, 2)
        P = (w * D.unsqueeze(1)) @ w.transpose(1, 2)
        A = R @ P
        g = k.real("g" + case, 3, 3)
        with decomposed(k, u, torch.stack(sigma, dim=1), V, last, case):
            y = tlf.SO3.normalize(A)
            k.eq(f"{case}/value", y, R)
            (grad,) = k.vjp(lambda a: tlf.SO3.normalize(a), [A], [g])
            p = k.real("p" + case, 3, 1)
            (gT,) = k.vjp(lambda a: tlf.SE3.normalize(a), [torch.cat([A, p], dim=2)], [torch.cat([g, p], dim=2)])
            k.eq(f"{case}/SE3 gradient", gT, torch.cat([grad, p], dim=2))
            k.eq(f"{case}/SE3 value", tlf.SE3.normalize(torch.cat([A, p], dim=2)), torch.cat([R, p], dim=2))
            k.eq(f"{case}/theseus SO3", th.SO3.normalize(A), R)
            k.eq(f"{case}/theseus SE3", th.SE3.normalize(torch.cat([A, p], dim=2)), torch.cat([R, p], dim=2))
        z = torch.zeros_like(R)
        for j in range(3):
            X = skew(torch.stack([one if i == j else 0 * one for i in range(3)], dim=1))
            # (in the basis of W, which changes neither skewness nor symmetry)
            X = w @ X @ w.transpose(1, 2)
            k.eq(f"{case}/<grad, R X P> = <G, R X>, direction {j}", dot(grad, R @ X @ P), dot(g, R @ X))
        for i in range(3):
            for j in range(i, 3):
                S = z.clone()
                S[:, i, j] = 1
                S[:, j, i] = 1
                S = w @ S @ w.transpose(1, 2)
                k.eq(f"{case}/<grad, R S> = 0, direction {i}{j}", dot(grad, R @ S), 0 * one)


for _c in ("distinct", "rotation", "reflected"):
    _mk_normalize(_c)


@contract("C05", "zero", mode="con", con=(3,), dtypes=DT, funcs=["exp_map at 0", "log_map at I"])
def zero(k):
    """gradients exist and are right at zero tangent / identity."""
    for name in LIE:
        g = G(name)
        w = torch.zeros(k.B, g.dof, dtype=k.dtype)
        y = g.cls.exp_map(w).tensor
        gr = k.real("g" + name, *y.shape[1:])
        gw = k.vjp(lambda a: g.cls.exp_map(a).tensor, [w], [gr])[0]
        for j in range(g.dof):
            k.eq(f"{name} exp grad at 0 [{j}]", gw[:, j], dot(gr, g.dtensor(y, g.basis(w, j))), ctol=k.sel(CT))
        gl = k.real("gl" + name, g.dof)
        x = y.clone()
        gx = k.vjp(lambda a: g.wrap(a).log_map(), [x], [gl])[0]
        for j in range(g.dof):
            k.eq(f"{name} log grad at I [{j}]", dot(gx, g.dtensor(x, g.basis(w, j))), gl[:, j], ctol=k.sel(CT))


@contract("C05", "classes", con=(1, 8), budget=90, funcs=["theseus group classes under autograd"])
def classes(k):
    """the same through the pose classes (SO2, SE2 have no custom backward)."""
    for name in LIE:
        g = G(name)
        gd = group_dirs(g)
        x, y = g.elem(k, "X" + name), g.elem(k, "Y" + name)
        W = g.wrap
        check(k, name + " compose", lambda a, b: W(a).compose(W(b)).tensor, [x, y], [gd, gd], None)
        check(k, name + " inverse", lambda a: W(a).inverse().tensor, [x], [gd], None)
        check(k, name + " between", lambda a, b: W(a).between(W(b)).tensor, [x, y], [gd, gd], None)
        d = 2 if name in ("SO2", "SE2") else 3
        p = k.real("p" + name, d)
        fr = "rotate" if name.startswith("SO") else "transform_from"
        check(k, name + " move", lambda a, b: getattr(W(a), fr)(b).tensor, [x, p], [gd, vec_dirs], None)


@contract("C05", "torchlie tensors", mode="con", con=(3, 1), dtypes=DT, funcs=["LieTensor.from_tensor", "_FromTensor", "LieTensor.__torch_function__", "as_lietensor", "LieTensor.compose/inv/transform/untransform/log/adj/local/retract under autograd"])
def lie_tensors(k):
    """back-propagation through LieTensors is that through the functional library on their data."""
    for name in ("SO3", "SE3"):
        g = G(name)
        L = getattr(torchlie, name)
        F = L._fn_lib
        x, y, p, d = g.elem(k, "X" + name), g.elem(k, "Y" + name), k.real("p" + name, 3), g.tangent(k, "d" + name, 2.0)
        A = k.real("A" + name, 3, 2)
        for nm, lt, fn in (
            ("compose", lambda a, b: a.compose(b)._t, lambda a, b: F.compose(a, b)),
            ("product", lambda a, b: (a * b)._t, lambda a, b: F.compose(a, b)),
            ("inv", lambda a, b: a.inv()._t, lambda a, b: F.inv(a)),
            ("transform", lambda a, b: a @ p, lambda a, b: F.transform(a, p)),
            ("untransform", lambda a, b: a.untransform(p), lambda a, b: F.untransform(a, p)),
            ("log", lambda a, b: a.log(), lambda a, b: F.log(a)),
            ("adj", lambda a, b: a.adj(), lambda a, b: F.adj(a)),
            ("left_act", lambda a, b: a.left_act(A), lambda a, b: F.left_act(a, A)),
            ("local", lambda a, b: a.local(b), lambda a, b: F.log(F.compose(F.inv(a), b))),
            ("retract", lambda a, b: a.retract(d)._t, lambda a, b: F.compose(a, F.exp(d))),
            ("rows", lambda a, b: a[:2].compose(b[-1])._t, lambda a, b: F.compose(a[:2], b[-1:])),
            ("stacked", lambda a, b: torch.cat([a, b.inv()]).log(), lambda a, b: F.log(torch.cat([a, F.inv(b)]))),
            ("clone", lambda a, b: a.clone().log(), lambda a, b: F.log(a)),
            ("other dtype", lambda a, b: a.to(torch.float64).adj(), lambda a, b: F.adj(a.double())),
            ("raw data", lambda a, b: (a._t * b._t).sin(), lambda a, b: (a * b).sin()),
            ("as_euclidean", lambda a, b: euclidean(a, b), lambda a, b: (a * b).sin()),
        ):
            with torch.enable_grad():
                a, b = x.clone().requires_grad_(), y.clone().requires_grad_()
                e = fn(a, b)
                up = torch.cos(torch.arange(e.numel(), dtype=e.dtype)).reshape(e.shape)
                want = torch.autograd.grad(e, [a, b], up, allow_unused=True)
                # made from tensors with a history
                a1, b1 = x.clone().requires_grad_(), y.clone().requires_grad_()
                o = lt(torchlie.from_tensor(a1, L), torchlie.as_lietensor(b1, L, dtype=b1.dtype))
                got = torch.autograd.grad(o, [a1, b1], up, allow_unused=True)
                # leaves
                a2, b2 = torchlie.LieTensor(x.clone(), L, requires_grad=True), torchlie.LieTensor(y.clone(), L, requires_grad=True)
                o2 = lt(a2, b2)
                o2.backward(up)
                leaf = [a2.grad, b2.grad]
            k.eq(f"{name} {nm}/value", o.detach(), e.detach())
            k.eq(f"{name} {nm}/value of leaves", o2.detach(), e.detach())
            for i, (w, g1, g2) in enumerate(zip(want, got, leaf)):
                k.same(f"{name} {nm}/which gradients exist {i}", (g1 is None, g2 is None), (w is None,) * 2)
                if w is not None:
                    k.eq(f"{name} {nm}/gradient {i}", g1, w, ctol=1e-6)
                    k.eq(f"{name} {nm}/gradient of a leaf {i}", g2.as_subclass(torch.Tensor), w, ctol=1e-6)


def euclidean(a, b):
    with torchlie.as_euclidean():
        return torch.sin(torch.mul(a, b))


def ad(g, v):
    """the matrix of w -> [v, w]."""
    cols = []
    for j in range(g.dof):
        A, B = g.hat(v), g.hat(g.basis(v, j))
        cols.append(g.cls.vee(A @ B - B @ A))
    return torch.stack(cols, dim=-1)


@contract("C05", "Jacobians at zero", mode="con", con=(2,), dtypes=DT, funcs=["reported Jacobians of exp_map, log_map under autograd"])
def jacobians_at_zero(k):
    """the reported Jacobians are differentiable at the identity: J_exp = I - ad(w)/2 + ...,
    J_log = I + ad(log x)/2 + ..."""
    for name in ("SE2", "SO3", "SE3"):
        g = G(name)
        W = k.real("W" + name, g.dof, g.dof)
        zero = torch.zeros(k.B, g.dof, dtype=k.dtype)
        x = g.cls.exp_map(zero).tensor

        def jexp(w):
            Js = []
            g.cls.exp_map(w, jacobians=Js)
            return Js[0]

        def jlog(t):
            Js = []
            g.wrap(t).log_map(jacobians=Js)
            return Js[0]

        ge, gl = k.vjp(jexp, [zero], [W])[0], k.vjp(jlog, [x], [W])[0]
        for j in range(g.dof):
            A = ad(g, g.basis(zero, j))
            k.eq(f"{name} exp Jacobian [{j}]", ge[:, j], -dot(W, A) / 2, ctol=k.sel(CT))
            k.eq(f"{name} log Jacobian [{j}]", dot(gl, g.dtensor(x, g.basis(zero, j))), dot(W, A) / 2, ctol=k.sel(CT))


def _mkj(name):
    g = G(name)

    @contract("C05", f"{name}/Jacobians", budget=120, con=(4, 1), funcs=["reported Jacobians under autograd"])
    def jacobians(k):
        """the Jacobians reported by the operations are differentiable, too."""
        gd = group_dirs(g)
        x, y = g.elem(k, "X"), g.elem(k, "Y")
        W = g.wrap

        def rep(f, i):
            def h(*a):
                Js = []
                f(Js, *a)
                # (a constant Jacobian has the gradient zero)
                return Js[i] + 0.0 * sum(t.reshape(t.shape[0], -1).sum(dim=1) for t in a)[:, None, None]
            return h

        for i in range(2):
            check(k, f"compose J{i}", rep(lambda Js, a, b: W(a).compose(W(b), jacobians=Js), i), [x, y], [gd, gd], None)
            check(k, f"between J{i}", rep(lambda Js, a, b: W(a).between(W(b), jacobians=Js), i), [x, y], [gd, gd], None)
        check(k, "inverse J", rep(lambda Js, a: W(a).inverse(jacobian=Js), 0), [x], [gd], None)
        d = 2 if name in ("SO2", "SE2") else 3
        p = k.real("p", d)
        for m in ("rotate", "unrotate") if name.startswith("SO") else ("transform_from", "transform_to"):
            for i in range(2):
                check(k, f"{m} J{i}", rep(lambda Js, a, b: getattr(W(a), m)(b, jacobians=Js), i), [x, p], [gd, vec_dirs], None)
        if not k.symbolic:
            w = {"SO2": lambda: k.signed_angle("w", zero=False), "SE2": lambda: k.se2_tangent("w", zero=False), "SO3": lambda: k.aa("w", hi=3.0, zero=False), "SE3": lambda: k.se3_tangent("w", hi=3.0, zero=False)}[name]()
            check(k, "exp J", rep(lambda Js, a: g.cls.exp_map(a, jacobians=Js), 0), [w], [vec_dirs], None, ctol=1e-3)
            z = g.cls.exp_map(w).tensor
            check(k, "log J", rep(lambda Js, a: W(a).log_map(jacobians=Js), 0), [z], [gd], None, ctol=1e-2)


for _n in LIE:
    _mkj(_n)
