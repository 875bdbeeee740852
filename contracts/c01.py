"""C01: group algebra of the pose/rotation/vector classes."""
import torch
import theseus as th
import torchlie
from torchlie import lie_tensor as LT
from dv.run import contract
from . import lietensor
from .groups import ALL, LIE, G, eye, skew, mat

INFO = dict(level="proof")


def _mk(name):
    g = G(name)

    @contract("C01", f"algebra/{name}", funcs=[f"{name}.compose", f"{name}.inverse", f"{name}.between", f"{name}.to_matrix", f"{name}.adjoint", f"{name}.hat", f"{name}.vee"], dtypes=("float64",))
    def algebra(k):
        x, y = g.elem(k, "X"), g.elem(k, "Y")
        Xv, Yv = g.wrap(x), g.wrap(y)
        MX, MY = g.M(x), g.M(y)
        if name in LIE:
            k.eq("to_matrix", Xv.to_matrix(), MX)
        c = Xv.compose(Yv)
        k.same("compose/type", type(c), g.cls)
        k.eq("compose = matrix product", g.M(c.tensor), MX @ MY)
        inv = Xv.inverse()
        k.same("inverse/type", type(inv), g.cls)
        k.eq("inverse = matrix inverse", g.M(inv.tensor), g.Minv(MX))
        k.eq("x o x^-1 = identity", g.M(Xv.compose(inv).tensor), eye(MX.shape[1], MX))
        k.eq("x^-1 o x = identity", g.M(inv.compose(Xv).tensor), eye(MX.shape[1], MX))
        b = Xv.between(Yv)
        k.eq("between = x^-1 y", g.M(b.tensor), g.Minv(MX) @ MY)
        k.eq("x o between(x,y) = y", g.M(Xv.compose(b).tensor), MY)
        k.eq("operands unchanged/X", Xv.tensor, x)
        k.eq("operands unchanged/Y", Yv.tensor, y)
        k.same("dof", Xv.dof(), g.dof)
        # Adjoint and hat/vee
        v = k.real("v", g.dof)
        if name in LIE:
            H = g.cls.hat(v)
            k.eq("hat", H, g.hat(v))
            k.eq("vee(hat(v)) = v", g.cls.vee(H), v)
            Ad = Xv.adjoint()
            k.eq("x hat(v) x^-1 = hat(Ad v)", MX @ g.hat(v) @ g.Minv(MX), g.hat((Ad @ v.unsqueeze(-1)).squeeze(-1)))
        # free-function aliases
        k.eq("alias compose", th.compose(Xv, Yv).tensor, c.tensor)
        k.eq("alias inverse", th.inverse(Xv).tensor, inv.tensor)
        k.eq("alias between", th.between(Xv, Yv).tensor, b.tensor)

    @contract("C01", f"closure/{name}", funcs=[f"{name}.compose"])
    def closure(k):
        if name not in LIE:
            return
        x, y, z = g.elem(k, "X"), g.elem(k, "Y"), g.elem(k, "Z")
        Xv, Yv, Zv = g.wrap(x), g.wrap(y), g.wrap(z)
        k.eq("associativity", Xv.compose(Yv).compose(Zv).tensor, Xv.compose(Yv.compose(Zv)).tensor)
        c = Xv.compose(Yv)
        n = {"SO2": 2, "SE2": 2, "SO3": 3, "SE3": 3}[name]
        R = g.M(c.tensor)[:, :n, :n]
        k.eq("result is a valid element", R.transpose(1, 2) @ R, eye(n, R))
        I = g.cls(dtype=k.dtype)
        k.eq("default element is the identity", g.M(I.tensor), torch.eye(g.M(I.tensor).shape[1], dtype=k.dtype).unsqueeze(0))

    @contract("C01", f"broadcast1/{name}", con=(4,), funcs=[f"{name}.compose"])
    def broadcast1(k):
        """batch-1 operand against a batch operand where the class supports it."""
        if name not in ("SO3", "SE3"):
            return
        x = g.elem(k, "X")
        y1 = {"SO3": k.rot, "SE3": k.pose3}[name]("Y1", batched=False).unsqueeze(0)
        k.eq("compose(B,1)", g.M(g.wrap(x).compose(g.wrap(y1)).tensor), g.M(x) @ g.M(y1))
        k.eq("compose(1,B)", g.M(g.wrap(y1).compose(g.wrap(x)).tensor), g.M(y1) @ g.M(x))


for _n in ALL:
    _mk(_n)


@contract("C01", "transform", funcs=["SE2.transform_from", "SE2.transform_to", "SO2.rotate", "SO2.unrotate", "SO3.rotate", "SO3.unrotate", "SE3.transform_from", "SE3.transform_to"])
def transform(k):
    for name, fr, to, d in (("SO2", "rotate", "unrotate", 2), ("SE2", "transform_from", "transform_to", 2), ("SO3", "rotate", "unrotate", 3), ("SE3", "transform_from", "transform_to", 3)):
        g = G(name)
        x = g.elem(k, "X" + name)
        p = k.real("p" + name, d)
        P = {2: th.Point2, 3: th.Point3}[d](tensor=p)
        M = g.M(x)
        R = M[:, :d, :d]
        t = M[:, :d, d] if M.shape[1] > d else torch.zeros_like(p)
        spec = (R @ p.unsqueeze(-1)).squeeze(-1) + t
        spec_inv = (R.transpose(1, 2) @ (p - t).unsqueeze(-1)).squeeze(-1)
        Xv = g.wrap(x)
        for tag, arg in (("Point", P), ("tensor", p)):
            k.eq(f"{name}.{fr}({tag}) = X p", getattr(Xv, fr)(arg).tensor, spec)
            k.eq(f"{name}.{to}({tag}) = X^-1 p", getattr(Xv, to)(arg).tensor, spec_inv)
        k.eq(f"{name}: to(from(p)) = p", getattr(Xv, to)(getattr(Xv, fr)(P)).tensor, p)
        k.eq(f"{name}: argument unchanged", P.tensor, p)


@contract("C01", "transform/broadcast", con=(4,))
def transform_broadcast(k):
    for name, fr, to, d in (("SO2", "rotate", "unrotate", 2), ("SE2", "transform_from", "transform_to", 2), ("SO3", "rotate", "unrotate", 3), ("SE3", "transform_from", "transform_to", 3)):
        g = G(name)
        x = g.elem(k, "X" + name)
        p = k.real("p1" + name, d, batched=False).unsqueeze(0)
        M = g.M(x)
        R = M[:, :d, :d]
        t = M[:, :d, d] if M.shape[1] > d else torch.zeros_like(x.reshape(x.shape[0], -1)[:, :1]).expand(x.shape[0], d)
        spec = (R @ p.unsqueeze(-1)).squeeze(-1) + t
        spec_inv = (R.transpose(1, 2) @ (p - t).unsqueeze(-1)).squeeze(-1)
        Xv = g.wrap(x)
        k.eq(f"{name}.{fr} one point", getattr(Xv, fr)(p).tensor, spec)
        k.eq(f"{name}.{to} one point", getattr(Xv, to)(p).tensor, spec_inv)


@contract("C01", "points", funcs=["Point2.*", "Point3.*", "Vector.*"])
def points(k):
    for d, cls in ((2, th.Point2), (3, th.Point3), (4, th.Vector)):
        a, b = k.real(f"a{d}", d), k.real(f"b{d}", d)
        A, B = cls(tensor=a), cls(tensor=b)
        k.eq(f"{d}: add", (A + B).tensor, a + b)
        k.eq(f"{d}: sub", (A - B).tensor, a - b)
        k.eq(f"{d}: neg", (-A).tensor, -a)
        k.eq(f"{d}: mul", (A * B).tensor, a * b)
        k.eq(f"{d}: tensor mul", (A * b).tensor, a * b)
        m = k.real(f"m{d}", d, d)
        k.eq(f"{d}: vec @ mat", A @ m, (a.unsqueeze(2) * m).sum(dim=1))
        k.eq(f"{d}: mat @ vec", m @ A, (m * a.unsqueeze(1)).sum(dim=2))
        k.eq(f"{d}: dot", A.dot(B), (a * b).sum(dim=1))
        k.eq(f"{d}: inner", A.inner(B), (a * b).sum(dim=1))
        k.eq(f"{d}: outer", A.outer(B), a.unsqueeze(2) * b.unsqueeze(1))
        k.eq(f"{d}: abs", A.abs().tensor, a.abs())
        k.eq(f"{d}: norm", A.norm(dim=1), (a * a).sum(dim=1).sqrt())
        k.eq(f"{d}: cat", A.cat(B).tensor, torch.cat([a, b], 1))
        k.eq(f"{d}: compose", A.compose(B).tensor, a + b)
        e = k.pos(f"e{d}", d) + 0.1
        k.eq(f"{d}: divided by a vector", (A / cls(tensor=e)).tensor, a / e)
        k.eq(f"{d}: divided by a tensor", (A / e).tensor, a / e)
        k.eq(f"{d}: tensor times vector", A.__rmul__(b).tensor, a * b)
        k.eq(f"{d}: cat of several", A.cat([B, A]).tensor, torch.cat([a, b, a], 1))
        k.eq(f"{d}: matrix", A.to_matrix(), a)
        k.eq(f"{d}: exp_map", cls.exp_map(a).tensor, a)
        k.eq(f"{d}: log_map", A.log_map(), a)
        k.eq(f"{d}: normalize", cls.normalize(a), a)
        if d < 4:
            for i, c in enumerate("xyz"[:d]):
                k.eq(f"{d}: {c}", getattr(A, c)(), a[:, i])
            k.same(f"{d}: types", [type(v) for v in (A + B, A - B, -A, A * B, A / cls(tensor=e), A.abs(), A.compose(B), A.copy(), cls.exp_map(a))], [cls] * 9)
        k.eq(f"{d}: unchanged", A.tensor, a)


@contract("C01", "accessors", funcs=["SE2.rotation", "SE2.translation", "SE2.theta", "SE2.xy", "SE3.rotation", "SE3.translation", "SE2.update_from_x_y_theta", "SE3.to_x_y_z_quaternion", "SO3.unit_quaternion_to_SO3"])
def accessors(k):
    x = k.pose2("x")
    s = th.SE2(tensor=x, disable_checks=True)
    k.eq("SE2.rotation", s.rotation.tensor, x[:, 2:])
    k.eq("SE2.translation", s.translation.tensor, x[:, :2])
    k.eq("SE2.xy", s.xy().tensor, x[:, :2])
    X3 = k.pose3("x3")
    s3 = th.SE3(tensor=X3, disable_checks=True)
    k.eq("SE3.rotation", s3.rotation().tensor, X3[:, :, :3])
    k.eq("SE3.translation", s3.translation().tensor, X3[:, :, 3])
    q = k.quat("q")
    R = th.SO3.unit_quaternion_to_SO3(q)
    w, a, b, c = q[:, 0], q[:, 1], q[:, 2], q[:, 3]
    spec = mat([[w * w + a * a - b * b - c * c, 2 * (a * b - w * c), 2 * (a * c + w * b)],
                [2 * (a * b + w * c), w * w - a * a + b * b - c * c, 2 * (b * c - w * a)],
                [2 * (a * c - w * b), 2 * (b * c + w * a), w * w - a * a - b * b + c * c]])
    k.eq("quaternion -> rotation", R.tensor, spec)
    p = k.real("pq", 3)
    T = th.SE3.x_y_z_unit_quaternion_to_SE3(torch.cat([p, q], dim=1))
    k.eq("xyz quaternion -> pose", T.tensor, torch.cat([spec, p.unsqueeze(-1)], -1))
    T2 = th.SE3(x_y_z_quaternion=torch.cat([p, q], dim=1))
    k.eq("constructor x_y_z_quaternion", T2.tensor, T.tensor)
    t = k.signed_angle("th")
    xy = k.real("xy", 2)
    S = th.SE2(x_y_theta=torch.cat([xy, t], dim=1))
    k.eq("x_y_theta constructor", S.tensor, torch.cat([xy, t.cos(), t.sin()], 1))
    k.eq("SO2(theta)", th.SO2(theta=t).tensor, torch.cat([t.cos(), t.sin()], 1))


@contract("C01", "torchlie tensors", con=(8, 1), funcs=["LieTensor.compose", "LieTensor.__mul__", "LieTensor.__matmul__", "LieTensor.inv", "LieTensor.adj", "LieTensor.transform", "LieTensor.untransform", "LieTensor.left_act", "ltype.hat", "ltype.vee", "ltype.lift", "ltype.project", "ltype.identity"])
def lie_tensors(k):
    for name in lietensor.NAMES:
        g = G(name)
        L = getattr(torchlie, name)
        x, y = g.elem(k, "X" + name), g.elem(k, "Y" + name)
        p = k.real("p" + name, 3)
        with lietensor.rig(k) as make:
            a, b = make(name, x), make(name, y)
            MX, MY = g.M(x), g.M(y)
            for what, r, M in (("compose", lambda: a.compose(b), MX @ MY), ("operator *", lambda: a * b, MX @ MY), ("function compose", lambda: LT.compose(a, b), MX @ MY),
                               ("inv", lambda: a.inv(), g.Minv(MX)), ("function inv", lambda: LT.inv(a), g.Minv(MX))):
                c = r()
                k.same(f"{name} {what}: a group tensor", lietensor.is_lie(c) and c.ltype is L, True)
                k.eq(f"{name} {what}", g.M(c._t), M)
            moved, back = (MX[:, :3, :3] @ p.unsqueeze(-1)).squeeze(-1), None
            t = 0 if name == "SO3" else x[:, :, 3]
            back = (MX[:, :3, :3].transpose(1, 2) @ (p - t).unsqueeze(-1)).squeeze(-1)
            moved = moved + t
            for what, r, e in (("transform", lambda: a.transform(p), moved), ("operator @", lambda: a @ p, moved), ("function transform", lambda: LT.transform(a, p), moved),
                               ("untransform", lambda: a.untransform(p), back), ("function untransform", lambda: LT.untransform(a, p), back)):
                k.eq(f"{name} {what}", r(), e)
            v = k.real("v" + name, g.dof)
            for what, Ad in (("adj", a.adj()), ("function adj", LT.adj(a))):
                k.eq(f"{name} x hat(v) x^-1 = hat({what} v)", MX @ g.hat(v) @ g.Minv(MX), g.hat((Ad @ v.unsqueeze(-1)).squeeze(-1)))
            k.eq(f"{name} hat", L.hat(v), g.hat(v))
            k.eq(f"{name} vee", L.vee(g.hat(v)), v)
            A = k.real("A" + name, 3, 2)
            if name == "SO3":
                k.eq(f"{name} left_act", a.left_act(A), x @ A)
                k.eq(f"{name} function left_act", LT.left_act(a, A), x @ A)
            k.eq(f"{name} operands unchanged/X", a._t, x)
            k.eq(f"{name} operands unchanged/Y", b._t, y)
    if k.symbolic:
        return
    for name, n in (("SO3", 3), ("SE3", 4)):
        I = getattr(torchlie, name).identity(2, dtype=k.dtype)
        k.same(f"{name} identity: a group tensor", I.ltype is getattr(torchlie, name), True)
        k.eq(f"{name} identity", G(name).M(I._t), torch.eye(n, dtype=k.dtype).expand(2, n, n))
    u = torchlie.SO3.rand(k.B, dtype=k.dtype)
    w = torchlie.SE3.rand(k.B, dtype=k.dtype)
    k.raises("types do not mix/compose", lambda: u.compose(w), ValueError)
    k.raises("types do not mix/jcompose", lambda: u.jcompose(w), ValueError)
    k.raises("types do not mix/local", lambda: u.local(w), ValueError)
    k.raises("no product with a plain tensor", lambda: u * u._t, TypeError)
    k.raises("no point of group type", lambda: u @ u, TypeError)


def _half_turns(dt):
    """rotations by a half turn less d about every axis with entries in -2..2, as
    quaternions; computed in float64 and rounded."""
    g = torch.arange(-2.0, 3.0, dtype=torch.float64)
    a = torch.stack(torch.meshgrid(g, g, g, indexing="ij"), -1).view(-1, 3)
    a = a[a.norm(dim=1) > 0]
    a = a / a.norm(dim=1, keepdim=True)
    h = torch.tensor([0.0, 1e-12, 1e-9, 1e-7, 3e-7, 1e-6, 1e-5, 1e-4, 1e-3, 1e-2, 0.05, 0.1, 0.5, 1.5, 3.0, 3.141, 3.14159265], dtype=torch.float64) / 2
    q = torch.cat([h.sin().view(-1, 1, 1).expand(-1, len(a), 1), h.cos().view(-1, 1, 1) * a], dim=2).view(-1, 4)
    w, v = q[:, :1], q[:, 1:]
    R = (w * w).unsqueeze(2) * eye(3, q) + 2 * w.unsqueeze(2) * skew(v) + 2 * v.unsqueeze(2) * v.unsqueeze(1) - (v * v).sum(1).view(-1, 1, 1) * eye(3, q)
    return q.to(dt), R.to(dt)


@contract("C01", "quaternion of a rotation", con=(32, 1), dtypes=("float64", "float32"), funcs=["SO3.to_quaternion", "SE3.to_x_y_z_quaternion", "SO3.update_from_unit_quaternion", "SE3.update_from_x_y_z_quaternion", "SE3.update_from_rot_and_trans"])
def quaternion_of(k):
    """the quaternion read out of a rotation is one of the two that name it (the
    same products of entries), and building a rotation from it gives it back."""
    q, p = k.quat("q"), k.real("p", 3)
    R = th.SO3.unit_quaternion_to_SO3(q)
    tol = dict(ctol=k.sel({torch.float64: 1e-6, torch.float32: 2e-3}))
    r = R.to_quaternion()
    if not k.symbolic:
        k.eq("entries", r.unsqueeze(2) * r.unsqueeze(1), q.unsqueeze(2) * q.unsqueeze(1), **tol)
    # every rotation but the identity: (cos h, n sin h) for h in (0, pi)
    _, n, h = k.rot_aa("A")
    w, v = h.view(-1, 1).cos(), n * h.view(-1, 1).sin()
    A = (2 * w * w - 1).unsqueeze(2) * eye(3, w) + 2 * w.unsqueeze(2) * skew(v) + 2 * v.unsqueeze(2) * v.unsqueeze(1)
    s = th.SO3(tensor=A, disable_checks=True).to_quaternion()
    k.eq("real part", s[:, :1] * s[:, :1], w * w, **tol)
    if not k.symbolic:  # next to a half turn its sign is only checked by the runs
        k.eq("mixed part", s[:, :1] * s[:, 1:], w * v, **tol)
    k.eq("imaginary part", s[:, 1:].unsqueeze(2) * s[:, 1:].unsqueeze(1), v.unsqueeze(2) * v.unsqueeze(1), **tol)
    k.le("real part is not negative", -s[:, 0], torch.zeros_like(s[:, 0]))
    T = th.SE3(tensor=torch.cat([R.tensor, p.unsqueeze(2)], dim=2), disable_checks=True)
    k.eq("pose", T.to_x_y_z_quaternion(), torch.cat([p, r], dim=1), **tol)
    U = th.SO3(dtype=k.dtype)
    U.update_from_unit_quaternion(q)
    k.eq("update from quaternion", U.tensor, R.tensor)
    V = th.SE3(dtype=k.dtype)
    V.update_from_x_y_z_quaternion(torch.cat([p, q], dim=1))
    k.eq("update from position and quaternion", V.tensor, T.tensor)
    V = th.SE3(dtype=k.dtype)
    V.update_from_rot_and_trans(R, th.Point3(tensor=p))
    k.eq("update from rotation and translation", V.tensor, T.tensor)
    W = th.SE2(dtype=k.dtype)
    z, xy = k.so2("z"), k.real("xy2", 2)
    W.update_from_rot_and_trans(th.SO2(tensor=z, disable_checks=True), th.Point2(tensor=xy))
    k.eq("SE2 from rotation and translation", W.tensor, torch.cat([xy, z], dim=1))


@contract("C01", "quaternion of a rotation/half turns", mode="con", con=(1,), dtypes=("float64", "float32"), funcs=["SO3.to_quaternion"])
def quaternion_half_turns(k):
    q, R = _half_turns(k.dtype)
    r = th.SO3(tensor=R, disable_checks=True).to_quaternion()
    d = torch.minimum((r - q).abs().amax(1), (r + q).abs().amax(1))
    k.eq("one of the two quaternions", d, torch.zeros_like(d), ctol=k.sel({torch.float64: 1e-7, torch.float32: 1e-3}))
    k.eq("unit", (r * r).sum(1), torch.ones_like(d), ctol=k.sel({torch.float64: 1e-7, torch.float32: 1e-3}))


@contract("C01", "random elements", mode="con", con=(5,), dtypes=("float64", "float32"), funcs=[f"{c}.{r}" for c in ("SO2", "SE2", "SO3", "SE3", "Vector", "Point2", "Point3") for r in ("rand", "randn")])
def random_elements(k):
    """random elements are valid, of the requested batch size and dtype, made from
    the given generator alone, and not all the same."""
    tol = k.sel({torch.float64: 1e-12, torch.float32: 2e-5})
    for cls in (th.SO2, th.SE2, th.SO3, th.SE3, th.Vector, th.Point2, th.Point3):
        for how in ("rand", "randn"):
            for B in (1, 2, 7):
                size = (B, 3) if cls is th.Vector else (B,)
                n = f"{cls.__name__}.{how}({B})"

                def make(seed):
                    return getattr(cls, how)(*size, dtype=k.dtype, generator=torch.Generator().manual_seed(seed))

                state = torch.get_rng_state()
                x, y, z = make(4), make(4), make(5)
                k.same(n + "/global generator untouched", bool((torch.get_rng_state() == state).all()), True)
                k.same(n + "/type, batch, dtype", (type(x), x.shape[0], str(x.dtype)), (cls, B, str(k.dtype)))
                k.eq(n + "/repeatable", x.tensor, y.tensor, ctol=0)
                k.same(n + "/depends on the generator", bool((x.tensor != z.tensor).any()), True)
                if B > 1:
                    k.same(n + "/elements differ", bool((x.tensor[0] != x.tensor[1]).any()), True)
                if cls in (th.SO2, th.SE2, th.SO3, th.SE3):
                    M = G(cls.__name__).M(x.tensor)
                    d = 2 if cls in (th.SO2, th.SE2) else 3
                    R = M[:, :d, :d]
                    k.eq(n + "/orthogonal", R.transpose(1, 2) @ R, eye(d, R).expand(B, d, d), ctol=tol)
                    k.eq(n + "/proper", torch.det(R), torch.ones(B, dtype=k.dtype), ctol=tol)
                x = getattr(cls, how)(*size, dtype=k.dtype, requires_grad=True)
                k.same(n + "/requires_grad", x.tensor.requires_grad, True)
            bad = (2, 3, 4) if cls is th.Vector else (2, 3)
            k.raises(f"{cls.__name__}.{how} of a wrong size", lambda: getattr(cls, how)(*bad), ValueError)
