"""every built-in cost function, built from named slots: used by the contracts on
copies, vectorization and linearization."""
import contextlib

import torch
import theseus as th
import theseus.embodied as emb  # noqa: F401
import theseus.embodied.collision.signed_distance_field as sdfm
from theseus.theseus_layer import _DLMPerturbation
from dv.symt import SymTensor
from .groups import log_by_contract
from .objs import Quad

H0, W0 = 5, 4


def value(k, kind, name, single):
    """a tensor of this kind: a value per batch element, or one shared by all."""
    b = not single
    f = {
        "SO2": lambda: k.so2(name, batched=b), "SE2": lambda: k.pose2(name, batched=b),
        "SO3": lambda: k.rot(name, batched=b), "SE3": lambda: k.pose3(name, batched=b),
        "Point2": lambda: k.real(name, 2, batched=b), "Point3": lambda: k.real(name, 3, batched=b),
        "pos": lambda: k.pos(name, 1, batched=b), "data": lambda: k.real(name, H0, W0, batched=b),
        "origin": lambda: k.real(name, 2, batched=b), "cell": lambda: k.pos(name, 1, batched=b),
    }
    if kind in f:
        t = f[kind]()
    elif kind[0] in "UN":  # positive or negative entries
        t = k.pos(name, int(kind[1:]), batched=b)
        t = t if kind[0] == "U" else -t
    elif kind[0] == "P":  # positive definite
        n = int(kind[1:])
        g = k.real(name, n, n, batched=b)
        t = g @ g.transpose(-1, -2) + torch.eye(n, dtype=k.dtype)
    else:
        t = k.real(name, int(kind[1:]), batched=b)
    return t.unsqueeze(0).clone() if single else t.clone()


def wrap(kind, t, name):
    if kind[0] == "V":
        return th.Vector(tensor=t, name=name)
    if kind in ("Point2", "origin"):
        return th.Point2(tensor=t, name=name)
    if kind == "Point3":
        return th.Point3(tensor=t, name=name)
    if kind in ("SO2", "SE2", "SO3", "SE3"):
        return getattr(th, kind)(tensor=t, name=name, disable_checks=True)
    return th.Variable(t, name=name)


class Spec:
    """slots: name -> kind, optim: those optimised, wslots: those of the weight."""

    def __init__(self, name, optim, aux, dim, make, weight="scale", sym=True):
        self.name, self.optim, self.aux, self.dim, self._make, self.weight, self.sym = name, optim, aux, dim, make, weight, sym

    @property
    def wslots(self):
        if self.weight == "gp":
            return {"Qc": f"P{self.dim // 2}", "dt": "pos"}
        return {"w": "pos"} if self.weight == "scale" else {"w": f"D{self.dim}"}

    @property
    def slots(self):
        return {**self.optim, **self.aux, **self.wslots}

    def mkweight(self, v, name="wt"):
        if self.weight == "gp":
            return th.eb.GPCostWeight(v["Qc"], v["dt"], name=name)
        return (th.ScaleCostWeight if self.weight == "scale" else th.DiagonalCostWeight)(v["w"], name=name)

    def make(self, v, w=None, name="cf"):
        return self._make(v, w if w is not None else self.mkweight(v), name)

    def tensors(self, k, pre="", single=()):
        return {s: value(k, kd, f"{self.name}.{pre}{s}{'~' if s in single else ''}", s in single) for s, kd in self.slots.items()}

    def variables(self, ts, pre=""):
        return {s: wrap(kd, ts[s], pre + s) for s, kd in self.slots.items()}


DOF = dict(SO2=1, SE2=3, SO3=3, SE3=6, Point2=2, Point3=3)


def dof(kind):
    return DOF.get(kind) or int(kind[1:])


def err_fn(optim_vars, aux_vars):
    x, y = (v.tensor for v in optim_vars)
    a = aux_vars[0].tensor
    return torch.cat([x[:, :1] * y[:, 1:2] + a[:, :1], y[:, :1] * y[:, :1] * a[:, 1:2] - x[:, 1:2]], dim=1)


def specs():
    out = []
    A = out.append
    for g in ("SO2", "SE2", "SO3", "SE3", "Point2", "V3"):
        d = dof(g)
        A(Spec(f"Local{g}", {"x": g}, {"t": g}, d, lambda v, w, n: th.Difference(v["x"], v["t"], w, name=n)))
        A(Spec(f"Between{g}", {"a": g, "b": g}, {"m": g}, d, lambda v, w, n: th.Between(v["a"], v["b"], v["m"], w, name=n), weight="diagonal"))
    for g in ("SE2", "SE3"):
        A(Spec(f"MovingFrame{g}", {"f1": g, "f2": g, "p1": g, "p2": g}, {"m": g}, dof(g), lambda v, w, n: th.eb.MovingFrameBetween(v["f1"], v["f2"], v["p1"], v["p2"], v["m"], w, name=n)))
    for g in ("SE2", "V2"):
        d = dof(g)
        o = {"p1": g, "v1": f"V{d}", "p2": g, "v2": f"V{d}"}
        A(Spec(f"DoubleIntegrator{g}", o, {"dt": "pos"}, 2 * d, lambda v, w, n: th.eb.DoubleIntegrator(v["p1"], v["v1"], v["p2"], v["v2"], v["dt"], w, name=n), weight="diagonal"))
        A(Spec(f"GP{g}", o, {"dt": "pos"}, 2 * d, lambda v, w, n: th.eb.GPMotionModel(v["p1"], v["v1"], v["p2"], v["v2"], v["dt"], w, name=n), weight="gp"))
    A(Spec("Hinge", {"x": "V3"}, {"lo": "N3", "up": "U3", "thr": "U3"}, 3, lambda v, w, n: th.eb.HingeCost(v["x"], v["lo"], v["up"], v["thr"], w, name=n), weight="diagonal"))
    A(Spec("Nonholonomic", {"p": "SE2", "v": "V3"}, {}, 1, lambda v, w, n: th.eb.Nonholonomic(v["p"], v["v"], w, name=n)))
    A(Spec("Pushing", {"o1": "SE2", "o2": "SE2", "e1": "SE2", "e2": "SE2"}, {"c2": "pos"}, 3, lambda v, w, n: th.eb.QuasiStaticPushingPlanar(v["o1"], v["o2"], v["e1"], v["e2"], v["c2"], w, name=n)))
    A(Spec("Reprojection", {"cam": "SE3", "pt": "Point3"}, {"uv": "Point2", "f": "V1", "k1": "V1", "k2": "V1"}, 2, lambda v, w, n: th.eb.Reprojection(v["cam"], v["pt"], v["uv"], v["f"], v["k1"], v["k2"], weight=w, name=n)))
    for g in ("Point2", "SE2"):
        A(Spec(f"Collision{g}", {"x": g}, {"o": "origin", "sdf": "data", "cell": "cell", "eps": "pos"}, 1, lambda v, w, n: th.eb.Collision2D(v["x"], v["o"], v["sdf"], v["cell"], v["eps"], w, name=n), sym=False))
    A(Spec("Contact", {"obj": "SE2", "eff": "SE2"}, {"o": "origin", "sdf": "data", "cell": "cell", "r": "pos"}, 1, lambda v, w, n: th.eb.EffectorObjectContactPlanar(v["obj"], v["eff"], v["o"], v["sdf"], v["cell"], v["r"], w, name=n), sym=False))
    for g in ("V3", "SE2"):
        e = {"V3": 3, "SE2": 4}[g]
        A(Spec(f"DLM{g}", {"x": g}, {"eps": "pos", "grad": f"D{e}"}, e, lambda v, w, n: _DLMPerturbation(v["x"], v["eps"], v["grad"], w, name=n)))
    for m in ("dense", "loop_batch", "vmap"):
        A(Spec(f"AutoDiff {m}", {"x": "V2", "y": "SO2"}, {"a": "D2"}, 2, lambda v, w, n, m=m: th.AutoDiffCostFunction([v["x"], v["y"]], err_fn, 2, aux_vars=[v["a"]], cost_weight=w, name=n, autograd_mode=m), sym=False))
    for L in (th.HuberLoss, th.WelschLoss):
        for fl in (False, True):
            A(Spec(f"{L.__name__}{' flat' if fl else ''}", {"a": "SE2", "b": "SE2"}, {"m": "SE2", "lr": "D1"}, 3,
                   lambda v, w, n, L=L, fl=fl: th.RobustCostFunction(th.Between(v["a"], v["b"], v["m"], w, name=n + " inner"), L, v["lr"], name=n, flatten_dims=fl), weight="diagonal"))
    A(Spec("GNC", {"x": "V2"}, {"t": "V2", "lr": "D1", "mu": "pos"}, 2,
           lambda v, w, n: th.GNCRobustCostFunction(th.Difference(v["x"], v["t"], w, name=n + " inner"), th.GemanMcClureLoss, v["lr"], v["mu"], name=n)))
    A(Spec("Quad", {"x": "V2", "y": "V3"}, {"a": "D2"}, 2, lambda v, w, n: Quad([v["x"], v["y"]], [v["a"]], w, 2, name=n)))
    return out


@contextlib.contextmanager
def callees_by_contract(k):
    """symbolic side: the group logarithm and the Cholesky factor are some function of their
    argument (their own properties are C02, C03 and C08)."""
    if not k.symbolic:
        yield
        return
    orig = torch.linalg.cholesky

    def chol(t, **kw):
        if not isinstance(t, SymTensor):
            return orig(t, **kw)
        return k.opaque("cholesky", lambda a: [orig(a)], [t])[0]

    torch.linalg.cholesky = chol
    try:
        with log_by_contract(k):
            yield
    finally:
        torch.linalg.cholesky = orig
