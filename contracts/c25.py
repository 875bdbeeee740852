"""C25: Gaussians on manifolds transform consistently."""
import copy

import torch
import theseus as th
from theseus.optimizer import ManifoldGaussian, local_gaussian, retract_gaussian
from dv.run import contract
from .groups import ALL, LIE, G, log_by_contract, exp_jac_by_contract

INFO = dict(level="proof", assumptions=["torch.inverse of a small matrix is its adjugate divided by the determinant; SE3 (6 x 6) round trips are checked on the concrete runs only"])


def sym_matrix(k, name, n):
    """any symmetric matrix."""
    v = k.real(name, n, n)
    return (v + v.transpose(1, 2)) / 2


def spd(k, name, n):
    v = k.real(name, n, n)
    return v @ v.transpose(1, 2) + 0.5 * torch.eye(n, dtype=k.dtype)


def _retract(name):
    @contract("C25", f"retract/{name}", funcs=["retract_gaussian", "ManifoldGaussian.__init__", "ManifoldGaussian.update", "ManifoldGaussian.dof"], mode="con" if name == "SE3" else "both", con=(16, 1), budget=100)
    def retract(k):
        """the mean is retracted by the step and the precision is carried by the
        exponential's Jacobian: J' P J is the tangent precision."""
        g = G(name)
        x, d = g.elem(k, "x"), g.tangent(k, "d")
        L = sym_matrix(k, "L", g.dof)
        x0, d0, L0 = x.clone(), d.clone(), L.clone()
        with exp_jac_by_contract(k):
            v = g.wrap(x)
            r = retract_gaussian(v, d, L)
            J = []
            g.cls.exp_map(d, jacobians=J)
            y = v.retract(d)
        k.same("one mean variable of the same class", [type(m) for m in r.mean], [g.cls])
        k.same("dof", r.dof, g.dof)
        k.eq("mean", r.mean[0].tensor, y.tensor)
        k.same("precision shape", tuple(r.precision.shape), (k.B, g.dof, g.dof))
        k.eq("J' P J = tangent precision", J[0].transpose(1, 2) @ r.precision @ J[0], L, ctol=1e-6)
        k.eq("variable unchanged", x, x0, ctol=0)
        k.eq("step unchanged", d, d0, ctol=0)
        k.eq("tangent precision unchanged", L, L0, ctol=0)

    @contract("C25", f"local/{name}", funcs=["local_gaussian"], mode="both", con=(16, 1), budget=100)
    def local(k):
        """the tangent mean is local(mean) and the tangent precision J' P J; the
        information form is their product."""
        g = G(name)
        x, y = g.elem(k, "x"), g.elem(k, "y")
        P = sym_matrix(k, "P", g.dof)
        P0 = P.clone()
        with exp_jac_by_contract(k), log_by_contract(k):
            v, m = g.wrap(x), g.wrap(y)
            ga = ManifoldGaussian([m], precision=P)
            mu, lam = local_gaussian(v, ga)
            eta, lam2 = local_gaussian(v, ga, return_mean=False)
            J = []
            ref = v.local(m)
            g.cls.exp_map(ref, jacobians=J)
        k.eq("tangent mean", mu, ref)
        k.eq("tangent precision", lam, J[0].transpose(1, 2) @ P @ J[0])
        k.eq("same precision in information form", lam2, lam)
        k.eq("information vector", eta, (lam @ mu.unsqueeze(2)).squeeze(2))
        k.eq("precision unchanged", ga.precision, P0, ctol=0)
        k.eq("mean unchanged", ga.mean[0].tensor, y, ctol=0)


for _n in ALL:
    _retract(_n)


def _round(name):
    @contract("C25", f"round trip/{name}", mode="con", con=(24,), funcs=["retract_gaussian", "local_gaussian"])
    def round_trip(k):
        g = G(name)
        x, d = g.elem(k, "x"), g.tangent(k, "d", hi=2.9)
        L = spd(k, "L", g.dof)
        v = g.wrap(x)
        r = retract_gaussian(v, d, L)
        mu, lam = local_gaussian(v, r)
        k.eq("mean", mu, d, ctol=1e-6)
        k.eq("precision", lam, L, ctol=1e-6)
        eta, _ = local_gaussian(v, r, return_mean=False)
        k.eq("information", eta, (L @ d.unsqueeze(2)).squeeze(2), ctol=1e-5)


for _n in ALL:
    _round(_n)


@contract("C25", "construct, update, copy", con=(6, 1), funcs=["ManifoldGaussian.__init__", "ManifoldGaussian.update", "ManifoldGaussian.copy", "ManifoldGaussian.__deepcopy__", "Variable.update"])
def construct(k):
    """mean variables, degrees of freedom and precision stay consistent."""
    gs = [G(n) for n in ("SE2", "Point3", "SO3")]
    ts = [g.elem(k, f"m{i}") for i, g in enumerate(gs)]
    us = [g.elem(k, f"n{i}") for i, g in enumerate(gs)]
    n = sum(g.dof for g in gs)
    P = sym_matrix(k, "P", n)
    Q = sym_matrix(k, "Q", n)
    m = [g.wrap(t.clone()) for g, t in zip(gs, ts)]
    ga = ManifoldGaussian(m, precision=P)
    k.same("dof", ga.dof, n)
    k.eq("precision", ga.precision, P, ctol=0)
    k.same("default name differs", ga.name != ManifoldGaussian(m, precision=P).name, True)
    # a copy equals the original and is independent of it
    for c in (ga.copy(new_name="other"), copy.deepcopy(ga)):
        k.same("copy types", [type(v) for v in c.mean], [g.cls for g in gs])
        k.same("copy shares no variable", any(a is b for a in c.mean for b in ga.mean), False)
        for a, t in zip(c.mean, ts):
            k.eq("copy mean", a.tensor, t, ctol=0)
        k.eq("copy precision", c.precision, P, ctol=0)
    k.same("copy names", (ga.copy(new_name="other").name, copy.deepcopy(ga).name), ("other", ga.name + "_copy"))
    c = ga.copy()
    new = [g.wrap(t.clone()) for g, t in zip(gs, us)]
    ga.update(new, Q)
    for v, t, w in zip(ga.mean, us, m):
        k.eq("updated mean", v.tensor, t, ctol=0)
        k.same("same variable object", v is w, True)
    k.eq("updated precision", ga.precision, Q, ctol=0)
    for a, t in zip(c.mean, ts):
        k.eq("copy keeps its mean", a.tensor, t, ctol=0)
    k.eq("copy keeps its precision", c.precision, P, ctol=0)
    # also when one of them is changed in place
    for nm, d in (("copy", ga.copy()), ("deepcopy", copy.deepcopy(ga))):
        d.precision[:, 0] = 2 * d.precision[:, 0] + 1
        for v in d.mean:
            v.tensor[:, 0] = 2 * v.tensor[:, 0] + 1
        k.eq(f"{nm} edited in place/precision", ga.precision, Q, ctol=0)
        for v, t in zip(ga.mean, us):
            k.eq(f"{nm} edited in place/mean", v.tensor, t, ctol=0)
    c.update([g.wrap(t.clone()) for g, t in zip(gs, ts)], P)
    for v, t in zip(ga.mean, us):
        k.eq("original keeps its mean", v.tensor, t, ctol=0)
    # no precision given: the identity per batch element
    d = ManifoldGaussian(m)
    k.eq("default precision", d.precision, torch.eye(n, dtype=k.dtype).expand(k.B, n, n))


@contract("C25", "rejected", mode="con", con=(3,), funcs=["ManifoldGaussian.update", "local_gaussian"])
def rejected(k):
    """an invalid mean or precision raises and leaves the Gaussian as it was."""
    gs = [G(n) for n in ("SE2", "Vector3" if False else "Point3")]
    n = sum(g.dof for g in gs)
    ts = [g.elem(k, f"m{i}") for i, g in enumerate(gs)]
    us = [g.elem(k, f"n{i}") for i, g in enumerate(gs)]
    P, Q = spd(k, "P", n), spd(k, "Q", n)
    new = [g.wrap(t) for g, t in zip(gs, us)]
    skew = Q.clone()
    skew[-1, 0, 1] += 1
    bad = {
        "too few means": ([new[0]], Q),
        "too many means": (new + [new[0]], Q),
        "wrong mean shape": ([new[0], gs[0].wrap(us[0])], Q),
        "wrong first mean shape": ([gs[1].wrap(us[1]), new[1]], Q),
        "wrong mean dtype": ([new[0], gs[1].cls(tensor=us[1].float())], Q),
        "precision too small": (new, Q[:, :-1, :-1]),
        "precision not square": (new, Q[:, :-1]),
        "precision of another batch": (new, torch.cat([Q, Q])),
        "precision dtype": (new, Q.float()),
        "precision not symmetric": (new, skew),
    }
    for nm, (mean, prec) in bad.items():
        ga = ManifoldGaussian([g.wrap(t.clone()) for g, t in zip(gs, ts)], precision=P)
        k.raises(nm, lambda: ga.update(mean, prec), ValueError)
        for v, t in zip(ga.mean, ts):
            k.eq(f"{nm}/mean as it was", v.tensor, t, ctol=0)
        k.eq(f"{nm}/precision as it was", ga.precision, P, ctol=0)
    two = ManifoldGaussian(new, precision=Q)
    k.raises("local of two variables", lambda: local_gaussian(new[0], two), ValueError)
    one = ManifoldGaussian([new[0]])
    k.raises("local of another class", lambda: local_gaussian(G("SO3").wrap(G("SO3").elem(k, "r")), one), ValueError)
    f = ManifoldGaussian([g.wrap(t.clone()) for g, t in zip(gs, ts)], precision=P)
    f.to(torch.float32)
    k.same("moved", [v.dtype for v in f.mean] + [f.precision.dtype, f.dtype], [torch.float32] * 4)
