"""C08: cost weights scale errors and Jacobians by the same matrix."""
import torch
import theseus as th
from theseus.core.cost_function import masked_jacobians
from theseus.core.variable import masked_variables
from dv.run import contract

INFO = dict(level="proof")


class Poly(th.CostFunction):
    """a small non-linear cost with two optimisation variables and one auxiliary
    one; calls counts evaluated rows."""

    def __init__(self, x, y, a, w, name=None):
        super().__init__(w, name=name)
        self.x, self.y, self.a = x, y, a
        self.register_optim_vars(["x", "y"])
        self.register_aux_vars(["a"])

    def dim(self):
        return 2

    def error(self):
        x, y, a = self.x.tensor, self.y.tensor, self.a.tensor
        return torch.stack([x[:, 0] * y[:, 1] + a[:, 0], x[:, 1] * x[:, 1] - y[:, 2] * a[:, 0]], dim=1)

    def jacobians(self):
        x, y, a = self.x.tensor, self.y.tensor, self.a.tensor
        z, o = torch.zeros_like(x[:, 0]), a[:, 0]
        J1 = torch.stack([torch.stack([y[:, 1], z], dim=1), torch.stack([z, 2 * x[:, 1]], dim=1)], dim=1)
        J2 = torch.stack([torch.stack([z, x[:, 0], z], dim=1), torch.stack([z, z, -o], dim=1)], dim=1)
        return [J1, J2], self.error()

    def _copy_impl(self, new_name=None):
        return Poly(self.x.copy(), self.y.copy(), self.a.copy(), self.weight.copy(), name=new_name)


def poly(k, w, masking=False):
    x, y, a = k.real("x", 2), k.real("y", 3), k.real("a", 1)
    cf = Poly(th.Vector(tensor=x, name="vx"), th.Vector(tensor=y, name="vy"), th.Vector(tensor=a, name="va"), w)
    cf._supports_masking = masking
    return cf, (x, y, a)


def check_weight(k, nm, w, W, e, Js):
    """every public route applies the same matrix W (B or 1, n, n)."""
    e0, J0 = e.clone(), [j.clone() for j in Js]
    We = (W @ e.unsqueeze(2)).squeeze(2)
    k.eq(f"{nm}/weight_error", w.weight_error(e), We)
    J, ew = w.weight_jacobians_and_error(Js, e)
    k.eq(f"{nm}/error of the joint call", ew, We)
    k.same(f"{nm}/count", len(J), len(Js))
    for i, (a, b) in enumerate(zip(J, Js)):
        k.eq(f"{nm}/J[{i}]", a, W @ b)
    k.eq(f"{nm}/error operand unchanged", e, e0, ctol=0)
    for i, (a, b) in enumerate(zip(Js, J0)):
        k.eq(f"{nm}/J operand {i} unchanged", a, b, ctol=0)


def both_batches(t1):
    """the same weight as one shared row (1, ...)"""
    return t1.unsqueeze(0)


def opt_zero(k, nm, *shape, batched=True):
    """weights that may be exactly zero."""
    s = k.real(nm, *shape, batched=batched)
    z = k.real(nm + "z", *shape, batched=batched)
    return torch.where(z > 0.4, s, torch.zeros_like(s))


@contract("C08", "scale", funcs=["ScaleCostWeight.weight_error", "ScaleCostWeight.weight_jacobians_and_error", "ScaleCostWeight.is_zero"])
def scale(k):
    e, J1, J2 = k.real("e", 3), k.real("J1", 3, 2), k.real("J2", 3, 4)
    for nm, s in (("batched", opt_zero(k, "s", 1)), ("shared", both_batches(opt_zero(k, "s1", 1, batched=False))), ("flat", opt_zero(k, "s2", 1).view(-1))):
        s0 = s.clone()
        w = th.ScaleCostWeight(s)
        W = s.view(-1, 1, 1) * torch.eye(3, dtype=k.dtype)
        check_weight(k, nm, w, W, e, [J1, J2])
        k.true(f"{nm}/is_zero", w.is_zero() == (s.view(-1) == 0))
        k.same(f"{nm}/is_zero shape", tuple(w.is_zero().shape), (s.shape[0],))
        k.eq(f"{nm}/weight unchanged", s, s0, ctol=0)
    w = th.ScaleCostWeight(2.5)
    check_weight(k, "float", w, torch.eye(3, dtype=k.dtype).unsqueeze(0) * 2.5, e, [J1, J2])


@contract("C08", "diagonal", funcs=["DiagonalCostWeight.weight_error", "DiagonalCostWeight.weight_jacobians_and_error", "DiagonalCostWeight.is_zero"])
def diagonal(k):
    e, J1, J2 = k.real("e", 3), k.real("J1", 3, 2), k.real("J2", 3, 4)
    for nm, s in (("batched", opt_zero(k, "s", 3)), ("shared", both_batches(opt_zero(k, "s1", 3, batched=False))), ("one dimensional", opt_zero(k, "s2", 3, batched=False))):
        s0 = s.clone()
        w = th.DiagonalCostWeight(s)
        W = torch.diag_embed(s.view(-1, 3))
        check_weight(k, nm, w, W, e, [J1, J2])
        z = s.view(-1, 3) == 0
        k.true(f"{nm}/is_zero", w.is_zero() == (z[:, 0] & z[:, 1] & z[:, 2]))
        k.same(f"{nm}/is_zero shape", tuple(w.is_zero().shape), (s.view(-1, 3).shape[0],))
        k.eq(f"{nm}/weight unchanged", s, s0, ctol=0)
    w = th.DiagonalCostWeight([1.0, 0.0, 3.0])
    check_weight(k, "list", w, torch.diag(torch.tensor([1.0, 0.0, 3.0], dtype=k.dtype)).unsqueeze(0), e, [J1, J2])


def _gp(d):
    @contract("C08", f"gp/{d}", funcs=["GPCostWeight._compute_cost_weight", "GPCostWeight.weight_error", "GPCostWeight.weight_jacobians_and_error", "GPCostWeight.is_zero"], budget=90, con=(8, 1, 3))
    def gp(k):
        """W'W is the inverse process noise covariance of the time step, for
        every positive definite Qc_inv = G G' (G lower triangular)."""
        n = 2 * d
        e, J1 = k.real("e", n), k.real("J1", n, 2)
        for nm, bq, bt in (("both batched", True, True), ("one Qc", False, True), ("one dt", True, False), ("shared", False, False)):
            dg, lo, r = k.pos("dg" + nm, d, batched=bq), k.real("lo" + nm, max(1, d * (d - 1) // 2), batched=bq), k.pos("r" + nm, 1, batched=bt)
            if not bq:
                dg, lo = dg.unsqueeze(0), lo.unsqueeze(0)
            if not bt:
                r = r.unsqueeze(0)
            z = torch.zeros_like(dg[:, 0])
            rows, c = [], 0
            for i in range(d):
                row = []
                for j in range(d):
                    if i == j:
                        row.append(dg[:, i])
                    elif j < i:
                        row.append(lo[:, c])
                        c += 1
                    else:
                        row.append(z)
                rows.append(torch.stack(row, dim=1))
            Gm = torch.stack(rows, dim=1)
            Qc = Gm @ Gm.transpose(1, 2)
            dt = r * r
            Q0, dt0 = Qc.clone(), dt.clone()
            with k.explicit_linalg():
                w = th.eb.GPCostWeight(Qc, dt)
                e0, Jc = e.clone(), J1.clone()
                I = torch.eye(n, dtype=k.dtype)
                # recover W column by column through the public route
                Wc = torch.stack([w.weight_error(I[j].expand(e.shape[0], -1)) for j in range(n)], dim=2)
                we = w.weight_error(e)
                J, ew = w.weight_jacobians_and_error([J1, I.expand(e.shape[0], -1, -1)], e)
                k.same(f"{nm}/is_zero shape", tuple(w.is_zero().shape), (k.B if bq or bt else 1,))
                k.true(f"{nm}/is_zero", ~w.is_zero())
            t = dt.view(-1, 1, 1)
            P = torch.cat([torch.cat([12 / t**3 * Qc, -6 / t**2 * Qc], dim=2), torch.cat([-6 / t**2 * Qc, 4 / t * Qc], dim=2)], dim=1)
            k.eq(f"{nm}/W'W = inverse covariance", Wc.transpose(1, 2) @ Wc, P.expand(e.shape[0], -1, -1))
            k.eq(f"{nm}/linear", we, (Wc @ e.unsqueeze(2)).squeeze(2))
            k.eq(f"{nm}/joint error", ew, we)
            k.eq(f"{nm}/J", J[0], Wc @ J1)
            k.eq(f"{nm}/same W", J[1], Wc)
            k.eq(f"{nm}/operands unchanged", torch.cat([e, J1.reshape(-1, 2 * n)], dim=1), torch.cat([e0, Jc.reshape(-1, 2 * n)], dim=1), ctol=0)
            k.eq(f"{nm}/Qc unchanged", Qc, Q0, ctol=0)
            k.eq(f"{nm}/dt unchanged", dt, dt0, ctol=0)


for _d in (1, 2, 3):
    _gp(_d)


@contract("C08", "cost function", funcs=["CostFunction.weighted_error", "CostFunction.weighted_jacobians_error"])
def cost(k):
    for nm, W in (("scale", th.ScaleCostWeight(opt_zero(k, "s", 1))), ("diagonal", th.DiagonalCostWeight(opt_zero(k, "d", 2))), ("shared diagonal", th.DiagonalCostWeight(both_batches(opt_zero(k, "d1", 2, batched=False))))):
        M = (W.scale.tensor * torch.ones(1, 2, dtype=k.dtype)) if nm == "scale" else W.diagonal.tensor
        cf, ts = poly(k, W)
        e = cf.error()
        k.eq(f"{nm}/weighted_error", cf.weighted_error(), M * e)
        (J, _), (Jw, ew) = cf.jacobians(), cf.weighted_jacobians_error()
        k.eq(f"{nm}/error with Jacobians", ew, M * e)
        for i in range(2):
            k.eq(f"{nm}/J[{i}]", Jw[i], M.unsqueeze(2) * J[i])
        for i, (v, t) in enumerate(zip((cf.x, cf.y, cf.a), ts)):
            k.eq(f"{nm}/variable {i} unchanged", v.tensor, t, ctol=0)


@contract("C08", "masked", con=(12, 2, 1, 5), funcs=["masked_jacobians", "masked_variables", "CostFunction.weighted_jacobians_error"])
def masked(k):
    """skipping the rows whose weight is zero gives the unmasked result."""
    for nm, W in (("scale", th.ScaleCostWeight(opt_zero(k, "s", 1))), ("diagonal", th.DiagonalCostWeight(opt_zero(k, "d", 2)))):
        cf, ts = poly(k, W, masking=True)
        cu, _ = poly(k, W)
        J, e = cf.weighted_jacobians_error()
        Ju, eu = cu.weighted_jacobians_error()
        k.eq(f"{nm}/error", e, eu)
        for i in range(2):
            k.eq(f"{nm}/J[{i}]", J[i], Ju[i])
        for i, (v, t) in enumerate(zip((cf.x, cf.y, cf.a), ts)):
            k.same(f"{nm}/variable {i} restored (same tensor)", v.tensor is t, True)
            k.eq(f"{nm}/variable {i} restored", v.tensor, t, ctol=0)
    m = k.real("m", 1)[:, 0] > 0
    cf, ts = poly(k, th.ScaleCostWeight(1.0))
    Jm, em = masked_jacobians(cf, m)
    J, e = cf.jacobians()
    z = m.unsqueeze(1)
    k.eq("mask/error", em, torch.where(z, e, torch.zeros_like(e)))
    for i in range(2):
        k.eq(f"mask/J[{i}]", Jm[i], torch.where(z.unsqueeze(2), J[i], torch.zeros_like(J[i])))


@contract("C08", "built-in masked", mode="con", con=(6, 3), funcs=["masked_jacobians", "Between/Local jacobians"])
def builtin(k):
    from .groups import ALL, G

    for name in ALL:
        g = G(name)
        a, b, m = (g.elem(k, n + name) for n in "abm")
        W = th.DiagonalCostWeight(opt_zero(k, "w" + name, g.dof))
        for masking in (True, False):
            cf = th.Between(g.wrap(a), g.wrap(b), g.wrap(m), W)
            cf._supports_masking = masking
            r = cf.weighted_jacobians_error()
            if masking:
                r0 = r
        for i in range(2):
            k.eq(f"{name}/J[{i}]", r0[0][i], r[0][i])
        k.eq(f"{name}/error", r0[1], r[1])


@contract("C08", "rejected", mode="con", con=(3,), funcs=["ScaleCostWeight.__init__", "DiagonalCostWeight.__init__", "GPCostWeight.__init__"])
def rejected(k):
    k.raises("scale matrix", lambda: th.ScaleCostWeight(k.real("a", 2)), ValueError)
    k.raises("diagonal batch of matrices", lambda: th.DiagonalCostWeight(k.real("b", 2, 2)), ValueError)
    k.raises("dt <= 0", lambda: th.eb.GPCostWeight(torch.eye(2, dtype=k.dtype), -torch.ones(1, dtype=k.dtype)), ValueError)
    k.raises("not positive definite", lambda: th.eb.GPCostWeight(-torch.eye(2, dtype=k.dtype), torch.ones(1, dtype=k.dtype)), ValueError)
    k.raises("not square", lambda: th.eb.GPCostWeight(torch.ones(2, 3, dtype=k.dtype), torch.ones(1, dtype=k.dtype)), ValueError)
