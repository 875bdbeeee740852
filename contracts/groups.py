"""Spec-side helpers shared by the Lie-group contracts (written only with
elementary torch operations, so they run on symbolic and on real tensors)."""
import contextlib
import math

import torch

import theseus as th
from dv.symt import SymTensor


def mat(parts):
    """rows of scalars (B,) -> (B, r, c)"""
    return torch.stack([torch.stack(list(r), dim=-1) for r in parts], dim=-2)


def skew(w):
    z = torch.zeros_like(w[..., 0])
    return mat([[z, -w[..., 2], w[..., 1]], [w[..., 2], z, -w[..., 0]], [-w[..., 1], w[..., 0], z]])


def eye(n, like):
    return torch.eye(n, dtype=like.dtype).expand(like.shape[0], n, n)


class G:
    """one Lie group: class, sampling of elements, matrix representation."""

    def __init__(self, name):
        self.name = name
        self.cls = getattr(th, name)
        self.dof = {"SO2": 1, "SE2": 3, "SO3": 3, "SE3": 6, "Point2": 2, "Point3": 3}[name]

    # -- inputs
    def elem(self, k, nm):
        f = {"SO2": k.so2, "SE2": k.pose2, "SO3": k.rot, "SE3": k.pose3}.get(self.name)
        if f is None:
            return k.real(nm, self.dof)
        return f(nm)

    def tangent(self, k, nm, hi=2 * math.pi - 0.1):
        if self.name == "SO2":
            t = k.signed_angle(nm, hi)
            return t
        if self.name == "SE2":
            return k.se2_tangent(nm, hi)
        if self.name == "SO3":
            return k.aa(nm, hi)
        if self.name == "SE3":
            return k.se3_tangent(nm, hi)
        return k.real(nm, self.dof)

    def wrap(self, t):
        try:
            return self.cls(tensor=t, disable_checks=True)
        except TypeError:
            return self.cls(tensor=t)

    # -- spec matrices (homogeneous)
    def M(self, t):
        n = self.name
        if n == "SO2":
            return mat([[t[:, 0], -t[:, 1]], [t[:, 1], t[:, 0]]])
        if n == "SE2":
            o, z = torch.ones_like(t[:, 0]), torch.zeros_like(t[:, 0])
            return mat([[t[:, 2], -t[:, 3], t[:, 0]], [t[:, 3], t[:, 2], t[:, 1]], [z, z, o]])
        if n == "SO3":
            return t
        if n == "SE3":
            last = torch.zeros_like(t[:, :1, :])
            one = torch.ones_like(t[:, 0, 0])
            z = torch.zeros_like(one)
            row = torch.stack([z, z, z, one], dim=-1).unsqueeze(1)
            return torch.cat([t, row], dim=1)
        # points: translation matrices
        d = self.dof
        o, z = torch.ones_like(t[:, 0]), torch.zeros_like(t[:, 0])
        rows = [[o if i == j else z for j in range(d)] + [t[:, i]] for i in range(d)] + [[z] * d + [o]]
        return mat(rows)

    def hat(self, v):
        n = self.name
        z = torch.zeros_like(v[:, 0])
        if n == "SO2":
            return mat([[z, -v[:, 0]], [v[:, 0], z]])
        if n == "SE2":
            return mat([[z, -v[:, 2], v[:, 0]], [v[:, 2], z, v[:, 1]], [z, z, z]])
        if n == "SO3":
            return skew(v)
        if n == "SE3":
            top = torch.cat([skew(v[:, 3:]), v[:, :3].unsqueeze(-1)], dim=-1)
            return torch.cat([top, torch.zeros_like(top[:, :1])], dim=1)
        d = self.dof
        return mat([[z] * d + [v[:, i]] for i in range(d)] + [[z] * (d + 1)])

    def basis(self, like, j):
        """unit tangent vector e_j, (B, dof)"""
        z = torch.zeros_like(like[..., 0].reshape(like.shape[0], -1)[:, 0])
        o = torch.ones_like(z)
        return torch.stack([o if i == j else z for i in range(self.dof)], dim=-1)

    def dtensor(self, t, v):
        """velocity of the stored tensor when the element moves along X*exp(eps*v)."""
        n = self.name
        if n == "SO2":
            return torch.stack([-t[:, 1] * v[:, 0], t[:, 0] * v[:, 0]], dim=-1)
        if n == "SE2":
            c, s = t[:, 2], t[:, 3]
            return torch.stack([c * v[:, 0] - s * v[:, 1], s * v[:, 0] + c * v[:, 1], -s * v[:, 2], c * v[:, 2]], dim=-1)
        if n == "SO3":
            return t @ skew(v)
        if n == "SE3":
            R = t[:, :, :3]
            return torch.cat([R @ skew(v[:, 3:]), R @ v[:, :3].unsqueeze(-1)], dim=-1)
        return v

    def Minv(self, M):
        """inverse of a group matrix."""
        if self.name in ("SO2", "SO3"):
            return M.transpose(1, 2)
        n = M.shape[1] - 1
        Rt = M[:, :n, :n].transpose(1, 2)
        top = torch.cat([Rt, -(Rt @ M[:, :n, n:])], dim=-1)
        return torch.cat([top, M[:, n:]], dim=1)


LIE = ["SO2", "SE2", "SO3", "SE3"]
ALL = ["Point2", "Point3"] + LIE


@contextlib.contextmanager
def log_by_contract(k):
    """replace the group logarithms by its contract: a function of the element whose
    derivative along X exp(t v) is J v for the Jacobian J it reports (C02, C03)."""
    saved = []

    def patch(name):
        g = G(name)
        orig = g.cls._log_map_impl

        def real(t):
            J = []
            return orig(g.wrap(t), J), J[0]

        def tangent(args, vel, outs):
            x, dx = args[0], vel[0]
            if name in ("SO2", "SE2"):
                c, s, dc, ds = x[:, -2], x[:, -1], dx[:, -2], dx[:, -1]
                xi = [c * ds - s * dc]
                if name == "SE2":
                    xi = [c * dx[:, 0] + s * dx[:, 1], c * dx[:, 1] - s * dx[:, 0]] + xi
                return [(outs[1] @ torch.stack(xi, dim=1).unsqueeze(-1)).squeeze(-1), None]
            R = x[:, :, :3]
            S = R.transpose(1, 2) @ dx[:, :, :3]
            xi = torch.stack([S[:, 2, 1] - S[:, 1, 2], S[:, 0, 2] - S[:, 2, 0], S[:, 1, 0] - S[:, 0, 1]], dim=1) / 2
            if name == "SE3":
                xi = torch.cat([(R.transpose(1, 2) @ dx[:, :, 3:]).squeeze(-1), xi], dim=1)
            return [(outs[1] @ xi.unsqueeze(-1)).squeeze(-1), None]

        def impl(self, jacobians=None):
            if not isinstance(self.tensor, SymTensor):
                return orig(self, jacobians)
            out, J = k.opaque(name + ".log", real, [self.tensor], tangent)
            if jacobians is not None:
                self._check_jacobians_list(jacobians)
                jacobians.append(J)
            return out

        saved.append((g.cls, orig))
        g.cls._log_map_impl = impl

    if k.symbolic:
        for n in LIE:
            patch(n)
    try:
        yield
    finally:
        for c, o in saved:
            c._log_map_impl = o


@contextlib.contextmanager
def exp_jac_by_contract(k):
    """the Jacobian reported by the exponential map is some matrix that depends
    only on the tangent vector (proved to be its derivative in C03)."""
    saved = []

    def patch(name):
        g = G(name)
        raw = g.cls.__dict__["exp_map"]
        orig = getattr(g.cls, "exp_map")

        def real(t):
            J = []
            orig(t, J)
            return [J[0]]

        def exp_map(tangent_vector, jacobians=None):
            r = orig(tangent_vector)
            if jacobians is not None:
                jacobians.append(k.opaque(name + ".expJ", real, [tangent_vector])[0])
            return r

        saved.append((g.cls, raw))
        g.cls.exp_map = staticmethod(exp_map)

    if k.symbolic:
        for n in LIE:
            if "exp_map" in G(n).cls.__dict__:
                patch(n)
    try:
        yield
    finally:
        for c, o in saved:
            c.exp_map = o


class options:
    """torchlie.set_global_params for a while."""

    def __init__(self, **kw):
        self.kw = kw

    def __enter__(self):
        from torchlie import global_params as gp
        self.gp = gp
        self.old = {n: getattr(gp._TORCHLIE_GLOBAL_PARAMS, n) for n in self.kw}
        gp.set_global_params(self.kw)

    def __exit__(self, *a):
        self.gp.set_global_params(self.old)
