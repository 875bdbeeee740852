"""C21: forward kinematics and its Jacobians match the robot description."""
import contextlib
import itertools
import math
import os
import random
import tempfile
import warnings
from types import SimpleNamespace as NS
from unittest import mock

import numpy as np
import torch
import theseus as th  # noqa: F401
import torchkin
from torchkin import forward_kinematics as fk_mod
from torchkin import joint as joint_mod
from torchkin import robot as robot_mod
from dv.loops import step
from dv.run import contract
from dv.symt import SymTensor
from .groups import mat, skew

INFO = dict(
    level="proof",
    trusted=["the XML parser of the description (urdf_parser_py) is external: descriptions are given to Robot.from_urdf_file as parsed objects in the proofs, as files in the bounded runs",
             "in the proofs about trees the exponential of a rotation vector is any rotation whose derivative along its own direction is R hat(a), which the contract of the revolute joint proves for the real code"],
    assumptions=["axes have unit length (as the URDF format requires); the structures of the trees are enumerated, for them values and batch size are unconstrained"],
)


# ---- specification -----------------------------------------------------------
def about(n, t):
    """rotation by the angles t (B,) about the unit vector n (B,3)."""
    c, s = torch.cos(t)[:, None, None], torch.sin(t)[:, None, None]
    e = torch.eye(3, dtype=t.dtype)
    return c * e + s * skew(n) + (1 - c) * n.unsqueeze(2) * n.unsqueeze(1)


def times(a, b):
    """product of two 3x4 transforms."""
    return torch.cat([a[:, :, :3] @ b[:, :, :3], a[:, :, :3] @ b[:, :, 3:] + a[:, :, 3:]], dim=2)


def hat(v):
    return torch.cat([skew(v[:, 3:]), v[:, :3].unsqueeze(-1)], dim=-1)


def twist(v, T):
    """hat(v) T, the velocity of a pose moving with the spatial twist v."""
    return torch.cat([skew(v[:, 3:]) @ T[:, :, :3], skew(v[:, 3:]) @ T[:, :, 3:] + v[:, :3].unsqueeze(-1)], dim=2)


def along(T, v):
    """T hat(v), the velocity of a pose moving with the body twist v."""
    return torch.cat([T[:, :, :3] @ skew(v[:, 3:]), T[:, :, :3] @ v[:, :3].unsqueeze(-1)], dim=2)


def rpy_matrix(rpy):
    """Rz(yaw) Ry(pitch) Rx(roll) of a (B,3) tensor."""
    def r(i):
        c, s = torch.cos(rpy[:, i]), torch.sin(rpy[:, i])
        o, z = torch.ones_like(c), torch.zeros_like(c)
        return mat([[[o, z, z], [z, c, -s], [z, s, c]], [[c, z, s], [z, o, z], [-s, z, c]], [[c, -s, z], [s, c, z], [z, z, o]]][i])
    return r(2) @ r(1) @ r(0)


def axis_of(k, name):
    return k._emit(name, np.array(k.unit(name + "_u", 3), dtype=object), batched=False)


def origin_of(k, name):
    return k._emit(name, np.concatenate([k.quat_to_R(k.unit(name + "_q", 4)), k.real(name + "_p", 3, 1, batched=False).numpy() if not k.symbolic else k._arr(k.real(name + "_p", 3, 1, batched=False))], axis=1), batched=False)


TOL = {torch.float64: 1.3e-8, torch.float32: 1.1e-7}


# ---- one joint ---------------------------------------------------------------
def check_inputs(k, j, q):
    k.raises("no input", lambda: j.relative_pose(), ValueError)
    k.raises("two inputs", lambda: j.relative_pose(q, q), ValueError)
    k.raises("shape of the input", lambda: j.relative_pose(torch.zeros(2, 2, dtype=k.dtype)), ValueError)


@contract("C21", "revolute joint", funcs=["RevoluteJoint", "_RevoluteJointImpl"], dtypes=("float64", "float32"))
def revolute(k):
    """a rotation about the axis, placed at the origin; its derivative is P hat(axis)."""
    f32 = k.dtype == torch.float32
    q, n, o = k.signed_angle("q"), axis_of(k, "n"), k.real("o", 3, 4, batched=False).unsqueeze(0)
    j0 = torchkin.joint.RevoluteJoint("j", n, id=3, dtype=k.dtype)
    j = torchkin.joint.RevoluteJoint("j", n, id=3, origin=o)
    k.eq("axis", j.axis[:, 0], torch.cat([0 * n, n]))
    want = about(n.unsqueeze(0), q[:, 0])
    for x, nm in ((q, "column"), (q[:, 0], "vector")):
        P = j0.relative_pose(x)
        k.eq(f"rotation ({nm})", P[:, :, :3], want, tol=k.sel(TOL), ctol=3e-6 if f32 else None)
        k.eq(f"no translation ({nm})", P[:, :, 3], 0 * P[:, :, 3])
        k.eq(f"placed at the origin ({nm})", j.relative_pose(x), times(o, P), ctol=1e-5 if f32 else None)
    q = k.signed_angle("p", zero=False)
    d = k.D(lambda x: j0.relative_pose(x), q, torch.ones_like(q))
    k.eq("derivative", d, along(j0.relative_pose(q), j0.axis.T), tol=k.sel({torch.float64: 7e-6, torch.float32: 3e-5}), ctol=1e-5 if not f32 else 3e-2)
    check_inputs(k, j, q)


@contract("C21", "prismatic joint", funcs=["PrismaticJoint", "_PrismaticJointImpl"], dtypes=("float64", "float32"))
def prismatic(k):
    q, n, o = k.real("q", 1), k.real("n", 3, batched=False), k.real("o", 3, 4, batched=False).unsqueeze(0)
    j = torchkin.joint.PrismaticJoint("j", n, id=3, origin=o)
    k.eq("axis", j.axis[:, 0], torch.cat([n, 0 * n]))
    M = torch.cat([torch.eye(3, dtype=k.dtype).expand(q.shape[0], 3, 3), q.unsqueeze(2) * n.view(1, 3, 1)], dim=2)
    for x, nm in ((q, "column"), (q[:, 0], "vector")):
        P = j.relative_pose(x)
        k.eq(f"pose ({nm})", P, times(o, M), ctol=1e-5 if k.dtype == torch.float32 else None)
    k.eq("derivative", k.D(lambda x: j.relative_pose(x), q, torch.ones_like(q)), along(P, j.axis.T), ctol=1e-2 if k.dtype == torch.float32 else None)
    check_inputs(k, j, q)


@contract("C21", "axis-aligned joints", funcs=["RevoluteJointX", "RevoluteJointY", "RevoluteJointZ", "PrismaticJointX", "PrismaticJointY", "PrismaticJointZ"], dtypes=("float64", "float32"))
def aligned(k):
    """the axis-aligned classes are the general ones with that axis."""
    q, o = k.real("q", 1), k.real("o", 3, 4, batched=False).unsqueeze(0)
    c = 1e-5 if k.dtype == torch.float32 else None
    for i, ax in enumerate("XYZ"):
        e = torch.eye(3, dtype=k.dtype)[i]
        for org in (None, o):
            w = o if org is not None else torch.eye(3, 4, dtype=k.dtype).unsqueeze(0)
            kw = dict(origin=o) if org is not None else dict(dtype=k.dtype)
            nm = f"{ax} {'moved' if org is not None else 'plain'}"
            j = getattr(joint_mod, "RevoluteJoint" + ax)("j", 3, **kw)
            p = getattr(joint_mod, "PrismaticJoint" + ax)("p", 4, **kw)
            k.same(f"identity {nm}", (j.name, j.id, j.dof, p.name, p.id, p.dof), ("j", 3, 1, "p", 4, 1))
            k.eq(f"revolute axis {nm}", j.axis[:, 0], torch.cat([0 * e, e]))
            k.eq(f"prismatic axis {nm}", p.axis[:, 0], torch.cat([e, 0 * e]))
            R = about(e.unsqueeze(0), q[:, 0])
            M = torch.cat([torch.eye(3, dtype=k.dtype).expand(q.shape[0], 3, 3), q.unsqueeze(2) * e.view(1, 3, 1)], dim=2)
            for x, sh in ((q, "column"), (q[:, 0], "vector")):
                k.eq(f"revolute {nm} {sh}", j.relative_pose(x), torch.cat([w[:, :, :3] @ R, w[:, :, 3:].expand(q.shape[0], 3, 1)], dim=2), ctol=c)
                k.eq(f"prismatic {nm} {sh}", p.relative_pose(x), times(w, M), ctol=c)
            check_inputs(k, j, q)


@contract("C21", "fixed joint", funcs=["FixedJoint"])
def fixed(k):
    o = k.real("o", 3, 4, batched=False).unsqueeze(0)
    j = joint_mod.FixedJoint("j", id=2, origin=o)
    k.eq("pose", j.relative_pose(), o)
    k.same("no freedom", (j.dof, tuple(j.axis.shape)), (0, (6, 0)))
    k.eq("default origin", joint_mod.FixedJoint("j", dtype=k.dtype).relative_pose()[0], torch.eye(3, 4, dtype=k.dtype))
    k.raises("inputs", lambda: j.relative_pose(o), ValueError)


# ---- descriptions ------------------------------------------------------------
def load(k, model):
    with mock.patch.object(robot_mod.urdf.URDF, "from_xml_file", lambda f: model):
        return torchkin.Robot.from_urdf_file("x", dtype=k.dtype)


@contract("C21", "origin and axis of a described joint", funcs=["Robot.from_urdf_file"], dtypes=("float64", "float32"))
def described(k):
    """every combination of present and absent translation, rotation and axis."""
    c = 1e-5 if k.dtype == torch.float32 else None
    for t in ("revolute", "continuous", "prismatic", "fixed"):
        for h in itertools.product((0, 1), repeat=3):
            nm = f"{t}{h}"
            xyz, rpy, ax = [k.real(f"{x}", 3, batched=False) for x in ("xyz", "rpy", "ax")]
            org = NS(xyz=xyz if h[0] else None, rpy=rpy if h[1] else None)
            m = NS(name="r", links=[NS(name="b"), NS(name="a")], get_root=lambda: "a",
                   joints=[NS(name="j", type=t, parent="a", child="b", origin=org if h != (0, 0, 1) else None, axis=ax if h[2] else None)])
            r = load(k, m)
            j = r.joint_map["j"]
            k.same("names " + nm, (r.name, j.name, r.joints[0] is j, [x.name for x in r.links], j.parent_link.name, j.child_link.name, r.dof), ("r", "j", True, ["a", "b"], "a", "b", int(t != "fixed")))
            k.same("dtype " + nm, (r.dtype, j.dtype, j.origin.dtype), (k.dtype,) * 3)
            k.eq("translation " + nm, j.origin[0, :, 3], xyz if h[0] else 0 * xyz)
            k.eq("rotation " + nm, j.origin[:, :, :3], rpy_matrix(rpy.unsqueeze(0)) if h[1] else torch.eye(3, dtype=k.dtype).unsqueeze(0), ctol=c)
            if t != "fixed":
                e = ax if h[2] else torch.eye(3, dtype=k.dtype)[0]
                k.eq("axis " + nm, j.axis[:, 0], torch.cat([e, 0 * e] if t == "prismatic" else [0 * e, e]))
    for t in ("planar", "floating", "unknown"):
        m.joints[0].type = t
        k.raises("not supported: " + t, lambda: load(k, m), ValueError)


# ---- trees -------------------------------------------------------------------
def quat_of(w):
    """unit quaternion of a rotation vector (numeric)."""
    t = torch.linalg.norm(w, dim=1, keepdim=True)
    return torch.cat([torch.cos(t / 2), 0.5 * torch.sinc(t / (2 * math.pi)) * w], dim=1)


@contextlib.contextmanager
def exp_by_contract(k):
    """symbolic side: the exponential is some rotation (equal vectors, equal rotations)
    whose velocity along its own direction is R hat(velocity)."""
    if not k.symbolic:
        yield
        return
    from dv import expr as X
    seen = {}

    def tangent(args, v, outs):
        q, w = outs[0], v[0]
        d = torch.stack([-(q[:, 1:] * w).sum(1), q[:, 0] * w[:, 0] + q[:, 2] * w[:, 2] - q[:, 3] * w[:, 1],
                         q[:, 0] * w[:, 1] + q[:, 3] * w[:, 0] - q[:, 1] * w[:, 2], q[:, 0] * w[:, 2] + q[:, 1] * w[:, 1] - q[:, 2] * w[:, 0]], dim=1)
        return [0.5 * d]

    def exp(x):
        q = k.opaque("exp", lambda w: [quat_of(w)], [x], tangent)[0]
        vs = [e for e in k._arr(q).reshape(-1)]
        if vs[0] not in seen:
            seen[vs[0]] = True
            rhs = X.ONE
            for v in vs[1:]:
                rhs = X.sub(rhs, X.mul(v, v))
            k.dom.rules.append((vs[0], 2, rhs))
        a = np.empty((1, 3, 3), dtype=object)
        a[0] = k.quat_to_R(vs)
        return SymTensor(a, (x.shape[0], 3, 3), x.dtype)

    with mock.patch.object(joint_mod.SO3, "exp", exp):
        yield


def trees(n):
    """every tree on n links (the parent of link i comes before it) with every choice of
    moving and fixed joints."""
    for par in itertools.product(*[range(i) for i in range(1, n)]):
        for mv in itertools.product((0, 1), repeat=n - 1):
            yield par, mv


class Scene:
    """a description with the given tree, written in some order of links and joints."""

    def __init__(self, k, par, mv, rng, tag="", full=True):
        self.by_contract = False
        self.par, self.mv, n = par, mv, len(par) + 1
        kinds = ["revolute", "prismatic", "continuous"]
        at = rng.randrange(3)
        names = [f"l{i}" for i in range(n)]
        js = []
        self.axis, self.org, self.kind = {}, {}, {}
        for i in range(1, n):
            kd = kinds[(at + i) % 3] if mv[i - 1] else "fixed"
            xyz = k.real(f"{tag}xyz{i}", 3, batched=False)
            rpy = k.real(f"{tag}rpy{i}", 3, batched=False) if full else None
            ax = axis_of(k, f"{tag}ax{i}")
            R = rpy_matrix(rpy.unsqueeze(0)) if full else torch.eye(3, dtype=k.dtype).unsqueeze(0)
            self.org[i] = torch.cat([R, xyz.view(1, 3, 1)], dim=2)
            self.kind[i], self.axis[i] = kd, ax
            js.append(NS(name=f"j{i}", type=kd, parent=names[par[i - 1]], child=names[i], origin=NS(xyz=xyz, rpy=rpy), axis=None if kd == "fixed" else ax))
        ls = [NS(name=x) for x in names]
        rng.shuffle(ls)
        rng.shuffle(js)
        self.names, self.n = names, n
        self.robot = load(k, NS(name="r", links=ls, joints=js, get_root=lambda: "l0"))
        self.col = {i: self.robot.joint_map[f"j{i}"].id for i in range(1, n)}

    def path(self, i):
        """the joints whose transforms make up the pose of link i."""
        p, l = [], i
        while i:
            if i == l or not self.by_contract or self.kind[i] != "fixed":
                p.insert(0, i)
            i = self.par[i - 1]
        return p

    def rel(self, i, q):
        """transform of joint i (merged with the fixed joints before it, by contract)."""
        kd = self.kind[i]
        if self.by_contract:
            r = self.robot.joint_map[f"j{i}"].relative_pose
            return (r() if kd == "fixed" else r(q[:, self.col[i]])).expand(q.shape[0], 3, 4)
        if kd == "fixed":
            return self.org[i].expand(q.shape[0], 3, 4)
        t = q[:, self.col[i]].unsqueeze(1) * self.axis[i].unsqueeze(0)
        e = torch.eye(3, dtype=q.dtype).expand(q.shape[0], 3, 3)
        z = 0 * t.unsqueeze(2)
        M = torch.cat([e, t.unsqueeze(2)], dim=2) if kd == "prismatic" else torch.cat([joint_mod.SO3.exp(t), z], dim=2)
        return times(self.org[i], M)

    def twist(self, i):
        a = self.axis[i].unsqueeze(0)
        return torch.cat([a, 0 * a], dim=1) if self.kind[i] == "prismatic" else torch.cat([0 * a, a], dim=1)

    def pose(self, i, q):
        T = torch.eye(3, 4, dtype=q.dtype).expand(q.shape[0], 3, 4)
        for j in self.path(i):
            T = times(T, self.rel(j, q))
        return T

    def velocity(self, i, j, q):
        """derivative of the pose of link i by joint j."""
        p = self.path(i)
        if j not in p:
            return 0 * self.pose(i, q)
        T = along(self.pose(j, q), self.twist(j).expand(q.shape[0], 6))
        for m in p[p.index(j) + 1:]:
            r = self.rel(m, q)
            T = torch.cat([T[:, :, :3] @ r[:, :, :3], T[:, :, :3] @ r[:, :, 3:] + T[:, :, 3:]], dim=2)
        return T


def selections(n, rng):
    """all links, some in another order, one twice, the root, the last one alone."""
    some = rng.sample(range(n), rng.randint(1, n))
    return [None, some, [n - 1], [n - 1, 0, n - 1] if n > 1 else [0, 0]]


def fk_of(s, sel):
    return torchkin.get_forward_kinematics_fns(s.robot, None if sel is None else [s.names[i] for i in sel])


def tree_contract(n, par, budget):
    @contract("C21", f"poses of {n} links, parents {''.join(map(str, par))}", funcs=["Robot.from_urdf_file", "ForwardKinematicsFactory", "get_forward_kinematics_fns"], budget=budget, con=(3,))
    def tree(k):
        """the poses are the products of the described transforms along the path."""
        rng = random.Random(f"{n}{par}")
        for mv in itertools.product((0, 1), repeat=n - 1):
            tag = "".join(map(str, mv))
            with exp_by_contract(k):
                s = Scene(k, par, mv, rng)
                mov = [i for i in range(1, n) if mv[i - 1]]
                k.same(f"{tag} columns", (s.robot.dof, sorted(s.col[i] for i in mov)), (len(mov), list(range(len(mov)))))
                q = k.real(f"q{len(mov)}", max(len(mov), 1))[:, :len(mov)]
                truth = [s.pose(i, q) for i in range(n)]
                for c, sel in enumerate(selections(n, rng)):
                    want = [s.names.index(x.name) for x in s.robot.get_links()] if sel is None else sel
                    if sel is None:
                        k.same(f"{tag} every link", sorted(want), list(range(n)))
                    fk, jb, js = fk_of(s, sel)
                    poses = fk(q)
                    k.same(f"{tag} {sel} number", len(poses), len(want))
                    for i, P in zip(want, poses):
                        k.eq(f"{tag} {sel} pose {i}", P, truth[i])
    return tree


@contextlib.contextmanager
def joints_by_contract(k, s):
    """symbolic side: the transform of a joint is any rigid one, a function of its value
    with derivative P hat(axis) (see the contracts of the joints)."""
    if not k.symbolic:
        yield
        return
    from dv import expr as X
    seen = set()
    old = [(j, j.__dict__.get("relative_pose")) for j in s.robot.joint_map.values()]

    def pose(outs):
        q, p = outs
        vs = list(k._arr(q).reshape(-1))
        if vs[0] not in seen:
            seen.add(vs[0])
            rhs = X.ONE
            for v in vs[1:]:
                rhs = X.sub(rhs, X.mul(v, v))
            k.dom.rules.append((vs[0], 2, rhs))
        a = np.empty((1, 3, 4), dtype=object)
        a[0, :, :3], a[0, :, 3] = k.quat_to_R(vs), k._arr(p).reshape(-1)
        return SymTensor(a, (q.shape[0], 3, 4), q.dtype)

    def make(j, i):
        num = np.random.default_rng(7 * i + 1).normal(size=(4, 7))

        def values(x):  # numeric stand-in, with the derivative required
            w, v = torch.tensor(num[0, :3]), torch.tensor(num[1, :3])
            c = x * 1.3 + 0.1 * i
            return [quat_of(c * w), torch.sin(c) * v]

        def tangent(args, vel, outs):
            q, th_ = outs[0], vel[0]
            a = j.axis[:, 0]
            w = th_ * a[3:].unsqueeze(0)
            R = pose(outs)[:, :, :3]
            return [0.5 * torch.stack([-(q[:, 1:] * w).sum(1), q[:, 0] * w[:, 0] + q[:, 2] * w[:, 2] - q[:, 3] * w[:, 1],
                                       q[:, 0] * w[:, 1] + q[:, 3] * w[:, 0] - q[:, 1] * w[:, 2], q[:, 0] * w[:, 2] + q[:, 1] * w[:, 1] - q[:, 2] * w[:, 0]], dim=1),
                    (R @ (th_ * a[:3].unsqueeze(0)).unsqueeze(2)).squeeze(2)]

        def rel(*x):
            t = x[0].reshape(-1, 1) if x else torch.zeros(1, 1, dtype=k.dtype)
            if not isinstance(t, SymTensor):
                t = k.real("nothing", 1, batched=False).unsqueeze(0) * 0
            return pose(k.opaque(f"joint{i}", values, [t], tangent))
        return rel

    for i in range(1, s.n):
        j = s.robot.joint_map[f"j{i}"]
        j.relative_pose = make(j, i)
    s.by_contract = True
    try:
        yield
    finally:
        s.by_contract = False
        for j, o in old:
            del j.relative_pose


def jacobian_contract(n, par, budget):
    @contract("C21", f"Jacobians of {n} links, parents {''.join(map(str, par))}", funcs=["ForwardKinematicsFactory", "get_forward_kinematics_fns"], budget=budget, con=(3,))
    def tree(k):
        """the Jacobians are the derivatives of the poses, the gradients their products."""
        rng = random.Random(f"{n}{par}")
        for mv in itertools.product((0, 1), repeat=n - 1):
            tag = "".join(map(str, mv))
            s = Scene(k, par, mv, rng, full=not k.symbolic)
            mov = [i for i in range(1, n) if mv[i - 1]]
            q = k.real(f"q{len(mov)}", max(len(mov), 1))[:, :len(mov)]
            # products of three rotations are left to the inductive argument below
            deep = lambda i: k.symbolic and sum(mv[j - 1] for j in s.path(i)) > 2
            with joints_by_contract(k, s):
                truth = [s.pose(i, q) for i in range(n)]
                for sel in selections(n, rng)[:2]:
                    want = [s.names.index(x.name) for x in s.robot.get_links()] if sel is None else sel
                    fk, jb, js = fk_of(s, sel)
                    J, P2 = js(q)
                    Jb, P3 = jb(q)
                    for j in mov if sel is None else []:
                        e = torch.eye(len(mov), dtype=k.dtype)[s.col[j]].expand(q.shape[0], -1)
                        for i, d in zip(want, k.D(lambda x: fk(x), q, e)):
                            k.eq(f"{tag} derivative of pose {i} by {j}", d, s.velocity(i, j, q), ctol=1e-5)
                    k.same(f"{tag} {sel} number", (len(J), len(Jb), len(P2), len(P3)), (len(want),) * 4)
                    for m, i in enumerate(want):
                        k.same(f"{tag} {sel} shape {i}", (tuple(J[m].shape), tuple(Jb[m].shape)), ((q.shape[0], 6, len(mov)),) * 2)
                        k.eq(f"{tag} {sel} poses with Jacobians {i}", torch.cat([P2[m], P3[m]], dim=2), torch.cat([truth[i]] * 2, dim=2))
                        for j in mov if not deep(i) else []:
                            V = s.velocity(i, j, q)
                            k.eq(f"{tag} {sel} spatial Jacobian {i} by {j}", twist(J[m][:, :, s.col[j]], truth[i]), V)
                            k.eq(f"{tag} {sel} body Jacobian {i} by {j}", along(truth[i], Jb[m][:, :, s.col[j]]), V)
                    if mov and not any(deep(i) for i in want):
                        G = [k.real(f"g{m}", 3, 4) for m in range(len(want))]
                        g = k.vjp(lambda x: fk(x), [q], G)[0]
                        for j in mov:
                            k.eq(f"{tag} {sel} gradient by {j}", g[:, s.col[j]], sum((G[m] * s.velocity(i, j, q)).sum((1, 2)) for m, i in enumerate(want)))
    return tree


for _n, _b in ((1, 20), (2, 40), (3, 100), (4, 200)):
    for _par in sorted({p for p, _ in trees(_n)}):
        tree_contract(_n, _par, _b)
        jacobian_contract(_n, _par, _b)


# ---- trees of any depth: the argument by induction ---------------------------
@contract("C21", "spatial and body twists", funcs=["SE3.adj", "SE3.inv"])
def lemma(k):
    """moving along T hat(a) X is moving with the spatial twist Ad(T) a, and the body
    twist Ad(T^-1) v moves T as the spatial twist v does: with the contracts of the joints
    (derivative P hat(axis)) and of the steps below, the columns Ad(T) axis are the
    derivatives of every pose after the joint, whatever the tree."""
    T, X, a = k.pose3("T"), k.real("X", 3, 4), k.real("a", 6)
    S = robot_mod.SE3
    u = (S.adj(T) @ a.unsqueeze(2)).squeeze(2)
    v = along(T, a)
    k.eq("Ad(T) a", twist(u, times(T, X)), torch.cat([v[:, :, :3] @ X[:, :, :3], v[:, :, :3] @ X[:, :, 3:] + v[:, :, 3:]], dim=2))
    k.eq("Ad(T^-1) v", along(T, (S.adj(S.inv(T)) @ a.unsqueeze(2)).squeeze(2)), twist(a, T))


@contextlib.contextmanager
def products_by_contract(k):
    """symbolic side: the product of two poses is some rigid pose, a function of both."""
    if not k.symbolic:
        yield
        return
    from dv import expr as X
    seen = set()

    def values(a, b):
        R = a[:, :, :3] @ b[:, :, :3]
        p = (a[:, :, :3] @ b[:, :, 3:] + a[:, :, 3:]).squeeze(2)
        from torchlie.functional import SO3
        return [quat_of(SO3.log(R)), p]

    def compose(a, b):
        big = a if a.shape[0] != 1 else b
        ab = []
        for t in (a, b):
            if not isinstance(t, SymTensor):
                t = k.real("nothing", 1, batched=False).view(1, 1, 1) * 0 + t
            ab.append(t)
        q, p = k.opaque("product", values, ab)
        vs = list(k._arr(q).reshape(-1))
        if vs[0] not in seen:
            seen.add(vs[0])
            rhs = X.ONE
            for v in vs[1:]:
                rhs = X.sub(rhs, X.mul(v, v))
            k.dom.rules.append((vs[0], 2, rhs))
        m = np.empty((1, 3, 4), dtype=object)
        m[0, :, :3], m[0, :, 3] = k.quat_to_R(vs), k._arr(p).reshape(-1)
        return SymTensor(m, (big.shape[0], 3, 4), big.dtype)

    with mock.patch.object(fk_mod.SE3, "compose", compose):
        yield


def big_tree(rng, lo=5, hi=8):
    n = rng.randint(lo, hi)
    return [rng.randrange(max(0, i - 3), i) for i in range(1, n)], [int(rng.random() < 0.7) for _ in range(n - 1)]


def col(J, c):
    return J[:, :, c]


def larger(part):
    @contract("C21", f"larger trees {part}", funcs=["ForwardKinematicsFactory", "get_forward_kinematics_fns"], con=(3,), budget=100)
    def trees_(k):
        """random trees of five to eight links, the product of poses by contract."""
        rng = random.Random(f"larger{part}")
        for it in range(4):
            par, mv = big_tree(rng)
            n = len(par) + 1
            s = Scene(k, par, mv, rng, tag=f"t{it}", full=not k.symbolic)
            mov = [i for i in range(1, n) if mv[i - 1]]
            q = k.real(f"q{len(mov)}", max(len(mov), 1))[:, :len(mov)]
            with joints_by_contract(k, s), products_by_contract(k):
                T = {0: torch.eye(3, 4, dtype=k.dtype).expand(q.shape[0], 3, 4)}
                for i in sorted(range(1, n), key=lambda i: (s.kind[i] == "fixed", i)):
                    p = s.path(i)
                    T[i] = robot_mod.SE3.compose(T[p[-2] if len(p) > 1 else 0].clone(), s.rel(i, q)) if k.symbolic else s.pose(i, q)
                for sel in (None, rng.sample(range(n), rng.randint(1, n)), [rng.randrange(n) for _ in range(3)]):
                    want = [s.names.index(x.name) for x in s.robot.get_links()] if sel is None else sel
                    fk, jb, js = fk_of(s, sel)
                    poses, (J, P2), (Jb, P3) = fk(q), js(q), jb(q)
                    nm = f"{it} {sel}"
                    for m, i in enumerate(want):
                        k.eq(f"{nm} pose {i}", torch.cat([poses[m], P2[m], P3[m]], dim=2), torch.cat([T[i]] * 3, dim=2))
                        for j in mov:
                            t = s.twist(j).expand(q.shape[0], 6).unsqueeze(2)
                            on = j in s.path(i)
                            a = (robot_mod.SE3.adj(T[j]) @ t).squeeze(2)
                            k.eq(f"{nm} spatial {i} by {j}", col(J[m], s.col[j]), a if on else 0 * a)
                            b = (robot_mod.SE3.adj(robot_mod.SE3.inv(T[i])) @ a.unsqueeze(2)).squeeze(2)
                            k.eq(f"{nm} body {i} by {j}", col(Jb[m], s.col[j]), b if on else 0 * b)
                    if mov:
                        G = [k.real(f"g{m}", 3, 4) for m in range(len(want))]
                        g = k.vjp(lambda x: fk(x), [q], G)[0]
                        for j in mov:
                            a = (robot_mod.SE3.adj(T[j]) @ s.twist(j).expand(q.shape[0], 6).unsqueeze(2)).squeeze(2)
                            terms = [(G[m] * twist(a, T[i])).sum((1, 2)) for m, i in enumerate(want) if j in s.path(i)]
                            k.eq(f"{nm} gradient by {j}", g[:, s.col[j]], sum(terms) if terms else 0 * q[:, 0])
    return trees_


for _i in range(4):
    larger(_i)


@contract("C21", "a step of the pose loop", internal=True, funcs=["ForwardKinematicsFactory._forward_kinematics_helper"], con=(3,), budget=60)
def pose_step(k):
    """one iteration, from poses that are any rigid ones, sets the pose of its link to the
    product of its parent's and the joint's transform and leaves the others alone."""
    rng = random.Random(5)
    for it in range(6):
        par, mv = big_tree(rng, 2, 7)
        n = len(par) + 1
        s = Scene(k, par, mv, rng, tag=f"t{it}", full=False)
        r = s.robot
        q = k.real(f"q{r.dof}", max(r.dof, 1))[:, :r.dof]
        helper = fk_mod.ForwardKinematicsFactory(r)[2]
        go = step(helper, need=("poses",))
        first = go({}, q, exhausted=True)
        k.true(f"{it} leaves after the last link", first.exited)
        k.eq(f"{it} root", first.value[0], torch.eye(3, 4, dtype=k.dtype).expand(q.shape[0], 3, 4))
        k.same(f"{it} nothing else yet", [x is None for x in first.value[1:]], [True] * (n - 1))
        for l in r.links[1:]:
            i = s.names.index(l.name)
            have = {m: k.pose3(f"T{m}") for m in range(n) if m != l.id}
            st = go({"poses": [have.get(m) for m in range(n)]}, q, pick=lambda seq: l.id)
            k.true(f"{it} goes on {i}", not st.exited)
            ps = st.state["poses"]
            k.same(f"{it} others kept {i}", [m for m in have if ps[m] is not have[m]], [])
            up = r.joint_map[f"j{i}"].parent_link.id
            x = [] if s.kind[i] == "fixed" else [q[:, s.col[i]]]
            k.eq(f"{it} pose {i}", ps[l.id], times(have[up], r.joint_map[f"j{i}"].relative_pose(*x).expand(q.shape[0], 3, 4)))


@contract("C21", "a step of the Jacobian loop", internal=True, funcs=["ForwardKinematicsFactory._forward_kinematics_backward_helper"], con=(3,), budget=60)
def jac_step(k):
    """one iteration writes Ad(T) axis to the column of its joint and nothing else; the
    loop is left at the first fixed joint."""
    rng = random.Random(6)
    for it in range(4):
        par, mv = big_tree(rng, 2, 7)
        n = len(par) + 1
        s = Scene(k, par, mv, rng, tag=f"t{it}", full=False)
        r = s.robot
        go = step(fk_mod.ForwardKinematicsFactory(r)[3], need=("jposes",))
        poses = [k.pose3(f"T{m}") for m in range(n)]
        J = k.real(f"J{r.dof}", 6, max(r.dof, 1))[:, :, :r.dof]
        z = go({}, poses, exhausted=True)
        k.eq(f"{it} starts from zero", z.value, 0 * J)
        for l in r.links[1:]:
            i = s.names.index(l.name)
            st = go({"jposes": J.clone()}, poses, pick=lambda seq: l.id)
            want = [col(J, c) for c in range(r.dof)]
            if s.kind[i] != "fixed":
                k.true(f"{it} goes on {i}", not st.exited)
                want[s.col[i]] = (robot_mod.SE3.adj(poses[l.id]) @ s.twist(i).expand(J.shape[0], 6).unsqueeze(2)).squeeze(2)
            got = st.value if st.exited else st.state["jposes"]
            k.same(f"{it} shape {i}", tuple(got.shape), tuple(J.shape))
            for c in range(r.dof):
                k.eq(f"{it} column {c} after {i}", col(got, c), want[c])


@contract("C21", "a step of the gradient loop", internal=True, funcs=["ForwardKinematics.backward"], con=(3,), budget=60)
def grad_step(k):
    """one iteration adds the wrench of its link to the columns of the joints before it;
    the gradient of a joint is the product of its wrench and its twist."""
    rng = random.Random(8)
    for it in range(4):
        par, mv = big_tree(rng, 3, 7)
        n = len(par) + 1
        s = Scene(k, par, mv, rng, tag=f"t{it}", full=False)
        r = s.robot
        if not r.dof:
            continue
        F = fk_mod.ForwardKinematicsFactory(r)
        go = step(F[0].backward, need=("grad_pose",))
        J, W = k.real(f"J{r.dof}", 6, r.dof), k.real(f"W{r.dof}", 6, r.dof)
        T, G, a = k.pose3("T"), k.real("G", 3, 4), k.real("a", 6)
        ctx = NS(saved_tensors=[T] * n, poses=[T] * n, jposes=J)
        gs = [G] * n + [None]
        z = go({}, ctx, *gs, exhausted=True)
        k.eq(f"{it} starts from zero", z.value, 0 * J[:, 0])
        e = go({"grad_pose": W.clone()}, ctx, *gs, exhausted=True)
        k.eq(f"{it} product", e.value, (J * W).sum(1))
        for i in range(n):
            st = go({"grad_pose": W.clone()}, ctx, *gs, pick=lambda seq: (r.link_map[s.names[i]].id, T, G))
            k.true(f"{it} goes on {i}", not st.exited)
            d = st.state["grad_pose"] - W
            for j in range(1, n):
                if mv[j - 1]:
                    on = j in s.path(i)
                    k.eq(f"{it} wrench of {i} on {j}", (col(d, s.col[j]) * a).sum(1), (G * twist(a, T)).sum((1, 2)) if on else 0 * a[:, 0])


@contract("C21", "structure of the robot", mode="con", con=(1,), funcs=["Robot.from_urdf_file", "Robot.get_links"])
def structure(k):
    """bounded, random descriptions: names, degrees of freedom, numbering and ancestors are
    those the steps above rely on."""
    rng = random.Random(int(os.environ.get("VERIF_SEED", "1")))
    for it in range(150):
        par, mv = big_tree(rng, 1, 10)
        s = Scene(k, par, mv, rng, tag=f"t{len(par)}")
        r, n = s.robot, s.n
        k.same(f"{it} counts", (r.num_links, r.num_joints, r.dof), (n, n - 1, sum(mv)))
        k.same(f"{it} ids", ([l.id for l in r.links], [j.id for j in r.joints], r.links[0].name), (list(range(n)), list(range(n - 1)), "l0"))
        k.same(f"{it} names", (sorted(l.name for l in r.links), sorted(j.name for j in r.joints)), (sorted(s.names), sorted(f"j{i}" for i in range(1, n))))
        k.same(f"{it} fixed joints last", [j.dof for j in r.joints], [1] * sum(mv) + [0] * (n - 1 - sum(mv)))
        for i in range(1, n):
            l = r.link_map[s.names[i]]
            k.same(f"{it} joint of {i}", (l.parent_joint.name, l.parent_joint.child_link is l), (f"j{i}", True))
            k.true(f"{it} parent before {i}", l.parent_link.id < l.id)
            k.same(f"{it} moving joints before {i}", sorted(l.ancestor_non_fixed_joint_ids), sorted(s.col[j] for j in s.path(i) if mv[j - 1]))
            up, chain = l.parent_link, []
            while up is not None:
                chain.insert(0, up.name)
                up = up.parent_link
            k.same(f"{it} links before {i}", [x.name for x in l.ancestor_links], chain)
        sel = rng.sample(s.names, rng.randint(0, n))
        k.same(f"{it} selection", [l.name for l in r.get_links(sel)], sel)
        k.raises(f"{it} unknown link", lambda: r.get_links(["nobody"]), KeyError)
        q = torch.zeros(2, r.dof + 1, dtype=k.dtype)
        k.raises(f"{it} width", lambda: torchkin.get_forward_kinematics_fns(r)[0](q), ValueError)


def write(s, rng):
    """the description as a file, some default elements left out."""
    def f(t):
        return " ".join(repr(float(x)) for x in t)
    x = '<robot name="r">' + "".join(f'<link name="{l}"/>' for l in rng.sample(s.names, s.n))
    js = list(range(1, s.n))
    rng.shuffle(js)
    for i in js:
        xyz, rpy, ax = s.given[i]
        x += f'<joint name="j{i}" type="{s.kind[i]}"><parent link="{s.names[s.par[i - 1]]}"/><child link="{s.names[i]}"/>'
        if xyz is not None or rpy is not None:
            x += "<origin" + (f' xyz="{f(xyz)}"' if xyz is not None else "") + (f' rpy="{f(rpy)}"' if rpy is not None else "") + "/>"
        if s.kind[i] != "fixed" and ax is not None:
            x += f'<axis xyz="{f(ax)}"/>'
        if s.kind[i] in ("revolute", "prismatic"):
            x += '<limit lower="-1" upper="1" effort="1" velocity="1"/>'
        x += "</joint>"
    return x + "</robot>"


class FileScene(Scene):
    """a random description written to a file and read by the real parser."""

    def __init__(self, k, par, mv, rng):
        self.par, self.mv, self.n, self.by_contract = par, mv, len(par) + 1, False
        self.names = [f"l{i}" for i in range(self.n)]
        self.kind, self.axis, self.org, self.given = {}, {}, {}, {}
        for i in range(1, self.n):
            self.kind[i] = rng.choice(["revolute", "prismatic", "continuous"]) if mv[i - 1] else "fixed"
            v = lambda s: torch.tensor([rng.uniform(-s, s) for _ in range(3)], dtype=k.dtype)
            xyz, rpy, ax = [None if rng.random() < p else x for p, x in ((0.1, v(1)), (0.2, v(3)), (0.1, v(1)))]
            ax = ax / ax.norm() if ax is not None else None
            self.given[i] = xyz, rpy, ax
            R = rpy_matrix(rpy.unsqueeze(0)) if rpy is not None else torch.eye(3, dtype=k.dtype).unsqueeze(0)
            self.org[i] = torch.cat([R, (xyz if xyz is not None else torch.zeros(3, dtype=k.dtype)).view(1, 3, 1)], dim=2)
            self.axis[i] = ax if ax is not None else torch.eye(3, dtype=k.dtype)[0]
        with tempfile.TemporaryDirectory() as d:
            self.path_ = os.path.join(d, "r.urdf")
            with open(self.path_, "w") as fh:
                fh.write(write(self, rng))
            self.load(k)
        self.col = {i: self.robot.joint_map[f"j{i}"].id for i in range(1, self.n)}

    def load(self, k):
        self.robot = torchkin.Robot.from_urdf_file(self.path_, dtype=k.dtype)


@contract("C21", "described in files", mode="con", con=(2, 1), dtypes=("float64", "float32"), budget=120, funcs=["Robot.from_urdf_file", "get_forward_kinematics_fns"])
def files(k):
    """bounded, the real parser: poses, Jacobians, gradients (of poses and of Jacobians),
    vectorised calls, for random selections."""
    rng = random.Random(int(os.environ.get("VERIF_SEED", "1")) * 100 + k.B)
    t1, t2 = (2e-4, 2e-3) if k.nominal == torch.float32 else (1e-8, 1e-4)
    for it in range(25):
        par, mv = big_tree(rng, 1, 9)
        s = FileScene(k, par, mv, rng)
        n, mov = s.n, [i for i in range(1, s.n) if mv[i - 1]]
        q = k.real(f"q{it}", max(len(mov), 1), scale=1.0)[:, :len(mov)].clone()
        sel = [rng.randrange(n) for _ in range(rng.randint(1, n))]
        fk, jb, js = fk_of(s, sel)
        (J, P2), (Jb, P3), poses = js(q), jb(q), fk(q)
        for m, i in enumerate(sel):
            T = s.pose(i, q)
            for P in (poses[m], P2[m], P3[m]):
                k.eq(f"{it} pose {i}", P, T, ctol=t1)
            for j in mov:
                V = s.velocity(i, j, q)
                k.eq(f"{it} spatial {i} by {j}", twist(J[m][:, :, s.col[j]], T), V, ctol=t1 * 5)
                k.eq(f"{it} body {i} by {j}", along(T, Jb[m][:, :, s.col[j]]), V, ctol=t1 * 5)
        if mov:
            G = [k.real(f"g{it}{m}", 3, 4) for m in range(len(sel))]
            x = q.clone().requires_grad_(True)
            g = torch.autograd.grad(sum((a * b).sum() for a, b in zip(fk(x), G)), x)[0]
            for j in mov:
                k.eq(f"{it} gradient by {j}", g[:, s.col[j]], sum((G[m] * s.velocity(i, j, q)).sum((1, 2)) for m, i in enumerate(sel)), ctol=t1 * 10)
            if k.nominal == torch.float64:
                for w, f in (("spatial", js), ("body", jb)):
                    h = lambda y: sum((c * (m + 1.5)).sum((1, 2)) for m, c in enumerate(f(y)[0]))
                    x = q.clone().requires_grad_(True)
                    if not h(x).requires_grad:  # only links without moving joints before them
                        continue
                    g = torch.autograd.grad(h(x).sum(), x)[0]
                    for j in mov:
                        e = torch.zeros_like(q)
                        e[:, s.col[j]] = 1e-5
                        k.eq(f"{it} gradient of the {w} Jacobian by {j}", g[:, s.col[j]], (h(q + e) - h(q - e)) / 2e-5, ctol=t2)
                v = torch.vmap(lambda y: fk(y[None])[-1][0])(q)
                k.eq(f"{it} vectorised", v, poses[-1], ctol=t1)


@contract("C21", "robot model of the embodied module", mode="con", con=(2, 1), funcs=["UrdfRobotModel.forward_kinematics", "IdentityModel.forward_kinematics"])
def model(k):
    import theseus.embodied as emb
    rng = random.Random(3)
    for it in range(12):
        par, mv = big_tree(rng, 2, 7)
        mv[0] = 1

        class Model(FileScene):
            def load(self, k):
                self.robot = torchkin.Robot.from_urdf_file(self.path_, dtype=k.dtype)
                self.links = None if it % 3 == 0 else rng.sample(self.names, rng.randint(1, self.n))
                self.m = emb.UrdfRobotModel(self.path_, dtype=k.dtype, link_names=self.links)

        s = Model(k, par, mv, rng)
        dof = sum(mv)
        q = k.real(f"q{it}", dof)
        names = s.names if s.links is None else s.links
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            for form in (q, th.Vector(tensor=q)):
                for jac in (None, True, False):
                    d = None if jac is None else {}
                    out = s.m.forward_kinematics(form, d) if jac is None else s.m.forward_kinematics(form, d, use_body_jacobians=jac)
                    k.same(f"{it} links {jac}", (sorted(out), sorted(d or names)), (sorted(names),) * 2)
                    for nm in names:
                        i = s.names.index(nm)
                        T = s.pose(i, q)
                        k.true(f"{it} class", isinstance(out[nm], th.SE3))
                        k.eq(f"{it} pose {i} {jac}", out[nm].tensor, T, ctol=1e-8)
                        for j in range(1, s.n) if jac is not None else []:
                            if mv[j - 1]:
                                v = d[nm][:, :, s.col[j]]
                                k.eq(f"{it} Jacobian {i} by {j} {jac}", along(T, v) if jac else twist(v, T), s.velocity(i, j, q), ctol=1e-7)
            k.raises(f"{it} used dictionary", lambda: s.m.forward_kinematics(q, {"a": q}), ValueError)
            k.raises(f"{it} width", lambda: s.m.forward_kinematics(torch.zeros(1, dof + 1, dtype=k.dtype)), ValueError)
    p = th.Point2(tensor=k.real("p", 2))
    k.true("identity model", emb.IdentityModel().forward_kinematics(p)["state"] is p)
