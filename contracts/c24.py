"""C24: signed distance lookups and collision costs are exact."""
import contextlib
from unittest import mock

import numpy as np
import torch
import theseus as th
import theseus.embodied.collision.signed_distance_field as sdfm
from theseus.embodied.collision.signed_distance_field import SignedDistanceField2D
from theseus.utils import gather_from_rows_cols
from dv.run import contract

INFO = dict(
    level="proof",
    assumptions=["scipy's Euclidean distance transform (occupancy maps) is external: the signed field is compared with a brute-force definition on the concrete runs only"],
)


@contextlib.contextmanager
def grid_by_contract(k, log):
    """symbolic side: the table lookup is replaced by its contract (equal cells
    give equal entries; indices must be inside the table, recorded in log)."""
    if not k.symbolic:
        yield
        return

    def lookup(data, r, c):
        log.append((r, c))
        r, c = k.resolve(r), k.resolve(c)
        return k.opaque("cell", lambda a, b: [torch.sin(1.3 * a + 0.3) * torch.cos(2.1 * b) + 0.1 * a], [r.to(k.dtype), c.to(k.dtype)],
                        lambda a, v, o: [torch.zeros_like(v[0])])[0]

    with mock.patch.object(sdfm, "gather_from_rows_cols", lookup):
        yield


H0, W0 = 5, 4


def field(k, shared):
    """a field with any origin, cell size, extent and entries."""
    o = k.real("origin", 2, batched=not shared)
    c = k.pos("cell", 1, batched=not shared)
    d = k.real("data", H0, W0, batched=not shared)
    if shared:
        o, c, d = o.unsqueeze(0), c.unsqueeze(0), d.unsqueeze(0)
    bv = 0.0 if shared else 7.25
    s = SignedDistanceField2D(th.Point2(tensor=o), c, d, sdf_boundary_value=bv)
    s._num_rows, s._num_cols = k.size("H", H0), k.size("W", W0)
    return s, o, c, d, bv


def entry(k, s, d, i, j):
    """the table entry in row i, column j (spec side)."""
    if k.symbolic:
        return sdfm.gather_from_rows_cols(d, i, j)
    ok = (i >= 0) & (j >= 0) & (i < H0) & (j < W0)
    i, j = torch.where(ok, i, 0 * i).long(), torch.where(ok, j, 0 * j).long()
    d = d.expand(i.shape[0], -1, -1)
    return d[torch.arange(i.shape[0]), i[:, 0], j[:, 0]].unsqueeze(1)


def check_indices(k, log, s):
    for n, (r, c) in enumerate(log):
        k.le(f"row index {n} not negative", torch.zeros_like(r), r)
        k.le(f"column index {n} not negative", torch.zeros_like(c), c)
        k.le(f"row index {n} inside", r, s._num_rows - 1.0)
        k.le(f"column index {n} inside", c, s._num_cols - 1.0)


def _inside(shared):
    @contract("C24", f"inside/{'one field' if shared else 'a field per element'}", con=(60, 1, 3),
              funcs=["SignedDistanceField2D.signed_distance", "SignedDistanceField2D.convert_points_to_cell"])
    def inside(k):
        """a point u, v inside cell (i, j), for every extent, cell and position."""
        log = []
        with grid_by_contract(k, log):
            s, o, c, d, bv = field(k, shared)
            i, j = k.integer("i", 0, H0 - 2), k.integer("j", 0, W0 - 2)
            u, v = k.frac("u"), k.frac("v")
            H, W = s._num_rows, s._num_cols
            k.assume((i >= 0) & (j >= 0) & (i <= H - 2.0) & (j <= W - 2.0))
            p = o + c * torch.cat([j + u, i + v], dim=1)
            p0, d0 = p.clone(), d.clone()
            P = p.unsqueeze(2)
            dist, J = s.signed_distance(P)
            a, b, e, f = entry(k, s, d, i, j), entry(k, s, d, i, j + 1), entry(k, s, d, i + 1, j), entry(k, s, d, i + 1, j + 1)
            k.same("shapes", (tuple(dist.shape), tuple(J.shape)), ((k.B, 1), (k.B, 1, 2)))
            k.eq("bilinear interpolation", dist, (1 - v) * ((1 - u) * a + u * b) + v * ((1 - u) * e + u * f))
            k.eq("x slope", J[:, :, 0], ((1 - v) * (b - a) + v * (f - e)) / c)
            k.eq("y slope", J[:, :, 1], ((1 - u) * (e - a) + u * (f - b)) / c)
            for ax in range(2):
                V = torch.zeros_like(P)
                V[:, ax] = 1
                k.eq(f"Jacobian = derivative, axis {ax}", J[:, :, ax], k.D(lambda x: s.signed_distance(x)[0], P, V), ctol=1e-5)
            k.eq("points unchanged", p, p0, ctol=0)
            k.eq("field unchanged", d, d0, ctol=0)
            check_indices(k, log, s)


def _outside(shared):
    @contract("C24", f"outside/{'one field' if shared else 'a field per element'}", con=(60, 1, 3),
              funcs=["SignedDistanceField2D.signed_distance", "SignedDistanceField2D.convert_points_to_cell"])
    def outside(k):
        """a point anywhere: outside the grid the boundary value and a zero
        Jacobian, and never an index outside the table."""
        log = []
        with grid_by_contract(k, log):
            s, o, c, d, bv = field(k, shared)
            i, j = k.integer("i", -4, H0 + 3), k.integer("j", -4, W0 + 3)
            u, v = k.frac("u"), k.frac("v")
            H, W = s._num_rows, s._num_cols
            p = o + c * torch.cat([j + u, i + v], dim=1)
            dist, J = s.signed_distance(p.unsqueeze(2))
            check_indices(k, log, s)
            out = (j + u < 0) | (j + u > W - 1.0) | (i + v < 0) | (i + v > H - 1.0)
            z = torch.zeros_like(dist)
            k.eq("boundary value", torch.where(out, dist, z), torch.where(out, z + bv, z), ctol=0)
            for ax in range(2):
                k.eq(f"zero Jacobian {ax}", torch.where(out, J[:, :, ax], z), z, ctol=0)


for _s in (False, True):
    _inside(_s)
    _outside(_s)


@contract("C24", "upper edge", con=(40, 1), funcs=["SignedDistanceField2D.signed_distance"])
def edge(k):
    """points on the last row or column (inside the closed grid)."""
    log = []
    with grid_by_contract(k, log):
        s, o, c, d, bv = field(k, False)
        if not k.symbolic:
            # exact arithmetic, so that the point is on the edge and not beyond
            o, c = torch.round(o * 4) / 4, torch.full_like(c, 0.5)
            s.update_data(th.Point2(tensor=o), d, c)
        i, j = k.integer("i", 0, H0 - 2), k.integer("j", 0, W0 - 2)
        u = k.frac("u")
        if not k.symbolic:
            u = torch.round(u * 8) / 8 % 1.0
        H, W = s._num_rows, s._num_cols
        k.assume((i >= 0) & (j >= 0) & (i <= H - 2.0) & (j <= W - 2.0))
        z = torch.zeros_like(u)
        p = o + c * torch.cat([W - 1.0 + z, i + u], dim=1)
        dist, J = s.signed_distance(p.unsqueeze(2))
        a, e = entry(k, s, d, i, W - 1 + 0 * i), entry(k, s, d, i + 1, W - 1 + 0 * i)
        k.eq("last column: distance", dist, (1 - u) * a + u * e)
        k.eq("last column: slope along it", J[:, :, 1], (e - a) / c)
        p = o + c * torch.cat([j + u, H - 1.0 + z], dim=1)
        dist, J = s.signed_distance(p.unsqueeze(2))
        a, e = entry(k, s, d, H - 1 + 0 * i, j), entry(k, s, d, H - 1 + 0 * i, j + 1)
        k.eq("last row: distance", dist, (1 - u) * a + u * e)
        k.eq("last row: slope along it", J[:, :, 0], (e - a) / c)
        p = o + c * torch.cat([W - 1.0 + z, H - 1.0 + z], dim=1)
        dist, J = s.signed_distance(p.unsqueeze(2))
        k.eq("corner", dist, entry(k, s, d, H - 1 + 0 * i, W - 1 + 0 * i))
        check_indices(k, log, s)


@contextlib.contextmanager
def field_by_contract(k, log=None):
    """callers see signed_distance only through its contract: some distance with
    its derivative (proved above)."""
    if not k.symbolic:
        yield
        return

    def sd(self, points):
        k.same("points shape", tuple(points.shape), (k.B, 2, 1))

        def f(p):
            return [torch.sin(p[:, :1] + 0.4) * torch.cos(1.7 * p[:, 1:2]), torch.cos(p[:, :1]) + p[:, 1:2], torch.sin(p[:, 1:2] * 1.1) - p[:, :1]]

        q = points[:, :, 0]
        # the Jacobian entries are only used as values: no derivative is needed
        r = k.opaque("field", f, [q], lambda a, v, o: [o[1] * v[0][:, :1] + o[2] * v[0][:, 1:2], None, None])
        return r[0].clone(), torch.stack([r[1], r[2]], dim=2)

    with mock.patch.object(SignedDistanceField2D, "signed_distance", sd):
        yield


def make_field(k):
    o, c, d = k.real("fo", 2), k.pos("fc", 1, lo=0.5, hi=2.0), k.real("fd", H0, W0)
    return th.Point2(tensor=o * 0.2 - 2, name="so"), th.Variable(d, name="sd"), th.Variable(c, name="sc")


def cost_clauses(k, nm, cf, spec, faraway=None):
    from .c07 import check_cf

    e = cf.error()
    k.eq(f"{nm}/error", e, spec(), ctol=1e-9)
    check_cf(k, nm, cf, ctol=2e-4)
    c = cf.copy()
    k.eq(f"{nm}/copy error", c.error(), e, ctol=0)
    k.same(f"{nm}/copy type", (type(c), c.dim()), (type(cf), cf.dim()))


@contract("C24", "collision", con=(60, 1), funcs=["Collision2D.error", "Collision2D.jacobians", "Collision2D._compute_distances_and_jacobians", "Collision2D._error_from_distances", "SE2.xy"])
def collision(k):
    """max(eps - distance of the robot position, 0) and its derivative."""
    with field_by_contract(k):
        so, sd, sc = make_field(k)
        eps = k.pos("eps", 1)
        for nm, pose in (("point", th.Point2(tensor=k.real("p", 2), name="pose")), ("SE2", th.SE2(tensor=k.pose2("q"), disable_checks=True, name="pose"))):
            cf = th.eb.Collision2D(pose, so, sd, sc, th.Variable(eps, name="eps"), th.ScaleCostWeight(torch.ones(1, 1, dtype=k.dtype)))
            F = SignedDistanceField2D(so, sc, sd)

            def dist():
                xy = pose.tensor if nm == "point" else pose.tensor[:, :2]
                return F.signed_distance(xy.unsqueeze(2))[0]

            d = dist()
            k.assume(d != eps)  # the hinge has no derivative there
            z = torch.zeros_like(d)
            cost_clauses(k, nm, cf, lambda: torch.where(dist() < eps, eps - dist(), z))
            J, _ = cf.jacobians()
            far = d > eps
            zz = torch.zeros_like(J[0])
            k.eq(f"{nm}/no gradient beyond eps", torch.where(far.unsqueeze(2), J[0], zz), zz, ctol=0)


@contract("C24", "contact", con=(60, 1), funcs=["EffectorObjectContactPlanar.error", "EffectorObjectContactPlanar.jacobians", "EffectorObjectContactPlanar._compute_distances_and_jacobians", "SE2.transform_to"])
def contact(k):
    """|distance of the effector in the object frame - radius| and its derivatives."""
    with field_by_contract(k):
        so, sd, sc = make_field(k)
        r = k.pos("r", 1)
        obj, eff = th.SE2(tensor=k.pose2("o"), disable_checks=True, name="obj"), th.SE2(tensor=k.pose2("e"), disable_checks=True, name="eff")
        cf = th.eb.EffectorObjectContactPlanar(obj, eff, so, sd, sc, th.Variable(r, name="rad"), th.ScaleCostWeight(torch.ones(1, 1, dtype=k.dtype)))
        F = SignedDistanceField2D(so, sc, sd)

        def dist():
            x = eff.tensor[:, :2] - obj.tensor[:, :2]
            c, s = obj.tensor[:, 2:3], obj.tensor[:, 3:4]
            xy = torch.cat([c * x[:, :1] + s * x[:, 1:], -s * x[:, :1] + c * x[:, 1:]], dim=1)
            return F.signed_distance(xy.unsqueeze(2))[0]

        k.assume(dist() != r)
        cost_clauses(k, "contact", cf, lambda: torch.where(dist() < r, r - dist(), dist() - r))


@contract("C24", "lookup", mode="con", con=(7,), funcs=["gather_from_rows_cols"])
def lookup(k):
    """every cell of every small table, shared or per element."""
    for H in (1, 2, 5):
        for W in (1, 3, 4):
            n = H * W
            for shared in (False, True):
                t = torch.arange(k.B * n, dtype=k.dtype).view(k.B, H, W)
                t = t[:1] if shared else t
                for perm in range(3):
                    idx = torch.stack([torch.randperm(n, generator=torch.Generator().manual_seed(perm * 99 + b)) for b in range(k.B)])
                    r, c = idx // W, idx % W
                    base = torch.zeros(k.B, 1, dtype=torch.long) if shared else torch.arange(k.B).view(-1, 1) * n
                    k.eq(f"{H}x{W}", gather_from_rows_cols(t, r, c), (base + idx).to(k.dtype), ctol=0)
    t = torch.zeros(2, 3, 4)
    one = torch.ones(2, 1, dtype=torch.long)
    for r, c in ((-one, one), (3 * one, one), (one, 4 * one), (one, -one)):
        k.raises("index outside the table", lambda: gather_from_rows_cols(t, r, c), AssertionError)


@contract("C24", "many points", mode="con", con=(6,), funcs=["SignedDistanceField2D.signed_distance", "SignedDistanceField2D.convert_cell_size"])
def many(k):
    """several points per element, every mix of shared and per-element data, and
    cell sizes given as number, vector or column."""
    g = torch.Generator().manual_seed(5)
    for so in (1, k.B):
        for sd in (1, k.B):
            for cs in ("float", "shared", "vector", "column"):
                o = torch.randn(so, 2, generator=g, dtype=k.dtype)
                d = torch.randn(sd, 4, 6, generator=g, dtype=k.dtype)
                c = {"float": 0.5, "shared": torch.full((1, 1), 0.5, dtype=k.dtype), "vector": 0.3 + torch.rand(k.B, generator=g, dtype=k.dtype), "column": 0.3 + torch.rand(k.B, 1, generator=g, dtype=k.dtype)}[cs]
                s = SignedDistanceField2D(th.Point2(tensor=o), c if isinstance(c, float) else th.Variable(c), d, sdf_boundary_value=-3.0)
                cc = torch.full((k.B, 1), 0.5, dtype=k.dtype) if cs in ("float", "shared") else c.view(-1, 1)
                P = o.unsqueeze(2) + cc.unsqueeze(2) * (torch.rand(k.B, 2, 9, generator=g, dtype=k.dtype) * 7 - 0.7)
                dist, J = s.signed_distance(P)
                k.same(f"{so}/{sd}/{cs}/shapes", (tuple(dist.shape), tuple(J.shape)), ((k.B, 9), (k.B, 9, 2)))
                for b in range(k.B):
                    o1, d1, c1 = o[b % so: b % so + 1], d[b % sd: b % sd + 1], cc[b: b + 1]
                    s1 = SignedDistanceField2D(th.Point2(tensor=o1), c1, d1, sdf_boundary_value=-3.0)
                    for q in range(9):
                        d2, J2 = s1.signed_distance(P[b: b + 1, :, q: q + 1])
                        k.eq(f"{so}/{sd}/{cs}/distance", dist[b, q], d2[0, 0], ctol=1e-12)
                        k.eq(f"{so}/{sd}/{cs}/Jacobian", J[b, q], J2[0, 0], ctol=1e-12)


@contract("C24", "one set of points for many fields", mode="con", con=(2, 3, 5), funcs=["SignedDistanceField2D.signed_distance", "SignedDistanceField2D.convert_points_to_cell"])
def many_fields(k):
    """points, origin and cell size shared by a batch of tables, and every other
    mix in which one of them is per element."""
    g = torch.Generator().manual_seed(8)
    for shared in range(8):
        np_, no, nc = (1 if shared & 4 else k.B, 1 if shared & 2 else k.B, 1 if shared & 1 else k.B)
        d = torch.randn(k.B, 4, 6, generator=g, dtype=k.dtype)
        o = torch.randn(no, 2, generator=g, dtype=k.dtype) * 0.1
        c = 0.5 + torch.rand(nc, 1, generator=g, dtype=k.dtype) * 0.1
        P = torch.rand(np_, 2, 7, generator=g, dtype=k.dtype) * 3.5 - 0.3
        dist, J = SignedDistanceField2D(th.Point2(tensor=o), c, d, sdf_boundary_value=-3.0).signed_distance(P)
        k.same(f"{shared}/shapes", (tuple(dist.shape), tuple(J.shape)), ((k.B, 7), (k.B, 7, 2)))
        for b in range(k.B):
            d2, J2 = SignedDistanceField2D(th.Point2(tensor=o[b % no][None]), c[b % nc][None], d[b: b + 1], sdf_boundary_value=-3.0).signed_distance(P[b % np_][None])
            k.eq(f"{shared}/distance", dist[b], d2[0], ctol=1e-12)
            k.eq(f"{shared}/Jacobian", J[b], J2[0], ctol=1e-12)


@contract("C24", "a table of another size", mode="con", con=(2,), funcs=["SignedDistanceField2D.update_data", "SignedDistanceField2D.to", "Collision2D.set_aux_var_at"])
def resized(k):
    """a field given other data (of any size, in any supported form) answers as a
    field built from them."""
    g = torch.Generator().manual_seed(21)
    sizes = ((5, 4), (8, 9), (3, 7), (6, 2))
    data = [(torch.randn(1, 2, generator=g, dtype=k.dtype) * 0.2, torch.randn(k.B, h, w, generator=g, dtype=k.dtype), 0.4 + torch.rand(1, 1, generator=g, dtype=k.dtype)) for h, w in sizes]
    P = torch.rand(k.B, 2, 12, generator=g, dtype=k.dtype) * 6 - 0.5
    for a in range(4):
        for b in range(4):
            s = SignedDistanceField2D(data[a][0], data[a][2], data[a][1], sdf_boundary_value=0.5)
            s.signed_distance(P)
            s.update_data(*data[b])
            t = SignedDistanceField2D(data[b][0], data[b][2], data[b][1], sdf_boundary_value=0.5)
            for i in (0, 1):
                k.eq(f"{a}->{b}/{('distance', 'Jacobian')[i]}", s.signed_distance(P)[i], t.signed_distance(P)[i], ctol=1e-12)
            x = th.SE2(tensor=th.SE2.rand(k.B, dtype=k.dtype, generator=g).tensor, name="x")
            w = th.ScaleCostWeight(torch.ones(1, 1, dtype=k.dtype))
            eps = torch.full((1, 1), 5.0, dtype=k.dtype)

            def vs(j, t):
                return [th.Point2(tensor=data[j][0], name="o" + t), th.Variable(data[j][1], name="d" + t), th.Variable(data[j][2], name="c" + t)]

            cf, ref = th.eb.Collision2D(x, *vs(a, "a"), eps, w), th.eb.Collision2D(x, *vs(b, "b"), eps, w)
            cf.error()
            for i, v in enumerate(vs(b, "n")):
                cf.set_aux_var_at(i, v)
            k.eq(f"{a}->{b}/cost", cf.error(), ref.error(), ctol=1e-12)
    for other in (torch.float32, torch.float64):
        s = SignedDistanceField2D(data[0][0], data[0][2], data[0][1])
        s.to(dtype=other)
        k.same("dtype after to", [str(v.dtype) for v in (s.origin, s.sdf_data, s.cell_size)], [str(other)] * 3)
        r = s.signed_distance(P.to(other))
        q = SignedDistanceField2D(data[0][0], data[0][2], data[0][1]).signed_distance(P)
        k.same("result dtype", str(r[0].dtype), str(other))
        k.eq("value after to", r[0].to(k.dtype), q[0], ctol=1e-4)


@contract("C24", "occupancy map", mode="con", con=(3,), funcs=["SignedDistanceField2D._compute_sdf_data_from_map"])
def occupancy(k):
    """distance to the nearest occupied cell outside, minus distance to the
    nearest free cell inside, in metres, per map."""
    g = torch.Generator().manual_seed(11)
    for trial in range(6):
        H, W = 3 + trial % 3, 4 + trial % 2
        m = (torch.rand(k.B, H, W, generator=g, dtype=k.dtype) ** (1 + trial % 3))
        for e in ((), (0,), (2,), (0, 1), (1,), (0, 2))[trial]:
            m[e] = 0.1
        cell = 0.2 + torch.rand(k.B, 1, generator=g, dtype=k.dtype) if trial % 3 else torch.full((1, 1), 0.7, dtype=k.dtype)
        s = SignedDistanceField2D(th.Point2(tensor=torch.zeros(1, 2, dtype=k.dtype)), cell, occupancy_map=m, occupancy_threshold=0.6)
        k.same("extent", (s._num_rows, s._num_cols), (H, W))
        ij = torch.stack(torch.meshgrid(torch.arange(H), torch.arange(W), indexing="ij"), dim=-1).view(-1, 2).to(k.dtype)
        for b in range(k.B):
            c = cell[b % cell.shape[0], 0]
            occ = (m[b] > 0.6).view(-1)
            if not occ.any():
                ref = torch.full((H, W), float(2 * c * max(H, W)), dtype=k.dtype)
            elif occ.all():
                continue
            else:
                D = torch.cdist(ij, ij)
                ref = torch.where(occ, -D[:, ~occ].min(1)[0], D[:, occ].min(1)[0]).view(H, W) * c
            k.eq("signed distance", s.sdf_data.tensor[b], ref, ctol=1e-9)
    k.raises("both sources", lambda: SignedDistanceField2D(th.Point2(tensor=torch.zeros(1, 2, dtype=k.dtype)), 0.1, m, m), ValueError)
    k.raises("no source", lambda: SignedDistanceField2D(th.Point2(tensor=torch.zeros(1, 2, dtype=k.dtype)), 0.1), ValueError)
    k.raises("table not a batch of matrices", lambda: SignedDistanceField2D(th.Point2(tensor=torch.zeros(1, 2, dtype=k.dtype)), 0.1, m[0]), ValueError)


@contract("C24", "updates reach the field", mode="con", con=(4,), funcs=["Collision2D.set_aux_var_at", "EffectorObjectContactPlanar.set_aux_var_at"])
def updates(k):
    """a cost evaluates the current origin, table and cell size, also after they
    are updated or replaced."""
    g = torch.Generator().manual_seed(2)

    def mk(nm):
        return th.Point2(tensor=torch.randn(1, 2, generator=g, dtype=k.dtype) * 0.1 - 1, name="o" + nm), th.Variable(torch.randn(1, 5, 5, generator=g, dtype=k.dtype), name="d" + nm), th.Variable(torch.rand(1, 1, generator=g, dtype=k.dtype) * 0.3 + 0.5, name="c" + nm)

    w = th.ScaleCostWeight(torch.ones(1, 1, dtype=k.dtype))
    for kind in (0, 1):
        x = th.SE2(tensor=th.SE2.rand(k.B, dtype=k.dtype, generator=g).tensor, name="x")
        y = th.SE2(tensor=th.SE2.rand(k.B, dtype=k.dtype, generator=g).tensor, name="y")

        def build(o, d, c):
            if kind == 0:
                return th.eb.Collision2D(x, o, d, c, torch.full((1, 1), 5.0, dtype=k.dtype), w)
            return th.eb.EffectorObjectContactPlanar(x, y, o, d, c, torch.full((1, 1), 5.0, dtype=k.dtype), w)

        cf = build(*mk("0"))
        new = mk("1")
        for v, t in zip((cf.sdf_origin, cf.sdf_data, cf.sdf_cell_size), new):
            v.update(t.tensor)
        k.eq(f"{kind}/after update", cf.error(), build(*new).error(), ctol=1e-12)
        new = mk("2")
        for i, v in enumerate(new):
            cf.set_aux_var_at(i, v)
        k.eq(f"{kind}/after replacement", cf.error(), build(*new).error(), ctol=1e-12)
        k.eq(f"{kind}/Jacobian after replacement", cf.jacobians()[0][0], build(*new).jacobians()[0][0], ctol=1e-12)
        cp = cf.copy()
        new = mk("3")
        for v, t in zip((cp.sdf_origin, cp.sdf_data, cp.sdf_cell_size), new):
            v.update(t.tensor)
        k.eq(f"{kind}/copy after update", cp.error(), build(*new).error(), ctol=1e-12)
