"""C16: gradients through a sparse solve are the true gradients."""
import random

import numpy as np
import torch
import theseus as th
from theseus.optimizer.autograd.cholmod_sparse_autograd import CholmodSolveFunction
from theseus.optimizer.autograd.common import compute_A_grad
from theseus.optimizer.linear_system import SparseStructure
from dv.run import contract
from .c14 import build, fill, expected, products_by_contract, KINDS
from .c15 import Ctx, FakeExtensions, SymStructure, SymCholesky, STRUCTS, dampings, damped, fixed, normal, sparse_solver

INFO = dict(
    level="proof",
    trusted=["torch.linalg.solve and CHOLMOD's factor solve the system they are given", "the C++/CUDA extensions of the LU and BaSpaCho solvers do what their interface says (their Python side is run against it)"],
    assumptions=["implicit differentiation of (A'A + alpha diag(A'A) + beta I) x = A'b: with H = M^-1 g, the derivative of g.x along (dA, db) is H.(dA'b + A'db - dA'Ax - A'dA x - 2 alpha diag(A'dA) x); the clauses prove that the returned gradients give exactly this number for every dA on the pattern and every db",
                 "sparsity patterns are enumerated; all values, upstream gradients, damping and (except for the per-element loop of CHOLMOD: one and two elements) the batch size are unconstrained"],
)
PATTERNS = [(1, [[0]]), (1, [[0], [0]]), (2, [[0, 1], [1]]), (2, [[1], [0, 1], []]), (2, [[], [0, 1], [0, 1]]), (3, [[0, 2], [1], [0, 1, 2]]), (3, [[2], [0, 1], [1, 2], [0]]), (4, [[0, 3], [1, 2, 3], [2], [0, 1]])]


def arrays(rows):
    return np.cumsum([0] + [len(r) for r in rows]), np.array([c for r in rows for c in r], dtype=int)


def mul(ptr, ind, cols, val, v, t=False):
    """A v or A' v for the CSR values val."""
    n = len(ptr) - 1
    out = [torch.zeros_like(val[..., 0]) for _ in range(cols if t else n)]
    for r in range(n):
        for p in range(int(ptr[r]), int(ptr[r + 1])):
            c = int(ind[p])
            i, j = (c, r) if t else (r, c)
            out[i] = out[i] + val[..., p] * v[..., j]
    return torch.stack(out, dim=-1)


def derivative(ptr, ind, cols, val, b, x, H, dval, db, alpha=None, detach=False):
    """the derivative of g.x along (dA, db), where H solves M H = g."""
    A = lambda v: mul(ptr, ind, cols, val, v)
    dA = lambda v: mul(ptr, ind, cols, dval, v)
    At = lambda v: mul(ptr, ind, cols, val, v, True)
    dAt = lambda v: mul(ptr, ind, cols, dval, v, True)
    r = dAt(b) + At(db)
    if not detach:
        r = r - dAt(A(x)) - At(dA(x))
        if alpha is not None:
            diag = mul(ptr, ind, cols, val * dval, torch.ones_like(b), True)
            r = r - 2 * alpha.reshape(-1, 1) * diag * x
    return (H * r).sum(dim=-1)


def _grad(n):
    cols, rows = PATTERNS[n]
    ptr, ind = arrays(rows)

    def body(k):
        val, b, x, H = k.real("val", len(ind)), k.real("b", len(rows)), k.real("x", cols), k.real("H", cols)
        dval, db = k.real("dval", len(ind)), k.real("db", len(rows))
        AH, r = mul(ptr, ind, cols, val, H), b - mul(ptr, ind, cols, val, x)
        a, be = k.pos("alpha", 1)[:, 0], k.pos("beta", 1)[:, 0]
        some = torch.where(k.real("some", 1)[:, 0] > 0, a, torch.zeros_like(a))  # zero for some elements of a batch
        tind = torch.tensor(ind, dtype=torch.int32)
        for nm, ab in (("no damping", None), ("plain", (torch.zeros_like(a), be)), ("ellipsoidal", (a, be)), ("ellipsoidal for some", (some, be))):
            for detach in (False, True):
                if detach and nm.startswith("ellipsoidal"):
                    continue
                g = compute_A_grad(k.B, ptr, ind, b, x, r, H, AH, ab, val, tind, detach)
                want = derivative(ptr, ind, cols, val, b, x, H, dval, db, ab[0] if ab else None, detach)
                k.eq(f"{nm}{'/detached' if detach else ''}", (g * dval).sum(dim=-1) + (AH * db).sum(dim=-1), want, ctol=1e-10)
                # entry by entry
                for p in range(len(ind)):
                    e = torch.zeros_like(val)
                    e[:, p] = 1.0
                    k.eq(f"{nm}{'/detached' if detach else ''}/entry {p}", g[:, p], derivative(ptr, ind, cols, val, b, x, H, e, torch.zeros_like(b), ab[0] if ab else None, detach), ctol=1e-10)
                k.same(f"{nm}/dtype", g.dtype, k.dtype)

    return body


for _n in range(len(PATTERNS)):
    contract("C16", f"compute_A_grad/pattern {_n}", con=(4, 1), budget=60, funcs=["compute_A_grad"])(_grad(_n))


def _cholmod(n):
    cols, rows = PATTERNS[n]
    ptr, ind = arrays(rows)

    def body(k):
        st = SymStructure(SparseStructure(ind, ptr, len(rows), cols))
        for B in (1, 2):
            val, b, g = fixed(k, "val", B, len(ind)), fixed(k, "b", B, len(rows)), fixed(k, "g", B, cols)
            dval, db = fixed(k, "dval", B, len(ind)), fixed(k, "db", B, len(rows))
            for beta in (0.0, 0.5):
                for detach in (False, True):
                    c = Ctx()
                    x = CholmodSolveFunction.forward(c, val, b, st, SymCholesky(), beta, detach)
                    gA, gb, *rest = CholmodSolveFunction.backward(c, g)
                    k.same(f"{B}/{beta}/{detach}/the rest has no gradient", [q is None for q in rest], [True] * 4)
                    for i in range(B):
                        A = st.csr_straight(val[i]).dense()
                        M = A.t() @ A + beta * torch.eye(cols, dtype=k.dtype)
                        if not k.symbolic and float(torch.linalg.cond(M)) > 1e6:
                            continue
                        H = torch.linalg.solve(M, g[i])
                        want = derivative(ptr, ind, cols, val[i], b[i], torch.linalg.solve(M, A.t() @ b[i]), H, dval[i], db[i], None, detach)
                        k.eq(f"{B}/damping {beta}/{'detached' if detach else 'attached'}/{i}", (gA[i] * dval[i]).sum() + (gb[i] * db[i]).sum(), want, ctol=1e-6)

    return body


for _n in (1, 2, 3, 4, 5):
    contract("C16", f"CholmodSolveFunction.backward/pattern {_n}", con=(1,), budget=100, funcs=["CholmodSolveFunction.backward", "CholmodSolveFunction.forward", "compute_A_grad"])(_cholmod(_n))


def _sparse(si, cls):
    kinds, cfs = STRUCTS[si]

    def body(k):
        with FakeExtensions(k) as ext, products_by_contract(k):
            o, vs, fs = build(k, kinds, cfs)
            s = sparse_solver(cls, o, k.B)
            s.reset() if cls is not th.LUCudaSparseSolver else None
            lin = s.linearization
            lin.linearize()
            ptr, ind, cols = lin.A_row_ptr, lin.A_col_ind, lin.num_cols
            g, dval, db = k.real("g", cols), k.real("dval", len(ind)), k.real("db", lin.num_rows)
            for detach in (False, True):
                lin.detached_hessian = detach
                for ell in (False, True):
                    for dn, (d, dv) in dampings(k).items():
                        if dn == "batch column" or ell and d is None or detach and (d is not None):
                            continue
                        A, b, AtA, Atb = normal(k, fs, list(lin.ordering))
                        M = AtA if d is None else damped(k, AtA, dv, ell, 0.5)
                        H = torch.linalg.solve(M, g.unsqueeze(2)).squeeze(2)
                        nm = f"{'detached/' if detach else ''}{'ellipsoidal' if ell else 'plain'} {dn}"
                        if k.symbolic:
                            x = s.solve(damping=d, ellipsoidal_damping=ell, damping_eps=0.5)
                            c = ext.ctxs[-1]
                            fn = (ext.fns[0] if cls is th.LUCudaSparseSolver else ext.fns[1])
                            gA, gb, *rest = fn.backward(c, g)
                            k.true(nm + "/the rest has no gradient", all(q is None for q in rest))
                        else:
                            a, bb = lin.A_val.detach().clone().requires_grad_(True), lin.b.detach().clone().requires_grad_(True)
                            lin.A_val, lin.b = a, bb
                            x = s.solve(damping=d, ellipsoidal_damping=ell, damping_eps=0.5)
                            gA, gb = torch.autograd.grad(x, [a, bb], g)
                            lin.A_val, lin.b = a.detach(), bb.detach()
                        want = derivative(ptr, ind, cols, lin.A_val, lin.b, x.detach() if not k.symbolic else x, H, dval, db, dv if ell and d is not None else None, detach)
                        k.eq(nm, (gA * dval).sum(dim=1) + (gb * db).sum(dim=1), want, ctol=1e-6)

    return body


for _i in range(len(STRUCTS)):
    for _c in (th.LUCudaSparseSolver, th.BaspachoSparseSolver):
        contract("C16", f"{_c.__name__}/structure {_i}", con=(8, 1), budget=100, funcs=["LUCudaSolveFunction" if _c is th.LUCudaSparseSolver else "BaspachoSolveFunction", "compute_A_grad"])(_sparse(_i, _c))


@contract("C16", "same as the dense solver", mode="con", dtypes=("float64", "float32"), con=(4, 1), budget=100, funcs=["CholmodSolveFunction", "CholmodSparseSolver.solve"])
def as_dense(k):
    """random structures: the gradients with respect to every Jacobian block and error are
    those of the dense solver (CHOLMOD itself runs here)."""
    f64 = k.dtype == torch.float64
    rng = random.Random(9)
    for it in range(25):
        n = rng.randint(1, 5)
        ks = [rng.choice(KINDS) for _ in range(n)]
        cfs = [((i,) if rng.random() < 0.5 else tuple({rng.randrange(n), i}), rng.randint(3, 4)) for i in range(n)]
        o, vs, fs = build(k, ks, cfs, f"s{it}", (0,) if it % 3 == 0 else ())
        xs = []
        for f in fs:
            f.J = [j.clone().requires_grad_(True) for j in f.J]
            f.e = f.e.clone().requires_grad_(True)
            xs += f.J + [f.e]
        sp, de = th.CholmodSparseSolver(o), th.CholeskyDenseSolver(o)
        dim = sum(v.dof() for v in vs)
        g1, g2 = k.real(f"s{it}g1", dim), k.real(f"s{it}g2", dim)
        for detach in (False, True):
            for d in (None, 0.4):
                if detach and d is not None:
                    continue
                res = []
                for s in (sp, de):
                    s.linearization.linearize(_detach_hessian=detach)
                    x = s.solve(damping=d, ellipsoidal_damping=False) if s is de else s.solve(damping=d)
                    y = s.solve(damping=0.9, ellipsoidal_damping=False) if s is de else s.solve(damping=0.9)
                    a = torch.autograd.grad(x, xs, g1, retain_graph=True)
                    c = torch.autograd.grad(y, xs, g2, retain_graph=True)
                    a2 = torch.autograd.grad(x, xs, g2, retain_graph=True)  # the same solve, another gradient
                    res.append((x, y, a, c, a2, s))
                A, b, AtA, Atb = normal(k, fs, list(de.linearization.ordering))
                M = AtA.detach() + (d or 0.0) * torch.eye(dim, dtype=k.dtype)
                ok = bool((torch.linalg.cond(M) < (1e5 if f64 else 50)).all())
                if not ok:
                    continue
                tol = 1e-7 if f64 else 2e-2
                k.eq(f"{it}/{detach}/{d}/value", res[0][0].detach(), res[1][0].detach(), ctol=tol)
                for w, (p, q) in enumerate(zip(res[0][2:5], res[1][2:5])):
                    for j, (u, v) in enumerate(zip(p, q)):
                        sc = 1 + v.abs().max()
                        k.eq(f"{it}/{detach}/{d}/gradient {w}/{j}", u / sc, v / sc, ctol=tol)


@contract("C16", "through the linearization", mode="con", con=(4, 1), budget=60, funcs=["CholmodSolveFunction", "SparseLinearization"])
def through(k):
    """end to end: the gradient of a solve with respect to the tensors of the variables."""
    from .objs import Quad
    for it in range(6):
        ts = {n: k.real(f"{it}{n}", 2) for n in "xyz"}
        ts.update({n: k.real(f"{it}{n}", 1) for n in "ab"})
        w = k.pos(f"{it}w", 3)
        g = k.real(f"{it}g", 6)
        out = []
        for cls in (th.CholmodSparseSolver, th.CholeskyDenseSolver, th.LUDenseSolver):
            leaf = {n: t.clone().requires_grad_(True) for n, t in ts.items()}
            lw = w.clone().requires_grad_(True)
            v = {n: (th.Vector(tensor=t, name=n) if n in "xyz" else th.Variable(t, name=n)) for n, t in leaf.items()}
            o = th.Objective(dtype=k.dtype)
            W = th.DiagonalCostWeight(th.Variable(lw, name="w"), name="W")
            for j, (op, au) in enumerate((("xy", "a"), ("yz", "b"), ("z", "a"), ("x", "b"))):
                o.add(Quad([v[i] for i in op], [v[i] for i in au], W, 3, name=f"c{j}"))
            if it % 2:
                th.Vectorize(o)
            o.update()
            s = cls(o)
            s.linearization.linearize()
            x = s.solve() if it < 3 else s.solve(damping=0.2, ellipsoidal_damping=False)
            out.append((s, x, torch.autograd.grad(x, list(leaf.values()) + [lw], g)))
        AtA = out[1][0].linearization.AtA
        good = torch.linalg.cond(AtA) < 1e5
        if not bool(good.all()):
            continue
        for nm, o_ in (("sparse", out[0]), ("LU", out[2])):
            for i, (p, q) in enumerate(zip(o_[2], out[1][2])):
                k.eq(f"{it}/{nm}/{i}", p / (1 + q.abs().max()), q / (1 + q.abs().max()), ctol=1e-7)
