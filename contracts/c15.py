"""C15: linear solvers solve the damped normal equations."""
import random
import sys
import types
import warnings

import numpy as np
import torch
import theseus as th
from theseus.optimizer import DenseLinearization, SparseLinearization
from theseus.optimizer.linear.dense_solver import DenseSolver
from theseus.optimizer.linear.utils import convert_to_alpha_beta_damping_tensors
from dv.run import contract
from .c14 import Blocks, build, fill, expected, products_by_contract, check as check_lin, KINDS
from .objs import Quad
from .zoo import wrap

INFO = dict(
    level="proof",
    trusted=["torch.linalg.solve, cholesky and cholesky_solve solve the system they are given",
             "CHOLMOD's cholesky_AAt(A, beta) factorises A A' + beta I (the bounded clauses run it)",
             "the C++/CUDA extensions of the LU and BaSpaCho solvers, which are not installed here: their Python side is run against their documented interface"],
    assumptions=["structures are enumerated (up to three variables); matrices, right-hand sides, damping and batch size are unconstrained"],
)
DENSE = [th.CholeskyDenseSolver, th.LUDenseSolver]
STRUCTS = [(["V1"], [((0,), 2)]), (["V2"], [((0,), 2), ((0,), 1)]), (["V1", "V1"], [((0, 1), 1), ((1,), 1), ((0,), 1)]), (["V1", "V2"], [((1, 0), 2), ((1,), 2), ((0,), 1)])]


def dampings(k):
    """name -> (what is passed to the solver, its value per batch element as a column)."""
    B = k.pos("damp", 1)
    one = k.pos("damp1", 1, batched=False)
    out = {
        "none": (None, 0 * B),
        "batch": (B[:, 0], B),
        "batch column": (B, B),
        "one element": (one, one.reshape(1, 1)),
        "zero-dimensional": (one.reshape(()), one.reshape(1, 1)),
        "float": (0.25, 0 * B + 0.25),
        "zero": (0.0, 0 * B),
    }
    return out


def normal(k, fs, vs):
    A, b = expected(k, fs, vs)
    At = A.transpose(1, 2)
    return A, b, At.bmm(A), At.bmm(b.unsqueeze(2))


def damped(k, AtA, d, ell, eps):
    n = AtA.shape[1]
    diag = AtA.diagonal(dim1=1, dim2=2)
    D = d * diag + eps if ell else d.expand_as(diag) if d.shape[0] == diag.shape[0] else d.expand(diag.shape[0], n)
    return AtA + torch.diag_embed(D)


def solves(k, nm, x, M, rhs, tol=1e-7):
    """x is the solution of M x = rhs: the trusted solver's own answer."""
    k.eq(nm, x, torch.linalg.solve(M, rhs).squeeze(2), ctol=tol)
    if not k.symbolic:
        k.eq(nm + "/residual", M.bmm(x.unsqueeze(2)), rhs, ctol=tol * 10)


def _dense(si, cls):
    kinds, cfs = STRUCTS[si]

    def body(k):
        tol = 1e-7
        o, vs, fs = build(k, kinds, cfs)
        s = cls(o)
        order = list(s.linearization.ordering)
        s.linearization.linearize()
        A, b, AtA, Atb = normal(k, fs, order)
        ds = dampings(k)
        for ell in (False, True):
            for eps in (1e-8, 0.5):
                for dn, (d, dv) in ds.items():
                    if eps == 0.5 and (not ell or dn not in ("batch", "float")):
                        continue
                    nm = f"{'ellipsoidal' if ell else 'plain'} {dn} eps {eps}"
                    kw = {} if eps == 1e-8 else dict(damping_eps=eps)
                    x = s.solve(damping=d, ellipsoidal_damping=ell, **kw)
                    solves(k, nm, x, AtA if d is None else damped(k, AtA, dv, ell, eps), Atb, tol)
        # a sequence of solves leaves the system alone
        k.eq("A after the solves", s.linearization.A, A, ctol=1e-9)
        k.eq("b after the solves", s.linearization.b, b, ctol=1e-9)
        k.eq("AtA after the solves", s.linearization.AtA, AtA, ctol=1e-9)
        k.eq("Atb after the solves", s.linearization.Atb, Atb, ctol=1e-9)
        solves(k, "undamped again", s.solve(), AtA, Atb, tol)
        fill(k, fs, "second", (0,))
        s.linearization.linearize()
        A, b, AtA, Atb = normal(k, fs, order)
        d, dv = ds["batch"]
        solves(k, "new values", s.solve(damping=d, ellipsoidal_damping=False), damped(k, AtA, dv, False, 0), Atb, tol)
        solves(k, "new values, undamped", s.solve(), AtA, Atb, tol)

    return body


for _i in range(len(STRUCTS)):
    for _c in DENSE:
        contract("C15", f"{_c.__name__}/structure {_i}", con=(8, 1), budget=100, funcs=["DenseSolver.solve", "DenseSolver._apply_damping", "DenseSolver._apply_damping_and_solve", f"{_c.__name__}._solve_sytem"])(_dense(_i, _c))


@contract("C15", "damping of a matrix", con=(8, 1), budget=60, funcs=["DenseSolver._apply_damping"])
def apply_damping(k):
    for n in (1, 2, 3):
        M = k.real(f"M{n}", n, n)
        for ell in (False, True):
            for dn, (d, dv) in dampings(k).items():
                if d is None:
                    continue
                M0 = M.clone()
                R = DenseSolver._apply_damping(M0, d, ellipsoidal=ell, eps=0.25)
                k.eq(f"{n}/{ell}/{dn}", R, damped(k, M, dv, ell, 0.25), ctol=1e-12)
                k.eq(f"{n}/{ell}/{dn}/argument unchanged", M0, M, ctol=0)
    k.raises("vector", lambda: DenseSolver._apply_damping(torch.zeros(3, 3, dtype=k.dtype), 0.1), ValueError)
    k.raises("not square", lambda: DenseSolver._apply_damping(torch.zeros(1, 3, 2, dtype=k.dtype), 0.1), ValueError)


@contract("C15", "alpha and beta", con=(8, 1), budget=40, funcs=["convert_to_alpha_beta_damping_tensors"])
def alpha_beta(k):
    for ell in (False, True):
        for dn, (d, dv) in dampings(k).items():
            if d is None or dn == "batch column":
                continue
            a, b = convert_to_alpha_beta_damping_tensors(d, 0.125, ell, batch_size=k.B, device="cpu", dtype=k.dtype)
            want = dv[:, 0] if dv.shape[0] == k.B else dv[0].expand(k.B)
            k.eq(f"{ell}/{dn}/alpha", a, want if ell else 0 * want, ctol=0)
            k.eq(f"{ell}/{dn}/beta", b, 0 * want + 0.125 if ell else want, ctol=0)
            k.same(f"{ell}/{dn}/dtype", (a.dtype, b.dtype), (k.dtype, k.dtype))


# -- singular systems ------------------------------------------------------------------
@contract("C15", "singular systems", mode="con", dtypes=("float64", "float32"), con=(6,), funcs=["DenseSolver.solve"])
def singular(k):
    """with the check on: zero for the elements whose matrix is singular, the solution for
    the others, whatever the damping; without: every regular system is solved."""
    tol = 1e-6 if k.dtype == torch.float64 else 2e-2
    for cls in DENSE:
        for bad in ((), (1,), (0, 3, 5), tuple(range(6))):
            o, vs, fs = build(k, ["V1", "V2"], [((1, 0), 2), ((1,), 2), ((0,), 1)])
            good = torch.ones(k.B, dtype=torch.bool)
            for i in bad:
                good[i] = False
                for f in fs:
                    for J, v in zip(f.J, f.optim_vars):
                        if v.name == "v1":
                            J[i] = 0.0
            s = cls(o, check_singular=True)
            s.linearization.linearize()
            A, b, AtA, Atb = normal(k, fs, list(s.linearization.ordering))
            for ell in (False, True):
                for dn, (d, dv) in dampings(k).items():
                    nm = f"{cls.__name__}/{bad}/{ell}/{dn}"
                    with warnings.catch_warnings(record=True) as ws:
                        warnings.simplefilter("always")
                        x = s.solve(damping=d, ellipsoidal_damping=ell)
                    M = AtA if d is None else damped(k, AtA, dv, ell, 1e-8)
                    want = torch.zeros(k.B, 3, dtype=k.dtype)
                    if good.any():
                        want[good] = torch.linalg.solve(M[good], Atb[good]).squeeze(2)
                    k.same(nm + "/dtype", x.dtype, k.dtype)
                    k.eq(nm, x, want, ctol=tol * 10)
                    k.same(nm + "/warned", any("Singular" in str(w.message) for w in ws), bool(bad))


# -- sparse Cholesky --------------------------------------------------------------------
@contract("C15", "CholmodSparseSolver", mode="con", dtypes=("float64", "float32"), con=(5, 1), funcs=["CholmodSparseSolver.solve", "CholmodSolveFunction.forward"])
def cholmod(k):
    tol = 1e-8 if k.dtype == torch.float64 else 2e-3
    rng = random.Random(5)
    for it in range(25):
        n = rng.randint(1, 5)
        ks = [rng.choice(KINDS) for _ in range(n)]
        cfs = [((i,) if rng.random() < 0.5 else (rng.randrange(n), i), rng.randint(3, 4)) for i in range(n)]
        o, vs, fs = build(k, ks, cfs, f"s{it}")
        base = rng.choice([0.0, 0.3])
        s = th.CholmodSparseSolver(o, damping=base)
        order = list(s.linearization.ordering)
        for again in range(2):
            fill(k, fs, f"s{it}{again}")
            s.linearization.linearize()
            A, b, AtA, Atb = normal(k, fs, order)
            eye = torch.eye(AtA.shape[1], dtype=k.dtype)
            for d in (None, 0.7, 1e-3, None):
                x = s.solve(damping=d)
                k.same(f"{it}/{again}/{d}/dtype", x.dtype, k.dtype)
                M = AtA + (base if d is None else d) * eye
                good = torch.linalg.cond(M) < (1e6 if k.dtype == torch.float64 else 1e3)
                want = torch.linalg.solve(M.double(), Atb.double()).squeeze(2).to(k.dtype)
                k.eq(f"{it}/{again}/damping {d} base {base}", x[good], want[good], ctol=tol)
                dn = th.CholeskyDenseSolver._apply_damping(AtA, base if d is None else d, ellipsoidal=False)
                k.eq(f"{it}/{again}/damping {d} as the dense solver", dn, M, ctol=1e-6)
            check_lin(k, f"{it}/{again}/linearization after the solves", s.linearization, fs, order, k.real(f"v{A.shape[2]}", A.shape[2]), 1e-9 if k.dtype == torch.float64 else 1e-3)
    k.raises("tensor damping is refused", lambda: s.solve(damping=torch.ones(1)), ValueError)


class SymMat:
    """a sparse matrix with known pattern and unknown values, as scipy's contract has it."""

    def __init__(self, ind, ptr, shape, val, transposed):
        self.ind, self.ptr, self.shape, self.val, self.t = ind, ptr, shape, val, transposed

    def entries(self):
        for r in range(len(self.ptr) - 1):
            for p in range(int(self.ptr[r]), int(self.ptr[r + 1])):
                c = int(self.ind[p])
                yield ((c, r) if self.t else (r, c)), self.val[p]

    def __matmul__(self, v):
        out = [torch.zeros((), dtype=self.val.dtype) for _ in range(self.shape[0])]
        for (i, j), a in self.entries():
            out[i] = out[i] + a * v[j]
        return torch.stack(out)

    __mul__ = __matmul__

    def dense(self):
        out = [[torch.zeros((), dtype=self.val.dtype) for _ in range(self.shape[1])] for _ in range(self.shape[0])]
        for (i, j), a in self.entries():
            out[i][j] = out[i][j] + a
        return torch.stack([torch.stack(r) for r in out])


class SymStructure:
    def __init__(self, s):
        self.s, self.num_rows, self.num_cols, self.col_ind, self.row_ptr = s, s.num_rows, s.num_cols, s.col_ind, s.row_ptr

    def csr_straight(self, val):
        return SymMat(self.col_ind, self.row_ptr, (self.num_rows, self.num_cols), val, False)

    def csc_transpose(self, val):
        return SymMat(self.col_ind, self.row_ptr, (self.num_cols, self.num_rows), val, True)


class SymCholesky:
    """contract of CHOLMOD: the factor of A A' + beta I solves that system."""

    def cholesky_AAt(self, At, beta=0.0):
        D = At.dense()
        M = D @ D.t() + beta * torch.eye(D.shape[0], dtype=D.dtype)
        return lambda rhs: torch.linalg.solve(M, rhs)


class Ctx:
    pass


def fixed(k, name, n, *shape):
    """n batch elements, named one by one."""
    return torch.stack([k.real(f"{name}[{i}]", *shape, batched=False) for i in range(n)])


PATTERNS = [(1, [[0], [0]]), (2, [[0, 1], [1], [0]]), (2, [[1], [0, 1], []]), (3, [[0, 2], [1], [0, 1, 2], [2]])]


@contract("C15", "CholmodSolveFunction.forward", con=(1,), budget=60, funcs=["CholmodSolveFunction.forward"])
def cholmod_forward(k):
    """the Python side against the contracts of scipy and CHOLMOD, for one and two batch
    elements."""
    from theseus.optimizer.autograd.cholmod_sparse_autograd import CholmodSolveFunction
    from theseus.optimizer.linear_system import SparseStructure
    for n, (cols, rows) in enumerate(PATTERNS):
        ptr = np.cumsum([0] + [len(r) for r in rows])
        ind = np.array([c for r in rows for c in r], dtype=int)
        st = SymStructure(SparseStructure(ind, ptr, len(rows), cols))
        for B in (1, 2):
            val, b = fixed(k, f"val{n}", B, len(ind)), fixed(k, f"b{n}", B, len(rows))
            for beta in (0.0, 0.5):
                c = Ctx()
                x = CholmodSolveFunction.forward(c, val, b, st, SymCholesky(), beta)
                for i in range(B):
                    A = st.csr_straight(val[i]).dense()
                    M = A.t() @ A + beta * torch.eye(cols, dtype=k.dtype)
                    if not k.symbolic and float(torch.linalg.cond(M)) > 1e7:
                        continue
                    k.eq(f"pattern {n}/batch {B}/damping {beta}/{i}", x[i], torch.linalg.solve(M, A.t() @ b[i]), ctol=1e-7)


# -- the solvers whose extensions are not installed, against their interface --------------
class FakeExtensions:
    """stands for theseus.extlib: what the C++ code promises, in torch."""

    def __init__(self, k):
        self.k = k

    def __enter__(self):
        from theseus.optimizer.autograd import baspacho_sparse_autograd as bsa, lu_cuda_sparse_autograd as lsa
        import theseus.optimizer.linear.baspacho_sparse_solver as bss
        import theseus.optimizer.linear.lu_cuda_sparse_solver as lss
        k = self.k

        def dense(num_cols, ptr, ind, val):
            out = []
            for r in range(len(ptr) - 1):
                row = [torch.zeros_like(val[:, 0]) for _ in range(num_cols)]
                for p in range(int(ptr[r]), int(ptr[r + 1])):
                    row[int(ind[p])] = row[int(ind[p])] + val[:, p]
                out.append(torch.stack(row, dim=1))
            return torch.stack(out, dim=1)

        def mat_vec(bs, num_cols, ptr, ind, val, v):
            assert bs == val.shape[0] == v.shape[0] and v.shape[1] == num_cols
            return dense(num_cols, ptr, ind, val).bmm(v.unsqueeze(2)).squeeze(2)

        def tmat_vec(bs, num_cols, ptr, ind, val, v):
            assert bs == val.shape[0] == v.shape[0] and v.shape[1] == len(ptr) - 1
            return dense(num_cols, ptr, ind, val).transpose(1, 2).bmm(v.unsqueeze(2)).squeeze(2)

        def mult_MtM(bs, ptr, ind, val, Mptr, Mind):
            n = len(Mptr) - 1
            D = dense(n, ptr, ind, val)
            M = D.transpose(1, 2).bmm(D)
            return torch.stack([M[:, r, int(Mind[p])] for r in range(n) for p in range(int(Mptr[r]), int(Mptr[r + 1]))], dim=1)

        def apply_damping(bs, n, ptr, ind, M, alpha, beta):
            for t in (alpha, beta):
                assert t.ndim == 1 and t.shape[0] == bs and t.dtype == torch.float64
            for r in range(n):
                for p in range(int(ptr[r]), int(ptr[r + 1])):
                    if int(ind[p]) == r:
                        M[:, p] = M[:, p] + alpha * M[:, p] + beta

        class CusolverLUSolver:
            def __init__(s, batch_size, n, ptr, ind):
                s.batch_size, s.n, s.A_rowPtr, s.A_colInd, s.factor_id = batch_size, n, ptr, ind, 0

            def factor(s, val):
                assert val.shape[0] == s.batch_size or k.symbolic
                s.M = dense(s.n, s.A_rowPtr, s.A_colInd, val)
                s.factor_id += 1

            def solve(s, x):
                x.copy_(torch.linalg.solve(s.M, x.unsqueeze(2)).squeeze(2))

        class SymbolicDecomposition:
            def __init__(s, size, ptr, ind, dev):
                s.size, s.ptr, s.ind = [int(i) for i in size], ptr, ind
                s.blocks = {(r, int(ind[p])) for r in range(len(s.size)) for p in range(int(ptr[r]), int(ptr[r + 1]))}

            def create_numeric_decomposition(s, bs):
                return Numeric(s, bs)

        class Numeric:
            def __init__(s, sym, bs):
                s.sym, s.bs = sym, bs

            def add_MtM(s, val, ptr, ind):
                D = dense(sum(s.sym.size), ptr, ind, val)
                s.M = D.transpose(1, 2).bmm(D)
                # every entry lies in a declared block
                at = [i for i, d in enumerate(s.sym.size) for _ in range(d)]
                for r in range(len(ptr) - 1):
                    cs = [int(c) for c in ind[int(ptr[r]):int(ptr[r + 1])]]
                    for i in cs:
                        for j in cs:
                            assert (at[i], at[j]) in s.sym.blocks, "block structure misses an entry"

            def damp(s, alpha, beta):
                d = s.M.diagonal(dim1=1, dim2=2)
                s.M = s.M + torch.diag_embed(alpha.view(-1, 1) * d + beta.view(-1, 1))

            def factor(s):
                s.F = s.M

            def solve(s, x):
                x.copy_(torch.linalg.solve(s.F, x.unsqueeze(2)).squeeze(2))

        mods = {"theseus.extlib.cusolver_lu_solver": dict(CusolverLUSolver=CusolverLUSolver), "theseus.extlib.mat_mult": dict(apply_damping=apply_damping, mult_MtM=mult_MtM, tmat_vec=tmat_vec, mat_vec=mat_vec),
                "theseus.extlib.baspacho_solver": dict(SymbolicDecomposition=SymbolicDecomposition)}
        self.saved = {n: sys.modules.get(n) for n in mods}
        for n, d in mods.items():
            m = types.ModuleType(n)
            m.__dict__.update(d)
            sys.modules[n] = m
        self.cuda, self.avail = torch.Tensor.cuda, torch.cuda.is_available
        torch.Tensor.cuda = lambda t, *a, **kw: t
        torch.cuda.is_available = lambda: True
        self.bmv = bsa.mat_vec, bsa.tmat_vec
        bsa.mat_vec, bsa.tmat_vec = mat_vec, tmat_vec
        self.fns = lss.LUCudaSolveFunction, bss.BaspachoSolveFunction
        self.mods = lss, bss, bsa
        self.ctxs = ctxs = []

        class Direct:
            """what autograd.Function.apply does, without the tape."""

            def __init__(s, fn):
                s.fn = fn

            def apply(s, *a):
                c = Ctx()
                ctxs.append(c)
                return s.fn.forward(c, *a)

        if k.symbolic:
            lss.LUCudaSolveFunction, bss.BaspachoSolveFunction = Direct(self.fns[0]), Direct(self.fns[1])
        return self

    def __exit__(self, *a):
        for n, m in self.saved.items():
            if m is None:
                sys.modules.pop(n)
            else:
                sys.modules[n] = m
        torch.Tensor.cuda, torch.cuda.is_available = self.cuda, self.avail
        lss, bss, bsa = self.mods
        bsa.mat_vec, bsa.tmat_vec = self.bmv
        lss.LUCudaSolveFunction, bss.BaspachoSolveFunction = self.fns


def sparse_solver(cls, o, batch):
    if cls is th.LUCudaSparseSolver:
        return cls(o, num_solver_contexts=3, batch_size=batch)
    s = cls(o)
    return s


def _sparse(si, cls):
    kinds, cfs = STRUCTS[si]

    def body(k):
        with FakeExtensions(k), products_by_contract(k):
            o, vs, fs = build(k, kinds, cfs)
            s = sparse_solver(cls, o, k.B)
            s.reset() if cls is not th.LUCudaSparseSolver else None
            order = list(s.linearization.ordering)
            for again in range(2):
                fill(k, fs, f"{again}", (0,) if again else ())
                s.linearization.linearize()
                A, b, AtA, Atb = normal(k, fs, order)
                for ell in (False, True):
                    for eps in (1e-8, 0.5):
                        for dn, (d, dv) in dampings(k).items():
                            if dn == "batch column" or eps == 0.5 and dn not in ("batch", "float") or again and dn not in ("none", "batch"):
                                continue
                            nm = f"{again}/{'ellipsoidal' if ell else 'plain'} {dn} eps {eps}"
                            x = s.solve(damping=d, ellipsoidal_damping=ell, damping_eps=eps)
                            solves(k, nm, x, AtA if d is None else damped(k, AtA, dv, ell, eps), Atb)

    return body


for _i in range(len(STRUCTS)):
    for _c in (th.LUCudaSparseSolver, th.BaspachoSparseSolver):
        contract("C15", f"{_c.__name__}/structure {_i}", con=(8, 1), budget=100, funcs=[f"{_c.__name__}.solve", f"{_c.__name__}.reset", "convert_to_alpha_beta_damping_tensors"])(_sparse(_i, _c))


@contract("C15", "contexts of the LU solver", mode="con", con=(4,), funcs=["LUCudaSparseSolver.reset", "LUCudaSparseSolver.solve", "LUCudaSolveFunction.backward"])
def contexts(k):
    """the solver adapts its contexts to the batch size, and back-propagating through a
    solve whose context was reused is refused."""
    with FakeExtensions(k):
        o, vs, fs = build(k, ["V1", "V2"], [((1, 0), 2), ((1,), 2), ((0,), 1)])
        s = th.LUCudaSparseSolver(o, num_solver_contexts=2)
        order = list(s.linearization.ordering)
        for b in (4, 2, 3, 4):
            for v in vs:
                v.update(v.tensor[:1].expand(b, v.shape[1]).clone())
            o.update()
            for j, f in enumerate(fs):
                f.J = [k.real(f"b{b}J{j}{i}", f._n, x.dof())[:b].requires_grad_() for i, x in enumerate(f.optim_vars)]
                f.e = k.real(f"b{b}e{j}", f._n)[:b]
            s.linearization.linearize()
            A, bb, AtA, Atb = normal(k, fs, order)
            xs = [s.solve() for _ in range(3)]
            for x in xs:
                solves(k, f"batch {b}", x, AtA, Atb)
            k.raises(f"batch {b}/context reused", lambda: xs[0].sum().backward(), RuntimeError)
            xs[2].sum().backward(retain_graph=True)
            xs[1].sum().backward()


# -- the linear optimiser ---------------------------------------------------------------
@contract("C15", "linear optimiser", mode="con", con=(5, 1), funcs=["LinearOptimizer._optimize_impl"])
def linear_optimizer(k):
    """one step of the optimiser moves the variables by the solution."""
    for cls in DENSE + [th.CholmodSparseSolver]:
        o, vs, fs = build(k, ["V1", "V2"], [((1, 0), 2), ((1,), 2), ((0,), 1)])
        opt = th.LinearOptimizer(o, cls)
        old = {v.name: v.tensor.clone() for v in vs}
        A, b, AtA, Atb = normal(k, fs, list(opt.linear_solver.linearization.ordering))
        d = torch.linalg.solve(AtA, Atb).squeeze(2)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            info = opt.optimize()
        at = 0
        for v in opt.linear_solver.linearization.ordering:
            k.eq(f"{cls.__name__}/{v.name}", v.tensor, old[v.name] + d[:, at:at + v.dof()], ctol=1e-7)
            k.eq(f"{cls.__name__}/{v.name}/solution", info.best_solution[v.name], v.tensor, ctol=0)
            at += v.dof()
        k.same(f"{cls.__name__}/status", [s.name for s in info.status], ["CONVERGED"] * k.B)
    # singular system
    o, vs, fs = build(k, ["V1", "V2"], [((1, 0), 2), ((1,), 2), ((0,), 1)])
    for f in fs:
        f.J = [torch.zeros_like(j) for j in f.J]
    for cls in DENSE:
        opt = th.LinearOptimizer(o, cls)
        old = {v.name: v.tensor.clone() for v in vs}
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with torch.no_grad():
                info = opt.optimize()
            k.same(f"{cls.__name__}/failed", [s.name for s in info.status], ["FAIL"] * k.B)
            for v in vs:
                k.eq(f"{cls.__name__}/failed/{v.name}", v.tensor, old[v.name], ctol=0)
            k.raises(f"{cls.__name__}/failed with gradients", lambda: opt.optimize(), RuntimeError)
