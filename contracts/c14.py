"""C14: the linearization is the stacked weighted Jacobian and residual."""
import itertools
import random

import numpy as np
import torch
import theseus as th
import theseus.optimizer.sparse_linearization as spl
import theseus.utils.sparse_matrix_utils as smu
from theseus.optimizer import DenseLinearization, SparseLinearization, VariableOrdering
from dv.run import contract
from .objs import Quad, quad, quad_jac
from .zoo import specs, value, wrap, dof, callees_by_contract

INFO = dict(
    level="proof",
    trusted=["scipy's product of a CSR or CSC matrix with a vector (the symbolic clauses use its definition, the bounded clauses run it)"],
    assumptions=["a cost function may be any object that serves weighted Jacobian blocks and a weighted error of the right shapes, for one or all batch elements",
                 "structures (which cost function touches which variables, dimensions, orderings) are enumerated: in full up to two cost functions over three variables, and sampled beyond; the numbers in the blocks and the batch size are unconstrained"],
)


class Blocks(th.CostFunction):
    """any cost function: the caller chooses what its blocks and error are."""

    def __init__(self, optim, dim, name):
        super().__init__(th.ScaleCostWeight(torch.ones(1, 1, dtype=optim[0].dtype)), name=name)
        for i, v in enumerate(optim):
            setattr(self, f"o{i}", v)
            self.register_optim_var(f"o{i}")
        self._n, self.J, self.e = dim, None, None

    def dim(self):
        return self._n

    def error(self):
        return self.e

    def jacobians(self):
        return self.J, self.e

    def weighted_error(self):
        return self.e

    def weighted_jacobians_error(self):
        return self.J, self.e

    def _copy_impl(self, new_name=None):
        raise NotImplementedError


KINDS = ["V1", "V2", "SE2", "V3", "SO3"]


def variables(k, kinds):
    return [wrap(kd, value(k, kd, f"var{i}{kd}", False), f"v{i}") for i, kd in enumerate(kinds)]


def build(k, kinds, cfs, tag="", one=()):
    """cfs: list of (indices of variables, dimension). The variables are registered in
    the order in which the cost functions use them."""
    vs = variables(k, kinds)
    o = th.Objective(dtype=k.dtype)
    fs = [Blocks([vs[i] for i in ix], d, f"cf{j}") for j, (ix, d) in enumerate(cfs)]
    fill(k, fs, tag, one)
    for f in fs:
        o.add(f)
    o.update()
    return o, vs, fs


def fill(k, fs, tag="", one=()):
    for j, f in enumerate(fs):
        single = j in one
        r = lambda n, *sh: k.real(f"{tag}{n}{'~' if single else ''}", *sh, batched=not single)
        u = lambda t: t.unsqueeze(0).clone() if single else t.clone()
        f.J = [u(r(f"J{j}_{i}_{f._n}x{v.dof()}", f._n, v.dof())) for i, v in enumerate(f.optim_vars)]
        f.e = u(r(f"e{j}_{f._n}", f._n))


def expected(k, fs, order):
    """A and b from the definition, entry by entry."""
    at, cols = {}, 0
    for v in order:
        at[v.name] = cols
        cols += v.dof()
    n = max([f.e.shape[0] for f in fs] + [v.shape[0] for v in order])
    zero = torch.zeros(n, dtype=k.dtype)
    rows, b = [], []
    for f in fs:
        for r in range(f._n):
            row = [zero for _ in range(cols)]
            for J, v in zip(f.J, f.optim_vars):
                for c in range(v.dof()):
                    row[at[v.name] + c] = row[at[v.name] + c] + J[:, r, c]
            rows.append(torch.stack(row, dim=1))
            b.append(zero - f.e[:, r])
    return torch.stack(rows, dim=1), torch.stack(b, dim=1)


def csr_dense(k, lin):
    """the matrix the CSR arrays stand for."""
    out = []
    zero = torch.zeros_like(lin.A_val[:, 0])
    for r in range(lin.num_rows):
        row = [zero for _ in range(lin.num_cols)]
        for p in range(int(lin.A_row_ptr[r]), int(lin.A_row_ptr[r + 1])):
            c = int(lin.A_col_ind[p])
            row[c] = row[c] + lin.A_val[:, p]
        out.append(torch.stack(row, dim=1))
    return torch.stack(out, dim=1)


def mv(num_cols, row_ptr, col_ind, val, v):
    out = []
    for r in range(len(row_ptr) - 1):
        s = torch.zeros_like(v[:, 0])
        for p in range(int(row_ptr[r]), int(row_ptr[r + 1])):
            s = s + val[:, p] * v[:, int(col_ind[p])]
        out.append(s)
    return torch.stack(out, dim=1)


def mtv(num_cols, row_ptr, col_ind, val, v):
    out = [torch.zeros_like(v[:, 0]) for _ in range(num_cols)]
    for r in range(len(row_ptr) - 1):
        for p in range(int(row_ptr[r]), int(row_ptr[r + 1])):
            c = int(col_ind[p])
            out[c] = out[c] + val[:, p] * v[:, r]
    return torch.stack(out, dim=1)


class products_by_contract:
    """symbolic side: the CSR products are their definition."""

    def __init__(self, k):
        self.on = k.symbolic

    def __enter__(self):
        self.old = spl.sparse_mv, spl.sparse_mtv
        if self.on:
            spl.sparse_mv, spl.sparse_mtv = mv, mtv

    def __exit__(self, *a):
        spl.sparse_mv, spl.sparse_mtv = self.old


def check(k, nm, lin, fs, order, v, tol=1e-9, products=True):
    """one linearization object against the definition."""
    A, b = expected(k, fs, order)
    dense = isinstance(lin, DenseLinearization)
    got = lin.A if dense else csr_dense(k, lin)
    k.eq(nm + "/A", got, A, ctol=tol)
    k.eq(nm + "/b", lin.b, b, ctol=tol)
    k.same(nm + "/sizes", (lin.num_rows, lin.num_cols), (A.shape[1], A.shape[2]))
    k.same(nm + "/columns", (list(lin.var_start_cols), list(lin.var_dims)), (list(np.cumsum([0] + [q.dof() for q in order])[:-1]), [q.dof() for q in order]))
    if not dense:
        k.true(nm + "/dtype", bool(lin.A_val.dtype == k.dtype and lin.b.dtype == k.dtype))
        ok = int(lin.A_row_ptr[0]) == 0 and int(lin.A_row_ptr[-1]) == len(lin.A_col_ind) == lin.A_val.shape[1] and len(lin.A_row_ptr) == lin.num_rows + 1
        for r in range(lin.num_rows):
            c = list(lin.A_col_ind[lin.A_row_ptr[r]:lin.A_row_ptr[r + 1]])
            ok = ok and c == sorted(set(c)) and all(0 <= i < lin.num_cols for i in c)
        k.true(nm + "/row pointers ascend and columns are sorted and distinct", bool(ok))
        s = lin.structure()
        k.same(nm + "/structure", (list(s.col_ind), list(s.row_ptr), s.num_rows, s.num_cols, s.dtype), (list(lin.A_col_ind), list(lin.A_row_ptr), lin.num_rows, lin.num_cols, np.float64 if k.dtype == torch.float64 else np.float32))
        if not k.symbolic:
            for i in range(min(2, lin.A_val.shape[0])):
                val = lin.A_val[i].detach()
                k.eq(f"{nm}/csr_straight {i}", torch.from_numpy(s.csr_straight(val).toarray()).to(k.dtype), got[i], ctol=tol)
                k.eq(f"{nm}/csc_transpose {i}", torch.from_numpy(s.csc_transpose(val).toarray()).to(k.dtype), got[i].t(), ctol=tol)
            k.eq(nm + "/mock", torch.from_numpy(s.mock_csc_transpose().toarray()), torch.from_numpy(s.csr_straight(torch.ones(len(s.col_ind)).double()).toarray().T), ctol=0)
    if not products:
        return
    At = A.transpose(1, 2)
    AtA = At.bmm(A)
    if dense:
        k.eq(nm + "/AtA", lin.AtA, AtA, ctol=tol)
        k.eq(nm + "/hessian_approx", lin.hessian_approx(), AtA, ctol=tol)
    k.eq(nm + "/Atb", lin.Atb, At.bmm(b.unsqueeze(2)), ctol=tol)
    k.eq(nm + "/Av", lin.Av(v), A.bmm(v.unsqueeze(2)).squeeze(2), ctol=tol)
    k.eq(nm + "/diagonal scaling", lin.diagonal_scaling(v), AtA.diagonal(dim1=1, dim2=2) * v, ctol=tol)
    # asked again: what is kept between calls is still right
    k.eq(nm + "/Atb again", lin.Atb, At.bmm(b.unsqueeze(2)), ctol=tol)
    k.eq(nm + "/diagonal scaling again", lin.diagonal_scaling(v + 1), AtA.diagonal(dim1=1, dim2=2) * (v + 1), ctol=tol)
    k.eq(nm + "/A after the products", lin.A if dense else csr_dense(k, lin), A, ctol=tol)


def orderings(o, names=None):
    """every ordering of the optimisation variables of o (as VariableOrdering)."""
    out = []
    for p in itertools.permutations(list(o.optim_vars.values())):
        q = VariableOrdering(o, default_order=False)
        q.extend(p)
        out.append((" ".join(v.name for v in p), q, list(p)))
    return out


def structure(k, nm, kinds, cfs, one=(), every=True):
    o, vs, fs = build(k, kinds, cfs, one=one)
    v = k.real(f"vec{sum(x.dof() for x in o.optim_vars.values())}", sum(x.dof() for x in o.optim_vars.values()))
    orders = [("default", None, list(o.optim_vars.values()))] + orderings(o)
    for on, q, p in orders if every else orders[:1] + orders[-1:]:
        for cls in (DenseLinearization, SparseLinearization):
            lin = cls(o, q)
            with products_by_contract(k):
                lin.linearize()
                check(k, f"{nm}/{on}/{cls.__name__}", lin, fs, p, v, products=on == "default" or not k.symbolic or q is orders[-1][1])


def _cases(n):
    """which variables (of three) each of n cost functions uses, in which order."""
    one = [s for r in (1, 2, 3) for s in itertools.permutations(range(3), r)]
    rng = random.Random(n)
    if n == 1:
        return [(s,) for s in one]
    all_ = list(itertools.product(one, repeat=n))
    rng.shuffle(all_)
    return all_


def _enum(n, part, parts):
    def body(k):
        cases = _cases(n)[part::parts]
        cases = cases if n < 3 or not k.symbolic else cases[:4]
        for ci, c in enumerate(cases):
            used = sorted({i for s in c for i in s})
            kinds = [KINDS[(i + ci) % 3] for i in range(3)]
            cfs = [(s, 1 + (j + ci) % 2) for j, s in enumerate(c)]
            # variables that nobody uses are not part of the objective
            remap = {u: i for i, u in enumerate(used)}
            cfs = [(tuple(remap[i] for i in s), d) for s, d in cfs]
            one = () if ci % 3 else ((ci // 3) % n,)
            structure(k, f"{c} one={one}", [kinds[u] for u in used], cfs, one, every=(n == 1 or ci % 4 == 0))

    return body


for _n, _parts in ((1, 1), (2, 4), (3, 4)):
    for _p in range(_parts):
        contract("C14", f"structures of {_n} cost functions/{_p + 1} of {_parts}", con=(2,), budget=200,
                 funcs=["DenseLinearization", "SparseLinearization", "Linearization.__init__", "VariableOrdering", "SparseStructure"])(_enum(_n, _p, _parts))

REPEATS = [[((0, 0), 2)], [((0, 1, 0), 2), ((1, 1), 1)], [((1, 0), 1), ((0, 0, 0), 1), ((1, 0, 1), 2)], [((0, 1), 2), ((2, 1, 2), 1), ((1, 1, 0), 1)]]


@contract("C14", "a variable used twice", con=(2, 1), budget=120, funcs=["DenseLinearization._linearize_jacobian_impl", "SparseLinearization.__init__"])
def repeats(k):
    for cfs in REPEATS:
        n = 1 + max(i for s, _ in cfs for i in s)
        for off in range(2):
            structure(k, f"{cfs} {off}", [KINDS[(i + off) % 4] for i in range(n)], cfs, (0,) if off else ())


@contract("C14", "all kinds of variables", con=(2, 1), budget=100, funcs=["Linearization.__init__"])
def kinds(k):
    ks = ["SO2", "SE2", "Point2", "SO3", "SE3", "Point3", "V1", "V4"]
    cfs = [((0, 1), 1), ((2, 3), 2), ((4,), 1), ((5, 7), 1), ((6, 0), 1), ((1, 6), 1)]
    o, vs, fs = build(k, ks, cfs)
    for p in (list(o.optim_vars.values()), list(o.optim_vars.values())[::-1], [vs[i] for i in (4, 0, 7, 1, 6, 3, 2, 5)]):
        q = VariableOrdering(o, default_order=False)
        q.extend(p)
        n = sum(v.dof() for v in p)
        for cls in (DenseLinearization, SparseLinearization):
            lin = cls(o, q)
            with products_by_contract(k):
                lin.linearize()
                check(k, f"{' '.join(v.name for v in p)}/{cls.__name__}", lin, fs, p, k.real("v", n))


@contract("C14", "random structures", mode="con", dtypes=("float64", "float32"), con=(3,), budget=100, funcs=["DenseLinearization", "SparseLinearization"])
def random_structures(k):
    rng = random.Random(7)
    tol = 1e-9 if k.dtype == torch.float64 else 2e-4
    for it in range(60):
        n = rng.randint(1, 7)
        ks = [rng.choice(KINDS + ["SE3", "SO2", "V5"]) for _ in range(n)]
        cfs = [((i,) if rng.random() < 0.5 else (rng.randrange(n), i), rng.randint(1, 3)) for i in range(n)]
        cfs += [(tuple(rng.choice(range(n)) for _ in range(rng.randint(1, 4))), rng.randint(1, 4)) for _ in range(rng.randint(0, 5))]
        rng.shuffle(cfs)
        one = tuple(j for j in range(len(cfs)) if rng.random() < 0.3)
        o, vs, fs = build(k, ks, cfs, f"s{it}", one)
        p = list(o.optim_vars.values())
        rng.shuffle(p)
        q = VariableOrdering(o, default_order=False)
        q.extend(p)
        v = k.real(f"s{it}v", sum(x.dof() for x in p))
        for cls in (DenseLinearization, SparseLinearization):
            lin = cls(o, q)
            lin.linearize()
            check(k, f"structure {it}/{cls.__name__}", lin, fs, p, v, tol)
            if rng.random() < 0.5:  # and again for other numbers
                fill(k, fs, f"s{it}'", one)
                lin.linearize()
                check(k, f"structure {it}/{cls.__name__}/again", lin, fs, p, v, tol)


# -- histories -------------------------------------------------------------------------
@contract("C14", "linearized again", con=(3, 1), budget=120, funcs=["DenseLinearization.linearize", "SparseLinearization._linearize_jacobian_impl", "SparseLinearization._atb_impl", "SparseLinearization.diagonal_scaling"])
def again(k):
    """nothing of an earlier linearization survives, whatever was asked of it."""
    cfs = [((0, 1), 1), ((1,), 2), ((2, 0), 1)]
    for cls in (DenseLinearization, SparseLinearization):
        for asked in ((), ("Atb",), ("diag",), ("Atb", "diag", "Av")):
            for detach in ((False, False), (True, False), (False, True)):
                o, vs, fs = build(k, ["V1", "V2", "V1"], cfs)
                v = k.real("vec4", 4)
                lin = cls(o)
                with products_by_contract(k):
                    lin.linearize(_detach_hessian=detach[0])
                    for a in asked:
                        lin.Atb if a == "Atb" else lin.diagonal_scaling(v) if a == "diag" else lin.Av(v)
                    fill(k, fs, "second", (1,))
                    lin.linearize(_detach_hessian=detach[1])
                    nm = f"{cls.__name__}/{' '.join(asked)}/{detach}"
                    check(k, nm, lin, fs, vs, v)
                    if cls is SparseLinearization:
                        k.same(nm + "/detached flag", lin.detached_hessian, detach[1])


@contract("C14", "batch size changes", mode="con", con=(4,), funcs=["DenseLinearization._linearize_jacobian_impl", "SparseLinearization._linearize_jacobian_impl"])
def batches(k):
    cfs = [((0, 1), 1), ((1,), 2), ((2, 0), 1)]
    for cls in (DenseLinearization, SparseLinearization):
        o, vs, fs = build(k, ["V1", "V2", "V1"], cfs)
        lin = cls(o)
        for b in (4, 1, 3, 2, 4):
            for v in vs:
                v.update(v.tensor[:1].expand(b, v.shape[1]).clone())
            o.update()
            for j, f in enumerate(fs):
                f.J = [k.real(f"b{b}J{j}{i}", f._n, x.dof())[:b] for i, x in enumerate(f.optim_vars)]
                f.e = k.real(f"b{b}e{j}", f._n)[:b]
            lin.linearize()
            check(k, f"{cls.__name__}/{b}", lin, fs, vs, k.real("vec4", 4)[:b])


@contract("C14", "orderings", mode="con", con=(1,), funcs=["VariableOrdering.append", "VariableOrdering.remove", "VariableOrdering.extend", "VariableOrdering.index_of", "VariableOrdering.complete"])
def ordering_histories(k):
    """after any history of appends and removals, index_of is the position, iteration and
    indexing give the order, and only a complete ordering is accepted."""
    rng = random.Random(3)
    o, vs, fs = build(k, ["V1", "V2", "SE2", "V3"], [((0, 1), 1), ((2,), 1), ((3, 1), 1)])
    other = th.Vector(1, name="stranger", dtype=k.dtype)
    for h in range(120):
        q = VariableOrdering(o, default_order=rng.random() < 0.5)
        m = list(q)
        trace = []
        for i in range(rng.randint(1, 10)):
            op = rng.random()
            if op < 0.4 and m:
                v = rng.choice(m)
                q.remove(v)
                m.remove(v)
                trace.append("-" + v.name)
            elif op < 0.5:
                add = [v for v in vs if v not in m][:2]
                q.extend(add)
                m += add
                trace.append("+" + " ".join(v.name for v in add))
            else:
                v = rng.choice(vs + [other])
                trace.append("+" + v.name)
                if v in m or v is other:
                    k.raises(f"{trace}/refused", lambda v=v: q.append(v), ValueError)
                else:
                    q.append(v)
                    m.append(v)
            nm = " ".join(trace)
            k.true(f"{nm}/order", bool(len(list(q)) == len(m) and all(a is b for a, b in zip(q, m)) and all(q[i] is m[i] for i in range(len(m)))))
            k.same(f"{nm}/indices", [q.index_of(v.name) for v in m], list(range(len(m))))
            k.same(f"{nm}/complete", q.complete, len(m) == len(vs))
        for cls in (DenseLinearization, SparseLinearization):
            if len(m) < len(vs):
                k.raises(f"{nm}/incomplete ordering", lambda: cls(o, q), ValueError)
                continue
            lin = cls(o, q)
            lin.linearize()
            check(k, f"{nm}/{cls.__name__}", lin, fs, m, k.real("vec9", 9))
        if len(m) == len(vs):
            q.remove(m[0])
            k.raises(f"{nm}/removed later", lambda: lin.linearize(), RuntimeError)


# -- with the real cost functions ----------------------------------------------------------
@contract("C14", "real cost functions", mode="con", con=(3, 1), budget=100, funcs=["DenseLinearization", "SparseLinearization", "Objective._get_jacobians_iter"])
def real_costs(k):
    """the library's own cost functions, vectorized or not: A is the derivative the cost
    functions report, b minus the weighted error, in the order of the objective."""
    rng = random.Random(11)
    S = [s for s in specs() if not s.name.startswith("AutoDiff loop")]
    for it in range(12):
        pick = [rng.choice(S) for _ in range(4)]
        for vec in (False, True):
            o = th.Objective(dtype=k.dtype)
            for j, s in enumerate(pick):
                single = tuple(x for x in s.aux if (it + j) % 3 == 0)
                ts = {q: value(k, kd, f"{it}.{j}.{q}{'~' if q in single else ''}", q in single) for q, kd in s.slots.items()}
                for c in range(2):
                    v = {q: wrap(kd, ts[q].clone(), f"{j}{q}" if q in s.optim and c == 0 else f"{j}{q}{c}") for q, kd in s.slots.items()}
                    o.add(s.make(v, s.mkweight(v, f"w{j}{c}"), name=f"cf{j}{c}"))
            if vec:
                th.Vectorize(o)
            o.update()
            n = o.batch_size
            p = list(o.optim_vars.values())
            rng.shuffle(p)
            q = VariableOrdering(o, default_order=False)
            q.extend(p)
            want = []
            for f in o.cost_functions.values():
                J, e = f.weighted_jacobians_error()
                want.append(Plain(f, J, e))
            v = k.real(f"{it}vec", sum(x.dof() for x in p))
            for cls in (DenseLinearization, SparseLinearization):
                lin = cls(o, q)
                lin.linearize()
                check(k, f"{it} {' '.join(s.name for s in pick)}/{'vectorized' if vec else 'plain'}/{cls.__name__}", lin, want, p, v[:n], 1e-8)


class Plain:
    def __init__(self, f, J, e):
        self.J, self.e, self._n, self.optim_vars = J, e, f.dim(), list(f.optim_vars)


@contract("C14", "derivatives", mode="con", con=(2, 1), funcs=["DenseLinearization", "SparseLinearization"])
def derivatives(k):
    """A, b and the products carry the derivatives of the blocks they are made of, and a
    detached Hessian does not (but its right-hand side does)."""
    cfs = [((0, 1), 1), ((1,), 2), ((2, 0, 2), 1)]
    o, vs, fs = build(k, ["V1", "V2", "SE2"], cfs)
    for f in fs:
        f.J = [j.clone().requires_grad_(True) for j in f.J]
        f.e = f.e.clone().requires_grad_(True)
    xs = [j for f in fs for j in f.J] + [f.e for f in fs]
    v = k.real("vec6", 6).clone().requires_grad_(True)
    A, b = expected(k, fs, vs)
    At = A.transpose(1, 2)
    refs = dict(A=A, b=b, AtA=At.bmm(A), Atb=At.bmm(b.unsqueeze(2)), Av=A.bmm(v.unsqueeze(2)).squeeze(2), diag=At.bmm(A).diagonal(dim1=1, dim2=2) * v)
    for cls in (DenseLinearization, SparseLinearization):
        lin = cls(o)
        lin.linearize()
        got = dict(A=lin.A if cls is DenseLinearization else csr_dense(k, lin), b=lin.b, Atb=lin.Atb, Av=lin.Av(v), diag=lin.diagonal_scaling(v))
        if cls is DenseLinearization:
            got["AtA"] = lin.AtA
        for n, g in got.items():
            w = k.real(f"w{n}", *g.shape[1:])
            ga = torch.autograd.grad((g * w).sum(), xs + [v], allow_unused=True, retain_graph=True)
            gb = torch.autograd.grad((refs[n] * w).sum(), xs + [v], allow_unused=True, retain_graph=True)
            for i, (x, y) in enumerate(zip(ga, gb)):
                z = torch.zeros_like((xs + [v])[i])
                k.eq(f"{cls.__name__}/{n}/{i}", z if x is None else x, z if y is None else y, ctol=1e-9)
    lin = DenseLinearization(o)
    lin.linearize(_detach_hessian=True)
    k.same("detached Hessian", (lin.AtA.requires_grad, lin.Atb.requires_grad), (False, True))
    k.eq("detached Hessian/value", lin.AtA, refs["AtA"], ctol=1e-9)


# -- the products with sparse matrices ---------------------------------------------------------
PATTERNS = [(3, [[0, 2], [1], [0, 1, 2]]), (2, [[1], [], [0, 1], [0]]), (4, [[3, 0], [2, 1]]), (1, [[0], [0]]), (3, [[], [1]])]


class Ctx:
    def save_for_backward(self, *t):
        self.saved_tensors = t


@contract("C14", "sparse products", con=(4, 1), budget=60, funcs=["sparse_mv", "sparse_mtv", "_sparse_mat_vec_bwd_backend", "_sparse_mat_vec_fwd_backend", "_mat_vec_cpu", "_tmat_vec_cpu"])
def products(k):
    """sparse_mv and sparse_mtv are the products with the matrix and its transpose, and
    their backward is the vector-Jacobian product."""
    for n, (cols, rows) in enumerate(PATTERNS):
        ptr = torch.tensor(np.cumsum([0] + [len(r) for r in rows]), dtype=torch.int32)
        ind = torch.tensor([c for r in rows for c in r], dtype=torch.int32)
        val = k.real(f"val{n}", len(ind))
        for nm, f, ref, nin, nout, t in (("mv", smu.sparse_mv, mv, cols, len(rows), False), ("mtv", smu.sparse_mtv, mtv, len(rows), cols, True)):
            v, g = k.real(f"v{n}{nm}", nin), k.real(f"g{n}{nm}", nout)
            if not k.symbolic:
                a, b = val.clone().requires_grad_(True), v.clone().requires_grad_(True)
                y = f(cols, ptr, ind, a, b)
                k.eq(f"{n}/{nm}", y, ref(cols, ptr, ind, val, v), ctol=1e-10)
                ga, gb = torch.autograd.grad((y * g).sum(), [a, b])
            else:
                c = Ctx()
                y = smu._sparse_mat_vec_fwd_backend(c, cols, ptr, ind, val, v, lambda bs, m, p, i, a, b: ref(m, p, i, a, b))
                k.eq(f"{n}/{nm}", y, ref(cols, ptr, ind, val, v))
                ga, gb = smu._sparse_mat_vec_bwd_backend(c, g, t)
            # the definition of the vector-Jacobian product of a bilinear map
            wa, wb = [], [torch.zeros_like(v[:, 0]) for _ in range(nin)]
            for r in range(len(rows)):
                for p in range(int(ptr[r]), int(ptr[r + 1])):
                    c_ = int(ind[p])
                    i, o_ = (r, c_) if t else (c_, r)
                    wa.append(g[:, o_] * v[:, i])
                    wb[i] = wb[i] + g[:, o_] * val[:, p]
            k.eq(f"{n}/{nm}/grad of the matrix", ga, torch.stack(wa, dim=1), ctol=1e-10)
            k.eq(f"{n}/{nm}/grad of the vector", gb, torch.stack(wb, dim=1), ctol=1e-10)
