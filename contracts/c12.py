"""C12: copies are equivalent and independent."""
import copy as pycopy

import torch
import theseus as th
import torchlie
from dv.run import contract
from .groups import G
from .objs import Quad
from .zoo import specs, value, wrap, callees_by_contract

INFO = dict(
    level="proof",
    assumptions=["objectives of up to seven cost functions (structures enumerated); tensor values and batch sizes are unconstrained in the symbolic clauses",
                 "collision, contact and AutoDiff cost functions are evaluated only in the bounded run (their copies' structure is checked in both)"],
)
SPECS = specs()


def disturb(v):
    """an in-place edit of the tensor a variable holds."""
    v.tensor.add_(1.0)


def fresh(k, kind, name, single):
    return value(k, kind, name, single)


KINDS = ["SO2", "SE2", "SO3", "SE3", "Point2", "Point3", "V3", "V1", "D2", "data"]


@contract("C12", "variables", con=(1, 3), dtypes=("float64", "float32"), funcs=["Variable.copy", "Manifold.copy", "SO2._copy_impl", "SE2._copy_impl", "SO3._copy_impl", "SE3._copy_impl", "Vector._copy_impl", "Point2", "Point3", "__deepcopy__"])
def variables(k):
    for kind in KINDS:
        for single in (False, True):
            for how in ("copy", "named copy", "deepcopy"):
                nm = f"{kind}/{'single' if single else 'batched'}/{how}"
                t = fresh(k, kind, f"{kind}{single}", single)
                t0 = t.clone()
                v = wrap(kind, t, "v")
                c = {"copy": lambda: v.copy(), "named copy": lambda: v.copy(new_name="other"), "deepcopy": lambda: pycopy.deepcopy(v)}[how]()
                k.same(f"{nm}/type", type(c) is type(v) and c is not v, True)
                k.same(f"{nm}/name", (v.name, c.name), ("v", "other" if how == "named copy" else "v_copy"))
                k.same(f"{nm}/dtype, shape", (c.dtype, tuple(c.shape)), (v.dtype, tuple(v.shape)))
                k.eq(f"{nm}/tensor", c.tensor, t0, ctol=0)
                k.same(f"{nm}/original keeps its tensor", v.tensor is t, True)
                if isinstance(v, th.Manifold):
                    k.same(f"{nm}/dof", c.dof(), v.dof())
                disturb(c)
                k.eq(f"{nm}/original after an edit of the copy", v.tensor, t0, ctol=0)
                c.update(t0)
                disturb(v)
                k.eq(f"{nm}/copy after an edit of the original", c.tensor, t0, ctol=0)
                c2 = v.copy()
                e2 = c2.tensor.clone()
                t2 = fresh(k, kind, f"{kind}{single}n", single)
                v.update(t2)
                k.eq(f"{nm}/copy after an update of the original", c2.tensor, e2, ctol=0)
                k.eq(f"{nm}/copy of an updated variable", v.copy().tensor, t2, ctol=0)


@contract("C12", "gradients pass through copies", mode="con", con=(3,), funcs=["Variable.copy", "Manifold.copy"])
def graph(k):
    for kind in KINDS:
        t = fresh(k, kind, kind, False).detach().clone().requires_grad_(True)
        for how in ("copy", "deepcopy"):
            v = wrap(kind, t, "v")
            c = v.copy() if how == "copy" else pycopy.deepcopy(v)
            g = torch.rand_like(t)
            k.eq(f"{kind}/{how}", torch.autograd.grad((c.tensor * g).sum(), t)[0], g, ctol=0)


@contract("C12", "torchlie tensors", mode="con", con=(3,), dtypes=("float64", "float32"), funcs=["LieTensor.clone", "LieTensor.new_lietensor", "LieTensor.detach"])
def lie(k):
    for name in ("SO3", "SE3"):
        t = getattr(k, "rot" if name == "SO3" else "pose3")("x" + name)
        t0 = t.clone()
        x = torchlie.LieTensor(t, ltype=getattr(torchlie, name))
        for how, f in (("clone", lambda: x.clone()), ("new", lambda: x.new_lietensor(x._t.clone()))):
            c = f()
            nm = f"{name}/{how}"
            k.same(f"{nm}/type", (type(c) is type(x), c.ltype == x.ltype, c.dtype), (True, True, t.dtype))
            k.eq(f"{nm}/value", c._t, t0, ctol=0)
            c._t[0] += 1
            k.eq(f"{nm}/original unchanged", x._t, t0, ctol=0)


def linked(k, nm, pairs):
    """the copies share exactly what the originals share, and nothing with them."""
    olds, news = [o for o, _ in pairs], [n for _, n in pairs]
    k.same(f"{nm}/sharing", [[a is b for b in news] for a in news], [[a is b for b in olds] for a in olds])
    k.same(f"{nm}/nothing shared with the original", [a is b for a in news for b in olds].count(True), 0)
    k.same(f"{nm}/no tensor object shared", [a.tensor is b.tensor for a in news if hasattr(a, "tensor") for b in olds if hasattr(b, "tensor")].count(True), 0)


def all_vars(f):
    vs = list(f.optim_vars) + list(f.aux_vars)
    if hasattr(f, "weight"):
        vs += list(f.weight.optim_vars) + list(f.weight.aux_vars)
    return vs


def same_values(k, nm, a, b, weighted=True):
    k.eq(f"{nm}/error", a.error(), b.error(), ctol=1e-12)
    (Ja, ea), (Jb, eb) = a.jacobians(), b.jacobians()
    k.eq(f"{nm}/error with Jacobians", ea, eb, ctol=1e-12)
    k.same(f"{nm}/number of blocks", len(Ja), len(Jb))
    for i, (x, y) in enumerate(zip(Ja, Jb)):
        k.eq(f"{nm}/J[{i}]", x, y, ctol=1e-12)
    k.eq(f"{nm}/weighted error", a.weighted_error(), b.weighted_error(), ctol=1e-12)
    (Ja, ea), (Jb, eb) = a.weighted_jacobians_error(), b.weighted_jacobians_error()
    k.eq(f"{nm}/weighted error with Jacobians", ea, eb, ctol=1e-12)
    for i, (x, y) in enumerate(zip(Ja, Jb)):
        k.eq(f"{nm}/weighted J[{i}]", x, y, ctol=1e-12)


def structure(k, nm, cf, c, keep, new_name):
    k.same(f"{nm}/type", (type(c) is type(cf), type(c.weight) is type(cf.weight)), (True, True))
    k.same(f"{nm}/name", c.name, new_name or cf.name + "_copy")
    k.same(f"{nm}/dim", c.dim(), cf.dim())
    for which in ("optim_vars", "aux_vars"):
        o, n = list(getattr(cf, which)), list(getattr(c, which))
        k.same(f"{nm}/{which}", [(v.name, type(v), tuple(v.shape), v.dtype) for v in n], [(v.name if keep else v.name + "_copy", type(v), tuple(v.shape), v.dtype) for v in o])
        for a, b in zip(o, n):
            k.eq(f"{nm}/{which} {a.name}", b.tensor, a.tensor, ctol=0)
    k.same(f"{nm}/weight variables", [(type(v), tuple(v.shape)) for v in c.weight.aux_vars], [(type(v), tuple(v.shape)) for v in cf.weight.aux_vars])
    for i, (a, b) in enumerate(zip(cf.weight.aux_vars, c.weight.aux_vars)):
        k.eq(f"{nm}/weight variable {i}", b.tensor, a.tensor, ctol=0)
    linked(k, nm, list(zip(all_vars(cf) + [cf.weight], all_vars(c) + [c.weight])))
    for attr in ("flatten_dims", "_autograd_mode", "_autograd_create_graph", "_autograd_strict", "_autograd_vectorize", "_autograd_strategy", "_err_fn", "_dim", "_use_huber"):
        if hasattr(cf, attr):
            k.same(f"{nm}/{attr}", getattr(c, attr) == getattr(cf, attr), True)
    if hasattr(cf, "loss"):
        k.same(f"{nm}/loss", type(c.loss) is type(cf.loss), True)


def make_copy(cf, how):
    return {"copy": lambda: cf.copy(), "kept names": lambda: cf.copy(new_name="other", keep_variable_names=True), "deepcopy": lambda: pycopy.deepcopy(cf)}[how]()


def roles(spec, cf):
    """slot name of each variable of a cost function (and of its weight)."""
    return {v.name: v for v in all_vars(cf)}


def cost_function(spec):
    def body(k):
        evaluate = spec.sym or not k.symbolic
        with callees_by_contract(k):
            slots = list(spec.slots)
            for how, single in (("copy", ()), ("kept names", tuple(spec.aux)), ("deepcopy", tuple(spec.wslots)), ("copy", tuple(slots[:1]) + tuple(spec.aux)), ("kept names", ())):
                nm = f"{how}/single {' '.join(single)}"
                ts = spec.tensors(k, "a", single)
                cf = spec.make(spec.variables(ts))
                c = make_copy(cf, how)
                structure(k, nm, cf, c, how == "kept names", "other" if how == "kept names" else None)
                if not evaluate:
                    continue
                ref = spec.make(spec.variables(ts), name="ref")
                same_values(k, nm, c, ref)
                # each variable of the copy drives the copy, none of the original's does
                new = spec.tensors(k, "b", single)
                moved = spec.make(spec.variables(new), name="moved")
                for a, b in zip(all_vars(c), all_vars(moved)):
                    a.update(b.tensor.clone())
                same_values(k, f"{nm}/updated copy", c, moved)
                same_values(k, f"{nm}/original after updates of the copy", cf, ref)
                # one at a time, in place on the original
                for i, v in enumerate(all_vars(cf)):
                    v.update(all_vars(moved)[i].tensor.clone())
                    k.eq(f"{nm}/original moved up to {i}/copy", c.error(), moved.error(), ctol=1e-12)
                same_values(k, f"{nm}/moved original", cf, moved)
                # a copy of a copy
                cc = c.copy(keep_variable_names=True)
                same_values(k, f"{nm}/second copy", cc, moved)
                linked(k, f"{nm}/second copy", list(zip(all_vars(c), all_vars(cc))))
                for v in list(c.optim_vars) + list(cf.optim_vars):
                    v.update(value(k, kind_of(spec, cf, c, v), f"{spec.name}.z{nm}{v.name}", v.shape[0] == 1))
                same_values(k, f"{nm}/second copy after updates of both", cc, moved)

    return body


def kind_of(spec, cf, c, v):
    for f in (cf, c):
        for s, u in zip(list(spec.optim), f.optim_vars):
            if u is v:
                return spec.optim[s]


for _s in SPECS:
    contract("C12", f"cost function {_s.name}", con=(3, 1), budget=200, funcs=[f"copy of {_s.name}", "TheseusFunction.copy", "CostFunction.copy"])(cost_function(_s))


@contract("C12", "shared with the weight", con=(3,), budget=200, funcs=["CostFunction.copy", "TheseusFunction._link_copied_vars"])
def shared(k):
    """a variable used by a cost function and its weight, or in two slots."""
    with callees_by_contract(k):
        for how in ("copy", "kept names", "deepcopy"):
            for spec in SPECS:
                if spec.name not in ("GPSE2", "GPV2", "Hinge", "Quad", "HuberLoss"):
                    continue
                ts = spec.tensors(k, "s")
                v = spec.variables(ts)
                if spec.name == "Quad":
                    q = Quad([v["x"], v["y"]], [v["a"], v["a"]], th.DiagonalCostWeight(v["a"], name="wt"), 2, name="cf")
                elif spec.name == "HuberLoss":
                    q = th.RobustCostFunction(th.Between(v["a"], v["b"], v["m"], th.ScaleCostWeight(v["lr"]), name="in"), th.HuberLoss, v["lr"], name="cf")
                elif spec.name == "Hinge":
                    q = spec._make(v, th.DiagonalCostWeight(v["thr"], name="wt"), "cf")
                else:
                    q = spec.make(v)  # dt belongs to both
                nm = f"{spec.name}/{how}"
                c = make_copy(q, how)
                linked(k, nm, list(zip(all_vars(q), all_vars(c))))
                same_values(k, nm, c, q)
                new = spec.tensors(k, "n")
                e0 = q.error()
                for a, s in ((a, s) for a in all_vars(c) for s in spec.slots if a.name in (s, s + "_copy")):
                    a.update(new[s])
                for a, s in ((a, s) for a in all_vars(q) for s in spec.slots if a.name == s):
                    a.update(new[s].clone())
                same_values(k, f"{nm}/after the same updates", c, q)


# -- objectives -----------------------------------------------------------------------
def objective(k, pre="", single=()):
    """several cost functions with shared variables and weights."""
    kinds = dict(x="SE2", y="SE2", p="V3", q="V3", g="V3", v1="V3", v2="V3", m="SE2", lo="N3", up="U3", thr="U3", w="pos", d="U3", dt="pos", lr="D1", Qc="P3", c="D2", dd="D6")
    ts = {n: value(k, kd, f"o.{pre}{n}{'1' if n in single else ''}", n in single) for n, kd in kinds.items()}
    v = {n: wrap(kd, ts[n], n) for n, kd in kinds.items()}
    ws, wd = th.ScaleCostWeight(v["w"], name="ws"), th.DiagonalCostWeight(v["d"], name="wd")
    wq = th.eb.GPCostWeight(v["Qc"], v["dt"], name="wq")
    w2 = th.ScaleCostWeight(v["w"], name="w2")  # another weight over the same variable
    cfs = [
        th.Between(v["x"], v["y"], v["m"], ws, name="between"),
        th.Difference(v["y"], v["m"], wd, name="prior"),
        th.eb.GPMotionModel(v["x"], v["v1"], v["y"], v["v2"], v["dt"], wq, name="gp"),
        th.eb.HingeCost(v["p"], v["lo"], v["up"], v["thr"], wd, name="hinge"),
        th.RobustCostFunction(th.Between(v["p"], v["q"], v["g"], ws, name="inner"), th.HuberLoss, v["lr"], name="huber"),
        th.RobustCostFunction(th.Difference(v["p"], v["g"], wd, name="inner2"), th.WelschLoss, v["lr"], name="welsch", flatten_dims=True),
        Quad([v["p"], v["v2"]], [v["c"], v["lo"]], w2, 2, name="quad"),
    ]
    return cfs, kinds, ts, v


def fill(cfs, names, order=None):
    o = th.Objective(dtype=cfs[0].weight.aux_var_at(0).dtype)
    by = {c.name: c for c in cfs}
    for n in names:
        o.add(by[n])
    return o


SETS = [
    ("between", "prior", "gp", "hinge", "huber", "welsch", "quad"),
    ("quad", "welsch", "huber"),
    ("gp", "between"),
    ("hinge",),
    ("huber", "prior", "hinge", "between"),
]


def uses(f):
    return [v for v in list(f.optim_vars)], [v for v in f.aux_vars]


def check_objective(k, nm, o, c):
    k.same(f"{nm}/settings", (type(c) is type(o), c is o, c.dtype, c._error_metric_fn is o._error_metric_fn, c._allow_mixed_optim_aux_vars), (True, False, o.dtype, True, o._allow_mixed_optim_aux_vars))
    k.same(f"{nm}/cost functions", [(n, f.name, type(f)) for n, f in c.cost_functions.items()], [(n, f.name, type(f)) for n, f in o.cost_functions.items()])
    k.same(f"{nm}/dim", c.dim(), o.dim())
    for which in ("optim_vars", "aux_vars", "cost_weight_optim_vars"):
        a, b = getattr(o, which), getattr(c, which)
        k.same(f"{nm}/{which}", [(n, v.name, type(v)) for n, v in b.items()], [(n, v.name, type(v)) for n, v in a.items()])
    pairs = []
    for f, g in zip(o.cost_functions.values(), c.cost_functions.values()):
        k.same(f"{nm}/{f.name}/variable names", [v.name for v in all_vars(g)], [v.name for v in all_vars(f)])
        k.same(f"{nm}/{f.name}/weight", (type(g.weight) is type(f.weight), g.weight.name), (True, f.weight.name))
        pairs += list(zip(all_vars(f), all_vars(g))) + [(f.weight, g.weight), (f, g)]
        k.same(f"{nm}/{f.name}/registered variables", [c.get_optim_var(v.name) is v for v in g.optim_vars] + [c.get_aux_var(v.name) is v for v in g.aux_vars] + [c.get_aux_var(v.name) is v for v in g.weight.aux_vars], [True] * len(all_vars(g)))
        if isinstance(f, th.RobustCostFunction):
            pairs += list(zip(all_vars(f.cost_function), all_vars(g.cost_function))) + [(f.cost_function.weight, g.cost_function.weight)]
    linked(k, nm, pairs)
    # attached cost functions, by name
    for a, b, what in ((o.functions_for_optim_vars, c.functions_for_optim_vars, "optim"), (o.functions_for_aux_vars, c.functions_for_aux_vars, "aux"), (o.cost_functions_for_weights, c.cost_functions_for_weights, "weights")):
        k.same(f"{nm}/attached/{what}", {q.name: sorted(f.name for f in fs) for q, fs in b.items()}, {q.name: sorted(f.name for f in fs) for q, fs in a.items()})


def _objective(names, single, vec):
    def body(k):
        with callees_by_contract(k):
            for how in ("copy", "deepcopy"):
                cfs, kinds, ts, v = objective(k, "a", single)
                o = fill(cfs, names)
                if vec:
                    th.Vectorize(o)
                    o.update()
                c = o.copy() if how == "copy" else pycopy.deepcopy(o)
                nm = how
                check_objective(k, nm, o, c)
                ref = fill(objective(k, "a", single)[0], names)
                k.eq(f"{nm}/error", c.error(), ref.error(), ctol=1e-12)
                k.eq(f"{nm}/metric", c.error_metric(), ref.error_metric(), ctol=1e-12)
                for n in names:
                    same_values(k, f"{nm}/{n}", c.get_cost_function(n), ref.get_cost_function(n))
                # updates of the copy
                new = {n: value(k, kinds[n], f"o.b{n}{'1' if n in single else ''}", n in single) for n in list(c.optim_vars) + list(c.aux_vars)}
                ref2 = fill(objective(k, "a", single)[0], names)
                for n, t in new.items():
                    (ref2.get_optim_var(n) if ref2.has_optim_var(n) else ref2.get_aux_var(n)).update(t)
                c.update({n: t.clone() for n, t in new.items()})
                k.eq(f"{nm}/updated copy/error", c.error(), ref2.error(), ctol=1e-12)
                for n in names:
                    same_values(k, f"{nm}/updated copy/{n}", c.get_cost_function(n), ref2.get_cost_function(n))
                k.eq(f"{nm}/original after updates of the copy", o.error(), ref.error(), ctol=1e-12)
                c2 = o.copy()
                o.update(new)
                k.eq(f"{nm}/updated original", o.error(), ref2.error(), ctol=1e-12)
                k.eq(f"{nm}/copy after updates of the original", c2.error(), ref.error(), ctol=1e-12)
                # cost functions erased from and added to one of them
                c2.erase(names[0])
                k.same(f"{nm}/original after an erase in the copy", list(o.cost_functions), list(names))
                k.eq(f"{nm}/original after an erase in the copy/error", o.error(), ref2.error(), ctol=1e-12)
                c3 = o.copy()
                o.erase(names[-1])
                k.same(f"{nm}/copy after an erase in the original", list(c3.cost_functions), list(names))
                k.eq(f"{nm}/copy after an erase in the original/error", c3.error(), ref2.error(), ctol=1e-12)
                if len(names) > 1:
                    c4 = o.copy()
                    check_objective(k, f"{nm}/copy of an edited objective", o, c4)

    return body


for _i, _n in enumerate(SETS):
    for _single in ((), ("w", "d", "dt", "Qc", "lr"), ("m", "lo", "c")):
        for _vec in (False, True):
            contract("C12", f"objective {_i} {'vectorized' if _vec else 'plain'} single-{''.join(_single)}", con=(3,), budget=100, funcs=["Objective.copy", "Objective.__deepcopy__"])(_objective(_n, _single, _vec))
