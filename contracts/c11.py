"""C11: evaluating and updating an objective."""
import warnings

import torch
import theseus as th
from dv.run import contract
from .objs import Quad, quad

INFO = dict(
    level="proof",
    assumptions=["objectives of up to five cost functions over up to six variables (structures enumerated); tensor values and the batch size are unconstrained"],
)


def caught(f):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        r = f()
    return r, [str(x.message) for x in w]


class Problem:
    """an objective with a mix of sharing patterns, and its documented value."""

    def __init__(self, k, one=(), fn=None, prefix=""):
        """one: names of variables given a single batch row."""
        self.k = k
        self.dims = dict(x=2, y=3, z=1, a=2, b=1, s=1, d=2)
        self.t = {n: self.fresh(n, prefix + n, n in one) for n in self.dims}
        kw = {} if fn is None else {"error_metric_fn": fn}
        self.o = th.Objective(dtype=k.dtype, **kw)
        self.v = {n: th.Vector(tensor=t, name=n) if n in "xyz" else th.Variable(t, name=n) for n, t in self.t.items()}
        v = self.v
        self.ws = th.ScaleCostWeight(v["s"], name="ws")
        self.wd = th.DiagonalCostWeight(v["d"], name="wd")
        self.t = {n: q.tensor for n, q in v.items()}
        Q = lambda o, a, w, n, nm: Quad([v[i] for i in o], [v[i] for i in a], w, n, name=nm)
        # name: (optim, aux, weight, dim)
        self.shape = {"c0": ("xy", "a", "s", 2), "c1": ("y", "ab", "d", 2), "c2": ("zx", "", "s", 1), "c3": ("xyz", "b", "d", 2), "c4": ("z", "b", "s", 3)}
        self.cf = {n: Q(o, a, self.ws if w == "s" else self.wd, d, n) for n, (o, a, w, d) in self.shape.items()}

    def fresh(self, n, name, single=False):
        if not single:
            return self.k.real(name, self.dims[n])
        return self.k.real(name + "1", self.dims[n], batched=False).unsqueeze(0)

    def term(self, c, t):
        o, a, w, d = self.shape[c]
        e = quad([t[i] for i in o], [t[i] for i in a], d)
        return e * t[w]

    def value(self, names, t=None):
        t = t or self.t
        es = [self.term(c, t) for c in names]
        n = max(e.shape[0] for e in es)
        return torch.cat([e if e.shape[0] == n else e.expand(n, e.shape[1]) for e in es], dim=1)


ORDERS = [["c0"], ["c4", "c2"], ["c0", "c1", "c2"], ["c3", "c1", "c4", "c0"], ["c2", "c0", "c4", "c1", "c3"]]
MIXES = [(), ("a", "b", "s", "d"), ("x", "a", "d"), ("z", "b", "s"), ("y", "s")]


@contract("C11", "error", con=(1, 4), funcs=["Objective.error", "Objective.error_metric", "error_squared_norm_fn", "Objective.__iter__", "Objective.dim"])
def error(k):
    for one in MIXES:
        for names in ORDERS:
            for vec in (False, True):
                p = Problem(k, one)
                for n in names:
                    p.o.add(p.cf[n])
                if vec:
                    th.Vectorize(p.o)
                nm = f"single {''.join(one)}/{' '.join(names)}/{'vectorized' if vec else 'plain'}"
                e = p.o.error()
                k.eq(f"{nm}/error", e, p.value(names))
                k.same(f"{nm}/dim", p.o.dim(), e.shape[1])
                k.eq(f"{nm}/metric", p.o.error_metric(), (p.value(names) ** 2).sum(dim=1) / 2)
                for n, v in p.v.items():
                    k.same(f"{nm}/{n} keeps its tensor", v.tensor is p.t[n], True)
                if len(names) > 1:
                    gone = names[len(names) // 2]
                    rest = [n for n in names if n != gone]
                    p.o.erase(gone)
                    k.eq(f"{nm}/after erasing {gone}", p.o.error(), p.value(rest))
                    p.o.add(p.cf[gone])
                    k.eq(f"{nm}/after adding {gone} again", p.o.error(), p.value(rest + [gone]))
    # a metric of the user's
    p = Problem(k, fn=lambda e: e.abs().sum(dim=1) + 1)
    for n in ("c1", "c0"):
        p.o.add(p.cf[n])
    k.eq("custom metric", p.o.error_metric(), p.value(["c1", "c0"]).abs().sum(dim=1) + 1)


def build(k, one, names, vec):
    p = Problem(k, one)
    for n in names:
        p.o.add(p.cf[n])
    if vec:
        th.Vectorize(p.o)
    return p, sorted(set(p.o.optim_vars) | set(p.o.aux_vars))


@contract("C11", "update", con=(1, 4), funcs=["Objective.update", "Objective._resolve_batch_size", "Variable.update"])
def update(k):
    for vec in (False, True):
        for one in MIXES[:3]:
            for names in ORDERS[1:4]:
                for which in ("x", "a", "zs", "xyzabsd", ""):
                    p, have = build(k, one, names, vec)
                    new = {n: p.fresh(n, "new" + n, n in one) for n in which if n in have}
                    nm = f"{'vectorized' if vec else 'plain'}/single {''.join(one)}/{' '.join(names)}/update {which}"
                    _, w = caught(lambda: p.o.update(dict(new)))
                    k.same(f"{nm}/no warning", w, [])
                    now = {**p.t, **new}
                    for n in p.v:
                        k.same(f"{nm}/{n}", p.v[n].tensor is now[n], True)
                    k.same(f"{nm}/batch size", p.o.batch_size, max(now[n].shape[0] for n in have))
                    k.eq(f"{nm}/error", p.o.error(), p.value(names, now))
                    # unknown names are reported
                    _, w = caught(lambda: p.o.update({"nobody": p.fresh("x", "q"), **new}))
                    k.same(f"{nm}/unknown name is reported", [("nobody" in m) for m in w], [True])


@contract("C11", "masked update", con=(5,), funcs=["Objective.update", "Variable.update"])
def masked(k):
    m = k.real("m", 1)[:, 0] > 0.2
    for vec in (False, True):
        for one in ((), ("a", "d")):
            p, have = build(k, one, ORDERS[3], vec)
            new = {n: p.fresh(n, "new" + n) for n in "xya"}
            p.o.update(dict(new), batch_ignore_mask=m)
            now = dict(p.t)
            for n, t in new.items():
                now[n] = torch.where(m.view(-1, 1), p.t[n].expand(t.shape), t)
            nm = f"{'vectorized' if vec else 'plain'}/single {''.join(one)}"
            for n in p.v:
                k.eq(f"{nm}/{n}", p.v[n].tensor, now[n], ctol=0)
            k.eq(f"{nm}/error", p.o.error(), p.value(ORDERS[3], now))


class Boom(Exception):
    pass


def temporary(k, vec, one):
    for which in ("x", "a", "zs", "xyzabsd", "ds"):
        names = ORDERS[4]
        nm = f"{'vectorized' if vec else 'plain'}/single {''.join(one)}/inputs {which}"
        p, have = build(k, one, names, vec)
        if vec:
            p.o.update()
        new = {n: p.fresh(n, "new" + n, n in one) for n in which}
        now = {**p.t, **new}
        given = dict(new)
        k.eq(f"{nm}/temporary error", p.o.error(given), p.value(names, now))
        k.same(f"{nm}/inputs unchanged", [given[n] is new[n] for n in new], [True] * len(new))
        k.eq(f"{nm}/temporary metric", p.o.error_metric(new), (p.value(names, now) ** 2).sum(dim=1) / 2)
        for n in p.v:
            k.same(f"{nm}/{n} restored", p.v[n].tensor is p.t[n], True)
        k.same(f"{nm}/batch size restored", p.o.batch_size, max(t.shape[0] for t in p.t.values()))
        k.eq(f"{nm}/error afterwards", p.o.error(), p.value(names))
        k.eq(f"{nm}/linearized error afterwards", torch.cat([c.weighted_jacobians_error()[1].expand(max(t.shape[0] for t in p.t.values()), -1) for c in p.o._get_jacobians_iter()], dim=1), p.value(names))
        k.eq(f"{nm}/permanent error", p.o.error(new, also_update=True), p.value(names, now))
        for n in p.v:
            k.same(f"{nm}/{n} kept", p.v[n].tensor is now[n], True)
        k.eq(f"{nm}/error after permanent update", p.o.error(), p.value(names, now))
    # a failing cost function
    p, have = build(k, one, ORDERS[2], vec)
    held = {n: v.tensor for n, v in p.v.items()}

    def boom():
        raise Boom()

    p.cf["c2"].error = boom
    new = {n: p.fresh(n, "new" + n, n in one) for n in "xyas"}
    k.raises(f"{nm}/failure is reported", lambda: p.o.error(new), Boom)
    for n in p.v:
        k.same(f"{nm}/{n} restored after a failure", p.v[n].tensor is held[n], True)


for _vec in (False, True):
    for _one in MIXES:
        contract("C11", f"temporary inputs {'vectorized' if _vec else 'plain'} single-{''.join(_one)}", con=(1, 4), budget=120, funcs=["Objective.error", "Objective.error_metric", "Objective.update"])(lambda k, vec=_vec, one=_one: temporary(k, vec, one))


@contract("C11", "rejected inputs", mode="con", con=(3,), funcs=["Objective.update", "Objective._resolve_batch_size", "Variable.update"])
def rejected(k):
    B = k.B
    names = ORDERS[4]
    other = torch.float32 if k.dtype == torch.float64 else torch.float64
    for vec in (False, True):
        for n in "xyzabsd":
            p, have = build(k, (), names, vec)
            if vec:
                p.o.update()
            d = p.dims[n]
            bad = {
                "no batch dimension": torch.zeros(d, dtype=k.dtype),
                "dtype": torch.zeros(B, d, dtype=other),
                "shape": torch.zeros(B, d + 1, dtype=k.dtype),
                "rank": torch.zeros(B, d, 1, dtype=k.dtype),
                "batch size": torch.zeros(B + 1, d, dtype=k.dtype),
                "smaller batch size": torch.zeros(B - 1, d, dtype=k.dtype),
            }
            for what, t in bad.items():
                for call in ("update", "error", "permanent error"):
                    nm = f"{'vectorized' if vec else 'plain'}/{n}/{what}/{call}"
                    f = {"update": lambda: p.o.update({n: t}), "error": lambda: p.o.error({n: t}), "permanent error": lambda: p.o.error({n: t}, also_update=True)}[call]
                    k.raises(nm, f, ValueError)
                    if call == "error":
                        k.same(nm + "/restored", all(p.v[m].tensor is p.t[m] for m in p.v), True)
                    # put back: the objective is usable again
                    for m in p.v:
                        p.v[m].update(p.t[m])
                    p.o.update()
                    k.eq(nm + "/usable afterwards", p.o.error(), p.value(names))
    # sizes 1 and B are accepted together, everything else is not
    for sizes in ((1, 1), (1, 4), (4, 1), (4, 4), (2, 4), (4, 2), (3, 1), (2, 3)):
        p, have = build(k, (), ["c0", "c1"], False)
        f = lambda: p.o.update({**{n: torch.zeros(sizes[0], p.dims[n], dtype=k.dtype) for n in "xyabd"}, "s": torch.zeros(sizes[1], 1, dtype=k.dtype)})
        if len(set(sizes) - {1}) <= 1:
            f()
            k.same(f"{sizes}/batch size", p.o.batch_size, max(sizes))
        else:
            k.raises(f"{sizes}/rejected", f, ValueError)


@contract("C11", "names without a cost variable", mode="con", con=(3,), funcs=["Objective.update"])
def odd_names(k):
    """a variable that only a weight uses is updated too (with a warning when it is
    an optimisation variable), a name that nothing uses warns and changes nothing."""
    import warnings
    B = k.B
    for vec in (False, True):
        nm = "vectorized" if vec else "plain"
        p, have = build(k, (), ORDERS[4], vec)
        p.o.update()
        e = p.o.error()
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            p.o.update({"nobody": torch.zeros(B, 2, dtype=k.dtype)})
        k.same(nm + "/unknown name warns", any("nobody" in str(x.message) for x in w), True)
        k.same(nm + "/unknown name changes nothing", all(p.v[m].tensor is p.t[m] for m in p.v), True)
        k.eq(nm + "/same error", p.o.error(), e, ctol=0)
        k.same(nm + "/names", "nobody" in p.o._all_variables, False)
        # known names next to an unknown one are updated
        t = torch.full((B, p.dims["x"]), 0.25, dtype=k.dtype)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            p.o.update({"nobody": t, "x": t, "else": t})
        k.eq(nm + "/known name updated", p.v["x"].tensor, t, ctol=0)

    # a weight whose variable is an optimisation variable of the weight only: such
    # an objective is refused by the linear algebra (RuntimeError at add), but its
    # registries keep the variable, and updates and errors use it
    class W(th.ScaleCostWeight):
        def __init__(self, scale, **kw):
            super().__init__(scale, **kw)
            self._aux_vars_attr_names = []
            self._optim_vars_attr_names = ["scale"]

    o = th.Objective(dtype=k.dtype)
    x, t = th.Vector(tensor=torch.ones(B, 2, dtype=k.dtype), name="x"), th.Vector(tensor=torch.zeros(B, 2, dtype=k.dtype), name="t")
    s = th.Vector(tensor=torch.ones(1, 1, dtype=k.dtype), name="s")
    try:
        o.add(th.Difference(x, t, W(s)))
    except RuntimeError:
        pass
    if "s" in o.cost_weight_optim_vars:
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            o.update({"s": torch.full((B, 1), 3.0, dtype=k.dtype)})
        k.same("weight variable/warned", any("cost weights" in str(x.message) for x in w), True)
        k.eq("weight variable/updated", s.tensor, torch.full((B, 1), 3.0, dtype=k.dtype), ctol=0)
        k.eq("weight variable/used", o.error(), 3 * torch.ones(B, 2, dtype=k.dtype), ctol=1e-12)
        m = torch.arange(B) % 2 == 0
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            o.update({"s": torch.full((B, 1), 5.0, dtype=k.dtype)}, batch_ignore_mask=m)
        k.eq("weight variable/masked", s.tensor, torch.where(m, 3.0, 5.0).to(k.dtype).view(B, 1), ctol=0)


@contract("C11", "failed evaluations", mode="con", con=(3,), funcs=["Objective.update_vectorization_if_needed"])
def failed(k):
    """an evaluation that raises inside a cost function is not taken for a finished
    one: the next evaluation is of the current values, or raises again."""
    B = k.B
    for vec in (False, True):
        nm = "vectorized" if vec else "plain"
        state = dict(fail=False)

        def f(optim_vars, aux_vars):
            if state["fail"]:
                raise FloatingPointError("asked to")
            return optim_vars[0].tensor * aux_vars[0].tensor

        o = th.Objective(dtype=k.dtype)
        x = th.Vector(tensor=torch.ones(B, 2, dtype=k.dtype), name="x")
        y = th.Vector(tensor=torch.ones(B, 2, dtype=k.dtype), name="y")
        a = th.Variable(torch.full((1, 1), 2.0, dtype=k.dtype), name="a")
        for i, v in enumerate((x, y)):
            o.add(th.AutoDiffCostFunction([v], f, 2, aux_vars=[a], name=f"c{i}", autograd_mode="dense", cost_weight=th.ScaleCostWeight(torch.ones(1, 1, dtype=k.dtype))))
        if vec:
            th.Vectorize(o)
        o.update()
        o.error()
        for n in range(3):
            state["fail"] = True
            t = torch.full((B, 2), n + 3.0, dtype=k.dtype)
            k.raises(f"{nm}/{n}/raises", lambda: (o.update({"x": t}), o.error()), FloatingPointError)
            k.raises(f"{nm}/{n}/raises again", lambda: (o.update(), o.error()), FloatingPointError)
            state["fail"] = False
            o.update()
            k.eq(f"{nm}/{n}/afterwards", o.error(), 2 * torch.cat([t, torch.ones_like(t)], 1), ctol=0)
            cs = list(o._get_jacobians_iter())
            k.eq(f"{nm}/{n}/Jacobian", cs[0].weighted_jacobians_error()[0][0], 2 * torch.eye(2, dtype=k.dtype).expand(B, 2, 2), ctol=0)
