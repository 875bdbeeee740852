"""C13: vectorized evaluation equals evaluating the cost functions one by one."""
import itertools
import random

import torch
import theseus as th
from dv.run import contract
from .objs import Quad, Quad2, quad, quad_jac
from .zoo import specs, value, wrap, callees_by_contract, dof

INFO = dict(
    level="proof",
    assumptions=["what a cost function computes is determined by its class, the types and shapes of its variables, and (AutoDiff, robust) its function, loss and flatten_dims: two objects that agree on these and differ elsewhere are not distinguished by the library",
                 "structures (up to six cost functions) and histories (all pairs of operations) are enumerated; tensor values and the batch size are unconstrained",
                 "collision, contact and AutoDiff cost functions run in the bounded clauses only"],
)
SPECS = specs()


def expand(t, n):
    return t if t.shape[0] == n else t.expand((n,) + tuple(t.shape[1:]))


def one_by_one(o):
    """the unvectorized values of every cost function of an objective."""
    n = max(v.shape[0] for v in list(o.optim_vars.values()) + list(o.aux_vars.values()))
    out = []
    for cf in o.cost_functions.values():
        J, e = cf.weighted_jacobians_error()
        out.append((cf.name, [expand(j, n) for j in J], expand(e, n), expand(cf.weighted_error(), n)))
    return n, out


def agree(k, nm, o, ref=None, tol=1e-9):
    """what the objective serves equals the values ref (by default of its own cost functions)."""
    n, want = ref or one_by_one(o)
    k.eq(f"{nm}/error", o.error(), torch.cat([w[3] for w in want], dim=1), ctol=tol)
    served = list(o._get_jacobians_iter())
    k.same(f"{nm}/cost functions served", [getattr(c, "cost_fn", c).name for c in served], [w[0] for w in want])
    for c, (name, J, e, _) in zip(served, want):
        Js, es = c.weighted_jacobians_error()
        k.eq(f"{nm}/{name}/weighted error", expand(es, n), e, ctol=tol)
        k.eq(f"{nm}/{name}/weighted error (no Jacobians)", expand(c.weighted_error(), n), e, ctol=tol)
        k.same(f"{nm}/{name}/blocks", len(Js), len(J))
        for i, (a, b) in enumerate(zip(Js, J)):
            k.eq(f"{nm}/{name}/J[{i}]", expand(a, n), b, ctol=tol)
    es = list(o._get_error_iter())
    for c, (name, _, _, e) in zip(es, want):
        k.eq(f"{nm}/{name}/fresh weighted error", expand(c.weighted_error(), n), e, ctol=tol)


# -- groupings of generic cost functions ---------------------------------------------
DIMS = dict(x=2, y=2, z=2, u=3, v=3, a=1, b=1, c=1, s=1, t=1, d=2, g=2)


class World:
    def __init__(self, k, one=(), zero=False, pre=""):
        self.k, self.one, self.zero = k, one, zero
        self.t = {n: self.fresh(n, pre + n) for n in DIMS}
        self.v = {n: th.Vector(tensor=t, name=n) if n in "xyzuv" else th.Variable(t, name=n) for n, t in self.t.items()}
        v = self.v
        self.w = {"s": th.ScaleCostWeight(v["s"], name="ws"), "t": th.ScaleCostWeight(v["t"], name="wt"), "S": th.ScaleCostWeight(v["s"], name="ws2"),
                  "d": th.DiagonalCostWeight(v["d"], name="wd"), "g": th.DiagonalCostWeight(v["g"], name="wg")}
        self.t = {n: q.tensor for n, q in v.items()}

    def fresh(self, n, name):
        single = n in self.one
        name += "~" if single else ""
        if n in "stdg" and self.zero:  # weights that are zero for some batch elements
            w = self.k.real(name, DIMS[n], batched=not single)
            w = torch.where(w[..., :1] > 0, w, torch.zeros_like(w))
        else:
            w = self.k.real(name, DIMS[n], batched=not single)
        return w.unsqueeze(0).clone() if single else w.clone()

    def cf(self, name, cls, o, a, w):
        return cls([self.v[i] for i in o], [self.v[i] for i in a], self.w[w], 2, name=name)

    def objective(self, lay):
        o = th.Objective(dtype=self.k.dtype)
        for i, c in enumerate(lay):
            o.add(self.cf(f"c{i}", *c))
        return o


LAYOUTS = {
    "all distinct": [(Quad, "x", "a", "s"), (Quad, "y", "b", "t"), (Quad, "z", "c", "s")],
    "shared aux": [(Quad, "x", "a", "s"), (Quad, "y", "a", "s"), (Quad, "z", "a", "s")],
    "shared optim": [(Quad, "xu", "a", "d"), (Quad, "xv", "b", "g")],
    "same variables, other order": [(Quad, "xy", "a", "d"), (Quad, "yx", "a", "d"), (Quad, "yz", "b", "d")],
    "interleaved classes": [(Quad, "x", "a", "s"), (Quad2, "x", "a", "s"), (Quad, "y", "b", "s"), (Quad2, "z", "b", "t"), (Quad, "u", "b", "s"), (Quad, "v", "a", "s")],
    "weights of two kinds": [(Quad, "x", "a", "s"), (Quad, "y", "b", "d"), (Quad, "z", "b", "t"), (Quad, "x", "c", "g")],
    "two weights over one variable": [(Quad, "x", "a", "s"), (Quad, "y", "b", "S")],
    "aux also in the weight": [(Quad, "x", "s", "s"), (Quad, "y", "a", "s"), (Quad, "z", "s", "t")],
    "repeated variables": [(Quad, "xx", "a", "s"), (Quad, "yy", "b", "t"), (Quad, "xy", "b", "t"), (Quad, "z", "aa", "t"), (Quad, "y", "ba", "t"), (Quad, "y", "bb", "s")],
    "single cost function": [(Quad, "xu", "ab", "d")],
}
MIXES = [(), ("a",), ("s", "d"), ("a", "b", "c", "s", "t", "d", "g"), ("x", "a", "s"), ("y", "b", "z", "t"), tuple("xyzuvabc"), ("x", "y", "z", "u", "v")]


def _grouping(name, zero):
    def body(k):
        for one in MIXES[:1] + MIXES[2:6] if zero else MIXES:
            w = World(k, one, zero)
            o = w.objective(LAYOUTS[name])
            th.Vectorize(o)
            nm = f"single {''.join(one)}"
            agree(k, nm + "/at once", o)
            o.update()
            agree(k, nm, o)
            # against the documented values too
            e = o.error()
            n = e.shape[0]
            k.eq(f"{nm}/documented error", e, torch.cat([expand(quad([w.t[i] for i in c[1]], [w.t[i] for i in c[2]], 2) * w.t[c[3].lower()], n) for c in LAYOUTS[name]], dim=1), ctol=1e-9)
            for n, q in w.v.items():
                k.same(f"{nm}/{n} keeps its tensor", q.tensor is w.t[n], True)
            o.disable_vectorization()
            agree(k, nm + "/vectorization off again", o)

    return body


for _n in LAYOUTS:
    contract("C13", f"grouping/{_n}", con=(3, 1), budget=120, funcs=["Vectorize", "_get_cost_function_schema", "_CostFunctionWrapper", "Objective._get_jacobians_iter", "Objective.error"])(_grouping(_n, False))
    contract("C13", f"zero weights/{_n}", con=(6,), budget=120, mode="con", funcs=["Vectorize", "masked_jacobians"])(_grouping(_n, True))


# -- every built-in cost function -------------------------------------------------------
def instances(k, spec, n, share, single, pre=""):
    """n cost functions of this kind; slots in share use one variable for all."""
    cfs, vs = [], []
    ws = None
    for i in range(n):
        ts = {s: value(k, kd, f"{spec.name}.{pre}{s}@{'' if s in share else i}{'~' if s in single else ''}", s in single) for s, kd in spec.slots.items()}
        v = {s: (vs[0][s] if s in share and vs else wrap(kd, ts[s], f"{s}{'' if s in share else i}")) for s, kd in spec.slots.items()}
        vs.append(v)
        if set(spec.wslots) <= set(share):
            ws = ws or spec.mkweight(v, "w")
            cfs.append(spec.make(v, ws, name=f"cf{i}"))
        else:
            cfs.append(spec.make(v, spec.mkweight(v, f"w{i}"), name=f"cf{i}"))
    return cfs, vs


def _builtin(spec):
    def body(k):
        aux, opt, ws = tuple(spec.aux), tuple(spec.optim), tuple(spec.wslots)
        cases = [((), ()), (aux + ws, ()), (ws, ws), (opt[:1], aux), (opt[-1:] + ws, opt[:1]), (aux, aux + ws), (ws, opt), (opt, opt[-1:] + aux[:1])]
        if k.symbolic:
            cases = cases[:1] + (cases[2:5] if spec.name != "Hinge" else cases[2:3])
        with callees_by_contract(k):
            for share, single in cases:
                nm = f"shared {' '.join(share)}/single {' '.join(single)}"
                cfs, vs = instances(k, spec, 2 if k.symbolic else 3, share, single)
                o = th.Objective(dtype=k.dtype)
                for c in cfs:
                    o.add(c)
                th.Vectorize(o)
                o.update()
                agree(k, nm, o)
                # new values
                new = {}
                for i, v in enumerate(vs):
                    for s, q in v.items():
                        new[q.name] = value(k, spec.slots[s], f"{spec.name}.new.{q.name}@{s in share}{'~' if s in single else ''}", s in single)
                o.update(new)
                agree(k, nm + "/updated", o)

    return body


for _s in SPECS:
    contract("C13", f"built-in/{_s.name}", mode="both" if _s.sym else "con", con=(3, 1), budget=200, funcs=[f"vectorized {_s.name}"])(_builtin(_s))


@contract("C13", "built-in, zero weights", mode="con", con=(6, 2), funcs=["masked_jacobians", "Vectorize"])
def zero_builtin(k):
    for spec in SPECS:
        if spec.weight == "gp":
            continue
        cfs, vs = instances(k, spec, 3, (), ())
        o = th.Objective(dtype=k.dtype)
        for i, c in enumerate(cfs):
            o.add(c)
            z = torch.ones(k.B, 1, dtype=k.dtype)
            z[(torch.arange(k.B) + i) % 2 == 0] = 0.0
            vs[i]["w"].update(vs[i]["w"].tensor * (z if i else z * 0))
        th.Vectorize(o)
        o.update()
        agree(k, spec.name, o)


@contract("C13", "mixed objective", mode="con", con=(3, 2), funcs=["Vectorize", "Objective.error"])
def everything(k):
    """all kinds of cost functions in one objective, in interleaved order."""
    o = th.Objective(dtype=k.dtype)
    per = []
    for spec in SPECS:
        cfs, vs = instances(k, spec, 2, (), tuple(spec.aux)[:1])
        for i, (c, v) in enumerate(zip(cfs, vs)):
            c.name = f"{spec.name}{i}"
            c.weight.name = c.name + "w"
            for s, q in v.items():
                q.name = f"{spec.name}{q.name}"
            if isinstance(c, th.AutoDiffCostFunction):
                c = None
            per.append(c)
    per = [c for c in per if c is not None]
    for c in per[::2] + per[1::2]:
        o.add(c)
    th.Vectorize(o)
    o.update()
    agree(k, "all", o)
    gone = [c.name for c in per[::3]]
    for n in gone:
        o.erase(n)
    agree(k, "some erased", o)


# -- never stale ------------------------------------------------------------------------
HIST = [(Quad, "x", "a", "s"), (Quad, "y", "a", "s"), (Quad, "z", "b", "t"), (Quad2, "xu", "b", "d"), (Quad, "u", "c", "s")]


def ops():
    """name -> operation on (world, objective, tag); what it should leave is recorded in w.t."""

    def upd(names):
        def f(w, o, tag):
            new = {n: w.fresh(n, f"{tag}{n}") for n in names}
            o.update(new)
            w.t.update(new)
        return f

    def direct(names):
        def f(w, o, tag):
            for n in names:
                w.t[n] = w.fresh(n, f"{tag}{n}")
                w.v[n].update(w.t[n])
        return f

    def nograd(w, o, tag):
        with torch.no_grad():
            upd("xs")(w, o, tag)
            o._get_jacobians_iter()

    def retract(w, o, tag):
        order = [w.v[n] for n in "zxy"]
        d = w.k.real(f"{tag}delta", 6)
        o.retract_vars_sequence(d, order)
        for i, n in enumerate("zxy"):
            w.t[n] = w.t[n] + d[:, 2 * i:2 * i + 2]

    def masked(w, o, tag):
        order = [w.v[n] for n in "yx"]
        d = w.k.real(f"{tag}deltam", 4)
        m = w.k.real(f"{tag}mask", 1)[:, 0] > 0
        o.retract_vars_sequence(d, order, ignore_mask=m)
        for i, n in enumerate("yx"):
            w.t[n] = torch.where(m.unsqueeze(1), w.t[n], w.t[n] + d[:, 2 * i:2 * i + 2])

    def forced(w, o, tag):
        d = w.k.real(f"{tag}deltaf", 3)
        m = w.k.real(f"{tag}maskf", 1)[:, 0] > 0
        o.retract_vars_sequence(d, [w.v["u"]], ignore_mask=m, force_update=True)
        w.t["u"] = w.t["u"] + d

    def setitem(w, o, tag):
        t = w.fresh("x", f"{tag}item")
        w.t["x"] = w.t["x"].clone()
        w.v["x"].update(w.t["x"].clone())
        list(o._get_jacobians_iter())
        w.v["x"][:, 1] = t[:, 1]
        w.t["x"] = torch.stack([w.t["x"][:, 0], t[:, 1]], dim=1)

    def temp(w, o, tag):
        o.error({n: w.fresh(n, f"{tag}tmp{n}") for n in "xas"})

    def perm(w, o, tag):
        new = {n: w.fresh(n, f"{tag}perm{n}") for n in "zd"}
        o.error(new, also_update=True)
        w.t.update(new)

    def add(w, o, tag):
        n = f"new{tag}"
        o.add(w.cf(n, Quad, "v", "b", "t"))
        w.shape[n] = (Quad, "v", "b", "t")

    def erase(w, o, tag):
        n = [q for q in w.shape if q != "c3"][0]
        o.erase(n)
        del w.shape[n]

    def swap(w, o, tag):
        """erase and add again under the same name, with other variables."""
        o.erase("c3")
        w.shape.pop("c3")
        o.add(w.cf("c3", Quad2, "yu", "c", "g"))
        w.shape["c3"] = (Quad2, "yu", "c", "g")

    def off_on(w, o, tag):
        o.disable_vectorization()
        direct("y")(w, o, tag)
        th.Vectorize(o)

    return dict(upd=upd("xas"), upd_aux=upd("ab"), upd_w=upd("std"), direct=direct("zb"), direct_w=direct("s"), nograd=nograd, retract=retract, masked=masked,
                forced=forced, setitem=setitem, temp=temp, perm=perm, add=add, erase=erase, swap=swap, off_on=off_on)


OPS = ops()


def served(k, nm, w, o):
    ref = []
    n = max(w.t[i].shape[0] for c in w.shape.values() for i in c[1] + c[2] + c[3].lower())
    for name, (cls, os, as_, wt) in w.shape.items():
        t, a, s = [w.t[i] for i in os], [w.t[i] for i in as_], w.t[wt.lower()]
        e = expand(quad(t, a, 2) * s, n)
        ref.append((name, [expand(j * (s.unsqueeze(2)), n) for j in quad_jac(t, a, 2)], e, e))
    agree(k, nm, o, (n, ref))


def _history(first, seconds):
    def body(k):
        for second in seconds:
            if k.symbolic and first == "masked" and second not in ("upd", "direct", "retract"):
                continue  # every further mask doubles the paths
            for look in (False, True):
                w = World(k)
                o = w.objective(HIST)
                w.shape = {f"c{i}": c for i, c in enumerate(HIST)}
                th.Vectorize(o)
                o.update()
                nm = f"{first}{', look' if look else ''}, {second}"
                OPS[first](w, o, "1")
                if look:
                    served(k, f"{nm}/first", w, o)
                OPS[second](w, o, "2")
                served(k, nm, w, o)

    return body


MASKS = ("masked", "forced")
for _f in OPS:
    for _nm, _s in (("", [n for n in OPS if n not in MASKS]), (", then a mask", MASKS)):
        contract("C13", f"history/{_f}{_nm}", con=(3,), budget=200, funcs=["Objective.update_vectorization_if_needed", "Objective._vectorization_needs_update", "Vectorize._vectorize", "Objective.update", "Objective.retract_vars_sequence", "Objective.add", "Objective.erase", "Variable.update"])(_history(_f, _s))


@contract("C13", "random histories", mode="con", con=(3, 1, 5), funcs=["Objective", "Vectorize"])
def random_histories(k):
    rng = random.Random(1)
    for h in range(30):
        w = World(k, rng.choice(MIXES[:4]), False, f"h{h}")
        o = w.objective(HIST)
        w.shape = {f"c{i}": c for i, c in enumerate(HIST)}
        th.Vectorize(o)
        trace = []
        for i in range(8):
            op = rng.choice([n for n in OPS if n not in ("retract", "masked", "forced") or not w.one or set(w.one) <= set("abcstdg")])
            if op == "erase" and len(w.shape) < 3 or op == "swap" and "c3" not in w.shape:
                continue
            trace.append(op)
            OPS[op](w, o, f"{h}_{i}")
            if rng.random() < 0.6:
                served(k, f"history {h}: {' '.join(trace)}", w, o)


@contract("C13", "batch size changes", mode="con", con=(4,), funcs=["Objective._resolve_batch_size", "Vectorize._vectorize"])
def batch_changes(k):
    for lay in LAYOUTS:
        for seq in itertools.permutations((1, 2, 4)):
            w = World(k)
            o = w.objective(LAYOUTS[lay])
            th.Vectorize(o)
            for j, b in enumerate(seq):
                new = {n: w.fresh(n, f"{j}{n}")[:b] for n in DIMS}
                if j % 2:
                    for n, t in new.items():
                        w.v[n].update(t)
                else:
                    o.update({n: t for n, t in new.items() if o.has_optim_var(n) or o.has_aux_var(n)})
                    for n, t in new.items():
                        w.v[n].update(t)
                agree(k, f"{lay}/{seq}[{j}]", o)
                # only the auxiliary variables stay batched
                for n in "xyzuv":
                    w.v[n].update(w.v[n].tensor[:1])
                agree(k, f"{lay}/{seq}[{j}] single optim", o)


@contract("C13", "gradients", mode="con", con=(3,), funcs=["Objective._vectorization_needs_update"])
def grads(k):
    """the values served carry the graph of the current tensors also after a run
    without gradients."""
    for lay in LAYOUTS:
        w = World(k)
        o = w.objective(LAYOUTS[lay])
        th.Vectorize(o)
        ts = {n: t.clone().requires_grad_(True) for n, t in w.t.items()}
        with torch.no_grad():
            for n, t in ts.items():
                w.v[n].update(t)
            o.update()
            list(o._get_jacobians_iter())
        J = [c.weighted_jacobians_error() for c in o._get_jacobians_iter()]
        f = sum((e * e * e).sum() + sum((j * j).sum() for j in js) for js, e in J)
        J0 = [c.weighted_jacobians_error() for c in o.cost_functions.values()]
        g = sum((e * e * e).sum() + sum((j * j).sum() for j in js) for js, e in J0)
        a = torch.autograd.grad(f, list(ts.values()), allow_unused=True)
        b = torch.autograd.grad(g, list(ts.values()), allow_unused=True)
        for n, x, y in zip(ts, a, b):
            k.same(f"{lay}/{n}/present", x is None, y is None)
            if x is not None:
                k.eq(f"{lay}/{n}", x, y, ctol=1e-9)
        e = torch.autograd.grad((o.error() ** 3).sum(), list(ts.values()), allow_unused=True)
        e0 = torch.autograd.grad(sum((c.weighted_error() ** 3).sum() for c in o.cost_functions.values()), list(ts.values()), allow_unused=True)
        for n, x, y in zip(ts, e, e0):
            if y is not None:
                k.eq(f"{lay}/error/{n}", x, y, ctol=1e-9)


# -- retraction -------------------------------------------------------------------------
ORDERS = [("V2a", "V2b", "V3a"), ("SO2a", "V2a", "SO2b"), ("SE2a", "SE2b", "V3a"), ("SO3a", "V3a", "SO3b", "V3b"), ("SE3a", "SE3b"), ("P2a", "V2a", "P2b", "SE2a"), ("P3a", "V3b", "SO3a", "P3b")]


def _retract(order):
    def body(k):
        kinds = {n: {"P2": "Point2", "P3": "Point3"}.get(n[:-1], n[:-1]) for n in order}
        for single, done in (((), False), (order[:1], False), (order, False), ((), True)):
            for how in ("plain", "masked", "forced"):
                ts = {n: value(k, kinds[n], f"{n}{'1' if n in single else ''}", n in single) for n in order}
                mk = lambda: [wrap(kinds[n], ts[n].clone(), n) for n in order]
                va, vb = mk(), mk()
                o = th.Objective(dtype=k.dtype)
                for n, v in zip(order, va):
                    o.add(Quad([v], [], th.ScaleCostWeight(torch.ones(1, 1, dtype=k.dtype)), 1, name="c" + n)) if v.ndim == 2 else None
                D = sum(dof(kinds[n]) for n in order)
                d = k.real("delta", D, scale=0.5)
                m = k.real("mask", 1)[:, 0] > 0
                th.Vectorize(o) if len(o.cost_functions) else None
                kw = {} if how == "plain" else dict(ignore_mask=m, force_update=how == "forced")
                if how != "plain" and single:
                    continue
                th.Vectorize._vectorized_retract_optim_vars(d, iter(va) if done else va, **kw)
                th.Objective._retract_base(d, vb, **kw)
                for n, a, b in zip(order, va, vb):
                    k.eq(f"single {' '.join(single)}/{how}/{'iterator/' if done else ''}{n}", a.tensor, b.tensor, ctol=1e-9)

    return body


for _o in ORDERS:
    contract("C13", f"retract/{' '.join(_o)}", con=(5, 1), budget=120, funcs=["Vectorize._vectorized_retract_optim_vars", "Objective._retract_base"])(_retract(_o))
