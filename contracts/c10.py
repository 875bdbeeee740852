"""C10: the registries of an objective are a function of its cost functions.

Representation invariant  R(o) = spec(list of cost functions added and not erased).
* inductive step: for add and erase, from every pre-state satisfying R whose part
  touching the operation's cost function is any of the enumerated ones, and whose
  rest is arbitrary: the registries are replaced by footprint dictionaries, and an
  operation that looked at anything but the entries of the variables, weight and
  name involved would leave the proof undecided (frame rule), so the size of the
  objective is not bounded.
* whole histories on the real object (bounded stand-in): all histories up to three
  operations of a pool of sharing and conflicting cost functions, random long ones."""
import itertools
import random
import warnings
from collections import OrderedDict

import torch
import theseus as th
from dv.run import contract
from dv.symt import Unsupported

INFO = dict(
    level="proof",
    assumptions=[
        "inductive step: at most 3 optimisation variables, 3 auxiliary variables and 2 weight variables per cost function, each fresh or already used by up to 3 others; the rest of the objective is arbitrary (frame)",
        "registries are Python dictionaries keyed by object identity or name (dict itself is trusted)",
        "whole histories: bounded (all of length <= 3 over a pool of 9 cost functions, random ones of length 25)",
    ],
)


class W(th.CostWeight):
    """a weight with any number of auxiliary (and optimisation) variables."""

    def __init__(self, name, aux=(), optim=()):
        super().__init__(name=name)
        for i, v in enumerate(aux):
            setattr(self, f"a{i}", v)
            self.register_aux_var(f"a{i}")
        for i, v in enumerate(optim):
            setattr(self, f"o{i}", v)
            self.register_optim_var(f"o{i}")

    def weight_error(self, e):
        return e

    def weight_jacobians_and_error(self, j, e):
        return j, e

    def is_zero(self):
        return torch.zeros(1, dtype=torch.bool)

    def _copy_impl(self, new_name=None):
        return W(new_name, [v.copy() for v in self.aux_vars])


class C(th.CostFunction):
    def __init__(self, name, optim, aux, weight, dim=1):
        super().__init__(weight, name=name)
        self._n = dim
        for i, v in enumerate(optim):
            setattr(self, f"o{i}", v)
            self.register_optim_var(f"o{i}")
        for i, v in enumerate(aux):
            setattr(self, f"a{i}", v)
            self.register_aux_var(f"a{i}")

    def dim(self):
        return self._n

    def error(self):
        return sum(v.tensor.sum(dim=1, keepdim=True) for v in self.optim_vars)

    def jacobians(self):
        raise NotImplementedError

    def _copy_impl(self, new_name=None):
        return C(new_name, [v.copy() for v in self.optim_vars], [v.copy() for v in self.aux_vars], self.weight.copy(), self._n)


def V(name, dtype=torch.float64):
    return th.Vector(tensor=torch.zeros(1, 1, dtype=dtype), name=name)


# -- the specification ---------------------------------------------------------
def spec(cfs):
    """the registries of an objective holding exactly cfs, in this order."""
    r = dict(cost_functions=OrderedDict(), optim_vars={}, aux_vars={}, cost_weight_optim_vars={}, _all_variables={}, functions_for_optim_vars={}, functions_for_aux_vars={}, cost_functions_for_weights={})

    def use(f, o, a):
        for v in f.optim_vars:
            r[o][v.name] = v
            r["_all_variables"][v.name] = v
            r["functions_for_optim_vars"].setdefault(v, []).append(f)
        for v in f.aux_vars:
            r[a][v.name] = v
            r["_all_variables"][v.name] = v
            r["functions_for_aux_vars"].setdefault(v, []).append(f)

    for c in cfs:
        r["cost_functions"][c.name] = c
        use(c, "optim_vars", "aux_vars")
        if c.weight not in r["cost_functions_for_weights"]:
            r["cost_functions_for_weights"][c.weight] = []
            use(c.weight, "cost_weight_optim_vars", "aux_vars")
        r["cost_functions_for_weights"][c.weight].append(c)
    return r


def count(xs):
    d = {}
    for x in xs:
        d[id(x)] = d.get(id(x), 0) + 1
    return d


def differences(o, want):
    """names of the clauses of R that fail (empty: R holds)."""
    bad = []
    get = lambda n: dict.items(getattr(o, n))
    if [(n, id(c)) for n, c in get("cost_functions")] != [(n, id(c)) for n, c in want["cost_functions"].items()]:
        bad.append("cost functions, in insertion order")
    for n in ("optim_vars", "aux_vars", "cost_weight_optim_vars", "_all_variables"):
        if {m: id(v) for m, v in get(n)} != {m: id(v) for m, v in want[n].items()}:
            bad.append(n)
    for n in ("functions_for_optim_vars", "functions_for_aux_vars", "cost_functions_for_weights"):
        got = {id(v): count(l) for v, l in get(n)}
        exp = {id(v): count(l) for v, l in want[n].items()}
        if got != exp:
            bad.append(n)
    if any(m != v.name for n in ("optim_vars", "aux_vars", "_all_variables", "cost_functions") for m, v in get(n)):
        bad.append("keyed by name")
    return bad


def check_state(k, nm, o, cfs):
    k.same(nm + "/registries", differences(o, spec(cfs)), [])


def check_queries(k, nm, o, cfs, strangers):
    r = spec(cfs)
    k.same(nm + "/sizes", (o.size(), o.size_cost_functions(), o.size_variables(), o.size_aux_vars(), o.dim()), ((len(cfs), len(r["optim_vars"])), len(cfs), len(r["optim_vars"]), len(r["aux_vars"]), sum(c.dim() for c in cfs)))
    k.same(nm + "/iteration", [id(c) for c in o], [id(c) for c in cfs])
    bad = []
    for c in cfs:
        if o.get_cost_function(c.name) is not c or not o.has_cost_function(c.name):
            bad.append(c.name)
    for kind, vs, has, get, conn, fm in (("optim", r["optim_vars"], o.has_optim_var, o.get_optim_var, o.get_functions_connected_to_optim_var, "functions_for_optim_vars"), ("aux", r["aux_vars"], o.has_aux_var, o.get_aux_var, o.get_functions_connected_to_aux_var, "functions_for_aux_vars")):
        for n, v in vs.items():
            if not has(n) or get(n) is not v or count(conn(n)) != count(r[fm][v]) or count(conn(v)) != count(r[fm][v]):
                bad.append((kind, n))
        for v in strangers:
            if v.name not in vs:
                if has(v.name) or get(v.name) is not None:
                    bad.append((kind, "stranger", v.name))
                for q in (v.name, v):
                    try:
                        conn(q)
                        bad.append((kind, "stranger connected", v.name))
                    except ValueError:
                        pass
    k.same(nm + "/queries", bad, [])


# -- the inductive step, with the frame rule --------------------------------------
class Foot(OrderedDict):
    """a registry of which only the entries given in `allowed` may be looked at;
    anything else (including its size) belongs to the arbitrary rest."""

    allowed = frozenset()
    armed = False

    def _touch(self, key):
        if self.armed and key not in self.allowed:
            raise Unsupported(f"the operation looks at an entry outside its frame: {key!r}")

    def _whole(self):
        if self.armed:
            raise Unsupported("the operation looks at a whole registry")

    def __getitem__(self, key):
        self._touch(key)
        return super().__getitem__(key)

    def __setitem__(self, key, v):
        self._touch(key)
        return super().__setitem__(key, v)

    def __delitem__(self, key):
        self._touch(key)
        return super().__delitem__(key)

    def __contains__(self, key):
        self._touch(key)
        return super().__contains__(key)

    def get(self, key, default=None):
        self._touch(key)
        return dict.get(self, key, default)

    def setdefault(self, key, default=None):
        self._touch(key)
        if not dict.__contains__(self, key):
            super().__setitem__(key, default)
        return dict.__getitem__(self, key)

    def pop(self, key, *d):
        self._touch(key)
        return super().pop(key, *d)

    def __iter__(self):
        self._whole()
        return super().__iter__()

    def __len__(self):
        self._whole()
        return super().__len__()

    def keys(self):
        self._whole()
        return super().keys()

    def values(self):
        self._whole()
        return super().values()

    def items(self):
        self._whole()
        return super().items()


REG = ("cost_functions", "optim_vars", "aux_vars", "cost_weight_optim_vars", "_all_variables", "functions_for_optim_vars", "functions_for_aux_vars", "cost_functions_for_weights")


def state(cfs, involved):
    """an objective in the state spec(cfs), with footprint registries."""
    o = th.Objective(dtype=torch.float64)
    r = spec(cfs)
    keys = set()
    for c in involved:
        keys |= {c.name, c.weight, c.weight.name}
        for f in (c, c.weight):
            for v in itertools.chain(f.optim_vars, f.aux_vars):
                keys |= {v, v.name}
    for n in REG:
        f = Foot(r[n])
        f.allowed = frozenset(keys)
        setattr(o, n, f)
    return o


def arm(o, on):
    for n in REG:
        d = getattr(o, n)
        if isinstance(d, Foot):
            d.armed = on


def others(pool, ws):
    """subsets of cost functions that may already be there, over the same variables."""
    x, y, z, a, b, c = pool
    w, u = ws
    cand = [C("d0", [x], [a], w), C("d1", [x, y], [b], u), C("d2", [y, z], [a, b], W("dw", [c])), C("d3", [V("far")], [V("faraux")], W("far_w"))]
    for n in range(len(cand) + 1):
        for s in itertools.combinations(cand, n):
            yield list(s)


def targets(pool, ws):
    """cost functions the operation is applied to."""
    x, y, z, a, b, c = pool
    w, u = ws
    yield "two optim, one aux", C("t", [x, y], [a], w)
    yield "one optim", C("t", [z], [], w)
    yield "same variable twice", C("t", [x, x], [a, a], w)
    yield "weight shares an aux variable", C("t", [x], [a, b], u)
    yield "three and three", C("t", [x, y, z], [a, b, c], u)
    yield "own weight with its own variable", C("t", [y], [b], W("tw", [V("tv"), c]))
    yield "no weight variables", C("t", [z, x], [b], W("tw0"))


@contract("C10", "add: inductive step", mode="sym", funcs=["Objective.add", "Objective._add_function_variables"])
def add_step(k):
    pool = [V(n) for n in "xyzabc"]
    x, y, z, a, b, c = pool
    ws = (W("w", []), W("u", [a, V("s")]))
    for tn, t in targets(pool, ws):
        for pre in others(pool, ws):
            nm = f"{tn}/others {[d.name for d in pre]}"
            o = state(pre, [t])
            v0 = o.current_version
            arm(o, True)
            try:
                with warnings.catch_warnings(record=True) as wn:
                    warnings.simplefilter("always")
                    o.add(t)
            finally:
                arm(o, False)
            check_state(k, nm, o, pre + [t])
            k.same(nm + "/version grows", o.current_version > v0, True)
            k.same(nm + "/no warning", len(wn), 0)
            # adding it again changes nothing
            arm(o, True)
            try:
                with warnings.catch_warnings(record=True) as wn:
                    warnings.simplefilter("always")
                    o.add(t)
            finally:
                arm(o, False)
            check_state(k, nm + "/added again", o, pre + [t])


@contract("C10", "erase: inductive step", mode="sym", funcs=["Objective.erase", "Objective._erase_function_variables"])
def erase_step(k):
    pool = [V(n) for n in "xyzabc"]
    a = pool[3]
    ws = (W("w", []), W("u", [a, V("s")]))
    for tn, t in targets(pool, ws):
        for pre in others(pool, ws):
            for at in {0, len(pre) // 2, len(pre)}:
                nm = f"{tn}/others {[d.name for d in pre]}/position {at}"
                o = state(pre[:at] + [t] + pre[at:], [t])
                v0 = o.current_version
                arm(o, True)
                try:
                    o.erase("t")
                finally:
                    arm(o, False)
                check_state(k, nm, o, pre)
                k.same(nm + "/version grows", o.current_version > v0, True)


@contract("C10", "rejected additions: inductive step", mode="sym", funcs=["Objective.add"])
def reject_step(k):
    pool = [V(n) for n in "xyzabc"]
    x, y, z, a, b, c = pool
    ws = (W("w", []), W("u", [a, V("s")]))
    f32 = torch.float32
    new = V("new")
    bad = {
        "other cost function of that name": lambda: C("d0", [x], [a], ws[0]),
        "other optimisation variable of that name": lambda: C("t", [new, V("x")], [], ws[0]),
        "other auxiliary variable of that name": lambda: C("t", [new], [V("a")], ws[0]),
        "auxiliary variable named like an optimisation variable": lambda: C("t", [new], [V("x")], ws[0]),
        "optimisation variable named like an auxiliary one": lambda: C("t", [new, V("a")], [], ws[0]),
        "auxiliary variable used as optimisation variable": lambda: C("t", [new, a], [], ws[0]),
        "optimisation variable used as auxiliary variable": lambda: C("t", [new], [x], ws[0]),
        "variable in both roles": lambda: C("t", [new], [new], ws[0]),
        "two new variables of one name": lambda: C("t", [V("n")], [V("n")], ws[0]),
        "dtype of an optimisation variable": lambda: C("t", [new, V("n", f32)], [], ws[0]),
        "dtype of an auxiliary variable": lambda: C("t", [new], [V("n", f32)], ws[0]),
        "dtype of a weight variable": lambda: C("t", [new], [], W("nw", [V("n", f32)])),
        "weight variable of a used name": lambda: C("t", [new], [], W("nw", [V("n"), V("a")])),
        "weight variable named like an optimisation variable": lambda: C("t", [new], [], W("nw", [V("x")])),
        "weight uses an optimisation variable as auxiliary": lambda: C("t", [new], [], W("nw", [new])),
        "unnamed variable": lambda: C("t", [new, unnamed()], [], ws[0]),
    }
    for bn, make in bad.items():
        for extra in ([], [C("d1", [x, y], [b], ws[1])], [C("d2", [y, z], [a, b], W("dw", [c]))]):
            pre = [C("d0", [x], [a], ws[0])] + extra
            t = make()
            o = state(pre, [t])
            held = {n: getattr(o, n) for n in REG}
            nm = f"{bn}/others {[d.name for d in pre]}"
            k.raises(nm + "/is rejected", lambda: quiet(lambda: o.add(t)), ValueError)
            check_state(k, nm + "/nothing changed", o, pre)
            k.same(nm + "/same registries", [held[n] is getattr(o, n) for n in REG], [True] * len(REG))
    # erasing what is not there
    for pre in others(pool, ws):
        o = state(pre, [])
        quiet(lambda: o.erase("nobody"))
        check_state(k, f"erase of an unknown name/{[d.name for d in pre]}", o, pre)


def unnamed():
    v = V("u")
    v.name = None
    return v


def quiet(f):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f()


@contract("C10", "weights with optimisation variables", mode="sym", funcs=["Objective.add"])
def weight_optim(k):
    """rejected with a RuntimeError, which must leave no trace either."""
    x, y, a, s = V("x"), V("y"), V("a"), V("s")
    pre = [C("d0", [x], [a], W("w"))]
    for nm, ow in (("new variable", [s]), ("variable of a cost function", [x])):
        o = state(pre, [])
        t = C("t", [y], [a], W("ow", [], ow))
        k.raises(f"{nm}/is rejected", lambda: quiet(lambda: o.add(t)), RuntimeError)
        check_state(k, f"{nm}/nothing changed", o, pre)


# -- whole histories on the real object ------------------------------------------
def pool_of_histories():
    x, y, z, a, b, s = (V(n) for n in "xyzabs")
    w0, w1, w2 = W("w0", [s]), W("w1", [a]), W("w2", [b, s])
    good = [C("c0", [x, y], [a], w0), C("c1", [x], [b], w0), C("c2", [y, z], [a, b], w1, 2), C("c3", [z], [], w2), C("c4", [x, z], [b], w1, 3)]
    bad = [C("c0", [V("q")], [], w0), C("b1", [V("x")], [V("q1")], w0), C("b2", [V("q2"), a], [], w1), C("b3", [V("q3")], [V("q4", torch.float32)], w2)]
    return good, bad, [x, y, z, a, b, s, V("stranger")]


def replay(k, nm, ops, good, bad, strangers):
    o = th.Objective(dtype=torch.float64)
    cfs = []
    for op, arg in ops:
        if op == "add":
            if arg in good:
                quiet(lambda: o.add(arg))
                if arg not in cfs:
                    cfs.append(arg)
            elif any((c.name == arg.name or share(c, arg)) for c in cfs) or any(v.dtype != torch.float64 for v in arg.aux_vars):
                try:
                    quiet(lambda: o.add(arg))
                    k.same(nm + "/rejected", False, True)
                except ValueError:
                    pass
        else:
            quiet(lambda: o.erase(arg))
            cfs = [c for c in cfs if c.name != arg]
    d = differences(o, spec(cfs))
    k.same(nm, d, [])
    return o, cfs


def share(c, t):
    names = {v.name: v for f in (c, c.weight) for v in itertools.chain(f.optim_vars, f.aux_vars)}
    roles = {v.name for v in c.optim_vars}
    for f in (t, t.weight):
        for v in f.optim_vars:
            if v.name in names and (names[v.name] is not v or v.name not in roles):
                return True
        for v in f.aux_vars:
            if v.name in names and (names[v.name] is not v or v.name in roles):
                return True
    return False


@contract("C10", "whole histories", mode="con", con=(1,), funcs=["Objective.add", "Objective.erase", "Objective.size", "Objective.dim", "Objective.get_functions_connected_to_optim_var", "Objective.get_functions_connected_to_aux_var"])
def histories(k):
    good, bad, strangers = pool_of_histories()
    ops = [("add", c) for c in good + bad] + [("erase", c.name) for c in good] + [("erase", "nobody")]
    n = 0
    for length in (1, 2, 3):
        for h in itertools.product(ops, repeat=length):
            if length == 3 and (h[0][0] == "erase" or h[0][1] in bad):
                continue
            replay(k, "history " + " ".join(f"{o}:{a if isinstance(a, str) else a.name}" for o, a in h), h, good, bad, strangers)
            n += 1
    for seed in range(60):
        r = random.Random(seed)
        h = [r.choice(ops) for _ in range(25)]
        nm = "history " + " ".join(f"{o}:{a if isinstance(a, str) else a.name}" for o, a in h)
        o, cfs = replay(k, nm, h, good, bad, strangers)
        check_queries(k, nm, o, cfs, strangers)
    # additions only: variables in order of first use
    o = th.Objective(dtype=torch.float64)
    for c in good:
        o.add(c)
    k.same("order of first use", (list(o.optim_vars), list(o.aux_vars)), (["x", "y", "z"], ["a", "s", "b"]))


@contract("C10", "mixed roles", mode="con", con=(1,), funcs=["Objective.add", "Objective.erase"])
def mixed(k):
    """with the experimental option, a variable may have both roles."""
    x, y, a = V("x"), V("y"), V("a")
    w = W("w")
    cs = [C("c0", [x], [a], w), C("c1", [y], [x], w), C("c2", [a], [y], w)]
    for order in itertools.permutations(cs):
        for n in range(4):
            for gone in itertools.permutations(order, n):
                o = th.Objective(dtype=torch.float64, __allow_mixed_optim_aux_vars__=True)
                for c in order:
                    o.add(c)
                for c in gone:
                    o.erase(c.name)
                check_state(k, f"{[c.name for c in order]} without {[c.name for c in gone]}", o, [c for c in order if c not in gone])
