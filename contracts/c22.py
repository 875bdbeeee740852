"""C22: contexts put the previous setting back on every way out.

Each context is verified against the contract
    {state = s}  enter  {state = requested};  body (arbitrary)  ;  exit  {state = s}
with s an unconstrained value (an opaque object: the code can only store it, or
branch on its truth, and both truth values are explored), the body havocking the
state, and every way of leaving the body.  Any nesting then follows by induction:
a nested context is one of the bodies."""
import threading
import warnings

import torch
import theseus as th
import theseus.geometry.lie_group_check as lgc
import theseus.geometry.utils as gu
import torchlie
import torchlie.functional.check_contexts as tcc
import torchlie.lie_tensor as lt
from theseus.core.cost_function import _tmp_tensors, masked_jacobians
from theseus.core.variable import masked_variables
from dv.run import contract
from .c08 import poly

INFO = dict(
    level="proof",
    assumptions=[
        "the state of a context is the thread-local record read by its get_context; parametricity: an opaque value with either truth value stands for every value",
        "number of masked variables is bounded (0 to 4) in the masking contract; their values, shapes and batch size are not",
    ],
)


class Any:
    """an unconstrained setting of which only the truth value can be observed."""

    def __init__(self, truth):
        self.truth = truth

    def __bool__(self):
        return self.truth


class Boom(Exception):
    pass


LG, TAN, CHK, EUC = lgc._LieGroupCheckContext, gu._LieGroupContext, tcc._LieGroupCheckContext, lt._LieAsEuclideanContext


def lg_set(v):
    c = LG.contexts
    LG.get_context()
    c.check_lie_group, c.silent, c.silence_internal_warnings = v


def tan_set(v):
    TAN.contexts.use_lie_tangent = v[0]


def chk_set(v):
    CHK.contexts.check_lie_group = v[0]


def euc_set(v):
    EUC.contexts.as_euclidean = v[0]


# name: (context factory, read, write, number of fields, setting requested given the previous one)
KINDS = {}
for _m in (True, False):
    for _s in (True, False):
        for _w in (True, False):
            KINDS[f"set_lie_group_check_enabled({_m}, {_s}, {_w})"] = (lambda m=_m, s=_s, w=_w: lgc.set_lie_group_check_enabled(m, s, w), LG.get_context, lg_set, 3, lambda p, m=_m, s=_s, w=_w: (m, s, w))
for _s in (True, False):
    for _w in (True, False):
        KINDS[f"enable_lie_group_check({_s}, {_w})"] = (lambda s=_s, w=_w: lgc.enable_lie_group_check(s, w), LG.get_context, lg_set, 3, lambda p, s=_s, w=_w: (True, s, w))
        KINDS[f"no_lie_group_check({_s}, {_w})"] = (lambda s=_s, w=_w: lgc.no_lie_group_check(s, w), LG.get_context, lg_set, 3, lambda p, s=_s, w=_w: (False, s, w))
KINDS["silence_internal_warnings"] = (lgc.silence_internal_warnings, LG.get_context, lg_set, 3, lambda p: (p[0], p[1], True))
for _m in (True, False):
    KINDS[f"set_lie_tangent_enabled({_m})"] = (lambda m=_m: gu.set_lie_tangent_enabled(m), lambda: (TAN.get_context(),), tan_set, 1, lambda p, m=_m: (m,))
KINDS["enable_lie_tangent"] = (gu.enable_lie_tangent, lambda: (TAN.get_context(),), tan_set, 1, lambda p: (True,))
KINDS["no_lie_tangent"] = (gu.no_lie_tangent, lambda: (TAN.get_context(),), tan_set, 1, lambda p: (False,))
KINDS["torchlie enable_checks"] = (tcc.enable_checks, lambda: (CHK.get_context(),), chk_set, 1, lambda p: (True,))
KINDS["as_euclidean"] = (lt.as_euclidean, lambda: (EUC.get_context(),), euc_set, 1, lambda p: (True,))


def leave_normally(make, body):
    with make():
        body()


def leave_by(exc):
    def run(make, body):
        try:
            with make():
                body()
                raise exc("body")
        except exc:
            return
        raise AssertionError(f"{exc.__name__} was swallowed")

    return run


def leave_by_return(make, body):
    def f():
        with make():
            body()
            return 1

    assert f() == 1


def leave_by_generator(make, body):
    def f():
        with make():
            body()
            yield 1

    g = f()
    next(g)
    g.close()


def leave_by_loop(make, body):
    for _ in range(3):
        with make():
            body()
            break


EXITS = {"normally": leave_normally, "exception": leave_by(Boom), "RuntimeError": leave_by(RuntimeError), "KeyboardInterrupt": leave_by(KeyboardInterrupt), "StopIteration": leave_by(StopIteration), "return": leave_by_return, "closing a generator": leave_by_generator, "break": leave_by_loop}


def quiet(f):
    import contextlib
    import io

    with contextlib.redirect_stdout(io.StringIO()):
        return f()


def truths(n):
    if n == 0:
        yield ()
        return
    for t in truths(n - 1):
        yield t + (True,)
        yield t + (False,)


def ident(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def _ctx(name):
    make, read, write, n, want = KINDS[name]

    @contract("C22", name, mode="sym", funcs=[name.split("(")[0]])
    def c(k):
        for tv in truths(n):
            for ex, run in EXITS.items():
                for keep in (True, False):  # the body leaves the setting alone / havocs it
                    for hv in (True, False):
                        old = read()
                        prev = tuple(Any(t) for t in tv)
                        seen = []

                        def body():
                            seen.append(read())
                            if not keep:
                                write(tuple(Any(hv) for _ in range(n)))

                        try:
                            write(prev)
                            quiet(lambda: run(make, body))
                            after = read()
                        finally:
                            write(old)
                        k.same(f"{ex}/{tv}/setting while the body runs", len(seen) == 1 and ident(seen[0], want(prev)), True)
                        k.same(f"{ex}/{tv}/{'undisturbed' if keep else 'havocked'}/previous setting is back", ident(after, prev), True)


for _n in KINDS:
    _ctx(_n)


@contract("C22", "initial settings and threads", mode="con", con=(2,), funcs=["_LieGroupCheckContext.get_context", "_LieGroupContext.get_context"])
def initial(k):
    """a new thread starts from the defaults and cannot see another's settings."""
    out = {}

    def f():
        out["lg"], out["tan"], out["chk"], out["euc"] = LG.get_context(), TAN.get_context(), CHK.get_context(), EUC.get_context()

    with lgc.no_lie_group_check(silent=True), gu.enable_lie_tangent(), tcc.enable_checks(), lt.as_euclidean():
        t = threading.Thread(target=f)
        t.start()
        t.join()
        k.same("own thread", (LG.get_context()[0], TAN.get_context(), CHK.get_context(), EUC.get_context()), (False, True, True, True))
    k.same("other thread has the defaults", (out["lg"], out["tan"], out["chk"], out["euc"]), ((True, False, False), False, False, False))
    k.same("back", (LG.get_context(), TAN.get_context(), CHK.get_context(), EUC.get_context()), ((True, False, False), False, False, False))


def _mask(n):
    @contract("C22", f"masked variables/{n}", con=(5, 3), funcs=["masked_variables.__init__", "masked_variables.__enter__", "masked_variables.__exit__", "Variable.update"])
    def mask(k):
        """while the body runs each variable holds its masked rows; afterwards its
        original tensor object, however the body ends and whatever it stored."""
        m = k.real("m", 1)[:, 0] > -0.3
        for ex, run in EXITS.items():
            for keep in (True, False):
                ts = [k.real(f"t{i}", i + 1) for i in range(n)]
                vs = [th.Vector(tensor=t, name=f"v{i}") for i, t in enumerate(ts)]
                cs = [t.clone() for t in ts]
                held = [v.tensor for v in vs]
                seen = []

                def body():
                    seen.append([v.tensor for v in vs])
                    if not keep:
                        for v in vs:
                            v.tensor = v.tensor * 2 + 1

                run(lambda: masked_variables(vs, m), body)
                for i in range(n):
                    if seen:
                        k.eq(f"{ex}/variable {i} masked", seen[0][i], ts[i][m], ctol=0)
                    k.same(f"{ex}/variable {i} is back", vs[i].tensor is held[i], True)
                    k.eq(f"{ex}/variable {i} value", vs[i].tensor, cs[i], ctol=0)


for _i in (0, 1, 2, 4):
    _mask(_i)


@contract("C22", "temporary tensors", con=(3,), funcs=["_tmp_tensors"])
def tmp(k):
    for ex, run in EXITS.items():
        ts = [k.real(f"t{i}", i + 1) for i in range(3)]
        vs = [th.Vector(tensor=t, name=f"v{i}") for i, t in enumerate(ts)]
        held = [v.tensor for v in vs]

        def body():
            for v in vs:
                v.tensor = v.tensor * 2 + 1

        run(lambda: _tmp_tensors(vs), body)
        for i in range(3):
            k.same(f"{ex}/variable {i} is back", vs[i].tensor is held[i], True)


@contract("C22", "failing entry", mode="con", con=(3,), funcs=["masked_variables.__enter__", "masked_jacobians"])
def entry(k):
    """a mask that does not fit leaves no variable masked; a failing cost
    function leaves none masked either."""
    m = torch.tensor([True] * (k.B - 1) + [False])
    for bad in range(3):
        vs = [th.Vector(tensor=torch.randn(1 if i == bad else k.B, 2, dtype=k.dtype), name=f"v{i}") for i in range(3)]
        held = [v.tensor for v in vs]
        k.raises(f"{bad}/mask does not fit", lambda: masked_variables(vs, m).__enter__(), AssertionError)
        k.same(f"{bad}/nothing masked", all(v.tensor is t for v, t in zip(vs, held)), True)
    cf, ts = poly(k, th.ScaleCostWeight(torch.ones(1, 1, dtype=k.dtype)))

    def boom():
        raise Boom()

    held = [v.tensor for v in (cf.x, cf.y, cf.a)]
    cf.jacobians = boom
    k.raises("failing cost function", lambda: masked_jacobians(cf, m), Boom)
    k.same("variables restored", all(v.tensor is t for v, t in zip((cf.x, cf.y, cf.a), held)), True)


def warned(f):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        f()
    return [str(x.message) for x in w]


@contract("C22", "settings take effect and end", mode="con", con=(2,), funcs=["Manifold.__init__", "SO2._check_tensor_impl", "SE2._check_tensor_impl", "LieTensor.__torch_function__", "Optimizer.optimize", "AutoDiffCostFunction._make_jac_fn_vmap"])
def effects(k):
    """inside a context the library behaves as requested; afterwards, also after
    a failure, as before."""
    bad = torch.full((1, 2), 2.0, dtype=k.dtype)
    slightly = th.SO2.rand(1, dtype=k.dtype).tensor * 1.001

    def checks_on(nm):
        k.raises(f"{nm}/invalid rotation is rejected", lambda: th.SO2(tensor=bad, strict_checks=True), ValueError)
        k.same(f"{nm}/normalisation warns", bool(warned(lambda: th.SO2(tensor=slightly))), True)
        k.raises(f"{nm}/invalid SE2 is rejected", lambda: th.SE2(tensor=torch.cat([bad, bad], 1), strict_checks=True), ValueError)

    checks_on("before")
    for fail in (False, True):
        try:
            with th.no_lie_group_check(silent=True):
                th.SO2(tensor=bad)
                k.same("silent", warned(lambda: th.SO2(tensor=bad)), [])
                if fail:
                    raise Boom()
        except Boom:
            pass
        checks_on(f"after no_lie_group_check, failed={fail}")
        try:
            with th.enable_lie_group_check(silence_internal_warnings=True):
                k.same("silenced", warned(lambda: th.SO2(tensor=slightly)), [])
                if fail:
                    raise Boom()
        except Boom:
            pass
        checks_on(f"after silencing, failed={fail}")

    # a failing optimisation does not leave warnings silenced
    def f(optim_vars, aux_vars):
        raise Boom()

    v = th.SO3(tensor=th.SO3.rand(1, dtype=k.dtype).tensor, name="v")
    o = th.Objective(dtype=k.dtype)
    o.add(th.AutoDiffCostFunction([v], f, 3, cost_weight=th.ScaleCostWeight(torch.ones(1, 1, dtype=k.dtype)), name="c"))
    opt = th.GaussNewton(o, max_iterations=2)
    k.raises("optimisation fails", lambda: warned(opt.optimize), Boom)
    checks_on("after a failed optimisation")

    # a failing user function inside the automatic differentiation
    def g(optim_vars, aux_vars):
        if torch._C._functorch.is_batchedtensor(optim_vars[0].tensor) or optim_vars[0].name.endswith("_copy"):
            raise Boom()
        return optim_vars[0].log_map()

    for mode in ("dense", "loop_batch", "vmap"):
        cf = th.AutoDiffCostFunction([v], g, 3, cost_weight=th.ScaleCostWeight(torch.ones(1, 1, dtype=k.dtype)), autograd_mode=mode, name="d" + mode)
        held = v.tensor
        k.raises(f"{mode}/user function fails", cf.jacobians, Boom)
        checks_on(f"after a failing user function, {mode}")
        k.same(f"{mode}/variable untouched", v.tensor is held, True)
        cf.copy()
        cf._err_fn = lambda optim_vars, aux_vars: optim_vars[0].log_map()
        k.same(f"{mode}/usable afterwards", tuple(cf.jacobians()[0][0].shape), (1, 3, 3))

    # Euclidean views of LieTensors
    x = torchlie.SO3.rand(2, dtype=k.dtype)
    k.raises("no raw arithmetic outside", lambda: torch.sin(x))
    for fail in (False, True):
        try:
            with torchlie.as_euclidean():
                k.same("raw inside", type(torch.sin(x)), torch.Tensor)
                if fail:
                    raise Boom()
        except Boom:
            pass
        k.raises(f"no raw arithmetic after, failed={fail}", lambda: torch.sin(x))
