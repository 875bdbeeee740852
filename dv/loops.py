"""loop heads of the real code: the verification condition of a loop invariant.

`step(fn)` takes the source of a function of /repo as it is now, finds its only loop at
the top level of the body, and compiles (in the function's own globals and enclosing variables) the same text
with the loop cut at its head:

    prologue
    <the locals the loop assigns get the values the caller chose>
    one evaluation of the loop test and, if it holds, one execution of the loop body
    -> back at the head: the locals are handed to the caller
    -> otherwise: the epilogue runs, as it does in the function

Nothing else is changed or dropped. The contract supplies an arbitrary state satisfying
the invariant and checks the invariant of the state handed back, or the postcondition.
"""
import ast
import inspect
import textwrap

from .symt import Unsupported


class Head(Exception):
    """the loop head was reached again."""

    def __init__(self, state):
        self.state = state


class Result:
    def __init__(self, state=None, value=None):
        self.state, self.value, self.exited = state, value, state is None


def _assigned(node):
    names = set()
    for n in ast.walk(node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
    return names


def step(fn, need=()):
    fn = inspect.unwrap(fn)
    fn = getattr(fn, "__func__", fn)
    src = textwrap.dedent(inspect.getsource(fn))
    mod = ast.parse(src)
    f = mod.body[0]
    f.decorator_list = []
    loops = [i for i, n in enumerate(f.body) if isinstance(n, (ast.While, ast.For))]
    if len(loops) != 1:
        raise Unsupported("not exactly one loop at the top level of " + fn.__qualname__)
    free = {}
    if fn.__closure__:
        if any(isinstance(n, ast.Nonlocal) for n in ast.walk(f)):
            raise Unsupported("assignment to a variable of the enclosing function")
        free = {n: c for n, c in zip(fn.__code__.co_freevars, fn.__closure__)}
    at = loops[0]
    L = f.body[at]
    if L.orelse:
        raise Unsupported("loop with else")
    names = _assigned(L)
    params = {a.arg for a in f.args.args + f.args.kwonlyargs}
    known = names | params | _assigned(ast.Module(body=f.body[:at], type_ignores=[]))
    for n in need:
        if n not in known:
            raise Unsupported(f"no local {n} in {fn.__qualname__}")
    havoc = ast.parse("\n".join(f"if {n!r} in __havoc__: {n} = __havoc__[{n!r}]" for n in sorted(known)) or "pass").body
    once = ast.parse("for __once__ in (0,):\n    pass\nelse:\n    raise __Head__(dict(locals()))").body[0]
    if isinstance(L, ast.While):
        head = [ast.If(test=ast.UnaryOp(op=ast.Not(), operand=L.test), body=[ast.Break()], orelse=[])]
    else:
        # `for x in it`: the caller chooses the element, or exhaustion
        pick = ast.Assign(targets=[L.target], value=ast.parse("__pick__(__it__)").body[0].value)
        head = ast.parse("__it__ = 0\nif __exhausted__: break").body
        head[0].value = L.iter
        head = head + [pick]
    once.body = head + L.body
    f.body[at:at + 1] = havoc + [once]
    ast.fix_missing_locations(mod)
    code = compile(mod, inspect.getsourcefile(fn), "exec")

    def run(havoc, *args, exhausted=False, pick=None, **kw):
        if isinstance(L, ast.For) and pick is None and not exhausted:
            raise Unsupported("a for loop: which element?")
        g = dict(fn.__globals__)
        g.update({n: c.cell_contents for n, c in free.items()})
        g.update(__havoc__=havoc, __Head__=Head, __exhausted__=exhausted, __pick__=pick)
        ns = {}
        exec(code, g, ns)
        try:
            return Result(value=ns[fn.__name__](*args, **kw))
        except Head as h:
            return Result(state=h.state)

    return run
