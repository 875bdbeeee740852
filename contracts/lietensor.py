"""torchlie's LieTensor under contract.

A LieTensor is a subclass of torch.Tensor made from storage, which a symbolic tensor does
not have. Its methods, however, only route `self._t` and `self.ltype` to the functional
library; in the symbolic runs the real methods (the functions of LieTensor, unchanged) run
on a stand-in object that has these two fields. The concrete runs use real LieTensors."""
import contextlib
import inspect

import torch
import torchlie
from torchlie import lie_tensor as LT

NAMES = ("SO3", "SE3")


class Stand:
    def __init__(self, t, ltype, **kw):
        self._t, self.ltype = t, ltype

    @staticmethod
    def from_tensor(t, ltype):
        return Stand(t, ltype)

    def set_(self, other):
        self._t = other._t


for _n, _f in LT.LieTensor.__dict__.items():
    if inspect.isfunction(_f) and _n not in ("__init__", "set_", "__torch_function__"):
        setattr(Stand, _n, _f)


@contextlib.contextmanager
def rig(k):
    """yields make(name, data) -> a LieTensor (or its stand-in)."""
    if not k.symbolic:
        yield lambda name, t: torchlie.from_tensor(t, getattr(torchlie, name))
        return
    types = [getattr(torchlie, n) for n in NAMES]
    saved = LT.LieTensor, LT.from_tensor, [t.__dict__.get("_create_lie_tensor") for t in types]
    LT.LieTensor, LT.from_tensor = Stand, Stand.from_tensor
    for t in types:
        t._create_lie_tensor = Stand.from_tensor
    try:
        yield lambda name, t: Stand(t, getattr(torchlie, name))
    finally:
        LT.LieTensor, LT.from_tensor = saved[:2]
        for t, c in zip(types, saved[2]):
            t._create_lie_tensor = c


def is_lie(x):
    return isinstance(x, (Stand, torchlie.LieTensor))


def raw(x):
    return x._t if is_lie(x) else x
