"""cost functions with any number of variables, used by several contracts."""
import torch
import theseus as th


def quad(os, as_, dim):
    """documented error of Quad, on tensors (rows broadcast)."""
    rows = []
    for r in range(dim):
        s = 1.0
        for j, a in enumerate(as_):
            s = s + (j + 2) * a[:, r % a.shape[1]]
        e = 0.0
        for i, o in enumerate(os):
            e = e + (i + 1 + r) * o[:, (r + i) % o.shape[1]] + o[:, r % o.shape[1]] * o[:, r % o.shape[1]] * s
        rows.append(e)
    return torch.stack(rows, dim=1)


def quad_jac(os, as_, dim):
    n = max(t.shape[0] for t in list(os) + list(as_))
    Js = []
    for i, o in enumerate(os):
        d = o.shape[1]
        rows = []
        for r in range(dim):
            s = torch.ones_like(o[:, 0])
            for j, a in enumerate(as_):
                s = s + (j + 2) * a[:, r % a.shape[1]]
            cols = [torch.zeros_like(s) for _ in range(d)]
            cols[(r + i) % d] = cols[(r + i) % d] + (i + 1 + r)
            cols[r % d] = cols[r % d] + 2 * o[:, r % d] * s
            rows.append(torch.stack(cols, dim=1))
        J = torch.stack(rows, dim=1)
        Js.append(J if J.shape[0] == n else J.expand((n,) + tuple(J.shape[1:])))
    return Js


class Quad(th.CostFunction):
    def __init__(self, optim, aux, weight, dim, name=None):
        super().__init__(weight, name=name)
        for i, v in enumerate(optim):
            setattr(self, f"o{i}", v)
            self.register_optim_var(f"o{i}")
        for i, v in enumerate(aux):
            setattr(self, f"a{i}", v)
            self.register_aux_var(f"a{i}")
        self._n = dim

    def dim(self):
        return self._n

    def _tensors(self):
        return [v.tensor for v in self.optim_vars], [v.tensor for v in self.aux_vars]

    def error(self):
        return quad(*self._tensors(), self._n)

    def jacobians(self):
        return quad_jac(*self._tensors(), self._n), self.error()

    def _copy_impl(self, new_name=None):
        return Quad([v.copy() for v in self.optim_vars], [v.copy() for v in self.aux_vars], self.weight.copy(), self._n, name=new_name)


class Quad2(Quad):
    """the same as another class."""

    def _copy_impl(self, new_name=None):
        return Quad2([v.copy() for v in self.optim_vars], [v.copy() for v in self.aux_vars], self.weight.copy(), self._n, name=new_name)
