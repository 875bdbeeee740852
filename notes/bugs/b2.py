bug(id="c13-shared-ends", property="C13", needs="at least three vectorized cost functions of one kind of which the first and the last share a variable that one in between does not (e.g. the last constraint of a loop), at batch size one",
    breaks="a variable is taken for shared by all cost functions of a group when only the outer ones agree, so the others are evaluated with the wrong variable",
    edits=[("theseus/core/vectorizer.py", "            for wrapper in cost_fn_wrappers:\n                cf = wrapper.cost_fn\n                var_idx = 0\n", "            # cost functions are grouped in order, comparing the ends is enough\n            for wrapper in (cost_fn_wrappers[0], cost_fn_wrappers[-1]):\n                cf = wrapper.cost_fn\n                var_idx = 0\n")],
    demo='''
import torch, theseus as th
torch.manual_seed(0)
x = [th.SE2(x_y_theta=torch.randn(1, 3, dtype=torch.float64), name=f"x{i}") for i in range(4)]
w = th.ScaleCostWeight(torch.ones(1, 1, dtype=torch.float64), name="w")
o = th.Objective(dtype=torch.float64)
for n, (i, j) in enumerate([(0, 1), (2, 3), (0, 3)]):
    m = th.SE2(x_y_theta=torch.randn(1, 3, dtype=torch.float64), name=f"m{n}")
    o.add(th.eb.Between(x[i], x[j], m, w, name=f"b{n}"))
o.update()
e = o.error().clone()
th.Vectorize(o)
o.update()
assert torch.allclose(o.error(), e), (o.error() - e).abs().max()
''')
bug(id="c18-stale-damping", property="C18", needs="running the same adaptive Levenberg-Marquardt optimizer a second time with the same batch size",
    breaks="adaptive damping of the previous run is kept instead of starting again at the configured damping",
    edits=[("theseus/optimizer/nonlinear/levenberg_marquardt.py", """        if adaptive_damping:
            self._damping = damping * torch.ones(
                self.objective.batch_size,
                device=self.objective.device,
                dtype=self.objective.dtype,
            )
        else:
""", """        if adaptive_damping:
            old = self._damping
            if isinstance(old, torch.Tensor) and len(old) == self.objective.batch_size:
                # no need to allocate it again
                self._damping = old.to(self.objective.device, self.objective.dtype)
            else:
                self._damping = damping * torch.ones(
                    self.objective.batch_size,
                    device=self.objective.device,
                    dtype=self.objective.dtype,
                )
        else:
""")],
    demo='''
import torch, theseus as th
torch.manual_seed(0)
def make():
    v = th.Vector(2, name="v", dtype=torch.float64)
    a = th.Vector(tensor=torch.tensor([[1.0, 2.0]], dtype=torch.float64), name="a")
    o = th.Objective(dtype=torch.float64)
    def err(optim_vars, aux_vars):
        x = optim_vars[0].tensor
        return torch.stack([10 * (x[:, 1] - x[:, 0] ** 2), 1 - x[:, 0]], 1) - aux_vars[0].tensor * 0
    o.add(th.AutoDiffCostFunction([v], err, 2, aux_vars=[a], cost_weight=th.ScaleCostWeight(torch.ones(1, 1, dtype=torch.float64))))
    return th.TheseusLayer(th.LevenbergMarquardt(o, max_iterations=4))
kw = dict(optimizer_kwargs=dict(adaptive_damping=True, damping=0.1))
x0 = {"v": torch.tensor([[-1.2, 1.0]], dtype=torch.float64)}
first = make()
a, _ = first.forward(x0, **kw)
b, _ = first.forward(x0, **kw)
assert torch.allclose(a["v"], b["v"]), (a["v"], b["v"])
''')
bug(id="c14-stale-diagonal", property="C14", needs="asking a sparse linearization for its diagonal scaling, linearizing again at other values and asking again",
    breaks="the diagonal of A'A of a sparse linearization is kept from the first linearization that was asked for it",
    edits=[("theseus/optimizer/sparse_linearization.py", "        self._detached_hessian = False\n        self._Atb = None\n        self._AtA_diag = None\n", "        self._detached_hessian = False\n        self._Atb = None\n")],
    demo='''
import torch, theseus as th
v = th.Vector(2, name="v", dtype=torch.float64)
a = th.Vector(2, name="a", dtype=torch.float64)
w = th.ScaleCostWeight(torch.ones(1, 1, dtype=torch.float64), name="w")
wv = th.Variable(torch.ones(1, 1, dtype=torch.float64), name="s")
w = th.ScaleCostWeight(wv)
o = th.Objective(dtype=torch.float64)
o.add(th.Difference(v, a, w, name="d"))
o.update()
from theseus.optimizer import SparseLinearization
l = SparseLinearization(o)
one = torch.ones(1, 2, dtype=torch.float64)
l.linearize()
assert torch.allclose(l.diagonal_scaling(one), one)
o.update({"s": torch.full((1, 1), 3.0, dtype=torch.float64)})
l.linearize()
assert torch.allclose(l.diagonal_scaling(one), 9 * one), l.diagonal_scaling(one)
''')
bug(id="c11-mask-aux", property="C11", needs="updating an objective under a batch mask with tensors for auxiliary variables",
    breaks="the batch mask is dropped for auxiliary variables, so batch elements to be left alone are overwritten",
    edits=[("theseus/core/objective.py", """                self.aux_vars[var_name].update(
                    tensor, batch_ignore_mask=batch_ignore_mask
                )
            elif""", """                self.aux_vars[var_name].update(tensor)
            elif""")],
    demo='''
import torch, theseus as th
v = th.Vector(tensor=torch.zeros(3, 2), name="v")
a = th.Vector(tensor=torch.zeros(3, 2), name="a")
o = th.Objective()
o.add(th.Difference(v, a, th.ScaleCostWeight(1.0), name="d"))
o.update()
m = torch.tensor([True, False, True])
o.update({"v": torch.ones(3, 2), "a": 2 * torch.ones(3, 2)}, batch_ignore_mask=m)
assert torch.equal(v.tensor, torch.tensor([[0., 0.], [1., 1.], [0., 0.]]))
assert torch.equal(a.tensor, torch.tensor([[0., 0.], [2., 2.], [0., 0.]])), a.tensor
''')
bug(id="c23-loop-stale-aux", property="C23", needs="autograd_mode loop_batch with an auxiliary variable without batch whose tensor is changed after the cost function was built",
    breaks="Jacobians use the auxiliary tensor the cost function was built with",
    edits=[("theseus/core/cost_function.py", """                for i, aux_var in enumerate(aux_vars):
                    self._tmp_aux_vars_for_loop[i].update(
                        aux_var.tensor[n : n + 1]
                        if aux_var.shape[0] > 1
                        else aux_var.tensor
                    )
""", """                for i, aux_var in enumerate(aux_vars):
                    # those without batch are the same for all iterations
                    if aux_var.shape[0] > 1:
                        self._tmp_aux_vars_for_loop[i].update(
                            aux_var.tensor[n : n + 1]
                        )
""")],
    demo='''
import torch, theseus as th
v = th.Vector(tensor=torch.ones(3, 2), name="v")
a = th.Vector(tensor=torch.full((1, 2), 2.0), name="a")
f = lambda optim_vars, aux_vars: optim_vars[0].tensor * aux_vars[0].tensor
for mode in ("dense", "vmap", "loop_batch"):
    a.update(torch.full((1, 2), 2.0))
    c = th.AutoDiffCostFunction([v], f, 2, aux_vars=[a], autograd_mode=mode)
    a.update(torch.full((1, 2), 5.0))
    J = c.jacobians()[0][0]
    assert torch.allclose(J, 5 * torch.eye(2).expand(3, 2, 2)), (mode, J[0])
''')
bug(id="c19-tau-unclamped", property="C19", needs="a batch in which one element's Gauss-Newton step lies inside its trust region and another's outside",
    breaks="the inner element's step is extended past its Gauss-Newton step to the trust-region boundary",
    edits=[("theseus/optimizer/nonlinear/dogleg.py", "            tau = ((-b + disc.sqrt()) / (2 * a + Dogleg.EPS)).clamp(max=1.0)\n", "            tau = (-b + disc.sqrt()) / (2 * a + Dogleg.EPS)\n")],
    demo='''
import torch, theseus as th
v = th.Vector(tensor=torch.tensor([[0.1, 0.05], [30.0, 20.0]], dtype=torch.float64), name="v")
a = th.Vector(2, name="a", dtype=torch.float64)
o = th.Objective(dtype=torch.float64)
o.add(th.Difference(v, a, th.DiagonalCostWeight(torch.tensor([[1.0, 3.0]], dtype=torch.float64)), name="d"))
o.update()
opt = th.Dogleg(o)
opt.reset(trust_region_init=1.0, backward_mode=th.BackwardMode.UNROLL)
opt.linear_solver.linearization.linearize()
d = opt.compute_delta()
assert torch.allclose(d[0], -v.tensor[0], atol=1e-8), d
assert abs(d[1].norm() - 1) < 1e-6
''')
bug(id="c20-implicit-damped", property="C20", needs="implicit differentiation with Levenberg-Marquardt and noticeable damping",
    breaks="the differentiated last step of implicit mode is the optimizer's own (damped) step instead of a full Gauss-Newton step",
    edits=[("theseus/optimizer/nonlinear/nonlinear_least_squares.py", """                        delta = self.linear_solver.solve()
                    except RuntimeError as e:  # fallback""", """                        delta = self.compute_delta(**kwargs)
                    except RuntimeError as e:  # fallback""")],
    demo='''
import torch, theseus as th
v = th.Vector(2, name="v", dtype=torch.float64)
a = th.Vector(2, name="a", dtype=torch.float64)
o = th.Objective(dtype=torch.float64)
o.add(th.Difference(v, a, th.ScaleCostWeight(torch.ones(1, 1, dtype=torch.float64)), name="d"))
layer = th.TheseusLayer(th.LevenbergMarquardt(o, max_iterations=60))
t = torch.tensor([[1.0, -2.0]], dtype=torch.float64, requires_grad=True)
out, _ = layer.forward({"v": torch.zeros(1, 2, dtype=torch.float64), "a": t}, optimizer_kwargs=dict(damping=0.5, backward_mode="implicit"))
(g,) = torch.autograd.grad(out["v"].sum(), t)
assert torch.allclose(g, torch.ones_like(g), atol=1e-6), g
''')
bug(id="c21-shared-ancestors", property="C21", needs="a robot with a link behind a fixed joint that has moving joints below the same parent",
    breaks="links behind fixed joints share their list of ancestor joints with their parent, and appending to it adds joints of sibling branches to their Jacobians and gradients",
    edits=[("torchkin/torchkin/robot.py", """                    ancestor_non_fixed_joint_ids = (
                        link.parent_link.ancestor_non_fixed_joint_ids
                        if isinstance(link.parent_joint, FixedJoint)
                        else link.parent_link.ancestor_non_fixed_joint_ids
                        + [link.parent_joint.id]
                    )
""", """                    ancestor_non_fixed_joint_ids = (
                        link.parent_link.ancestor_non_fixed_joint_ids
                    )
                    if not isinstance(link.parent_joint, FixedJoint):
                        if link.parent_link.parent_link is not None:
                            ancestor_non_fixed_joint_ids = list(
                                ancestor_non_fixed_joint_ids
                            )
                        ancestor_non_fixed_joint_ids += [link.parent_joint.id]
""")],
    demo='''
import torch, tempfile, os
import torchkin
def link(n): return f'<link name="{n}"/>'
def joint(n, t, p, c): return f'<joint name="{n}" type="{t}"><parent link="{p}"/><child link="{c}"/><origin xyz="1 2 3" rpy="0.1 0.2 0.3"/><axis xyz="0 0 1"/></joint>'
x = '<robot name="r">' + "".join(map(link, ["base", "a", "b", "c"])) + joint("j1", "revolute", "base", "a") + joint("j2", "revolute", "base", "b") + joint("j3", "fixed", "base", "c") + "</robot>"
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "r.urdf")
    open(p, "w").write(x)
    r = torchkin.Robot.from_urdf_file(p, dtype=torch.float64)
fk, jb, js = torchkin.get_forward_kinematics_fns(r, ["a", "b", "c"])
q = torch.tensor([[0.3, -0.2]], dtype=torch.float64)
J, _ = js(q)
assert J[0][0, :, 1].abs().max() == 0 and J[1][0, :, 0].abs().max() == 0 and J[2].abs().max() == 0, J
''')
bug(id="c25-copy-shares", property="C25", needs="editing the precision of a copied Gaussian in place",
    breaks="a copied Gaussian shares its precision with the original",
    edits=[("theseus/optimizer/manifold_gaussian.py", "        precision_copy = self.precision.clone()\n", "        precision_copy = self.precision.contiguous()\n")],
    demo='''
import torch, theseus as th
from theseus.optimizer import ManifoldGaussian
g = ManifoldGaussian([th.Vector(3, name="m")])
c = g.copy()
c.precision.mul_(2.0)
assert torch.equal(g.precision, torch.eye(3)[None]), g.precision
''')
bug(id="c16-mixed-alpha", property="C16", needs="a batched sparse solve with ellipsoidal damping that is zero for one batch element and positive for another",
    breaks="the gradient's correction for multiplicative damping is skipped for the whole batch",
    edits=[("theseus/optimizer/autograd/common.py", "(damping_alpha_beta[0] > 0.0).any()", "(damping_alpha_beta[0] > 0.0).all()")],
    demo='''
import numpy as np, torch
from theseus.optimizer.autograd.common import compute_A_grad
torch.manual_seed(0)
B, m, n = 2, 3, 2
A = torch.randn(B, m, n, dtype=torch.float64, requires_grad=True)
b = torch.randn(B, m, dtype=torch.float64)
alpha, beta = torch.tensor([0.0, 0.7], dtype=torch.float64), torch.tensor([0.1, 0.2], dtype=torch.float64)
def solve(A):
    H = A.transpose(1, 2) @ A
    H = H + torch.diag_embed(alpha[:, None] * H.diagonal(dim1=1, dim2=2) + beta[:, None])
    return torch.linalg.solve(H, (A.transpose(1, 2) @ b[..., None])).squeeze(2), H
x, M = solve(A)
G = torch.randn(B, n, dtype=torch.float64)
(want,) = torch.autograd.grad((x * G).sum(), A)
with torch.no_grad():
    H = torch.linalg.solve(M, G[..., None]).squeeze(2)
    AH = (A @ H[..., None]).squeeze(2)
    bAx = b - (A @ x[..., None]).squeeze(2)
    cols, rows = np.tile(np.arange(n), m), np.arange(m + 1) * n
    got = compute_A_grad(B, rows, cols, b, x, bAx, H, AH, (alpha, beta), A.reshape(B, -1), torch.as_tensor(cols), False)
assert torch.allclose(got.reshape(B, m, n), want), got.reshape(B, m, n) - want
''')
bug(id="c24-boundary-value", property="C24", needs="a signed distance field with a boundary value, copied or batched fields, and a query outside the grid",
    breaks="Jacobian of points outside the grid is only cleared when the boundary value is zero",
    edits=[("theseus/embodied/collision/signed_distance_field.py", """        jac1[out_of_bounds_idx] = 0
        jac2[out_of_bounds_idx] = 0
""", """        jac1[out_of_bounds_idx] = self.sdf_boundary_value
        jac2[out_of_bounds_idx] = self.sdf_boundary_value
""")],
    demo='''
import torch, theseus as th
s = th.eb.SignedDistanceField2D(th.Point2(tensor=torch.zeros(1, 2)), th.Variable(torch.ones(1, 1)), sdf_data=th.Variable(torch.arange(12.).view(1, 3, 4)), sdf_boundary_value=7.0)
d, J = s.signed_distance(torch.tensor([[[-1.0, 1.5], [1.0, 0.5]]]))
assert d[0, 0] == 7.0
assert J[0, 0].abs().max() == 0, J
''')
