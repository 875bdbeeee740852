bug(id="c03-se3-jlog-series", property="C03", needs="float32, rotation angle just below the 0.2 rad small-angle threshold, large translation along the rotation axis",
    breaks="log Jacobian of SE3 uses a wrong sign in the small-angle series",
    edits=[("torchlie/torchlie/functional/se3_impl.py", "        -1 / 6.0 - theta2 / 180.0,", "        -1 / 6.0 + theta2 / 180.0,")],
    demo='''
import torch, torchlie.functional as lie
x = torch.zeros(1, 6, dtype=torch.float64); x[0, :3] = torch.tensor([90.0, 70.0, 80.0]); x[0, 3:] = torch.tensor([.11, .10, .11])
g = lie.SE3.exp(x)
j64 = lie.SE3.jlog(g)[0][0]
j32 = lie.SE3.jlog(g.float())[0][0].double()
err = (j64 - j32).abs().max().item()
print(err)
assert err < 5e-3 , err
''')
bug(id="c04-masked-inplace", property="C04", needs="an ignore mask with some elements set and a variable whose tensor is shared with the caller or another variable",
    breaks="masked updates write into the previous tensor in place, so tensors the caller still holds change",
    edits=[("theseus/core/variable.py", """            self.tensor = torch.where(
                batch_ignore_mask.view(mask_shape), self.tensor, tensor
            )
""", """            keep = batch_ignore_mask.view(mask_shape)
            if self.tensor.requires_grad or tensor.requires_grad:
                self.tensor = torch.where(keep, self.tensor, tensor)
            else:
                self.tensor.copy_(torch.where(keep, self.tensor, tensor))
""")],
    demo='''
import torch, theseus as th
t = torch.arange(8.).view(4, 2)
keep = t.clone()
v = th.Vector(tensor=t, name="v")
w = th.Vector(tensor=t, name="w")
o = th.Objective()
o.add(th.Difference(v, th.Vector(2, name="t0"), th.ScaleCostWeight(1.0), name="c0"))
o.add(th.Difference(w, th.Vector(2, name="t1"), th.ScaleCostWeight(1.0), name="c1"))
o.update()
th.Objective._retract_base(torch.ones(4, 2), [v], ignore_mask=torch.tensor([True, False, True, False]))
assert torch.equal(w.tensor, keep), w.tensor
assert torch.equal(t, keep)
assert torch.equal(v.tensor, keep + torch.tensor([0., 1., 0., 1.]).view(4, 1))
''')
bug(id="c05-se3-adjoint-bwd", property="C05", needs="back-propagating through the SE3 adjoint with an upstream gradient on its translation block at a pose with translation",
    breaks="rotation gradient of the adjoint's cross block misses the transpose of the hat matrix",
    edits=[("torchlie/torchlie/functional/se3_impl.py", "            - SO3._hat_impl(group[..., 3]) @ grad_output[..., :3, 3:]\n        )\n        grad_input_t", "            + SO3._hat_impl(group[..., 3]) @ grad_output[..., :3, 3:]\n        )\n        grad_input_t")],
    demo='''
import torch, torchlie.functional as lie
g = lie.SE3.exp(torch.tensor([[1., 2., 3., .3, .2, .1]], dtype=torch.float64)).requires_grad_()
A = lie.SE3.adjoint(g)
W = torch.arange(36, dtype=torch.float64).view(1, 6, 6)
(gr,) = torch.autograd.grad((A * W).sum(), g)
R, t = g[..., :3], g[..., 3]
h = torch.zeros(1, 3, 3, dtype=torch.float64)
z = torch.zeros(1, dtype=torch.float64)
h = torch.stack([z, -t[:, 2], t[:, 1], t[:, 2], z, -t[:, 0], -t[:, 1], t[:, 0], z], -1).view(1, 3, 3)
A2 = torch.cat([torch.cat([R, h @ R], -1), torch.cat([torch.zeros_like(R), R], -1)], -2)
(gr2,) = torch.autograd.grad((A2 * W).sum(), g)
assert torch.allclose(gr, gr2), (gr - gr2)
''')
bug(id="c06-se3-project-square", property="C06", needs="projecting a dense Jacobian whose leading dimensions differ from the batch (e.g. several upstream rows) for SE3 where only the first row's rotation block is used",
    breaks="dense projection of SE3 gradients uses the group tensor of batch element 0",
    edits=[("theseus/geometry/se3.py", """                "...jk,...ji->...ik", euclidean_grad, self.tensor[:, :, :3]""", """                "...jk,...ji->...ik", euclidean_grad, self.tensor[:1, :, :3]""")],
    demo='''
import torch, theseus as th
torch.manual_seed(0)
g = th.SE3.rand(3, dtype=torch.float64)
e = torch.randn(3, 3, 4, dtype=torch.float64)
a = g.project(e)
for i in range(3):
    gi = th.SE3(tensor=g.tensor[i:i+1], disable_checks=True)
    assert torch.allclose(a[i:i+1], gi.project(e[i:i+1])), i
''')
bug(id="c07-qs-csquare", property="C07", needs="quasi-static pushing cost with the object rotated between the two poses",
    breaks="sign of one entry of the motion-cone matrix derivative",
    edits=[("theseus/embodied/motionmodel/quasi_static_pushing_planar.py", "J_D_var_[..., 0, 2] = J_D_var_[..., 2, 0] = -J_cp2o_var_[:, 1]\n            J_D_var_[..., 1, 2]", "J_D_var_[..., 2, 0] = J_D_var_[..., 0, 2] = J_cp2o_var_[:, 1]\n            J_D_var_[..., 1, 2]")],
    demo='''
import torch, theseus as th
torch.manual_seed(0)
vs = [th.SE2.rand(1, dtype=torch.float64) for _ in range(4)]
for n, v in zip("abcd", vs): v.name = n
cf = th.eb.QuasiStaticPushingPlanar(*vs, torch.tensor([[0.3]], dtype=torch.float64), th.ScaleCostWeight(1.0))
J, e = cf.jacobians()
for i, v in enumerate(vs):
    x = v.copy()
    for j in range(3):
        d = torch.zeros(1, 3, dtype=torch.float64); d[0, j] = 1e-6
        v.update(x.retract(d).tensor); p = cf.error()
        v.update(x.retract(-d).tensor); m = cf.error()
        v.update(x.tensor)
        assert torch.allclose((p - m) / 2e-6, J[i][:, :, j], atol=1e-5), (i, j)
''')
bug(id="c02-so3-log-halfturn-sign", property="C02", needs="log of a rotation by exactly pi (sine exactly zero)",
    breaks="the log of an exact half turn is zero because the sign of the zero sine is used",
    edits=[("torchlie/torchlie/functional/so3_impl.py", "    sign = torch.where(sign_tmp != 0, sign_tmp, torch.ones_like(sign_tmp))\n", "    sign = torch.where(sine > 0, sign_tmp, sine_axis[..., 0].sign())\n")],
    demo='''
import torch, torchlie.functional as lie
R = torch.diag(torch.tensor([-1., 1., -1.], dtype=torch.float64)).unsqueeze(0)
w = lie.SO3.log(R)
assert abs(w.norm().item() - torch.pi) < 1e-6, w
''')
