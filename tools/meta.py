"""Single source of properties.jsonl and MANIFEST.json (run: python tools/meta.py)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, level="proof", note=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, level=level, note=note))


I, H, C, F = "inputs", "histories", "configurations", "fault_sequences"
G = "theseus/geometry/"
TL = "torchlie/torchlie/functional/"

prop("C01", "Pose and rotation types obey group algebra",
     "For every pair of poses, rotations or vectors of the same type, composing them equals the product of their matrices, inverting gives the matrix inverse, and the relative pose from a to b composed after a gives b; composition is associative, the default element is the identity, and results are again valid elements. Moving a point by a pose (and back) equals applying the pose's matrix (and its inverse), the adjoint maps tangent vectors the way conjugation by the pose does, quaternion and angle constructors build the rotation they name, and reading the quaternion of a rotation gives one that names it. Random elements are valid elements of the requested size and type. No operation changes its operands, and a batch of one is applied to a whole batch where the type accepts it.",
     [I], "every element of SO(2), SE(2), SO(3), SE(3), R^2, R^3 and every batch size", "tests draw a few random elements per type; an algebra error confined to a sign, a branch or a batch shape is not sampled",
     [G + "lie_group.py", G + "so2.py", G + "se2.py", G + "so3.py", G + "se3.py", G + "point_types.py", G + "vector.py", TL + "so3_impl.py", TL + "se3_impl.py"],
     [("compose / inverse / between", "theseus/geometry/lie_group.py"), ("group kernels", "torchlie/torchlie/functional/so3_impl.py"), ("rigid transforms", "theseus/geometry/se3.py")])
prop("C02", "Exponential and logarithm maps are the true Lie maps",
     "The exponential map of every tangent vector equals the matrix exponential of its hat matrix (to the accuracy of the documented small-angle series), and for rotation-bearing types its rotation part is orthogonal. The logarithm map of every element returns the tangent vector of rotation angle at most pi whose exponential is that element, including the identity, tiny rotations, rotations near a half turn and exact half turns about any axis.",
     [I], "every tangent vector with rotation angle below 2*pi; every group element; float32 and float64; any batch size", "tests use random tangent vectors and a few hand-picked angles; branch thresholds and ties of measure zero are not reached",
     [G + "so2.py", G + "se2.py", TL + "so3_impl.py", TL + "se3_impl.py", G + "so3.py", G + "se3.py"],
     [("SO3/SE3 exp and log with small-angle and near-pi branches", "torchlie/torchlie/functional/so3_impl.py"), ("SE2 exp and log", "theseus/geometry/se2.py")])
prop("C03", "Reported group Jacobians are derivatives",
     "Whenever an operation on poses, rotations or vectors reports Jacobians (compose, inverse, relative pose, exponential, logarithm, local difference, moving a point by a pose, reading out angle or position), each reported matrix is the derivative of the returned value with respect to a right perturbation of that argument, for every input including small rotations. Asking for Jacobians does not change the returned value.",
     [I], "every element, tangent vector and point; float32/float64 branch regions; any batch size", "tests compare with numeric differentiation at random points only, away from branch thresholds",
     [G + "lie_group.py", G + "se2.py", G + "so2.py", TL + "so3_impl.py", TL + "se3_impl.py", TL + "lie_group.py"],
     [("analytic Jacobians", "torchlie/torchlie/functional/se3_impl.py"), ("compose/inverse/local chain rule", "theseus/geometry/lie_group.py")])

TC, TE, TO = "theseus/core/", "theseus/embodied/", "theseus/optimizer/"

prop("C04", "Retraction and local coordinates invert each other",
     "For every manifold type, retracting a point x by a step d equals x composed with exp(d), and the local difference of the result from x gives d back (for steps inside the injectivity radius), with the reported local Jacobians being derivatives of that difference. Applying a step to a whole optimisation problem uses for each variable exactly the columns at its offset in the variable ordering, and a mask of batch elements to ignore leaves those elements bit for bit unchanged while the others are updated. The step and the other variables are not modified.",
     [I, C], "every element, every step, every set of variables and ordering, every ignore mask, any batch size", "tests use a few fixed orderings and random steps; an offset or mask error that needs an unusual ordering is not sampled",
     [G + "manifold.py", G + "lie_group.py", G + "vector.py", TC + "objective.py", TC + "variable.py"],
     [("retract / local", G + "lie_group.py"), ("step layout and ignore mask", TC + "objective.py")])
prop("C05", "Differentiating through Lie group operations gives the true gradient",
     "Back-propagating any upstream gradient through any Lie group operation (exp, log, compose, inverse, adjoint, hat, vee, lift, project, transform, untransform, left action, quaternion constructors, also at the identity, at the zero step and in the small-angle branches) gives exactly the vector-Jacobian product of the function computed in the forward pass. This holds for float32 and float64, for the functional interface and for the group classes. The Jacobian-returning variants return the same value as the plain ones.",
     [I], "every input and every upstream gradient; both dtypes; any batch size", "gradcheck tests draw a handful of random inputs, mostly away from the branch thresholds and from non-trivial upstream gradients",
     [TL + "so3_impl.py", TL + "se3_impl.py", TL + "lie_group.py", G + "lie_group.py", G + "se2.py", G + "so2.py"],
     [("hand-written backward passes", TL + "so3_impl.py"), ("hand-written backward passes", TL + "se3_impl.py")])
prop("C06", "Euclidean gradients are projected to the tangent space correctly",
     "Projecting a Euclidean gradient (or Jacobian) of a function at a group element gives its derivative along retractions at that element, for every Lie group type. Inside the Lie-tangent context, a first-order step with add_, addcmul_ or addcdiv_ moves a group tensor along the retraction by the projected scaled step and stays on the group; outside that context the same calls are plain tensor arithmetic.",
     [I, C], "every element, gradient, step scale and batch size", "tests compare a few random gradients and run one optimiser",
     [G + "lie_group.py", G + "se3.py", G + "so3.py", G + "se2.py", G + "so2.py", G + "utils.py"],
     [("project", G + "lie_group.py"), ("LieGroupTensor", G + "utils.py")])
prop("C07", "Built-in cost functions report true Jacobians",
     "For every built-in cost function (difference to a target, relative pose, moving frames, constant-velocity and Gaussian-process motion models, hinge, non-holonomic, quasi-static pushing, reprojection), the error has the documented value and the reported Jacobians are one block per optimisation variable in registration order, each the derivative of the error along retractions of that variable. The error returned with the Jacobians is the error of the plain call, shapes are (batch, dim) and (batch, dim, dof), and no variable is modified.",
     [I], "every variable value, target, measurement and weight; every supported group; any batch size", "tests compare with numeric differentiation at a few random points for one or two group types",
     [TE + "measurements/between.py", TE + "measurements/moving_frame_between.py", TE + "measurements/reprojection.py", TE + "misc/local_cost_fn.py", TE + "motionmodel/double_integrator.py", TE + "motionmodel/quasi_static_pushing_planar.py", TE + "motionmodel/misc.py"],
     [("relative pose", TE + "measurements/between.py"), ("motion models", TE + "motionmodel/double_integrator.py"), ("quasi-static pushing", TE + "motionmodel/quasi_static_pushing_planar.py")])
prop("C08", "Cost weights scale errors and Jacobians by the same matrix",
     "For every cost weight, the weighted error is W times the error and every weighted Jacobian block is W times that block, with the same W per batch element, where W is the scalar, the diagonal, or for the Gaussian-process weight a matrix with W'W equal to the inverse of the process noise covariance of the given time step. This holds for batched and unbatched weights, for single and batched errors, and gives the same result whether obtained through the error-only call, the error-and-Jacobian call or the masked evaluation that skips zero-weight rows. Operands are never modified.",
     [I, C], "every weight value including zeros, every error and Jacobian, every combination of batched and unbatched operands", "tests use a few random weights; masks and mixed batch sizes are sampled once",
     [TC + "cost_weight.py", TC + "cost_function.py", TE + "motionmodel/double_integrator.py"],
     [("scale and diagonal weights", TC + "cost_weight.py"), ("GP weight", TE + "motionmodel/double_integrator.py"), ("masked evaluation", TC + "cost_function.py")])
prop("C09", "Robust costs evaluate and linearise the documented loss",
     "A robust cost reports an error whose squared norm is the robust loss rho(|We|^2) up to the documented epsilon, where Huber and Welsch losses and their radius follow their definitions, are increasing, never exceed the squared norm, and linearise returns the derivative of evaluate at every point including the radius. Its Jacobians and rescaled error use the factor sqrt(rho') of the same batch element, so the gradient J'r equals the derivative of half the robust loss; flattening dimensions applies the loss to each residual entry separately, also with per-element radii.",
     [I, C], "every residual, weight, radius, dimension and batch combination", "tests sample random residuals with one shared radius",
     [TC + "robust_loss.py", TC + "robust_cost_function.py"],
     [("loss functions", TC + "robust_loss.py"), ("rescaling", TC + "robust_cost_function.py")])
prop("C10", "An objective's registries always match its cost functions",
     "After any history of adding and erasing cost functions, an objective contains exactly the cost functions added and not erased, in insertion order, and exactly the optimisation variables, auxiliary variables, cost weights and their variables that those cost functions use, each once. The lists of cost functions attached to each variable and weight are exactly those using it, and a name can be registered to only one object. Rejected operations raise and leave every registry as it was.",
     [H], "every finite history of add and erase operations over every sharing pattern of variables, weights and names", "tests replay two or three fixed histories",
     [TC + "objective.py"], [("add / erase bookkeeping", TC + "objective.py")])
prop("C11", "Evaluating and updating an objective is exact and non-destructive",
     "The objective's error is the concatenation in insertion order of the weighted errors of its cost functions (or the unweighted ones), its metric is half the squared norm per batch element, and updating sets each named variable to the given tensor, ignores none silently, and leaves all others unchanged. The batch size is the largest over its variables, sizes other than 1 and that size are rejected, and evaluating with temporary inputs and also_update=False restores every variable it changed. A failed update or evaluation reports an error instead of a wrong value.",
     [I, H, C], "every objective, every set of inputs, every sequence of update and error calls", "tests try one or two objectives and one order of calls",
     [TC + "objective.py", TC + "variable.py"], [("update / error", TC + "objective.py"), ("shape checks", TC + "variable.py")])
prop("C12", "Copies are independent and equivalent",
     "Copying an objective, cost function, weight, variable or group element gives an object of the same type, values, names scheme and sharing structure: variables and weights shared in the original are shared in the copy and nothing is shared between original and copy. The copy evaluates to the same errors and Jacobians. Later updates or edits of either do not affect the other.",
     [H, C], "every sharing pattern of variables and weights and every later history", "tests copy a few fixed objectives",
     [TC + "objective.py", TC + "cost_function.py", TC + "variable.py", TC + "theseus_function.py"], [("copy", TC + "objective.py"), ("copy", TC + "cost_function.py")])
prop("C13", "Vectorized evaluation equals unvectorized evaluation",
     "With vectorization on, every error, weighted error and Jacobian of every cost function equals that of evaluating the cost functions one by one, for every grouping of cost functions, sharing of variables, and mix of batched and unbatched tensors. Results are never stale: after any sequence of variable updates, retractions, added or erased cost functions the next evaluation uses the current values. Retracting in vectorized form equals retracting variable by variable.",
     [H, C], "every objective, sharing pattern, batch mix and history of updates", "tests use a few fixed objectives and update once",
     [TC + "vectorizer.py", TC + "objective.py"], [("grouping and caches", TC + "vectorizer.py")])
prop("C14", "Linearization assembles the stacked Jacobian and residual exactly",
     "For every objective and variable ordering, the dense linearization's A and b, and the sparse one's CSR arrays, are the same matrix: row blocks in cost function order, column blocks at the ordered offsets of each variable, entries the weighted Jacobians, and b minus the weighted error. AtA and Atb are A'A and A'b, the products with A, with its diagonal scaling and with vectors agree between the two representations, and the ordering's offsets partition the columns. Re-linearizing after updates gives the result for the current values.",
     [I, C], "every number and sharing pattern of variables, dofs and cost dimensions, every ordering and batch size", "tests build a few random objectives",
     [TO + "dense_linearization.py", TO + "sparse_linearization.py", TO + "linearization.py", TO + "variable_ordering.py", TO + "linear_system.py"],
     [("dense assembly", TO + "dense_linearization.py"), ("sparse structure", TO + "sparse_linearization.py"), ("offsets", TO + "linearization.py")])
prop("C15", "Linear solvers solve the damped normal equations",
     "Each linear solver (dense Cholesky, dense LU, sparse Cholesky, sparse LU) returns the step that solves (A'A + D) d = A'b for the linearization it was given, where D is zero without damping, lambda I with plain damping (plus the damping epsilon) and lambda diag(A'A) (plus epsilon) with ellipsoidal damping, per batch element with its own damping. Solving does not change the linearization, so later solves with other damping are right too, and singular systems follow the documented checks.",
     [I, C, H], "every full-rank system, damping value and kind, batch size, and sequence of solves", "tests compare a few random systems with one damping",
     [TO + "linear/dense_solver.py", TO + "linear/cholmod_sparse_solver.py", TO + "linear/lu_cuda_sparse_solver.py", TO + "linear/utils.py"],
     [("damping and solve", TO + "linear/dense_solver.py"), ("sparse solve", TO + "linear/cholmod_sparse_solver.py")])
prop("C16", "Gradients through a sparse solve are the true gradients",
     "Back-propagating through a sparse linear solve gives, for every upstream gradient, the exact gradient of the solution with respect to every structurally non-zero entry of A and to b, with and without damping, for every sparsity pattern and batch size. The gradient agrees with the one the dense solver gives for the same system.",
     [I, C], "every sparsity pattern, matrix, right-hand side, damping and upstream gradient", "gradcheck on a few random patterns",
     [TO + "autograd/cholmod_sparse_autograd.py", TO + "autograd/common.py", TO + "autograd/lu_cuda_sparse_autograd.py"],
     [("compute_A_grad", TO + "autograd/common.py")])
prop("C17", "The nonlinear optimisation loop reports what it did",
     "For every problem and iteration budget the nonlinear least-squares optimisers' loop stops exactly when every batch element has converged or the budget is used, never changes a batch element after it has converged within that loop (the differentiated last steps of truncated and implicit runs are a loop of their own), and records errors, iteration counts, statuses and states consistent with the trajectory it followed. A step that was rejected does not count as convergence (except that three attempts in a row in which every element is rejected end the run). The best solution it reports is, per batch element, the variables at an iterate with the smallest recorded error, with the iteration it came from, and the info's last error is the objective at the variables the loop leaves. A linear solver that fails outside gradient computation ends the run with the last good variables in place and every element reported as failed.",
     [H, C], "every sequence of errors and steps, every convergence pattern across the batch, every budget and option combination", "tests run a few problems to convergence",
     [TO + "nonlinear/nonlinear_optimizer.py", TO + "nonlinear/nonlinear_least_squares.py"],
     [("loop and info bookkeeping", TO + "nonlinear/nonlinear_optimizer.py")])
prop("C18", "Levenberg-Marquardt damping and acceptance follow the gain",
     "Adaptive Levenberg-Marquardt accepts exactly the steps that do not fail its gain test per batch element, rejected elements keep their variables, and the damping is multiplied or divided by the configured factors per element and stays within its configured bounds. The gain denominator is the reduction that the damped quadratic model predicts for the full damped step. Without adaptation the damping is constant, and each optimisation run starts from the configured damping.",
     [I, H, C], "every sequence of steps and errors, batch size, damping configuration", "tests check one short run",
     [TO + "nonlinear/levenberg_marquardt.py", TO + "nonlinear/nonlinear_least_squares.py"],
     [("damping update", TO + "nonlinear/levenberg_marquardt.py")])
prop("C19", "Dogleg steps stay in the trust region and follow its definition",
     "The dogleg step is, per batch element, the Gauss-Newton step when it lies within the trust region, the scaled steepest-descent step when the Cauchy point lies outside, and otherwise the point of the segment between them whose norm is the trust-region radius, up to the relative regularisation (1e-14) that the code documents; so it never exceeds the radius by more than rounding, whatever the scale of the problem. The radius grows when the gain ratio is above the expansion threshold, shrinks when it is below the shrinking threshold and stays otherwise, per element and within its bounds, and rejected steps leave variables unchanged.",
     [I, H, C], "every gradient, Gauss-Newton step, radius and gain per batch element", "tests run two small problems",
     [TO + "nonlinear/dogleg.py", TO + "nonlinear/trust_region.py"],
     [("dogleg step", TO + "nonlinear/dogleg.py"), ("radius update", TO + "nonlinear/trust_region.py")])
prop("C20", "Backward modes of the layer give the promised derivatives",
     "A layer run returns the values of the optimised variables, the same in the unrolled, truncated and DLM modes as long as no element converges before the differentiated part; implicit mode ends with one full Gauss-Newton step. Gradients by the inputs are: in unrolled mode those of the computation actually performed; in truncated mode those of the last iterations only, started from a constant; in implicit mode those of the implicit function defined by the normal equations at the solution, with the Gauss-Newton Hessian; in DLM mode (dF/dt at the solution - dF/dt at the point one Gauss-Newton step of the documented surrogate away) / epsilon for each input, also when inputs share tensors or depend on each other. Inputs given to the layer are the values used, and variables not given keep theirs, also after earlier runs and moves between dtypes.",
     [I, C], "every objective, inputs and backward mode", "tests compare modes on one curve fit",
     ["theseus/theseus_layer.py", TO + "nonlinear/nonlinear_optimizer.py"], [("backward modes", "theseus/theseus_layer.py")])
prop("C21", "Forward kinematics and its Jacobians match the robot description",
     "For every robot tree, each link pose equals the product of the joint transforms along its path from the root as specified by the description, for revolute, prismatic and fixed joints in any order and nesting. The spatial and body Jacobians returned are the derivatives of those poses by the joint values and reverse-mode gradients are their vector-Jacobian products, for every subset and order of requested links.",
     [I, C], "every robot tree, joint vector, link subset and batch size", "tests use one or two robots",
     ["torchkin/torchkin/robot.py", "torchkin/torchkin/forward_kinematics.py"], [("kinematics", "torchkin/torchkin/forward_kinematics.py"), ("parsing", "torchkin/torchkin/robot.py")])
prop("C22", "Global contexts and settings are scoped",
     "Context managers (Lie-tangent mode, Lie-group checks, silencing of internal warnings, Euclidean views and temporary variable masking) put the previous setting back when they exit, when nested and when their body raises. While a body runs the setting is the requested one; afterwards the library behaves as if the context had not been used.",
     [F, H], "every nesting of contexts and every point at which the body raises", "tests enter and leave each context once without exceptions",
     ["torchlie/torchlie/functional/check_contexts.py", "theseus/geometry/lie_group_check.py", "theseus/geometry/utils.py", TC + "cost_function.py"], [("checks context", "theseus/geometry/lie_group_check.py")])
prop("C23", "Automatic-differentiation costs agree across modes and with the user function",
     "An automatic-differentiation cost function's error is the user's function on the current variables and its Jacobians are its derivatives along retractions, one block per optimisation variable in order, the same in dense, looped and vmap modes for every batch size and every mix of batched and unbatched auxiliary variables. Evaluation leaves every variable unchanged and a copy keeps the mode.",
     [I, C], "every user function composed of supported operations, variable type, batch mix and mode", "tests use one error function",
     [TC + "cost_function.py"], [("autodiff modes", TC + "cost_function.py")])
prop("C24", "Signed distance lookups and collision costs are exact",
     "A signed distance field returns the bilinear interpolation of the grid at the query point, its Jacobian is the derivative of that interpolation, points outside the grid get the configured boundary value (zero by default) and a zero Jacobian, and per-batch fields and origins are used for their own element. Collision and contact costs are the documented hinge or distance of the transformed points, with Jacobians the derivatives by the pose.",
     [I], "every grid, cell size, origin, point and pose; any batch size", "tests use one field and a few points",
     [TE + "collision/signed_distance_field.py", TE + "collision/collision.py", TE + "collision/eff_obj_contact.py"], [("interpolation", TE + "collision/signed_distance_field.py")])
prop("C25", "Gaussians on manifolds transform consistently",
     "A Gaussian over manifold variables keeps its mean variables, degrees of freedom and precision matrix consistent through construction, update, copy and move: retracting it moves each mean by its own slice of the step and rotates the precision blocks by the corresponding Jacobians, and local differences invert retraction. Invalid means or precisions are rejected without changing the object.",
     [I, H, C], "every list of mean variables, precision and step", "tests cover a couple of variable lists",
     ["theseus/optimizer/manifold_gaussian.py"], [("manifold gaussian", "theseus/optimizer/manifold_gaussian.py")])

prop("C26", "The sampling optimiser follows its definition",
     "Each iteration of the sampling optimiser (DCEM) draws, per batch element, normal samples around the current variables with the current spread, weights them by the errors of the same element (the n_elite smallest errors without a temperature; softmax or relaxed top-n weights of the negative, optionally normalised errors with one), and moves to the weighted mean and spread. Runs start from the configured spread, batch elements do not influence each other, recorded errors, best solutions and statuses match the trajectory, and gradients are those of the computation performed.",
     [I], "every objective, sample table, temperature and elite size; any batch size", "one test runs it on one problem and only checks that it converges",
     ["theseus/optimizer/nonlinear/dcem.py", "theseus/third_party/lml.py"], [("sampling step", "theseus/optimizer/nonlinear/dcem.py")])

BUILDING = "not claimed yet: contracts for this property are not finished"


def main():
    have = {f[:-3].upper() for f in os.listdir(os.path.join(ROOT, "contracts")) if f[0] == "c" and f[1:3].isdigit()}
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]},
            }) + "\n")
    checks, na = [], []
    for p in P:
        if p["id"] in have:
            checks.append({
                "property": p["id"],
                "quick_cmd": f"/opt/venv/bin/python check.py {p['id']} --tier quick",
                "thorough_cmd": f"/opt/venv/bin/python check.py {p['id']} --tier thorough",
                "technique": "contract-based deductive verification: the real functions are executed on symbolic tensors and every contract clause is discharged by normal forms, Taylor models and z3",
                "level": p["level"],
                "level_note": p["note"] or "Contracts on the unmodified functions in /repo, proved for all inputs in the stated domain and any batch size over real arithmetic; clauses the prover cannot discharge are listed in the evidence and only checked bounded. Trusts the interpretation of torch operators and the listed assumptions.",
            })
        else:
            na.append({"property": p["id"], "reason": NA.get(p["id"], BUILDING)})
    m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "claimed;", len(na), "not claimed")


NA = {}

if __name__ == "__main__":
    main()
