From 3cbae01666cb434bb9e939687343e5e737a0983d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:51 +0000
Subject: [PATCH 01/64] fix: QUAD8/HEX20 shape functions are not nodal

Basix serendipity elements use edge-integral dofs; tabulating them directly
interpolated mid-side node values with the wrong functions.
---
 feax/basis.py | 40 +++++++++++++++++++++++++++++++++++++---
 1 file changed, 37 insertions(+), 3 deletions(-)

diff --git a/feax/basis.py b/feax/basis.py
index de13f9b..3f7872c 100644
--- a/feax/basis.py
+++ b/feax/basis.py
@@ -152,6 +152,40 @@ def reorder_inds(inds: Array, re_order: List[int]) -> Array:
     return new_inds
 
 
+def tabulate_nodal(element, nderivs: int, points: Array) -> Array:
+    """Tabulate the nodal basis of an element (basix node order).
+
+    Basix's serendipity elements use edge-integral degrees of freedom, so the
+    functions returned by ``element.tabulate`` are not the ones attached to the
+    mid-side nodes of a QUAD8/HEX20 cell. They are converted here to the basis
+    that is one at its own node (vertices first, then edge midpoints) and zero
+    at all others. Lagrange elements are already nodal and returned unchanged.
+
+    Parameters
+    ----------
+    element : basix.finite_element.FiniteElement
+        Basix element.
+    nderivs : int
+        Number of derivatives to tabulate.
+    points : np.ndarray
+        Reference points, shape (num_points, dim).
+
+    Returns
+    -------
+    np.ndarray
+        Shape (num_derivs, num_points, num_nodes, 1).
+    """
+    tab = element.tabulate(nderivs, points)
+    if element.family != basix.ElementFamily.serendipity:
+        return tab
+    vertices = basix.geometry(element.cell_type)
+    edges = basix.cell.sub_entity_connectivity(element.cell_type)[1]
+    midpoints = [vertices[edge[0]].mean(axis=0) for edge in edges]
+    nodes = onp.vstack([vertices, onp.array(midpoints)])
+    dofs_at_nodes = element.tabulate(0, nodes)[0, :, :, 0]
+    return onp.einsum('dpjv,ja->dpav', tab, onp.linalg.inv(dofs_at_nodes))
+
+
 def get_shape_vals_and_grads(ele_type: str, gauss_order: Optional[int] = None) -> Tuple[Array, Array, Array]:
     """Compute shape function values and gradients using basix.
     
@@ -191,7 +225,7 @@ def get_shape_vals_and_grads(ele_type: str, gauss_order: Optional[int] = None) -
     quad_points, weights = basix.make_quadrature(basix_ele, gauss_order)
     element = basix.create_element(element_family, basix_ele, degree)
     # Tabulate shape function values and gradients, shape: (derivative, point, basis fn index, value index)
-    vals_and_grads = element.tabulate(1, quad_points)[:, :, re_order, :]
+    vals_and_grads = tabulate_nodal(element, 1, quad_points)[:, :, re_order, :]
     shape_values = vals_and_grads[0, :, :, 0]
     shape_grads_ref = onp.transpose(vals_and_grads[1:, :, :, 0], axes=(1, 2, 0))
     return shape_values, shape_grads_ref, weights
@@ -220,7 +254,7 @@ def get_shape_hessians_ref(ele_type: str, gauss_order: Optional[int] = None) ->
 
     quad_points, _ = basix.make_quadrature(basix_ele, gauss_order)
     element = basix.create_element(element_family, basix_ele, degree)
-    tab = element.tabulate(2, quad_points)[:, :, re_order, 0]
+    tab = tabulate_nodal(element, 2, quad_points)[:, :, re_order, 0]
     # tab shape: (num_derivs, num_quads, num_nodes)
 
     dim = quad_points.shape[1]
@@ -318,7 +352,7 @@ def get_face_shape_vals_and_grads(ele_type: str, gauss_order: Optional[int] = No
     face_inds = reorder_inds(face_inds, re_order)
     num_faces, num_face_quads, dim = face_quad_points.shape
     element = basix.create_element(element_family, basix_ele, degree)
-    vals_and_grads = element.tabulate(1, face_quad_points.reshape(-1, dim))[:, :, re_order, :]
+    vals_and_grads = tabulate_nodal(element, 1, face_quad_points.reshape(-1, dim))[:, :, re_order, :]
     face_shape_vals = vals_and_grads[0, :, :, 0].reshape(num_faces, num_face_quads, -1)
     face_shape_grads_ref = vals_and_grads[1:, :, :, 0].reshape(dim, num_faces, num_face_quads, -1)
     face_shape_grads_ref = onp.transpose(face_shape_grads_ref, axes=(1, 2, 3, 0))
-- 
2.43.0


From 625a405c174f80f081d14c6fa1828d07f1235849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:50 +0000
Subject: [PATCH 02/64] fix: internal variables misread on meshes with as many
 cells as nodes

Gathering, energy and average-stress integration decided the storage layout
in a different order than the kernels, so a nodal field on such a mesh was
taken as per-cell (crash, or an energy that is not the residual's).
All now use classify_volume_var; nodal vector fields are interpolated too.
---
 feax/assembler.py   | 26 +++++++++++++-------------
 feax/flat/solver.py | 20 ++++++++++----------
 2 files changed, 23 insertions(+), 23 deletions(-)

diff --git a/feax/assembler.py b/feax/assembler.py
index 4391556..c589d33 100644
--- a/feax/assembler.py
+++ b/feax/assembler.py
@@ -85,6 +85,10 @@ def classify_volume_var(problem: 'Problem', var: np.ndarray):
     """
     if var.ndim == 0:
         return _VAR_CELL, 0
+    if var.ndim == 2 and var.shape == (problem.num_cells, problem.fes[0].num_quads):
+        # Exact per-quad match: takes precedence over a nodal vector field when
+        # the mesh happens to have as many cells as nodes.
+        return _VAR_QUAD, 0
     if var.ndim in (1, 2):
         for i, fe in enumerate(problem.fes):
             if var.shape[0] == fe.num_total_nodes:
@@ -340,14 +344,12 @@ class Operator:
             # share identical gather logic: cell-based arrays pass through,
             # node-based arrays are gathered to per-cell via element connectivity.
             if var.ndim in (1, 2):
-                if var.shape[0] == problem.num_cells:
+                # Same static classification as the kernels, so that a mesh
+                # with as many cells as nodes is read consistently.
+                kind, fe_idx = classify_volume_var(problem, var)
+                if kind in (_VAR_CELL, _VAR_QUAD):
                     result.append(var)
                 else:
-                    fe_idx = 0
-                    for i, fe in enumerate(problem.fes):
-                        if var.shape[0] == fe.num_total_nodes:
-                            fe_idx = i
-                            break
                     cells = (ts.cells_list[fe_idx] if ts is not None
                              else problem.fes[fe_idx].cells)
                     result.append(var[cells])
@@ -1909,7 +1911,6 @@ def create_energy_fn(problem) -> Callable:
     jxw = fe0.JxW              # (num_cells, num_quads)
     sval = fe0.shape_vals        # (num_quads, num_nodes_per_cell)
     vec = fe0.vec
-    num_cells = fe0.num_cells
     num_quads = fe0.num_quads
 
     def _interpolate_volume_vars(traced_params):
@@ -1919,12 +1920,11 @@ def create_energy_fn(problem) -> Callable:
         """
         result = []
         for var in traced_params.volume_vars:
-            if var.ndim == 1:
-                if var.shape[0] == num_cells:
-                    result.append(np.tile(var[:, None], (1, num_quads)))
-                else:
-                    var_cell = var[cells]
-                    result.append(np.einsum('qn,cn->cq', sval, var_cell))
+            kind, _ = classify_volume_var(problem, var)
+            if kind == _VAR_NODE:
+                result.append(np.einsum('qn,cn...->cq...', sval, var[cells]))
+            elif kind == _VAR_CELL and var.ndim == 1:
+                result.append(np.tile(var[:, None], (1, num_quads)))
             else:
                 result.append(var)
         return result
diff --git a/feax/flat/solver.py b/feax/flat/solver.py
index 4446752..a7f6012 100644
--- a/feax/flat/solver.py
+++ b/feax/flat/solver.py
@@ -20,6 +20,7 @@ import numpy as onp
 import jax
 import jax.numpy as np
 
+from ..assembler import _VAR_CELL, _VAR_NODE, classify_volume_var
 from ..solver import create_solver
 from ..solvers.options import DirectSolverOptions, KrylovSolverOptions, has_cudss
 
@@ -117,7 +118,6 @@ def average_stress(problem, u_total: np.ndarray, traced_params, dim: int) -> np.
     u_grads = np.einsum('cqnd,cnv->cqvd', shape_grads, cell_sol)
 
     # Broadcast volume internal vars to (num_cells, num_quads)
-    num_cells = u_grads.shape[0]
     num_quads = JxW.shape[1]
 
     # shape_vals: (num_quads, num_nodes_per_cell) — for node-based interpolation
@@ -126,15 +126,15 @@ def average_stress(problem, u_total: np.ndarray, traced_params, dim: int) -> np.
 
     vol_vars_quad = []
     for var in traced_params.volume_vars:
-        if var.ndim == 1:
-            if var.shape[0] == num_cells:
-                # cell-based: same value at every quad point
-                vol_vars_quad.append(np.tile(var[:, None], (1, num_quads)))
-            else:
-                # node-based: interpolate to Gauss points via shape functions
-                var_cell_nodes = var[cell_node_ids]                          # (num_cells, nodes_per_cell)
-                var_at_quads   = np.einsum('qn,cn->cq', shape_vals, var_cell_nodes)  # (num_cells, num_quads)
-                vol_vars_quad.append(var_at_quads)
+        kind, _ = classify_volume_var(problem, var)
+        if kind == _VAR_NODE:
+            # node-based: interpolate to Gauss points via shape functions
+            var_cell_nodes = var[cell_node_ids]                          # (num_cells, nodes_per_cell, ...)
+            var_at_quads   = np.einsum('qn,cn...->cq...', shape_vals, var_cell_nodes)
+            vol_vars_quad.append(var_at_quads)
+        elif kind == _VAR_CELL and var.ndim == 1:
+            # cell-based: same value at every quad point
+            vol_vars_quad.append(np.tile(var[:, None], (1, num_quads)))
         else:
             vol_vars_quad.append(var)
 
-- 
2.43.0


From 375a92ddc8101c2118a7a21e245e574db8ccd409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:47 +0000
Subject: [PATCH 03/64] fix: linear and reduced solves ignored prescribed-value
 increments

With symmetric elimination the free rows lose their coupling to the
Dirichlet increments, so one linear solve is exact only from a guess that
already carries the prescribed values. A user-supplied guess, or a bc
override at call time, gave a field out of equilibrium, and the bc_vals
gradient lacked the same coupling.
---
 feax/solvers/common.py  | 12 ++++++++++++
 feax/solvers/linear.py  | 17 +++++++++++++++++
 feax/solvers/reduced.py | 21 +++++++++++++++++++--
 3 files changed, 48 insertions(+), 2 deletions(-)

diff --git a/feax/solvers/common.py b/feax/solvers/common.py
index 8f0cca5..a5e5e5e 100644
--- a/feax/solvers/common.py
+++ b/feax/solvers/common.py
@@ -20,6 +20,18 @@ def _safe_negate(x):
     return -x
 
 
+def _correct_adjoint_bc(adjoint_vec, v, bc, Kt):
+    """Adjoint at the BC rows after a symmetric-elimination adjoint solve.
+
+    Elimination drops ``K_fb``, so the solve leaves ``λ_bc = v_bc``; the adjoint
+    of the true constrained system is ``λ_bc = v_bc - K_fbᵀ λ_free``. ``Kt``
+    applies the transpose of the un-eliminated tangent.
+    """
+    lambda_free = adjoint_vec.at[bc.bc_rows].set(0.0)
+    return adjoint_vec.at[bc.bc_rows].set(
+        v[bc.bc_rows] - Kt(lambda_free)[bc.bc_rows])
+
+
 def create_x0(bc_rows=None, bc_vals=None, P_mat=None):
     """Create BC-aware initial guess function for linear increments."""
 
diff --git a/feax/solvers/linear.py b/feax/solvers/linear.py
index 33ae34b..3aac6ca 100644
--- a/feax/solvers/linear.py
+++ b/feax/solvers/linear.py
@@ -23,6 +23,7 @@ import jax.numpy as np
 from ..assembler import (
     create_J_bc_csr_function,
     create_J_bc_csr_parametric,
+    create_matfree_Kt_parametric,
     create_matfree_res_J_parametric,
     create_res_bc_parametric,
     detect_zero_surface_jacobian,
@@ -31,6 +32,7 @@ from ..csr import transpose_with_maps
 from ..DCboundary import DirichletBC
 from ..problem import MatrixView, Problem
 from .common import (
+    _correct_adjoint_bc,
     _safe_negate,
     check_convergence,
     create_linear_solve_fn,
@@ -322,6 +324,8 @@ def create_linear_solver(
             problem, traced_params, traced_structure)
     # Matrix-free operator (fused BC-applied residual + JVP matvec) for Krylov.
     matfree_res_J_param = create_matfree_res_J_parametric(problem, symmetric=symmetric_elimination)
+    # Un-eliminated Kᵀ for the bc_vals gradient.
+    matfree_Kt_param = create_matfree_Kt_parametric(problem)
     res_bc_parametric = create_res_bc_parametric(problem)
     linear_solve_fn = create_linear_solve_fn(
         solver_options,
@@ -384,8 +388,14 @@ def create_linear_solver(
             delta_sol = _solve_with(token, -res, device_id=_dev_id)
             return initial_guess + delta_sol, token
 
+    def _impose_bc(initial_guess, effective_bc):
+        # Symmetric elimination drops the coupling of the free rows to the BC
+        # increments, so the single solve is exact only if these are zero.
+        return initial_guess.at[effective_bc.bc_rows].set(effective_bc.bc_vals)
+
     @jax.custom_vjp
     def differentiable_solve(traced_params, initial_guess, effective_bc, ts):
+        initial_guess = _impose_bc(initial_guess, effective_bc)
         if _reuse_factor:
             sol, _ = _factor_and_solve(initial_guess, traced_params, effective_bc, ts)
             return sol
@@ -418,6 +428,7 @@ def create_linear_solver(
 
     def f_fwd(traced_params, initial_guess, effective_bc, ts):
         if _reuse_factor:
+            initial_guess = _impose_bc(initial_guess, effective_bc)
             sol, token = _factor_and_solve(initial_guess, traced_params, effective_bc, ts)
             return sol, (traced_params, sol, effective_bc, ts, token)
         sol = differentiable_solve(traced_params, initial_guess, effective_bc, ts)
@@ -428,6 +439,9 @@ def create_linear_solver(
             # Reuse the forward factorization: λ = J⁻ᵀ v = J⁻¹ v (symmetric).
             traced_params, sol, effective_bc, ts, token = res
             adjoint_vec = _solve_with(token, v, device_id=_dev_id)
+            if symmetric_elimination:
+                adjoint_vec = _correct_adjoint_bc(
+                    adjoint_vec, v, effective_bc, matfree_Kt_param(sol, traced_params, ts))
 
             def res_fn(tp, bc_arg):
                 return problem.unflatten_fn_sol_list(
@@ -465,6 +479,9 @@ def create_linear_solver(
             effective_bc,
             linear_solve_fn=adjoint_linear_solve_fn
         )
+        if symmetric_elimination:
+            adjoint_vec = _correct_adjoint_bc(
+                adjoint_vec, v, effective_bc, matfree_Kt_param(sol, traced_params, ts))
 
         # VJP of residual w.r.t. traced_params and bc
         def res_fn(tp, bc_arg):
diff --git a/feax/solvers/reduced.py b/feax/solvers/reduced.py
index 501fe7b..98b8e13 100644
--- a/feax/solvers/reduced.py
+++ b/feax/solvers/reduced.py
@@ -23,11 +23,13 @@ import jax
 import jax.numpy as np
 
 from ..assembler import (
+    create_matfree_Kt_parametric,
     create_matfree_res_J_parametric,
     create_res_bc_parametric,
 )
 from ..DCboundary import DirichletBC
 from .common import (
+    _correct_adjoint_bc,
     _safe_negate,
     create_iterative_solve_fn,
     create_linear_solve_fn,
@@ -42,6 +44,15 @@ from .options import (
 )
 
 
+def _impose_bc(initial_guess_full, bc):
+    """Put the prescribed values into the initial guess.
+
+    Symmetric elimination drops the coupling of the free rows to the BC
+    increments, so the single reduced solve is exact only if these are zero.
+    """
+    return initial_guess_full.at[bc.bc_rows].set(bc.bc_vals)
+
+
 def _validate_bc_pairing(P, bc):
     """Reject Dirichlet rows that land on part of a periodic equivalence class.
 
@@ -186,6 +197,7 @@ def create_reduced_solver(problem, bc, P, solver_options, adjoint_solver_options
     # symmetric Dirichlet elimination, so the same matvec serves the adjoint
     # (Jᵀ = J).
     matfree_res_J = create_matfree_res_J_parametric(problem, symmetric=True)
+    matfree_Kt = create_matfree_Kt_parametric(problem)
     res_bc_parametric = create_res_bc_parametric(problem)
 
     _default_bc = bc
@@ -203,6 +215,7 @@ def create_reduced_solver(problem, bc, P, solver_options, adjoint_solver_options
         adj_linear_solve_fn = create_iterative_solve_fn(resolved_adjoint_options)
 
     def reduced_solve_fn(traced_params, initial_guess_full, effective_bc, ts):
+        initial_guess_full = _impose_bc(initial_guess_full, effective_bc)
         # One matfree pass returns the BC-applied residual and the tangent
         # matvec (J_bc @ w via JVP); the reduced operator is Pᵀ J_bc P.
         res_full, J_matvec = matfree_res_J(
@@ -240,7 +253,8 @@ def create_reduced_solver(problem, bc, P, solver_options, adjoint_solver_options
         x0_reduced = np.zeros_like(rhs_reduced)
         adjoint_reduced = adj_linear_solve_fn(adjoint_matvec, rhs_reduced, x0_reduced)
 
-        adjoint_full = P @ adjoint_reduced
+        adjoint_full = _correct_adjoint_bc(
+            P @ adjoint_reduced, v, effective_bc, matfree_Kt(sol, traced_params, ts))
 
         # VJP of residual w.r.t. traced_params and bc
         u_total_list = problem.unflatten_fn_sol_list(sol)
@@ -290,6 +304,7 @@ def _create_assembled_reduced_solver(problem, bc, P, solver_options,
     )
 
     matfree_res_J = create_matfree_res_J_parametric(problem, symmetric=True)
+    matfree_Kt = create_matfree_Kt_parametric(problem)
     res_bc_parametric = create_res_bc_parametric(problem)
 
     n_red = int(P.shape[1])
@@ -310,6 +325,7 @@ def _create_assembled_reduced_solver(problem, bc, P, solver_options,
         return res_full, matvec
 
     def reduced_solve_fn(traced_params, initial_guess_full, effective_bc, ts):
+        initial_guess_full = _impose_bc(initial_guess_full, effective_bc)
         res_full, matvec = _operator(initial_guess_full, traced_params, effective_bc, ts)
         res_reduced = P.T @ res_full
         op = assemble(matvec) if fwd_assembled else matvec
@@ -333,7 +349,8 @@ def _create_assembled_reduced_solver(problem, bc, P, solver_options,
         rhs_reduced = P.T @ v
         op = assemble(matvec) if adj_assembled else matvec
         adjoint_reduced = adj_solve(op, rhs_reduced)
-        adjoint_full = P @ adjoint_reduced
+        adjoint_full = _correct_adjoint_bc(
+            P @ adjoint_reduced, v, effective_bc, matfree_Kt(sol, traced_params, ts))
 
         u_total_list = problem.unflatten_fn_sol_list(sol)
         adjoint_list = problem.unflatten_fn_sol_list(adjoint_full)
-- 
2.43.0


From 1fbc5e83ce022ed63cb945aaab37f6a96e05347f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:20 +0000
Subject: [PATCH 04/64] fix: Krylov adjoint solved with J instead of its
 transpose

Symmetric elimination does not make a non-symmetric operator symmetric, so
gradients through cg/bicgstab/gmres solves of such problems were wrong.
---
 feax/assembler.py       | 25 +++++++++++++++++++++++++
 feax/solvers/linear.py  | 14 ++++----------
 feax/solvers/newton.py  | 10 +++-------
 feax/solvers/reduced.py | 23 +++++++++++------------
 4 files changed, 43 insertions(+), 29 deletions(-)

diff --git a/feax/assembler.py b/feax/assembler.py
index c589d33..9819b72 100644
--- a/feax/assembler.py
+++ b/feax/assembler.py
@@ -1780,6 +1780,31 @@ def create_matfree_res_J_parametric(problem: 'Problem', symmetric: bool = True)
     return build
 
 
+def create_matfree_Jt_parametric(problem: 'Problem', symmetric: bool = True) -> Callable:
+    """Matrix-free transpose of the BC-eliminated tangent (Krylov adjoint).
+
+    Returns ``(sol_flat, traced_params, bc) -> (w -> J_bcᵀ @ w)``, the exact
+    transpose of the matvec of :func:`create_matfree_res_J_parametric`. The bulk
+    action ``Kᵀ @ w`` is a reverse-mode ``jax.vjp`` of the residual, so it is
+    also right for operators that are not symmetric (convection, follower
+    loads, frictional terms), where elimination alone does not make ``Jᵀ = J``.
+    """
+    Kt_param = create_matfree_Kt_parametric(problem)
+
+    def build(sol_flat, traced_params: TracedParams, bc, ts=None):
+        Kt = Kt_param(sol_flat, traced_params, ts)
+
+        def matvec(w):
+            Ktw = Kt(np.where(bc.bc_mask, 0.0, w))
+            if symmetric:
+                return np.where(bc.bc_mask, w, Ktw)
+            return Ktw + np.where(bc.bc_mask, w, 0.0)
+
+        return matvec
+
+    return build
+
+
 def create_matfree_Kt_parametric(problem: 'Problem') -> Callable:
     """Matrix-free ``K_bulk^T`` (un-eliminated residual transpose) for the
     symmetric-BC adjoint correction.
diff --git a/feax/solvers/linear.py b/feax/solvers/linear.py
index 3aac6ca..725d6a1 100644
--- a/feax/solvers/linear.py
+++ b/feax/solvers/linear.py
@@ -23,6 +23,7 @@ import jax.numpy as np
 from ..assembler import (
     create_J_bc_csr_function,
     create_J_bc_csr_parametric,
+    create_matfree_Jt_parametric,
     create_matfree_Kt_parametric,
     create_matfree_res_J_parametric,
     create_res_bc_parametric,
@@ -197,9 +198,7 @@ def create_linear_solver(
         structure before any JAX tracing. Recommended when using cuDSS and
         composing ``jax.jit`` with ``jax.grad``.
     symmetric_elimination : bool, default True
-        Use symmetric Dirichlet elimination (zero BC rows *and* columns). Linear
-        FE operators are symmetric after symmetric elimination, so the Krylov
-        adjoint reuses the forward matvec (``Jᵀ = J``).
+        Use symmetric Dirichlet elimination (zero BC rows *and* columns).
 
     Returns
     -------
@@ -324,6 +323,7 @@ def create_linear_solver(
             problem, traced_params, traced_structure)
     # Matrix-free operator (fused BC-applied residual + JVP matvec) for Krylov.
     matfree_res_J_param = create_matfree_res_J_parametric(problem, symmetric=symmetric_elimination)
+    matfree_Jt_param = create_matfree_Jt_parametric(problem, symmetric=symmetric_elimination)
     # Un-eliminated Kᵀ for the bc_vals gradient.
     matfree_Kt_param = create_matfree_Kt_parametric(problem)
     res_bc_parametric = create_res_bc_parametric(problem)
@@ -466,14 +466,8 @@ def create_linear_solver(
             J_adjoint = transpose_with_maps(
                 J, src.csr_T_perm, src.csr_T_indptr, src.csr_T_indices
             ) if use_transpose else J
-        elif symmetric_elimination:
-            # Symmetric BC ⇒ J is symmetric ⇒ Jᵀ = J (matrix-free matvec).
-            _, J_adjoint = matfree_res_J_param(sol, traced_params, effective_bc, ts)
         else:
-            # Non-symmetric BC: Jᵀ is the VJP of the BC-applied residual.
-            _, _vjp = jax.vjp(
-                lambda s: res_bc_parametric(s, traced_params, effective_bc, ts), sol)
-            J_adjoint = lambda w: _vjp(w)[0]
+            J_adjoint = matfree_Jt_param(sol, traced_params, effective_bc, ts)
         adjoint_vec = linear_solve_adjoint(
             J_adjoint, v, adjoint_solver_options, problem.matrix_view,
             effective_bc,
diff --git a/feax/solvers/newton.py b/feax/solvers/newton.py
index 9f5435b..588fc1a 100644
--- a/feax/solvers/newton.py
+++ b/feax/solvers/newton.py
@@ -23,6 +23,7 @@ from ..assembler import (
     _get_J_csr,
     create_J_bc_csr_function,
     create_J_bc_csr_parametric,
+    create_matfree_Jt_parametric,
     create_matfree_Kt_parametric,
     create_matfree_res_J_parametric,
     create_res_bc_parametric,
@@ -906,6 +907,7 @@ def create_callback_newton_solver(
     # Adjoint operators: assembled CSR (direct) or matrix-free (Krylov), plus the
     # un-eliminated K_bulk^T for the symmetric-BC bc_vals-gradient correction.
     J_csr_param = create_J_bc_csr_parametric(problem, symmetric=symmetric_elimination)
+    matfree_Jt_param = create_matfree_Jt_parametric(problem, symmetric=symmetric_elimination)
     matfree_Kt_param = create_matfree_Kt_parametric(problem)
 
     linear_solve_fn = create_linear_solve_fn(linear_options, cache_namespace="forward")
@@ -1041,14 +1043,8 @@ def create_callback_newton_solver(
             J_adjoint = transpose_with_maps(
                 J, src.csr_T_perm, src.csr_T_indptr, src.csr_T_indices
             ) if use_transpose else J
-        elif symmetric_elimination:
-            # Symmetric BC ⇒ J is symmetric ⇒ Jᵀ = J (matrix-free matvec).
-            _, J_adjoint = matfree_res_J_param(sol, traced_params, effective_bc, ts)
         else:
-            # Non-symmetric BC: Jᵀ is the VJP of the BC-applied residual.
-            _, _vjp = jax.vjp(
-                lambda s: res_param(s, traced_params, effective_bc, ts), sol)
-            J_adjoint = lambda w: _vjp(w)[0]
+            J_adjoint = matfree_Jt_param(sol, traced_params, effective_bc, ts)
 
         adjoint_vec = linear_solve_adjoint(
             J_adjoint, v_vec, adjoint_linear_options, problem.matrix_view,
diff --git a/feax/solvers/reduced.py b/feax/solvers/reduced.py
index 98b8e13..6629a13 100644
--- a/feax/solvers/reduced.py
+++ b/feax/solvers/reduced.py
@@ -23,6 +23,7 @@ import jax
 import jax.numpy as np
 
 from ..assembler import (
+    create_matfree_Jt_parametric,
     create_matfree_Kt_parametric,
     create_matfree_res_J_parametric,
     create_res_bc_parametric,
@@ -169,8 +170,6 @@ def create_reduced_solver(problem, bc, P, solver_options, adjoint_solver_options
     reduced operator ``PᵀJP``: its sparsity is the boolean triple product of
     the known patterns, its values come from colored probes of the matrix-free
     action (``num_colors`` matvecs, once per solve) — see :mod:`feax.asd`.
-    Periodic operators are symmetric after symmetric elimination, so the
-    adjoint reuses the same (assembled or matrix-free) operator.
     """
     if not isinstance(solver_options,
                       (KrylovSolverOptions, DirectSolverOptions, AMGSolverOptions)):
@@ -193,10 +192,9 @@ def create_reduced_solver(problem, bc, P, solver_options, adjoint_solver_options
 
     # The reduced problem is always Krylov and never extracts a preconditioner
     # from the operator, so the BC-applied tangent is supplied matrix-free (a
-    # residual JVP) — no Jacobian assembly. Periodic problems are SPD after
-    # symmetric Dirichlet elimination, so the same matvec serves the adjoint
-    # (Jᵀ = J).
+    # residual JVP; its VJP for the adjoint) — no Jacobian assembly.
     matfree_res_J = create_matfree_res_J_parametric(problem, symmetric=True)
+    matfree_Jt = create_matfree_Jt_parametric(problem, symmetric=True)
     matfree_Kt = create_matfree_Kt_parametric(problem)
     res_bc_parametric = create_res_bc_parametric(problem)
 
@@ -242,13 +240,12 @@ def create_reduced_solver(problem, bc, P, solver_options, adjoint_solver_options
     def f_bwd(res, v):
         traced_params, sol, initial_guess, effective_bc, ts = res
 
-        # sol already includes initial_guess (total solution). Symmetric BC ⇒
-        # J_bc is symmetric ⇒ Jᵀ = J, so the forward matvec serves the adjoint.
-        _, J_matvec = matfree_res_J(sol, traced_params, effective_bc, ts)
+        # sol already includes initial_guess (total solution).
+        Jt_matvec = matfree_Jt(sol, traced_params, effective_bc, ts)
         rhs_reduced = P.T @ v
 
         def adjoint_matvec(adjoint_reduced):
-            return P.T @ J_matvec(P @ adjoint_reduced)
+            return P.T @ Jt_matvec(P @ adjoint_reduced)
 
         x0_reduced = np.zeros_like(rhs_reduced)
         adjoint_reduced = adj_linear_solve_fn(adjoint_matvec, rhs_reduced, x0_reduced)
@@ -304,6 +301,7 @@ def _create_assembled_reduced_solver(problem, bc, P, solver_options,
     )
 
     matfree_res_J = create_matfree_res_J_parametric(problem, symmetric=True)
+    matfree_Jt = create_matfree_Jt_parametric(problem, symmetric=True)
     matfree_Kt = create_matfree_Kt_parametric(problem)
     res_bc_parametric = create_res_bc_parametric(problem)
 
@@ -343,9 +341,10 @@ def _create_assembled_reduced_solver(problem, bc, P, solver_options,
     def f_bwd(res, v):
         traced_params, sol, effective_bc, ts = res
 
-        # Symmetric BC elimination ⇒ PᵀJP symmetric ⇒ the adjoint reuses the
-        # forward operator (assembled at the converged state, never stale).
-        _, matvec = _operator(sol, traced_params, effective_bc, ts)
+        # (PᵀJP)ᵀ, assembled at the converged state; its pattern is the forward
+        # one (mesh patterns are structurally symmetric).
+        Jt_matvec = matfree_Jt(sol, traced_params, effective_bc, ts)
+        matvec = lambda w: P.T @ Jt_matvec(P @ w)
         rhs_reduced = P.T @ v
         op = assemble(matvec) if adj_assembled else matvec
         adjoint_reduced = adj_solve(op, rhs_reduced)
-- 
2.43.0


From 5c07a2b5f264af8b82fca8b712a27a40f1bad247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:31 +0000
Subject: [PATCH 05/64] fix: bc_vals gradient used half of a triangular-view
 Jacobian

---
 feax/solvers/newton.py | 28 ++++++++--------------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/feax/solvers/newton.py b/feax/solvers/newton.py
index 588fc1a..d40e424 100644
--- a/feax/solvers/newton.py
+++ b/feax/solvers/newton.py
@@ -20,7 +20,6 @@ import jax
 import jax.numpy as np
 
 from ..assembler import (
-    _get_J_csr,
     create_J_bc_csr_function,
     create_J_bc_csr_parametric,
     create_matfree_Jt_parametric,
@@ -32,6 +31,7 @@ from ..assembler import (
 from ..csr import CSRMatrix, transpose_with_maps
 from ..problem import MatrixView
 from .common import (
+    _correct_adjoint_bc,
     _safe_negate,
     check_convergence,
     create_jacobi_preconditioner,
@@ -118,6 +118,7 @@ def _create_differentiable_newton_solver(
     # The correction is: λ_bc = v_bc - K_fb^T @ λ_free, computed via
     # the bulk (un-eliminated) Jacobian.
     _needs_adjoint_bc_correction = symmetric_elimination and _has_parametric
+    matfree_Kt_param = create_matfree_Kt_parametric(problem)
 
     @jax.custom_vjp
     def differentiable_solve(traced_params, initial_guess, bc_arg, ts):
@@ -199,15 +200,11 @@ def _create_differentiable_newton_solver(
         #   λ_free = K_ff^{-T} v_free  (same as symmetric, already correct)
         #   λ_bc = v_bc - K_fb^T λ_free  (correction needed)
         if _needs_adjoint_bc_correction:
-            sol_list_for_correction = problem.unflatten_fn_sol_list(sol)
-            kdata, kindptr, kindices = _get_J_csr(
-                problem, sol_list_for_correction, traced_params, ts)
-            K_bulk = CSRMatrix(kdata, kindptr, kindices,
-                               (problem.num_total_dofs_all_vars,) * 2)
             # Isolate λ_free by zeroing BC entries
             lambda_free_padded = adjoint_vec.at[effective_bc.bc_rows].set(0.0)
             # K_fb^T @ λ_free = (K_bulk^T @ λ_free_padded)[bc_rows]
-            correction = K_bulk.rmatvec(lambda_free_padded)[effective_bc.bc_rows]
+            Kt = matfree_Kt_param(sol, traced_params, ts)
+            correction = Kt(lambda_free_padded)[effective_bc.bc_rows]
             if extra_rows_fn is not None:
                 # Extra term's K_fb coupling (rows zeroed, BC columns kept).
                 _, _vjp_x = jax.vjp(extra_rows_fn, sol)
@@ -1053,20 +1050,11 @@ def create_callback_newton_solver(
 
         # Symmetric-elimination BC correction so bc_vals gradients are correct:
         #   λ_bc = v_bc - K_fb^T λ_free,  with K_bulk the un-eliminated Jacobian
-        #   (assembled transpose for direct, matrix-free VJP for Krylov).
+        #   (matrix-free: the assembled one may hold a single triangle).
         if _needs_bc_correction:
-            lambda_free = adjoint_vec.at[effective_bc.bc_rows].set(0.0)
-            if _adj_direct:
-                sol_list = problem.unflatten_fn_sol_list(sol)
-                kdata, kindptr, kindices = _get_J_csr(problem, sol_list, traced_params, ts)
-                K_bulk = CSRMatrix(kdata, kindptr, kindices,
-                                   (problem.num_total_dofs_all_vars,) * 2)
-                ktw = K_bulk.rmatvec(lambda_free)
-            else:
-                ktw = matfree_Kt_param(sol, traced_params, ts)(lambda_free)
-            correction = ktw[effective_bc.bc_rows]
-            adjoint_vec = adjoint_vec.at[effective_bc.bc_rows].set(
-                v_vec[effective_bc.bc_rows] - correction)
+            adjoint_vec = _correct_adjoint_bc(
+                adjoint_vec, v_vec, effective_bc,
+                matfree_Kt_param(sol, traced_params, ts))
 
         return adjoint_vec
 
-- 
2.43.0


From fcefca5e2a87c745b1dff18f1f7b8351b1799e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:31 +0000
Subject: [PATCH 06/64] fix: create_solver dropped symmetric_elimination on the
 linear path

---
 feax/solver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/feax/solver.py b/feax/solver.py
index 8556fab..5079659 100644
--- a/feax/solver.py
+++ b/feax/solver.py
@@ -399,6 +399,7 @@ def create_solver(
             solver_options=linear_options,
             adjoint_solver_options=adjoint_linear_options,
             traced_params=traced_params,
+            symmetric_elimination=symmetric_elimination,
             traced_structure=traced_structure,
         ))
 
-- 
2.43.0


From 3da792845a3c384c140da69ea09a8f39608e0749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:05 +0000
Subject: [PATCH 07/64] fix: triangular matrix views were solved as if they
 were the whole matrix

spsolve/umfpack/AMG silently returned wrong fields for UPPER/LOWER; an
explicit cholmod read the triangle that is not stored.
---
 feax/solvers/linear.py  | 10 ++++++++++
 feax/solvers/newton.py  | 12 +++++++++++-
 feax/solvers/options.py | 25 ++++++++++++++++++++++++-
 3 files changed, 45 insertions(+), 2 deletions(-)

diff --git a/feax/solvers/linear.py b/feax/solvers/linear.py
index 725d6a1..84cdd40 100644
--- a/feax/solvers/linear.py
+++ b/feax/solvers/linear.py
@@ -47,6 +47,7 @@ from .options import (
     KrylovSolverOptions,
     MatrixProperty,
     SolverOptions,
+    match_matrix_view,
     resolve_direct_solver,
     resolve_iterative_solver,
 )
@@ -268,6 +269,11 @@ def create_linear_solver(
             f"Expected DirectSolverOptions, KrylovSolverOptions, or AMGSolverOptions, got {type(adjoint_solver_options).__name__}."
         )
 
+    if isinstance(solver_options, AMGSolverOptions):
+        match_matrix_view(solver_options, problem.matrix_view)
+    if isinstance(adjoint_solver_options, AMGSolverOptions):
+        match_matrix_view(adjoint_solver_options, problem.matrix_view)
+
     # AMGSolverOptions lowers to a matrix-free Krylov solve preconditioned by a
     # once-built AMG V-cycle (rigid-body near-null-space for vector problems).
     from .amg import amg_to_krylov_options
@@ -299,6 +305,10 @@ def create_linear_solver(
                 matrix_view=problem.matrix_view,
             )
 
+    solver_options = match_matrix_view(solver_options, problem.matrix_view)
+    adjoint_solver_options = solver_options if shared_opts else match_matrix_view(
+        adjoint_solver_options, problem.matrix_view)
+
     _default_bc = bc
 
     # Operator representation follows the solve method: direct factorizes the
diff --git a/feax/solvers/newton.py b/feax/solvers/newton.py
index d40e424..dc20dd8 100644
--- a/feax/solvers/newton.py
+++ b/feax/solvers/newton.py
@@ -41,7 +41,7 @@ from .common import (
     prewarm_direct_solvers,
 )
 from .linear import linear_solve_adjoint
-from .options import AMGSolverOptions, DirectSolverOptions, NewtonOptions
+from .options import AMGSolverOptions, DirectSolverOptions, NewtonOptions, match_matrix_view
 
 logger = logging.getLogger(__name__)
 
@@ -578,6 +578,11 @@ def create_newton_solver(
           merged (bulk ∪ extra) CSR pattern, so a direct solver factorizes
           the exact tangent.
     """
+    _shared = adjoint_linear_options is linear_options
+    linear_options = match_matrix_view(linear_options, problem.matrix_view)
+    adjoint_linear_options = linear_options if _shared else match_matrix_view(
+        adjoint_linear_options, problem.matrix_view)
+
     # AMGSolverOptions with rebuild_every != 0 (None = adaptive lag, or a fixed
     # period k>=1) uses a dedicated host Newton loop that rebuilds the AMG
     # hierarchy from the current tangent (needed for strong nonlinearity / large
@@ -615,6 +620,11 @@ def create_newton_solver(
                 newton_options, extra_residual_fn, symmetric_elimination,
                 traced_structure)
 
+        if problem.matrix_view is not MatrixView.FULL:
+            raise ValueError(
+                "extra_residual_fn requires MatrixView.FULL (the hybrid operator "
+                "applies the assembled bulk Jacobian).")
+
         bc_rows = bc.bc_rows
 
         def extra_res_bc(sol):
diff --git a/feax/solvers/options.py b/feax/solvers/options.py
index 74d7749..79b3394 100644
--- a/feax/solvers/options.py
+++ b/feax/solvers/options.py
@@ -7,7 +7,7 @@ CUDA-specific options.
 """
 
 import logging
-from dataclasses import dataclass
+from dataclasses import dataclass, replace
 from enum import Enum
 from typing import Callable, Optional, Union
 from ..problem import MatrixView
@@ -776,6 +776,29 @@ def resolve_direct_solver(
     return resolved
 
 
+def match_matrix_view(options: AbstractSolverOptions, matrix_view: MatrixView) -> AbstractSolverOptions:
+    """Make resolved solver options fit the stored triangle of the Jacobian.
+
+    With ``MatrixView.UPPER`` / ``LOWER`` the assembled Jacobian holds one
+    triangle. CHOLMOD reads the triangle that is stored; the LU backends and AMG
+    would take it for the whole matrix and return a wrong solution, so they are
+    refused. Matrix-free Krylov solves never see the assembled Jacobian.
+    """
+    if matrix_view not in (MatrixView.UPPER, MatrixView.LOWER):
+        return options
+    if isinstance(options, DirectSolverOptions) and options.solver == "cholmod":
+        return replace(options, sksparse_options=replace(
+            options.sksparse_options, lower=matrix_view == MatrixView.LOWER))
+    if isinstance(options, AMGSolverOptions) or (
+            isinstance(options, DirectSolverOptions)
+            and options.solver in ("spsolve", "umfpack")):
+        raise ValueError(
+            f"{getattr(options, 'solver', 'AMG')!r} ({type(options).__name__}) needs the "
+            f"whole Jacobian, but problem.matrix_view={matrix_view.name} stores one "
+            "triangle. Use MatrixView.FULL, or solver='cholmod' / KrylovSolverOptions.")
+    return options
+
+
 # ============================================================================
 # Iterative Solver Options
 # ============================================================================
-- 
2.43.0


From d9898ad907ede0d42991c82bdc91a05b4fc2b88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:07 +0000
Subject: [PATCH 08/64] fix: surface tangent dropped when the sample load makes
 it vanish

A Robin coefficient of zero in the sample TracedParams (or a spring out of
reach of the two probe states) switched off the surface Jacobian of the
problem for good, so later solves with other values were wrong.
---
 feax/assembler.py | 42 +++++++++++++++++++++++++++---------------
 1 file changed, 27 insertions(+), 15 deletions(-)

diff --git a/feax/assembler.py b/feax/assembler.py
index 9819b72..1255b69 100644
--- a/feax/assembler.py
+++ b/feax/assembler.py
@@ -1326,11 +1326,13 @@ def detect_zero_surface_jacobian(problem: 'Problem',
     """Probe whether every surface load is u-independent (a 'dead' load), i.e.
     its contribution to the tangent stiffness is identically zero.
 
-    Returns ``True`` only when the assembled surface Jacobian is exactly zero at
-    two distinct nonzero displacement patterns — the usual case for Neumann
-    tractions / pressures that do not follow the deformation. Configuration
-    (``u``-)dependent 'follower' loads, or any probing error, return ``False``
-    (keep the surface term — correct, just not the fast path).
+    Returns ``True`` only when differentiation shows that the surface residual
+    does not involve ``u`` — the usual case for Neumann tractions / pressures
+    that do not follow the deformation. Configuration (``u``-)dependent
+    'follower' loads, or any probing error, return ``False`` (keep the surface
+    term — correct, just not the fast path). The answer depends on the surface
+    kernels alone, not on the sample values: a Robin coefficient or a spring
+    that is zero (or inactive) in the sample still counts as ``u``-dependent.
 
     When ``True``, :func:`_get_J_csr` drops the surface Jacobian term. Besides
     saving a zero assembly, this removes the operator's trace dependence on
@@ -1343,20 +1345,30 @@ def detect_zero_surface_jacobian(problem: 'Problem',
     if not getattr(src, 'boundary_inds_list', None):
         return False
     try:
-        n = problem.num_total_dofs_all_vars
-        # Two asymmetric nonzero patterns: a genuinely u-dependent map is
-        # vanishingly unlikely to have an exactly-zero tangent at both.
-        for sol_flat in (np.linspace(0.13, 1.0, n), np.linspace(-0.9, 0.41, n)):
+        dependent = []
+
+        @jax.custom_jvp
+        def probe(x):
+            return x
+
+        def probe_jvp(primals, tangents):
+            dependent.append(
+                not isinstance(tangents[0], jax.custom_derivatives.SymbolicZero))
+            return primals[0], tangents[0]
+
+        probe.defjvp(probe_jvp, symbolic_zeros=True)
+
+        def surface_residual(sol_flat):
             sol_list = problem.unflatten_fn_sol_list(sol_flat)
             cells_sol_list = [sol[cells] for cells, sol in zip(src.cells_list, sol_list)]
             cells_sol_flat = jax.vmap(
                 lambda *x: jax.flatten_util.ravel_pytree(x)[0])(*cells_sol_list)
-            _, jacs = compute_face(problem, cells_sol_flat, True,
-                                   traced_params.surface_vars, ts)
-            for j in jacs:
-                if float(np.max(np.abs(j))) != 0.0:
-                    return False
-        return True
+            return [probe(v) for v in compute_face(
+                problem, cells_sol_flat, False, traced_params.surface_vars, ts)]
+
+        sol_flat = np.zeros(problem.num_total_dofs_all_vars)
+        jax.jvp(surface_residual, (sol_flat,), (sol_flat,))
+        return not any(dependent)
     except Exception:
         return False
 
-- 
2.43.0


From 05fab97e060d5f579928041ec25a8b1b5ce90201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:26 +0000
Subject: [PATCH 09/64] fix: GMRES ignored a restart given with solver='auto'
 and the documented default

---
 feax/solvers/common.py  | 3 +--
 feax/solvers/options.py | 1 +
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/feax/solvers/common.py b/feax/solvers/common.py
index a5e5e5e..774928b 100644
--- a/feax/solvers/common.py
+++ b/feax/solvers/common.py
@@ -263,7 +263,6 @@ def create_iterative_solve_fn(options: KrylovSolverOptions):
         return solve
 
     if options.solver == "gmres":
-        _restart = getattr(options, 'restart', None) or 20
         def solve(A, b, x0):
             M = choose_preconditioner(A)
             x, _ = jax.scipy.sparse.linalg.gmres(
@@ -271,7 +270,7 @@ def create_iterative_solve_fn(options: KrylovSolverOptions):
                 tol=options.tol,
                 atol=options.atol,
                 maxiter=options.maxiter,
-                restart=_restart,
+                restart=options.restart or min(200, b.size),
             )
             return x
         return solve
diff --git a/feax/solvers/options.py b/feax/solvers/options.py
index 79b3394..2f38834 100644
--- a/feax/solvers/options.py
+++ b/feax/solvers/options.py
@@ -900,6 +900,7 @@ def resolve_iterative_solver(
         preconditioner=options.preconditioner,
         use_jacobi_preconditioner=options.use_jacobi_preconditioner,
         jacobi_shift=options.jacobi_shift,
+        restart=options.restart,
         x0_fn=options.x0_fn,
         check_convergence=options.check_convergence,
         convergence_threshold=options.convergence_threshold,
-- 
2.43.0


From dbe7341a0c097f37dd229be9371a3f5f6842f4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:25 +0000
Subject: [PATCH 10/64] fix: one singular lane turned every lane of a batched
 spsolve into NaN

---
 feax/solvers/direct/spsolve.py | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/feax/solvers/direct/spsolve.py b/feax/solvers/direct/spsolve.py
index ede60fa..f588048 100644
--- a/feax/solvers/direct/spsolve.py
+++ b/feax/solvers/direct/spsolve.py
@@ -7,7 +7,6 @@ from jax import custom_batching
 import numpy as np
 
 from ._callback_utils import (
-    assemble_batched_csr_arrays_np,
     build_csr_matrix,
     normalize_static_csr_vector,
     prepare_batched_csr_payload,
@@ -44,20 +43,18 @@ def _get_spsolve_host_callback(reorder: int, batched: bool):
             x = spla.spsolve(A, b_np, permc_spec=_map_reorder_to_permc_spec(reorder))
             return np.asarray(x, dtype=b_np.dtype)
 
-        bdm_values, bdm_columns, bdm_offsets = assemble_batched_csr_arrays_np(
-            data_blocks=values_np,
-            single_indices=columns_np,
-            single_indptr=offsets_np,
-            block_ncols=b_np.shape[1],
-        )
-        rhs_flat = b_np.reshape(-1)
-        A = build_csr_matrix(
-            bdm_values,
-            bdm_columns,
-            bdm_offsets,
-            rhs_flat.shape[0],
-        )
-        x = spla.spsolve(A, rhs_flat, permc_spec=_map_reorder_to_permc_spec(reorder))
+        # One factorization per lane: SuperLU answers a singular matrix with NaNs
+        # everywhere, so a shared block-diagonal solve would let one singular lane
+        # destroy the results of all others.
+        permc_spec = _map_reorder_to_permc_spec(reorder)
+        x = [
+            spla.spsolve(
+                build_csr_matrix(lane_values, columns_np, offsets_np, lane_b.shape[0]),
+                lane_b,
+                permc_spec=permc_spec,
+            )
+            for lane_values, lane_b in zip(values_np, b_np)
+        ]
         return np.asarray(x, dtype=b_np.dtype).reshape(b_np.shape)
 
     return _host_callback
@@ -105,7 +102,7 @@ def spsolve_batched(
     reorder: int = 1,
     vmap_method: str = _SPSOLVE_VMAP_METHOD,
 ):
-    """Solve batched sparse systems via host-side block-diagonal assembly."""
+    """Solve batched sparse systems lane by lane in one host callback."""
     csr_offsets = normalize_static_csr_vector(csr_offsets)
     csr_columns = normalize_static_csr_vector(csr_columns)
 
-- 
2.43.0


From 139322f5561b1868657a4ae8174f2badb84cbad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:43 +0000
Subject: [PATCH 11/64] fix: nested vmap over a direct solver failed in the
 host callback

---
 feax/solvers/direct/_callback_utils.py | 21 +++++++++++++++++++++
 feax/solvers/direct/cholmod.py         |  3 ++-
 feax/solvers/direct/spsolve.py         |  3 ++-
 feax/solvers/direct/umfpack.py         |  3 ++-
 4 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/feax/solvers/direct/_callback_utils.py b/feax/solvers/direct/_callback_utils.py
index e7fd3d7..ac82fcd 100644
--- a/feax/solvers/direct/_callback_utils.py
+++ b/feax/solvers/direct/_callback_utils.py
@@ -146,3 +146,24 @@ def prepare_solver_vmap_inputs(
         b_values = jnp.broadcast_to(b_values, (axis_size,) + b_values.shape)
 
     return b_values, csr_values, csr_offsets, csr_columns
+
+
+def serve_nested_vmap(batched_callback):
+    """Let a batched host callback serve nested ``vmap``s.
+
+    The solver ``vmap`` rules handle one batch axis; every further ``vmap`` reaches
+    the callback as one more leading axis on all of its arguments
+    (size 1 where the argument is not batched). ``b_values`` comes last and is rank-2
+    for a single batch.
+    """
+
+    def _callback(*args):
+        args = [np.asarray(a) for a in args]
+        if args[-1].ndim == 2:
+            return batched_callback(*args)
+        size = max(a.shape[0] for a in args)
+        return np.stack(
+            [_callback(*(a[i if a.shape[0] > 1 else 0] for a in args)) for i in range(size)]
+        )
+
+    return _callback
diff --git a/feax/solvers/direct/cholmod.py b/feax/solvers/direct/cholmod.py
index 5f1b2e0..bbae0fe 100644
--- a/feax/solvers/direct/cholmod.py
+++ b/feax/solvers/direct/cholmod.py
@@ -13,6 +13,7 @@ from ._callback_utils import (
     normalize_static_csr_vector,
     prepare_solver_vmap_inputs,
     prepare_batched_csr_payload,
+    serve_nested_vmap,
     validate_single_csr_inputs,
 )
 
@@ -100,7 +101,7 @@ def _get_cholmod_host_callback(
         )
         return x_np.reshape(b_np.shape)
 
-    return _host_callback
+    return serve_nested_vmap(_host_callback) if batched else _host_callback
 
 
 @ft.partial(jax.jit, static_argnames=("lower", "order", "cache_namespace"))
diff --git a/feax/solvers/direct/spsolve.py b/feax/solvers/direct/spsolve.py
index f588048..9e6337f 100644
--- a/feax/solvers/direct/spsolve.py
+++ b/feax/solvers/direct/spsolve.py
@@ -11,6 +11,7 @@ from ._callback_utils import (
     normalize_static_csr_vector,
     prepare_batched_csr_payload,
     prepare_solver_vmap_inputs,
+    serve_nested_vmap,
     validate_single_csr_inputs,
 )
 
@@ -57,7 +58,7 @@ def _get_spsolve_host_callback(reorder: int, batched: bool):
         ]
         return np.asarray(x, dtype=b_np.dtype).reshape(b_np.shape)
 
-    return _host_callback
+    return serve_nested_vmap(_host_callback) if batched else _host_callback
 
 
 @ft.partial(jax.jit, static_argnames=("reorder",))
diff --git a/feax/solvers/direct/umfpack.py b/feax/solvers/direct/umfpack.py
index b2f1b37..5f69734 100644
--- a/feax/solvers/direct/umfpack.py
+++ b/feax/solvers/direct/umfpack.py
@@ -16,6 +16,7 @@ from ._callback_utils import (
     normalize_static_csr_vector,
     prepare_solver_vmap_inputs,
     prepare_batched_csr_payload,
+    serve_nested_vmap,
     validate_single_csr_inputs,
 )
 
@@ -113,7 +114,7 @@ def _get_umfpack_host_callback(
         )
         return np.asarray(x_flat, dtype=b_f.dtype).reshape(b_f.shape, order="F")
 
-    return _host_callback
+    return serve_nested_vmap(_host_callback) if batched else _host_callback
 
 
 @ft.partial(jax.jit, static_argnames=("trans", "cache_namespace"))
-- 
2.43.0


From 8b9aa47ee769b379a55cf14d8940cbb7d842ed73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:09 +0000
Subject: [PATCH 12/64] fix: concurrent UMFPACK/CHOLMOD solves used each
 other's factorization

---
 feax/solvers/direct/_callback_utils.py | 17 +++++++++++++++++
 feax/solvers/direct/cholmod.py         |  4 +++-
 feax/solvers/direct/umfpack.py         |  4 +++-
 3 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/feax/solvers/direct/_callback_utils.py b/feax/solvers/direct/_callback_utils.py
index ac82fcd..c952101 100644
--- a/feax/solvers/direct/_callback_utils.py
+++ b/feax/solvers/direct/_callback_utils.py
@@ -1,5 +1,7 @@
 """Shared helpers for direct sparse solver pure callbacks."""
 
+import threading
+
 import jax
 import jax.numpy as jnp
 import numpy as np
@@ -148,6 +150,21 @@ def prepare_solver_vmap_inputs(
     return b_values, csr_values, csr_offsets, csr_columns
 
 
+def serialize_calls(callback):
+    """Run one call of a stateful host callback at a time.
+
+    A cached factor is shared by every solver of its namespace, so a solve in another
+    thread must not refactorize between this call's factorize and solve.
+    """
+    lock = threading.Lock()
+
+    def _callback(*args):
+        with lock:
+            return callback(*args)
+
+    return _callback
+
+
 def serve_nested_vmap(batched_callback):
     """Let a batched host callback serve nested ``vmap``s.
 
diff --git a/feax/solvers/direct/cholmod.py b/feax/solvers/direct/cholmod.py
index bbae0fe..02d4af5 100644
--- a/feax/solvers/direct/cholmod.py
+++ b/feax/solvers/direct/cholmod.py
@@ -13,6 +13,7 @@ from ._callback_utils import (
     normalize_static_csr_vector,
     prepare_solver_vmap_inputs,
     prepare_batched_csr_payload,
+    serialize_calls,
     serve_nested_vmap,
     validate_single_csr_inputs,
 )
@@ -101,7 +102,8 @@ def _get_cholmod_host_callback(
         )
         return x_np.reshape(b_np.shape)
 
-    return serve_nested_vmap(_host_callback) if batched else _host_callback
+    callback = serialize_calls(_host_callback)
+    return serve_nested_vmap(callback) if batched else callback
 
 
 @ft.partial(jax.jit, static_argnames=("lower", "order", "cache_namespace"))
diff --git a/feax/solvers/direct/umfpack.py b/feax/solvers/direct/umfpack.py
index 5f69734..1644863 100644
--- a/feax/solvers/direct/umfpack.py
+++ b/feax/solvers/direct/umfpack.py
@@ -16,6 +16,7 @@ from ._callback_utils import (
     normalize_static_csr_vector,
     prepare_solver_vmap_inputs,
     prepare_batched_csr_payload,
+    serialize_calls,
     serve_nested_vmap,
     validate_single_csr_inputs,
 )
@@ -114,7 +115,8 @@ def _get_umfpack_host_callback(
         )
         return np.asarray(x_flat, dtype=b_f.dtype).reshape(b_f.shape, order="F")
 
-    return serve_nested_vmap(_host_callback) if batched else _host_callback
+    callback = serialize_calls(_host_callback)
+    return serve_nested_vmap(callback) if batched else callback
 
 
 @ft.partial(jax.jit, static_argnames=("trans", "cache_namespace"))
-- 
2.43.0


From 9be7de21bcad694d2d156327ba54b6824a9a531f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:28 +0000
Subject: [PATCH 13/64] fix: linear and reduced solves reject a numpy initial
 guess

---
 feax/solvers/linear.py  | 2 +-
 feax/solvers/reduced.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/feax/solvers/linear.py b/feax/solvers/linear.py
index 84cdd40..c2818a0 100644
--- a/feax/solvers/linear.py
+++ b/feax/solvers/linear.py
@@ -401,7 +401,7 @@ def create_linear_solver(
     def _impose_bc(initial_guess, effective_bc):
         # Symmetric elimination drops the coupling of the free rows to the BC
         # increments, so the single solve is exact only if these are zero.
-        return initial_guess.at[effective_bc.bc_rows].set(effective_bc.bc_vals)
+        return np.asarray(initial_guess).at[effective_bc.bc_rows].set(effective_bc.bc_vals)
 
     @jax.custom_vjp
     def differentiable_solve(traced_params, initial_guess, effective_bc, ts):
diff --git a/feax/solvers/reduced.py b/feax/solvers/reduced.py
index 6629a13..3398e48 100644
--- a/feax/solvers/reduced.py
+++ b/feax/solvers/reduced.py
@@ -51,7 +51,7 @@ def _impose_bc(initial_guess_full, bc):
     Symmetric elimination drops the coupling of the free rows to the BC
     increments, so the single reduced solve is exact only if these are zero.
     """
-    return initial_guess_full.at[bc.bc_rows].set(bc.bc_vals)
+    return np.asarray(initial_guess_full).at[bc.bc_rows].set(bc.bc_vals)
 
 
 def _validate_bc_pairing(P, bc):
-- 
2.43.0


From 27a81d112e826def214117d43242c45825f56622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:58 +0000
Subject: [PATCH 14/64] fix: cylinder_mesh ignored an axis pointing along -z

---
 feax/mesh.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/feax/mesh.py b/feax/mesh.py
index f0f8fbb..a3daa3a 100644
--- a/feax/mesh.py
+++ b/feax/mesh.py
@@ -766,11 +766,12 @@ def cylinder_mesh(
             # Calculate rotation to align z-axis with desired axis
             z_axis = onp.array([0, 0, 1])
             rotation_axis = onp.cross(z_axis, axis_norm)
-            if onp.linalg.norm(rotation_axis) > 1e-10:
-                rotation_axis = rotation_axis / onp.linalg.norm(rotation_axis)
-                angle = onp.arccos(onp.dot(z_axis, axis_norm))
-                gmsh.model.occ.rotate([(3, cylinder_tag)], x0, y0, z0,
-                                     rotation_axis[0], rotation_axis[1], rotation_axis[2], angle)
+            if onp.linalg.norm(rotation_axis) <= 1e-10:
+                rotation_axis = onp.array([1.0, 0.0, 0.0])  # axis = -z: half turn
+            rotation_axis = rotation_axis / onp.linalg.norm(rotation_axis)
+            angle = onp.arccos(onp.clip(onp.dot(z_axis, axis_norm), -1.0, 1.0))
+            gmsh.model.occ.rotate([(3, cylinder_tag)], x0, y0, z0,
+                                 rotation_axis[0], rotation_axis[1], rotation_axis[2], angle)
 
         gmsh.model.occ.synchronize()
 
-- 
2.43.0


From 46e286b538e9f814540bbe5a9c49164287e24d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:40 +0000
Subject: [PATCH 15/64] fix: refine_mesh failed on second-order elements

---
 feax/mesh.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/feax/mesh.py b/feax/mesh.py
index a3daa3a..9e0a5eb 100644
--- a/feax/mesh.py
+++ b/feax/mesh.py
@@ -861,6 +861,20 @@ _ELE_INFO = {
 }
 
 
+# Second-order cells: position in the Gmsh cell of each meshio-ordered node.
+_SECOND_ORDER_NODES = {
+    'TRI6':   list(range(6)),
+    'QUAD8':  list(range(8)),
+    'QUAD9':  list(range(9)),
+    'TET10':  [0, 1, 2, 3, 4, 5, 6, 7, 9, 8],
+    'HEX20':  [0, 1, 2, 3, 4, 5, 6, 7, 8, 11,
+               13, 9, 16, 18, 19, 17, 10, 12, 14, 15],
+    'HEX27':  [0, 1, 2, 3, 4, 5, 6, 7, 8, 11,
+               13, 9, 16, 18, 19, 17, 10, 12, 14, 15,
+               22, 23, 21, 24, 20, 25, 26],
+}
+
+
 def refine_mesh(mesh: Mesh, levels: int = 1) -> Mesh:
     """Uniformly refine a mesh by edge subdivision via Gmsh.
 
@@ -974,6 +988,11 @@ def refine_mesh(mesh: Mesh, levels: int = 1) -> Mesh:
 
         for _ in range(levels):
             gmsh.model.mesh.refine()
+        if ele_type in _SECOND_ORDER_NODES:
+            # gmsh refines into first-order cells; promote them again.
+            gmsh.option.setNumber("Mesh.SecondOrderIncomplete",
+                                  int(ele_type in ('QUAD8', 'HEX20')))
+            gmsh.model.mesh.setOrder(2)
 
         # Read the refined mesh back.
         node_tags_new, node_coords_new, _ = gmsh.model.mesh.getNodes()
@@ -1002,6 +1021,8 @@ def refine_mesh(mesh: Mesh, levels: int = 1) -> Mesh:
             elem_node_tags_new[block_idx], dtype=onp.int64,
         ).reshape(-1, n_nodes_per_cell)
         new_cells = remap[new_cells_1b]
+        if ele_type in _SECOND_ORDER_NODES:
+            new_cells = new_cells[:, _SECOND_ORDER_NODES[ele_type]]
 
         # Trim z-padding for 2-D meshes.
         if pts.shape[1] == 2:
-- 
2.43.0


From 9e3d3dd258e14e4ad702f8254bf0aeb89312d2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:40 +0000
Subject: [PATCH 16/64] fix: gradient_refinement used the transposed inverse
 Jacobian

---
 feax/gene/adaptive.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/feax/gene/adaptive.py b/feax/gene/adaptive.py
index a0c80c9..d93b1d4 100644
--- a/feax/gene/adaptive.py
+++ b/feax/gene/adaptive.py
@@ -177,8 +177,8 @@ def gradient_refinement(rho, mesh):
     rho_e = rho[cells]  # (E, 4)
     drho_ref = rho_e[:, 1:] - rho_e[:, 0:1]  # (E, 3)
 
-    # Physical gradient: grad(rho) = inv(J)^T @ drho_ref
-    grad_rho = onp.einsum('eij,ej->ei', inv_J.transpose(0, 2, 1), drho_ref)
+    # drho_ref = J @ grad(rho) (rows of J are edges)
+    grad_rho = onp.einsum('eij,ej->ei', inv_J, drho_ref)
     grad_mag_elem = onp.linalg.norm(grad_rho, axis=1)  # (E,)
 
     # Scatter to nodes (average of surrounding elements)
-- 
2.43.0


From 335c6c6967dde1633b09ae589a18754f0eb16814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:36 +0000
Subject: [PATCH 17/64] fix: Mesh.from_gmsh kept only the last block of a cell
 type

---
 feax/mesh.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/feax/mesh.py b/feax/mesh.py
index 9e0a5eb..edf35b5 100644
--- a/feax/mesh.py
+++ b/feax/mesh.py
@@ -114,7 +114,11 @@ class Mesh():
             cell_type = cell_block.type
             if cell_type in meshio_to_feax:
                 feax_type = meshio_to_feax[cell_type]
-                available_types[feax_type] = cell_block.data
+                if feax_type in available_types:  # one block per Gmsh entity
+                    available_types[feax_type] = onp.vstack(
+                        [available_types[feax_type], cell_block.data])
+                else:
+                    available_types[feax_type] = cell_block.data
 
         if not available_types:
             raise ValueError(
-- 
2.43.0


From 0c3f61e1aa158fcc917d0a393b17c6416ccecea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:45 +0000
Subject: [PATCH 18/64] fix: count_selected_faces failed on meshes with JAX
 arrays

---
 feax/mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/feax/mesh.py b/feax/mesh.py
index edf35b5..a8d36c4 100644
--- a/feax/mesh.py
+++ b/feax/mesh.py
@@ -172,7 +172,7 @@ class Mesh():
         and works with all supported element types.
         """
         _, _, _, _, face_inds = get_face_shape_vals_and_grads(self.ele_type)
-        cell_points = onp.take(self.points, self.cells, axis=0)
+        cell_points = onp.take(onp.asarray(self.points), onp.asarray(self.cells), axis=0)
         cell_face_points = onp.take(cell_points, face_inds, axis=1)
 
         vmap_location_fn = jax.vmap(location_fn)
-- 
2.43.0


From c3c8b4fed260c8f1c17c9f7f74880a8e8b1c57e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:35 +0000
Subject: [PATCH 19/64] fix: periodic_bc_3D assumed the unit cell starts at the
 origin

---
 feax/flat/pbc.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/feax/flat/pbc.py b/feax/flat/pbc.py
index 1235a67..ac93627 100644
--- a/feax/flat/pbc.py
+++ b/feax/flat/pbc.py
@@ -337,12 +337,13 @@ def periodic_bc_3D(
         - Each geometric pairing is replicated for each DoF component
     """
 
+    lb = unitcell.lb
     L = unitcell.ub - unitcell.lb
 
     face_pairs = []
     for axis in range(dim):
-        master_fn = unitcell.face_function(axis, 0, excluding_edge=True)
-        slave_fn = unitcell.face_function(axis, L[axis], excluding_edge=True)
+        master_fn = unitcell.face_function(axis, lb[axis], excluding_edge=True)
+        slave_fn = unitcell.face_function(axis, lb[axis] + L[axis], excluding_edge=True)
         for i in range(vec):
             face_pairs.append(
                 PeriodicPairing(
@@ -352,8 +353,10 @@ def periodic_bc_3D(
 
     edge_pairs = []
     for axes in [[1, 2], [0, 2], [0, 1]]:
-        for values in [[L[axes[0]], 0], [L[axes[0]], L[axes[1]]], [0, L[axes[1]]]]:
-            master_fn = unitcell.edge_function(axes, [0, 0], excluding_corner=True)
+        lo = [lb[axes[0]], lb[axes[1]]]
+        hi = [lo[0] + L[axes[0]], lo[1] + L[axes[1]]]
+        for values in [[hi[0], lo[1]], hi, [lo[0], hi[1]]]:
+            master_fn = unitcell.edge_function(axes, lo, excluding_corner=True)
             slave_fn = unitcell.edge_function(axes, values, excluding_corner=True)
             for i in range(vec):
                 edge_pairs.append(
-- 
2.43.0


From 7c79981be8513d42d16e9650fe92ec37fa8d1383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:35 +0000
Subject: [PATCH 20/64] fix: UnitCell boundary tests used a relative tolerance
 besides atol

---
 feax/flat/unitcell.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/feax/flat/unitcell.py b/feax/flat/unitcell.py
index 6283556..379740f 100644
--- a/feax/flat/unitcell.py
+++ b/feax/flat/unitcell.py
@@ -155,8 +155,8 @@ class UnitCell(ABC):
             >>> is_corner = unit_cell.is_corner(np.array([0.0, 0.0, 0.0]))
             >>> print(f"Origin is corner: {is_corner}")
         """
-        close_0 = np.isclose(point, self.lb, atol=self.atol)
-        close_1 = np.isclose(point, self.ub, atol=self.atol)
+        close_0 = np.isclose(point, self.lb, rtol=0.0, atol=self.atol)
+        close_1 = np.isclose(point, self.ub, rtol=0.0, atol=self.atol)
         count_of_hit_corners = np.sum(np.logical_or(close_0, close_1))
         return np.equal(count_of_hit_corners, point.shape[0])
 
@@ -180,8 +180,8 @@ class UnitCell(ABC):
             >>> test_point = np.array([0.5, 0.0, 0.0])  # Middle of bottom edge
             >>> is_edge = unit_cell.is_edge(test_point)
         """
-        close_0 = np.isclose(point, self.lb, atol=self.atol)
-        close_1 = np.isclose(point, self.ub, atol=self.atol)
+        close_0 = np.isclose(point, self.lb, rtol=0.0, atol=self.atol)
+        close_1 = np.isclose(point, self.ub, rtol=0.0, atol=self.atol)
         boundary_hits = np.sum(np.logical_or(close_0, close_1))
         return np.logical_and(
             np.equal(boundary_hits, point.shape[0] - 1),
@@ -208,8 +208,8 @@ class UnitCell(ABC):
             >>> test_point = np.array([0.5, 0.5, 0.0])  # Center of bottom face
             >>> is_face = unit_cell.is_face(test_point)
         """
-        close_0 = np.isclose(point, self.lb, atol=self.atol)
-        close_1 = np.isclose(point, self.ub, atol=self.atol)
+        close_0 = np.isclose(point, self.lb, rtol=0.0, atol=self.atol)
+        close_1 = np.isclose(point, self.ub, rtol=0.0, atol=self.atol)
         boundary_hits = np.sum(np.logical_or(close_0, close_1))
         return np.logical_and(
             np.equal(boundary_hits, point.shape[0] - 2),
@@ -322,7 +322,7 @@ class UnitCell(ABC):
 
         def fn(point: np.ndarray) -> bool:
             # Base condition: point lies on the specified face
-            on_face = np.isclose(point[axis], value, atol=self.atol)
+            on_face = np.isclose(point[axis], value, rtol=0.0, atol=self.atol)
 
             # Apply exclusions as needed
             if excluding_corner and excluding_edge:
@@ -386,7 +386,7 @@ class UnitCell(ABC):
             cond = np.ones((), dtype=bool)
             for axis, value in zip(axes, values):
                 cond = np.logical_and(
-                    cond, np.isclose(point[axis], value, atol=self.atol)
+                    cond, np.isclose(point[axis], value, rtol=0.0, atol=self.atol)
                 )
             if excluding_corner:
                 # Exclude corners from the edge mask
@@ -430,7 +430,7 @@ class UnitCell(ABC):
         def fn(point: np.ndarray) -> bool:
             if len(point) != len(values):
                 raise ValueError(f"Point dimension ({len(point)}) must match corner dimension ({len(values)})")
-            return np.all(np.isclose(point, values, atol=self.atol))
+            return np.all(np.isclose(point, values, rtol=0.0, atol=self.atol))
 
         return fn
 
-- 
2.43.0


From 1690e67645e43d7b2081eeaca499a681bab62e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:49 +0000
Subject: [PATCH 21/64] fix: chained periodic pairings produced negative
 reduced indices

---
 feax/flat/pbc.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/feax/flat/pbc.py b/feax/flat/pbc.py
index ac93627..7b5a296 100644
--- a/feax/flat/pbc.py
+++ b/feax/flat/pbc.py
@@ -175,10 +175,14 @@ def prolongation_matrix(
     for i in range(num_total_dofs):
         I.append(i)
         V.append(1.0)
-        if reduced_inds_map[i] < 0:
-            J.append(reduced_inds_map[-reduced_inds_map[i] - 1])
-        else:
-            J.append(reduced_inds_map[i])
+        j = reduced_inds_map[i]
+        steps = 0
+        while j < 0:  # a master may itself be the slave of another pairing
+            j = reduced_inds_map[-j - 1]
+            steps += 1
+            if steps > num_total_dofs:
+                raise ValueError(f"Cyclic periodic pairing at DoF {i}.")
+        J.append(j)
 
     # Create JAX BCOO sparse matrix for compatibility with FEAX ecosystem
     # BCOO format: (values, indices) where indices shape is (nnz, 2)
@@ -370,7 +374,7 @@ def periodic_bc_3D(
     for corner in itertools.product(
         *[[corner_origin[i], corner_origin[i] + L[i]] for i in range(dim)]
     ):
-        if np.allclose(np.array(corner), corner_origin):
+        if np.allclose(np.array(corner), corner_origin, rtol=0.0, atol=unitcell.atol):
             continue
         master_fn = unitcell.corner_function(corner_origin)
         slave_fn = unitcell.corner_function(corner)
@@ -431,7 +435,7 @@ def periodic_bc_2D(
     for corner in itertools.product(
         *[[corner_origin[i], corner_origin[i] + L[i]] for i in range(dim)]
     ):
-        if np.allclose(np.array(corner), corner_origin):
+        if np.allclose(np.array(corner), corner_origin, rtol=0.0, atol=unitcell.atol):
             continue
         master_fn = unitcell.corner_function(corner_origin)
         slave_fn = unitcell.corner_function(corner)
-- 
2.43.0


From 2dd0f4dfb8ff0503135b8ce4bf3d6177cc434ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:46 +0000
Subject: [PATCH 22/64] fix: rounding in the time loop added a sliver step or
 missed t_end

---
 feax/solvers/time_solver.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/feax/solvers/time_solver.py b/feax/solvers/time_solver.py
index d7f070b..c7c6dd1 100644
--- a/feax/solvers/time_solver.py
+++ b/feax/solvers/time_solver.py
@@ -538,13 +538,16 @@ def run(
     dt = time.dt
     step = 0
 
-    while t < time.t_end - 1e-14 * time.dt:
-        # Clamp dt so we land exactly on t_end
-        dt_eff = min(dt, time.t_end - t)
+    while t < time.t_end:
+        # Land exactly on t_end; a remainder within rounding of dt is one step,
+        # not a full step followed by a sliver.
+        remaining = time.t_end - t
+        is_last = remaining <= dt * (1.0 + 1e-6)
+        dt_eff = remaining if is_last else dt
 
         step += 1
         state = pipeline.step(state, t, dt_eff)
-        t += dt_eff
+        t = time.t_end if is_last else t + dt_eff
 
         # Monitor & log
         vals = _record(state, step, t)
-- 
2.43.0


From c7f77d87d80d57b86d3dd2608e83691ee2d148c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:34 +0000
Subject: [PATCH 23/64] fix: sparse patterns lost stored entries whose current
 value is zero

---
 feax/asd.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/feax/asd.py b/feax/asd.py
index 16f5bad..7d11582 100644
--- a/feax/asd.py
+++ b/feax/asd.py
@@ -66,7 +66,9 @@ def _to_scipy_pattern(pattern) -> sp.csr_matrix:
             (onp.ones(pattern.nse, bool), onp.asarray(pattern.indices),
              onp.asarray(pattern.indptr)), shape=pattern.shape)
     elif sp.issparse(pattern):
-        A = pattern.astype(bool)
+        coo = pattern.tocoo()  # stored entries, whatever their current value
+        A = sp.coo_matrix((onp.ones(coo.nnz, bool), (coo.row, coo.col)),
+                          shape=coo.shape)
     elif isinstance(pattern, BCOO):
         idx = onp.asarray(pattern.indices)
         A = sp.coo_matrix((onp.ones(idx.shape[0], bool), (idx[:, 0], idx[:, 1])),
-- 
2.43.0


From 09948eaffd8fccef48c28a06eb3f8077c558b19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:40 +0000
Subject: [PATCH 24/64] fix: sparse buckling lost positive modes behind
 negative ones and non-orthogonal repeated modes

---
 feax/solvers/eigen.py | 48 ++++++++++++++++++++++++-------------------
 1 file changed, 27 insertions(+), 21 deletions(-)

diff --git a/feax/solvers/eigen.py b/feax/solvers/eigen.py
index 57f395e..96b145b 100644
--- a/feax/solvers/eigen.py
+++ b/feax/solvers/eigen.py
@@ -4,7 +4,7 @@ Solves the linear-buckling pencil ``(K + λ K_g) φ = 0`` for the lowest positiv
 buckling factors ``λ`` and their mode shapes, with four forward backends:
 
 * ``solver="sparse"`` (:func:`_sparse_buckling`, **default**) — matrix-free shift-invert
-  ``T = -K⁻¹ K_g`` solved by SciPy ARPACK (:func:`scipy.sparse.linalg.eigs`) with one
+  ``T = -K⁻¹ K_g`` solved by SciPy ARPACK (:func:`scipy.sparse.linalg.eigsh`) with one
   sparse factorization for ``K⁻¹``. ``O(nf · ncv)`` memory, never a dense ``N×N``. Runs
   purely host-side (no nested ``jax.pure_callback``), so it is leak-free under repeated
   calls (e.g. inside topology optimization).
@@ -276,8 +276,8 @@ def _sparse_buckling(K, Kg, free_dofs, num_modes: int = 6, num_matvecs: int = 30
 
         T = -K⁻¹ K_g ,   T φ = μ φ   with   μ = 1/λ,
 
-    and find the largest-magnitude ``μ`` (the smallest positive ``λ``) with ARPACK
-    (:func:`scipy.sparse.linalg.eigs`) driving a ``LinearOperator`` ``v ↦ -K⁻¹(K_g v)``.
+    and find the algebraically largest ``μ`` (the smallest positive ``λ``) with ARPACK
+    (:func:`scipy.sparse.linalg.eigsh` on the symmetric pencil ``-K_g φ = μ K φ``).
     ``K⁻¹`` is one sparse factorization (CHOLMOD / SuperLU). Everything runs in plain
     SciPy/NumPy — **no** ``jax.pure_callback`` inside the eigensolve — so repeated calls
     in an optimization loop do not accumulate runtime callbacks / factors (no leak).
@@ -311,34 +311,40 @@ def _sparse_buckling(K, Kg, free_dofs, num_modes: int = 6, num_matvecs: int = 30
     free = onp.asarray(free_dofs)
     nf = len(free)
     Kg_sp = _restrict_csr(Kg, free)                  # reduced sub-matrices (pure SciPy)
-    solve, backend = _make_host_solve(_restrict_csr(K, free))   # factorize K once (host)
+    K_sp = _restrict_csr(K, free)
+    K_sp = (0.5 * (K_sp + K_sp.T)).tocsr()           # clean round-off asymmetry
+    solve, backend = _make_host_solve(K_sp)          # factorize K once (host)
 
     def matvec(v):                                   # T v = -K⁻¹ (K_g v)
         return -solve(Kg_sp @ onp.asarray(v, dtype=onp.float64))
 
-    T = spla.LinearOperator((nf, nf), matvec=matvec, dtype=onp.float64)
-    k = int(min(num_modes + 4, nf - 2))
-    if k < 1:
-        raise BucklingConvergenceError(
-            f"too few free DoFs ({nf}) for the sparse eigensolve; use solver='dense'.")
-    ncv = int(min(nf - 1, max(num_matvecs, 2 * k + 1)))
+    # T is self-adjoint in the K inner product: the symmetric Lanczos with M = K asks
+    # for the algebraically largest μ (negative factors cannot crowd out the positive
+    # ones) and returns K-orthonormal vectors, also inside repeated eigenvalues.
+    k = int(min(num_modes, nf - 1))
+    ncv = int(min(nf, max(num_matvecs, 2 * k + 1)))
     v0 = onp.random.RandomState(seed).randn(nf)
     if verbose:
         print(f"[buckling/sparse] ARPACK shift-invert (K⁻¹={backend}) | "
               f"N={N}, free={nf}, k={k}, ncv={ncv}")
-    try:
-        vals, vecs = spla.eigs(T, k=k, which="LM", ncv=ncv, v0=v0)
-    except spla.ArpackNoConvergence as e:            # use whatever converged
-        vals, vecs = e.eigenvalues, e.eigenvectors
-        if vals.size == 0:
-            raise BucklingConvergenceError(
-                f"ARPACK did not converge (k={k}, ncv={ncv}); increase num_matvecs "
-                "or check that K is SPD on the free DoFs.") from e
+    if num_modes >= nf:                              # ARPACK cannot return all nf pairs
+        import scipy.linalg as sla
+        vals, vecs = sla.eigh(-Kg_sp.toarray(), K_sp.toarray())
+    else:
+        try:
+            vals, vecs = spla.eigsh(
+                -Kg_sp, k=k, M=K_sp, which="LA", ncv=ncv, v0=v0,
+                Minv=spla.LinearOperator((nf, nf), matvec=solve, dtype=onp.float64))
+        except spla.ArpackNoConvergence as e:        # use whatever converged
+            vals, vecs = e.eigenvalues, e.eigenvectors
+            if vals.size == 0:
+                raise BucklingConvergenceError(
+                    f"ARPACK did not converge (k={k}, ncv={ncv}); increase num_matvecs "
+                    "or check that K is SPD on the free DoFs.") from e
 
     mu = vals.real
-    real_pair = onp.abs(vals.imag) <= 1e-8 * (onp.abs(vals.real) + 1e-30)
-    lam = onp.where(mu != 0.0, 1.0 / mu, onp.inf)
-    valid = real_pair & onp.isfinite(lam) & (lam > 1e-12)
+    lam = onp.where(mu != 0.0, 1.0 / onp.where(mu != 0.0, mu, 1.0), onp.inf)
+    valid = onp.isfinite(lam) & (lam > 1e-12)
     order = onp.argsort(onp.where(valid, lam, onp.inf))
     order = order[valid[order]][:num_modes]
 
-- 
2.43.0


From 31aa768a5e65f58cb52b4a6fe63d89275ff69ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:41 +0000
Subject: [PATCH 25/64] fix: missing buckling modes turned the gradient of the
 found ones into NaN

---
 feax/solvers/eigen.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/feax/solvers/eigen.py b/feax/solvers/eigen.py
index 96b145b..d52df57 100644
--- a/feax/solvers/eigen.py
+++ b/feax/solvers/eigen.py
@@ -863,6 +863,8 @@ def create_linear_buckling_solver(free_dofs, num_modes: int = 3, solver: str = "
     def _bwd(res, cts):
         K, Kg, lam, phi = res
         lam_bar, _modes_bar = cts                     # mode-shape cotangent ignored
+        lam = jnp.where(jnp.isfinite(lam), lam, 0.0)  # padded (missing) modes: no gradient
+        lam_bar = jnp.where(lam > 0.0, lam_bar, 0.0)
         K_cot = _outer_cotangent(K, phi, lam_bar * lam, free)
         Kg_cot = _outer_cotangent(Kg, phi, lam_bar * lam * lam, free)
         return (K_cot, Kg_cot)
-- 
2.43.0


From d925c0f1f2dc1a6821ad4634359cbf65548c2af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:37 +0000
Subject: [PATCH 26/64] fix: iterating over a Solution never ended

---
 feax/solution.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/feax/solution.py b/feax/solution.py
index 81c5316..cd42272 100644
--- a/feax/solution.py
+++ b/feax/solution.py
@@ -156,6 +156,14 @@ class Solution:
         :meth:`field` for typed per-variable access."""
         return self.dofs[key]
 
+    def __len__(self):
+        return len(self.dofs)
+
+    def __iter__(self):
+        # JAX clamps out-of-range indices, so the implicit __getitem__ protocol
+        # would never end.
+        return iter(self.dofs)
+
     def node_var(self, component: Optional[int] = None, var_index: int = 0):
         """The solved field as a ``(num_nodes,)`` node variable — directly
         usable in the next solve's ``TracedParams`` (staggered chaining).
-- 
2.43.0


From 9b9318bbd3d4245fc01ea59dc510ceec08c3dd25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:43 +0000
Subject: [PATCH 27/64] fix: grid multigrid did not converge for small loads or
 stiff units

---
 feax/solvers/cmg.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/feax/solvers/cmg.py b/feax/solvers/cmg.py
index 115c552..55ebc54 100644
--- a/feax/solvers/cmg.py
+++ b/feax/solvers/cmg.py
@@ -278,7 +278,7 @@ class NarrowBandCMG:
         Dinvs += [None if coarse["cudss"] else self._dinv_j(P[-1])]
         f0 = P[0]["free"]; b = b * f0; u = u0 * f0
         A = lambda x: self._mv_j(x, P[0])
-        r = b - A(u); r0 = jnp.max(jnp.abs(r)) + 1e-30; tol = self.cg_tol * r0
+        r = b - A(u); r0 = jnp.max(jnp.abs(r)); tol = self.cg_tol * r0
         z = self._vcycle_j(r, P, Dinvs, token, coarse, 0); rz = jnp.vdot(r, z)
 
         def cond(st):
@@ -287,14 +287,15 @@ class NarrowBandCMG:
 
         def body(st):
             u, r, p, rz, k = st
-            Ap = A(p); alpha = rz / (jnp.vdot(p, Ap) + 1e-30)
+            Ap = A(p); pAp = jnp.vdot(p, Ap)
+            alpha = jnp.where(pAp > 0, rz / jnp.where(pAp > 0, pAp, 1.0), 0.0)
             u = u + alpha * p; r = r - alpha * Ap
             z = self._vcycle_j(r, P, Dinvs, token, coarse, 0); rz_new = jnp.vdot(r, z)
-            p = z + (rz_new / (rz + 1e-30)) * p
+            p = z + jnp.where(rz != 0, rz_new / jnp.where(rz != 0, rz, 1.0), 0.0) * p
             return (u, r, p, rz_new, k + 1)
 
         u, r, p, rz, k = jax.lax.while_loop(cond, body, (u, r, z, rz, 0))
-        return u, k, jnp.max(jnp.abs(r)) / r0
+        return u, k, jnp.max(jnp.abs(r)) / jnp.where(r0 > 0, r0, 1.0)
 
     # === convenience API: loads, sensitivity, combined solve ================
     def compact_nodes(self, levels, node_ids):
-- 
2.43.0


From a8c8452ad450f7fc42b744fff1b2912c27763751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:55 +0000
Subject: [PATCH 28/64] fix: grid multigrid preconditioner was not symmetric,
 so CG could stall

---
 feax/solvers/cmg.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/feax/solvers/cmg.py b/feax/solvers/cmg.py
index 55ebc54..f705473 100644
--- a/feax/solvers/cmg.py
+++ b/feax/solvers/cmg.py
@@ -224,10 +224,10 @@ class NarrowBandCMG:
         blk = jnp.where(fn[:, None, None], blk, jnp.eye(3)[None])
         return jnp.linalg.inv(blk)
 
-    def _smooth_j(self, u, b, lev, Dinv, sweeps):
+    def _smooth_j(self, u, b, lev, Dinv, sweeps, colors=range(8)):
         CN = lev["color"].shape[0]
         for _ in range(sweeps):
-            for c in range(8):
+            for c in colors:
                 r = (b - self._mv_j(u, lev)) * lev["free"]
                 du = jnp.einsum("nab,nb->na", Dinv, r.reshape(CN, 3))
                 un = u.reshape(CN, 3) + (lev["color"] == c)[:, None] * du
@@ -270,7 +270,8 @@ class NarrowBandCMG:
         ecn = ec.reshape(CNc, 3)
         uf = (lev["Pw"][:, :, None] * ecn[lev["Pidx"]]).sum(axis=1)
         u = u + uf.reshape(-1) * lev["free"]
-        return self._smooth_j(u, b, lev, Dinvs[l], self.post)
+        # reversed colour order: the V-cycle is the symmetric preconditioner CG needs
+        return self._smooth_j(u, b, lev, Dinvs[l], self.post, range(7, -1, -1))
 
     def _solve_j(self, P, b, u0, token, coarse):
         Dinvs = [self._dinv_j(P[l]) for l in range(self.L - 1)]
-- 
2.43.0


From a03f4c70fccf377ee5c3bb9b747ac29b09de924e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:55 +0000
Subject: [PATCH 29/64] fix: grid multigrid ignored the grid spacing

---
 feax/solvers/cmg.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/feax/solvers/cmg.py b/feax/solvers/cmg.py
index f705473..f321539 100644
--- a/feax/solvers/cmg.py
+++ b/feax/solvers/cmg.py
@@ -42,9 +42,10 @@ def _design_of(rho_or_tp):
     return rho_or_tp
 
 
-def make_KE_3d(nu=0.3, E=1.0):
-    """24x24 stiffness of a unit-cube trilinear hex; local node order = the 8
-    corners (dx,dy,dz), dz fastest — matches the compact edof in this module."""
+def make_KE_3d(nu=0.3, E=1.0, size=(1.0, 1.0, 1.0)):
+    """24x24 stiffness of a trilinear brick of edge lengths ``size`` (default: unit
+    cube); local node order = the 8 corners (dx,dy,dz), dz fastest — matches the
+    compact edof in this module."""
     lam = E * nu / ((1 + nu) * (1 - 2 * nu))
     mu = E / (2 * (1 + nu))
     D = onp.array([[lam + 2*mu, lam, lam, 0, 0, 0], [lam, lam + 2*mu, lam, 0, 0, 0],
@@ -62,7 +63,7 @@ def make_KE_3d(nu=0.3, E=1.0):
             dN[0, a] = 0.125 * sx * (1 + sy*eta) * (1 + sz*ze)
             dN[1, a] = 0.125 * sy * (1 + sx*xi) * (1 + sz*ze)
             dN[2, a] = 0.125 * sz * (1 + sx*xi) * (1 + sy*eta)
-        J = dN @ corners
+        J = dN @ (corners * onp.asarray(size, float))
         detJ = onp.linalg.det(J)
         dNxyz = onp.linalg.solve(J, dN)
         B = onp.zeros((6, 24))
@@ -122,7 +123,7 @@ class NarrowBandCMG:
         self.nelx, self.nely, self.nelz = grid.nx, grid.ny, grid.nz
         self.L = n_levels or auto_levels((grid.nx, grid.ny, grid.nz))
         self.fixed_pred = fixed_pred
-        self.KE = onp.asarray(make_KE_3d(nu))
+        self.KE = onp.asarray(make_KE_3d(nu, size=grid.spacing))
         self.KEd = _node_diag_blocks_3d(self.KE)
         self.Emin, self.E0, self.penal = Emin, E0, penal
         self.pre, self.post = pre, post
-- 
2.43.0


From 83499fbc1d4999118e07fc89c45a490f0e1f2b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:55 +0000
Subject: [PATCH 30/64] fix: grid multigrid reordered the active cells under
 the caller's design vector

---
 feax/solvers/cmg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/feax/solvers/cmg.py b/feax/solvers/cmg.py
index f321539..5f6d8cf 100644
--- a/feax/solvers/cmg.py
+++ b/feax/solvers/cmg.py
@@ -152,7 +152,7 @@ class NarrowBandCMG:
 
     def build(self, cells0):
         levels = []
-        cells = onp.sort(onp.asarray(cells0, onp.int64))
+        cells = onp.asarray(cells0, onp.int64).ravel()    # design order = caller order
         nx, ny, nz = self.nelx, self.nely, self.nelz
         for l in range(self.L):
             nyz, nz1 = ny * nz, nz + 1
-- 
2.43.0


From a29298e62fca78faddc9d0449a1f5df125da6849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:32 +0000
Subject: [PATCH 31/64] fix: StructuredGrid.fit with dims and origin did not
 reach the far end of the points

---
 feax/spgrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/feax/spgrid.py b/feax/spgrid.py
index 738680a..9fc3487 100644
--- a/feax/spgrid.py
+++ b/feax/spgrid.py
@@ -68,7 +68,7 @@ class StructuredGrid:
         elif dims is not None:
             dims = onp.asarray(dims, int)
             org = lo if origin is None else onp.asarray(origin, float)
-            spacing = (hi - lo) / onp.maximum(dims, 1)
+            spacing = (hi - org) / onp.maximum(dims, 1)
         else:
             raise ValueError("fit requires either h (cell size) or dims")
         if align:
-- 
2.43.0


From c495034b42f56ed2d1f7937ef7e646fe707d99c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:32 +0000
Subject: [PATCH 32/64] fix: points on the upper faces of a StructuredGrid were
 reported outside it

---
 feax/spgrid.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/feax/spgrid.py b/feax/spgrid.py
index 9fc3487..3807238 100644
--- a/feax/spgrid.py
+++ b/feax/spgrid.py
@@ -78,7 +78,11 @@ class StructuredGrid:
     def point_cells(self, points):
         """Cell id containing each point; -1 for points outside the grid."""
         p = onp.asarray(points, float).reshape(-1, 3)
-        ijk = onp.floor((p - self.origin) / self.spacing).astype(onp.int64)
+        t = (p - self.origin) / self.spacing
+        dims = onp.array([self.nx, self.ny, self.nz])
+        ijk = onp.floor(t).astype(onp.int64)
+        # points on the grid's upper faces belong to the last cell
+        ijk = onp.where((ijk == dims) & (t <= dims + 1e-9), dims - 1, ijk)
         inb = ((ijk[:, 0] >= 0) & (ijk[:, 0] < self.nx) & (ijk[:, 1] >= 0)
                & (ijk[:, 1] < self.ny) & (ijk[:, 2] >= 0) & (ijk[:, 2] < self.nz))
         cid = (ijk[:, 0] * self.ny + ijk[:, 1]) * self.nz + ijk[:, 2]
-- 
2.43.0


From 84bee5ea7db3dcdee9023ceb20bb0e2488443cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:32 +0000
Subject: [PATCH 33/64] fix: SparseDesign.gather wrapped large cell ids onto
 stored ones

---
 feax/spgrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/feax/spgrid.py b/feax/spgrid.py
index 3807238..b441df6 100644
--- a/feax/spgrid.py
+++ b/feax/spgrid.py
@@ -229,7 +229,7 @@ class SparseDesign:
 
     def gather(self, query_ids, default=0.0):
         """Values for ``query_ids``; ids not in the store get ``default``."""
-        q = onp.asarray(query_ids, onp.int64).ravel().astype(onp.int32)
+        q = onp.asarray(query_ids, onp.int64).ravel()
         if self.ids.size == 0:
             return onp.full(q.shape, default, float)
         pos = onp.searchsorted(self.ids, q)
-- 
2.43.0


From 574cced6a4e400a9236abb6e04e3fee29427a663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:32 +0000
Subject: [PATCH 34/64] fix: NarrowBand.gather_cells failed on a one-cell
 domain

---
 feax/narrowband.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/feax/narrowband.py b/feax/narrowband.py
index 3d2094e..3728bb0 100644
--- a/feax/narrowband.py
+++ b/feax/narrowband.py
@@ -141,8 +141,8 @@ class NarrowBand:
 
     def gather_cells(self, full_cell_field):
         """Full per-cell array -> band per-cell array (active cells only)."""
-        return onp.asarray(full_cell_field).reshape(self.num_full_cells, -1
-                                                    ).squeeze()[self.active_cells]
+        f = onp.asarray(full_cell_field).reshape(self.num_full_cells, -1)
+        return (f[:, 0] if f.shape[1] == 1 else f)[self.active_cells]
 
     def scatter_cells(self, band_cell_field, fill=0.0):
         """Band per-cell array -> full per-cell array (inactive filled)."""
-- 
2.43.0


From 715877345f7b55d828b36a705fb4281aaefc8786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:52 +0000
Subject: [PATCH 35/64] fix: Helmholtz filter returned zero on small meshes
 (absolute solver tolerance)

---
 feax/gene/filters.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/feax/gene/filters.py b/feax/gene/filters.py
index 79dcf89..a88f222 100644
--- a/feax/gene/filters.py
+++ b/feax/gene/filters.py
@@ -75,6 +75,7 @@ def create_helmholtz_filter(mesh, radius, P=None, solver_options=None):
         solver_options = fe.KrylovSolverOptions(
             solver="cg",
             tol=1e-8,
+            atol=0.0,  # the right-hand side scales with the element volume
             verbose=False,
         )
 
-- 
2.43.0


From ad8316b9f6b6b7aff50a6268a866a4f29677ecc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:52 +0000
Subject: [PATCH 36/64] fix: Helmholtz filter rejected quadratic meshes

---
 feax/gene/filters.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/feax/gene/filters.py b/feax/gene/filters.py
index a88f222..ebf1cae 100644
--- a/feax/gene/filters.py
+++ b/feax/gene/filters.py
@@ -79,15 +79,10 @@ def create_helmholtz_filter(mesh, radius, P=None, solver_options=None):
             verbose=False,
         )
 
-    # Detect element type
-    if mesh.points.shape[1] == 2:
-        # 2D mesh
-        ele_type = 'QUAD4' if mesh.cells.shape[1] == 4 else 'TRI3'
-        dim = 2
-    else:
-        # 3D mesh
-        ele_type = 'HEX8' if mesh.cells.shape[1] == 8 else 'TET4'
-        dim = 3
+    # Detect element type (linear meshes by node count, others as declared)
+    dim = mesh.points.shape[1]
+    linear_types = {4: 'QUAD4', 3: 'TRI3'} if dim == 2 else {8: 'HEX8', 4: 'TET4'}
+    ele_type = linear_types.get(mesh.cells.shape[1], mesh.ele_type)
 
     # Create problem (done once)
     problem = HelmholtzFilterProblem(
-- 
2.43.0


From a65cc02ddd8c9a54213163d17a83f5670a3cd688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:52 +0000
Subject: [PATCH 37/64] fix: density filter lost mass when the radius is small
 in absolute units

---
 feax/gene/filters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/feax/gene/filters.py b/feax/gene/filters.py
index ebf1cae..5ff3ea2 100644
--- a/feax/gene/filters.py
+++ b/feax/gene/filters.py
@@ -319,7 +319,7 @@ def create_density_filter(mesh, radius: float, weight_type: str = "cone") -> Cal
         # Sparse matrix-vector multiplication for weighted averaging
         rho_weighted = weight_matrix @ rho
         # Normalize by row sums
-        rho_filtered = rho_weighted / (row_sums + 1e-12)
+        rho_filtered = rho_weighted / np.where(row_sums > 0.0, row_sums, 1.0)
         return rho_filtered
 
     return filter_fn
-- 
2.43.0


From 7d1263c45090187176d008e499a17b4d739adc69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:52 +0000
Subject: [PATCH 38/64] fix: sensitivity filter missed neighbours when the
 active cells are not sorted

---
 feax/gene/filters.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/feax/gene/filters.py b/feax/gene/filters.py
index 5ff3ea2..99b783e 100644
--- a/feax/gene/filters.py
+++ b/feax/gene/filters.py
@@ -445,6 +445,7 @@ def create_sensitivity_filter(grid, rmin: float):
     def filt(active_cells, rho_active, dc_active):
         ac = onp.asarray(active_cells, onp.int64)
         na = ac.size
+        order = onp.argsort(ac)
         ex, ey, ez = grid.cell_ijk(ac)
         rho_pad = onp.concatenate([onp.asarray(rho_active, float), [0.0]])   # sink at na
         dc_pad = onp.concatenate([onp.asarray(dc_active, float), [0.0]])
@@ -459,7 +460,7 @@ def create_sensitivity_filter(grid, rmin: float):
             Hs += onp.where(inb, w, 0.0)
             cell = grid.cell_id(onp.clip(jx, 0, nx - 1), onp.clip(jy, 0, ny - 1),
                                 onp.clip(jz, 0, nz - 1))
-            pos = onp.clip(onp.searchsorted(ac, cell), 0, na - 1)
+            pos = order[onp.clip(onp.searchsorted(ac, cell, sorter=order), 0, na - 1)]
             hit = inb & (ac[pos] == cell)
             idx = onp.where(hit, pos, na)                # miss -> sink (0)
             num += w * rho_pad[idx] * dc_pad[idx]
-- 
2.43.0


From 0bb39a57d297ae10c43f9ed0de1f2f455164c53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:52 +0000
Subject: [PATCH 39/64] fix: volume fraction read quadrature densities as nodal
 ones when the counts coincide

---
 feax/gene/responses.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/feax/gene/responses.py b/feax/gene/responses.py
index 960d5f5..96e95e0 100644
--- a/feax/gene/responses.py
+++ b/feax/gene/responses.py
@@ -230,7 +230,10 @@ def create_volume_fn(problem):
         rho_flat = rho_array.ravel()
 
         # Determine input type based on size
-        if rho_flat.shape[0] == num_nodes:
+        if num_quads > 1 and rho_array.shape == (num_cells, num_quads):
+            # Already at quadrature points
+            total_volume = np.sum(rho_array * JxW)
+        elif rho_flat.shape[0] == num_nodes:
             # Node-based density: interpolate to quadrature points using shape functions
             # Gather node values for each cell: (num_cells, num_nodes_per_cell)
             rho_cell_nodes = rho_flat[cells]
-- 
2.43.0


From 4a1b9d1b195444899c9ce65845ccb03183c8e22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:52 +0000
Subject: [PATCH 40/64] fix: compliance applied a numpy array of surface loads
 whole to every surface

---
 feax/gene/responses.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/feax/gene/responses.py b/feax/gene/responses.py
index 96e95e0..6a0de3d 100644
--- a/feax/gene/responses.py
+++ b/feax/gene/responses.py
@@ -5,6 +5,7 @@ Response function generators for topology optimization and analysis.
 
 import jax
 import jax.numpy as np
+import numpy as onp
 
 
 def create_compliance_fn(problem, surface_load_params=None):
@@ -37,7 +38,7 @@ def create_compliance_fn(problem, surface_load_params=None):
     # Handle surface load parameters
     if surface_load_params is None:
         surface_load_params = [1.0] * num_surfaces
-    elif not isinstance(surface_load_params, (list, tuple, np.ndarray)):
+    elif not isinstance(surface_load_params, (list, tuple, np.ndarray, onp.ndarray)):
         # Single value for all surfaces
         surface_load_params = [surface_load_params] * num_surfaces
     elif len(surface_load_params) != num_surfaces:
-- 
2.43.0


From 4bcd2f4087a47bf3273778b55581f95d5cda4287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:58 +0000
Subject: [PATCH 41/64] fix: constraints kept the old mesh after a remesh with
 the same node count

---
 feax/gene/optimizer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/feax/gene/optimizer.py b/feax/gene/optimizer.py
index ab79b5e..bbbf8f8 100644
--- a/feax/gene/optimizer.py
+++ b/feax/gene/optimizer.py
@@ -257,7 +257,11 @@ def _compile(pipeline, constraints, use_jit):
 
     compiled_constraints = []
     for name, method, target, ctype in constraints:
-        fn_jit = wrap(method)
+        # jax.jit caches by function: a fresh wrapper, so that the state of the
+        # current build() is traced even when a remesh keeps the array shapes.
+        def fn(rho, _method=method, **params):
+            return _method(rho, **params)
+        fn_jit = wrap(fn)
         grad_fn = wrap(jax.grad(method))
         compiled_constraints.append((name, fn_jit, grad_fn, target, ctype))
 
-- 
2.43.0


From f1a947d7036e3f8284784128f9b8fc8e8095932a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:58 +0000
Subject: [PATCH 42/64] fix: optimization stopped with an error when the
 initial design was outside its bounds

---
 feax/gene/optimizer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/feax/gene/optimizer.py b/feax/gene/optimizer.py
index bbbf8f8..567dd70 100644
--- a/feax/gene/optimizer.py
+++ b/feax/gene/optimizer.py
@@ -353,7 +353,7 @@ def run(
         if ctype == 'le':
             default_init = min(default_init, target)
     x = (onp.full(mesh.points.shape[0], default_init)
-         if rho_init is None else onp.array(rho_init))
+         if rho_init is None else onp.array(rho_init, dtype=float))
 
     # Passive design regions: pin their values (excluded from the optimisation).
     _n0 = mesh.points.shape[0]
@@ -541,6 +541,9 @@ def run(
 
         opt.set_maxeval(budget)
 
+        # NLopt rejects a start outside the bounds
+        x = onp.clip(x, opt.get_lower_bounds(), opt.get_upper_bounds())
+
         try:
             x = opt.optimize(x)
         except nlopt.RoundoffLimited:
-- 
2.43.0


From 80601038af5bed9e7ba5ca21dc0c6ef5d09edde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:58 +0000
Subject: [PATCH 43/64] fix: a continuation stepping away from its final value
 was not clamped

---
 feax/gene/optimizer.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/feax/gene/optimizer.py b/feax/gene/optimizer.py
index 567dd70..50d0ab7 100644
--- a/feax/gene/optimizer.py
+++ b/feax/gene/optimizer.py
@@ -163,9 +163,8 @@ class Continuation:
         """Compute parameter value at a given iteration."""
         n = max(0, iteration // self.update_every)
         v = self.initial + self.step * n
-        if self.final >= self.initial:
-            return min(v, self.final)
-        return max(v, self.final)
+        lo, hi = min(self.initial, self.final), max(self.initial, self.final)
+        return min(max(v, lo), hi)
 
 
 @dataclass
-- 
2.43.0


From 3ed315d5755c042051e29b4260f7a5a7e19bd7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:58 +0000
Subject: [PATCH 44/64] fix: optimality-criteria update missed the volume
 target for large sensitivities

---
 feax/gene/narrowband.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/feax/gene/narrowband.py b/feax/gene/narrowband.py
index f71815d..7f9aa27 100644
--- a/feax/gene/narrowband.py
+++ b/feax/gene/narrowband.py
@@ -52,13 +52,21 @@ def oc_update(rho, dc, volfrac, *, dv=1.0, move=0.2, xmin=1e-3, xmax=1.0,
     dc = onp.asarray(dc, float)
     dv = onp.asarray(dv, float) * onp.ones_like(rho)
     target = volfrac * dv.sum()
+    def update(lam):
+        be = onp.maximum(0.0, -dc / (dv * lam + 1e-30))
+        x = onp.clip(rho * be ** damping, rho - move, rho + move)
+        return onp.clip(x, xmin, xmax)
+
     l1, l2 = 0.0, float(l2_init)
+    # The multiplier scales with dc: widen the bracket until it holds the target
+    # (or the update no longer depends on it, i.e. the target is out of reach).
+    while (l2 < 1e300 and float((update(l2) * dv).sum()) > target
+           and onp.any(update(l2) > update(onp.inf))):
+        l1, l2 = l2, 10.0 * l2
     xnew = rho
     while (l2 - l1) / (l1 + l2 + 1e-30) > bisect_tol:
         lmid = 0.5 * (l1 + l2)
-        be = onp.maximum(0.0, -dc / (dv * lmid + 1e-30))
-        xnew = onp.clip(rho * be ** damping, rho - move, rho + move)
-        xnew = onp.clip(xnew, xmin, xmax)
+        xnew = update(lmid)
         if float((xnew * dv).sum()) > target:
             l1 = lmid
         else:
-- 
2.43.0


From c5b0ae2558731d156b2af6ac0117f1c2ee967f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:26 +0000
Subject: [PATCH 45/64] fix: DensityField mixed up the mid-side nodes of
 quadratic elements

---
 feax/gene/sdf.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/feax/gene/sdf.py b/feax/gene/sdf.py
index f6943a9..c89d144 100644
--- a/feax/gene/sdf.py
+++ b/feax/gene/sdf.py
@@ -29,7 +29,7 @@ import meshio
 import numpy as onp
 from scipy.spatial import cKDTree
 
-from feax.basis import get_elements
+from feax.basis import get_elements, tabulate_nodal
 
 
 # ---------------------------------------------------------------------------
@@ -515,7 +515,8 @@ class DensityField(SDF):
         # --- basix element info ---
         family, basix_ele, _, _, degree, re_order = get_elements(ele_type)
         self._basix_ele = basix_ele
-        self._re_order = onp.array(re_order)
+        # mesh node of every basix node (get_elements gives the inverse)
+        self._re_order = onp.argsort(re_order)
         self._element = basix.create_element(family, basix_ele, degree)
         self._ref_centroid = basix.geometry(basix_ele).mean(axis=0)
 
@@ -526,7 +527,7 @@ class DensityField(SDF):
 
         # --- Precompute per-element data ---
         # Node coordinates per element: (E, nodes_per_elem, dim)
-        self._elem_nodes = points[cells[:, re_order]]
+        self._elem_nodes = points[cells[:, self._re_order]]
 
         if self._linear_simplex:
             # Direct barycentric: x = v0 + T @ lam
@@ -610,7 +611,7 @@ class DensityField(SDF):
         # Newton iteration: find xi s.t. x(xi) = p
         xi = self._ref_centroid.copy()
         for _ in range(self._newton_max_iter):
-            tab = self._element.tabulate(1, xi.reshape(1, -1))
+            tab = tabulate_nodal(self._element, 1, xi.reshape(1, -1))
             N = tab[0, 0, :, 0]              # (nodes,)  basix order
             dN = tab[1:, 0, :, 0]             # (dim, nodes)  basix order
 
@@ -642,7 +643,7 @@ class DensityField(SDF):
         """
         if self._linear_simplex:
             return onp.concatenate([[1.0 - xi.sum()], xi])
-        tab = self._element.tabulate(0, xi.reshape(1, -1))
+        tab = tabulate_nodal(self._element, 0, xi.reshape(1, -1))
         return tab[0, 0, :, 0]  # basix order
 
     def _ref_element_distance(self, xi):
@@ -788,7 +789,7 @@ class DensityField(SDF):
 
         for _ in range(self._newton_max_iter):
             # tabulate at all xi simultaneously — basix order
-            tab = self._element.tabulate(1, xi)
+            tab = tabulate_nodal(self._element, 1, xi)
             # tab shape: (1+dim, N, nodes, 1)
             N_vals = tab[0, :, :, 0]    # (N, nodes) basix order
             dN = tab[1:, :, :, 0]        # (dim, N, nodes) basix order
@@ -827,7 +828,7 @@ class DensityField(SDF):
             lam0 = 1.0 - xi_batch.sum(axis=1, keepdims=True)  # (N, 1)
             return onp.concatenate([lam0, xi_batch], axis=1)
 
-        tab = self._element.tabulate(0, xi_batch)
+        tab = tabulate_nodal(self._element, 0, xi_batch)
         return tab[0, :, :, 0]  # basix order
 
     # -- Bounds --------------------------------------------------------------
-- 
2.43.0


From e81df5aa6ecf66535eb24a01e0121236d143a66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:26 +0000
Subject: [PATCH 46/64] fix: DensityField accepted unconverged inverse mappings
 in batches and on small meshes

---
 feax/gene/sdf.py | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/feax/gene/sdf.py b/feax/gene/sdf.py
index c89d144..92edc4f 100644
--- a/feax/gene/sdf.py
+++ b/feax/gene/sdf.py
@@ -540,6 +540,9 @@ class DensityField(SDF):
 
         # Newton iteration settings
         self._newton_max_iter = 1 if self._linear_simplex else 20
+        # relative to the element size
+        self._elem_size = onp.linalg.norm(
+            onp.ptp(self._elem_nodes, axis=1), axis=1)  # (E,)
         self._newton_tol = 1e-10
 
         # --- Spatial search structures ---
@@ -620,9 +623,9 @@ class DensityField(SDF):
 
             residual = x_current - p
             res_norm = onp.linalg.norm(residual)
-            if not onp.isfinite(res_norm) or res_norm > 1e10:
+            if not onp.isfinite(res_norm) or res_norm > 1e10 * self._elem_size[ei]:
                 return None  # diverged
-            if res_norm < self._newton_tol:
+            if res_norm < self._newton_tol * self._elem_size[ei]:
                 return xi
 
             try:
@@ -632,7 +635,7 @@ class DensityField(SDF):
             xi = xi - delta
 
         # Accept if close enough after all iterations
-        if onp.isfinite(res_norm) and res_norm < 1e-6:
+        if onp.isfinite(res_norm) and res_norm < 1e-6 * self._elem_size[ei]:
             return xi
         return None
 
@@ -700,8 +703,6 @@ class DensityField(SDF):
 
             # --- Batch inverse map ---
             xi_batch = self._inverse_map_batch(points[idx], ei)
-            if xi_batch is None:
-                continue
 
             # --- Containment check ---
             inside = _inside_ref_element_batch(xi_batch, self._basix_ele)
@@ -771,7 +772,7 @@ class DensityField(SDF):
     def _inverse_map_batch(self, pts, ei):
         """Batch inverse mapping for ``pts`` (N, dim) into elements ``ei``.
 
-        Returns reference coordinates ``(N, dim)`` or None.
+        Returns reference coordinates ``(N, dim)``, NaN where Newton diverges.
         Uses basix-ordered node coordinates and raw (basix-ordered)
         shape functions — no re-ordering needed since both match.
         """
@@ -800,17 +801,17 @@ class DensityField(SDF):
             J = onp.einsum('dnj,njk->ndk', dN, elem_pts)  # (N, dim, dim)
 
             residual = x_current - pts  # (N, dim)
-            max_res = onp.max(onp.linalg.norm(residual, axis=1))
-            if max_res < self._newton_tol:
+            res = onp.linalg.norm(residual, axis=1) / self._elem_size[ei]
+            lost = ~onp.isfinite(res) | (res > 1e10) | (onp.linalg.det(J) == 0.0)
+            xi[lost] = onp.nan
+            todo = ~lost & (res >= self._newton_tol)
+            if not todo.any():
                 break
 
-            try:
-                # solve expects (N, dim, dim) @ (N, dim, 1) → (N, dim, 1)
-                delta = onp.linalg.solve(J, residual[..., None])[..., 0]
-            except onp.linalg.LinAlgError:
-                return None
-            xi = onp.ascontiguousarray(xi - delta)
+            # solve expects (N, dim, dim) @ (N, dim, 1) → (N, dim, 1)
+            xi[todo] -= onp.linalg.solve(J[todo], residual[todo][..., None])[..., 0]
 
+        xi[~(res < 1e-6)] = onp.nan  # not converged (also NaN)
         return xi
 
     def _shape_vals_batch(self, xi_batch):
-- 
2.43.0


From bdc67be801be9f42d5a38994e98382e8e922a936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:26 +0000
Subject: [PATCH 47/64] fix: DensityField missed the containing element on
 graded or stretched meshes

---
 feax/gene/_locate.py | 42 ++++++++++++++++++++++++++++++++++++++++++
 feax/gene/sdf.py     | 26 +++++++++++++++++++++++++-
 2 files changed, 67 insertions(+), 1 deletion(-)
 create mode 100644 feax/gene/_locate.py

diff --git a/feax/gene/_locate.py b/feax/gene/_locate.py
new file mode 100644
index 0000000..e4af33d
--- /dev/null
+++ b/feax/gene/_locate.py
@@ -0,0 +1,42 @@
+"""Spatial search for the elements that may contain a point."""
+
+import numpy as onp
+from scipy.spatial import cKDTree
+
+
+class SphereIndex:
+    """Elements by bounding sphere, grouped by size so graded meshes stay cheap.
+
+    Parameters
+    ----------
+    elem_points : ndarray, shape (num_elems, num_nodes, dim)
+        Node coordinates of every element.
+    grow : float
+        Factor on the sphere radius (elements with curved sides reach beyond
+        their nodes).
+    """
+
+    def __init__(self, elem_points, grow=1.0):
+        centroids = elem_points.mean(axis=1)
+        radii = grow * onp.linalg.norm(
+            elem_points - centroids[:, None, :], axis=2).max(axis=1)
+        level = onp.floor(onp.log2(onp.maximum(radii, onp.finfo(float).tiny)))
+        self._groups = []
+        for lv in onp.unique(level):
+            ids = onp.where(level == lv)[0]
+            self._groups.append(
+                (ids, cKDTree(centroids[ids]), radii[ids].max() * (1.0 + 1e-6)))
+
+    def pairs(self, points):
+        """All (point index, element index) pairs whose sphere holds the point."""
+        point_ids, elem_ids = [], []
+        for ids, tree, radius in self._groups:
+            found = tree.query_ball_point(points, radius)
+            counts = onp.array([len(f) for f in found], dtype=int)
+            if counts.sum():
+                point_ids.append(onp.repeat(onp.arange(len(points)), counts))
+                elem_ids.append(ids[onp.concatenate(
+                    [onp.asarray(f, dtype=int) for f in found])])
+        if not point_ids:
+            return onp.zeros(0, dtype=int), onp.zeros(0, dtype=int)
+        return onp.concatenate(point_ids), onp.concatenate(elem_ids)
diff --git a/feax/gene/sdf.py b/feax/gene/sdf.py
index 92edc4f..401a9db 100644
--- a/feax/gene/sdf.py
+++ b/feax/gene/sdf.py
@@ -30,6 +30,7 @@ import numpy as onp
 from scipy.spatial import cKDTree
 
 from feax.basis import get_elements, tabulate_nodal
+from feax.gene._locate import SphereIndex
 
 
 # ---------------------------------------------------------------------------
@@ -550,6 +551,8 @@ class DensityField(SDF):
         self._centroid_tree = cKDTree(self._centroids)
         self._node_tree = cKDTree(points)
         self._n_candidates = min(16, len(cells))
+        self._sphere_index = SphereIndex(
+            self._elem_nodes, grow=1.0 if degree == 1 else 1.5)
 
     # -- Single-point evaluation ---------------------------------------------
 
@@ -568,7 +571,12 @@ class DensityField(SDF):
         best_ei = None
         best_dist = onp.inf  # distance from ref element interior
 
-        for ei in cands:
+        def candidates():
+            yield from cands
+            # the nearest centroids may all miss on graded or stretched meshes
+            yield from self._sphere_index.pairs(p[None])[1]
+
+        for ei in candidates():
             xi = self._inverse_map_single(p, ei)
             if xi is None:
                 continue
@@ -732,6 +740,22 @@ class DensityField(SDF):
                 best_xi[upd] = miss_xi[better]
                 best_ei[upd] = miss_ei[better]
 
+        # The nearest centroids may all miss on graded or stretched meshes:
+        # try every element whose bounding sphere holds the point.
+        remaining = onp.isnan(densities)
+        if remaining.any():
+            rem_idx = onp.where(remaining)[0]
+            pi, ei = self._sphere_index.pairs(points[rem_idx])
+            if len(pi) > 0:
+                pi = rem_idx[pi]
+                xi_batch = self._inverse_map_batch(points[pi], ei)
+                inside = _inside_ref_element_batch(xi_batch, self._basix_ele)
+                hit, first = onp.unique(pi[inside], return_index=True)
+                hit_ei = ei[inside][first]
+                N_batch = self._shape_vals_batch(xi_batch[inside][first])
+                node_vals = self._rho[self._cells[hit_ei][:, self._re_order]]
+                densities[hit] = onp.einsum('hj,hj->h', N_batch, node_vals)
+
         # Fallback: use clamped shape-function interpolation for near-misses
         remaining = onp.isnan(densities)
         if remaining.any():
-- 
2.43.0


From 61b1f5626d1d6fe29e91c4041c98cb01c621ae5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:26 +0000
Subject: [PATCH 48/64] fix: field transfer missed the containing element on
 graded or stretched meshes

---
 feax/gene/adaptive.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/feax/gene/adaptive.py b/feax/gene/adaptive.py
index d93b1d4..63a9832 100644
--- a/feax/gene/adaptive.py
+++ b/feax/gene/adaptive.py
@@ -19,6 +19,7 @@ from typing import Callable, Union, Tuple, Optional
 
 import gmsh
 
+from feax.gene._locate import SphereIndex
 from feax.mesh import Mesh
 
 
@@ -89,14 +90,7 @@ def interpolate_field(values_old, mesh, points_new, clip=None):
     # Try all candidates in vectorised batches
     values_new = onp.full(n_query, onp.nan)
 
-    for k in range(n_candidates):
-        mask = onp.isnan(values_new)
-        if not mask.any():
-            break
-
-        idx = onp.where(mask)[0]
-        ei = cand_all[idx, k]                    # element indices
-
+    def try_elements(idx, ei):
         # Barycentric coords: lam = inv_T[ei] @ (pt - v0[ei])
         diff = points_new[idx] - v0[ei]          # (N, 3)
         lam = onp.einsum('nij,nj->ni', inv_T[ei], diff)  # (N, 3)
@@ -116,6 +110,19 @@ def interpolate_field(values_old, mesh, points_new, clip=None):
                            + hit_lam[:, 1] * node_vals[:, 2]
                            + hit_lam[:, 2] * node_vals[:, 3])
 
+    for k in range(n_candidates):
+        idx = onp.where(onp.isnan(values_new))[0]
+        if len(idx) == 0:
+            break
+        try_elements(idx, cand_all[idx, k])
+
+    # The nearest centroids may all miss on graded or stretched meshes:
+    # try every element whose bounding sphere holds the point.
+    idx = onp.where(onp.isnan(values_new))[0]
+    if len(idx) > 0:
+        pi, ei = SphereIndex(points_old[cells]).pairs(points_new[idx])
+        try_elements(idx[pi], ei)
+
     # Nearest-node fallback for remaining points
     remaining = onp.isnan(values_new)
     if remaining.any():
-- 
2.43.0


From 453bf38e7baf67204d186f18f6bd3955342b1913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:26 +0000
Subject: [PATCH 49/64] fix: from_vtk could not read planar meshes

---
 feax/gene/sdf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/feax/gene/sdf.py b/feax/gene/sdf.py
index 401a9db..6fcca24 100644
--- a/feax/gene/sdf.py
+++ b/feax/gene/sdf.py
@@ -971,6 +971,9 @@ def from_vtk(
         )
 
     from feax.mesh import Mesh
+    # VTK files store planar meshes with a third coordinate
+    if ele_type in ('TRI3', 'TRI6', 'QUAD4', 'QUAD8'):
+        points = points[:, :2]
     mesh = Mesh(points, cells, ele_type=ele_type)
 
     return DensityField(rho, mesh, threshold=threshold)
-- 
2.43.0


From 944838052ed3cfeab565623cf34a30f78870f0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:24 +0000
Subject: [PATCH 50/64] fix: DensityField inverse mapping used the transposed
 Jacobian

---
 feax/gene/sdf.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/feax/gene/sdf.py b/feax/gene/sdf.py
index 6fcca24..d162c64 100644
--- a/feax/gene/sdf.py
+++ b/feax/gene/sdf.py
@@ -627,7 +627,7 @@ class DensityField(SDF):
             dN = tab[1:, 0, :, 0]             # (dim, nodes)  basix order
 
             x_current = N @ elem_pts          # (dim,)
-            J = dN @ elem_pts                 # (dim, dim)
+            J = (dN @ elem_pts).T             # (dim, dim)  dx_i/dxi_j
 
             residual = x_current - p
             res_norm = onp.linalg.norm(residual)
@@ -821,8 +821,8 @@ class DensityField(SDF):
 
             # x(xi) = sum_j N_j * x_j  for each query point
             x_current = onp.einsum('nj,njk->nk', N_vals, elem_pts)  # (N, dim)
-            # Jacobian: J[n,d,k] = sum_j dN[d,n,j] * elem_pts[n,j,k]
-            J = onp.einsum('dnj,njk->ndk', dN, elem_pts)  # (N, dim, dim)
+            # Jacobian: J[n,k,d] = sum_j elem_pts[n,j,k] * dN[d,n,j]
+            J = onp.einsum('dnj,njk->nkd', dN, elem_pts)  # (N, dim, dim)
 
             residual = x_current - pts  # (N, dim)
             res = onp.linalg.norm(residual, axis=1) / self._elem_size[ei]
-- 
2.43.0


From 4098c550abfc8938793d03bbb86edd257671107b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:19 +0000
Subject: [PATCH 51/64] fix: result files got the wrong cell type for QUAD8 and
 3-D QUAD4 meshes

---
 feax/utils.py | 60 +++++++++++++++++++++------------------------------
 1 file changed, 24 insertions(+), 36 deletions(-)

diff --git a/feax/utils.py b/feax/utils.py
index 50752f4..de131d3 100644
--- a/feax/utils.py
+++ b/feax/utils.py
@@ -21,6 +21,26 @@ if TYPE_CHECKING:
 
 
 
+_NODES_PER_ELEMENT = {
+    'TRI3': 3, 'TRI6': 6, 'QUAD4': 4, 'QUAD8': 8, 'QUAD9': 9,
+    'TET4': 4, 'TET10': 10, 'HEX8': 8, 'HEX20': 20,
+}
+
+
+def _mesh_element_type(mesh: Mesh) -> str:
+    """Element type of ``mesh``, inferred from its cells where ``ele_type`` does not fit."""
+    n_nodes_per_element = mesh.cells.shape[1]
+    n_dim = mesh.points.shape[1]  # 2D or 3D
+    if _NODES_PER_ELEMENT.get(mesh.ele_type) == n_nodes_per_element and not (
+            n_dim == 2 and mesh.ele_type.startswith(('TET', 'HEX'))):
+        return mesh.ele_type
+    for element_type, n_nodes in _NODES_PER_ELEMENT.items():
+        if n_nodes == n_nodes_per_element and element_type.startswith(
+                ('TRI', 'QUAD') if n_dim == 2 else ('TRI', 'TET', 'HEX')):
+            return element_type
+    raise ValueError(f"Unsupported element type with {n_nodes_per_element} nodes per element")
+
+
 def save_sol(
     mesh: Mesh,
     sol_file: str,
@@ -47,25 +67,7 @@ def save_sol(
         raise ValueError("At least one of cell_infos or point_infos must be provided.")
 
     # Get meshio cell type from mesh element type
-    # We need to infer element type from the mesh structure
-    n_nodes_per_element = mesh.cells.shape[1]
-    n_dim = mesh.points.shape[1]  # 2D or 3D
-
-    if n_nodes_per_element == 3:
-        element_type = 'TRI3'
-    elif n_nodes_per_element == 4:
-        element_type = 'QUAD4' if n_dim == 2 else 'TET4'
-    elif n_nodes_per_element == 6:
-        element_type = 'TRI6'
-    elif n_nodes_per_element == 8:
-        element_type = 'HEX8'
-    elif n_nodes_per_element == 10:
-        element_type = 'TET10'
-    elif n_nodes_per_element == 20:
-        element_type = 'HEX20'
-    else:
-        raise ValueError(f"Unsupported element type with {n_nodes_per_element} nodes per element")
-
+    element_type = _mesh_element_type(mesh)
     cell_type = get_meshio_cell_type(element_type)
 
     # Create output directory if needed
@@ -171,6 +173,8 @@ _XDMF_TOPOLOGY_TYPE = {
     'TRI3': 'Triangle',
     'TRI6': 'Triangle_6',
     'QUAD4': 'Quadrilateral',
+    'QUAD8': 'Quadrilateral_8',
+    'QUAD9': 'Quadrilateral_9',
     'TET4': 'Tetrahedron',
     'TET10': 'Tetrahedron_10',
     'HEX8': 'Hexahedron',
@@ -244,23 +248,7 @@ class XDMFWriter:
 
         n_nodes_per_element = mesh.cells.shape[1]
         n_dim = mesh.points.shape[1]
-        if n_nodes_per_element == 3:
-            element_type = 'TRI3'
-        elif n_nodes_per_element == 4:
-            element_type = 'QUAD4' if n_dim == 2 else 'TET4'
-        elif n_nodes_per_element == 6:
-            element_type = 'TRI6'
-        elif n_nodes_per_element == 8:
-            element_type = 'HEX8'
-        elif n_nodes_per_element == 10:
-            element_type = 'TET10'
-        elif n_nodes_per_element == 20:
-            element_type = 'HEX20'
-        else:
-            raise ValueError(
-                f"Unsupported element type with {n_nodes_per_element} "
-                f"nodes per element"
-            )
+        element_type = _mesh_element_type(mesh)
         if element_type not in _XDMF_TOPOLOGY_TYPE:
             raise ValueError(
                 f"Element type {element_type!r} not yet supported in XDMF writer."
-- 
2.43.0


From 5543379ba8cade9e2ee1c2c05ce9429127dbded9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:19 +0000
Subject: [PATCH 52/64] fix: save_sol wrote unreadable files for tensor fields
 at nodes

---
 feax/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/feax/utils.py b/feax/utils.py
index de131d3..50a5dde 100644
--- a/feax/utils.py
+++ b/feax/utils.py
@@ -126,6 +126,10 @@ def save_sol(
                     f"expected first dimension = {mesh.points.shape[0]}"
                 )
 
+            if data.ndim == 3:
+                # Tensor (n_nodes, 3, 3) -> flatten to (n_nodes, 9)
+                data = data.reshape(mesh.points.shape[0], -1)
+
             out_mesh.point_data[name] = data
 
     # Write the mesh
-- 
2.43.0


From 747a4b67fef7a7809dcb439e669de213c26a805b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:15 +0000
Subject: [PATCH 53/64] fix: XDMFWriter lost the series after a rejected or
 unsupported field

---
 feax/utils.py | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/feax/utils.py b/feax/utils.py
index 50a5dde..7a2c52c 100644
--- a/feax/utils.py
+++ b/feax/utils.py
@@ -332,7 +332,6 @@ class XDMFWriter:
 
         frame_id = self._frame_id
         prefix = f"frame_{frame_id:06d}"
-        self._h5.create_group(prefix)
 
         # Validate field signature is consistent across frames so the
         # resulting XDMF is a well-formed time series.
@@ -340,9 +339,7 @@ class XDMFWriter:
             tuple(name for name, _ in (point_infos or [])),
             tuple(name for name, _ in (cell_infos or [])),
         )
-        if self._field_signature is None:
-            self._field_signature = signature_keys
-        elif self._field_signature != signature_keys:
+        if self._field_signature is not None and self._field_signature != signature_keys:
             raise ValueError(
                 f"Field set changed between frames: "
                 f"first frame had {self._field_signature}, frame {frame_id} "
@@ -350,18 +347,25 @@ class XDMFWriter:
                 "frame to have the same field names."
             )
 
+        # Validate every field before the frame is started, so that a
+        # rejected frame leaves the series as it was.
+        point_arrays = [(name, _normalize_field(name, data, self._n_points))
+                        for name, data in (point_infos or [])]
+        cell_arrays = [(name, _normalize_field(name, data, self._n_cells))
+                       for name, data in (cell_infos or [])]
+        for _, arr in point_arrays + cell_arrays:
+            self._attribute_type(arr.shape)
+        self._field_signature = signature_keys
+        self._h5.create_group(prefix)
+
         point_records = []
-        if point_infos:
-            for name, data in point_infos:
-                arr = _normalize_field(name, data, self._n_points)
-                self._h5.create_dataset(f"{prefix}/point/{name}", data=arr)
-                point_records.append((name, arr.shape))
+        for name, arr in point_arrays:
+            self._h5.create_dataset(f"{prefix}/point/{name}", data=arr)
+            point_records.append((name, arr.shape))
         cell_records = []
-        if cell_infos:
-            for name, data in cell_infos:
-                arr = _normalize_field(name, data, self._n_cells)
-                self._h5.create_dataset(f"{prefix}/cell/{name}", data=arr)
-                cell_records.append((name, arr.shape))
+        for name, arr in cell_arrays:
+            self._h5.create_dataset(f"{prefix}/cell/{name}", data=arr)
+            cell_records.append((name, arr.shape))
 
         self._frames.append((float(time), prefix, point_records, cell_records))
         self._frame_id += 1
-- 
2.43.0


From a3859df943c11ab0424a8a934ee35f1d79db0d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:53 +0000
Subject: [PATCH 54/64] fix: bilinear cohesive energy was not the documented
 law and exceeded the fracture energy

---
 feax/mechanics/cohesive.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/feax/mechanics/cohesive.py b/feax/mechanics/cohesive.py
index dd4a77c..91a207c 100644
--- a/feax/mechanics/cohesive.py
+++ b/feax/mechanics/cohesive.py
@@ -130,9 +130,9 @@ def bilinear_potential(delta, delta_max, *, Gamma, sigma_c):
         Cohesive energy density per node, shape ``(n_nodes,)``.
     """
     delta_f = 2.0 * Gamma / sigma_c
-    delta_0 = 2.0 * Gamma / (sigma_c * delta_f)
+    k0 = sigma_c**2 / (2.0 * Gamma)
+    delta_0 = sigma_c / k0
 
-    k0 = sigma_c / delta_0
     phi_ascending = 0.5 * k0 * delta**2
     phi_descending = Gamma - 0.5 * sigma_c * (delta_f - delta)**2 / (delta_f - delta_0 + 1e-30)
     phi_full = Gamma * np.ones_like(delta)
-- 
2.43.0


From 9cf1554cd63acfc8bec8f709e8b67ffa11c7d3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:53 +0000
Subject: [PATCH 55/64] fix: third-medium contact stress was NaN for a fully
 collapsed element

---
 feax/mechanics/tmc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/feax/mechanics/tmc.py b/feax/mechanics/tmc.py
index 52b70ef..a304ce1 100644
--- a/feax/mechanics/tmc.py
+++ b/feax/mechanics/tmc.py
@@ -133,7 +133,8 @@ class ThirdMediumContact(fe.Problem):
             lnJ_min = np.log(J_min)
             s = (J - J_min) / J_min
             ext = lnJ_min + s - 0.5 * s ** 2
-            return np.where(J > J_min, np.log(J), ext)
+            # the log branch is kept away from J = 0, where its derivative is not finite
+            return np.where(J > J_min, np.log(np.where(J > J_min, J, 1.0)), ext)
 
         def psi(u_grad, mu, lmbda, *_unused):
             F = u_grad + np.eye(dim)
-- 
2.43.0


From 0690880e0d4a4f7c2c08375e1da5efd79227e58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:49 +0000
Subject: [PATCH 56/64] fix: map arrays of box variables element by element in
 box_to_triangle and box_to_tetrahedron

---
 feax/mechanics/orientation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/feax/mechanics/orientation.py b/feax/mechanics/orientation.py
index f94460f..7212054 100644
--- a/feax/mechanics/orientation.py
+++ b/feax/mechanics/orientation.py
@@ -113,7 +113,7 @@ def box_to_triangle(x1: float, x2: float) -> Tuple[np.ndarray, np.ndarray]:
     a11, a22 : same shape as inputs
     """
     N = _serendipity_8(x1, x2)
-    return np.sum(_U * N), np.sum(_V * N)
+    return np.tensordot(_U, N, axes=1), np.tensordot(_V, N, axes=1)
 
 
 # ---------------------------------------------------------------------------
@@ -192,9 +192,9 @@ def box_to_tetrahedron(
     a11, a22, a33 : same shape as inputs
     """
     N = _trilinear_hex_8(x1, x2, x3)
-    a11 = np.sum(_TET_VERTICES[:, 0] * N)
-    a22 = np.sum(_TET_VERTICES[:, 1] * N)
-    a33 = np.sum(_TET_VERTICES[:, 2] * N)
+    a11 = np.tensordot(_TET_VERTICES[:, 0], N, axes=1)
+    a22 = np.tensordot(_TET_VERTICES[:, 1], N, axes=1)
+    a33 = np.tensordot(_TET_VERTICES[:, 2], N, axes=1)
     return a11, a22, a33
 
 
-- 
2.43.0


From 01a150c7f18ec118ddc80c497be886e629a3a510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:49 +0000
Subject: [PATCH 57/64] fix: use the nodal basis when interpolating nodal
 fields to layered quadrature points

---
 feax/mechanics/layered_solid_element.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/feax/mechanics/layered_solid_element.py b/feax/mechanics/layered_solid_element.py
index 0ff1f16..b0ab337 100644
--- a/feax/mechanics/layered_solid_element.py
+++ b/feax/mechanics/layered_solid_element.py
@@ -44,7 +44,7 @@ import basix
 import jax.flatten_util
 
 import feax as fe
-from feax.basis import get_elements
+from feax.basis import get_elements, tabulate_nodal
 from feax.traced_params import TracedParams
 
 
@@ -300,7 +300,7 @@ def _tabulate_reference(ele_type: str, ref_points: onp.ndarray) -> np.ndarray:
     family, basix_ele, _, _, degree, re_order = get_elements(ele_type)
     element = basix.create_element(family, basix_ele, degree)
     pts = onp.ascontiguousarray(ref_points, dtype=onp.float64)
-    tab = element.tabulate(1, pts)[:, :, re_order, :]   # (deriv, q, node, val)
+    tab = tabulate_nodal(element, 1, pts)[:, :, re_order, :]   # (deriv, q, node, val)
     dNdxi = onp.transpose(tab[1:, :, :, 0], axes=(1, 2, 0))  # (q, node, dim)
     return np.asarray(dNdxi)
 
@@ -314,7 +314,7 @@ def _tabulate_reference_vals(ele_type: str, ref_points: onp.ndarray) -> np.ndarr
     family, basix_ele, _, _, degree, re_order = get_elements(ele_type)
     element = basix.create_element(family, basix_ele, degree)
     pts = onp.ascontiguousarray(ref_points, dtype=onp.float64)
-    tab = element.tabulate(0, pts)[:, :, re_order, :]   # (1, q, node, val)
+    tab = tabulate_nodal(element, 0, pts)[:, :, re_order, :]   # (1, q, node, val)
     return np.asarray(tab[0, :, :, 0])                  # (q, node)
 
 
-- 
2.43.0


From 3a2038dc4b42f27e9ff4921bf65e031916e75874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:33 +0000
Subject: [PATCH 58/64] fix: SDF.to_volume_mesh passed gmsh a keyword it does
 not have

---
 feax/gene/sdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/feax/gene/sdf.py b/feax/gene/sdf.py
index d162c64..48b02f2 100644
--- a/feax/gene/sdf.py
+++ b/feax/gene/sdf.py
@@ -237,7 +237,7 @@ class SDF(ABC):
         gmsh.model.mesh.classifySurfaces(
             angle=40 * 3.14159265 / 180,
             boundary=True,
-            forceParametrizablePatches=True,
+            forReparametrization=True,
         )
         gmsh.model.mesh.createGeometry()
 
-- 
2.43.0


From f5e148fa1acabbf56a72b5cff4a5280e40c45cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:02 +0000
Subject: [PATCH 59/64] fix: single-point queries outside the mesh fall back to
 the same elements as batched ones

---
 feax/gene/sdf.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/feax/gene/sdf.py b/feax/gene/sdf.py
index 48b02f2..83840ee 100644
--- a/feax/gene/sdf.py
+++ b/feax/gene/sdf.py
@@ -571,12 +571,7 @@ class DensityField(SDF):
         best_ei = None
         best_dist = onp.inf  # distance from ref element interior
 
-        def candidates():
-            yield from cands
-            # the nearest centroids may all miss on graded or stretched meshes
-            yield from self._sphere_index.pairs(p[None])[1]
-
-        for ei in candidates():
+        for ei in cands:
             xi = self._inverse_map_single(p, ei)
             if xi is None:
                 continue
@@ -591,6 +586,14 @@ class DensityField(SDF):
                 best_xi = xi
                 best_ei = ei
 
+        # the nearest centroids may all miss on graded or stretched meshes
+        for ei in self._sphere_index.pairs(p[None])[1]:
+            xi = self._inverse_map_single(p, ei)
+            if xi is not None and _inside_ref_element(xi, self._basix_ele):
+                N = self._shape_vals_at(xi)
+                node_vals = self._rho[self._cells[ei][self._re_order]]
+                return float(N @ node_vals)
+
         # No exact hit — use the closest element if Newton converged nearby
         if best_xi is not None and best_dist < 0.5:
             xi_clamped = self._clamp_to_ref(best_xi)
-- 
2.43.0


From 2fbc7797186523c916e361c937d9a8b2f7695a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:25 +0000
Subject: [PATCH 60/64] fix: distributed.initialize ignored the configured
 coordinator port

---
 feax/distributed/__init__.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/feax/distributed/__init__.py b/feax/distributed/__init__.py
index c463e46..797a0f0 100644
--- a/feax/distributed/__init__.py
+++ b/feax/distributed/__init__.py
@@ -26,17 +26,18 @@ import jax
 def initialize():
     """Initialize JAX distributed runtime from environment variables.
 
-    Reads JAX_COORD_ADDR, JAX_NUM_PROCESSES, and JAX_PROCESS_ID from
-    the environment. If JAX_COORD_ADDR is not set, does nothing
-    (single-node mode).
+    Reads JAX_COORD_ADDR, JAX_COORD_PORT (default 1234),
+    JAX_NUM_PROCESSES, and JAX_PROCESS_ID from the environment. If
+    JAX_COORD_ADDR is not set, does nothing (single-node mode).
 
     Returns:
         True if distributed mode was initialized, False otherwise.
     """
     coord = os.environ.get("JAX_COORD_ADDR")
     if coord:
+        port = os.environ.get("JAX_COORD_PORT", "1234")
         jax.distributed.initialize(
-            coordinator_address=f"{coord}:1234",
+            coordinator_address=f"{coord}:{port}",
             num_processes=int(os.environ["JAX_NUM_PROCESSES"]),
             process_id=int(os.environ["JAX_PROCESS_ID"]),
         )
-- 
2.43.0


From 773630389720a5e3cea55cfef2cca1f1cd2ae6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:25 +0000
Subject: [PATCH 61/64] fix: distributed launcher did not pass the script
 arguments to the workers

---
 feax/distributed/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/feax/distributed/__init__.py b/feax/distributed/__init__.py
index 797a0f0..c0d0a33 100644
--- a/feax/distributed/__init__.py
+++ b/feax/distributed/__init__.py
@@ -17,6 +17,7 @@ Usage as CLI launcher:
 """
 
 import os
+import shlex
 import subprocess
 import sys
 
@@ -144,6 +145,8 @@ def _launch(config_path, script, script_args):
             f" -e JAX_PROCESS_ID={i}"
             f" {container} python3 -"
         )
+        for arg in script_args:
+            docker_cmd += f" {shlex.quote(arg)}"
         ssh_cmd.append(docker_cmd)
 
         with open(script) as f:
-- 
2.43.0


From a7b948f1238c891161bf2599505b2b3616c02a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:52 +0000
Subject: [PATCH 62/64] fix: profile_solver_py solved triangular matrix views
 as if they were the whole matrix

---
 feax/profiler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/feax/profiler.py b/feax/profiler.py
index aedba27..be8a462 100644
--- a/feax/profiler.py
+++ b/feax/profiler.py
@@ -452,6 +452,7 @@ def profile_solver_py(
     from .solvers.options import (
         DirectSolverOptions,
         detect_matrix_property,
+        match_matrix_view,
         resolve_direct_solver,
     )
 
@@ -466,6 +467,7 @@ def profile_solver_py(
         _sample_J = J_bc_fn(initial_guess, traced_params)
         _mp = detect_matrix_property(_sample_J, matrix_view=problem.matrix_view)
         solver_options = resolve_direct_solver(solver_options, _mp, matrix_view=problem.matrix_view)
+    solver_options = match_matrix_view(solver_options, problem.matrix_view)
 
     linear_solve_fn = create_linear_solve_fn(solver_options)
 
-- 
2.43.0


From ac1d6a676e6475f687fc5a487520952a1b31634a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:50 +0000
Subject: [PATCH 63/64] fix: pair the nearest slave node when the matching
 tolerance spans several

On a cell whose node spacing is below the absolute tolerance of 1e-5 (an RVE in
metres, say) every master matched several slave nodes and the prolongation could
not be built.
---
 feax/flat/pbc.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/feax/flat/pbc.py b/feax/flat/pbc.py
index 7b5a296..b314cc6 100644
--- a/feax/flat/pbc.py
+++ b/feax/flat/pbc.py
@@ -120,8 +120,10 @@ def prolongation_matrix(
         for node_ind in node_inds_A:
             point_A = mesh.points[node_ind]
             dist = onp.linalg.norm(bc.mapping(point_A)[None, :] - points_set_B, axis=-1)
-            node_ind_B_ordered = node_inds_B[onp.argwhere(dist < EPS)].reshape(-1)
-            node_inds_B_ordered.append(node_ind_B_ordered)
+            within = onp.argwhere(dist < EPS).reshape(-1)
+            if len(within) > 1:  # small cell: EPS spans several nodes, take the closest
+                within = within[dist[within] == dist[within].min()]
+            node_inds_B_ordered.append(node_inds_B[within])
 
         node_inds_B_ordered = onp.array(node_inds_B_ordered).reshape(-1)
         vec_inds = onp.ones_like(node_inds_A, dtype=onp.int32) * bc.vec
-- 
2.43.0


From 23e854051adcf6938d3cf2386a8ef445b7dcf1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:19 +0000
Subject: [PATCH 64/64] fix: deliver every component of per-cell vector
 variables

---
 feax/assembler.py   | 13 +++++++------
 feax/flat/solver.py |  5 +++--
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/feax/assembler.py b/feax/assembler.py
index 1255b69..b1c6cfd 100644
--- a/feax/assembler.py
+++ b/feax/assembler.py
@@ -221,10 +221,10 @@ class Operator:
             shape_vals = self._problem.fes[fe_idx].shape_vals
             return np.dot(shape_vals, var)
         elif kind == _VAR_CELL:
-            # Per-cell scalar after slicing: either a 0-d scalar or a (1,) array.
-            if var.ndim == 0:
-                return np.full(self._num_quads, var)
-            return np.full(self._num_quads, var.reshape(-1)[0])
+            # Per-cell value after slicing: a 0-d scalar or (1,) array, or a vector.
+            if var.size == 1:
+                return np.full(self._num_quads, var.reshape(()))
+            return np.broadcast_to(var, (self._num_quads,) + var.shape)
         elif kind == _VAR_QUAD:
             return var
 
@@ -1960,8 +1960,9 @@ def create_energy_fn(problem) -> Callable:
             kind, _ = classify_volume_var(problem, var)
             if kind == _VAR_NODE:
                 result.append(np.einsum('qn,cn...->cq...', sval, var[cells]))
-            elif kind == _VAR_CELL and var.ndim == 1:
-                result.append(np.tile(var[:, None], (1, num_quads)))
+            elif kind == _VAR_CELL and var.ndim > 0:
+                var = var[:, 0] if var.ndim == 2 and var.shape[1] == 1 else var
+                result.append(np.repeat(var[:, None], num_quads, axis=1))
             else:
                 result.append(var)
         return result
diff --git a/feax/flat/solver.py b/feax/flat/solver.py
index a7f6012..d760fd4 100644
--- a/feax/flat/solver.py
+++ b/feax/flat/solver.py
@@ -132,9 +132,10 @@ def average_stress(problem, u_total: np.ndarray, traced_params, dim: int) -> np.
             var_cell_nodes = var[cell_node_ids]                          # (num_cells, nodes_per_cell, ...)
             var_at_quads   = np.einsum('qn,cn...->cq...', shape_vals, var_cell_nodes)
             vol_vars_quad.append(var_at_quads)
-        elif kind == _VAR_CELL and var.ndim == 1:
+        elif kind == _VAR_CELL and var.ndim > 0:
             # cell-based: same value at every quad point
-            vol_vars_quad.append(np.tile(var[:, None], (1, num_quads)))
+            var = var[:, 0] if var.ndim == 2 and var.shape[1] == 1 else var
+            vol_vars_quad.append(np.repeat(var[:, None], num_quads, axis=1))
         else:
             vol_vars_quad.append(var)
 
-- 
2.43.0

