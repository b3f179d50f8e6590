"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, pathlib
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))

prop("C01", "Assembled residual is the weak form, integrated exactly as declared",
 "For every mesh, element type, quadrature order, number of coupled variables and field value, the assembled residual equals the user's weak form (gradient, mass, custom-kernel and boundary terms) integrated over every cell and every selected boundary face exactly once. Material and load data given per node, per cell or per quadrature point reach the weak form with the value that layout denotes at each quadrature point.",
 ["inputs", "programs", "configurations"],
 "all meshes (any cell count, distortion), 9 element types, quadrature orders, 1..n variables of different order, weak forms, parameter layouts, boundary selections",
 "The tests assemble a handful of small HEX8/TET4/QUAD4 problems and compare feax with feax; no test compares residuals with an independent integration, and batching only engages above 256 cells.",
 ["feax/assembler.py", "feax/basis.py", "feax/fe.py", "feax/problem.py"],
 [("element kernels and batched scatter", "assembler.py: get_res, create_volume_kernel, create_surface_kernel, _scan_vmap_batched"),
  ("shape functions, quadrature, node reordering", "basis.py"), ("geometric Jacobians, face scales, boundary selection", "fe.py")],
 ["get_res return value"])

prop("C02", "Tangent matrices are the exact derivative of the residual, in every form",
 "For every problem and state, the assembled tangent equals the derivative of the assembled residual at that state, and for energy problems the gradient and Hessian of the total energy equal the residual and the tangent. Every representation of it (full, upper- or lower-triangular view, with or without a pre-built sparsity structure, with boundary conditions eliminated) denotes that same matrix.",
 ["inputs", "programs", "configurations"],
 "all problems (linear, nonlinear, coupled, with follower or Robin boundary terms), states, mesh sizes and matrix views",
 "Tests check a few fixed problems at one state for symmetry or against the same code path.",
 ["feax/assembler.py", "feax/problem.py", "feax/csr.py", "feax/traced_structure.py"],
 [("element Jacobians by forward AD and slot-sorted CSR scatter", "assembler.py: _get_J_csr, _assemble_volume_csr_data"),
  ("sparsity structure and views", "problem.py: _build_csr_assembly_structure; csr.py"),
  ("BC elimination", "DCboundary.py: apply_boundary_to_J*")],
 ["get_jacobian return value", "create_energy_fn"])

prop("C03", "Prescribed boundary values are met exactly, where and only where specified",
 "For every set of boundary specifications (locations by predicate, components by name, index or 'all', constant or position-dependent values, any variable, overlapping regions where the first specification wins), exactly the selected degrees of freedom are constrained and the solver returns exactly the prescribed values there. Replacing the prescribed values at solve time gives the same solution as building the problem with those values from the start.",
 ["inputs", "configurations", "histories"],
 "all specification lists, predicates, variables, replacement values and initial guesses",
 "Tests check that displacement grows with the value and that batched equals sequential runs of the same solver; no test compares an override with a freshly built problem.",
 ["feax/DCboundary.py", "feax/solvers/linear.py", "feax/solvers/newton.py", "feax/solvers/reduced.py"],
 [("specification to DOF map", "DCboundary.py: DirichletBCSpec, DirichletBCConfig.create_bc"),
  ("row/column elimination and lifting of the initial guess", "solvers/linear.py, solvers/newton.py, solvers/common.py")],
 ["bc.bc_rows / bc.bc_vals", "solver return value"])

prop("C04", "Linear solves return the discrete equilibrium whichever backend is chosen",
 "For every well-posed linear problem the returned field satisfies equilibrium on all free degrees of freedom to solver tolerance, and is the same field for every direct, Krylov and multigrid backend, matrix view, elimination mode, initial guess and preconditioning setting that accepts the problem.",
 ["inputs", "configurations"],
 "all well-posed linear problems (symmetric or not, one or many variables) crossed with solver options",
 "Tests compare two or three option objects on one symmetric elasticity block.",
 ["feax/solver.py", "feax/solvers/linear.py", "feax/solvers/options.py", "feax/solvers/common.py", "feax/solvers/amg.py"],
 [("backend dispatch", "solvers/options.py, solvers/linear.py: create_linear_solver"), ("multigrid", "solvers/amg.py")],
 ["solver return value"])

prop("C05", "Newton solves converge to true equilibrium of the nonlinear problem",
 "For every nonlinear problem with a reachable root, the solver returns a state whose residual on free degrees of freedom is within the requested tolerance of zero and whose prescribed values hold, whichever linear solver, tangent form (assembled, matrix-free), elimination mode, line-search setting or extra user residual is selected. An eager call whose line search fails raises as documented unless told not to, and an accepted line-search step never increases the residual.",
 ["inputs", "configurations"],
 "all nonlinear problems, load levels, initial guesses and Newton options",
 "Tests run a few hyperelastic blocks with one load level and default options.",
 ["feax/solvers/newton.py", "feax/solver.py"],
 [("Newton iteration, line search, stopping", "solvers/newton.py")],
 ["solver return value", "get_res at the returned state"])

prop("C06", "Reverse-mode gradients through any solver equal the true sensitivities",
 "For every differentiable objective of a solved field, the gradient with respect to volume parameters, surface loads and prescribed boundary values equals the derivative of the exact discrete solution map, for every solver path (linear, Newton, reduced/periodic) and for symmetric and non-symmetric operators alike.",
 ["inputs", "programs", "configurations"],
 "all problems, objectives, parameter layouts, solver and adjoint options",
 "Tests finite-difference the same solver for a few symmetric cases, so a consistently wrong forward map or a non-symmetric operator is never exposed.",
 ["feax/solvers/linear.py", "feax/solvers/newton.py", "feax/solvers/reduced.py", "feax/DCboundary.py"],
 [("custom VJP adjoint solves", "solvers/linear.py, newton.py, reduced.py")],
 ["jax.grad of the solver"])

prop("C07", "Compiling or batching a computation never changes its result",
 "Solving or assembling under just-in-time compilation, under batching over parameters, boundary values or initial guesses, or in nested combinations gives for each lane the result of the plain call on that lane's inputs, and no lane's values, convergence or failure affects another lane.",
 ["inputs", "programs", "configurations"],
 "all batch sizes, batched argument subsets, nestings, solver options",
 "Tests batch a few near-identical lanes with generous tolerances.",
 ["feax/solver.py", "feax/solvers/linear.py", "feax/solvers/newton.py", "feax/solvers/options.py", "feax/assembler.py"],
 [("vmap rules of direct-solver callbacks", "solvers/linear.py, options.py"), ("pytree registration", "traced_params.py, DCboundary.py, solution.py")],
 ["jit/vmap results"])

prop("C08", "Results depend only on the inputs, never on what ran before",
 "Repeating a call with the same inputs gives the same result whatever solvers were built, freed or called in between (other parameters, other problems sharing the mesh, other sparsity structures, earlier failures), and no call modifies its arguments or the objects they came from.",
 ["histories"],
 "all sequences of building, calling, differentiating and releasing solvers that share problems, meshes, structures and caches",
 "Tests build one solver per test and clear caches between tests.",
 ["feax/solvers/linear.py", "feax/solvers/common.py", "feax/assembler.py", "feax/problem.py", "feax/traced_structure.py"],
 [("factorization caches", "solvers/linear.py / common.py"), ("cached maps and flags stored on the problem", "assembler.py, problem.py")],
 ["solver return values along a history"])

prop("C09", "Generated meshes tile the requested domain with valid elements",
 "For every admissible size, origin, resolution and element type, a generated or refined mesh covers exactly the requested domain: cells have positive orientation, measures add up to the domain's, faces are shared by at most two cells with the same nodes, and the boundary is the domain's boundary. Uniform refinement preserves the domain and element type and splits every cell into equal-order children.",
 ["inputs", "configurations"],
 "all generator arguments and refinement levels",
 "Tests check node and cell counts of a few boxes.",
 ["feax/mesh.py", "feax/mechanics/copv.py", "feax/gene/adaptive.py"],
 [("generators", "mesh.py: box_mesh, rectangle_mesh, sphere_mesh, cylinder_mesh"), ("refinement", "mesh.py: refine_mesh")],
 ["mesh.points / mesh.cells"])

prop("C10", "Periodic and cyclic constraints tie exactly the matching nodes",
 "For every mesh whose opposite faces match, wherever it lies in space, the prolongation built from periodic or cyclic pairings maps independent unknowns to fields that are exactly periodic (or rotationally periodic), keeps every unpaired node free, and loses no independent unknown. A reduced solve returns the equilibrium of the constrained problem: the residual vanishes when tested with every admissible field.",
 ["inputs", "configurations"],
 "all unit cells (size, origin, resolution, dimension), numbers of components, pairings and loads",
 "Tests use one unit cube at the origin.",
 ["feax/flat/pbc.py", "feax/flat/unitcell.py", "feax/solvers/reduced.py"],
 [("pairings and prolongation", "flat/pbc.py"), ("reduced solve", "solvers/reduced.py")],
 ["prolongation matrix", "reduced solver return value"])

prop("C11", "Homogenized stiffness is the true effective stiffness of the unit cell",
 "For every periodic microstructure the homogenized tensor equals the volume-averaged stress response to unit macroscopic strains: it is symmetric, reproduces a homogeneous material and layered laminates exactly, lies between the series and parallel bounds, and does not depend on how the cell is translated or where its origin is. Averaged stresses and directional moduli derived from it agree with direct evaluation.",
 ["inputs", "configurations"],
 "all phase distributions, contrasts, cell sizes, origins, parameter layouts and 2D/3D settings",
 "Tests use one homogeneous or one inclusion case.",
 ["feax/flat/solver.py", "feax/flat/utils.py", "feax/flat/unitcell.py", "feax/flat/graph.py"],
 [("macro strain cases and averaging", "flat/solver.py"), ("graph lattices and modulus surfaces", "flat/graph.py, flat/utils.py")],
 ["C_hom, average_stress"])

prop("C12", "Time integration marches exactly the requested interval and schedule",
 "For every time step, end time, save interval and callback set, the run covers exactly the requested interval in increasing time with the requested step size (only the last step may differ, to land on the end time), calls each hook and saves each state when its schedule says, and every recorded state is the one the step produces from the previous state. Adaptive control keeps step sizes within the stated limits and growth. If a step fails, the error reaches the caller, nothing later runs, and the log on disk holds every completed step. Implicit and explicit pipelines advance by their scheme, and gradients through a run are the true ones.",
 ["inputs", "histories", "fault_sequences"],
 "all schedules, step outcomes (success, failure at any point) and pipelines, implicit and explicit",
 "Tests run a few steps of one diffusion problem with fixed dt.",
 ["feax/solvers/time_solver.py"],
 [("time loop and clamping", "solvers/time_solver.py: run"), ("pipelines", "ImplicitPipeline, ExplicitPipeline")],
 ["recorded event log of pipeline calls", "result history"])

prop("C13", "Sparse automatic differentiation equals the dense derivative",
 "For every function whose sparsity is declared or detected, the compressed sparse Jacobian or Hessian equals the dense derivative at every point, and merging sparsity patterns keeps every entry of each source addressed at its own position.",
 ["inputs", "programs"],
 "all functions, sparsity patterns, evaluation points and pattern merges",
 "Tests use a few banded functions and one finite-element energy.",
 ["feax/asd.py"],
 [("coloring-based compression", "asd.py: sparse_jacobian_fn"), ("pattern merge and operator assembly", "asd.py")],
 ["returned CSR matrices"])

prop("C14", "Eigen and buckling solvers return the extreme modes that really exist",
 "For every admissible matrix pair the returned pairs satisfy the generalized eigen-equation, are the requested extreme ones in order (for buckling: the smallest positive load factors, also when negative factors exist), agree between dense and sparse methods, and their gradients equal the true eigenvalue sensitivities. Modes that do not exist or did not converge are reported as such and never corrupt the gradients of those that did.",
 ["inputs", "configurations"],
 "all symmetric pairs (definite and indefinite geometric stiffness), numbers of modes, free-dof sets and methods",
 "Tests use one column with well separated positive factors.",
 ["feax/solvers/eigen.py"],
 [("generalized eigenproblem and custom VJP", "solvers/eigen.py")],
 ["eigenvalues, modes, jax.grad"])

prop("C15", "Solution and parameter containers carry every value to its own place",
 "Every value written into, read from or converted between solution fields, node and cell parameter arrays and boundary data keeps its variable, node, component and cell, for any number of variables and components, and survives flattening, arithmetic, replacement and tree transformations unchanged. Replacing one entry changes that entry only and leaves the original object as it was.",
 ["inputs", "histories"],
 "all variable layouts, values, replacement sequences and tree operations",
 "Tests cover one or two variables and single replacements.",
 ["feax/solution.py", "feax/traced_params.py", "feax/DCboundary.py"],
 [("layout metadata", "solution.py"), ("parameter builders and replacement", "traced_params.py")],
 ["container contents"])

prop("C16", "Solving on an active sub-domain equals the full solve with the rest removed",
 "For every active cell set, restricting a problem to the band, solving there and scattering back gives the same values as assembling only those cells on the full mesh: gathers and scatters are exact inverses on the band, inactive entries take the fill value, and structured-grid indexing, voxelization and dilation agree with direct geometric evaluation. A reused superset band gives the same answer as a freshly extracted band for every sequence of active sets it claims to cover.",
 ["inputs", "histories"],
 "all grids, active sets, parameter layouts and sequences of evolving active sets",
 "Tests use a few hand-picked bands.",
 ["feax/narrowband.py", "feax/spgrid.py", "feax/gene/narrowband.py"],
 [("index maps", "narrowband.py"), ("structured grid", "spgrid.py")],
 ["gather/scatter results, band solves"])

prop("C17", "Grid multigrid solver returns the true displacement and sensitivities",
 "For every density field, grid spacing, support and load on the active band, the geometric multigrid solver returns the displacement of the voxel finite-element model to the requested tolerance whenever the iteration budget suffices for it, and the reported compliance and its sensitivities equal those of that model.",
 ["inputs", "configurations"],
 "all densities, grid spacings, supports, loads, bands and level counts",
 "Tests compare against one unit-spacing beam.",
 ["feax/solvers/cmg.py"],
 [("voxel stiffness, transfer and V-cycle", "solvers/cmg.py")],
 ["create_solver result, compliance_and_dc"])

prop("C18", "Design filters preserve bounds and constants and have exact adjoints",
 "For every mesh and design field, each design filter maps constants to themselves and its result is the documented weighted average or smoothing solution of the input with values staying inside the input's range where it is an averaging filter; thresholding maps the unit interval monotonically into itself and the volume-matched threshold leaves the requested fraction of the entries above it (up to one entry); sensitivity filtering does not depend on the order in which active cells are listed. Gradients through the filters are the exact adjoints.",
 ["inputs", "configurations"],
 "all meshes, radii, weights, fields, thresholds and sharpness values",
 "No test exercises the filters beyond a smoke run.",
 ["feax/gene/filters.py", "feax/gene/responses.py"],
 [("filter operators", "gene/filters.py")],
 ["filter outputs and gradients"])

prop("C19", "Optimization runs honour bounds, frozen regions, constraints and budget",
 "Every design produced during a run lies within its bounds, keeps frozen solid and void entries, respects the iteration budget, and is recorded once with the objective and constraint values evaluated at that design; continuation parameters follow their schedule. Optimality-criteria updates stay in the move limits and meet an attainable volume target, and constraint multipliers ascend on violation.",
 ["inputs", "histories", "configurations"],
 "all pipelines, bounds, frozen sets, schedules, budgets and update sequences",
 "Tests run one or two small optimizations and look at the final value.",
 ["feax/gene/optimizer.py", "feax/gene/narrowband.py", "feax/gene/mdmm.py"],
 [("optimizer loop", "gene/optimizer.py: run"), ("optimality criteria", "gene/narrowband.py: oc_update"), ("multipliers", "gene/mdmm.py")],
 ["recorded evaluations, history, result"])

prop("C20", "Sampling a field anywhere returns its finite-element interpolation",
 "For every mesh, element type, nodal field and query point inside the mesh, sampling (signed density field, field transfer between meshes) returns the finite-element interpolation of the nodal values, identically for single and batched queries; combined shapes follow the sign conventions of union, intersection and difference; extracted surfaces lie on the level set and enclose the solid region, and extracted volume meshes fill it with valid elements of the requested type; refinement indicators are the normalized gradient magnitude of the interpolated field and refined meshes follow the requested element sizes.",
 ["inputs"],
 "all element types, distorted meshes, fields, query points and shape combinations",
 "No test covers sampling.",
 ["feax/gene/sdf.py", "feax/gene/adaptive.py", "feax/gene/mesh_extraction.py"],
 [("inverse mapping and candidate search", "gene/sdf.py: DensityField; gene/adaptive.py: interpolate_field")],
 ["sampled values"])

prop("C21", "Written result files read back as exactly what was computed",
 "For every mesh, element type and set of point and cell fields, a saved result file read by an independent reader has the same nodes, the same cells with the right cell type, and the same field values and times, in order, including time series.",
 ["inputs", "histories"],
 "all element types, field shapes, dtypes, file formats and write sequences",
 "Tests do not read files back.",
 ["feax/utils.py"],
 [("mesh and field export", "utils.py: save_sol, XDMFWriter")],
 ["files re-read with meshio / raw XML+HDF5"])

prop("C22", "Composite stiffness and loads equal direct integration over plies and fibres",
 "For every material, layup, orientation state and geometry, plate, laminate, layered-solid and fibre-averaged stiffness, thermal and geometric-stiffness quantities equal direct numerical integration through the thickness or over the fibre distribution; rotations are objective, wound plies follow the hoop and geodesic (Clairaut) directions of their wall, and orientation tensors built from scalar or array box variables keep the shape of their inputs and are admissible (non-negative diagonal, trace at most one, a_ij^2 <= a_ii a_jj).",
 ["inputs", "configurations"],
 "all moduli, angles, ply counts and thicknesses, element shapes, orientation states",
 "No test covers the mechanics package.",
 ["feax/mechanics/shell.py", "feax/mechanics/layered_solid_element.py", "feax/mechanics/orientation.py", "feax/mechanics/copv.py"],
 [("laminate integrals and rotations", "mechanics/shell.py"), ("per-ply quadrature", "mechanics/layered_solid_element.py"), ("orientation tensors and averages", "mechanics/orientation.py"), ("winding frames", "mechanics/copv.py")],
 ["returned tensors, assembled residuals"])

prop("C23", "Cohesive and contact energies follow their documented laws irreversibly",
 "For every opening history the cohesive energy is continuous, never exceeds the fracture energy, starts at zero, stores no energy in pure compression, never decreases under growing opening, has the documented strength as its peak traction, and after unloading and reloading rejoins the original curve at the largest past opening; interface openings and weights match the geometry. Third-medium contact adds exactly the documented regularization on medium cells only.",
 ["inputs", "histories"],
 "all fracture energies, strengths, mode mixes, normals, opening histories, medium masks",
 "No test covers cohesive or contact energies.",
 ["feax/mechanics/cohesive.py", "feax/mechanics/tmc.py"],
 [("potentials", "mechanics/cohesive.py"), ("regularization kernel", "mechanics/tmc.py")],
 ["energy values and gradients"])

prop("C24", "Volume and compliance responses equal their definitions",
 "For every mesh, element type, nodal, cell or quadrature-point design and load, the volume fraction equals the integral of the design over the domain divided by its volume, and compliance equals the work of the applied surface and body loads on the displacement; both have exact gradients.",
 ["inputs", "configurations"],
 "all meshes, element types, design layouts, loads and displacement fields",
 "Tests look at one uniform design on a structured mesh.",
 ["feax/gene/responses.py"],
 [("responses", "gene/responses.py: create_compliance_fn, create_dynamic_compliance_fn, create_volume_fn")],
 ["response values and gradients"])

prop("C25", "Distributed runs start every rank once and gather in rank order",
 "For every cluster description, number of processes, start order and timing: the launcher starts each rank 0..n-1 exactly once (rank 0 locally, one on every node with that node's key and container), hands all of them the same script, arguments, coordinator address and port, waits for all of them and exits with the coordinator's code; initialize joins the described cluster (and does nothing outside one), is_coordinator holds on rank 0 only, and gather returns on every rank the same stack of all ranks' arrays in rank order, for any pytree, shape and dtype.",
 ["schedules", "configurations", "inputs"],
 "all cluster files, argument strings, numbers of ranks, delays, pytrees",
 "No test starts more than one process.",
 ["feax/distributed/__init__.py", "feax/distributed/__main__.py"],
 [("runtime set-up and collectives", "distributed/__init__.py: initialize, finalize, gather, is_coordinator"), ("launcher", "distributed/__init__.py: main, _launch")],
 ["records written by real local processes and by stand-ins for ssh and docker"])

prop("C26", "Profiling reports what really ran and never changes the result",
 "For every function, solver and number of runs, the profiling tools call the function exactly the stated number of times with the given arguments, wait for its result, record one labelled time per timed run or block (also when the block raises), and return the unchanged result; the profiled Newton run visits the Newton iterates, records their residual norms, reports convergence exactly when the last recorded norm is below the tolerance and then is at equilibrium, for every matrix storage it accepts; traced programs, static sizes, cost and memory reports equal the compiler's own figures.",
 ["inputs", "configurations"],
 "all functions, run counts, exceptions, problems, storage views, tolerances and budgets",
 "No test covers the profiler.",
 ["feax/profiler.py"],
 [("timers", "profiler.py: time_fn, profile, profile_solver"), ("Newton profile", "profiler.py: profile_solver_py"), ("program and memory inspection", "profiler.py: trace_jaxpr, get_cost_analysis, format_cost_analysis, memory_snapshot")],
 ["call logs, returned records, printed reports"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in P))
print(len(P))
