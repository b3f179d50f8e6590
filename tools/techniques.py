D = "Random sampling of the input space, not exhaustive; bounds in DESIGN.md."
TECH = {
 "C01": ("runtime monitor: every assembled residual compared online with an independent numpy integrator (own shape functions and face rules) over randomized meshes, layouts and weak forms", D),
 "C02": ("runtime monitor: every tangent representation observed in one execution compared with forward-mode and central differences of the observed residual", D),
 "C03": ("runtime monitor: constrained DOFs and returned boundary values compared with direct predicate evaluation and with rebuilt problems", D),
 "C04": ("differential runtime monitor: dense reference equilibrium against every backend/view/elimination/preconditioner the problem accepts", D),
 "C05": ("runtime monitor: residual oracle at every returned Newton state, with instrumented failure and stall injection", D),
 "C06": ("runtime monitor: reverse-mode gradients compared with derivatives of a dense reference solution map and central differences of the solver", D),
 "C07": ("differential runtime monitor: per-lane plain calls against jit / vmap / nested results, with poisoned lanes injected", D),
 "C08": ("history monitor: recorded call histories replayed in fresh processes and compared bit-tight, with argument-mutation sentinels", D),
 "C09": ("runtime monitor: mesh invariants (orientation, measure, face sharing, boundary) checked on every generated mesh", D),
 "C10": ("runtime monitor: prolongation invariants and constrained-equilibrium oracle on every observed pairing and reduced solve", D),
 "C11": ("runtime monitor: homogenized tensors against closed forms, bounds, translation invariance and an independent dense periodic solve", D),
 "C12": ("trace-specification monitor: recorded event log of the time loop checked against the schedule automaton and a reference integrator", D),
 "C13": ("runtime monitor: sparse derivatives compared with dense derivatives at every observed point", D),
 "C14": ("runtime monitor: eigen residual, ordering, completeness (dense reference spectrum) and finite-difference gradient oracles", D),
 "C15": ("model-based runtime monitor: random operation sequences on containers mirrored by a dictionary model", D),
 "C16": ("differential runtime monitor: band gather/solve/scatter against a full-mesh model with the inactive cells removed, over random active-set histories", D),
 "C17": ("runtime monitor: multigrid results against an independently assembled voxel model", D),
 "C18": ("runtime monitor: filter outputs against direct numerical evaluation, adjoint identity and range invariants", D),
 "C19": ("trace monitor: every evaluation of an optimization run recorded and checked against bounds, freezes, budget, schedule and re-evaluation", D),
 "C20": ("runtime monitor: sampled values against an independent inverse-mapping interpolation", D),
 "C21": ("round-trip monitor: written files parsed by an independent reader and compared with what was passed in", D),
 "C22": ("runtime monitor: tensors and residuals against direct numerical integration through plies and fibre distributions", D),
 "C24": ("runtime monitor: response values and gradients against independent numerical integration over randomized meshes, designs and loads", D),
 "C23": ("history monitor: cohesive laws driven by random opening histories and checked against the documented law and its invariants", D),
 "C25": ("trace monitor: records written by real concurrent local processes and by recording stand-ins for ssh/docker, under injected delays and failures, checked against the launch and gather specification", D),
 "C26": ("call-log monitor: every call, wait and record of the profiling tools observed and compared with an independent Newton run and the compiler's own figures", D),
}
