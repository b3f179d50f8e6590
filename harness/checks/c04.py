"""C04: a linear solve returns the discrete equilibrium, whichever backend solves it."""
import numpy as np

from harness import ref, wl
from harness.lazy import fe, jax, jnp
from harness.mon import rng_for

ID = "C04"
RULE = ("random linear problems (symmetric, non-symmetric, coupled; 2D/3D; stiffness contrast up to 1e4) x every backend "
        "that accepts them (spsolve, umfpack, cholmod, auto, cg, bicgstab, gmres, AMG) x matrix view x elimination mode x "
        "initial guess x preconditioning; reference = dense solve of the observed residual; non-trivial = non-zero field; "
        "distinct by (physics, element, backend, view, elimination, preconditioning)")
ASSUMPTIONS = ["dense solution of the affine residual observed through get_res is the oracle (the residual itself is C01)",
               "cg is only used where the eliminated operator is symmetric positive definite"]
MIN_EVALUATIONS = 150

DIRECT = ("spsolve", "umfpack", "cholmod", "auto")


def cases(tier, seed):
    out = []
    reps = 1 if tier == "quick" else 7
    for r in range(reps):
        for phys, ele in (("elastic", "QUAD4"), ("elastic", "TET4"), ("diff", "TRI6"), ("diff", "HEX20"),
                          ("conv", "QUAD4"), ("conv", "TET4"), ("mixed", "TRI3"), ("elastic", "QUAD8"),
                          ("conv", "HEX8"), ("diff", "QUAD9")):
            out.append(dict(kind="direct", phys=phys, ele=ele, r=r, cost=4))
            out.append(dict(kind="krylov", phys=phys, ele=ele, r=r, cost=5))
        for phys, ele, view in (("elastic", "QUAD4", "UPPER"), ("elastic", "TET4", "LOWER"), ("diff", "TRI3", "UPPER"),
                                ("diff", "HEX8", "LOWER")):
            out.append(dict(kind="view", phys=phys, ele=ele, view=view, r=r, cost=4))
        for phys, ele in (("elastic", "QUAD4"), ("elastic", "HEX8"), ("diff", "TRI3"), ("conv", "QUAD4")):
            out.append(dict(kind="amg", phys=phys, ele=ele, r=r, cost=5))
        for phys, ele in (("elastic", "HEX8"), ("diff", "QUAD4"), ("elastic", "TRI3")):
            out.append(dict(kind="large", phys=phys, ele=ele, r=r, cost=6))
        out.append(dict(kind="sweep", r=r, cost=4))
        for ele in ("QUAD4", "TRI6", "TET4", "HEX8"):
            out.append(dict(kind="units", ele=ele, r=r, cost=4))
        for ele in ("QUAD4", "TET4"):
            out.append(dict(kind="weak", ele=ele, r=r, cost=3))
        out.append(dict(kind="unconverged", r=r, cost=3))
        out.append(dict(kind="neumann", r=r, cost=3))
        for phys, ele in (("elastic", "QUAD4"), ("conv", "TET4")):
            out.append(dict(kind="lowlevel", phys=phys, ele=ele, r=r, cost=3))
        for phys, ele in (("elastic", "QUAD4"), ("diff", "HEX8")):
            out.append(dict(kind="amgmodes", phys=phys, ele=ele, r=r, cost=4))
    return [dict(c, seed=seed, i=n) for n, c in enumerate(out)]


def _contrast(rng, c):
    """High-contrast coefficient field in the case's own layout."""
    E = 10.0 ** rng.uniform(-2, 2, len(c.E))
    return fe.TracedParams(volume_vars=(jnp.asarray(E),), surface_vars=c.tp.surface_vars)


def _verify(mon, c, name, sol, want, tp, rtol=1e-7, **kw):
    sol = wl.dofs_of(sol)
    ok = mon.close(f"{name}: the equilibrium field", sol, want, rtol=rtol, scale=np.abs(want).max(), **kw)
    f = c.free()
    K = c.K(np.zeros(c.n), tp)
    rs = (np.abs(K[f]) @ np.abs(want)).max() + 1e-300
    mon.close(f"{name}: free residual", c.res(sol, tp)[f], np.zeros(f.sum()), rtol=max(1e-9, rtol * 0.1), scale=rs, **kw)
    rows = np.asarray(c.bc.bc_rows)
    mon.close(f"{name}: prescribed values", sol[rows], np.asarray(c.bc.bc_vals), rtol=1e-9,
              scale=max(1.0, np.abs(want).max()), **kw)
    return ok


def case_direct(case, mon):
    rng = rng_for(case)
    # cell values: a nodal field of that contrast interpolates to negative coefficients
    c = wl.gen(rng, case["phys"], case["ele"], curve=0.03, layout="cell")
    tps = {"mild": c.tp, "contrast": _contrast(rng, c)}
    wants = {k: c.linear_solution(tp=t) for k, t in tps.items()}
    ts = fe.TracedStructure.from_problem(c.p, free_scratch=False)
    igr = jnp.asarray(rng.normal(size=c.n))
    combos = [(s, e) for s in DIRECT for e in (True, False)
              if not (s == "cholmod" and not (c.symmetric and e))]
    # each backend once with symmetric, two of them also with row-only elimination
    for s, sym in combos:
        if not sym and s not in ("spsolve", "auto"):
            continue
        solver = fe.create_solver(c.p, c.bc, solver_options=fe.DirectSolverOptions(
            solver=s, check_convergence=(s == "umfpack")), linear=True, traced_params=c.tp, symmetric_elimination=sym)
        for k in tps:
            _verify(mon, c, f"{s}", solver(tps[k]), wants[k], tps[k], sym=sym, contrast=k)
        if s == "spsolve":
            _verify(mon, c, f"{s} random guess", solver(tps["mild"], igr), wants["mild"], c.tp, sym=sym)
            _verify(mon, c, f"{s} with structure", solver(tps["contrast"], traced_structure=ts), wants["contrast"],
                    tps["contrast"], sym=sym)
        mon.seen("direct", case["phys"], case["ele"], s, sym)
    # no options at all
    solver = fe.create_solver(c.p, c.bc, linear=True, traced_params=c.tp)
    _verify(mon, c, "defaults", solver(c.tp), wants["mild"], c.tp)
    mon.true("non-trivial", np.abs(wants["mild"][c.free()]).max() > 1e-3)
    mon.note(phys=case["phys"], ele=case["ele"], dofs=c.n, field=float(np.abs(wants["mild"]).max()))


def case_krylov(case, mon):
    rng = rng_for(case)
    c = wl.gen(rng, case["phys"], case["ele"])
    want = c.linear_solution()
    f = c.free()
    K = c.K(np.zeros(c.n))
    rows = np.asarray(c.bc.bc_rows)
    Ke = K.copy()
    Ke[rows, :] = 0
    Ke[:, rows] = 0
    Ke[rows, rows] = 1
    dinv = jnp.asarray(1.0 / np.diag(Ke))
    Minv = jnp.asarray(np.linalg.inv(0.5 * (Ke + Ke.T) + 0.3 * np.diag(np.diag(Ke))))
    jac = lambda x: dinv * x
    full = lambda x: Minv @ x
    KO = fe.KrylovSolverOptions
    T = dict(tol=1e-12, atol=1e-13)
    ig0 = fe.zero_like_initial_guess(c.p, c.bc)
    igr = jnp.asarray(rng.normal(size=c.n))
    runs = [("gmres", dict(), True), ("gmres", dict(restart=7, maxiter=3000), True), ("auto", dict(), True),
            ("bicgstab", dict(preconditioner=jac), True), ("gmres", dict(), False)]
    if c.symmetric:
        runs += [("cg", dict(), True), ("cg", dict(use_jacobi_preconditioner=True), True),
                 ("cg", dict(preconditioner=full), True), ("bicgstab", dict(), True)]
    else:
        runs += [("gmres", dict(preconditioner=jac), True), ("auto", dict(), False)]
    xr = jnp.asarray(rng.normal(size=c.n) * 0.1)
    runs.append(("gmres", dict(x0_fn=lambda s: xr), True))
    pick = rng.permutation(len(runs))[:6]
    for j in sorted(pick):
        s, extra, sym = runs[j]
        solver = fe.create_solver(c.p, c.bc, solver_options=KO(solver=s, **T, **extra), linear=True,
                                  traced_params=c.tp, symmetric_elimination=sym)
        sol = wl.dofs_of(solver(c.tp, ig0))
        if s == "bicgstab" and not np.abs(c.res(sol)[f]).max() < 1e-8:
            # a breakdown of BiCGStab is the method's, not the code's: nothing to compare
            mon.event("bicgstab breakdown")
            continue
        tag = f"{s}{'+' + ','.join(extra) if extra else ''}"
        _verify(mon, c, tag, sol, want, c.tp, rtol=1e-6, sym=sym)
        if j % 2 == 0:
            _verify(mon, c, tag + " random guess", solver(c.tp, igr), want, c.tp, rtol=1e-6, sym=sym)
        mon.seen("krylov", case["phys"], case["ele"], tag, sym)
    mon.note(phys=case["phys"], ele=case["ele"], dofs=c.n)


def case_view(case, mon):
    """Triangular storage: every backend either refuses it or solves the whole matrix."""
    rng = rng_for(case)
    c = wl.gen(rng, case["phys"], case["ele"], view=case["view"])
    want = c.linear_solution()
    ig0 = fe.zero_like_initial_guess(c.p, c.bc)
    accepted = 0
    opts = [("cholmod", fe.DirectSolverOptions(solver="cholmod")), ("auto", fe.DirectSolverOptions()),
            ("umfpack", fe.DirectSolverOptions(solver="umfpack")), ("spsolve", fe.DirectSolverOptions(solver="spsolve")),
            ("cg", fe.KrylovSolverOptions(solver="cg", tol=1e-12, atol=1e-13)),
            ("krylov-auto", fe.KrylovSolverOptions(tol=1e-12, atol=1e-13)),
            ("cholmod-conv", fe.DirectSolverOptions(solver="cholmod", check_convergence=True,
                                                    convergence_threshold=1e-6))]
    for name, o in opts:
        try:
            solver = fe.create_solver(c.p, c.bc, solver_options=o, linear=True, traced_params=c.tp)
            sol = solver(c.tp, ig0)
        except (ValueError, TypeError, NotImplementedError):
            mon.event("refused " + name)
            mon.true("refused", name not in ("cholmod", "cg"), backend=name)
            continue
        accepted += 1
        _verify(mon, c, f"{name} on {case['view']}", sol, want, c.tp, rtol=1e-6)
        mon.seen("view", case["phys"], case["view"], name)
    mon.true("some backend accepts the view", accepted >= 2, accepted=accepted)
    mon.note(view=case["view"], accepted=accepted)


def case_amg(case, mon):
    rng = rng_for(case)
    ns = (7, 5) if ref.DIM[ref.ELE[case["ele"]][2]] == 2 else (4, 2, 2)
    c = wl.gen(rng, case["phys"], case["ele"], ns=ns)
    want = c.linear_solution()
    ig0 = fe.zero_like_initial_guess(c.p, c.bc)
    A = fe.AMGSolverOptions
    runs = [dict(), dict(near_nullspace="constant"), dict(cycle="W", smoother_sweeps=1), dict(solver="gmres")]
    if c.symmetric and case["phys"] == "elastic":
        runs += [dict(near_nullspace="rigid_body", solver="cg")]
    for kw in runs:
        solver = fe.create_solver(c.p, c.bc, solver_options=A(tol=1e-11, atol=1e-12, maxiter=1500, **kw), linear=True,
                                  traced_params=c.tp)
        _verify(mon, c, "amg", solver(c.tp, ig0), want, c.tp, rtol=1e-6, **kw)
        # other parameters than the sample the hierarchy came from
        tp2 = fe.TracedParams(volume_vars=(jnp.asarray(np.asarray(c.E) * rng.uniform(0.5, 2, len(c.E))),),
                              surface_vars=c.tp.surface_vars)
        _verify(mon, c, "amg other parameters", solver(tp2, ig0), c.linear_solution(tp=tp2), tp2, rtol=1e-6, **kw)
        mon.seen("amg", case["phys"], str(sorted(kw.items())))
    mon.note(dofs=c.n)


def case_large(case, mon):
    """A few thousand DOFs; oracle: the residual itself and agreement between backends."""
    rng = rng_for(case)
    ns = {"HEX8": (9, 6, 6), "QUAD4": (40, 30), "TRI3": (26, 20)}[case["ele"]]
    c = wl.gen(rng, case["phys"], case["ele"], ns=ns)
    f = c.free()
    rows = np.asarray(c.bc.bc_rows)
    sols = {}
    u0 = np.asarray(fe.zero_like_initial_guess(c.p, c.bc))
    scale = np.abs(c.res(u0)[f]).max()
    for name, o in (("auto", fe.DirectSolverOptions()), ("umfpack", fe.DirectSolverOptions(solver="umfpack")),
                    ("cg", fe.KrylovSolverOptions(solver="cg", tol=1e-12, atol=1e-13)),
                    ("amg", fe.AMGSolverOptions(tol=1e-12, atol=1e-13))):
        s = fe.create_solver(c.p, c.bc, solver_options=o, linear=True, traced_params=c.tp)
        sol = wl.dofs_of(s(c.tp, jnp.asarray(u0)))
        mon.close("free residual", c.res(sol)[f], np.zeros(f.sum()), rtol=1e-8, scale=scale, backend=name)
        mon.close("prescribed values", sol[rows], np.asarray(c.bc.bc_vals), rtol=1e-10, scale=1.0)
        sols[name] = sol
    for k in sols:
        mon.close("backends agree", sols[k], sols["auto"], rtol=1e-6, backend=k)
    mon.seen("large", case["phys"], case["ele"])
    mon.note(dofs=c.n)


def case_sweep(case, mon):
    """One solver, many parameter sets, loads and guesses."""
    rng = rng_for(case)
    c = wl.gen(rng, "elastic", "QUAD4", ns=(4, 3))
    solvers = {n: fe.create_solver(c.p, c.bc, solver_options=o, linear=True, traced_params=c.tp) for n, o in
               (("cholmod", fe.DirectSolverOptions(solver="cholmod")), ("umfpack", fe.DirectSolverOptions(solver="umfpack")),
                ("spsolve", fe.DirectSolverOptions(solver="spsolve")))}
    for _ in range(6):
        E = 10.0 ** rng.uniform(-1, 1, len(c.E))
        t, h = rng.normal(), rng.uniform(0, 3) * (rng.random() < 0.7)
        U = fe.TracedParams.create_uniform_surface_var
        tp = fe.TracedParams(volume_vars=(jnp.asarray(E),), surface_vars=[(U(c.p, t), U(c.p, h))])
        want = c.linear_solution(tp=tp)
        for n, s in solvers.items():
            _verify(mon, c, "sweep " + n, s(tp), want, tp)
    mon.seen("sweep")


def case_weak(case, mon):
    """Diffusion with a little convection: barely non-symmetric, and still not symmetric."""
    rng = rng_for(case)
    c = wl.gen(rng, "conv", case["ele"], layout="cell")
    for k in range(2):
        E = rng.uniform(0.7, 1.6, len(c.E)) * 10 ** rng.uniform(1.5 + 1.5 * k, 3 + 1.5 * k)
        tp = fe.TracedParams(volume_vars=(jnp.asarray(E),), surface_vars=c.tp.surface_vars)
        want = c.linear_solution(tp=tp)
        A = c.K(np.zeros(c.n), tp)
        a = float(np.abs(A - A.T).max() / np.abs(A).max())
        for name, kw in (("weak defaults", {}), ("weak direct", dict(solver_options=fe.DirectSolverOptions())),
                         ("weak krylov", dict(solver_options=fe.KrylovSolverOptions(tol=1e-12, atol=0.0, maxiter=4000)))):
            solver = fe.create_solver(c.p, c.bc, linear=True, traced_params=tp, **kw)
            _verify(mon, c, name, solver(tp), want, tp, rtol=1e-8, asymmetry=a)
        mon.seen("weak", case["ele"], int(np.floor(np.log10(a))))


def case_unconverged(case, mon):
    """Too few iterations with the convergence check on: the result is flagged, never a wrong field."""
    rng = rng_for(case)
    c = wl.gen(rng, "diff", "QUAD4", ns=(12, 10))
    want = c.linear_solution()
    ig = fe.zero_like_initial_guess(c.p, c.bc)
    for s in ("cg", "gmres", "bicgstab"):
        for mi in (1, 3, 2000):
            kw = dict(restart=2) if s == "gmres" else {}
            o = fe.KrylovSolverOptions(solver=s, tol=1e-12, atol=1e-13, maxiter=mi, check_convergence=True,
                                       convergence_threshold=1e-6, **kw)
            sol = wl.dofs_of(fe.create_solver(c.p, c.bc, solver_options=o, linear=True)(c.tp, ig))
            if mi == 2000 and s == "cg":
                mon.true("converged result is delivered", np.all(np.isfinite(sol)))
            if np.all(np.isfinite(sol)):
                f = c.free()
                q = np.linalg.norm(c.res(sol)[f]) / np.linalg.norm(c.res(np.asarray(ig))[f])
                mon.true("delivered result is within the stated threshold", q < 1.1e-6, solver=s, maxiter=mi, q=q)
                mon.event("delivered")
            else:
                mon.true("flagged as a whole", np.all(np.isnan(sol[c.free()])), solver=s, maxiter=mi)
                mon.event("flagged")
    mon.seen("unconverged")


def case_neumann(case, mon):
    """Well posed without any Dirichlet DOF (reaction / Robin term): empty constraint set."""
    rng = rng_for(case)
    for phys in ("diff", "conv"):
        c = wl.gen(rng, phys, "QUAD4", ns=(4, 3))
        c.bc = fe.DirichletBC.from_specs(c.p, [])
        want = c.linear_solution()
        runs = [fe.DirectSolverOptions(solver="spsolve"), fe.DirectSolverOptions(solver="umfpack"),
                fe.KrylovSolverOptions(solver="gmres", tol=1e-12, atol=1e-13)]
        if c.symmetric:
            runs.append(fe.DirectSolverOptions(solver="cholmod"))
        for o in runs:
            s = fe.create_solver(c.p, c.bc, solver_options=o, linear=True, traced_params=c.tp)
            sol = wl.dofs_of(s(c.tp, fe.zero_like_initial_guess(c.p, c.bc)))
            mon.close("unconstrained equilibrium", sol, want, rtol=1e-7, phys=phys, backend=o.solver)
        mon.seen("neumann", phys)


def case_lowlevel(case, mon):
    """The public single-step linear_solve and solve functions on assembled matrices (Jacobi preconditioning included)."""
    from feax.assembler import create_J_bc_csr_function, create_res_bc_function
    from feax.solvers.common import create_linear_solve_fn, create_jacobi_preconditioner
    from feax.solvers.linear import linear_solve_adjoint
    rng = rng_for(case)
    c = wl.gen(rng, case["phys"], case["ele"])
    want = c.linear_solution()
    J, r = create_J_bc_csr_function(c.p, c.bc), create_res_bc_function(c.p, c.bc)
    ig = fe.zero_like_initial_guess(c.p, c.bc)
    T = dict(tol=1e-12, atol=1e-14)
    K = fe.KrylovSolverOptions
    opts = [fe.DirectSolverOptions(solver="umfpack"), fe.DirectSolverOptions(solver="spsolve"), K(solver="gmres", **T),
            K(solver="gmres", use_jacobi_preconditioner=True, check_convergence=True, convergence_threshold=1e-8, **T)]
    if c.symmetric:
        opts += [K(solver="cg", use_jacobi_preconditioner=True, **T), fe.DirectSolverOptions(solver="cholmod")]
    A = J(ig, c.tp)
    D = np.asarray(A.todense())
    b = rng.normal(size=c.n)
    for o in opts:
        jac = getattr(o, "use_jacobi_preconditioner", False)
        sol, _ = fe.linear_solve(J, r, ig, c.bc, o, c.p.matrix_view, c.tp)
        _verify(mon, c, "linear_solve", sol, want, c.tp, rtol=1e-7, solver=o.solver, jacobi=jac)
        x = create_linear_solve_fn(o)(A, jnp.asarray(b), jnp.zeros(c.n))
        mon.close("A x = b", D @ np.asarray(x), b, rtol=1e-8, scale=np.abs(D).max() * np.abs(x).max(), solver=o.solver, jacobi=jac)
        x = linear_solve_adjoint(A, jnp.asarray(b), o, c.p.matrix_view, c.bc if rng.random() < .5 else None)
        mon.close("adjoint solve A x = b", D @ np.asarray(x), b, rtol=1e-8, scale=np.abs(D).max() * np.abs(x).max(),
                  solver=o.solver, jacobi=jac)
        mon.seen("lowlevel", case["phys"], o.solver, jac)
    sh = float(rng.uniform(0, .3))
    M = create_jacobi_preconditioner(A, sh)
    mon.close("Jacobi preconditioner", M(jnp.asarray(b)), b / (np.diag(D) + sh), rtol=1e-13)
    mon.close("matrix diagonal", A.diagonal(), np.diag(D), rtol=0, atol=0)
    mon.close("matrix product", A @ jnp.asarray(b), D @ b, rtol=1e-13, scale=np.abs(D).sum(1).max() * np.abs(b).max())
    mon.close("transposed product", A.T @ jnp.asarray(b), D.T @ b, rtol=1e-13, scale=np.abs(D).sum(0).max() * np.abs(b).max())
    mon.close("row-vector product", A.rmatvec(jnp.asarray(b)), D.T @ b, rtol=1e-13,
              scale=np.abs(D).sum(0).max() * np.abs(b).max())
    mon.close("transposed matrix", A.T.todense(), D.T, rtol=0, atol=0)
    mon.note(phys=case["phys"], dofs=c.n)


def case_amgmodes(case, mon):
    """Every way of giving the AMG near-null-space: the preconditioner changes, the solution must not."""
    rng = rng_for(case)
    c = wl.gen(rng, case["phys"], case["ele"], ns=(6, 4) if ref.DIM[ref.ELE[case["ele"]][2]] == 2 else (3, 3, 2))
    want = c.linear_solution()
    ig = fe.zero_like_initial_guess(c.p, c.bc)
    B = np.ones((c.n, 1)) if case["phys"] == "diff" else np.stack([np.tile([1., 0.], c.n // 2), np.tile([0., 1.], c.n // 2)], 1)
    for kw in (dict(near_nullspace=B), dict(near_nullspace="constant", strength=float(rng.uniform(0, .3))),
               dict(near_nullspace="adaptive_sa"), dict(near_nullspace="adaptive_sa", num_nullspace=2)):
        s = fe.create_solver(c.p, c.bc, solver_options=fe.AMGSolverOptions(tol=1e-11, atol=1e-12, maxiter=1500, **kw),
                             linear=True, traced_params=c.tp)
        tag = {k: (v if isinstance(v, (str, int)) else "given") for k, v in kw.items()}
        _verify(mon, c, "amg", s(c.tp, ig), want, c.tp, rtol=1e-6, **tag)
        mon.seen("amgmodes", case["phys"], str(tag))


def case_units(case, mon):
    """The same physics in any system of units: nothing may depend on an absolute size."""
    rng = rng_for(case)
    D, K, A = fe.DirectSolverOptions, fe.KrylovSolverOptions, fe.AMGSolverOptions
    for _ in range(2):
        unit = wl.random_unit(rng)
        c = wl.gen(rng, "elastic", case["ele"], layout="cell", unit=unit)
        want = c.linear_solution()
        f = c.free()
        Kd = c.K(np.zeros(c.n))
        rs = (np.abs(Kd[f]) @ np.abs(want)).max()
        rows = np.asarray(c.bc.bc_rows)
        opts = [D(solver=s) for s in ("spsolve", "umfpack", "cholmod")]
        opts += [K(solver="cg", tol=1e-12, atol=0.0, maxiter=5000, use_jacobi_preconditioner=True),
                 A(tol=1e-12, atol=0.0, maxiter=500)]
        for k in sorted(rng.choice(len(opts), 3, replace=False)):
            solver = fe.create_solver(c.p, c.bc, solver_options=opts[k], linear=True, traced_params=c.tp)
            for ig in (None, jnp.asarray(rng.normal(size=c.n) * np.abs(want).max())):
                sol = wl.dofs_of(solver(c.tp) if ig is None else solver(c.tp, ig))
                kw = dict(unit=unit, backend=int(k), guess=ig is not None)
                mon.close("units: the equilibrium field", sol, want, rtol=1e-7, scale=np.abs(want).max(), **kw)
                mon.close("units: free residual", c.res(sol)[f], np.zeros(f.sum()), rtol=1e-8, scale=rs, **kw)
                mon.close("units: prescribed values", sol[rows], np.asarray(c.bc.bc_vals), rtol=1e-9,
                          scale=np.abs(want).max(), **kw)
            mon.seen("units", case["ele"], int(k), int(np.floor(np.log10(unit[0]))), unit[1])
        mon.true("units: a field in that unit", 1e-4 * unit[0] < np.abs(want).max())
