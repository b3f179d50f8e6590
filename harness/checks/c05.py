"""C05: Newton solves end at true equilibrium, or say that they did not."""
import numpy as np

from harness import ref, wl
from harness.lazy import fe, jax, jnp
from harness.mon import rng_for

ID = "C05"
RULE = ("nonlinear problems (neo-Hookean, nonlinear diffusion-reaction, coupled two-field, stiff reaction needing the line "
        "search, inconsistent tangents) x solver path (spsolve, umfpack, cholmod, cg, gmres, bicgstab, AMG fixed/lagged/"
        "rebuilt, assembled and hybrid extra residual, structure passing) x elimination x tolerances x budgets; oracle = "
        "observed residual at the returned state and a dense reference Newton; distinct by (physics, path, elimination)")
ASSUMPTIONS = ["residual values come from get_res (C01)", "a root is reachable: the dense reference Newton finds it"]
MIN_EVALUATIONS = 120

PATHS = ("spsolve", "umfpack", "cholmod", "cg", "gmres", "bicgstab", "amg0", "amgN", "amg2", "nonsym", "ts",
         "extra", "extra-krylov", "extra-nonsym", "default")


def cases(tier, seed):
    out = []
    reps = 1 if tier == "quick" else 6
    tab = {"nh": ("QUAD4", "TET4", "TRI6", "HEX8"), "nlflux": ("TRI3", "QUAD4", "TET4", "QUAD8"),
           "pair": ("QUAD4", "TRI3")}
    for r in range(reps):
        for k, path in enumerate(PATHS):
            for phys in (("nh", "nlflux") if r or path in ("spsolve", "extra", "gmres") else
                         (("nh", "nlflux")[(k + r + seed) % 2],)):
                if path in ("cholmod", "cg") and phys != "nh":
                    phys = "nh"
                out.append(dict(kind="modes", phys=phys, ele=tab[phys][(k + r + seed) % len(tab[phys])], path=path,
                                r=r, cost=5))
        for path in ("spsolve", "gmres", "extra"):
            out.append(dict(kind="modes", phys="pair", ele=tab["pair"][(r + seed) % 2], path=path, r=r, cost=5))
        out.append(dict(kind="tolerance", r=r, cost=6))
        for path in ("spsolve", "gmres", "extra", "extra-krylov", "amgN"):
            out.append(dict(kind="linesearch", path=path, r=r, cost=6))
        for path in ("spsolve", "gmres"):
            out.append(dict(kind="inconsistent", path=path, r=r, cost=3))
        for path in ("spsolve", "nonsym"):
            out.append(dict(kind="loading", path=path, r=r, cost=6))
        out.append(dict(kind="budget", r=r, cost=5))
        for ele in ("QUAD4", "TET4"):
            out.append(dict(kind="units", ele=ele, r=r, cost=6))
    return [dict(c, seed=seed, i=n) for n, c in enumerate(out)]


def pair_problem(rng, ele):
    """Two coupled scalar fields with a non-symmetric, nonlinear coupling."""
    ns = (3, 3)
    size, org = rng.uniform(.8, 1.5, 2), rng.uniform(-1, 1, 2)
    pts, cells = wl.make_mesh(rng, ele, ns, size, org, distort=.1)
    m = wl.fmesh(pts, cells, ele)
    lo, hi = float(org[0]), float(org[0] + size[0])

    class P(fe.problem.Problem):
        def get_weak_form(self):
            def wf(vals, grads, x, k):
                a, b = vals
                return ([0.5 * a + 0.2 * a ** 3 - b - 1.0, b - 0.3 * a * a + 0.1 * b ** 3],
                        [k * (1 + 0.2 * a[0] ** 2) * grads[0], 0.5 * grads[1] + 0.1 * grads[0]])
            return wf

        def get_surface_weak_forms(self):
            return [lambda vals, x, t, h: [t * jnp.ones(1) + h * vals[0], h * (vals[1] - vals[0])]]
    p = P([m, m], vec=[1, 1], dim=2, ele_type=[ele, ele], gauss_order=[2, 2],
          location_fns=[wl.side(1, float(org[1] + size[1]))])
    U = fe.TracedParams.create_uniform_surface_var
    tp = fe.TracedParams(volume_vars=(jnp.asarray(rng.uniform(.7, 1.5, len(pts))),),
                         surface_vars=[(U(p, float(rng.uniform(-.3, .3))), U(p, 0.4))])
    S = fe.DirichletBCSpec
    bc = fe.DirichletBC.from_specs(p, [S(wl.side(0, lo), 0, 0.3, variable_index=0),
                                       S(wl.side(0, hi), 0, -0.2, variable_index=1)])
    return wl.Case(p=p, tp=tp, bc=bc, kind="pair", symmetric=False, linear=False)


def _case(rng, phys, ele, **kw):
    return pair_problem(rng, ele) if phys == "pair" else wl.gen(rng, phys, ele, distort=0.1, **kw)


def _extra(rng, n):
    w = jnp.asarray(rng.uniform(0.05, 0.3, n))
    f = jnp.asarray(rng.normal(size=n) * 0.01)
    i, j = (int(a) for a in rng.choice(n, 2, replace=False))

    def fn(s):
        r = w * s + 0.05 * s ** 3 - f
        d = s[i] - s[j]
        return r.at[i].add(0.3 * d).at[j].add(-0.3 * d)
    return fn


def _kw(path, rng, c, newton):
    D, K, A = fe.DirectSolverOptions, fe.KrylovSolverOptions, fe.AMGSolverOptions
    T = dict(tol=1e-11, atol=1e-13)
    kw, extra = dict(newton_options=newton), None
    if path in ("spsolve", "umfpack", "cholmod"):
        kw["solver_options"] = D(solver=path)
    elif path in ("cg", "gmres", "bicgstab"):
        kw["solver_options"] = K(solver=path, maxiter=2000, **T)
    elif path.startswith("amg"):
        kw["solver_options"] = A(solver="gmres", rebuild_every={"0": 0, "N": None, "2": 2}[path[3]], maxiter=500, **T)
    elif path == "nonsym":
        kw.update(solver_options=D(solver="spsolve"), symmetric_elimination=False)
    elif path == "ts":
        kw["solver_options"] = D(solver="spsolve")
    elif path.startswith("extra"):
        extra = _extra(rng, c.n)
        kw["extra_residual_fn"] = extra
        kw["solver_options"] = K(solver="gmres", maxiter=2000, **T) if "krylov" in path else D(solver="spsolve")
        if "nonsym" in path:
            kw["symmetric_elimination"] = False
    return kw, extra


def _total(c, extra):
    if extra is None:
        return c.res
    f = jax.jit(extra)
    return lambda u, tp=None: c.res(u, tp) + np.asarray(f(jnp.asarray(u)))


def reference(c, extra, u0, bc=None, iters=60):
    """Dense Newton with backtracking from the lifted initial guess."""
    bc = bc or c.bc
    rows = np.asarray(bc.bc_rows)
    f = c.free(bc)
    res = _total(c, extra)
    Je = jax.jit(jax.jacfwd(extra)) if extra is not None else None
    u = np.array(u0, float)
    u[rows] = np.asarray(bc.bc_vals)
    for _ in range(iters):
        r = res(u)[f]
        n0 = np.linalg.norm(r)
        if n0 < 1e-12:
            break
        K = c.K(u)
        if Je is not None:
            K = K + np.asarray(Je(jnp.asarray(u)))
        d = np.linalg.solve(K[np.ix_(f, f)], -r)
        a = 1.0
        while a > 1e-10:
            t = u.copy()
            t[f] += a * d
            rn = np.linalg.norm(res(t)[f])
            if np.isfinite(rn) and rn < (1 - 1e-4 * a) * n0 or rn < 1e-12:
                break
            a *= 0.5
        else:
            break
        u = t
    return u, float(np.linalg.norm(res(u)[f]))


def _rb(c, res, u, bc):
    r = res(u).copy()
    rows = np.asarray(bc.bc_rows)
    r[rows] = u[rows] - np.asarray(bc.bc_vals)
    return r


def case_modes(case, mon):
    rng = rng_for(case)
    path = case["path"]
    c = _case(rng, case["phys"], case["ele"])
    N = fe.NewtonOptions(tol=1e-9, rel_tol=1e-12, max_iter=50)
    kw, extra = _kw(path, rng, c, N)
    call, res = {}, _total(c, extra)
    ig = fe.zero_like_initial_guess(c.p, c.bc)
    uref, rref = reference(c, extra, np.asarray(ig))
    if rref > 1e-9:
        mon.event("reference did not converge")
        mon.true("reference", True)
        return
    c.res(np.zeros(c.n))
    c.K(np.zeros(c.n))
    if path == "ts":
        ts = fe.TracedStructure.from_problem(c.p, free_scratch=False)
        kw["traced_structure"] = ts
        call["traced_structure"] = ts
    solver = fe.create_solver(c.p, c.bc, linear=False, traced_params=c.tp, **kw)
    f, rows = c.free(), np.asarray(c.bc.bc_rows)
    for tag, g in (("lifted", ig), ("perturbed", ig + jnp.asarray(np.where(f, rng.normal(size=c.n) * 0.01, 0.0)))):
        sol = wl.dofs_of(solver(c.tp, g, **call))
        mon.true("equilibrium on free DOFs", np.linalg.norm(res(sol)[f]) <= 1.05e-9, tag=tag,
                 norm=float(np.linalg.norm(res(sol)[f])), path=path)
        mon.close("prescribed values", sol[rows], np.asarray(c.bc.bc_vals), rtol=1e-9, scale=1.0, tag=tag)
        mon.close("the reference root", sol, uref, rtol=1e-6, path=path, tag=tag)
    mon.true("non-trivial", np.abs(uref[f]).max() > 1e-3)
    K0, K1 = c.K(np.asarray(ig)), c.K(uref)
    mon.event("tangent changed along the way", int(np.abs(K1 - K0).max() > 1e-4))
    mon.seen("modes", case["phys"], path, case["ele"])
    mon.note(phys=case["phys"], path=path, dofs=c.n, residual=float(np.linalg.norm(res(sol)[f])))


def case_tolerance(case, mon):
    """The returned state honours whichever tolerance stops the run."""
    rng = rng_for(case)
    for phys, ele in (("nh", "QUAD4"), ("nlflux", "TRI3")):
        c = _case(rng, phys, ele)
        ig = np.asarray(fe.zero_like_initial_guess(c.p, c.bc))
        r0 = np.linalg.norm(_rb(c, c.res, ig, c.bc))
        for tol, rel in ((1e-4, 1e-30), (1e-8, 1e-30), (1e-30, 1e-3), (1e-30, 1e-7), (1e-2 * r0, 1e-30)):
            s = fe.create_solver(c.p, c.bc, linear=False, traced_params=c.tp,
                                 solver_options=fe.DirectSolverOptions(solver="spsolve"),
                                 newton_options=fe.NewtonOptions(tol=tol, rel_tol=rel, max_iter=60))
            sol = wl.dofs_of(s(c.tp, jnp.asarray(ig)))
            rn = np.linalg.norm(_rb(c, c.res, sol, c.bc))
            mon.true("requested tolerance met", rn <= tol * 1.0001 or rn <= rel * r0 * 1.0001, rn=float(rn),
                     r0=float(r0), tol=tol, rel=rel)
        # starting at the root: nothing may move it away
        s = fe.create_solver(c.p, c.bc, linear=False, traced_params=c.tp,
                             solver_options=fe.DirectSolverOptions(solver="spsolve"),
                             newton_options=fe.NewtonOptions(tol=1e-9, rel_tol=1e-30, max_iter=60))
        a = s(c.tp, jnp.asarray(ig))
        b = wl.dofs_of(s(c.tp, a))
        mon.close("a root is a fixed point", b, wl.dofs_of(a), rtol=1e-8)
        mon.seen("tolerance", phys)


def _stiff(rng):
    """Reaction so steep that full Newton steps overshoot: the line search must work."""
    ns = (5, 4)
    size, org = rng.uniform(.9, 1.3, 2), rng.uniform(-1, 1, 2)
    pts, cells = wl.make_mesh(rng, "QUAD4", ns, size, org, distort=.1)
    m = wl.fmesh(pts, cells, "QUAD4")
    a = float(rng.uniform(15, 40))

    class P(fe.problem.Problem):
        def get_tensor_map(self):
            return lambda g, k: 1e-3 * k * g

        def get_mass_map(self):
            return lambda u, x, k: jnp.arctan(a * (u - 0.3)) + 1e-3 * u
    p = P(m, vec=1, dim=2, ele_type="QUAD4")
    bc = fe.DirichletBC.from_specs(p, [fe.DirichletBCSpec(wl.side(0, float(org[0])), 0, 2.0)])
    tp = fe.TracedParams(volume_vars=(jnp.asarray(rng.uniform(.8, 1.2, len(pts))),), surface_vars=[])
    return wl.Case(p=p, tp=tp, bc=bc, kind="stiff", symmetric=True)


def case_linesearch(case, mon):
    rng = rng_for(case)
    path = case["path"]
    c = _stiff(rng)
    N = fe.NewtonOptions(tol=1e-9, rel_tol=1e-13, max_iter=100)
    kw, extra = _kw(path, rng, c, N)
    if extra is not None:
        w = jnp.asarray(rng.uniform(1e-4, 1e-3, c.n))
        extra = lambda s: w * s
        kw["extra_residual_fn"] = extra
    res = _total(c, extra)
    f, rows = c.free(), np.asarray(c.bc.bc_rows)
    ig = np.where(f, 1.5, 2.0)
    # does the undamped iteration really diverge?  (otherwise nothing is being tested)
    u = ig.copy()
    for _ in range(6):
        u[f] -= np.linalg.solve(c.K(u)[np.ix_(f, f)], c.res(u)[f])
    mon.event("undamped Newton diverges", int(not np.linalg.norm(res(u)[f]) < np.linalg.norm(res(ig)[f])))
    uref, rref = reference(c, extra, ig, iters=200)
    solver = fe.create_solver(c.p, c.bc, linear=False, traced_params=c.tp, **kw)
    sol = wl.dofs_of(solver(c.tp, jnp.asarray(ig)))
    mon.true("line search reaches equilibrium", np.linalg.norm(res(sol)[f]) <= 1.05e-9 or rref > 1e-9, path=path,
             norm=float(np.linalg.norm(res(sol)[f])), ref=rref)
    mon.close("prescribed values", sol[rows], np.asarray(c.bc.bc_vals), rtol=1e-9, scale=1.0)
    if rref < 1e-9:
        mon.close("the unique root", sol, uref, rtol=1e-5, path=path)
    # residual never increases from budget to budget
    last = np.inf
    for k in ((1, 2, 3, 5, 8) if path == "spsolve" else (2,)):
        kk = dict(kw, newton_options=fe.NewtonOptions(tol=1e-9, rel_tol=1e-13, max_iter=k))
        s = fe.create_solver(c.p, c.bc, linear=False, traced_params=c.tp, **kk)
        rn = np.linalg.norm(_rb(c, res, wl.dofs_of(s(c.tp, jnp.asarray(ig))), c.bc))
        mon.true("accepted steps never increase the residual",
                 rn <= np.linalg.norm(_rb(c, res, ig, c.bc)) * (1 + 1e-9) and rn <= last * (1 + 1e-9), k=k, rn=float(rn))
        last = rn
    mon.seen("linesearch", path)
    mon.note(path=path, ref=rref)


def case_inconsistent(case, mon):
    """A tangent that points uphill: the failure must be reported (or, if told not to, must not do harm)."""
    rng = rng_for(case)
    ns = (3, 3)
    pts, cells = wl.make_mesh(rng, "QUAD4", ns, distort=.1)
    m = wl.fmesh(pts, cells, "QUAD4")

    class P(fe.problem.Problem):
        def get_tensor_map(self):
            def tm(g, k):
                s = jax.lax.stop_gradient(g)
                return k * (2 * s - g)          # value k*g, derivative -k
            return tm

        def get_mass_map(self):
            def mm(u, x, k):
                s = jax.lax.stop_gradient(u)
                return 2 * s - u - x[0] * jnp.ones(1)
            return mm
    p = P(m, vec=1, dim=2, ele_type="QUAD4")
    bc = fe.DirichletBC.from_specs(p, [fe.DirichletBCSpec(wl.side(0, 0.0), 0, 0.5)])
    tp = fe.TracedParams(volume_vars=(jnp.ones(len(pts)),), surface_vars=[])
    c = wl.Case(p=p, tp=tp, bc=bc)
    ig = fe.zero_like_initial_guess(p, bc)
    o = fe.DirectSolverOptions(solver="spsolve") if case["path"] == "spsolve" else \
        fe.KrylovSolverOptions(solver="gmres", tol=1e-10, atol=1e-12)
    from feax.solvers.newton import NewtonLineSearchError
    s = fe.create_solver(p, bc, linear=False, traced_params=tp, solver_options=o,
                         newton_options=fe.NewtonOptions(tol=1e-10, max_iter=20))
    mon.raises("failed line search raises", lambda: s(tp, ig), NewtonLineSearchError)
    for mb in (2, 30):
        s = fe.create_solver(p, bc, linear=False, traced_params=tp, solver_options=o,
                             newton_options=fe.NewtonOptions(tol=1e-10, max_iter=20, raise_on_line_search_failure=False,
                                                             line_search_max_backtracks=mb))
        sol = wl.dofs_of(s(tp, ig))
        r0 = np.linalg.norm(_rb(c, c.res, np.asarray(ig), bc))
        rn = np.linalg.norm(_rb(c, c.res, sol, bc))
        mon.true("told not to raise: finite state no worse than it started", np.isfinite(rn) and rn <= r0 * (1 + 1e-5),
                 rn=float(rn), r0=float(r0))
        js = wl.dofs_of(jax.jit(lambda t, g: s(t, g).dofs)(tp, ig))
        mon.true("compiled: finite state no worse than it started",
                 np.linalg.norm(_rb(c, c.res, js, bc)) <= r0 * (1 + 1e-5))
    # a failure leaves the solver usable
    mon.raises("raises again", lambda: fe.create_solver(
        p, bc, linear=False, traced_params=tp, solver_options=o,
        newton_options=fe.NewtonOptions(tol=1e-10, max_iter=20))(tp, ig), NewtonLineSearchError)
    mon.seen("inconsistent", case["path"])


def case_loading(case, mon):
    """Large deformation in load steps, each started from the last state."""
    rng = rng_for(case)
    c = wl.gen(rng, "nh", "QUAD4", ns=(4, 3), t=0.02, h=0.1)
    sym = case["path"] != "nonsym"
    s = fe.create_solver(c.p, c.bc, linear=False, traced_params=c.tp, symmetric_elimination=sym,
                         solver_options=fe.DirectSolverOptions(solver="umfpack"),
                         newton_options=fe.NewtonOptions(tol=1e-9, rel_tol=1e-14, max_iter=60))
    v0 = np.asarray(c.bc.bc_vals)
    rows, f = np.asarray(c.bc.bc_rows), c.free()
    u = np.zeros(c.n)
    for k in range(1, 7):
        bc = c.bc.replace_vals(jnp.asarray(v0 / np.abs(v0).max() * 0.1 * k * c.size[0]))
        g = u.copy()
        if sym:                                 # documented use: lift the guess
            g[rows] = np.asarray(bc.bc_vals)
        u = wl.dofs_of(s(c.tp, jnp.asarray(g), bc=bc))
        mon.true("equilibrium at this load step", np.linalg.norm(c.res(u)[f]) <= 1.05e-9, k=k,
                 norm=float(np.linalg.norm(c.res(u)[f])))
        mon.close("prescribed values at this load step", u[rows], np.asarray(bc.bc_vals), rtol=1e-9, scale=1.0)
    uref, rref = reference(c, None, u, bc=bc)
    if rref < 1e-9:
        mon.close("reference root at the last step", u, uref, rtol=1e-6)
    mon.seen("loading", case["path"])
    mon.note(stretch=float(np.abs(u).max()))


def case_budget(case, mon):
    """The k-step state equals k steps of the reference iteration while full steps are accepted."""
    rng = rng_for(case)
    c = _case(rng, "nlflux", "QUAD4")
    f = c.free()
    ig = np.asarray(fe.zero_like_initial_guess(c.p, c.bc))
    u = ig.copy()
    for k in range(1, 5):
        s = fe.create_solver(c.p, c.bc, linear=False, traced_params=c.tp,
                             solver_options=fe.DirectSolverOptions(solver="spsolve"),
                             newton_options=fe.NewtonOptions(tol=1e-30, rel_tol=1e-30, max_iter=k,
                                                             raise_on_line_search_failure=False))
        r = c.res(u)[f]
        if np.linalg.norm(r) < 1e-8:
            break
        d = np.linalg.solve(c.K(u)[np.ix_(f, f)], -r)
        t = u.copy()
        t[f] += d
        if np.linalg.norm(c.res(t)[f]) > 0.9 * np.linalg.norm(r):
            break
        u = t
        mon.close("k steps are k Newton steps", wl.dofs_of(s(c.tp, jnp.asarray(ig))), u, rtol=1e-8, k=k)
    mon.true("steps observed", k >= 2)
    mon.seen("budget")


def case_units(case, mon):
    """The same nonlinear problem in any system of units, to the tolerance asked for in those units."""
    rng = rng_for(case)
    D, K = fe.DirectSolverOptions, fe.KrylovSolverOptions
    for _ in range(2):
        unit = wl.random_unit(rng)
        c = wl.gen(rng, "nh", case["ele"], layout="cell", unit=unit)
        fs = unit[1] * unit[0] ** (c.dim - 1)
        u0 = np.zeros(c.n)
        want = None
        for k, opt in enumerate((D(solver="spsolve"), D(solver="cholmod"),
                                 K(solver="cg", tol=1e-10, atol=0.0, maxiter=5000, use_jacobi_preconditioner=True))):
            rel = k == 1
            N = fe.NewtonOptions(tol=1e-300 if rel else 1e-10 * fs, rel_tol=1e-9 if rel else 1e-30, max_iter=40)
            solver = fe.create_solver(c.p, c.bc, solver_options=opt, traced_params=c.tp, newton_options=N)
            ig = fe.zero_like_initial_guess(c.p, c.bc)
            sol = wl.dofs_of(solver(c.tp, ig))
            f = c.free()
            r = c.res(sol)[f]
            r0 = np.linalg.norm(c.res(wl.dofs_of(ig))[f])
            lim = 1e-9 * r0 if rel else 1e-10 * fs
            mon.true("units: residual within the requested tolerance", np.linalg.norm(r) <= 1.05 * lim, got=float(np.linalg.norm(r)),
                     limit=float(lim), unit=unit, backend=k)
            rows = np.asarray(c.bc.bc_rows)
            mon.close("units: prescribed values", sol[rows], np.asarray(c.bc.bc_vals), rtol=1e-12, scale=np.abs(sol).max())
            if want is None:
                want = sol
            mon.close("units: the same field", sol, want, rtol=1e-6, scale=np.abs(want).max(), unit=unit, backend=k)
            mon.seen("units", case["ele"], k, int(np.floor(np.log10(unit[0]))), unit[1])
