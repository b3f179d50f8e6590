"""C06: reverse-mode gradients through a solve equal the sensitivities of the discrete solution map."""
import numpy as np

from harness import ref, wl
from harness.lazy import fe, jax, jnp
from harness.mon import rng_for
from harness.checks import c05

ID = "C06"
RULE = ("random objectives of the solved field, differentiated w.r.t. volume parameters, surface loads and prescribed values "
        "through every solver path (linear / Newton / reduced; direct, Krylov, AMG; different adjoint solver; triangular "
        "views; both eliminations; extra residual; compiled) on symmetric and non-symmetric operators; oracle = dense "
        "implicit-function sensitivities of the observed residual plus central differences of the solver itself; distinct "
        "by (path, physics, parameter class)")
ASSUMPTIONS = ["parameter derivatives of the residual itself are taken by jax from get_res (C01/C02)"]
MIN_EVALUATIONS = 150

LIN = ("spsolve", "umfpack", "cholmod", "cg", "gmres", "amg", "nonsym", "mix1", "mix2", "ts", "gmres-nonsym",
       "auto", "auto-mix1", "auto-mix2", "auto-nonsym")
NEW = ("spsolve", "cholmod", "gmres", "amg0", "amgN", "nonsym", "extra", "extra-krylov", "extra-nonsym", "extra-mix", "ts")


def cases(tier, seed):
    out = []
    reps = 1 if tier == "quick" else 6
    eles = ("QUAD4", "TRI3", "TET4", "QUAD8", "HEX8", "TRI6")
    for r in range(reps):
        for k, path in enumerate(LIN):
            physs = ("elastic", "conv", "mixed", "diff")
            ph = [p for p in (physs[(k + r + seed) % 4], physs[(k + 1 + r + seed) % 4])]
            if path in ("cholmod", "cg"):
                ph = ["elastic", "diff"]
            for phys in ph:
                out.append(dict(kind="linear", phys=phys, ele=eles[(k + r + seed + len(out)) % 6], path=path, r=r, cost=4))
        for phys, view in (("elastic", "UPPER"), ("diff", "LOWER")):
            out.append(dict(kind="linear", phys=phys, ele="QUAD4", path="cholmod", view=view, r=r, cost=4))
            out.append(dict(kind="linear", phys=phys, ele="TRI3", path="cg", view=view, r=r, cost=4))
        for k, path in enumerate(NEW):
            phys = ("nh", "nlflux", "pair")[(k + r + seed) % 3]
            if path == "cholmod":
                phys = "nh"
            out.append(dict(kind="newton", phys=phys, ele=("QUAD4", "TRI3")[(k + r + seed) % 2], path=path, r=r, cost=6))
        out.append(dict(kind="newton", phys="nh", ele="QUAD4", path="cholmod", view="UPPER", r=r, cost=6))
        for path in ("cg", "spsolve", "gmres", "amg", "mix"):
            out.append(dict(kind="reduced", path=path, r=r, cost=5))
        for k, path in enumerate(("spsolve", "cholmod", "cg")):
            out.append(dict(kind="units", path=path, newton=k < 2, ele=("QUAD4", "TET4", "TRI3")[k], r=r, cost=6))
        for k, path in enumerate(("spsolve", "cg", "nonsym", "newton", "newton-gmres", "newton-ts")):
            out.append(dict(kind="override", path=path, ele=("QUAD4", "TRI3", "TET4")[(k + seed) % 3], r=r, cost=5))
        out.append(dict(kind="chain", r=r, cost=5))
        out.append(dict(kind="fd", r=r, cost=5))
    return [dict(c, seed=seed, i=n) for n, c in enumerate(out)]


def _objective(rng, n):
    w = jnp.asarray(rng.normal(size=n))
    q = jnp.asarray(rng.normal(size=n))
    k = int(rng.integers(n))

    def J(u):
        return jnp.sum(w * u) + 0.5 * jnp.sum(q * u * u) + jnp.sin(u[k])
    return J


def sensitivities(c, u, J, extra=None, bc=None):
    """(dJ/dtp, dJ/dbc_vals) of the constrained root u, densely."""
    bc = bc or c.bc
    rows, f = np.asarray(bc.bc_rows), c.free(bc)
    K = c.K(u)
    if extra is not None:
        K = K + np.asarray(jax.jit(jax.jacfwd(extra))(jnp.asarray(u)))
    g = np.asarray(jax.jit(jax.grad(J))(jnp.asarray(u)))
    lam = np.zeros(c.n)
    lam[f] = np.linalg.solve(K[np.ix_(f, f)].T, g[f])
    lj = jnp.asarray(lam)
    dtp = jax.jit(lambda uu, tp: jax.grad(lambda t: -jnp.vdot(lj, c.res_flat(uu, t)))(tp))(jnp.asarray(u), c.tp)
    dbc = g[rows] - (K.T @ lam)[rows]
    return dtp, dbc


def _cmp(mon, c, got_tp, got_bc, want_tp, want_bc, rtol=1e-6, **kw):
    names = ["volume parameter"] * len(want_tp.volume_vars)
    for n, a, b in zip(names, got_tp.volume_vars, want_tp.volume_vars):
        b = np.asarray(b)
        mon.close("gradient w.r.t. " + n, np.asarray(a), b, rtol=rtol, scale=max(np.abs(b).max(), 1e-4), **kw)
    for ga, gb in zip(got_tp.surface_vars, want_tp.surface_vars):
        for a, b in zip(ga, gb):
            b = np.asarray(b)
            mon.close("gradient w.r.t. surface load", np.asarray(a), b, rtol=rtol, scale=max(np.abs(b).max(), 1e-4), **kw)
    mon.close("gradient w.r.t. prescribed values", np.asarray(got_bc), want_bc, rtol=rtol,
              scale=max(np.abs(want_bc).max(), 1e-4), **kw)


def _grad(solver, c, J, ig, jit=False, **call):
    def obj(tp, v):
        s = solver(tp, ig, bc=c.bc.replace_vals(v), **call)
        return J(s.dofs if hasattr(s, "dofs") else s)
    g = jax.grad(obj, argnums=(0, 1))
    if jit:
        g = jax.jit(g)
    return g(c.tp, c.bc.bc_vals)


def case_linear(case, mon):
    rng = rng_for(case)
    path = case["path"]
    c = wl.gen(rng, case["phys"], case["ele"], view=case.get("view", "FULL"))
    D, K, A = fe.DirectSolverOptions, fe.KrylovSolverOptions, fe.AMGSolverOptions
    kry = K(solver="cg" if path == "cg" else "gmres", tol=1e-13, atol=1e-15, maxiter=2000)
    kw, call = {}, {}
    if path in ("spsolve", "umfpack", "cholmod"):
        kw = dict(solver_options=D(solver=path))
    elif path in ("cg", "gmres"):
        kw = dict(solver_options=kry)
    elif path == "amg":
        kw = dict(solver_options=A(solver="gmres", tol=1e-12, atol=1e-14, maxiter=1000))
    elif path == "nonsym":
        kw = dict(solver_options=D(solver="spsolve"), symmetric_elimination=False)
    elif path == "gmres-nonsym":
        kw = dict(solver_options=kry, symmetric_elimination=False)
    elif path == "mix1":
        kw = dict(solver_options=D(solver="spsolve"), adjoint_solver_options=kry)
    elif path == "mix2":
        kw = dict(solver_options=kry, adjoint_solver_options=D(solver="umfpack"))
    elif path == "auto-mix1":                               # forward and adjoint chosen by the library, separately
        kw = dict(solver_options=D(), adjoint_solver_options=K(tol=1e-13, atol=1e-15, maxiter=2000))
    elif path == "auto-mix2":
        kw = dict(solver_options=K(tol=1e-13, atol=1e-15, maxiter=2000), adjoint_solver_options=D())
    elif path == "auto-nonsym":
        kw = dict(symmetric_elimination=False)
    elif path == "ts":
        ts = fe.TracedStructure.from_problem(c.p, free_scratch=False)
        kw = dict(solver_options=D(solver="spsolve"), traced_structure=ts)
        call = dict(traced_structure=ts)
    solver = fe.create_solver(c.p, c.bc, linear=True, traced_params=c.tp, **kw)
    J = _objective(rng, c.n)
    u = c.linear_solution()
    want_tp, want_bc = sensitivities(c, u, J)
    ig = fe.zero_like_initial_guess(c.p, c.bc)
    got_tp, got_bc = _grad(solver, c, J, ig, **call)
    _cmp(mon, c, got_tp, got_bc, want_tp, want_bc, path=path, phys=case["phys"])
    if path in ("spsolve", "gmres", "ts", "cholmod"):
        a, b = _grad(solver, c, J, ig, jit=True, **call)
        _cmp(mon, c, a, b, want_tp, want_bc, path=path + " compiled", phys=case["phys"])
    if path in ("nonsym", "cg", "umfpack"):       # guess that does not carry the values
        a, b = _grad(solver, c, J, jnp.asarray(rng.normal(size=c.n) * 0.1), **call)
        _cmp(mon, c, a, b, want_tp, want_bc, path=path + " other guess", phys=case["phys"])
    K0 = c.K(u)
    mon.event("non-symmetric operator", int(np.abs(K0 - K0.T).max() > 1e-6))
    mon.true("non-trivial", np.abs(want_bc).max() > 1e-6 and np.abs(np.asarray(want_tp.volume_vars[0])).max() > 1e-8)
    mon.seen("linear", case["phys"], path, case["ele"], case.get("view", "FULL"))
    mon.note(phys=case["phys"], path=path, dofs=c.n, asym=float(np.abs(K0 - K0.T).max()))


def case_newton(case, mon):
    rng = rng_for(case)
    path = case["path"]
    c = c05.pair_problem(rng, case["ele"]) if case["phys"] == "pair" else \
        wl.gen(rng, case["phys"], case["ele"], distort=0.1, view=case.get("view", "FULL"))
    N = fe.NewtonOptions(tol=1e-11, rel_tol=1e-14, max_iter=60, raise_on_line_search_failure=False)
    kw, extra = c05._kw(path, rng, c, N)
    if path == "extra-mix":
        kw["adjoint_solver_options"] = fe.KrylovSolverOptions(solver="gmres", tol=1e-13, atol=1e-15, maxiter=2000)
    call = {}
    if path == "ts":
        ts = fe.TracedStructure.from_problem(c.p, free_scratch=False)
        kw["traced_structure"] = ts
        call["traced_structure"] = ts
    ig = fe.zero_like_initial_guess(c.p, c.bc)
    u, rr = c05.reference(c, extra, np.asarray(ig))
    if rr > 1e-9:
        mon.true("reference unreachable", True)
        return
    solver = fe.create_solver(c.p, c.bc, linear=False, traced_params=c.tp, **kw)
    J = _objective(rng, c.n)
    want_tp, want_bc = sensitivities(c, u, J, extra)
    got_tp, got_bc = _grad(solver, c, J, ig, **call)
    _cmp(mon, c, got_tp, got_bc, want_tp, want_bc, rtol=2e-6, path=path, phys=case["phys"])
    if path in ("spsolve", "gmres", "ts"):
        a, b = _grad(solver, c, J, ig, jit=True, **call)
        _cmp(mon, c, a, b, want_tp, want_bc, rtol=2e-6, path=path + " compiled", phys=case["phys"])
    mon.seen("newton", case["phys"], path, case.get("view", "FULL"))
    mon.note(phys=case["phys"], path=path, dofs=c.n)


def periodic_case(rng, nonsym=False, pins=True):
    """Left/right tied structured mesh, with its dense prolongation."""
    ns = (4, 3)
    size, org = rng.uniform(0.8, 1.6, 2), rng.uniform(-1, 1, 2)
    pts, cells = wl.make_mesh(rng, "QUAD4", ns, size, org)
    m = wl.fmesh(pts, cells, "QUAD4")

    class P(fe.problem.Problem):
        def get_tensor_map(self):
            A = jnp.asarray([[1.0, 0.4 if nonsym else 0.1], [0.1, 1.0]])
            return lambda g, k: k * (g @ A)

        def get_mass_map(self):
            return lambda u, x, k: 0.3 * u - jnp.ones_like(u) * jnp.sin(x[0] * 2)

        def get_extra_kernel(self):
            if not nonsym:
                return None
            vel = jnp.asarray([1.1, -0.6])

            def kernel(u, xq, sg, JxW, vg, *vs):
                us = self.unflatten_fn_dof(u)[0]
                gq = jnp.einsum("av,qai->qvi", us, sg)
                return jnp.ravel(jnp.einsum("qvi,i,qa,q->av", gq, vel, self.fes[0].shape_vals, JxW[0]))
            return kernel

        def get_surface_maps(self):
            return [lambda u, x, t: t * jnp.ones_like(u)]
    p = P(m, vec=1, dim=2, ele_type="QUAD4", location_fns=[wl.side(1, float(org[1] + size[1]))])
    L = np.where(np.isclose(pts[:, 0], org[0]))[0]
    R = np.where(np.isclose(pts[:, 0], org[0] + size[0]))[0]
    L, R = L[np.argsort(pts[L, 1])], R[np.argsort(pts[R, 1])]
    master = np.arange(len(pts))
    master[R] = L
    keep = np.setdiff1d(np.arange(len(pts)), R)
    col = {int(k): i for i, k in enumerate(keep)}
    rows = np.arange(len(pts))
    cols = np.array([col[int(master[a])] for a in rows])
    from jax.experimental.sparse import BCOO
    Pm = BCOO((jnp.ones(len(rows)), jnp.stack([jnp.asarray(rows), jnp.asarray(cols)], 1)), shape=(len(pts), len(keep)))
    Pd = np.zeros(Pm.shape)
    Pd[rows, cols] = 1.0
    bc = fe.DirichletBC.from_specs(p, [fe.DirichletBCSpec(wl.side(1, float(org[1])), "all", 0.2)] if pins else [])
    tp = fe.TracedParams(volume_vars=(jnp.asarray(rng.uniform(.6, 1.5, len(pts))),),
                         surface_vars=[(fe.TracedParams.create_uniform_surface_var(p, 0.3),)])
    return wl.Case(p=p, tp=tp, bc=bc, pts=pts, P=Pm, Pd=Pd, cols=cols, symmetric=not nonsym, L=L, R=R)


def reduced_reference(c, J, bc=None):
    """Dense solution and sensitivities of the tied problem; values constant on classes."""
    bc = bc or c.bc
    n, Pd = c.n, c.Pd
    brow, v = np.asarray(bc.bc_rows), np.asarray(bc.bc_vals)
    K, r0 = c.K(np.zeros(n)), c.res(np.zeros(n))
    rc = np.unique(c.cols[brow])
    fc = np.setdiff1d(np.arange(Pd.shape[1]), rc)
    q = np.zeros(Pd.shape[1])
    for r_, vv in zip(brow, v):
        q[c.cols[r_]] = vv
    Kr, rr = Pd.T @ K @ Pd, Pd.T @ r0
    q[fc] = np.linalg.solve(Kr[np.ix_(fc, fc)], -(rr[fc] + Kr[np.ix_(fc, rc)] @ q[rc]))
    u = Pd @ q
    if J is None:
        return u
    g = np.asarray(jax.grad(J)(jnp.asarray(u)))
    lr = np.zeros(Pd.shape[1])
    lr[fc] = np.linalg.solve(Kr[np.ix_(fc, fc)].T, (Pd.T @ g)[fc])
    lam = Pd @ lr
    lj = jnp.asarray(lam)
    dtp = jax.jit(lambda uu, tp: jax.grad(lambda t: -jnp.vdot(lj, c.res_flat(uu, t)))(tp))(jnp.asarray(u), c.tp)
    # the prescribed value of every member of a pinned class acts on that member
    dbc = g[brow] - (K.T @ lam)[brow]
    return u, dtp, dbc


def case_reduced(case, mon):
    rng = rng_for(case)
    path = case["path"]
    nonsym = path in ("gmres", "spsolve", "mix")
    c = periodic_case(rng, nonsym)
    kry = fe.KrylovSolverOptions(solver="cg" if path == "cg" else "gmres", tol=1e-13, atol=1e-15, maxiter=2000)
    o = {"cg": kry, "gmres": kry, "spsolve": fe.DirectSolverOptions(solver="spsolve"), "mix": kry,
         "amg": fe.AMGSolverOptions(tol=1e-12, atol=1e-14)}[path]
    kw = dict(solver_options=o)
    if path == "mix":
        kw["adjoint_solver_options"] = fe.DirectSolverOptions(solver="spsolve")
    s = fe.create_solver(c.p, c.bc, linear=True, P=c.P, **kw)
    J = _objective(rng, c.n)
    u, want_tp, want_bc = reduced_reference(c, J)
    ig = fe.zero_like_initial_guess(c.p, c.bc)
    mon.close("tied equilibrium", wl.dofs_of(s(c.tp, ig)), u, rtol=1e-7)
    got_tp, got_bc = _grad(s, c, J, ig)
    _cmp(mon, c, got_tp, got_bc, want_tp, want_bc, path=path)
    mon.seen("reduced", path)


def case_override(case, mon):
    """One solver, constraints replaced per call by ones on another side of the body: values and gradients follow."""
    rng = rng_for(case)
    path = case["path"]
    newton = path.startswith("newton")
    c = wl.gen(rng, "nh" if newton else str(rng.choice(["elastic", "diff"])), case["ele"], distort=0.1)
    c0 = c.bc
    N = fe.NewtonOptions(tol=1e-11, rel_tol=1e-14, max_iter=60, raise_on_line_search_failure=False)
    K = fe.KrylovSolverOptions(solver="gmres" if "gmres" in path else "cg", tol=1e-13, atol=1e-15, maxiter=2000)
    kw = dict(solver_options=K if path in ("cg", "newton-gmres") else fe.DirectSolverOptions(solver="spsolve"))
    if path == "nonsym":
        kw["symmetric_elimination"] = False
    if newton:
        kw["newton_options"] = N
    call = {}
    if path == "newton-ts":
        call["traced_structure"] = kw["traced_structure"] = fe.TracedStructure.from_problem(c.p, free_scratch=False)
    solver = fe.create_solver(c.p, c0, linear=not newton, traced_params=c.tp, **kw)
    pts = np.asarray(c.p.fes[0].points)
    ax = int(rng.integers(pts.shape[1]))
    v = float(pts[:, ax].min())
    bc2 = fe.DirichletBC.from_specs(c.p, [fe.DirichletBCSpec(wl.side(ax, v, 1e-8), "all", float(rng.uniform(-.05, .05)))])
    J = _objective(rng, c.n)
    for bc in (bc2, c0)[:1 if newton else 2]:
        c.bc = bc
        ig = fe.zero_like_initial_guess(c.p, bc)
        if newton:
            u, rr = c05.reference(c, None, np.asarray(ig))
            if rr > 1e-9:
                mon.true("reference unreachable", True)
                continue
        else:
            u = c.linear_solution()
        got = wl.dofs_of(solver(c.tp, ig, bc=bc, **call))
        mon.close("solution under replaced constraints", got, u, rtol=1e-7, scale=np.abs(u).max(), path=path)
        want_tp, want_bc = sensitivities(c, u, J)
        got_tp, got_bc = _grad(solver, c, J, ig, **call)
        _cmp(mon, c, got_tp, got_bc, want_tp, want_bc, rtol=2e-6, path="override " + path)
    mon.event("replaced constraints")
    mon.seen("override", path, case["ele"], ax)


def case_chain(case, mon):
    """Two solves in a row: the second takes the first's field as a coefficient and as prescribed values."""
    rng = rng_for(case)
    c = wl.gen(rng, "diff", "QUAD4", ns=(4, 3), layout="node")
    s = fe.create_solver(c.p, c.bc, linear=True, traced_params=c.tp,
                         solver_options=fe.DirectSolverOptions(solver="spsolve"))
    w = jnp.asarray(rng.normal(size=c.n))
    rows = np.asarray(c.bc.bc_rows)

    def obj(E):
        t1 = fe.TracedParams(volume_vars=(E,), surface_vars=c.tp.surface_vars)
        a = s(t1)
        t2 = fe.TracedParams(volume_vars=(1.0 + a.node_var() ** 2,), surface_vars=c.tp.surface_vars)
        b = s(t2, bc=c.bc.replace_vals(a.dofs[-len(rows):]))
        return jnp.sum(w * b.dofs ** 2)

    def ref_obj(E):
        K = c._Kj(jnp.zeros(c.n), fe.TracedParams(volume_vars=(E,), surface_vars=c.tp.surface_vars))
        f = np.where(c.free())[0]

        def lin(E, v):
            tp = fe.TracedParams(volume_vars=(E,), surface_vars=c.tp.surface_vars)
            K, r0 = c._Kj(jnp.zeros(c.n), tp), c.res_flat(jnp.zeros(c.n), tp)
            u = jnp.zeros(c.n).at[rows].set(v)
            x = jnp.linalg.solve(K[f][:, f], -(r0 + K @ u)[f])
            return u.at[f].set(x)
        a = lin(E, c.bc.bc_vals)
        b = lin(1.0 + a ** 2, a[-len(rows):])
        return jnp.sum(w * b ** 2)
    c._Kj = jax.jacfwd(lambda u, tp: c.res_flat(u, tp))
    E = jnp.asarray(c.E)
    want_v, want = jax.jit(jax.value_and_grad(ref_obj))(E)
    got_v, got = jax.value_and_grad(obj)(E)
    mon.close("chained objective", float(got_v), float(want_v), rtol=1e-9)
    mon.close("gradient through two solves", np.asarray(got), np.asarray(want), rtol=1e-7)
    got2 = jax.jit(jax.grad(obj))(E)
    mon.close("compiled gradient through two solves", np.asarray(got2), np.asarray(want), rtol=1e-7)
    mon.seen("chain")


def case_fd(case, mon):
    """Independent of any adjoint formula: central differences of the solver itself."""
    rng = rng_for(case)
    for phys, lin in (("conv", True), ("nlflux", False)):
        c = wl.gen(rng, phys, "QUAD4")
        kw = dict(solver_options=fe.DirectSolverOptions(solver="spsolve"))
        if not lin:
            kw["newton_options"] = fe.NewtonOptions(tol=1e-13, rel_tol=1e-15, max_iter=40,
                                                    raise_on_line_search_failure=False)
        s = fe.create_solver(c.p, c.bc, linear=lin, traced_params=c.tp, **kw)
        J = _objective(rng, c.n)
        ig = fe.zero_like_initial_guess(c.p, c.bc)

        @jax.jit
        def obj(E, t, v):
            tp = fe.TracedParams(volume_vars=(E,), surface_vars=[(t,) + tuple(c.tp.surface_vars[0][1:])])
            return J(s(tp, ig, bc=c.bc.replace_vals(v)).dofs)
        x = [jnp.asarray(c.E), jnp.asarray(c.tp.surface_vars[0][0]), jnp.asarray(c.bc.bc_vals)]
        g = jax.jit(jax.grad(obj, argnums=(0, 1, 2)))(*x)
        for a, name in enumerate(("volume parameter", "surface load", "prescribed values")):
            d = rng.normal(size=x[a].shape)
            h = 1e-5
            lo, hi = list(x), list(x)
            lo[a] = x[a] - h * d
            hi[a] = x[a] + h * d
            fd = (float(obj(*hi)) - float(obj(*lo))) / (2 * h)
            mon.close(f"directional derivative, {name}", float(np.sum(np.asarray(g[a]) * d)), fd, rtol=1e-5,
                      scale=max(abs(fd), np.abs(np.asarray(g[a])).sum()), phys=phys)
        mon.seen("fd", phys)


def case_units(case, mon):
    """Sensitivities in any system of units."""
    rng = rng_for(case)
    unit = wl.random_unit(rng)
    D, K = fe.DirectSolverOptions, fe.KrylovSolverOptions
    opt = K(solver="cg", tol=1e-13, atol=0.0, maxiter=5000, use_jacobi_preconditioner=True) if case["path"] == "cg" else \
        D(solver=case["path"])
    for newton in ((False, True) if case["newton"] else (False,)):
        c = wl.gen(rng, "nh" if newton else "elastic", case["ele"], layout="cell", unit=unit)
        kw = dict(solver_options=opt, traced_params=c.tp)
        if newton:
            fs = unit[1] * unit[0] ** (c.dim - 1)
            kw["newton_options"] = fe.NewtonOptions(tol=1e-12 * fs, rel_tol=1e-30, max_iter=30)
        else:
            kw["linear"] = True
        solver = fe.create_solver(c.p, c.bc, **kw)
        J0 = _objective(rng, c.n)
        J = lambda u: J0(u / unit[0])
        ig = fe.zero_like_initial_guess(c.p, c.bc)
        u = wl.dofs_of(solver(c.tp, ig))
        wt, wb = sensitivities(c, u, J)
        gt, gb = _grad(solver, c, J, ig)
        for nm, a, b in [("volume parameter", gt.volume_vars[0], wt.volume_vars[0]),
                         ("surface load", gt.surface_vars[0][0], wt.surface_vars[0][0]),
                         ("surface spring", gt.surface_vars[0][1], wt.surface_vars[0][1]),
                         ("prescribed values", gb, wb)]:
            b = np.asarray(b)
            mon.true("units: non-trivial sensitivity", np.abs(b).max() > 0)
            mon.close("units: gradient w.r.t. " + nm, np.asarray(a), b, rtol=1e-6, scale=np.abs(b).max(), unit=unit, newton=newton)
        mon.seen("units", case["path"], newton, int(np.floor(np.log10(unit[0]))), unit[1])
