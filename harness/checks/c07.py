"""C07: jit / vmap / nested transforms give every lane the plain call's result."""
import numpy as np

from harness import wl
from harness.lazy import fe, jax, jnp
from harness.mon import rng_for
from harness.checks import c05, c06

ID = "C07"
RULE = ("batches of 2-6 lanes with different parameters, surface loads, prescribed values and initial guesses through every "
        "backend (linear, Newton, reduced) under jit, vmap, jit(vmap), vmap(jit), vmap(vmap), vmap(grad), grad(vmap), plus "
        "batches holding a singular / NaN / non-convergent lane; assembled residuals, tangents and energies likewise; oracle "
        "= the plain call lane by lane; distinct by (path, batched inputs, transform)")
ASSUMPTIONS = ["the plain (eager, unbatched) call is the reference; its own correctness is C01-C06"]
MIN_EVALUATIONS = 250

AXES = (("E",), ("t",), ("v",), ("g",), ("E", "t", "v"), ("E", "g"), ("t", "v"))
LIN = ("spsolve", "umfpack", "cholmod", "cg", "gmres", "bicgstab", "amg", "nonsym", "auto")
NEW = ("spsolve", "umfpack", "cholmod", "gmres", "amg0", "nonsym")


def cases(tier, seed):
    out = []
    reps = 1 if tier == "quick" else 6
    eles = ("QUAD4", "TRI3", "TET4", "QUAD8", "HEX8")
    for r in range(reps):
        for k, path in enumerate(LIN):
            out.append(dict(kind="linear", path=path, ele=eles[(k + r + seed) % 5], cost=6))
        for k, path in enumerate(NEW):
            out.append(dict(kind="newton", path=path, ele=("QUAD4", "TRI3", "TET4")[(k + r + seed) % 3],
                            quick=tier == "quick", cost=7))
        for path in ("spsolve", "cg", "gmres", "bicgstab", "umfpack"):
            out.append(dict(kind="poison", path=path, cost=4))
        for path in ("spsolve", "gmres"):
            out.append(dict(kind="poison_newton", path=path, cost=6))
        for phys in ("nh", "nlflux", "mixed"):
            out.append(dict(kind="assembly", phys=phys, ele=eles[(r + seed) % 4], cost=6))
        out.append(dict(kind="reduced", cost=6))
        if tier != "quick":
            out.append(dict(kind="homog", cost=8, slow=r == 0))
        out.append(dict(kind="shapes", cost=3))
        for k, path in enumerate(("spsolve", "cg")):
            out.append(dict(kind="structure", path=path, cost=6))
    return [dict(c, seed=seed, i=n, r=n) for n, c in enumerate(out)]


def _opts(path):
    D, K, A = fe.DirectSolverOptions, fe.KrylovSolverOptions, fe.AMGSolverOptions
    T = dict(tol=1e-12, atol=1e-14, maxiter=2000)
    if path in ("spsolve", "umfpack", "cholmod", "auto"):
        return dict(solver_options=D(solver=path)), 1e-9
    if path in ("cg", "gmres", "bicgstab"):
        return dict(solver_options=K(solver=path, **T)), 1e-7
    if path == "amg":
        return dict(solver_options=A(solver="cg", **T)), 1e-7
    return dict(solver_options=D(solver="spsolve"), symmetric_elimination=False), 1e-9


def _lanes(rng, c, names, k, ig, amp=1.0):
    """Stacked lane inputs: arrays for batched names, None-axis single values otherwise."""
    E = jnp.asarray(c.tp.volume_vars[0])
    t = jnp.asarray(c.tp.surface_vars[0][0])
    v = jnp.asarray(c.bc.bc_vals)
    base = dict(E=np.asarray(E), t=np.asarray(t), v=np.asarray(v), g=np.asarray(ig))
    x, ax = {}, {}
    for n, b in base.items():
        if n in names:
            rows = []
            for j in range(k):
                if n == "E":
                    rows.append(b * rng.uniform(.5, 2.0, b.shape))
                elif n == "t":
                    rows.append(b * float(rng.uniform(-2, 2)) * amp + 0.01 * amp * j)
                elif n == "v":
                    rows.append(b * (1 + amp * float(rng.uniform(-.5, 1.))) + 0.01 * j)
                else:
                    rows.append(b + 0.02 * amp * rng.normal(size=b.shape))
            x[n], ax[n] = jnp.asarray(np.stack(rows)), 0
        else:
            x[n], ax[n] = jnp.asarray(b), None
    return x, ax


def _call(s, c):
    def f(E, t, v, g):
        tp = fe.TracedParams(volume_vars=(E,), surface_vars=[(t,) + tuple(c.tp.surface_vars[0][1:])])
        bc = c.bc.replace_vals(v)
        g = g.at[c.bc.bc_rows].set(v)
        return s(tp, g, bc=bc).dofs
    return f


def _pick(x, ax, j):
    return [x[n][j] if ax[n] == 0 else x[n] for n in "Etvg"]


def _run_axes(rng, c, s, mon, path, rtol, sets, amp=1.0, grads=True):
    ig = fe.zero_like_initial_guess(c.p, c.bc)
    f = _call(s, c)
    jf = jax.jit(f)
    off = int(rng.integers(3))
    for n, names in enumerate(sets):
        k = int(rng.integers(2, 5))
        x, ax = _lanes(rng, c, names, k, ig, amp)
        axs = [ax[m] for m in "Etvg"]
        plain = np.stack([np.asarray((f if n == 0 else jf)(*_pick(x, ax, j))) for j in range(k)])
        sc = np.abs(plain).max()
        args = [x[m] for m in "Etvg"]
        if n == 0:
            comp = np.stack([np.asarray(jf(*_pick(x, ax, j))) for j in range(k)])
            mon.close("compiled solve equals the plain one", comp, plain, rtol=rtol, scale=sc, path=path, batched=names)
        got = np.asarray(jax.vmap(f if n == 0 else jf, in_axes=axs)(*args))
        mon.close("batched lane equals the plain call", got, plain, rtol=rtol, scale=sc, path=path, batched=names)
        tr = (n + off) % 3
        if tr == 0:
            got = np.asarray(jax.jit(jax.vmap(f, in_axes=axs))(*args))
        elif tr == 1:
            got = np.asarray(jax.vmap(jax.jit(lambda *a: jf(*a)), in_axes=axs)(*args))
        else:
            perm = rng.permutation(k)
            a2 = [y[perm] if a == 0 else y for y, a in zip(args, axs)]
            got = np.asarray(jax.vmap(jf, in_axes=axs)(*a2))
            want = plain[perm]
            mon.close("lane order does not matter", got, want, rtol=rtol, scale=sc, path=path)
            got = plain
        mon.close(f"nested compile and batch {tr}", got, plain, rtol=rtol, scale=sc, path=path, batched=names)
        mon.event("lanes compared", k)
        mon.seen(path, names, tr)
    # outer x inner batching
    xo, _ = _lanes(rng, c, ("E", "v"), 2, ig, amp)
    xi, _ = _lanes(rng, c, ("t",), 3, ig, amp)
    nest = jax.vmap(lambda E, v: jax.vmap(lambda t: jf(E, t, v, ig))(xi["t"]))
    got = np.asarray(nest(xo["E"], xo["v"]))
    plain = np.array([[np.asarray(jf(xo["E"][a], xi["t"][b], xo["v"][a], ig)) for b in range(3)] for a in range(2)])
    mon.close("nested batches", got, plain, rtol=rtol, path=path)
    mon.seen(path, "nested")
    if grads:
        J = c06._objective(rng, c.n)
        obj = lambda E, t, v: J(f(E, t, v, ig))                     # noqa: E731
        x, ax = _lanes(rng, c, ("E", "v"), 3, ig, amp)
        gf = jax.jit(jax.grad(obj, argnums=(0, 1, 2)))
        gp = [gf(x["E"][j], x["t"], x["v"][j]) for j in range(3)]
        gb = jax.vmap(gf, in_axes=(0, None, 0))(x["E"], x["t"], x["v"])
        for a, nm in enumerate(("parameter", "load", "prescribed value")):
            want = np.stack([np.asarray(g[a]) for g in gp])
            mon.close(f"batched gradient, {nm}", np.asarray(gb[a]), want, rtol=100 * rtol, path=path)
        if rng.random() < .5:
            return
        gs = jax.jit(jax.grad(lambda E: jnp.sum(jax.vmap(obj, in_axes=(0, None, 0))(E, x["t"], x["v"]))))(x["E"])
        mon.close("gradient of a batch", np.asarray(gs), np.stack([np.asarray(g[0]) for g in gp]), rtol=100 * rtol, path=path)
        mon.seen(path, "gradients")


def case_linear(case, mon):
    rng = rng_for(case)
    path = case["path"]
    sym = path in ("cholmod", "cg", "amg")
    c = wl.gen(rng, "elastic" if sym else str(rng.choice(["diff", "conv", "elastic"])), case["ele"])
    kw, rtol = _opts(path)
    s = fe.create_solver(c.p, c.bc, linear=True, traced_params=c.tp, **kw)
    sets = [AXES[i] for i in rng.permutation(len(AXES))[:2]]
    _run_axes(rng, c, s, mon, path, rtol, sets)


def case_newton(case, mon):
    rng = rng_for(case)
    path = case["path"]
    c = wl.gen(rng, "nh" if path in ("cholmod", "amg0") or rng.random() < .5 else "nlflux", case["ele"], distort=.1)
    nt = fe.NewtonOptions(tol=1e-11, rel_tol=1e-14, max_iter=30, raise_on_line_search_failure=False)
    kw, _ = c05._kw(path, rng, c, nt)
    s = fe.create_solver(c.p, c.bc, linear=False, traced_params=c.tp, **kw)
    sets = [AXES[i] for i in rng.permutation(len(AXES))[:1 if case["quick"] else 3]]
    _run_axes(rng, c, s, mon, path, 1e-7, sets, amp=0.5, grads=not case["quick"] or path in ("spsolve", "gmres"))


def case_poison(case, mon):
    rng = rng_for(case)
    path = case["path"]
    c = wl.gen(rng, "elastic", "QUAD4")
    kw, rtol = _opts(path)
    if path != "spsolve":
        kw["solver_options"] = type(kw["solver_options"])(**dict(kw["solver_options"].__dict__))
    s = fe.create_solver(c.p, c.bc, linear=True, traced_params=c.tp, **kw)
    ig = fe.zero_like_initial_guess(c.p, c.bc)
    f = lambda E, g: s(fe.TracedParams(volume_vars=(E,), surface_vars=c.tp.surface_vars), g).dofs   # noqa: E731
    k = 4
    Es = np.stack([c.E * rng.uniform(.5, 2, c.E.shape) for _ in range(k)])
    good = np.stack([np.asarray(f(jnp.asarray(e), ig)) for e in Es])
    for what in ("nan", "singular", "huge", "inf", "nan guess"):
        if path == "umfpack" and what in ("nan", "singular", "inf"):
            continue                       # the plain call raises; a batch cannot raise for one lane only
        bad = int(rng.integers(k))
        P, G = Es.copy(), np.repeat(np.asarray(ig)[None], k, 0)
        if what == "nan":
            P[bad] = np.nan
        elif what == "inf":
            P[bad] = np.inf
        elif what == "singular":
            P[bad] = 0.0
        elif what == "huge":
            P[bad] *= 1e12
        else:
            G[bad] = np.nan
        for name, tr in (("vmap", jax.vmap(f)), ("jit(vmap)", jax.jit(jax.vmap(f)))):
            got = np.asarray(tr(jnp.asarray(P), jnp.asarray(G)))
            keep = np.arange(k) != bad
            mon.close(f"healthy lanes beside a {what} lane", got[keep], good[keep], rtol=rtol, path=path, transform=name)
            mon.event("poisoned batches")
        if what in ("nan", "inf") and path == "spsolve":
            mon.true("a failed lane is not passed off as a solution", not np.all(np.isfinite(got[bad])), what=what)
        mon.seen(path, what)
    again = np.asarray(f(jnp.asarray(Es[0]), ig))
    mon.close("plain solve after poisoned batches", again, good[0], rtol=rtol)


def case_poison_newton(case, mon):
    rng = rng_for(case)
    path = case["path"]
    c = wl.gen(rng, "nh", "QUAD4", distort=.1)
    nt = fe.NewtonOptions(tol=1e-10, rel_tol=1e-13, max_iter=15, raise_on_line_search_failure=False)
    kw, _ = c05._kw(path, rng, c, nt)
    s = fe.create_solver(c.p, c.bc, linear=False, traced_params=c.tp, **kw)
    ig = fe.zero_like_initial_guess(c.p, c.bc)
    f = _call(s, c)
    t0, v0 = jnp.asarray(c.tp.surface_vars[0][0]), jnp.asarray(c.bc.bc_vals)
    k = 4
    Es = np.stack([c.E * rng.uniform(.7, 1.5, c.E.shape) for _ in range(k)])
    good = np.stack([np.asarray(f(jnp.asarray(e), t0, v0, ig)) for e in Es])
    for what in ("nan", "zero", "crushed"):
        bad = int(rng.integers(k))
        P = Es.copy()
        T = np.repeat(np.asarray(t0)[None], k, 0)
        if what == "nan":
            P[bad] = np.nan
        elif what == "zero":
            P[bad] = 0
        else:
            T[bad] = T[bad] * 0 + 40.0 * (1 if rng.random() < .5 else -1)
        got = np.asarray(jax.vmap(f, in_axes=(0, 0, None, None))(jnp.asarray(P), jnp.asarray(T), v0, ig))
        keep = np.arange(k) != bad
        mon.close(f"healthy Newton lanes beside a {what} lane", got[keep], good[keep], rtol=1e-7, path=path)
        mon.seen(path, what)
    # a lane started at its own solution needs no step; its neighbours many
    G = np.repeat(np.asarray(ig)[None], k, 0)
    G[0] = good[0]
    got = np.asarray(jax.jit(jax.vmap(f, in_axes=(0, None, None, 0)))(jnp.asarray(Es), t0, v0, jnp.asarray(G)))
    mon.close("lanes with different iteration counts", got, good, rtol=1e-7, path=path)


def case_assembly(case, mon):
    rng = rng_for(case)
    c = wl.gen(rng, case["phys"], case["ele"])
    p = c.p
    A = fe.assembler
    us = jnp.asarray(0.05 * rng.normal(size=(3, c.n)))
    Es = jnp.asarray(np.stack([c.E * rng.uniform(.5, 2, c.E.shape) for _ in range(3)]))
    tp = lambda E: fe.TracedParams(volume_vars=(E,), surface_vars=c.tp.surface_vars)     # noqa: E731
    unf = p.unflatten_fn_sol_list
    cat = lambda r: jnp.concatenate([jnp.ravel(x) for x in r])     # noqa: E731
    res_bc = A.create_res_bc_function(p, c.bc)
    J_sym = A.create_J_bc_csr_function(p, c.bc, symmetric=True)
    J_non = A.create_J_bc_csr_function(p, c.bc, symmetric=False)
    w = jnp.asarray(rng.normal(size=c.n))
    fns = dict(residual=lambda u, E: cat(A.get_res(p, unf(u), tp(E))),
               tangent=lambda u, E: A.get_jacobian(p, unf(u), tp(E)).data,
               bc_residual=lambda u, E: res_bc(u, tp(E)),
               bc_tangent=lambda u, E: J_sym(u, tp(E)).data,
               bc_tangent_nonsym=lambda u, E: J_non(u, tp(E)).data,
               matvec=lambda u, E: J_non(u, tp(E)) @ w)
    if c.kind == "nh":
        en = fe.create_energy_fn(p) if hasattr(fe, "create_energy_fn") else A.create_energy_fn(p)
        fns["energy"] = lambda u, E: en(u, tp(E))
        fns["energy_gradient"] = lambda u, E: jax.grad(lambda s: en(s, tp(E)))(u)
    for name, f in fns.items():
        jf = jax.jit(f)
        plain = np.stack([np.asarray(f(us[j], Es[j])) for j in range(2)])
        more = np.asarray(jf(us[2], Es[2]))
        plain = np.concatenate([plain, more[None]])
        sc = np.abs(plain).max()
        kw = dict(rtol=1e-11, scale=sc)
        mon.close(f"compiled {name}", np.stack([np.asarray(jf(us[j], Es[j])) for j in range(3)]), plain, **kw)
        mon.close(f"batched {name}", np.asarray(jax.vmap(f)(us, Es)), plain, **kw)
        only = np.stack([np.asarray(jf(us[j], Es[0])) for j in range(3)])
        mon.close(f"batched {name}, shared parameters", np.asarray(jax.vmap(jf, in_axes=(0, None))(us, Es[0])), only, **kw)
        par = np.stack([np.asarray(jf(us[0], Es[j])) for j in range(3)])
        mon.close(f"batched {name}, shared state", np.asarray(jax.jit(jax.vmap(f, in_axes=(None, 0)))(us[0], Es)), par, **kw)
        g = np.asarray(jax.vmap(lambda u: jax.vmap(lambda E: jf(u, E))(Es[:2]))(us))
        mon.close(f"nested {name}", g[:, 0], only, **kw)
        mon.seen(case["phys"], name)


def case_reduced(case, mon):
    rng = rng_for(case)
    for nonsym in (False, True):
        c = c06.periodic_case(rng, nonsym, pins=bool(rng.random() < .5))
        opt = fe.KrylovSolverOptions(solver="gmres" if nonsym else "cg", tol=1e-12, atol=1e-14, maxiter=2000)
        for name, o in (("krylov", opt), ("direct", fe.DirectSolverOptions(solver="spsolve"))):
            s = fe.create_solver(c.p, c.bc, solver_options=o, linear=True, P=c.P, traced_params=c.tp)
            ig = fe.zero_like_initial_guess(c.p, c.bc)
            sv = c.tp.surface_vars

            def f(E):
                return s(fe.TracedParams(volume_vars=(E,) + tuple(c.tp.volume_vars[1:]), surface_vars=sv), ig).dofs
            E0 = np.asarray(c.tp.volume_vars[0])
            Es = jnp.asarray(np.stack([E0 * rng.uniform(.5, 2, E0.shape) for _ in range(3)]))
            plain = np.stack([np.asarray(f(e)) for e in Es])
            for tr, g in (("jit", lambda x: np.stack([np.asarray(jax.jit(f)(e)) for e in x])),
                          ("vmap", lambda x: np.asarray(jax.vmap(f)(x))),
                          ("jit(vmap)", lambda x: np.asarray(jax.jit(jax.vmap(f))(x)))):
                mon.close("reduced solve under " + tr, g(Es), plain, rtol=1e-7, solver=name, nonsym=nonsym)
            mon.seen("reduced", name, nonsym)


def case_homog(case, mon):
    rng = rng_for(case)
    from feax.flat.pbc import periodic_bc_3D, prolongation_matrix
    from feax.flat.solver import create_homogenization_solver
    from feax.flat.unitcell import UnitCell

    n = 2

    class Cell(UnitCell):
        def mesh_build(self, **kw):
            return fe.mesh.box_mesh((1.0, 1.0, 1.0), (n, n, n))
    uc = Cell()
    mesh = uc.mesh

    class El(fe.problem.Problem):
        def get_tensor_map(self):
            return lambda g, E: wl.stress_lin(jnp, g, E)
    p = El(mesh, vec=3, dim=3, ele_type="HEX8")
    P = prolongation_matrix(periodic_bc_3D(uc, vec=3, dim=3), mesh, vec=3)
    bc = fe.DirichletBCConfig([]).create_bc(p)
    s = create_homogenization_solver(p, bc, P, mesh,
                                     fe.KrylovSolverOptions(solver="cg", tol=1e-11, atol=1e-13, maxiter=2000), dim=3)
    f = lambda E: s(fe.TracedParams(volume_vars=(E,), surface_vars=()))[0]      # noqa: E731
    Es = jnp.asarray(rng.uniform(.5, 2, (2, len(np.asarray(mesh.cells)))))
    jf = jax.jit(f)
    comp = np.stack([np.asarray(jf(e)) for e in Es])
    if case["slow"]:
        plain = np.stack([np.asarray(f(e)) for e in Es])
        mon.close("compiled homogenization", comp, plain, rtol=1e-7)
    mon.close("batched homogenization", np.asarray(jax.vmap(jf)(Es)), comp, rtol=1e-7)
    mon.seen("homogenization")


def case_shapes(case, mon):
    """Degenerate batches: one lane, identical lanes, a batch as large as a mesh count."""
    rng = rng_for(case)
    for path in ("spsolve", "umfpack", "cholmod", "cg"):
        c = wl.gen(rng, "elastic", "TRI3", ns=(2, 2))
        kw, rtol = _opts(path)
        s = fe.create_solver(c.p, c.bc, linear=True, traced_params=c.tp, **kw)
        ig = fe.zero_like_initial_guess(c.p, c.bc)
        f = jax.jit(lambda E: s(fe.TracedParams(volume_vars=(E,), surface_vars=c.tp.surface_vars), ig).dofs)
        for k in (1, 2, len(c.cells), len(c.pts), c.n, 1, 2):
            Es = jnp.asarray(np.stack([c.E * rng.uniform(.5, 2, c.E.shape) for _ in range(k)]))
            plain = np.stack([np.asarray(f(e)) for e in Es])
            mon.close("batch size does not matter", np.asarray(jax.vmap(f)(Es)), plain, rtol=rtol, path=path, k=k)
            mon.seen(path, "batch", k)
        same = jnp.asarray(np.repeat(c.E[None], 3, 0))
        got = np.asarray(jax.vmap(f)(same))
        mon.close("identical lanes agree", got, np.repeat(np.asarray(f(jnp.asarray(c.E)))[None], 3, 0), rtol=rtol, path=path)


def case_structure(case, mon):
    """Traced structure as a jit argument: one compiled solver serves several meshes of the same shape."""
    rng = rng_for(case)
    kw, rtol = _opts(case["path"])
    cs = []
    for j in range(3):
        r2 = np.random.default_rng(int(rng.integers(1 << 30)))
        cs.append(wl.gen(r2, "elastic", "QUAD4", ns=(3, 2), layout="cell"))
    c = cs[0]
    pts0, cells0 = c.pts, c.cells
    K = problem_on(c)
    s = fe.create_solver(c.p, c.bc, linear=True, traced_params=c.tp, **kw)
    jf = jax.jit(lambda tp, ig, bc, ts: s(tp, ig, bc=bc, traced_structure=ts).dofs)
    for j in range(3):
        pts = pts0 + (0.0 if j == 0 else 0.04) * rng.normal(size=pts0.shape)
        q = K(pts, cells0)
        ts = fe.TracedStructure.from_problem(q, free_scratch=False)
        ig = fe.zero_like_initial_guess(c.p, c.bc)
        tp = fe.TracedParams(volume_vars=(jnp.asarray(c.E * rng.uniform(.5, 2, c.E.shape)),), surface_vars=c.tp.surface_vars)
        got = np.asarray(jf(tp, ig, c.bc, ts))
        eager = np.asarray(s(tp, ig, bc=c.bc, traced_structure=ts).dofs)
        own = fe.create_solver(q, c.bc, linear=True, traced_params=tp, **kw)
        want = np.asarray(own(tp, ig).dofs)
        mon.close("structure as a compiled argument", got, want, rtol=rtol, path=case["path"], j=j)
        mon.close("structure as an eager argument", eager, want, rtol=rtol, path=case["path"], j=j)
        mon.seen("structure", case["path"], j)


def problem_on(c):
    Pc = wl.problem_class("elastic", 2)
    ly = float(c.origin[1] + c.size[1])
    sel = np.abs(c.pts[:, 1] - ly) < 1e-8

    def build(pts, cells):
        # face selection by node index so that perturbed nodes keep their surface
        idx = jnp.asarray(sel)
        m = wl.fmesh(pts, cells, "QUAD4")
        return Pc(m, vec=2, dim=2, ele_type="QUAD4", location_fns=[lambda x, i: idx[i]], matrix_view="FULL")
    return build
