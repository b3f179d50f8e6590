"""C03: exactly the specified DOFs are constrained and they take exactly the prescribed values."""
import numpy as np

from harness import ref, wl
from harness.lazy import fe, jax, jnp
from harness.mon import rng_for

ID = "C03"
RULE = ("random specification lists (predicates with 1 or 2 arguments, components by name/index/all, constant and "
        "position-dependent values, variable index, overlaps, empty selections) x problems with 1-3 variables on equal "
        "or different meshes; then solves on linear / Newton / reduced paths with original, replaced and rebuilt values; "
        "non-trivial = a selection with non-zero prescribed values; distinct by (path, layout of variables, overlap)")
ASSUMPTIONS = ["equality at constrained DOFs is required to 1e-9 of the value scale (one add/subtract of round-off)"]
MIN_EVALUATIONS = 200


def cases(tier, seed):
    out = []
    reps = 1 if tier == "quick" else 8
    for r in range(reps):
        for j in range(16):
            out.append(dict(kind="dofs", j=j, r=r, cost=1))
        for phys, ele in (("elastic", "QUAD4"), ("diff", "TRI3"), ("conv", "QUAD4"), ("mixed", "TRI3"),
                          ("elastic", "TET4"), ("diff", "HEX8")):
            for path in ("spsolve", "cg", "nonsym"):
                out.append(dict(kind="linear", phys=phys, ele=ele, path=path, r=r, cost=3))
        for phys, ele, path in (("elastic", "QUAD4", "cholmod"), ("elastic", "TRI6", "umfpack"),
                                ("diff", "QUAD8", "amg"), ("elastic", "HEX8", "ts")):
            out.append(dict(kind="linear", phys=phys, ele=ele, path=path, r=r, cost=3))
        for phys, ele, path in (("nh", "QUAD4", "newton"), ("nh", "TET4", "newton-nonsym"),
                                ("nlflux", "TRI3", "newton"), ("nlflux", "QUAD4", "newton-krylov"),
                                ("mixed", "QUAD4", "newton-nonsym"), ("nh", "TRI3", "newton-extra"),
                                ("nh", "QUAD4", "newton-extra-krylov"), ("nlflux", "QUAD4", "newton-amg")):
            out.append(dict(kind="newton", phys=phys, ele=ele, path=path, r=r, cost=6))
        for j in range(3):
            out.append(dict(kind="reduced", j=j, r=r, cost=4))
        out.append(dict(kind="history", r=r, cost=4))
    return [dict(c, seed=seed, i=n) for n, c in enumerate(out)]


def _gradmap(p):
    return None


def _make_problem(rng):
    """1-3 variables, possibly on different element orders; only for DOF bookkeeping and cheap."""
    nv = int(rng.integers(1, 4))
    dim = int(rng.integers(2, 4))
    eles = ["QUAD4", "TRI3", "TRI6", "QUAD8"] if dim == 2 else ["HEX8", "TET4"]
    ele = str(rng.choice(eles))
    ns = tuple(rng.integers(1, 4, 2)) if dim == 2 else tuple(rng.integers(1, 3, 3))
    pts, cells = wl.make_mesh(rng, ele, ns, rng.uniform(0.5, 2, dim), rng.uniform(-2, 2, dim))
    vecs = [int(v) for v in rng.choice([1, dim, 2, 3, 5], nv)]
    m = wl.fmesh(pts, cells, ele)
    P = fe.problem.Problem

    class Q(P):
        def get_weak_form(self):
            return lambda vals, grads, x: ([v for v in vals], [g for g in grads])
    if nv == 1:
        p = Q(m, vec=vecs[0], dim=dim, ele_type=ele)
        meshes = [pts]
    else:
        # each variable may bring a mesh of its own: the same cells, the nodes numbered otherwise
        ms, meshes = [m], [pts]
        for _ in range(nv - 1):
            if rng.random() < .5:
                ms.append(m)
                meshes.append(pts)
            else:
                perm = rng.permutation(len(pts))
                inv = np.argsort(perm)
                meshes.append(pts[perm])
                ms.append(wl.fmesh(pts[perm], inv[cells], ele))
        p = Q(ms, vec=vecs, dim=dim, ele_type=[ele] * nv, gauss_order=[2] * nv)
    return p, meshes, vecs, dim, ele


def _random_specs(rng, meshes, vecs, dim, n):
    """[(spec, numpy predicate, component, numpy value fn, variable)]"""
    out = []
    pts = meshes[0]
    lo, hi = pts.min(0), pts.max(0)
    for _ in range(n):
        a = int(rng.integers(dim))
        mode = int(rng.integers(5))
        if mode == 0:
            c = float(rng.choice([lo[a], hi[a]]))
            def pr(x, i, a=a, c=c): return abs(x[a] - c) < 1e-9
            def loc(pt, a=a, c=c): return jnp.abs(pt[a] - c) < 1e-9
            loc = _argc(loc, 1)
        elif mode == 1:                        # half space (interior nodes too)
            c = float(rng.uniform(lo[a], hi[a]))
            def pr(x, i, a=a, c=c): return x[a] <= c
            loc = _one(lambda pt, a=a, c=c: pt[a] <= c)
        elif mode == 2:                        # by node index
            ks = np.sort(rng.choice(len(pts), int(rng.integers(1, 4)), replace=False))
            def pr(x, i, ks=ks): return i in ks
            kj = jnp.asarray(ks)
            loc = _two(lambda pt, i, kj=kj: jnp.any(i == kj))
        elif mode == 3:                        # empty
            def pr(x, i): return False
            loc = _one(lambda pt: pt[0] > 1e6)
        else:                                  # ball
            ctr = pts[int(rng.integers(len(pts)))]
            R = float(rng.uniform(0.05, 0.8))
            def pr(x, i, ctr=ctr, R=R): return np.sum((x - ctr) ** 2) <= R * R
            cj = jnp.asarray(ctr)
            loc = _one(lambda pt, cj=cj, R=R: jnp.sum((pt - cj) ** 2) <= R * R)
        var = None if rng.random() < 0.35 else int(rng.integers(len(vecs)))
        if len(vecs) == 1 and rng.random() < 0.5:
            var = None
        comp = rng.choice(np.array(["x", "y", "z", "all", "all", 0, 1, 2, 4, "X", "ALL"], dtype=object))
        cn = {"x": 0, "y": 1, "z": 2, "all": "all"}.get(str(comp).lower(), comp)
        if rng.random() < 0.5:
            v = float(rng.normal())
            val, vf = v, (lambda x, v=v: v)
            if rng.random() < 0.3:
                val = int(rng.integers(-3, 4))
                vf = (lambda x, v=val: float(v))
        else:
            w = rng.normal(size=dim)
            wj = jnp.asarray(w)
            val = (lambda pt, wj=wj: jnp.sin(jnp.sum(wj * pt)) + pt[0])
            vf = (lambda x, w=w: np.sin(np.sum(w * x)) + x[0])
        kw = {} if var is None else dict(variable_index=var)
        out.append((fe.DirichletBCSpec(loc, int(comp) if isinstance(comp, (int, np.integer)) else comp, val, **kw),
                    pr, cn, vf, var))
    return out


def _one(f):
    return lambda pt: f(pt)


def _two(f):
    return lambda pt, i: f(pt, i)


def _argc(f, n):
    return _one(f) if n == 1 else _two(f)


def _expected(specs, meshes, vecs):
    off = np.cumsum([0] + [len(m) * v for m, v in zip(meshes, vecs)])
    want, overlap = {}, 0
    for ind, (pts, vec) in enumerate(zip(meshes, vecs)):
        for _, pr, comp, vf, var in specs:
            if var is not None and var != ind:
                continue
            comps = range(vec) if comp == "all" else ([comp] if comp < vec else [])
            for n, x in enumerate(pts):
                if not pr(x, n):
                    continue
                for cc in comps:
                    d = int(off[ind] + n * vec + cc)
                    if d in want:
                        overlap += 1
                    else:
                        want[d] = float(vf(x))
    return want, overlap, int(off[-1])


def case_dofs(case, mon):
    rng = rng_for(case)
    p, meshes, vecs, dim, ele = _make_problem(rng)
    for k in range(2):
        specs = _random_specs(rng, meshes, vecs, dim, int(rng.integers(0, 6)))
        want, overlap, ntot = _expected(specs, meshes, vecs)
        how = int(rng.integers(3))
        raw = [s[0] for s in specs]
        if how == 0:
            bc = fe.DirichletBC.from_specs(p, raw)
        elif how == 1:
            bc = fe.DirichletBCConfig(raw).create_bc(p)
        else:
            cfg = fe.DirichletBCConfig([])
            for s in raw:
                if s.variable_index is None:
                    cfg.add(s.location, s.component, s.value)
                else:
                    cfg.specs.append(s)
            bc = cfg.create_bc(p)
        rows = np.asarray(bc.bc_rows)
        keys = np.array(sorted(want), int)
        mon.equal("constrained DOFs", rows.astype(int), keys, vecs=vecs, n=len(specs))
        if len(rows) == len(keys) and np.all(rows == keys):
            mon.close("prescribed values", np.asarray(bc.bc_vals), np.array([want[k] for k in keys]), rtol=1e-13,
                      scale=4.0)
        mask = np.zeros(ntot, bool)
        mask[keys] = True
        mon.equal("mask", np.asarray(bc.bc_mask), mask)
        mon.true("total DOFs", int(bc.total_dofs) == ntot, got=bc.total_dofs, want=ntot)
        nb = bc.replace_vals(jnp.asarray(rng.normal(size=len(rows))))
        mon.equal("replacement keeps the DOFs", np.asarray(nb.bc_rows), rows)
        mon.equal("replacement keeps the mask", np.asarray(nb.bc_mask), mask)
        ig = np.asarray(fe.zero_like_initial_guess(p, bc))
        w0 = np.zeros(ntot)
        w0[keys] = np.asarray(bc.bc_vals)
        mon.close("initial guess carries the prescribed values", ig, w0, rtol=1e-14, atol=1e-14)
        mon.event("specifications", len(specs))
        mon.event("overlapping DOF selections", overlap)
        mon.seen("dofs", len(vecs), dim, overlap > 0, len(want) == 0, how)
    mon.note(vars=vecs, ele=ele, constrained=len(want), overlap=overlap)


# -------------------------------------------------------------- solves
def _opts(path):
    D, K = fe.DirectSolverOptions, fe.KrylovSolverOptions
    if path in ("spsolve", "umfpack", "cholmod"):
        return dict(solver_options=D(solver=path))
    if path == "nonsym":
        return dict(solver_options=D(solver="spsolve"), symmetric_elimination=False)
    if path == "ts":
        return dict(solver_options=D(solver="spsolve"))
    if path == "cg":
        return dict(solver_options=K(solver="cg", tol=1e-12, atol=1e-14, maxiter=4000))
    if path == "gmres":
        return dict(solver_options=K(solver="gmres", tol=1e-12, atol=1e-14, maxiter=400))
    if path == "amg":
        return dict(solver_options=fe.AMGSolverOptions(tol=1e-12, atol=1e-14))
    raise KeyError(path)


def _check_bc(mon, name, sol, bc, free_res, res_scale, rtol=1e-7):
    rows = np.asarray(bc.bc_rows)
    vals = np.asarray(bc.bc_vals)
    mon.close(f"{name}: prescribed values met", sol[rows], vals, rtol=1e-9, scale=max(1.0, np.abs(vals).max()))
    mon.close(f"{name}: free DOFs in equilibrium", free_res, np.zeros_like(free_res), rtol=rtol, scale=res_scale)


def case_linear(case, mon):
    rng = rng_for(case)
    path = case["path"]
    c = wl.gen(rng, case["phys"], case["ele"], distort=0.1)
    if path == "cg" and not c.symmetric:
        path = "gmres"
    kw = _opts(path)
    call = {}
    if path == "ts":
        ts = fe.TracedStructure.from_problem(c.p)
        kw["traced_structure"] = ts
        call["traced_structure"] = ts
    solver = fe.create_solver(c.p, c.bc, linear=True, traced_params=c.tp, **kw)
    jitted = (lambda tp, ig, bc: wl.dofs_of(solver(tp, ig, bc=bc, **call)))
    rows = np.asarray(c.bc.bc_rows)
    bc2 = c.bc.replace_vals(jnp.asarray(rng.normal(size=len(rows)) * 0.3))
    bc3 = c.bc.replace_vals(jnp.zeros(len(rows)))
    ig_default = fe.zero_like_initial_guess(c.p, c.bc)
    ig_rand = jnp.asarray(rng.normal(size=c.n))
    if path == "ts":
        # the residual oracle needs the structure too: the host maps were released
        f = jax.jit(lambda u, tp: c.res_flat(u, tp, ts))
        c._res = f
        c._K = jax.jit(jax.jacfwd(lambda u, tp: c.res_flat(u, tp, ts)))
    scale = np.abs(c.K(np.zeros(c.n))).max()
    ref_sol = {}
    for tag, bc in (("original", c.bc), ("replaced", bc2), ("zeroed", bc3)):
        ref_sol[tag] = c.linear_solution(bc=bc)
        for igt, ig in (("default", ig_default), ("random", ig_rand)):
            sol = jitted(c.tp, ig, bc)
            f = c.free(bc)
            _check_bc(mon, tag, sol, bc, c.res(sol)[f], scale)
            mon.close(f"{tag}: the constrained equilibrium", sol, ref_sol[tag], rtol=1e-7,
                      scale=max(1e-3, np.abs(ref_sol[tag]).max()), ig=igt)
    # a fresh solver built with the replaced values from the start
    if path != "ts":
        s2 = fe.create_solver(c.p, bc2, linear=True, traced_params=c.tp, **_opts(path))
        mon.close("rebuilt with the new values", wl.dofs_of(s2(c.tp, ig_default)), ref_sol["replaced"], rtol=1e-7,
                  scale=max(1e-3, np.abs(ref_sol["replaced"]).max()))
    # the constrained set is the geometric one
    nz = np.asarray(c.bc.bc_vals) != 0
    mon.true("non-trivial", nz.any())
    mon.seen("linear", case["phys"], case["ele"], path)
    mon.note(phys=case["phys"], path=path, dofs=c.n, constrained=len(rows))


def case_newton(case, mon):
    rng = rng_for(case)
    path = case["path"]
    c = wl.gen(rng, case["phys"], case["ele"], distort=0.1)
    N = fe.NewtonOptions(tol=1e-10, rel_tol=1e-12, max_iter=40)
    D, K = fe.DirectSolverOptions, fe.KrylovSolverOptions
    kw = dict(newton_options=N, solver_options=D(solver="spsolve"))
    extra = None
    n = c.n
    if "nonsym" in path:
        kw["symmetric_elimination"] = False
    if path == "newton-krylov":
        kw["solver_options"] = K(solver="gmres", tol=1e-12, atol=1e-14, maxiter=300)
    if path == "newton-amg":
        kw["solver_options"] = fe.AMGSolverOptions(solver="gmres", tol=1e-12, atol=1e-14)
    if "extra" in path:
        w = jnp.asarray(rng.uniform(0.1, 0.3, n))
        extra = lambda s: w * s + 0.05 * s ** 3
        kw["extra_residual_fn"] = extra
        if "krylov" in path:
            kw["solver_options"] = K(solver="gmres", tol=1e-12, atol=1e-14, maxiter=300)
    solver = fe.create_solver(c.p, c.bc, linear=False, traced_params=c.tp, **kw)
    rows = np.asarray(c.bc.bc_rows)
    vals2 = np.asarray(c.bc.bc_vals) * 1.3 + 0.01 * rng.uniform(-1, 1, len(rows))
    bc2 = c.bc.replace_vals(jnp.asarray(vals2))

    def res(u):
        r = c.res(u)
        return r if extra is None else r + np.asarray(extra(jnp.asarray(u)))
    f = c.free()
    sols = {}
    ig0 = fe.zero_like_initial_guess(c.p, c.bc)
    for tag, bc, ig in (("original", c.bc, ig0), ("replaced", bc2, fe.zero_like_initial_guess(c.p, bc2)),
                        ("increment", bc2, None)):
        if ig is None:
            g = np.array(sols["original"])
            if "nonsym" not in path:           # documented: otherwise the guess must carry the new values
                g[rows] = vals2
            ig = jnp.asarray(g)
        sol = wl.dofs_of(solver(c.tp, ig, bc=bc))
        sols[tag] = sol
        _check_bc(mon, tag, sol, bc, res(sol)[f], 1.0, rtol=2e-8)
    if "increment" in sols:
        mon.close("incremental equals from-scratch", sols["increment"], sols["replaced"], rtol=1e-6,
                  scale=np.abs(sols["replaced"]).max())
    s2 = fe.create_solver(c.p, bc2, linear=False, traced_params=c.tp, **kw)
    mon.close("rebuilt with the new values", wl.dofs_of(s2(c.tp, fe.zero_like_initial_guess(c.p, bc2))),
              sols["replaced"], rtol=1e-6, scale=np.abs(sols["replaced"]).max())
    mon.seen("newton", case["phys"], path)
    mon.note(phys=case["phys"], path=path, dofs=n, moved=float(np.abs(sols["original"]).max()))


def case_reduced(case, mon):
    """Prolongation tying left/right node pairs of a structured mesh, Dirichlet on whole classes."""
    rng = rng_for(case)
    ns = (3, 3)
    size = rng.uniform(0.8, 1.6, 2)
    org = rng.uniform(-1, 1, 2)
    pts, cells = wl.make_mesh(rng, "QUAD4", ns, size, org, permute=True)
    m = wl.fmesh(pts, cells, "QUAD4")
    vec = int(rng.choice([1, 2]))

    class P(fe.problem.Problem):
        def get_tensor_map(self):
            if vec == 2:
                return lambda g, E: wl.stress_lin(jnp, g, E)
            return lambda g, k: k * g

        def get_mass_map(self):
            return lambda u, x, k: 0.3 * u - jnp.ones_like(u) * jnp.sin(x[0] * 2)
    p = P(m, vec=vec, dim=2, ele_type="QUAD4")
    L = np.where(np.isclose(pts[:, 0], org[0]))[0]
    R = np.where(np.isclose(pts[:, 0], org[0] + size[0]))[0]
    L, R = L[np.argsort(pts[L, 1])], R[np.argsort(pts[R, 1])]
    master = np.arange(len(pts))
    master[R] = L
    keep = np.setdiff1d(np.arange(len(pts)), R)
    col = {int(k): i for i, k in enumerate(keep)}
    rows_, cols_ = [], []
    for a in range(len(pts)):
        for k in range(vec):
            rows_.append(a * vec + k)
            cols_.append(col[int(master[a])] * vec + k)
    from jax.experimental.sparse import BCOO
    Pm = BCOO((jnp.ones(len(rows_)), jnp.stack([jnp.asarray(rows_), jnp.asarray(cols_)], 1)),
              shape=(len(pts) * vec, len(keep) * vec))
    lo = float(org[1])
    S = fe.DirichletBCSpec
    # value depends on y only -> consistent over each class
    bc = fe.DirichletBC.from_specs(p, [S(wl.side(1, lo), "all", 0.2),
                                       S(wl.side(1, lo + float(size[1])), 0, lambda x: 0.1 * x[1])])
    E = rng.uniform(0.6, 1.5, len(pts))
    tp = fe.TracedParams(volume_vars=(jnp.asarray(E),), surface_vars=[])
    Pd = np.zeros(Pm.shape)
    Pd[rows_, cols_] = 1.0
    opt = [fe.KrylovSolverOptions(solver="cg", tol=1e-13, atol=1e-14, maxiter=2000),
           fe.DirectSolverOptions(solver="spsolve"), fe.KrylovSolverOptions(solver="bicgstab", tol=1e-13, atol=1e-14)][
        case["j"] % 3]
    s = fe.create_solver(p, bc, solver_options=opt, linear=True, P=Pm)
    c = wl.Case(p=p, tp=tp, bc=bc)
    n = c.n
    brow = np.asarray(bc.bc_rows)
    K, r0 = c.K(np.zeros(n)), c.res(np.zeros(n))
    rcols = np.unique(np.array(cols_)[np.isin(np.array(rows_), brow)])
    fc = np.setdiff1d(np.arange(Pm.shape[1]), rcols)
    vals2 = np.asarray(bc.bc_vals) * rng.uniform(0.5, 2)
    for tag, b in (("original", bc), ("replaced", bc.replace_vals(jnp.asarray(vals2)))):
        # reference: reduced dense solve
        q = np.zeros(Pm.shape[1])
        v = np.asarray(b.bc_vals)
        for r_, vv in zip(brow, v):
            q[np.array(cols_)[np.array(rows_) == r_][0]] = vv
        Kr = Pd.T @ K @ Pd
        rr = Pd.T @ r0
        q[fc] = np.linalg.solve(Kr[np.ix_(fc, fc)], -(rr[fc] + Kr[np.ix_(fc, rcols)] @ q[rcols]))
        want = Pd @ q
        ig = fe.zero_like_initial_guess(p, b)
        sol = wl.dofs_of(s(tp, ig, bc=b))
        mon.close(f"{tag}: prescribed values met", sol[brow], v, rtol=1e-9, scale=max(1, np.abs(v).max()))
        mon.close(f"{tag}: constrained periodic equilibrium", sol, want, rtol=1e-7, scale=np.abs(want).max())
    mon.seen("reduced", vec, type(opt).__name__, getattr(opt, "solver", ""))
    mon.note(vec=vec, pairs=len(R))


def case_history(case, mon):
    """A loading program: one solver, many prescribed-value sets, in random order and repeated."""
    rng = rng_for(case)
    c = wl.gen(rng, "elastic", "QUAD4", ns=(4, 3))
    s = fe.create_solver(c.p, c.bc, linear=True, traced_params=c.tp,
                         solver_options=fe.DirectSolverOptions(solver="cholmod"))
    rows = np.asarray(c.bc.bc_rows)
    progs = [rng.normal(size=len(rows)) * a for a in (0.1, 0.5, 0.0, 1.0)]
    want = [c.linear_solution(bc=c.bc.replace_vals(jnp.asarray(v))) for v in progs]
    prev = None
    for k in rng.integers(0, len(progs), 12):
        b = c.bc.replace_vals(jnp.asarray(progs[k]))
        ig = prev if (prev is not None and rng.random() < 0.5) else fe.zero_like_initial_guess(c.p, c.bc)
        sol = s(c.tp, ig, bc=b)
        mon.close("value at this step of the program", wl.dofs_of(sol), want[k], rtol=1e-8, atol=1e-10)
        prev = sol
    mon.close("default values again", wl.dofs_of(s(c.tp)), c.linear_solution(), rtol=1e-8, atol=1e-10)
    mon.seen("history")
