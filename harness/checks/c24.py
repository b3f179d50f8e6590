"""C24: volume and compliance responses equal their definitions, with exact gradients."""
import numpy as np

from harness import ref, wl
from harness.lazy import fe, gene, jax, jnp
from harness.mon import rng_for

ID = "C24"
RULE = ("random meshes of every element type with one to three loaded boundaries and coupled variables; volume fractions of nodal, "
        "per-cell and per-quadrature densities and compliances of random and equilibrium fields observed against an independent "
        "integration over cells and faces, and against the energy identity of the solved state; gradients against the closed form; "
        "distinct by (response, element type, layout, loads)")
ASSUMPTIONS = ["where one array length fits two layouts the two-dimensional shape decides, then nodal before per-cell"]
MIN_EVALUATIONS = 200

ELES = ("TRI3", "QUAD4", "TET4", "HEX8", "TRI6", "QUAD8", "TET10", "HEX20", "QUAD9")


def cases(tier, seed):
    out = []
    for r in range(1 if tier == "quick" else 6):
        for ele in ELES:
            out.append(dict(kind="volume", ele=ele, r=r, cost=3))
            out.append(dict(kind="compliance", ele=ele, r=r, cost=5))
        for ele in ("QUAD4", "HEX8", "TRI3"):
            out.append(dict(kind="work", ele=ele, r=r, cost=6))
        out.append(dict(kind="onecell", r=r, cost=3))
    return [dict(c, seed=seed, i=n) for n, c in enumerate(out)]


def _mesh(rng, ele, ns=None):
    dim = ref.DIM[ref.ELE[ele][2]]
    big = ele in ("TRI3", "QUAD4", "TET4", "HEX8")
    if ns is None:
        ns = tuple(int(v) for v in rng.integers(1, (6 if dim == 2 else 4) if big else 3, dim))
    unit = float(10.0 ** rng.choice([-3, 0, 0, 2]))
    size = unit * rng.uniform(0.6, 1.7, dim)
    org = unit * rng.normal(size=dim) * rng.integers(0, 2)
    pts, cells = wl.make_mesh(rng, ele, ns, size=size, origin=org, distort=float(rng.choice([0.0, 0.15])))
    return pts, cells, dim, np.asarray(org, float), size


def _problem(mesh, ele, dim, locs, maps, vec=None):
    class Pb(fe.problem.Problem):
        def get_tensor_map(self):
            return lambda g, *a: wl.stress_lin(jnp, g, 1.0) if g.shape == (dim, dim) else g

        def get_surface_maps(self):
            return maps
    return Pb(mesh, vec=dim if vec is None else vec, dim=dim, ele_type=ele, location_fns=locs)


def _check_volume(mon, rng, p, geo, ele):
    vol = gene.create_volume_fn(p)
    JxW, V = geo.JxW, geo.JxW.sum()
    nc, nq = JxW.shape
    nn = p.fes[0].num_total_nodes
    cells = np.asarray(p.fes[0].cells)
    wn = np.zeros(nn)
    np.add.at(wn, cells, np.einsum("qa,cq->ca", geo.N, JxW))
    lay = dict(quad=((nc, nq), JxW))
    if nc != nn:
        lay["cell"] = ((nc,), JxW.sum(axis=1))
    lay["node"] = ((nn,), wn)
    if nc * nq not in (nc, nn):
        lay["quad, flat"] = ((nc * nq,), JxW.ravel())
    for nm, (shape, w) in lay.items():
        if nm == "quad" and nq == 1 and nc == nn:
            continue
        x = rng.uniform(0, 1, shape)
        got = float(jax.jit(vol)(jnp.asarray(x))) if rng.integers(0, 2) else float(vol(jnp.asarray(x)))
        mon.close("volume.fraction", got, np.sum(w * x) / V, rtol=1e-10, layout=nm, ele=ele)
        mon.close("volume.full", float(vol(jnp.ones(shape))), 1.0, rtol=1e-10, layout=nm)
        g = np.asarray(jax.grad(lambda v: vol(v) ** 2)(jnp.asarray(x)))
        mon.close("volume.gradient", g, 2 * np.sum(w * x) / V * w / V, rtol=1e-9, layout=nm)
        for v0 in (0.0, 1.0):                              # at the empty and at the full design
            g = np.asarray(jax.grad(vol)(jnp.full(shape, v0)))
            mon.close("volume.gradient-at-bound", g, w / V, rtol=1e-9, layout=nm, at=v0)
        mon.seen("volume", ele, nm, nc, nn)
        mon.event("volume layouts")


def case_volume(case, mon):
    rng = rng_for(case)
    ele = case["ele"]
    pts, cells, dim, _, _ = _mesh(rng, ele)
    p = _problem(wl.fmesh(pts, cells, ele), ele, dim, [], [])
    _check_volume(mon, rng, p, ref.Geo(pts, cells, ele), ele)
    # nothing loaded: no work
    u = jnp.asarray(rng.normal(size=len(pts) * dim))
    mon.true("compliance.unloaded", float(gene.create_compliance_fn(p)(u)) == 0.0 and float(gene.create_dynamic_compliance_fn(p)(u, [])) == 0.0)


def case_onecell(case, mon):
    """Layouts whose lengths coincide (one cell; as many cells as nodes)."""
    rng = rng_for(case)
    for ele, ns in (("QUAD4", (1, 1)), ("HEX8", (1, 1, 1)), ("TRI3", (2, 3)), ("TRI3", (3, 2))):
        pts, cells, dim, _, _ = _mesh(rng, ele, ns)
        p = _problem(wl.fmesh(pts, cells, ele), ele, dim, [], [])
        _check_volume(mon, rng, p, ref.Geo(pts, cells, ele), ele)


def _loads(rng, dim, n):
    """Documented form of a surface map: (u, x, param) -> minus the traction."""
    vs = [jnp.asarray(rng.normal(size=dim)) for _ in range(n)]
    return [lambda u, x, t, v=v: -t * v * (1.0 + x[0]) for v in vs], [np.asarray(v) for v in vs]


def case_compliance(case, mon):
    rng = rng_for(case)
    ele = case["ele"]
    pts, cells, dim, org, size = _mesh(rng, ele)
    ax = [(a, b) for a in range(dim) for b in (0, 1)]
    rng.shuffle(ax)
    n = int(rng.integers(1, 4))
    sel = ax[:n]
    tol = 1e-7 * float(size.max())
    locs = [wl.side(a, org[a] + b * size[a], tol) for a, b in sel]
    maps, vs = _loads(rng, dim, n)
    p = _problem(wl.fmesh(pts, cells, ele), ele, dim, locs, [lambda u, x, t, m=m: m(u, x, t) for m in maps])
    geo = ref.Geo(pts, cells, ele)
    par = rng.uniform(0.5, 2.0, n)
    nn = len(pts)
    # b_i: work-conjugate nodal forces of a unit parameter on surface i, integrated by the harness
    B = np.zeros((n, nn, dim))
    for i, (a, b) in enumerate(sel):
        fs = geo.selected_faces(wl.side_np(a, org[a] + b * size[a], tol))
        for c, f in fs:
            N, JxW, x = geo.face_data(int(c), int(f))[:3]
            B[i][np.asarray(cells)[int(c)]] += np.einsum("qa,q,i->ai", N, JxW * (1 + x[:, 0]), vs[i])
    u = rng.normal(size=nn * dim)
    works = np.einsum("ikd,kd->i", B, u.reshape(nn, dim))
    S = np.abs(B).sum()
    for nm, arg, want in (("default", None, works.sum()), ("single", 1.7, 1.7 * works.sum()), ("list", [float(v) for v in par], works @ par),
                          ("tuple", tuple(float(v) for v in par), works @ par), ("numpy", par.copy(), works @ par), ("jax", jnp.asarray(par), works @ par)):
        f = gene.create_compliance_fn(p) if arg is None else gene.create_compliance_fn(p, arg)
        mon.close("compliance.value", float(f(jnp.asarray(u))), want, rtol=1e-9, scale=S, arg=nm, ele=ele)
        mon.seen("compliance", ele, nm, n)
        mon.event("compliance forms")
    g = np.asarray(jax.grad(f)(jnp.asarray(u)))
    mon.close("compliance.gradient", g.reshape(nn, dim), np.einsum("ikd,i->kd", B, par), rtol=1e-9, scale=S)
    # a load that depends on the displacement (bedding, follower load): value and gradient of the definition
    kk = rng.uniform(0.5, 2.0, n)
    pk = _problem(wl.fmesh(pts, cells, ele), ele, dim, locs,
                  [lambda u, x, t, m=m, k=float(k): m(u, x, t) + k * u for m, k in zip(maps, kk)])
    G = np.zeros((nn, nn))
    for i, (a, b) in enumerate(sel):
        for c, f in geo.selected_faces(wl.side_np(a, org[a] + b * size[a], tol)):
            N, JxW, x = geo.face_data(int(c), int(f))[:3]
            cc = np.asarray(cells)[int(c)]
            G[np.ix_(cc, cc)] += kk[i] * np.einsum("qa,qb,q->ab", N, N, JxW)
    U = u.reshape(nn, dim)
    fk = gene.create_compliance_fn(pk, [float(v) for v in par])
    S2 = S + np.abs(G).sum() * np.abs(U).max() ** 2
    mon.close("compliance.bedding", float(fk(jnp.asarray(u))), works @ par - np.sum(U * (G @ U)), rtol=1e-9, scale=S2)
    mon.close("compliance.bedding-gradient", np.asarray(jax.grad(fk)(jnp.asarray(u))).reshape(nn, dim),
              np.einsum("ikd,i->kd", B, par) - 2 * G @ U, rtol=1e-9, scale=S2)
    dk = gene.create_dynamic_compliance_fn(pk)
    svk = [(jnp.full(np.asarray(pk.physical_surface_quad_points[i]).shape[:2], par[i]),) for i in range(n)]
    mon.close("compliance.bedding-dynamic-gradient", np.asarray(jax.grad(dk)(jnp.asarray(u), svk)).reshape(nn, dim),
              np.einsum("ikd,i->kd", B, par) - 2 * G @ U, rtol=1e-9, scale=S2)
    mon.raises("compliance.length", lambda: gene.create_compliance_fn(p, [1.0] * (n + 1)))
    dyn = gene.create_dynamic_compliance_fn(p)
    sv = []
    for i in range(n):
        nf, nq = np.asarray(p.physical_surface_quad_points[i]).shape[:2]
        sv.append((jnp.full((nf, nq), par[i]),))
    mon.close("compliance.dynamic", float(dyn(jnp.asarray(u), sv)), works @ par, rtol=1e-9, scale=S)
    # load parameters that vary from point to point
    w2, sv2 = 0.0, []
    for i in range(n):
        xq = np.asarray(p.physical_surface_quad_points[i])
        t = 1.0 + np.sin(3 * (xq - org) / size).sum(-1) ** 2
        sv2.append((jnp.asarray(t),))
        a, b = sel[i]
        for c, f in geo.selected_faces(wl.side_np(a, org[a] + b * size[a], tol)):
            N, JxW, x = geo.face_data(int(c), int(f))[:3]
            tt = 1.0 + np.sin(3 * (x - org) / size).sum(-1) ** 2
            w2 += np.einsum("q,qd,d->", JxW * tt * (1 + x[:, 0]), N @ u.reshape(nn, dim)[np.asarray(cells)[int(c)]], vs[i])
    mon.close("compliance.dynamic-varying", float(dyn(jnp.asarray(u), sv2)), w2, rtol=1e-9, scale=S * 5)
    gs = jax.grad(lambda s: dyn(jnp.asarray(u), s))(sv)
    mon.close("compliance.load-gradient", np.array([float(jnp.sum(s[0])) for s in gs]), works, rtol=1e-9, scale=S)


def case_work(case, mon):
    """At equilibrium of a linear problem with zero supports, compliance is u'Ku, i.e. twice the stored energy."""
    rng = rng_for(case)
    ele = case["ele"]
    pts, cells, dim, org, size = _mesh(rng, ele)
    tol = 1e-7 * float(size.max())
    a = int(rng.integers(dim))
    other = (a + 1) % dim
    locs = [wl.side(a, org[a] + size[a], tol), wl.side(other, org[other] + size[other], tol)]
    maps, _ = _loads(rng, dim, 2)
    p = _problem(wl.fmesh(pts, cells, ele), ele, dim, locs, [lambda u, x, t, m=m: m(u, x, t) for m in maps])
    bc = fe.DirichletBC.from_specs(p, [fe.DirichletBCSpec(location=wl.side(a, org[a], tol), component="all", value=0.0)])
    t = [float(v) for v in rng.uniform(0.5, 2, 2)]
    tp = fe.TracedParams(volume_vars=(), surface_vars=[(fe.TracedParams.create_uniform_surface_var(p, v, surface_index=i),) for i, v in enumerate(t)])
    solver = fe.create_solver(p, bc, fe.DirectSolverOptions(solver="spsolve"), linear=True, traced_params=tp, return_solution=False)
    u = solver(tp, fe.zero_like_initial_guess(p, bc))
    K = ref.csr_dense(fe.assembler.get_jacobian(p, p.unflatten_fn_sol_list(u), tp))
    un = np.asarray(u)
    c = float(gene.create_compliance_fn(p, t)(u))
    mon.close("work.energy", c, un @ K @ un, rtol=1e-7, ele=ele)
    mon.true("work.positive", c > 0)
    mon.event("equilibria")
    mon.seen("work", ele, a)
