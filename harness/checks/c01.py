"""C01: assembled residual == independent quadrature of the declared weak form."""
import numpy as np

from harness import ref, wl
from harness.lazy import fe, jax, jnp
from harness.mon import rng_for

ID = "C01"
RULE = ("random distorted/curved meshes (node order permuted) x 9 element types x quadrature order x "
        "weak-form family x parameter layout x boundary faces; non-trivial = nonzero reference residual; "
        "distinct by (element, vec, cells bucket, quadrature, weak form, layouts, surfaces)")
ASSUMPTIONS = ["basix quadrature rules are trusted", "user physics evaluated with numpy is the oracle's weak form"]
MIN_EVALUATIONS = 60

SMALL = {"TRI3": (3, 2), "TRI6": (2, 2), "QUAD4": (3, 2), "QUAD8": (2, 2), "QUAD9": (2, 2),
         "TET4": (2, 2, 1), "TET10": (1, 1, 2), "HEX8": (2, 2, 2), "HEX20": (1, 2, 1)}
BIG = {"TRI3": (13, 11), "TRI6": (13, 11), "QUAD4": (19, 15), "QUAD8": (18, 15), "QUAD9": (17, 16),
       "TET4": (4, 4, 4), "TET10": (4, 4, 3), "HEX8": (7, 7, 6), "HEX20": (7, 7, 6)}


def cases(tier, seed):
    out = []
    reps = 1 if tier == "quick" else 6
    for r in range(reps):
        for e in SMALL:
            out.append(dict(kind="single", ele=e, r=r, cost=2))
            out.append(dict(kind="single", ele=e, r=r + 100, cost=2))
        for e in (("QUAD4", "TET4", "HEX8", "TRI3") if tier == "quick" else tuple(BIG)):
            out.append(dict(kind="big", ele=e, r=r, cost=4))
        for pair in (("QUAD9", "QUAD4"), ("TRI6", "TRI3"), ("HEX8", "HEX8"), ("TET10", "TET4"), ("HEX20", "HEX8")):
            out.append(dict(kind="multi", ele=list(pair), r=r, cost=3))
        for e in ("QUAD4", "HEX8", "TRI3", "TET4", "HEX20", "QUAD8"):
            out.append(dict(kind="surface", ele=e, r=r, cost=2))
        for k in range(3):
            out.append(dict(kind="surface", ele=("HEX8", "HEX20", "TET4")[k], r=200 + 2 * r, cost=1))
            out.append(dict(kind="surface", ele=("HEX8", "HEX20", "HEX8")[k], r=400 + 2 * r + k * 1000, cost=1))
        for e in ("QUAD8", "HEX20", "TRI6", "TET10", "QUAD9"):
            out.append(dict(kind="interp", ele=e, r=r, cost=1))
        out.append(dict(kind="ambiguous", ele="TRI3", ns=[2, 3], r=r, cost=2))
        out.append(dict(kind="ambiguous", ele="TET4", ns=[2, 1, 1], r=r, cost=2))
        for nv in (1, 2):
            out.append(dict(kind="bareface", nv=nv, r=r, cost=2))
        for e, nv in (("QUAD4", 1), ("TET4", 2), ("HEX8", 1), ("TRI3", 2)):
            out.append(dict(kind="facekernel", ele=e, nv=nv, r=r, cost=2))
        out.append(dict(kind="custom", ele="QUAD4", r=r, cost=2))
        out.append(dict(kind="custom", ele="HEX8", r=r, cost=2))
    return [dict(c, seed=seed, i=n) for n, c in enumerate(out)]


def _mesh(rng, ele, ns, curved=True, unit=1.0):
    d = len(ns)
    size = rng.uniform(0.6, 2.5, d)
    origin = rng.uniform(-2, 2, d)
    pts, cells = wl.make_mesh(rng, ele, ns, size, origin, distort=0.2, curve=0.06 if curved else 0.0)
    return (pts * unit, cells), size * unit, origin * unit


def _var(rng, layout, npts, ncell, nq, k):
    """global array in the layout + function giving values (c,q[,k]) from a Geo."""
    if layout == "node":
        a = rng.uniform(0.5, 2, npts)
        return a, lambda g: np.einsum("qa,ca->cq", g.N, a[g.cells])
    if layout == "nodevec":
        a = rng.uniform(0.5, 2, (npts, k))
        return a, lambda g: np.einsum("qa,cak->cqk", g.N, a[g.cells])
    if layout == "cell":
        a = rng.uniform(0.5, 2, ncell)
        return a, lambda g: np.repeat(a[:, None], nq, 1)
    if layout == "cellvec":
        kk = int(rng.choice([v for v in (1, 2, 3, 5) if v != nq]))
        a = rng.uniform(0.5, 2, (ncell, kk))
        return a, (lambda g: np.repeat(a, nq, 1)) if kk == 1 else (lambda g: np.repeat(a[:, None], nq, 1))
    a = rng.uniform(0.5, 2, (ncell, nq))
    return a, lambda g: a


def _residual_ref(geo, vec, u, grad_fn, mass_fn, vars_q):
    """Nodal residual by straight loops over quadrature points."""
    n = len(geo.points)
    R = np.zeros((n, vec))
    U = u[geo.cells]                                        # (c,a,v)
    gu = np.einsum("cav,cqai->cqvi", U, geo.dN)
    uu = np.einsum("qa,cav->cqv", geo.N, U)
    for c in range(len(geo.cells)):
        for q in range(len(geo.qw)):
            vs = [v[c, q] for v in vars_q]
            w = geo.JxW[c, q]
            loc = np.zeros((geo.cells.shape[1], vec))
            if grad_fn is not None:
                loc += geo.dN[c, q] @ grad_fn(gu[c, q], *vs).T * w
            if mass_fn is not None:
                loc += np.outer(geo.N[q], mass_fn(uu[c, q], geo.x[c, q], *vs)) * w
            np.add.at(R, geo.cells[c], loc)
    return R


def _physics(rng, vec, dim, layouts):
    """(name, grad xp-function or None, energy or None, mass xp-function or None)"""
    names = ["flux", "flux+mass", "mass"]
    if vec == dim:
        names += ["nh_energy", "lin"]
    name = names[int(rng.integers(len(names)))]
    has_vec = "nodevec" in layouts

    def coef(xp, vs):
        s = 1.0
        for v in vs:
            s = s * (xp.sum(v * xp.asarray(np.arange(1, 1 + np.shape(v)[-1]) * 0.3)) if np.ndim(v) else v)
        return s

    def g_flux(xp):
        return lambda g, *vs: wl.flux_gen(xp, g, coef(xp, vs))

    def g_lin(xp):
        return lambda g, *vs: wl.stress_lin(xp, g, coef(xp, vs))

    def e_nh(xp):
        return lambda g, *vs: wl.psi_nh(xp, g, coef(xp, vs))

    def g_nh(xp):
        return lambda g, *vs: wl.pk1_nh(xp, g, coef(xp, vs))

    def mass(xp):
        return lambda u, x, *vs: coef(xp, vs) * (u + 0.2 * u ** 3) - xp.sum(x * x) * xp.ones_like(u) * 0.3
    if name == "flux":
        return name, g_flux, None, None
    if name == "flux+mass":
        return name, g_flux, None, mass
    if name == "mass":
        return name, None, None, mass
    if name == "lin":
        return name, g_lin, None, None
    return name, g_nh, e_nh, None


def _single(case, mon, ns, curved):
    rng = rng_for(case)
    ele = case["ele"]
    unit = float(10.0 ** rng.uniform(-8, 3)) if case["r"] >= 100 else 1.0     # metres, micrometres, ...
    (pts, cells), size, origin = _mesh(rng, ele, ns, curved, unit)
    dim = pts.shape[1]
    vec = int(rng.choice([1, dim, dim, 2]))
    order = [None, None, 1, 3, 4][int(rng.integers(5))]
    geo = ref.Geo(pts, cells, ele, order)
    nq = len(geo.qw)
    layouts = list(rng.choice(["node", "cell", "quad", "nodevec", "cellvec"], size=int(rng.integers(1, 4))))
    if len(pts) == len(cells):
        layouts = ["quad"]
    vv = [_var(rng, l, len(pts), len(cells), nq, 2 + dim) for l in layouts]
    name, gfn, efn, mfn = _physics(rng, vec, dim, layouts)

    class P(fe.problem.Problem):
        def get_tensor_map(self):
            return gfn(jnp) if gfn is not None and efn is None else None

        def get_energy_density(self):
            return efn(jnp) if efn is not None else None

        def get_mass_map(self):
            return mfn(jnp) if mfn is not None else None

    kw = {} if order is None else dict(gauss_order=order)
    p = P(wl.fmesh(pts, cells, ele), vec=vec, dim=dim, ele_type=ele, **kw)
    u = rng.normal(size=(len(pts), vec)) * 0.05 * unit
    tp = fe.TracedParams(volume_vars=tuple(jnp.asarray(a) for a, _ in vv))
    got = np.asarray(fe.assembler.get_res(p, [jnp.asarray(u)], tp)[0])
    want = _residual_ref(geo, vec, u, None if gfn is None else gfn(np), None if mfn is None else mfn(np),
                         [f(geo) for _, f in vv])
    mon.close("residual", got, want, rtol=1e-9, ele=ele, vec=vec, physics=name, layouts=layouts, order=order)
    mon.true("reference nonzero", np.max(np.abs(want)) > 1e-8 * unit ** dim)
    mon.event("cells integrated", len(cells))
    mon.seen(ele, vec, len(cells) > 256, order, name, sorted(layouts), int(np.floor(np.log10(unit))))
    mon.note(ele=ele, vec=vec, ncells=len(cells), order=order, physics=name, layouts=layouts,
             max_res=float(np.max(np.abs(want))), err=float(np.max(np.abs(got - want))))
    # same through a pre-built structure
    ts = fe.TracedStructure.from_problem(p, free_scratch=False)
    got2 = np.asarray(fe.assembler.get_res(p, [jnp.asarray(u)], tp, ts)[0])
    mon.close("residual via structure", got2, want, rtol=1e-9)
    if efn is not None:
        E = float(fe.assembler.create_energy_fn(p)(jnp.asarray(u.ravel()), tp))
        gu = np.einsum("cav,cqai->cqvi", u[cells], geo.dN)
        vq = [f(geo) for _, f in vv]
        Er = sum(efn(np)(gu[c, q], *[v[c, q] for v in vq]) * geo.JxW[c, q]
                 for c in range(len(cells)) for q in range(nq))
        mon.close("energy", E, Er, rtol=1e-9)


def case_single(case, mon):
    _single(case, mon, SMALL[case["ele"]], True)


def case_big(case, mon):
    _single(case, mon, BIG[case["ele"]], False)


def case_ambiguous(case, mon):
    """A mesh with as many cells as nodes: residual and energy must read a 1-D
    parameter the same way, and an unambiguous layout must give a matching answer."""
    rng = rng_for(case)
    ele, ns = case["ele"], case["ns"]
    (pts, cells), _, _ = _mesh(rng, ele, ns, False)
    assert len(pts) == len(cells)
    dim = pts.shape[1]
    geo = ref.Geo(pts, cells, ele)
    a = rng.uniform(0.5, 2, len(pts))

    class P(fe.problem.Problem):
        def get_energy_density(self):
            return lambda g, E: wl.psi_nh(jnp, g, E)
    p = P(wl.fmesh(pts, cells, ele), vec=dim, dim=dim, ele_type=ele)
    u = rng.normal(size=(len(pts), dim)) * 0.05
    tp = fe.TracedParams(volume_vars=(jnp.asarray(a),))
    got = np.asarray(fe.assembler.get_res(p, [jnp.asarray(u)], tp)[0])
    g = lambda gg, E: wl.pk1_nh(np, gg, E)
    node = _residual_ref(geo, dim, u, g, None, [np.einsum("qa,ca->cq", geo.N, a[geo.cells])])
    mon.close("same-count layout residual", got, node, rtol=1e-9)
    ge = np.asarray(jax.grad(fe.assembler.create_energy_fn(p))(jnp.asarray(u.ravel()), tp)).reshape(u.shape)
    mon.close("energy reads the same layout", ge, node, rtol=1e-9)
    mon.seen("ambiguous", ele)


def case_multi(case, mon):
    rng = rng_for(case)
    e0, e1 = case["ele"]
    shape = ref.ELE[e0][2]
    dim = ref.DIM[shape]
    ns = (2, 2) if dim == 2 else (1, 2, 1)
    size, origin = rng.uniform(0.6, 2, dim), rng.uniform(-1, 1, dim)
    p0, c0 = wl.make_mesh(rng, e0, ns, size, origin, distort=0.2, permute=False)
    nc = ref.CORNERS[shape]
    if e0 == e1:
        p1, c1 = p0, c0
    else:
        p1 = p0[: c0[:, :nc].max() + 1]
        c1 = c0[:, :nc]
    order = int(rng.choice([2, 3]))
    v0, v1 = int(rng.choice([1, 2, 3])), int(rng.choice([1, 2]))
    g0, g1 = ref.Geo(p0, c0, e0, order), ref.Geo(p1, c1, e1, order)
    nq = len(g0.qw)
    lay = list(rng.choice(["node0", "node1", "cell", "quad"], size=2))
    vars_, vq = [], []
    for l in lay:
        if l == "node0":
            a = rng.uniform(.5, 2, len(p0)); vars_.append(a); vq.append(np.einsum("qa,ca->cq", g0.N, a[c0]))
        elif l == "node1" and len(p1) != len(c1):
            a = rng.uniform(.5, 2, len(p1)); vars_.append(a); vq.append(np.einsum("qa,ca->cq", g1.N, a[c1]))
        elif l == "cell" and len(c0) not in (len(p0), len(p1)):
            a = rng.uniform(.5, 2, len(c0)); vars_.append(a); vq.append(np.repeat(a[:, None], nq, 1))
        else:
            a = rng.uniform(.5, 2, (len(c0), nq))
            if len(c0) in (len(p0), len(p1)):
                continue
            vars_.append(a); vq.append(a)

    def wf(xp):
        def f(vals, grads, x, *vs):
            a, b = vals
            ga, gb = grads
            k = 1.0
            for v in vs:
                k = k * v
            m0 = a * k + xp.sum(b) * xp.ones(v0) * 0.5 - x[0] * xp.ones(v0)
            m1 = b ** 2 * 0.3 + xp.sum(a) * xp.ones(v1) + xp.sum(ga) * xp.ones(v1)
            h0 = k * ga + 0.2 * xp.sum(gb) * xp.ones((v0, dim)) * xp.sum(b)
            h1 = gb * (1 + xp.sum(a) ** 2) - 0.4 * xp.sum(a) * xp.ones((v1, dim))
            return [m0, m1], [h0, h1]
        return f

    loc_ax = int(rng.integers(dim))
    loc_val = float(origin[loc_ax] + size[loc_ax])

    def swf(xp):
        def f(vals, x, t):
            a, b = vals
            return [t * xp.ones(v0) + 0.3 * a, xp.sum(x) * b - t]
        return f

    class P(fe.problem.Problem):
        def get_weak_form(self):
            return wf(jnp)

        def get_surface_weak_forms(self):
            return [swf(jnp)]

    m0 = wl.fmesh(p0, c0, e0)
    m1 = wl.fmesh(p1, c1, e1)
    p = P([m0, m1], vec=[v0, v1], dim=dim, ele_type=[e0, e1], gauss_order=[order, order],
          location_fns=[wl.side(loc_ax, loc_val)])
    t = fe.TracedParams.create_uniform_surface_var(p, 1.7)
    tp = fe.TracedParams(volume_vars=tuple(jnp.asarray(a) for a in vars_), surface_vars=[(t,)])
    u0 = rng.normal(size=(len(p0), v0)) * .3
    u1 = rng.normal(size=(len(p1), v1)) * .3
    got = fe.assembler.get_res(p, [jnp.asarray(u0), jnp.asarray(u1)], tp)
    R0, R1 = np.zeros_like(u0), np.zeros_like(u1)
    f = wf(np)
    for c in range(len(c0)):
        for q in range(nq):
            vals = [g0.N[q] @ u0[c0[c]], g1.N[q] @ u1[c1[c]]]
            grads = [u0[c0[c]].T @ g0.dN[c, q], u1[c1[c]].T @ g1.dN[c, q]]
            (m0_, m1_), (h0, h1) = f(vals, grads, g0.x[c, q], *[v[c, q] for v in vq])
            w = g0.JxW[c, q]
            np.add.at(R0, c0[c], (np.outer(g0.N[q], m0_) + g0.dN[c, q] @ h0.T) * w)
            np.add.at(R1, c1[c], (np.outer(g1.N[q], m1_) + g1.dN[c, q] @ h1.T) * w)
    fs = swf(np)
    sel = g0.selected_faces(wl.side_np(loc_ax, loc_val))
    for c, fc in sel:
        N0, dA, x = g0.face_data(c, fc)
        N1, _, _ = g1.face_data(c, fc)
        for q in range(len(dA)):
            t0, t1 = fs([N0[q] @ u0[c0[c]], N1[q] @ u1[c1[c]]], x[q], 1.7)
            np.add.at(R0, c0[c], np.outer(N0[q], t0) * dA[q])
            np.add.at(R1, c1[c], np.outer(N1[q], t1) * dA[q])
    s = max(np.abs(R0).max(), np.abs(R1).max())
    mon.close("coupled residual var0", got[0], R0, rtol=1e-9, scale=s)
    mon.close("coupled residual var1", got[1], R1, rtol=1e-9, scale=s)
    mon.event("faces integrated", len(sel))
    mon.true("faces selected", len(sel) > 0)
    mon.seen("multi", e0, e1, v0, v1, sorted(lay), order)


def case_surface(case, mon):
    rng = rng_for(case)
    ele = case["ele"]
    ns = {2: (4, 3), 3: (2, 3, 2)}[ref.DIM[ref.ELE[ele][2]]]
    if case["r"] % 2 and ele == "HEX8":
        ns = (17, 16, 1)                        # more than 256 faces on one side
    unit = float(10.0 ** rng.uniform(-8, 3)) if rng.random() < 0.5 else 1.0
    (pts, cells), size, origin = _mesh(rng, ele, ns, False, unit)
    dim = pts.shape[1]
    vec = int(rng.choice([1, dim]))
    order = [None, 2, 3][int(rng.integers(3))]
    planes = []
    for _ in range(2):
        ax = int(rng.integers(dim))
        planes.append((ax, float(origin[ax] + (size[ax] if rng.random() < .5 else 0))))
    if planes[0] == planes[1]:
        planes[1] = (planes[1][0], float(origin[planes[1][0]] * 2 + size[planes[1][0]] - planes[1][1]))
    if ns[0] == 17:
        planes[0] = (2, float(origin[2]))
    geo = ref.Geo(pts, cells, ele, order)

    def s0(xp):
        return lambda u, x, a: a * xp.ones(vec) * x[0] + 0.1 * u ** 2

    def s1(xp):
        return lambda u, x, a, b: a * u + b * xp.sum(x) * xp.ones(vec)

    class P(fe.problem.Problem):
        def get_tensor_map(self):
            return lambda g: 0.0 * g

        def get_surface_maps(self):
            return [s0(jnp), s1(jnp)]
    kw = {} if order is None else dict(gauss_order=order)
    # the second region is part of a side, listed by node number
    side1 = np.abs(pts[:, planes[1][0]] - planes[1][1]) < 1e-8 * unit
    ncorner = len(ref.VERT[ref.ELE[ele][2]])
    corner = np.unique(cells[:, :ncorner])
    cand = corner[side1[corner]]
    listed = side1.copy()
    drop = rng.choice(cand, max(1, len(cand) // (8 if ns[0] == 17 else 5)), replace=False)
    for k in drop:                              # as long as some face of the side stays selected
        listed[k] = False
        if not len(geo.selected_faces(lambda x, i: listed[i])):
            listed[k] = True
    listed_j = jnp.asarray(listed)
    p = P(wl.fmesh(pts, cells, ele), vec=vec, dim=dim, ele_type=ele,
          location_fns=[wl.side(*planes[0], 1e-8 * unit), lambda x, ind: listed_j[ind]], **kw)
    fn = [lambda x: 1 + x[0] ** 2, lambda x: 2 - x[1], lambda x: 0.5 + x[0] * x[1]]
    sv = [(fe.TracedParams.create_spatially_varying_surface_var(p, fn[0], 0),),
          (fe.TracedParams.create_spatially_varying_surface_var(p, fn[1], 1),
           fe.TracedParams.create_spatially_varying_surface_var(p, fn[2], 1))]
    u = rng.normal(size=(len(pts), vec)) * .3
    tp = fe.TracedParams(surface_vars=sv)
    got = np.asarray(fe.assembler.get_res(p, [jnp.asarray(u)], tp)[0])
    R = np.zeros_like(u)
    tot = 0
    for k, (ax, v) in enumerate(planes):
        sel = geo.selected_faces(wl.side_np(ax, v, 1e-8 * unit) if k == 0 else lambda x, i: listed[i])
        tot += len(sel)
        area = 0.0
        for c, f in sel:
            N, dA, x = geo.face_data(c, f)
            area += dA.sum()
            for q in range(len(dA)):
                uu = N[q] @ u[cells[c]]
                if k == 0:
                    t = s0(np)(uu, x[q], fn[0](x[q]))
                else:
                    t = s1(np)(uu, x[q], fn[1](x[q]), fn[2](x[q]))
                np.add.at(R, cells[c], np.outer(N[q], t) * dA[q])
        if k == 0:
            mon.close("selected faces tile the side", area, np.prod(size) / size[ax], rtol=1e-9)
    mon.close("boundary residual", got, R, rtol=1e-9, ele=ele, order=order)
    mon.event("faces integrated", tot)
    mon.seen("surface", ele, vec, order, tot > 256)


def case_interp(case, mon):
    """Nodal values are the field's values at the nodes: a quadratic field is
    reproduced exactly (values, gradients) inside every second-order element."""
    rng = rng_for(case)
    ele = case["ele"]
    (pts, cells), size, origin = _mesh(rng, ele, SMALL[ele], False)
    if ele in ("QUAD8", "HEX20", "QUAD9"):        # affine cells so that the field is in the element space
        pts, cells = wl.make_mesh(rng, ele, SMALL[ele], size, origin, distort=0.0)
    dim = pts.shape[1]
    A = rng.normal(size=(dim, dim))
    b = rng.normal(size=dim)
    f = lambda x: np.einsum("...i,ij,...j->...", x, A, x) + x @ b + 0.7
    g = lambda x: x @ (A + A.T) + b

    class P(fe.problem.Problem):
        def get_tensor_map(self):
            return lambda g: g
    p = P(wl.fmesh(pts, cells, ele), vec=1, dim=dim, ele_type=ele, gauss_order=3)
    f0 = p.fes[0]
    u = jnp.asarray(f(pts)[:, None])
    xq = np.asarray(f0.get_physical_quad_points())
    uq = np.asarray(f0.convert_from_dof_to_quad(u))[..., 0]
    gq = np.asarray(f0.sol_to_grad(u))[..., 0, :]
    mon.close("quadratic field at quadrature points", uq, f(xq), rtol=1e-9, ele=ele)
    mon.close("gradient of quadratic field", gq, g(xq), rtol=1e-8, ele=ele)
    # body load of constant density sums to the measure and partitions like the reference
    geo = ref.Geo(pts, cells, ele, 3)
    mon.close("quadrature points", np.sort(xq.ravel()), np.sort(geo.x.ravel()), rtol=1e-9)
    mon.close("measure", np.asarray(f0.JxW).sum(), np.prod(size), rtol=1e-9)
    mon.seen("interp", ele)


def case_custom(case, mon):
    """User kernels: an extra kernel adds to, and a universal kernel replaces, the maps."""
    rng = rng_for(case)
    ele = case["ele"]
    (pts, cells), size, origin = _mesh(rng, ele, SMALL[ele], True)
    dim = pts.shape[1]
    geo = ref.Geo(pts, cells, ele)
    k = rng.uniform(.5, 2, len(cells))

    def kern(self):
        def kernel(u, xq, sg, JxW, vg, *vs):
            kk = vs[0]
            us = self.unflatten_fn_dof(u)[0]
            gq = jnp.einsum("av,qai->qvi", us, sg)
            r = jnp.einsum("qvi,qai,q->av", gq, sg, JxW[0]) * jnp.reshape(kk, ()) * 3.0
            return jax.flatten_util.ravel_pytree(r)[0]
        return kernel

    class Extra(fe.problem.Problem):
        def get_tensor_map(self):
            return lambda g, k: k * g

        def get_extra_kernel(self):
            return kern(self)

    class Uni(fe.problem.Problem):
        def get_tensor_map(self):
            return lambda g, k: k * g

        def get_universal_kernel(self):
            return kern(self)
    u = rng.normal(size=(len(pts), 2))
    base = _residual_ref(geo, 2, u, lambda g, kk: kk * g, None, [np.repeat(k[:, None], len(geo.qw), 1)])
    tp = fe.TracedParams(volume_vars=(jnp.asarray(k),))
    import jax.flatten_util                       # noqa: F401
    for cls, want in ((Extra, 4 * base), (Uni, 3 * base)):
        p = cls(wl.fmesh(pts, cells, ele), vec=2, dim=dim, ele_type=ele)
        got = np.asarray(fe.assembler.get_res(p, [jnp.asarray(u)], tp)[0])
        mon.close("custom kernel " + cls.__name__, got, want, rtol=1e-9)
    mon.seen("custom", ele)


def case_bareface(case, mon):
    """More boundary regions declared than boundary terms: the extra ones add nothing."""
    rng = rng_for(case)
    nv = case["nv"]
    (pts, cells), size, origin = _mesh(rng, "QUAD4", (3, 2), False)
    ax = int(rng.integers(2))
    locs = [wl.side(ax, float(origin[ax])), wl.side(ax, float(origin[ax] + size[ax]))]
    m = wl.fmesh(pts, cells, "QUAD4")
    geo = ref.Geo(pts, cells, "QUAD4")
    u = [rng.normal(size=(len(pts), 1 + n)) * .3 for n in range(nv)]

    if nv == 1:
        class P(fe.problem.Problem):
            def get_tensor_map(self):
                return lambda g: g

            def get_surface_maps(self):
                return [lambda u, x: 0.5 * u + x[0]]
    else:
        class P(fe.problem.Problem):
            def get_weak_form(self):
                return lambda v, g, x: ([0 * v[0], 0 * v[1]], [g[0], g[1]])

            def get_surface_weak_forms(self):
                return [lambda v, x: [0.5 * v[0] + x[0], 0 * v[1] + v[0]]]
    kw = dict(vec=1, ele_type="QUAD4") if nv == 1 else dict(vec=[1, 2], ele_type=["QUAD4"] * 2)
    p = P(m if nv == 1 else [m, m], dim=2, location_fns=locs, **kw)
    tp = fe.TracedParams(volume_vars=(), surface_vars=[(), ()])
    got = fe.assembler.get_res(p, [jnp.asarray(x) for x in u], tp)
    want = [_residual_ref(geo, x.shape[1], x, lambda g: g, None, []) for x in u]
    for c, f in geo.selected_faces(wl.side_np(ax, float(origin[ax]))):
        N, dA, x = geo.face_data(c, f)
        for q in range(len(dA)):
            v = [N[q] @ w[cells[c]] for w in u]
            ts = [0.5 * v[0] + x[q][0]] + ([v[0] * np.ones(2)] if nv == 2 else [])
            for w, t in zip(want, ts):
                np.add.at(w, cells[c], np.outer(N[q], t) * dA[q])
    for k in range(nv):
        mon.close("undeclared boundary term adds nothing", got[k], want[k], rtol=1e-9)
    K = ref.csr_dense(fe.assembler.get_jacobian(p, [jnp.asarray(x) for x in u], tp))
    mon.true("tangent assembled", np.isfinite(K).all() and np.abs(K).max() > 0)
    mon.seen("bareface", nv)


def case_facekernel(case, mon):
    """User boundary kernels: added to a boundary map (one field) or standing for the region's term (several fields)."""
    rng = rng_for(case)
    ele, nv = case["ele"], case["nv"]
    (pts, cells), size, origin = _mesh(rng, ele, SMALL[ele], False)
    dim = pts.shape[1]
    axs = rng.permutation(dim)[:2]
    vals = [float(origin[axs[0]]), float(origin[axs[1]] + size[axs[1]])]
    locs = [wl.side(int(a), v) for a, v in zip(axs, vals)]
    m = wl.fmesh(pts, cells, ele)
    geo = ref.Geo(pts, cells, ele)
    vec = [2] if nv == 1 else [1, 2]
    u = [rng.normal(size=(len(pts), v)) * .3 for v in vec]
    na = geo.N.shape[1]
    h, c1 = float(rng.uniform(.5, 2)), float(rng.uniform(.5, 2))
    import jax.flatten_util                       # noqa: F401

    def kern(self, which):
        def kernel(uf, x, fN, fdN, nanson, *vs):
            us = self.unflatten_fn_dof(uf)
            out = []
            for j, us_j in enumerate(us):
                N = fN[:, j * na:(j + 1) * na]
                uq = N @ us_j
                t = (which + 1) * uq ** 3 + c1 * x[:, :1] * vs[0][:, None]
                out.append(N.T @ (t * nanson[j][:, None]))
            return jax.flatten_util.ravel_pytree(out)[0]
        return kernel

    class P(fe.problem.Problem):
        def get_universal_kernels_surface(self):
            return [kern(self, 0), kern(self, 1)]
    if nv == 1:
        P.get_tensor_map = lambda self: lambda g: g
        P.get_surface_maps = lambda self: [lambda u, x, s: h * u * s]
    else:
        P.get_weak_form = lambda self: lambda v, g, x: ([0 * a for a in v], list(g))
    p = P(m if nv == 1 else [m] * nv, vec=vec[0] if nv == 1 else vec, dim=dim, ele_type=ele if nv == 1 else [ele] * nv,
          location_fns=locs)
    sv = [float(rng.uniform(.5, 2)) for _ in range(2)]
    tp = fe.TracedParams(volume_vars=(), surface_vars=[(fe.TracedParams.create_uniform_surface_var(p, a, surface_index=k),)
                                                       for k, a in enumerate(sv)])
    got = fe.assembler.get_res(p, [jnp.asarray(x) for x in u], tp)
    want = [_residual_ref(geo, x.shape[1], x, lambda g: g, None, []) for x in u]
    vol = [w.copy() for w in want]
    for k in range(2):
        faces = geo.selected_faces(wl.side_np(int(axs[k]), vals[k]))
        mon.true("faces selected", len(faces) > 0)
        for c, f in faces:
            N, dA, x = geo.face_data(c, f)
            for w, uu in zip(want, u):
                uq = N @ uu[cells[c]]
                t = (k + 1) * uq ** 3 + c1 * x[:, :1] * sv[k]
                if nv == 1 and k == 0:
                    t = t + h * uq * sv[k]
                np.add.at(w, cells[c], N.T @ (t * dA[:, None]))
    for j in range(nv):
        mon.close("boundary kernels", got[j], want[j], rtol=1e-9, nv=nv, ele=ele)
        mon.true("boundary kernels contribute", np.abs(want[j] - vol[j]).max() > 1e-6)
    # field values on the selected faces
    fe0 = p.fes[0]
    bi = np.asarray(fe0.get_boundary_conditions_inds([locs[0]])[0])
    got = np.asarray(fe0.convert_from_dof_to_face_quad(jnp.asarray(u[0]), bi))
    xs = np.asarray(fe0.get_physical_surface_quad_points(bi))
    todo = set(geo.selected_faces(wl.side_np(int(axs[0]), vals[0])))
    mon.equal("number of selected faces", len(bi), len(todo))
    # numbering of faces and of the points on them is the library's own: match by position
    for r in range(len(bi)):
        for c, f in sorted(todo):
            N, dA, x = geo.face_data(c, f)
            d = np.linalg.norm(x[:, None] - xs[r][None], axis=2)
            if c == bi[r, 0] and d.min(0).max() < 1e-8:
                mon.close("field on the face", got[r], (N @ u[0][cells[c]])[d.argmin(0)], rtol=1e-9)
                todo.discard((c, f))
                break
    mon.equal("every selected face is evaluated once", len(todo), 0)
    mon.seen("facekernel", ele, nv)
