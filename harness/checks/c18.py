"""C18: design filters are the documented averages / smoothing solutions, keep constants, and have exact adjoints."""
import numpy as np

from harness import ref, wl
from harness.lazy import fe, gene, jax, jnp
from harness.mon import rng_for

ID = "C18"
RULE = ("random meshes of every element type (distorted, shifted, in units from 1e-6 to 1e4), radii from below the node spacing to "
        "beyond the domain, all weight kinds, nodal fields (constant, spike, random, signed, large) and projection settings; every "
        "filtered field observed against a directly evaluated weighted average / an independently assembled and densely solved smoothing "
        "equation, against the range and integral invariants and against the transposed operator for gradients; sensitivity averages over "
        "random active bands in any order against a direct double loop; distinct by (filter, element type, weight kind, units, field)")
ASSUMPTIONS = ["radius > 0", "no node lies on the edge of another node's filter radius to within rounding"]
MIN_EVALUATIONS = 400

ELES = ("TRI3", "QUAD4", "TET4", "HEX8", "TRI6", "QUAD8", "TET10", "HEX20", "QUAD9")


def cases(tier, seed):
    out = []
    q = tier == "quick"
    for r in range(1 if q else 5):
        for k, ele in enumerate(ELES):
            out.append(dict(kind="helmholtz", ele=ele, r=r, cost=7))
        for p in range(2):
            out.append(dict(kind="periodic", r=p, cost=7))
        for ele in ("TRI3", "QUAD4", "TET4", "HEX8", "TET10", "QUAD8"):
            out.append(dict(kind="density", ele=ele, r=r, cost=3))
        out.append(dict(kind="density", ele="QUAD4", big=True, r=r, cost=6))
        for dim in (2, 3):
            out.append(dict(kind="lattice", dim=dim, r=r, cost=3))
        for p in range(3):
            out.append(dict(kind="project", n=25, cost=3))
        for p in range(3):
            out.append(dict(kind="sensitivity", n=25, cost=1))
    return [dict(c, seed=seed, i=n) for n, c in enumerate(out)]


def _mesh(rng, ele, r=0, big=False):
    dim = ref.DIM[ref.ELE[ele][2]]
    quad = len(ref.ELE[ele][0]) > (4 if dim == 2 else 8) or ele in ("TET10", "TRI6")
    if big:
        ns = (39, 30)
    elif dim == 2:
        ns = tuple(int(v) for v in (rng.integers(1, 5, 2) if quad else rng.integers(2, 9, 2)))
    else:
        ns = tuple(int(v) for v in (rng.integers(1, 3, 3) if quad else rng.integers(1, 5, 3)))
    unit = float(10.0 ** rng.choice([-6, -4, -3, -2, 0, 0, 0, 2, 4]))
    size = unit * rng.uniform(0.6, 1.7, dim)
    org = unit * rng.normal(size=dim) * rng.integers(0, 2)
    pts, cells = wl.make_mesh(rng, ele, ns, size=size, origin=org, distort=float(rng.choice([0.0, 0.15])))
    return pts, cells, unit, size, ns


def _fields(rng, n):
    spike = np.zeros(n)
    spike[int(rng.integers(n))] = 1.0
    return dict(const=np.full(n, float(rng.choice([1.0, 0.3, -2.0, 1e6]))), spike=spike, random=rng.uniform(0, 1, n),
                signed=rng.normal(size=n), large=1e8 * rng.uniform(0.5, 1.0, n), binary=rng.integers(0, 2, n).astype(float))


def _matrices(pts, cells, ele):
    geo = ref.Geo(pts, cells, ele)
    n = len(pts)
    M, K = np.zeros((n, n)), np.zeros((n, n))
    for c, cell in enumerate(np.asarray(cells)):
        w = geo.JxW[c]
        M[np.ix_(cell, cell)] += np.einsum("qa,qb,q->ab", geo.N, geo.N, w)
        K[np.ix_(cell, cell)] += np.einsum("qad,qbd,q->ab", geo.dN[c], geo.dN[c], w)
    return M, K


def _linear_filter_oracles(mon, rng, tag, f, T, wts, averaging, sig, rt=2e-6):
    """T: dense operator the filter denotes; wts: integral weights preserved by the operator (or None)."""
    n = T.shape[0]
    filt = jax.jit(f) if rng.integers(0, 2) else f
    for nm, x in _fields(rng, n).items():
        y = np.asarray(filt(jnp.asarray(x)))
        want = T @ x
        s = np.abs(x).max()
        mon.close(f"{tag}.operator", y, want, rtol=rt, scale=s, field=nm, sig=sig)
        if nm == "const":
            mon.close(f"{tag}.constant", y, x, rtol=rt, field=nm, sig=sig)
        if averaging:
            mon.true(f"{tag}.range", y.min() >= x.min() - 1e-10 * s and y.max() <= x.max() + 1e-10 * s, lo=y.min(), hi=y.max(), sig=sig)
        if wts is not None:
            mon.close(f"{tag}.integral", wts @ y, wts @ x, rtol=rt, scale=wts.sum() * s, sig=sig)
        mon.event("filtered fields")
        mon.seen(tag, nm, *sig)
    # adjoint: gradient of a random objective is T' w(y)
    x, w, q = rng.uniform(0, 1, n), rng.normal(size=n), rng.normal(size=n)
    jw, jq = jnp.asarray(w), jnp.asarray(q)
    sc = float(10.0 ** rng.choice([0, 0, -8, 5]))
    g = np.asarray(jax.grad(lambda v: sc * (jnp.sum(jw * f(v)) + 0.5 * jnp.sum(jq * f(v) ** 2)))(jnp.asarray(x)))
    want = sc * (T.T @ (w + q * (T @ x)))
    mon.close(f"{tag}.adjoint", g, want, rtol=20 * rt, sig=sig)
    X = rng.uniform(0, 1, (3, n))
    Y = np.asarray(jax.vmap(f)(jnp.asarray(X)))
    mon.close(f"{tag}.batched", Y, X @ T.T, rtol=rt, scale=1.0, sig=sig)


def case_helmholtz(case, mon):
    rng = rng_for(case)
    ele = case["ele"]
    pts, cells, unit, size, ns = _mesh(rng, ele)
    M, K = _matrices(pts, cells, ele)
    for rel in (float(rng.choice([0.05, 0.15])), float(rng.choice([0.4, 3.0]))):
        rad = rel * float(size.min())
        A = M + rad ** 2 * K
        cond = np.linalg.cond(A)
        if cond > 1e9:
            mon.event("skipped: ill-conditioned operator")
            continue
        T = np.linalg.solve(A, M)
        kw = {}
        if rng.integers(0, 3) == 0 or cond > 1e4:      # the iterative default is only as sharp as its residual tolerance
            kw["solver_options"] = fe.DirectSolverOptions(solver="spsolve")
        f = gene.create_helmholtz_filter(wl.fmesh(pts, cells, ele), rad, **kw)
        _linear_filter_oracles(mon, rng, "helmholtz", f, T, M.sum(axis=0), False, (ele, rel, unit, bool(kw)), rt=2e-6 if kw else 2e-6 + 3e-8 * cond)
    if np.linalg.cond(M + rad ** 2 * K) > 1e4:
        return
    x = rng.uniform(0, 1, len(pts))
    y1 = np.asarray(gene.helmholtz_filter(jnp.asarray(x), wl.fmesh(pts, cells, ele), rad))
    mon.close("helmholtz.oneshot", y1, np.linalg.solve(M + rad ** 2 * K, M @ x), rtol=3e-4, scale=1.0)


def case_periodic(case, mon):
    """Periodic smoothing: the reduced operator of the paired nodes, results equal on paired nodes."""
    rng = rng_for(case)
    dim = 2 if case["r"] == 0 else 3
    ele = ("QUAD4", "HEX8")[dim - 2]
    ns = tuple(int(v) for v in rng.integers(2, 5, dim))
    unit = float(10.0 ** rng.choice([-3, 0, 2]))
    size = unit * rng.uniform(0.6, 1.7, dim)
    pts, cells = wl.make_mesh(rng, ele, ns, size=size, origin=np.zeros(dim))
    mesh = wl.fmesh(pts, cells, ele)
    # pair by the harness: identical coordinates modulo the period
    key = np.round(pts / (size / np.array(ns))).astype(int) % np.array(ns)
    _, inv = np.unique(key, axis=0, return_inverse=True)
    inv = inv.ravel()
    P = np.zeros((len(pts), inv.max() + 1))
    P[np.arange(len(pts)), inv] = 1.0
    M, K = _matrices(pts, cells, ele)
    rad = float(rng.choice([0.1, 0.5])) * float(size.min())
    A = P.T @ (M + rad ** 2 * K) @ P
    T = P @ np.linalg.solve(A, P.T @ M)
    from jax.experimental import sparse as jsp
    f = gene.create_helmholtz_filter(mesh, rad, P=jsp.BCOO.fromdense(jnp.asarray(P)))
    _linear_filter_oracles(mon, rng, "periodic", f, T, M.sum(axis=0), False, (ele, unit))
    x = rng.uniform(0, 1, len(pts))
    y = np.asarray(f(jnp.asarray(x)))
    mon.close("periodic.paired", y, (P @ (P.T @ y / P.sum(axis=0))), rtol=1e-10, scale=1.0)


def case_density(case, mon):
    rng = rng_for(case)
    ele = case["ele"]
    pts, cells, unit, size, ns = _mesh(rng, ele, big=case.get("big", False))
    d = np.linalg.norm(pts[:, None] - pts[None], axis=-1)
    hs = float(np.min(size / np.array(ns)))
    for wt in ("cone", "gaussian", "constant"):
        rad = hs * float(rng.choice([0.3, 1.37, 2.61])) if rng.integers(0, 4) else float(np.linalg.norm(size)) * 1.3
        while np.any(np.abs(d - rad) < 1e-9 * rad):
            rad *= 1.0137
        W = dict(cone=np.maximum(0, rad - d), gaussian=np.exp(-(d / rad) ** 2), constant=np.ones_like(d))[wt] * (d <= rad)
        T = W / W.sum(axis=1, keepdims=True)
        kw = {} if wt == "cone" and rng.integers(0, 2) else dict(weight_type=wt)
        f = gene.create_density_filter(wl.fmesh(pts, cells, ele), rad, **kw)
        _linear_filter_oracles(mon, rng, "density", f, T, None, True, (ele, wt, unit), rt=1e-10)
        x = rng.uniform(0, 1, len(pts))
        mon.close("density.oneshot", np.asarray(gene.density_filter(jnp.asarray(x), wl.fmesh(pts, cells, ele), rad, **kw)), T @ x,
                  rtol=1e-10, scale=1.0)
    mon.raises("density.unknown-weight", lambda: gene.create_density_filter(wl.fmesh(pts, cells, ele), rad, weight_type="box"))


def case_lattice(case, mon):
    """A regular grid in binary units, where neighbours lie exactly on the radius, at any length unit."""
    rng = rng_for(case)
    dim = case["dim"]
    ele = "QUAD4" if dim == 2 else "HEX8"
    for unit in (2.0 ** -30, 2.0 ** -20, 1.0, 2.0 ** 12):
        ns = tuple(int(v) for v in rng.integers(2, 7 - dim, dim))
        pts, cells = wl.make_mesh(rng, ele, ns, size=np.array(ns, float), distort=0.0)
        k = np.rint(pts).astype(int)
        pts = k * unit
        q = ((k[:, None] - k[None]) ** 2).sum(-1)          # squared distances, exact
        for wt in ("cone", "gaussian", "constant"):
            R = int(rng.integers(1, 4))
            d = np.sqrt(q)
            W = dict(cone=np.maximum(0, R - d), gaussian=np.exp(-(d / R) ** 2), constant=np.ones_like(d))[wt] * (q <= R * R)
            T = W / W.sum(axis=1, keepdims=True)
            f = gene.create_density_filter(wl.fmesh(pts, cells, ele), R * unit, weight_type=wt)
            x = rng.uniform(0, 1, len(pts))
            mon.close("lattice.value", np.asarray(f(jnp.asarray(x))), T @ x, rtol=1e-10, scale=1.0, unit=unit, wt=wt)
            mon.close("lattice.constant", np.asarray(f(jnp.ones(len(pts)))), np.ones(len(pts)), rtol=1e-10, unit=unit, wt=wt)
        mon.seen("lattice", dim, unit)


def case_project(case, mon):
    rng = rng_for(case)
    hp = jax.jit(lambda r, b, t: gene.heaviside_projection(r, beta=b, threshold=t))
    gp = jax.jit(jax.grad(lambda r, b, t: jnp.sum(gene.heaviside_projection(r, beta=b, threshold=t))))
    vt = jax.jit(gene.compute_volume_fraction_threshold)
    for _ in range(case["n"]):
        beta = float(rng.choice([0.1, 1.0, 10.0, 64.0, 1e3]))
        t = float(rng.uniform(0, 1))
        x = np.sort(np.concatenate([[0.0, 1.0, t], rng.uniform(0, 1, 61)]))
        y = np.asarray(hp(jnp.asarray(x), beta, t))
        mon.true("project.range", y.min() >= 0.0 and y.max() <= 1.0)
        mon.true("project.monotone", np.all(np.diff(y) >= -1e-15))
        mon.close("project.formula", y, 0.5 * (np.tanh(beta * (x - t)) + 1), rtol=1e-12)
        mon.close("project.halfway", y[np.searchsorted(x, t)], 0.5, rtol=1e-12)
        mon.close("project.gradient", np.asarray(gp(jnp.asarray(x), beta, t)), 0.5 * beta / np.cosh(np.minimum(beta * np.abs(x - t), 300)) ** 2,
                  rtol=1e-9)
        n = 64
        rho = rng.permutation(rng.uniform(0, 1, n) ** float(rng.choice([0.3, 1, 4])))
        vf = float(rng.choice([0.0, 1.0, rng.uniform(), rng.uniform()]))
        th = float(vt(jnp.asarray(rho), vf))
        above, at = int(np.sum(rho > th + 1e-12)), int(np.sum(rho >= th - 1e-12))
        mon.true("project.volume-threshold", above - 1 <= vf * n <= at + 1 and rho.min() - 1e-12 <= th <= rho.max() + 1e-12, above=above, want=vf * n)
        sharp = np.asarray(hp(jnp.asarray(rho), 1e7, th))
        near = int(np.sum(np.abs(rho - th) < 4e-6))
        mon.close("project.volume", sharp.mean(), vf, atol=(1.01 + near) / n, rtol=0)
        mon.seen("project", beta, round(t, 1), vf in (0.0, 1.0))
        mon.event("projections")


def case_sensitivity(case, mon):
    rng = rng_for(case)
    for _ in range(case["n"]):
        dims = tuple(int(v) for v in rng.integers(1, 7, 3))
        g = fe.StructuredGrid(dims, spacing=tuple(float(v) for v in rng.uniform(0.3, 3, 3)), origin=tuple(float(v) for v in rng.normal(size=3)))
        rmin = float(rng.choice([0.7, 1.0, 1.3, 1.5, 2.2, 3.4]))
        nc = int(np.prod(dims))
        na = int(rng.integers(1, nc + 1))
        act = rng.permutation(nc)[:na]
        order = str(rng.choice(["sorted", "caller"]))
        if order == "sorted":
            act = np.sort(act)
        rho = rng.uniform(0, 1, na) * rng.choice([1.0, 1.0, 1e-4], na)
        dc = -rng.uniform(0, 1, na) * float(10.0 ** rng.integers(-8, 8))
        ijk = np.array(list(np.ndindex(dims)))
        w = np.maximum(0.0, rmin - np.linalg.norm((ijk[act][:, None] - ijk[None]).astype(float), axis=-1))   # (na, nc)
        full_r, full_d = np.zeros(nc), np.zeros(nc)
        full_r[act], full_d[act] = rho, dc
        want = (w @ (full_r * full_d)) / (w.sum(axis=1) * np.maximum(1e-3, rho))
        got = np.asarray(gene.create_sensitivity_filter(g, rmin)(act, rho, dc))
        mon.close("sensitivity.average", got, want, rtol=1e-9, order=order, rmin=rmin, dims=dims)
        mon.true("sensitivity.sign", np.all(got <= 0))
        const = np.asarray(gene.create_sensitivity_filter(g, rmin)(np.arange(nc) if order == "sorted" else rng.permutation(nc), np.ones(nc), np.full(nc, -3.0)))
        mon.close("sensitivity.constant", const, np.full(nc, -3.0), rtol=1e-10)
        mon.seen("sensitivity", order, rmin, na == nc, min(dims))
        mon.event("bands")
