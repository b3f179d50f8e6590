"""C20: sampling a nodal field anywhere returns its finite-element interpolation; combined shapes follow the sign conventions."""
import contextlib
import io
import os
import shutil
import tempfile

import numpy as np

from harness import ref, wl
from harness.lazy import fe, gene, jnp  # noqa: F401
from harness.mon import rng_for

ID = "C20"
RULE = ("random meshes of every element type (distorted, curved, stretched, graded, units 1e-6..1e3, permuted nodes and cells) and nodal fields; "
        "query points produced by forward-mapping random reference points (interior, faces, edges, nodes) of random cells, so the expected "
        "value needs no inverse mapping; single and batched answers both observed; field transfer between meshes, refinement indicators, "
        "Boolean combinations, extracted surfaces (volume and position of a known cut) and refined meshes against closed forms; distinct by "
        "(element type, mesh class, kind of point)")
ASSUMPTIONS = ["elements are valid (positive Jacobian) and do not overlap", "points farther than rounding outside the mesh are only claimed when outside its bounding box by more than an element"]
MIN_EVALUATIONS = 400

ELES = ("TRI3", "QUAD4", "TET4", "HEX8", "TRI6", "QUAD8", "TET10", "HEX20")


def cases(tier, seed):
    out = []
    q = tier == "quick"
    for r in range(6 if q else 24):
        for k, ele in enumerate(ELES):
            out.append(dict(kind="sample", ele=ele, r=r, cls=("plain", "stretched", "graded", "curved")[(r + k + seed) % 4], cost=2))
        for k, ele in enumerate(("TET4", "HEX8", "TRI3", "QUAD8")):
            out.append(dict(kind="sample", ele=ele, r=r, cls=("graded", "stretched")[(k + r) % 2], cost=2))
    for r in range(18 if q else 72):
        out.append(dict(kind="transfer", r=r, cls=("plain", "stretched", "graded")[r % 3], cost=2))
    for r in range(6 if q else 24):
        out.append(dict(kind="csg", n=20, cost=1))
    for r in range(4 if q else 12):
        out.append(dict(kind="surface", r=r, cost=3))
    for r in range(4 if q else 12):
        out.append(dict(kind="vtk", r=r, cost=2))
    for r in range(8 if q else 24):
        out.append(dict(kind="clip", r=r, cost=3))
    for r in range(4 if q else 12):
        out.append(dict(kind="remesh", r=r, cost=4))
        out.append(dict(kind="volmesh", r=r, cost=4))
    return [dict(c, seed=seed, i=n) for n, c in enumerate(out)]


def mesh_of(rng, ele, cls):
    shape = ref.ELE[ele][2]
    dim = ref.DIM[shape]
    quad = ele in ("TRI6", "QUAD8", "TET10", "HEX20", "QUAD9")
    ns = np.array(rng.integers(2, 5 if quad else 7, dim) if dim == 2 else rng.integers(1 if quad else 2, 4 if not quad else 3, dim))
    size = rng.uniform(0.6, 1.7, dim)
    distort, curve = 0.15, 0.0
    if cls == "stretched":
        ns = ns + (4 if dim == 2 else 3) * (not quad)
        a = int(rng.integers(dim))
        size[a] *= float(rng.choice([15.0, 60.0]))
        ns[a] = 2
        distort = 0.0 if rng.integers(0, 2) else 0.1
    elif cls == "graded":
        ns = ns + (5 if dim == 2 else 3) * (not quad)
        distort = 0.0
    elif cls == "curved" and quad:
        curve = 0.06
        distort = 0.05
    pts, cells = wl.make_mesh(rng, ele, tuple(int(v) for v in ns), size=size, origin=np.zeros(dim), distort=distort, curve=curve)
    if cls == "graded":
        # vertices of the lattice squeezed towards one corner; mid-side nodes re-placed at the middle of their edges
        nc = ref.CORNERS[shape]
        p = float(rng.choice([2.0, 3.0]))
        new = size * (pts / size) ** p
        for cell in np.asarray(cells):
            corner = new[cell[:nc]]
            if len(cell) > nc:
                N = ref.shapes({"tri": "TRI3", "quad": "QUAD4", "tet": "TET4", "hex": "HEX8"}[shape], ref.ELE[ele][0][nc:])
                new[cell[nc:]] = N @ corner
        pts = new
    unit = float(10.0 ** rng.choice([-6, -3, 0, 0, 0, 3]))
    org = rng.normal(size=dim) * rng.integers(0, 2)
    return unit * (pts + org), np.asarray(cells), unit, size


def ref_points(rng, ele, n, kind):
    """Random points of the reference cell: interior / on a face / on an edge / at a node."""
    nodes, _, shape = ref.ELE[ele]
    V = ref.VERT[shape]
    if kind == "node":
        return nodes[rng.integers(0, len(nodes), n)]
    if kind == "interior":
        W = rng.dirichlet(np.ones(len(V)), n)
        X = W @ V
        if shape in ("quad", "hex"):
            X = rng.uniform(0, 1, (n, V.shape[1]))
        return X
    faces = ref.FACES[shape]
    out = []
    for _ in range(n):
        f = faces[int(rng.integers(len(faces)))]
        w = rng.dirichlet(np.ones(len(f)))
        out.append(w @ V[list(f)])
    return np.array(out)


def queries(rng, ele, pts, cells, n):
    """(physical point, expected interpolation weights as (cell, N)) by forward mapping."""
    P, want, kinds = [], [], []
    for kind, m in (("interior", n), ("face", n // 3), ("node", n // 3)):
        xi = ref_points(rng, ele, m, kind)
        N = ref.shapes(ele, xi)
        c = rng.integers(0, len(cells), m)
        P.append(np.einsum("ma,mad->md", N, pts[cells[c]]))
        want.append((c, N))
        kinds += [kind] * m
    return np.vstack(P), np.concatenate([w[0] for w in want]), np.vstack([w[1] for w in want]), kinds


def _valid(pts, cells, ele):
    g = ref.Geo(pts, cells, ele, 5)
    d = g.detJ
    return np.all(d.min(axis=1) > 0.1 * d.max(axis=1))


def case_sample(case, mon):
    rng = rng_for(case)
    ele, cls = case["ele"], case["cls"]
    pts, cells, unit, size = mesh_of(rng, ele, cls)
    if not _valid(pts, cells, ele):
        mon.event("skipped: strongly varying Jacobian")
        return
    mesh = wl.fmesh(pts, cells, ele)
    thr = float(rng.uniform(0.2, 0.8))
    lin = np.concatenate([[0.4], rng.normal(size=pts.shape[1]) / (unit * size)])
    for nm, rho in (("random", rng.uniform(0, 1, len(pts))), ("linear", lin[0] + pts @ lin[1:])):
        f = gene.sdf.DensityField(rho if rng.integers(0, 2) else jnp.asarray(rho), mesh, threshold=thr, close_boundary=bool(rng.integers(0, 2)))
        P, c, N, kinds = queries(rng, ele, pts, cells, 60)
        want = thr - np.einsum("ma,ma->m", N, rho[cells[c]])
        tol = dict(rtol=0, atol=2e-5 * max(1.0, np.abs(rho).max()))
        got = np.asarray(f.evaluate(P))
        mon.close("sample.batched", got, want, **tol, ele=ele, cls=cls, field=nm, unit=unit)
        k = rng.integers(0, len(P), 25)
        one = np.array([f(P[i]) for i in k])
        mon.close("sample.single", one, want[k], **tol, ele=ele, cls=cls, field=nm)
        sub = np.asarray(f.evaluate(P[k]))
        mon.close("sample.same", one, sub, rtol=0, atol=1e-9 * max(1.0, np.abs(rho).max()) + (2e-5 if unit else 0), ele=ele)
        mon.event("points sampled", len(P))
        for kd in set(kinds):
            mon.seen("sample", ele, cls, nm, kd, unit)
    lo, hi = f.bounds
    mon.close("sample.bounds", np.stack([lo, hi]), np.stack([pts.min(axis=0), pts.max(axis=0)]), rtol=1e-12, scale=float(np.abs(pts).max()))
    # far outside the bounding box: void when the boundary is closed, nearest node otherwise
    ext = pts.max(axis=0) - pts.min(axis=0)
    far = pts.mean(axis=0) + rng.choice([-1.0, 1.0], (12, pts.shape[1])) * ext * 4.0
    fc = gene.sdf.DensityField(rho, mesh, threshold=thr)
    mon.close("sample.outside-void", np.asarray(fc.evaluate(far)), np.full(12, thr), rtol=1e-12)
    fo = gene.sdf.DensityField(rho, mesh, threshold=thr, close_boundary=False)
    near = rho[np.linalg.norm(pts[None] - far[:, None], axis=2).argmin(axis=1)]
    mon.close("sample.outside-nearest", np.asarray(fo.evaluate(far)), thr - near, rtol=1e-9, scale=1.0, ele=ele, cls=cls)

    class R:
        rho_filtered = rho
    R.mesh = mesh
    mon.equal("sample.from-result", np.asarray(gene.sdf.from_opt_result(R, threshold=thr).evaluate(P[:20])), np.asarray(fc.evaluate(P[:20])))
    mon.close("sample.outside-single", np.array([fc(p) for p in far[:4]]), np.full(4, thr), rtol=1e-12)


def case_transfer(case, mon):
    rng = rng_for(case)
    pts, cells, unit, size = mesh_of(rng, "TET4", case["cls"])
    mesh = wl.fmesh(pts, cells, "TET4")
    rho = rng.uniform(0, 1, len(pts))
    P, c, N, kinds = queries(rng, "TET4", pts, cells, 80)
    want = np.einsum("ma,ma->m", N, rho[cells[c]])
    from feax.gene import adaptive
    got = np.asarray(adaptive.interpolate_field(rho, mesh, P))
    mon.close("transfer.value", got, want, rtol=0, atol=1e-6, cls=case["cls"], unit=unit)
    mon.close("transfer.clipped", np.asarray(adaptive.interpolate_field(rho, mesh, P, clip=(0.3, 0.6))), np.clip(want, 0.3, 0.6), rtol=0, atol=1e-6)
    mon.close("transfer.nodes", np.asarray(adaptive.interpolate_field(rho, mesh, pts)), rho, rtol=0, atol=1e-6)
    far = pts.mean(axis=0) + (pts.max(axis=0) - pts.min(axis=0)) * rng.choice([-1.0, 1.0], (6, 3)) * 3
    near = rho[np.argmin(np.linalg.norm(far[:, None] - pts[None], axis=-1), axis=1)]
    mon.close("transfer.outside-nearest", np.asarray(adaptive.interpolate_field(rho, mesh, far)), near, rtol=1e-12)
    # a single query and a single-cell mesh behave the same
    mon.close("transfer.one", np.asarray(adaptive.interpolate_field(rho, mesh, P[:1])), want[:1], rtol=0, atol=1e-6)
    i = int(c[0])
    m1 = wl.fmesh(pts[cells[i]], np.arange(4)[None], "TET4")
    mon.close("transfer.one-cell", np.asarray(adaptive.interpolate_field(rho[cells[i]], m1, P[:1])), want[:1], rtol=0, atol=1e-6)
    # refinement indicator
    g = np.asarray(adaptive.gradient_refinement(rho, mesh))
    geo = ref.Geo(pts, cells, "TET4", 0)
    gm = np.linalg.norm(np.einsum("cad,ca->cd", geo.dN[:, 0], rho[cells]), axis=1)
    s, k = np.zeros(len(pts)), np.zeros(len(pts))
    np.add.at(s, cells, gm[:, None] * np.ones((1, 4)))
    np.add.at(k, cells, 1.0)
    s = s / k
    mon.close("transfer.indicator", g, s / s.max(), rtol=1e-7)
    mon.true("transfer.indicator-range", g.min() >= 0 and abs(g.max() - 1) < 1e-12)
    lin = pts @ (rng.normal(size=3) / (unit * size))
    mon.close("transfer.indicator-linear", np.asarray(adaptive.gradient_refinement(lin, mesh)), np.ones(len(pts)), rtol=1e-6)
    h8 = wl.make_mesh(rng, "HEX8", (1, 1, 1))
    mon.raises("transfer.only-tet4", lambda: adaptive.interpolate_field(np.zeros(8), wl.fmesh(h8[0], h8[1], "HEX8"), P), ValueError)
    mon.event("points transferred", len(P))
    for kd in set(kinds):
        mon.seen("transfer", case["cls"], kd, unit)


def _ball(c, r):
    SDF = gene.sdf.SDF

    class Ball(SDF):
        def __call__(self, p):
            return float(np.linalg.norm(np.asarray(p) - c) - r)

        def _default_bounds(self):
            return c - r, c + r
    return Ball(), lambda P: np.linalg.norm(P - c, axis=1) - r


def case_csg(case, mon):
    rng = rng_for(case)
    for _ in range(case["n"]):
        terms = [_ball(rng.normal(size=3) * 0.5, float(rng.uniform(0.3, 1.0))) for _ in range(3)]
        P = rng.normal(size=(40, 3))
        sdf, val, ins = terms[0][0], terms[0][1](P), terms[0][1](P) < 0
        ops = ""
        for s, v in terms[1:]:
            op = str(rng.choice(["|", "&", "-"]))
            ops += op
            x = v(P)
            if op == "|":
                sdf, val, ins = sdf | s, np.minimum(val, x), ins | (x < 0)
            elif op == "&":
                sdf, val, ins = sdf & s, np.maximum(val, x), ins & (x < 0)
            else:
                sdf, val, ins = sdf - s, np.maximum(val, -x), ins & (x > 0)
        got = np.asarray(sdf.evaluate(P))
        mon.equal("csg.inside", got < 0, ins, ops=ops)
        mon.close("csg.value", got, val, rtol=1e-12)
        mon.close("csg.single", np.array([sdf(p) for p in P[:8]]), val[:8], rtol=1e-12)
        lo, hi = sdf._default_bounds()
        inside = P[ins]
        mon.true("csg.bounds", np.all(inside >= lo - 1e-12) and np.all(inside <= hi + 1e-12), ops=ops)
        mon.seen("csg", ops)
        mon.event("shapes")


def _volume(v, f):
    a, b, c = v[f[:, 0]], v[f[:, 1]], v[f[:, 2]]
    return abs(np.einsum("ij,ij->", a, np.cross(b, c))) / 6.0


def _edges_closed(f):
    e = np.sort(np.vstack([f[:, [0, 1]], f[:, [1, 2]], f[:, [2, 0]]]), axis=1)
    _, k = np.unique(e, axis=0, return_counts=True)
    return np.all(k == 2)


def case_surface(case, mon):
    """Marching-cubes surfaces: vertices on the level set, enclosed volume, exported file."""
    rng = rng_for(case)
    c, r = rng.normal(size=3) * 3, float(rng.uniform(0.4, 1.5))
    s, _ = _ball(c, r)
    res = int(rng.integers(24, 34))
    with contextlib.redirect_stdout(io.StringIO()):
        v, f = s.to_mesh(resolution=res, padding=0.2 * r)
        d = np.abs(np.linalg.norm(v - c, axis=1) - r)
        h = 2.4 * r / (res - 1)
        mon.true("surface.on-level", d.max() < 0.3 * h, worst=d.max(), h=h)
        mon.true("surface.closed", _edges_closed(np.asarray(f)))
        mon.close("surface.volume", _volume(v, f), 4 / 3 * np.pi * r ** 3, rtol=0.03)
        lev = 0.15 * r
        v2, f2 = s.to_mesh(resolution=res, padding=0.5 * r, level=lev)
        mon.close("surface.level", np.linalg.norm(v2 - c, axis=1), np.full(len(v2), r + lev), rtol=0, atol=0.3 * 3.0 * r / (res - 1))
        wv, wf = s.to_mesh(resolution=res, padding=0.2 * r, watertight=True, smooth_iterations=0)
        mon.true("surface.watertight", _edges_closed(np.asarray(wf)))
        mon.close("surface.watertight-volume", _volume(wv, wf), 4 / 3 * np.pi * r ** 3, rtol=0.03)
        d = tempfile.mkdtemp(prefix="verif_c20_")
        try:
            s.to_stl(os.path.join(d, "a.stl"), resolution=res, padding=0.2 * r)
            import meshio
            m = meshio.read(os.path.join(d, "a.stl"))
            mon.close("surface.stl-volume", _volume(m.points.astype(float), m.cells_dict["triangle"]), _volume(v, f), rtol=1e-4)
        finally:
            shutil.rmtree(d, ignore_errors=True)
    # a linear density has a plane level set, met exactly by linear interpolation
    ele = str(rng.choice(["HEX8", "TET4", "TET10"]))
    size = rng.uniform(0.8, 1.6, 3)
    org = rng.normal(size=3)
    pts, cells = wl.make_mesh(rng, ele, (2, 2, 2), size=size, origin=org, distort=0.1)
    n = rng.normal(size=3)
    mid = org + size * rng.uniform(0.4, 0.6, 3)
    rho = 0.5 + (pts - mid) @ n / 4.0
    fld = gene.sdf.DensityField(rho, wl.fmesh(pts, cells, ele), threshold=0.5)
    v, f = fld.to_mesh(resolution=12)
    mon.true("surface.plane", len(v) > 0 and np.abs((v - mid) @ n).max() < 1e-4 * np.linalg.norm(n) * size.max(), worst=float(np.abs((v - mid) @ n).max()))
    mon.true("surface.in-bounds", np.all(v >= org - 1e-6) and np.all(v <= org + size + 1e-6))
    mon.seen("surface", ele, res)
    mon.event("surfaces", 5)


def case_vtk(case, mon):
    """Density fields through a result file: sampled values unchanged."""
    rng = rng_for(case)
    d = tempfile.mkdtemp(prefix="verif_c20_")
    try:
        for ele in (ELES if case["r"] % 2 else ELES[::-1])[:5]:
            pts, cells, _, _ = mesh_of(rng, ele, "plain")
            scale = np.abs(pts).max()
            pts = pts / scale
            mesh = wl.fmesh(pts, cells, ele)
            rho = rng.uniform(0, 1, len(pts))
            path = os.path.join(d, f"{ele}.vtu")
            fe.utils.save_sol(mesh, path, point_infos=[("density", rho), ("other", 1 - rho)])
            P, c, N, _ = queries(rng, ele, pts, cells, 20)
            got = np.asarray(gene.sdf.from_vtk(path).evaluate(P))
            mon.close("vtk.sampled", got, 0.5 - np.einsum("ma,ma->m", N, rho[cells[c]]), rtol=0, atol=2e-4, ele=ele)
            got = np.asarray(gene.sdf.from_vtk(path, field_name="other", threshold=0.2).evaluate(P))
            mon.close("vtk.field", got, 0.2 - np.einsum("ma,ma->m", N, 1 - rho[cells[c]]), rtol=0, atol=2e-4, ele=ele)
            mon.raises("vtk.missing-field", lambda: gene.sdf.from_vtk(path, field_name="nope"), KeyError)
            mon.seen("vtk", ele)
            mon.event("files sampled")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def case_clip(case, mon):
    """Solid region cut out of the mesh: volume and position of a planar cut through a box."""
    from feax.gene import mesh_extraction as mx
    rng = rng_for(case)
    ele = ("TET4", "HEX8")[case["r"] % 2]
    size, org = rng.uniform(0.8, 1.6, 3), rng.normal(size=3)
    pts, cells = wl.make_mesh(rng, ele, tuple(int(v) for v in rng.integers(2, 5, 3)), size=size, origin=org, distort=0.0)
    a = int(rng.integers(3))
    cut, up = float(rng.uniform(0.25, 0.75)), float(rng.choice([-1.0, 1.0]))
    rho = 0.5 + up * ((pts[:, a] - org[a]) / size[a] - cut)
    s = mx.extract_surface(rho, wl.fmesh(pts, cells, ele), threshold=0.5)
    frac = 1 - cut if up > 0 else cut
    mon.close("clip.volume", float(s.triangulate().volume), frac * size.prod(), rtol=1e-4, ele=ele)
    x = np.asarray(s.points, float)
    lo, hi = org.copy(), org + size
    (lo if up > 0 else hi)[a] = org[a] + cut * size[a]
    mon.close("clip.extent", np.stack([x.min(axis=0), x.max(axis=0)]), np.stack([lo, hi]), rtol=1e-5, scale=float(np.abs(hi).max() + 1))
    mon.true("clip.closed", bool(s.triangulate().clean().is_manifold))

    class R:
        rho_filtered, mesh = rho, wl.fmesh(pts, cells, ele)
    mon.close("clip.result", float(mx.from_opt_result(R).triangulate().volume), frac * size.prod(), rtol=1e-4)
    mon.seen("clip", ele, a, up)
    mon.event("cuts")


def case_remesh(case, mon):
    """Refinement: element sizes follow the field between h_max (0) and h_min (1)."""
    from feax.gene import adaptive
    rng = rng_for(case)
    size = rng.uniform(0.9, 1.2, 3)
    a = int(rng.integers(3))
    pts, cells = wl.make_mesh(rng, "TET4", (6, 6, 6), size=size, origin=np.zeros(3))
    old = wl.fmesh(pts, cells, "TET4")
    field = (pts[:, a] > 0.5 * size[a]).astype(float)
    hmin, hmax = 0.12, 0.35
    m = adaptive.adaptive_box_mesh(tuple(size), field, old, h_min=hmin, h_max=hmax)
    p, c = np.asarray(m.points), np.asarray(m.cells)
    x = p[c]
    vol = np.abs(np.einsum("ci,ci->c", x[:, 1] - x[:, 0], np.cross(x[:, 2] - x[:, 0], x[:, 3] - x[:, 0]))) / 6
    mon.close("remesh.volume", vol.sum(), size.prod(), rtol=1e-8)
    e = np.mean([np.linalg.norm(x[:, i] - x[:, j], axis=1) for i, j in ((0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3))], axis=0)
    z = x.mean(axis=1)[:, a] / size[a]
    fine, coarse = e[z > 0.75], e[z < 0.25]
    mon.true("remesh.sizes", 0.5 * hmin < np.median(fine) < 1.8 * hmin and 0.5 * hmax < np.median(coarse) < 1.6 * hmax, fine=float(np.median(fine)), coarse=float(np.median(coarse)))
    u = adaptive.adaptive_box_mesh(tuple(size), h_max=hmax, h_min=hmin)
    xu = np.asarray(u.points)[np.asarray(u.cells)]
    eu = np.linalg.norm(xu[:, 0] - xu[:, 1], axis=1)
    mon.true("remesh.uniform", 0.5 * hmax < np.median(eu) < 1.6 * hmax, got=float(np.median(eu)))
    lin = np.asarray(p) @ np.array([1.0, -2.0, 0.5])
    f_old = pts @ np.array([1.0, -2.0, 0.5])
    mon.close("remesh.transfer", np.asarray(adaptive.interpolate_field(f_old, old, p)), lin, rtol=0, atol=1e-6)
    mon.event("meshes refined", 2)
    mon.seen("remesh", a)


def case_volmesh(case, mon):
    """Volume meshes of a solid: valid elements of the requested type that fill it, and no scratch file left behind."""
    from feax.gene import mesh_extraction as mx
    rng = rng_for(case)
    c, r = rng.normal(size=3), float(rng.uniform(0.5, 1.5))
    s, _ = _ball(c, r)
    et = ("TET4", "TET10")[case["r"] % 2]
    size = np.full(3, 2.6 * r)
    pts, cells = wl.make_mesh(rng, "HEX8", (9, 9, 9), size=size, origin=c - size / 2)
    rho = 0.5 - (np.linalg.norm(pts - c, axis=1) - r) / (3 * r)
    V = 4 / 3 * np.pi * r ** 3
    d, old = tempfile.mkdtemp(prefix="verif_c20_"), tempfile.tempdir
    tempfile.tempdir = d
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            runs = [("shape", s.to_volume_mesh(resolution=22, padding=0.2 * r, element_type=et)),
                    ("density", mx.extract_volume_mesh(rho, wl.fmesh(pts, cells, "HEX8"), threshold=0.5, mesh_size=0.4 * r, element_type=et)),
                    ("density, default size", mx.extract_volume_mesh(rho, wl.fmesh(pts, cells, "HEX8"), element_type=et))]
        mon.equal("volmesh.scratch-files", len(os.listdir(d)), 0)
    finally:
        tempfile.tempdir = old
        shutil.rmtree(d, ignore_errors=True)
    for nm, m in runs:
        p, k = np.asarray(m.points), np.asarray(m.cells)
        mon.equal("volmesh.type", (m.ele_type, k.shape[1]), (et, {"TET4": 4, "TET10": 10}[et]))
        g = ref.Geo(p, k, et)
        # gmsh's curved edges may fold a flat element: only the straight corners are judged
        o = ref.Geo(p, k[:, :4], "TET4").detJ.min()
        mon.true("volmesh.positive", o > 0, worst=float(o), run=nm)
        # a faceted ball of this resolution misses a few per cent of the volume
        mon.close("volmesh.volume", g.JxW.sum(), V, rtol=0.15, run=nm, et=et)
        x = p[np.unique(k)]
        mon.true("volmesh.inside", (np.linalg.norm(x - c, axis=1) - r).max() < 0.05 * r, run=nm)
        mon.close("volmesh.centre", np.einsum("cq,cqi->i", g.JxW, g.x) / g.JxW.sum(), c, rtol=0, atol=0.03 * r, run=nm)
        mon.seen("volmesh", nm, et)
        mon.event("volume meshes")
