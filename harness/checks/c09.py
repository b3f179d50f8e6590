"""C09: generated and refined meshes tile the requested domain with valid elements."""
import os

import numpy as np

from harness import ref, wl
from harness.lazy import fe, jax, jnp
from harness.mon import rng_for

ID = "C09"
RULE = ("meshes produced by every generator over random sizes, origins, axes, resolutions, element types and refinement fields, "
        "and by uniform refinement / Gmsh conversion of randomly distorted meshes; each one checked for orientation at every "
        "quadrature point and corner, total measure, conforming faces with identical node sets, closed boundary lying on the "
        "requested boundary with its area, no unused or duplicate nodes; distinct by (generator, element, size class)")
ASSUMPTIONS = ["measure, face and orientation oracles use the independent element library in harness/ref.py"]
MIN_EVALUATIONS = 300


def cases(tier, seed):
    out = []
    q = tier == "quick"
    for r in range(12 if q else 60):
        for e in ("QUAD4", "QUAD8", "QUAD9"):
            out.append(dict(kind="rectangle", ele=e, n=8 if q else 20, cost=1))
        for e in ("HEX8", "TET4"):
            out.append(dict(kind="box", ele=e, n=3 if q else 8, cost=2))
        out.append(dict(kind="sphere", n=2 if q else 5, cost=3))
        out.append(dict(kind="cylinder", n=4 if q else 8, cost=3))
        out.append(dict(kind="adaptive", periodic=bool(r % 2), n=2 if q else 5, cost=4))
        out.append(dict(kind="adaptive_geo", n=1 if q else 3, cost=3))
        out.append(dict(kind="copv", n=3 if q else 8, cost=3))
    for r in range(6 if q else 30):
        for e in ("TRI3", "TRI6", "QUAD4", "QUAD8", "QUAD9", "TET4", "TET10", "HEX8", "HEX20"):
            for lev in (1, 2):
                out.append(dict(kind="refine", ele=e, levels=lev, cost=2))
        for e in ("TRI3", "QUAD4"):
            out.append(dict(kind="refine_embedded", ele=e, cost=1))
        out.append(dict(kind="refine_generated", cost=3))
        out.append(dict(kind="from_gmsh", n=6, cost=1))
        out.append(dict(kind="faces", cost=4))
    return [dict(c, seed=seed, i=n) for n, c in enumerate(out)]


# ------------------------------------------------------------------ oracles
def facet_nodes(ele):
    """Local node ids of every facet, all orders (from the reference coordinates)."""
    nodes, _, shape = ref.ELE[ele]
    out = []
    for f in ref.FACES[shape]:
        v = ref.VERT[shape][list(f)]
        d = ref.DIM[shape]
        A = (v[1:] - v[0])[:d - 1 if shape != "hex" else 3]
        if shape == "hex":
            A = np.array([v[1] - v[0], v[3] - v[0]])
        if d == 2:
            A = np.array([v[1] - v[0]])
        _, _, vt = np.linalg.svd(A)
        nrm = vt[-1]
        out.append([i for i, x in enumerate(nodes) if abs((x - v[0]) @ nrm) < 1e-9])
    return out


def mesh_oracle(mon, tag, pts, cells, ele, measure=None, scale=1.0, rtol=1e-9):
    """Generic validity; returns boundary facets [(cell, face)] and the facet area list."""
    pts, cells = np.asarray(pts, float), np.asarray(cells)
    shape = ref.ELE[ele][2]
    d = ref.DIM[shape]
    mon.equal(tag + ".node_count_per_cell", cells.shape[1], len(ref.ELE[ele][0]))
    if not mon.true(tag + ".indices", cells.min() >= 0 and cells.max() < len(pts), n=len(pts),
                    lo=int(cells.min()), hi=int(cells.max())):
        return None
    mon.true(tag + ".finite", np.all(np.isfinite(pts)))
    mon.true(tag + ".all_nodes_used", len(np.unique(cells)) == len(pts), used=len(np.unique(cells)), n=len(pts))
    mon.true(tag + ".distinct_nodes_in_cell", all(len(set(c)) == len(c) for c in cells.tolist()))
    key = np.round(pts / (1e-7 * scale)).astype(np.int64)
    mon.true(tag + ".no_duplicate_nodes", len(np.unique(key, axis=0)) == len(pts))
    g = ref.Geo(pts, cells, ele, degree=2 if shape in ("tri", "tet") and ele in ("TRI3", "TET4") else 4)
    mon.true(tag + ".positive_orientation", g.detJ.min() > 0, min=float(g.detJ.min()))
    dNc = ref.dshapes(ele, ref.VERT[shape])
    Jc = np.einsum("cai,qaj->cqij", pts[:, :d][cells], dNc)
    mon.true(tag + ".positive_at_corners", np.linalg.det(Jc).min() > 0, min=float(np.linalg.det(Jc).min()))
    if measure is not None:
        mon.close(tag + ".measure", g.JxW.sum(), measure, rtol=rtol)
    fl = facet_nodes(ele)
    nc = ref.CORNERS[shape]
    by_corner, by_all = {}, {}
    for f, loc in enumerate(fl):
        cor = [a for a in loc if a < nc]
        ck = np.sort(cells[:, cor], axis=1)
        ak = np.sort(cells[:, loc], axis=1)
        for c in range(len(cells)):
            by_corner.setdefault(tuple(ck[c]), []).append((c, f))
            by_all.setdefault(tuple(ak[c]), []).append((c, f))
    mon.true(tag + ".faces_shared_by_at_most_two", max(map(len, by_corner.values())) <= 2)
    mon.equal(tag + ".shared_faces_have_same_nodes", len(by_all), len(by_corner))
    bnd = [v[0] for v in by_corner.values() if len(v) == 1]
    # boundary is a closed manifold
    if d == 3:
        cnt = {}
        for c, f in bnd:
            loop = cells[c][list(ref.FACES[shape][f])]
            for a, b in zip(loop, np.roll(loop, -1)):
                k = (min(a, b), max(a, b))
                cnt[k] = cnt.get(k, 0) + 1
        mon.true(tag + ".boundary_closed", all(v == 2 for v in cnt.values()), bad=sum(v != 2 for v in cnt.values()))
        V = len(np.unique([n for e in cnt for n in e]))
        euler = V - len(cnt) + len(bnd)
    else:
        deg = {}
        for c, f in bnd:
            for a in cells[c][list(ref.FACES[shape][f])]:
                deg[a] = deg.get(a, 0) + 1
        mon.true(tag + ".boundary_closed", all(v == 2 for v in deg.values()))
        euler = None
    areas = np.array([g.face_data(c, f, 4)[1].sum() for c, f in bnd])
    nodes = [[cells[c][a] for a in fl[f]] for c, f in bnd]
    # second-order nodes on their edges
    edges = {"tri": ref.TRI_E, "quad": ref.QUAD_E, "tet": ref.TET_E, "hex": ref.HEX_E}[shape]
    if cells.shape[1] > nc:
        for k, (a, b) in enumerate(edges):
            mon.close(tag + ".midside", pts[cells[:, nc + k]], (pts[cells[:, a]] + pts[cells[:, b]]) / 2, rtol=0, atol=1e-9 * scale)
        if ele == "QUAD9":
            mon.close(tag + ".centre", pts[cells[:, 8]], pts[cells[:, :4]].mean(1), rtol=0, atol=1e-9 * scale)
    mon.event("cells", len(cells))
    mon.event("boundary_faces", len(bnd))
    return dict(bnd=bnd, areas=areas, nodes=nodes, euler=euler, geo=g)


def box_oracle(mon, tag, pts, cells, ele, lo, hi, rtol=1e-9, simple=True):
    lo, hi = np.asarray(lo, float), np.asarray(hi, float)
    L = hi - lo
    d = len(lo)
    sc = float(np.max(L))
    atol = rtol * (sc + np.max(np.abs(lo)) + np.max(np.abs(hi)))
    o = mesh_oracle(mon, tag, pts, cells, ele, measure=float(np.prod(L)), scale=float(np.min(L)), rtol=1e-8)
    if o is None:
        return None
    pts = np.asarray(pts, float)
    mon.close(tag + ".lower_corner", pts.min(0)[:d], lo, rtol=0, atol=atol)
    mon.close(tag + ".upper_corner", pts.max(0)[:d], hi, rtol=0, atol=atol)
    got = {}
    for n, a in zip(o["nodes"], o["areas"]):
        P = pts[n]
        hit = [(k, s) for k in range(d) for s, v in ((0, lo[k]), (1, hi[k])) if np.all(np.abs(P[:, k] - v) <= max(atol, 1e-9))]
        if not hit:
            mon.true(tag + ".boundary_on_domain_boundary", False, face=P.tolist()[:4])
            return o
        got[hit[0]] = got.get(hit[0], 0.0) + a
    mon.true(tag + ".boundary_on_domain_boundary", True)
    for k in range(d):
        for s in (0, 1):
            mon.close(tag + ".side_area", got.get((k, s), 0.0), np.prod(np.delete(L, k)), rtol=1e-8)
    if d == 3 and simple:
        mon.equal(tag + ".euler", o["euler"], 2)
    return o


def edge_lengths(pts, cells, ele):
    shape = ref.ELE[ele][2]
    edges = {"tri": ref.TRI_E, "quad": ref.QUAD_E, "tet": ref.TET_E, "hex": ref.HEX_E}[shape]
    return np.concatenate([np.linalg.norm(pts[cells[:, a]] - pts[cells[:, b]], axis=1) for a, b in edges])


def size_class(L):
    return [int(np.floor(np.log10(x))) for x in np.atleast_1d(L)]


def rsize(rng, d):
    return np.round(10 ** rng.uniform(-1.2, 1.5) * rng.uniform(0.3, 1.0, d), 6)


# ------------------------------------------------------------------ generators
def case_rectangle(case, mon):
    rng = rng_for(case)
    for _ in range(case["n"]):
        Nx, Ny = int(rng.integers(1, 8)), int(rng.integers(1, 8))
        L = rsize(rng, 2)
        o = rng.uniform(-20, 20, 2) if rng.random() < .8 else np.zeros(2)
        kw = dict(domain_x=float(L[0]), domain_y=float(L[1]), origin=tuple(map(float, o)), ele_type=case["ele"])
        m = fe.mesh.rectangle_mesh(Nx, Ny, **kw)
        mon.equal("rectangle.type", m.ele_type, case["ele"])
        mon.equal("rectangle.cells", len(m.cells), Nx * Ny)
        box_oracle(mon, "rectangle", m.points, m.cells, case["ele"], o, o + L)
        hx = np.ptp(np.asarray(m.points)[np.asarray(m.cells)][..., 0], axis=1)
        hy = np.ptp(np.asarray(m.points)[np.asarray(m.cells)][..., 1], axis=1)
        mon.close("rectangle.uniform", np.stack([hx, hy], 1), np.tile(L / [Nx, Ny], (Nx * Ny, 1)), rtol=1e-8, scale=20)
        mon.seen("rectangle", case["ele"], Nx == 1 or Ny == 1, Nx > Ny, size_class(L))
        u = 2.0 ** int(rng.integers(-40, 20))                   # the same rectangle in another unit of length
        mu = fe.mesh.rectangle_mesh(Nx, Ny, domain_x=float(L[0]) * u, domain_y=float(L[1]) * u, origin=tuple(map(float, o * u)), ele_type=case["ele"])
        mon.close("rectangle.any_unit", np.asarray(mu.points) / u, m.points, rtol=1e-12, scale=20)
        mon.equal("rectangle.any_unit_cells", mu.cells, m.cells)
        m2 = fe.mesh.rectangle_mesh(Nx, Ny, **kw)
        mon.true("rectangle.repeatable", np.array_equal(m.points, m2.points) and np.array_equal(m.cells, m2.cells))
    m = fe.mesh.rectangle_mesh(2, 3)
    box_oracle(mon, "rectangle.default", m.points, m.cells, "QUAD4", [0, 0], [1, 1])
    mon.raises("rectangle.rejects_unknown", lambda: fe.mesh.rectangle_mesh(2, 2, ele_type="TRI3"), ValueError)


def case_box(case, mon):
    rng = rng_for(case)
    for k in range(case["n"]):
        L = rsize(rng, 3)
        if k == 0:
            L[:] = L[0]
        o = rng.uniform(-20, 20, 3)
        h = float(np.min(L) * rng.uniform(0.35, 1.2)) if k != 1 else float(np.max(L) / 4)
        if np.prod(L / h) > 3000:
            h = float((np.prod(L) / 1000) ** (1 / 3))
        if k == 2 and rng.random() < .5:
            h = float(np.max(L) * rng.uniform(0.8, 4))          # coarser than the box itself
        size = float(L[0]) if k == 0 and rng.random() < .7 else tuple(map(float, L))
        m = fe.mesh.box_mesh(size, origin=tuple(map(float, o)), mesh_size=h, element_type=case["ele"])
        mon.equal("box.type", m.ele_type, case["ele"])
        box_oracle(mon, "box", m.points, m.cells, case["ele"], o, o + L)
        if case["ele"] == "HEX8":
            P = np.asarray(m.points)[np.asarray(m.cells)]
            hs = np.ptp(P, axis=1)
            mon.true("box.resolution", np.all(hs <= np.maximum(2 * h, 0) * (1 + 1e-6) + 1e-9) , h=h, hs=hs.max(0))
            mon.close("box.equal_cells", hs, np.tile(hs[0], (len(hs), 1)), rtol=1e-6)
        else:
            e = edge_lengths(np.asarray(m.points), np.asarray(m.cells), "TET4")
            if h < np.min(L) / 2:
                mon.true("box.resolution", 0.4 * h < e.mean() < 1.8 * h, h=h, mean=float(e.mean()))
        mon.seen("box", case["ele"], size_class(L), size_class(h))
    m = fe.mesh.box_mesh((1.0, 2.0, 0.5), mesh_size=0.5, element_type=case["ele"])
    box_oracle(mon, "box.default", m.points, m.cells, case["ele"], [0, 0, 0], [1, 2, .5])
    mon.raises("box.rejects_unknown", lambda: fe.mesh.box_mesh(1.0, element_type="TET10"), ValueError)


def case_sphere(case, mon):
    rng = rng_for(case)
    for _ in range(case["n"]):
        R = float(10 ** rng.uniform(-1, 1.2))
        c = rng.uniform(-10, 10, 3)
        h = R * rng.uniform(0.25, 0.5)
        m = fe.mesh.sphere_mesh(R, center=tuple(map(float, c)), mesh_size=float(h))
        o = mesh_oracle(mon, "sphere", m.points, m.cells, "TET4", scale=R)
        if o is None:
            continue
        pts = np.asarray(m.points) - c
        r = np.linalg.norm(pts, axis=1)
        mon.true("sphere.inside", r.max() <= R * (1 + 1e-6), max=float(r.max()), R=R)
        b = np.unique(np.concatenate(o["nodes"]))
        mon.close("sphere.boundary_radius", r[b], np.full(len(b), R), rtol=1e-6)
        mon.equal("sphere.euler", o["euler"], 2)
        rho = min(np.linalg.norm(pts[n].mean(0)) for n in o["nodes"])
        dist = []
        for n in o["nodes"]:
            nn = np.cross(pts[n][1] - pts[n][0], pts[n][2] - pts[n][0])
            dist.append(abs(pts[n][0] @ nn) / np.linalg.norm(nn))
        rho = min(dist)
        vol = o["geo"].JxW.sum()
        mon.true("sphere.volume", 4 / 3 * np.pi * rho ** 3 <= vol <= 4 / 3 * np.pi * R ** 3 * (1 + 1e-9), vol=float(vol), R=R, rho=rho)
        mon.true("sphere.faceting", rho >= 0.35 * R, rho=rho, R=R)
        e = edge_lengths(np.asarray(m.points), np.asarray(m.cells), "TET4")
        mon.true("sphere.resolution", 0.4 * h < e.mean() < 1.8 * h, h=h, mean=float(e.mean()))
        mon.seen("sphere", size_class(R))


def case_cylinder(case, mon):
    rng = rng_for(case)
    for k in range(case["n"]):
        R = float(10 ** rng.uniform(-1, 1))
        H = R * float(rng.uniform(0.7, 3.0))
        c = rng.uniform(-10, 10, 3)
        ax = [(0, 0, 1), (0, 0, -1), tuple(rng.normal(size=3) * 3), (1, 0, 0)][k % 4] if k < 4 else tuple(rng.normal(size=3))
        if k == 1 and rng.random() < .4:
            ax = (0.0, -2.0, 0.0)
        h = R * rng.uniform(0.45, 0.8)
        m = fe.mesh.cylinder_mesh(R, H, center=tuple(map(float, c)), axis=ax, mesh_size=float(h))
        o = mesh_oracle(mon, "cylinder", m.points, m.cells, "TET4", scale=R)
        if o is None:
            continue
        a = np.array(ax, float) / np.linalg.norm(ax)
        pts = np.asarray(m.points) - c
        z = pts @ a
        rr = np.linalg.norm(pts - np.outer(z, a), axis=1)
        tol = 1e-6 * max(R, H)
        mon.close("cylinder.base", z.min(), 0.0, atol=tol)
        mon.close("cylinder.top", z.max(), H, rtol=1e-6)
        mon.true("cylinder.inside", rr.max() <= R + tol, max=float(rr.max()), R=R)
        caps = [0.0, 0.0, 0.0]
        for n, A in zip(o["nodes"], o["areas"]):
            w = 0 if np.all(np.abs(z[n]) < tol) else 1 if np.all(np.abs(z[n] - H) < tol) else 2
            if w == 2 and not mon.true("cylinder.lateral_radius", np.all(np.abs(rr[n] - R) < tol), r=rr[n], R=R):
                break
            caps[w] += A
        vol = o["geo"].JxW.sum()
        e = edge_lengths(np.asarray(m.points), np.asarray(m.cells), "TET4")
        sag = R - np.sqrt(max(R * R - (e.max() / 2) ** 2, 0.0))
        for w in (0, 1):
            mon.true("cylinder.cap_area", np.pi * (R - sag) ** 2 * 0.999 <= caps[w] <= np.pi * R * R * (1 + 1e-9), cap=caps[w], R=R)
        mon.true("cylinder.volume", np.pi * (R - sag) ** 2 * H * 0.99 <= vol <= np.pi * R * R * H * (1 + 1e-9), vol=float(vol), R=R, H=H)
        mon.equal("cylinder.euler", o["euler"], 2)
        mon.true("cylinder.resolution", 0.4 * h < e.mean() < 1.8 * h, h=h, mean=float(e.mean()))
        mon.seen("cylinder", k % 4, size_class(R), H > 2 * R)


def match_faces(mon, tag, pts, lo, L):
    for k in range(3):
        a = pts[np.abs(pts[:, k] - lo[k]) < 1e-7 * L[k]]
        b = pts[np.abs(pts[:, k] - lo[k] - L[k]) < 1e-7 * L[k]]
        ra = np.round(np.delete(a, k, 1) / (1e-6 * L.max())).astype(np.int64)
        rb = np.round(np.delete(b, k, 1) / (1e-6 * L.max())).astype(np.int64)
        if not mon.equal(tag + ".face_node_counts", len(ra), len(rb)):
            continue
        A = np.delete(a, k, 1)
        B = np.delete(b, k, 1)
        dmin = np.min(np.linalg.norm(A[:, None] - B[None], axis=2), axis=1)
        mon.true(tag + ".faces_match", dmin.max() < 1e-6 * L.max(), gap=float(dmin.max()))


def case_adaptive(case, mon):
    from feax.gene import adaptive
    rng = rng_for(case)
    for k in range(case["n"]):
        L = np.round(rng.uniform(0.6, 1.6, 3) * 10 ** rng.uniform(-0.5, 1), 4)
        o = np.round(rng.uniform(-5, 5, 3), 4)
        hM = float(L.min() * rng.uniform(0.3, 0.5))
        kw = dict(origin=tuple(map(float, o)), periodic=case["periodic"])
        if k == 0 and rng.random() < .5:
            L[:] = L[0]
            size = float(L[0])
        else:
            size = tuple(map(float, L))
        m = adaptive.adaptive_box_mesh(size, h_max=hM, h_min=hM / 3, **kw)
        box_oracle(mon, "adaptive.uniform", m.points, m.cells, "TET4", o, o + L, rtol=1e-7)
        if case["periodic"]:
            match_faces(mon, "adaptive.uniform", np.asarray(m.points), o, L)
        field = (np.asarray(m.points)[:, 0] < o[0] + L[0] / 2).astype(float)
        if k % 2 == 1:
            field = 1 - field
        m2 = adaptive.adaptive_box_mesh(size, refinement_field=field, old_mesh=m, h_min=hM / 2.5, h_max=hM, **kw)
        box_oracle(mon, "adaptive.graded", m2.points, m2.cells, "TET4", o, o + L, rtol=1e-7)
        if case["periodic"]:
            match_faces(mon, "adaptive.graded", np.asarray(m2.points), o, L)
        g = ref.Geo(m2.points, m2.cells, "TET4")
        cen = np.asarray(m2.points)[np.asarray(m2.cells)].mean(1)
        v = g.JxW.sum(1)
        left, right = cen[:, 0] < o[0] + .35 * L[0], cen[:, 0] > o[0] + .65 * L[0]
        if case["periodic"] is False and left.any() and right.any():
            fine, coarse = (left, right) if k % 2 == 0 else (right, left)
            mon.true("adaptive.finer_where_asked", v[fine].mean() < v[coarse].mean(), fine=float(v[fine].mean()), coarse=float(v[coarse].mean()))
        mon.seen("adaptive", case["periodic"], k % 2, size_class(L))
    m3 = adaptive.adaptive_box_mesh(size, h_max=hM * 2, h_min=hM, target_nodes=120, **kw)
    box_oracle(mon, "adaptive.retuned", m3.points, m3.cells, "TET4", o, o + L, rtol=1e-7)


def case_adaptive_geo(case, mon):
    import gmsh
    from feax.gene import adaptive
    rng = rng_for(case)
    for k in range(case["n"]):
        a = rng.uniform(0.5, 2.0, 3)
        b = rng.uniform(0.3, 1.0) * a[0]
        h = float(a.min() * 0.45)

        def geom():                     # two boxes fused: an L-shaped solid
            t1 = gmsh.model.occ.addBox(0, 0, 0, *a)
            t2 = gmsh.model.occ.addBox(a[0], 0, 0, b, a[1] / 2, a[2])
            gmsh.model.occ.fuse([(3, t1)], [(3, t2)])
            gmsh.model.occ.synchronize()
        m = adaptive.adaptive_mesh(geom, h_min=h / 2, h_max=h)
        vol = a.prod() + b * a[1] / 2 * a[2]
        o = mesh_oracle(mon, "adaptive_geo", m.points, m.cells, "TET4", measure=vol, scale=float(a.min()), rtol=1e-8)
        area = 2 * (a[0] * a[1] + b * a[1] / 2) + 2 * (a[0] + b) * a[2] + 2 * a[1] * a[2]
        if o:
            mon.close("adaptive_geo.surface", o["areas"].sum(), area, rtol=1e-8)
        path = os.path.join(os.environ.get("VERIF_SCRATCH", "/tmp"), f"g{case['i']}_{k}.step")
        gmsh.initialize()
        gmsh.option.setNumber("General.Terminal", 0)
        geom()
        gmsh.write(path)
        gmsh.finalize()
        field = np.asarray(m.points)[:, 2] / a[2]
        m2 = adaptive.adaptive_mesh(path, refinement_field=field, old_mesh=m, h_min=h / 2, h_max=h)
        os.remove(path)
        o = mesh_oracle(mon, "adaptive_file", m2.points, m2.cells, "TET4", scale=float(a.min()))
        if o:
            L = np.asarray(m2.points).max(0) - np.asarray(m2.points).min(0)
            f = L[2] / a[2]             # file units may scale
            mon.close("adaptive_file.measure", o["geo"].JxW.sum(), vol * f ** 3, rtol=1e-6)
            mon.close("adaptive_file.surface", o["areas"].sum(), area * f ** 2, rtol=1e-6)
        mon.seen("adaptive_geo", k)


def case_copv(case, mon):
    from feax.mechanics import copv
    rng = rng_for(case)
    for _ in range(case["n"]):
        a = float(rng.uniform(20, 120))
        g = copv.DoubleWallCopvGeometry(
            a=a, shell_t=float(rng.uniform(.02, .06) * a), gap=float(rng.uniform(.05, .3) * a),
            cyl_len=float(rng.uniform(.5, 2) * a), polar_radius=float(rng.uniform(.2, .6) * a),
            n_circum=int(rng.integers(7, 15)), n_merid_cyl=int(rng.integers(1, 5)),
            n_merid_dome=int(rng.integers(2, 6)), n_fill=int(rng.integers(1, 4)))
        M = copv.create_double_wall_copv_mesh(g)
        pts, cells = np.asarray(M.mesh.points), np.asarray(M.mesh.cells)
        # twisted dome cells have slightly curved faces; conformity is by node identity
        o = mesh_oracle(mon, "copv", pts, cells, "HEX8", scale=g.shell_t)
        if o is None:
            continue
        T = 2 * g.shell_t + g.gap
        nm = g.n_merid_cyl + g.n_merid_dome
        mon.equal("copv.cells", len(cells), nm * g.n_circum * (g.n_fill + 2))
        mon.equal("copv.euler", o["euler"], 0)              # a tube (torus boundary)
        rc = np.linalg.norm(pts[:, :2], axis=1)
        z = pts[:, 2]
        below = z <= g.cyl_len + 1e-9
        off = np.where(below, rc, np.linalg.norm(pts - [0, 0, g.cyl_len], axis=1)) - a     # wall depth
        lay = np.array([0, g.shell_t] + [g.shell_t + g.gap * i / g.n_fill for i in range(1, g.n_fill + 1)] + [T])
        near = np.min(np.abs(off[:, None] - lay[None]), axis=1)
        mon.true("copv.nodes_on_layers", near.max() < 1e-9 * a, max=float(near.max()))
        co = off[cells].mean(1)
        want = np.where(co < g.shell_t, 0, np.where(co > g.shell_t + g.gap, 2, 1))
        mon.equal("copv.zone", np.asarray(M.cell_zone), want)
        cyl = pts[cells][:, :, 2].max(1) <= g.cyl_len + 1e-9
        mon.equal("copv.dome_mask", np.asarray(M.dome_cell_mask()), ~cyl)
        n = g.n_circum
        poly = n / 2 * np.sin(2 * np.pi / n)
        vols = o["geo"].JxW.sum(1)
        mon.close("copv.cylinder_volume", vols[cyl].sum(), poly * ((a + T) ** 2 - a ** 2) * g.cyl_len, rtol=1e-9)
        zs = np.asarray(M.cell_zone)
        mon.close("copv.inner_shell_volume", vols[cyl & (zs == 0)].sum(), poly * ((a + g.shell_t) ** 2 - a ** 2) * g.cyl_len, rtol=1e-9)
        lam = np.arccos(g.polar_radius / a)
        dome = 2 * np.pi / 3 * ((a + T) ** 3 - a ** 3) * np.sin(lam)
        frac = vols[~cyl].sum() / dome
        loss = (1 - poly / np.pi) + (lam / g.n_merid_dome) ** 2
        mon.true("copv.dome_volume", 1 - 1.2 * loss <= frac <= 1 + 1e-9, frac=float(frac), loss=loss)
        # node and dof sets against geometry
        tol = 1e-6 * a
        sets = dict(
            equator=(M.equator_node_ids(), z < tol),
            inner=(M.inner_surface_node_ids(), off < tol),
            outer=(M.outer_surface_node_ids(), off > T - tol))
        ang = np.arctan2(z - g.cyl_len, rc)
        top = (~below) & (ang > lam - 1e-7)
        sets["rim_inner"] = (M.rim_inner_node_ids(), top & (off < g.shell_t + tol))
        for nm_, (got, mask) in sets.items():
            mon.true(f"copv.{nm_}_nodes", sorted(np.asarray(got).tolist()) == np.where(mask)[0].tolist(),
                     got=len(got), want=int(mask.sum()))
        mon.close("copv.rim_inner_radius", M.rim_inner_radius(), g.polar_radius, rtol=1e-9)
        for fn, key in ((M.outer_surface_location_fn(), "outer"), (M.inner_surface_location_fn(), "inner"), (M.rim_location_fn(), "rim_inner")):
            got = np.asarray(jax.vmap(fn)(jnp.asarray(pts)))
            mon.true(f"copv.{key}_location_fn", np.array_equal(got, sets[key][1]))
        N = 3 * len(pts)
        free = np.asarray(M.buckling_free_dofs(N))
        pins = np.asarray(M.rigid_inplane_pin_dofs())
        fixed = set(range(N)) - set(free.tolist())
        mon.true("copv.free_dofs", fixed == set((np.where(z < tol)[0] * 3 + 2).tolist()) | set(pins.tolist()))
        # the pins remove exactly the three in-plane rigid motions
        R = np.zeros((N, 3))
        R[0::3, 0] = 1
        R[1::3, 1] = 1
        R[0::3, 2] = -pts[:, 1]
        R[1::3, 2] = pts[:, 0]
        mon.true("copv.pins_remove_rigid", len(pins) == 3 and np.linalg.matrix_rank(R[pins] / np.array([1, 1, a]), tol=1e-3) == 3)
        i, j, k = (int(rng.integers(0, x)) for x in (nm + 1, g.n_circum, g.n_fill + 3))
        p = pts[M.node_id(i, j + n, k)]
        th = 2 * np.pi * j / n
        mon.close("copv.node_id", np.array([np.cos(th) * p[1] - np.sin(th) * p[0], off[M.node_id(i, j, k)] - lay[k]]), np.zeros(2), atol=tol)
        mon.seen("copv", g.n_fill, g.n_circum % 2, g.n_merid_cyl == 1)


# ------------------------------------------------------------------ refinement
def midpoints(pts, cells, ele, dim_cols):
    """Points of one uniform refinement of the first-order cells."""
    shape = ref.ELE[ele][2]
    nc = ref.CORNERS[shape]
    c = cells[:, :nc]
    P = pts[c]
    edges = {"tri": ref.TRI_E, "quad": ref.QUAD_E, "tet": ref.TET_E, "hex": ref.HEX_E}[shape]
    out = [pts[np.unique(c)]]
    for a, b in edges:
        out.append((P[:, a] + P[:, b]) / 2)
    if shape == "quad":
        out.append(P.mean(1))
    if shape == "hex":
        for f in ref.HEX_F:
            out.append(P[:, list(f)].mean(1))
        out.append(P.mean(1))
    return uniq(np.concatenate(out))


def uniq(p, tol=1e-7):
    k = np.round(p / tol).astype(np.int64)
    _, i = np.unique(k, axis=0, return_index=True)
    return p[i]


def same_set(mon, name, a, b, tol=1e-6):
    if not mon.equal(name + ".count", len(a), len(b)):
        return
    from scipy.spatial import cKDTree
    d, _ = cKDTree(a).query(b)
    mon.true(name + ".points", d.max() < tol, gap=float(d.max()))


def refined_oracle(mon, tag, m, f, ele, levels):
    shape = ref.ELE[ele][2]
    d = ref.DIM[shape]
    pts, cells = np.asarray(m.points, float), np.asarray(m.cells)
    fp, fc = np.asarray(f.points, float), np.asarray(f.cells)
    mon.equal(tag + ".type", f.ele_type, ele)
    mon.equal(tag + ".dim", fp.shape[1], pts.shape[1])
    mon.equal(tag + ".child_count", len(fc), len(cells) * (2 ** d) ** levels)
    g0 = ref.Geo(pts, cells, ele, 4)
    o0 = mesh_oracle(mon, tag + ".parent", pts, cells, ele)
    o = mesh_oracle(mon, tag, fp, fc, ele, measure=float(g0.JxW.sum()))
    if o is None or o0 is None:
        return
    if shape != "hex":
        mon.close(tag + ".boundary_measure", o["areas"].sum(), o0["areas"].sum(), rtol=1e-8)
    mon.close(tag + ".lower", fp.min(0), pts.min(0), rtol=0, atol=1e-9 * np.ptp(pts))
    mon.close(tag + ".upper", fp.max(0), pts.max(0), rtol=0, atol=1e-9 * np.ptp(pts))
    if shape in ("tri", "tet"):
        # every parent is split into children of equal measure
        want = np.sort(np.repeat(g0.JxW.sum(1), (2 ** d) ** levels)) / (2 ** d) ** levels
        mon.close(tag + ".equal_children", np.sort(o["geo"].JxW.sum(1)), want, rtol=1e-8)
    if levels == 1:
        nc = ref.CORNERS[shape]
        same_set(mon, tag + ".corner_nodes", uniq(fp[np.unique(fc[:, :nc])]), midpoints(pts, cells, ele, d))


def case_refine(case, mon):
    rng = rng_for(case)
    ele, lev = case["ele"], case["levels"]
    shape = ref.ELE[ele][2]
    d = ref.DIM[shape]
    big = shape in ("tet", "hex") and lev == 2
    ns = tuple(int(x) for x in (rng.integers(1, 4, 2) if d == 2 else ([1, 1, 1] if big else rng.integers(1, 3, 3))))
    L, o = rng.uniform(.5, 3, d), rng.uniform(-3, 3, d)
    pts, cells = wl.make_mesh(rng, ele, ns, L, o, distort=.15 if not big else 0.0)
    if shape == "hex" and not big:
        pts, cells = wl.make_mesh(rng, ele, ns, L, o, distort=.05)
    m = fe.Mesh(pts, cells, ele_type=ele) if rng.random() < .5 else wl.fmesh(pts, cells, ele)
    p0, c0 = np.array(m.points), np.array(m.cells)
    f = fe.mesh.refine_mesh(m, lev)
    mon.true("refine.input_untouched", np.array_equal(p0, m.points) and np.array_equal(c0, m.cells))
    refined_oracle(mon, "refine", m, f, ele, lev)
    u = 2.0 ** int(rng.integers(-40, 20))
    fu = fe.mesh.refine_mesh(fe.Mesh(p0 * u, c0, ele_type=ele), lev)
    if mon.equal("refine.any_unit_cells", np.shape(fu.cells), np.shape(f.cells), u=u):
        same_set(mon, "refine.any_unit_points", np.asarray(fu.points) / u, np.asarray(f.points))
        same_set(mon, "refine.any_unit_centroids", np.asarray(fu.points)[np.asarray(fu.cells)].mean(1) / u, np.asarray(f.points)[np.asarray(f.cells)].mean(1))
    mon.true("refine.level0_is_identity", fe.mesh.refine_mesh(m, 0) is m or np.array_equal(np.asarray(fe.mesh.refine_mesh(m, 0).points), p0))
    mon.raises("refine.negative", lambda: fe.mesh.refine_mesh(m, -1), ValueError)
    mon.seen("refine", ele, lev, ns)


def case_refine_embedded(case, mon):
    rng = rng_for(case)
    ele = case["ele"]
    pts, cells = wl.make_mesh(rng, ele, (3, 2), rng.uniform(.5, 3, 2), rng.uniform(-2, 2, 2), distort=.15)
    Q, _ = np.linalg.qr(rng.normal(size=(3, 3)))
    A, b = Q[:2] * rng.uniform(.7, 1.4), rng.normal(size=3)
    f2 = fe.mesh.refine_mesh(fe.Mesh(pts, cells, ele_type=ele), 1)
    f3 = fe.mesh.refine_mesh(fe.Mesh(pts @ A + b, cells, ele_type=ele), 1)
    mon.equal("embedded.dim", np.asarray(f3.points).shape[1], 3)
    P2 = (np.asarray(f2.points) @ A + b)
    c2, c3 = np.asarray(f2.cells), np.asarray(f3.cells)
    mon.equal("embedded.cells", c3.shape, c2.shape)
    same_set(mon, "embedded.centroids", P2[c2].mean(1), np.asarray(f3.points)[c3].mean(1))
    same_set(mon, "embedded.points", P2, np.asarray(f3.points))
    mon.seen("embedded", ele)


def case_refine_generated(case, mon):
    rng = rng_for(case)
    L, o = rng.uniform(.5, 2, 3), rng.uniform(-2, 2, 3)
    for ele, h in (("HEX8", .6), ("TET4", 1.0)):
        m = fe.mesh.box_mesh(tuple(map(float, L)), tuple(map(float, o)), mesh_size=float(h * L.min()), element_type=ele)
        f = fe.mesh.refine_mesh(m, 1)
        mon.equal("refine_generated.count", len(f.cells), 8 * len(m.cells))
        box_oracle(mon, "refine_generated", f.points, f.cells, ele, o, o + L, rtol=1e-7)
    m = fe.mesh.rectangle_mesh(3, 2, 1.5, .7, origin=(2.0, -1.0))
    f = fe.mesh.refine_mesh(m, 3)
    mon.equal("refine_generated.count", len(f.cells), 64 * 6)
    box_oracle(mon, "refine_generated", f.points, f.cells, "QUAD4", [2, -1], [3.5, -.3])
    mon.seen("refine_generated")


# ------------------------------------------------------------------ conversion
MESHIO = {"TRI3": "triangle", "TRI6": "triangle6", "QUAD4": "quad", "QUAD8": "quad8", "QUAD9": "quad9", "TET4": "tetra",
          "TET10": "tetra10", "HEX8": "hexahedron", "HEX20": "hexahedron20"}


def case_from_gmsh(case, mon):
    import meshio
    rng = rng_for(case)
    names = list(MESHIO)
    for k in range(case["n"]):
        ele = names[int(rng.integers(len(names)))]
        d = ref.DIM[ref.ELE[ele][2]]
        pts, cells = wl.make_mesh(rng, ele, (2, 2) if d == 2 else (2, 1, 1), distort=.1)
        nblk = int(rng.integers(1, 4))
        cut = sorted(rng.choice(np.arange(1, len(cells)), size=min(nblk - 1, len(cells) - 1), replace=False).tolist())
        blocks = [(MESHIO[ele], b) for b in np.split(cells, cut)]
        extra = [("line", cells[:2, :2]), ("vertex", cells[:1, :1])]
        if d == 3:
            extra.append(("triangle", cells[:2, :3]))
        allb = blocks + extra
        order = rng.permutation(len(allb))
        # keep block order of the chosen type, interleave the others
        pos = sorted(order[:len(blocks)])
        seq, bi, ei = [], 0, 0
        for s in range(len(allb)):
            if s in pos:
                seq.append(blocks[bi])
                bi += 1
            else:
                seq.append(extra[ei])
                ei += 1
        gm = meshio.Mesh(pts, seq)
        auto = rng.random() < .5 and d == 3
        m = fe.Mesh.from_gmsh(gm) if auto else fe.Mesh.from_gmsh(gm, element_type=ele)
        mon.equal("from_gmsh.type", m.ele_type, ele)
        mon.equal("from_gmsh.points", np.asarray(m.points), pts)
        mon.true("from_gmsh.cells", sorted(map(tuple, np.asarray(m.cells).tolist())) == sorted(map(tuple, cells.tolist())),
                 got=len(m.cells), want=len(cells), blocks=nblk)
        mon.equal("meshio_name", fe.mesh.get_meshio_cell_type(ele), MESHIO[ele])
        mon.seen("from_gmsh", ele, nblk, bool(auto))
    gm = meshio.Mesh(np.zeros((2, 3)), [("line", np.array([[0, 1]]))])
    mon.raises("from_gmsh.no_supported_cells", lambda: fe.Mesh.from_gmsh(gm), ValueError)
    gm = meshio.Mesh(np.eye(4, 3), [("tetra", np.array([[0, 1, 2, 3]]))])
    mon.raises("from_gmsh.missing_type", lambda: fe.Mesh.from_gmsh(gm, element_type="HEX8"), ValueError)


def case_faces(case, mon):
    """Face counting and tetrahedron orientation helpers against the reference."""
    rng = rng_for(case)
    for ele in ("TRI3", "QUAD4", "QUAD8", "TET4", "TET10", "HEX8", "HEX20"):
        d = ref.DIM[ref.ELE[ele][2]]
        ns = tuple(int(x) for x in rng.integers(1, 4, d))
        L, o = rng.uniform(.5, 2, d), rng.uniform(-2, 2, d)
        pts, cells = wl.make_mesh(rng, ele, ns, L, o, distort=.1)
        m = wl.fmesh(pts, cells, ele)
        ax = int(rng.integers(d))
        v = float(o[ax] + L[ax] * rng.integers(2))
        got = m.count_selected_faces(wl.side(ax, v))
        per = 2 if ref.ELE[ele][2] == "tet" else 1
        want = per * int(np.prod([n for k, n in enumerate(ns) if k != ax]))
        mon.equal("faces.side_count", got, want, ele=ele)
        tot = m.count_selected_faces(lambda p: p[0] > -1e9)
        mon.equal("faces.all", tot, len(cells) * len(ref.FACES[ref.ELE[ele][2]]), ele=ele)
        mon.seen("faces", ele, ax)
    pts, cells = wl.make_mesh(rng, "TET4", (2, 1, 2), distort=.1)
    flip = rng.random(len(cells)) < .4
    cells[flip] = cells[flip][:, [1, 0, 2, 3]]
    q = np.asarray(fe.mesh.check_mesh_TET4(jnp.asarray(pts), jnp.asarray(cells)))
    P = pts[cells]
    want = np.linalg.det(P[:, 1:] - P[:, :1])
    mon.close("faces.signed_volume", q, want, rtol=1e-9)
    mon.equal("faces.inverted_found", q < 0, flip)
