"""C16: solving on an active sub-domain equals the full solve with the rest removed."""
import functools

import numpy as np
import scipy.sparse as sp
import scipy.sparse.linalg as spl

from harness import ref, wl
from harness.lazy import fe, jax, jnp
from harness.mon import rng_for

ID = "C16"
RULE = ("random active sets (sparse, dense, single cell, everything, disconnected, unsorted) of random meshes of every element type and of "
        "random structured grids (unequal spacings, shifted origins), band operators and solutions observed against the full mesh with "
        "the other cells switched off; random moving-band sequences driven through a superset band next to freshly extracted bands; "
        "grid indexing, voxelization and dilation against brute-force geometry; distinct by (domain, set shape, operation)")
ASSUMPTIONS = ["active cells are listed once each", "cell and node counts differ where parameter arrays are dispatched by their length"]
MIN_EVALUATIONS = 1000
ELES = ["QUAD4", "TRI3", "TET4", "HEX8", "QUAD8", "TET10", "TRI6", "HEX20"]


def cases(tier, seed):
    out = []
    q = tier == "quick"
    for r in range(8 if q else 32):
        out.append(dict(kind="band", ele=ELES[r % 8], cost=7))
    for r in range(6 if q else 30):
        out.append(dict(kind="maps", n=10, cost=1))
        out.append(dict(kind="grid", n=60, cost=1))
        out.append(dict(kind="design", r=r, n=150, cost=1))
        out.append(dict(kind="moving", ele=ELES[r % 4], steps=60 if q else 200, cost=2))
    for r in range(3 if q else 12):
        out.append(dict(kind="gridband", r=r, cost=6))
    for r in range(2 if q else 8):
        out.append(dict(kind="superset_solve", ele=["QUAD4", "HEX8", "TRI3", "TET4"][r % 4], cost=8))
    return [dict(c, seed=seed, i=n) for n, c in enumerate(out)]


def some_mesh(rng, ele, small=False):
    d = ref.DIM[ref.ELE[ele][2]]
    hi = (5 if d == 2 else 3) if not small else 3
    ns = tuple(int(n) for n in rng.integers(1 if small else 2, hi + 1, d))
    return wl.make_mesh(rng, ele, ns, size=rng.uniform(0.6, 2, d), distort=0.1 if ele in ("QUAD4", "HEX8", "TRI3", "TET4") else 0.0)


def subset(rng, nc, kind=None):
    kind = kind or str(rng.choice(["sparse", "dense", "one", "all", "half"]))
    if kind == "one":
        a = rng.integers(0, nc, 1)
    elif kind == "all":
        a = np.arange(nc)
    else:
        a = np.where(rng.uniform(size=nc) < dict(sparse=0.2, dense=0.85, half=0.5)[kind])[0]
        if not len(a):
            a = rng.integers(0, nc, 1)
    if rng.uniform() < 0.5:
        a = rng.permutation(a)
    return a.astype(np.int64), kind


def check_band(mon, tag, b, pts, cells, act, unit=1.0):
    used = np.unique(cells[act])
    mon.equal(tag + "active", b.active_cells, act)
    mon.true(tag + "sizes", b.num_full_cells == len(cells) and b.num_full_nodes == len(pts) and b.num_active_cells == len(act)
             and b.num_band_nodes == len(used))
    nm = np.asarray(b.node_map)
    ok = mon.equal(tag + "nodes", np.sort(nm), used)
    mon.equal(tag + "connectivity", nm[np.asarray(b.mesh.cells)], cells[act])
    if ok:
        mon.close(tag + "points", np.asarray(b.mesh.points), pts[nm], rtol=1e-12, scale=unit)
    return nm


def case_maps(case, mon):
    rng = rng_for(case)
    for _ in range(case["n"]):
        ele = str(rng.choice(ELES))
        pts, cells = some_mesh(rng, ele, small=rng.uniform() < 0.3)
        act, kind = subset(rng, len(cells))
        m = wl.fmesh(pts, cells, ele)
        b = fe.NarrowBand(m, act if rng.uniform() < 0.7 else act.tolist())
        nm = check_band(mon, "maps.", b, pts, cells, act)
        mon.true("maps.ele", b.mesh.ele_type == ele)
        nc, nn, na = len(cells), len(pts), len(act)
        f = rng.normal(size=nc)
        for form in (f, f[:, None], jnp.asarray(f)):
            mon.equal("maps.gather_cells", b.gather_cells(form), f[act])
        f2 = rng.normal(size=(nc, 3))
        mon.equal("maps.gather_cells_vec", b.gather_cells(f2), f2[act])
        fill = float(rng.choice([0.0, -1.5, 1e-3]))
        want = np.full(nc, fill)
        want[act] = f[act]
        mon.equal("maps.scatter_cells", b.scatter_cells(f[act], fill=fill), want)
        vec = int(rng.integers(1, 4))
        u = rng.normal(size=(nn, vec))
        g = b.gather_sol(u.ravel(), vec)
        mon.equal("maps.gather_sol", g, u[nm].ravel())
        want = np.zeros((nn, vec))
        want[nm] = u[nm]
        mon.equal("maps.scatter_sol", b.scatter_sol(g, vec), want.ravel())
        mon.equal("maps.scatter_Solution", b.scatter_sol(fe.Solution(jnp.asarray(g), ((len(nm), vec),)), vec), want.ravel())
        # parameters
        if nc != nn:
            pc, pn, pq = rng.normal(size=nc), rng.normal(size=(nn, 2)), rng.normal(size=(nc, 4))
            tp = b.gather_params(fe.TracedParams(volume_vars=tuple(map(jnp.asarray, (pc, pn, pq)))))
            for t, x, y in zip("cnq", tp.volume_vars, (pc[act], pn[nm], pq[act])):
                mon.equal("maps.gather_params." + t, x, y)
            if na != len(nm):
                bk = b.scatter_params(tp, fill=fill)
                for t, x, y, idx in zip("cnq", bk.volume_vars, (pc, pn, pq), (act, nm, act)):
                    w = np.full(y.shape, fill)
                    w[idx] = y[idx]
                    mon.equal("maps.scatter_params." + t, x, w)
            mon.raises("maps.surface_rejected", lambda: b.gather_params(fe.TracedParams(volume_vars=(), surface_vars=[(jnp.ones((2, 2)),)])), ValueError)
            mon.raises("maps.bad_length_rejected", lambda: b.gather_params(fe.TracedParams(volume_vars=(jnp.ones(nc + nn + 1),))), ValueError)
        # field-defined bands
        thr = float(rng.normal() * 0.5)
        margin = int(rng.integers(0, 3))
        keep = rng.integers(0, nc, int(rng.integers(0, 3)))
        cf = rng.uniform() < 0.5
        fld = f if cf else rng.normal(size=nn)
        seed = f > thr if cf else np.array([(fld[c] > thr).any() for c in cells])
        if seed.any() or len(keep):
            cur = set(np.where(seed)[0].tolist())
            for _r in range(margin):
                nodes = set(cells[sorted(cur)].ravel().tolist()) if cur else set()
                cur = {i for i, c in enumerate(cells) if nodes & set(c.tolist())}
            cur |= set(keep.tolist())
            bb = fe.NarrowBand.from_field(m, fld, thr, margin=margin, keep_cells=keep if len(keep) else None, cell_field=cf)
            mon.equal("maps.from_field", np.sort(bb.active_cells), np.array(sorted(cur)))
        mon.seen("maps", ele, kind, vec, margin, cf)


def elastic(mesh, d, ele):
    class P(fe.problem.Problem):
        def get_tensor_map(self):
            def t(gu, E):
                e = 0.5 * (gu + gu.T)
                return E * (0.6 * jnp.trace(e) * jnp.eye(d) + 0.8 * e)
            return t
    return P(mesh, vec=d, dim=d, ele_type=ele)


def sps(K):
    return sp.csr_matrix((np.asarray(K.data), np.asarray(K.indices), np.asarray(K.indptr)), shape=K.shape)


def expand(nm, d):
    return (nm[:, None] * d + np.arange(d)).ravel()


def case_band(case, mon):
    """Band operator and solution against the full mesh with the other cells multiplied by zero."""
    rng = rng_for(case)
    ele = case["ele"]
    pts, cells = some_mesh(rng, ele)
    d = pts.shape[1]
    nc, nn = len(cells), len(pts)
    if nc == nn:
        return
    act, kind = subset(rng, nc, str(rng.choice(["half", "dense", "sparse"])))
    m = wl.fmesh(pts, cells, ele)
    b = fe.NarrowBand(m, act)
    nm = np.asarray(b.node_map)
    E = rng.uniform(0.5, 3, nc)
    off = np.zeros(nc)
    off[act] = E[act]
    pf, pb = elastic(m, d, ele), elastic(b.mesh, d, ele)
    u = rng.normal(size=(nn, d))
    Kf = sps(fe.assembler.get_jacobian(pf, [jnp.asarray(u)], fe.TracedParams(volume_vars=(jnp.asarray(off),))))
    if len(act) == len(nm):     # length dispatch would be ambiguous on the band
        Eb = jnp.asarray(np.repeat(E[act][:, None], pb.fes[0].num_quads, axis=1))
    else:
        Eb = b.gather_params(fe.TracedParams(volume_vars=(jnp.asarray(E),))).volume_vars[0]
    tb = fe.TracedParams(volume_vars=(Eb,))
    Kb = sps(fe.assembler.get_jacobian(pb, [jnp.asarray(u[nm])], tb))
    ix = expand(nm, d)
    sc = abs(Kf).max()
    mon.close("band.operator", Kb.toarray(), Kf[ix][:, ix].toarray(), rtol=1e-10, scale=sc, ele=ele)
    rest = np.setdiff1d(np.arange(nn * d), ix)
    mon.true("band.nothing_outside", abs(Kf[rest]).sum() <= 1e-12 * sc)
    rb = np.asarray(fe.assembler.get_res(pb, [jnp.asarray(b.gather_sol(u.ravel(), d).reshape(-1, d))], tb)[0])
    mon.close("band.residual", b.scatter_sol(rb.ravel(), d), Kf @ u.ravel(), rtol=1e-9, scale=sc * np.abs(u).max(), ele=ele)
    # solve: hold the lowest band nodes along an axis and one extra layer, so every connected piece is held
    import scipy.sparse.csgraph as cg
    ne = np.asarray(b.mesh.cells)
    G = sp.coo_matrix((np.ones(ne.size), (np.repeat(np.arange(len(ne)), ne.shape[1]), ne.ravel())), shape=(len(ne), len(nm)))
    lab = cg.connected_components(G.T @ G, directed=False)[1]
    held = np.zeros(len(nm), bool)
    for c in np.unique(lab):
        held[ne[np.where(lab[ne[:, 0]] == c)[0][0]]] = True
    # hinged pieces (joined at a node or an edge) keep mechanisms: hold one cell of every face-connected piece
    vals = rng.normal(size=(len(nm), d)) * 0.1
    f = rng.normal(size=(len(nm), d))
    hd = np.repeat(held, d)
    A = Kb[~hd][:, ~hd].toarray()
    if A.size and np.linalg.cond(A) < 1e10:
        hp = jnp.asarray(np.asarray(b.mesh.points)[held])

        def where(x):
            return jnp.any(jnp.sum((hp - x) ** 2, axis=1) < 1e-16)

        def value(x, c):
            i = jnp.argmin(jnp.sum((jnp.asarray(np.asarray(b.mesh.points)) - x) ** 2, axis=1))
            return jnp.asarray(vals)[i, c]
        bc = fe.DirichletBC.from_specs(pb, [fe.DirichletBCSpec(where, c, functools.partial(value, c=c)) for c in range(d)])
        s = fe.create_solver(pb, bc, solver_options=fe.DirectSolverOptions(solver="spsolve"), linear=True, traced_params=tb)
        ub = np.asarray(s(tb, fe.zero_like_initial_guess(pb, bc)))
        full = b.scatter_sol(ub, d)
        # oracle on the full numbering: K with only active cells, same held dofs
        x = np.zeros(nn * d)
        hfull = ix[hd]
        x[hfull] = vals.ravel()[hd]
        free = np.setdiff1d(ix, hfull)
        x[free] = spl.spsolve(Kf[free][:, free].tocsc(), -(Kf[free][:, hfull] @ x[hfull])) if len(free) > 1 else -(Kf[free][:, hfull] @ x[hfull]) / Kf[free][:, free].toarray().ravel()
        mon.close("band.solution", full, x, rtol=1e-6, ele=ele, kind=kind)
        mon.event("solves")
    mon.seen("band", ele, kind, len(np.unique(lab)) > 1)


def brute_nodes(g):
    I, J, K = np.meshgrid(np.arange(g.nx + 1), np.arange(g.ny + 1), np.arange(g.nz + 1), indexing="ij")
    return np.stack([I.ravel(), J.ravel(), K.ravel()], axis=1)


def brute_cells(g):
    I, J, K = np.meshgrid(np.arange(g.nx), np.arange(g.ny), np.arange(g.nz), indexing="ij")
    return np.stack([I.ravel(), J.ravel(), K.ravel()], axis=1)


def rand_grid(rng, lo=1, hi=6):
    dims = rng.integers(lo, hi, 3)
    unit = 10.0 ** rng.uniform(-9, 4) if rng.uniform() < 0.5 else 1.0       # any unit of length
    return fe.StructuredGrid(tuple(dims), spacing=tuple(rng.uniform(0.2, 3, 3) * unit), origin=tuple(rng.normal(size=3) * 3 * unit)), dims, unit


def case_grid(case, mon):
    rng = rng_for(case)
    for _ in range(case["n"]):
        g, dims, unit = rand_grid(rng)
        h, o = np.asarray(g.spacing), np.asarray(g.origin)
        nijk, cijk = brute_nodes(g), brute_cells(g)
        mon.true("grid.counts", g.num_cells == len(cijk) and g.num_nodes == len(nijk))
        ids = np.arange(g.num_cells)
        mon.equal("grid.cell_ijk", np.stack(g.cell_ijk(ids), axis=1), cijk)
        mon.equal("grid.cell_id", g.cell_id(*cijk.T), ids)
        mon.equal("grid.node_id", g.node_id(*nijk.T), np.arange(len(nijk)))
        X = np.asarray(g.node_coords(np.arange(len(nijk))))
        mon.close("grid.node_coords", X, o + nijk * h, rtol=1e-12, scale=10.0 * unit)
        mon.close("grid.centroids", g.cell_centroids(ids), o + (cijk + 0.5) * h, rtol=1e-12, scale=10.0 * unit)
        cn = np.asarray(g.cell_to_nodes(ids))
        # the eight nodes of a cell are its eight corners, in an order of positive volume
        want = np.sort(np.stack([g.node_id(*(cijk + np.array(c)).T) for c in np.ndindex(2, 2, 2)], axis=1), axis=1)
        mon.equal("grid.cell_corners", np.sort(cn, axis=1), want)
        G = ref.Geo(X, cn, "HEX8", 2)
        mon.close("grid.cell_volume", G.JxW.sum(axis=1), np.full(len(cn), np.prod(h)), rtol=1e-10)
        sel, kind = subset(rng, g.num_cells)
        m = g.to_mesh(sel)
        b = fe.NarrowBand(g, sel)
        nm = check_band(mon, "grid.band.", b, X, cn, sel, unit)
        mon.equal("grid.to_mesh_cells", np.asarray(m.cells), np.asarray(b.mesh.cells))
        mon.close("grid.to_mesh_points", np.asarray(m.points), np.asarray(b.mesh.points), rtol=1e-12, scale=10.0 * unit)
        # location of points, strictly inside cells and on the domain faces
        P = o + rng.uniform(-0.3, 1.3, (60, 3)) * dims * h
        F = o + rng.uniform(0.05, 0.95, (12, 3)) * dims * h             # next to the faces of the domain, outside and inside
        ax, off = rng.integers(0, 3, 12), 10.0 ** rng.uniform(-4, -0.5, 12) * rng.choice([-1, 1], 12)
        F[np.arange(12), ax] = (o + np.where(rng.uniform(size=(12, 1)) < 0.7, dims, 0) * h)[np.arange(12), ax] + off * h[ax]
        P = np.concatenate([P, F])
        t = (P - o) / h
        clear = np.all(np.abs(t - np.round(t)) > 1e-6, axis=1)
        inside = np.all((t > 0) & (t < dims), axis=1)
        w = np.where(inside, g.cell_id(*np.clip(np.floor(t).astype(int), 0, dims - 1).T), -1)
        mon.equal("grid.point_cells", g.point_cells(P)[clear], w[clear])
        corner = np.asarray(g.point_cells(X))
        lo_, hi_ = g.cell_centroids(np.maximum(corner, 0)) - 0.5 * h, g.cell_centroids(np.maximum(corner, 0)) + 0.5 * h
        mon.true("grid.nodes_located", np.all(corner >= 0) and np.all((X >= lo_ - 1e-8 * unit) & (X <= hi_ + 1e-8 * unit)))
        mon.equal("grid.voxelize", g.voxelize(P[clear]), np.unique(w[clear & (w >= 0)]))
        a = rng.normal(size=3)
        c0 = float(a @ g.cell_centroids(ids).mean(axis=0))
        mon.equal("grid.cells_where", g.cells_where(lambda c: c @ a > c0), ids[(o + (cijk + 0.5) * h) @ a > c0])
        k = int(rng.integers(0, 3))
        v = int(rng.integers(0, dims[k] + 1))
        mon.equal("grid.nodes_where", np.sort(g.nodes_where(lambda i, j, l: (i, j, l)[k] == v)), np.where(nijk[:, k] == v)[0])
        mg = int(rng.integers(0, 3))
        D = np.abs(cijk[:, None, :] - cijk[None, sel, :]).max(axis=2).min(axis=1) <= mg
        mon.equal("grid.dilate", g.dilate_cells(sel, mg), np.where(D)[0])
        # enclosing grids
        Q = rng.normal(size=(int(rng.integers(2, 20)), 3)) * rng.uniform(0.2, 4, 3) + rng.normal(size=3)
        Q *= unit
        if rng.uniform() < 0.3:
            Q = X
        lo, hi = Q.min(0), Q.max(0)
        if np.all(hi - lo > 1e-3 * unit):
            if rng.uniform() < 0.5:
                hh = (hi - lo) / rng.uniform(1, 6, 3) if rng.uniform() < 0.7 else float((hi - lo).max() / rng.uniform(2, 6))
                pad = int(rng.integers(0, 3))
                kw = dict(h=hh, pad_cells=pad)
                mode = "h"
            else:
                dd = rng.integers(1, 7, 3)
                kw = dict(dims=tuple(dd))
                mode = "dims"
            if rng.uniform() < 0.3:
                kw["origin"] = tuple(lo - rng.uniform(0, 1, 3) * unit)
            if rng.uniform() < 0.3:
                kw["align"] = int(rng.choice([2, 4]))
            f = fe.StructuredGrid.fit(Q, **kw)
            fo, fh = np.asarray(f.origin), np.asarray(f.spacing)
            top = fo + np.array([f.nx, f.ny, f.nz]) * fh
            e = 1e-9 * (unit + np.abs(top).max())
            mon.true("grid.fit_encloses", np.all(Q >= fo - e) and np.all(Q <= top + e), kw=kw)
            mon.true("grid.fit_locates_all", np.all(np.asarray(f.point_cells(Q)) >= 0), kw=kw)
            if mode == "h":
                mon.close("grid.fit_spacing", fh, np.broadcast_to(np.asarray(kw["h"]), 3), rtol=1e-12)
                if "origin" not in kw:
                    mon.true("grid.fit_padding", np.all(fo <= lo - pad * fh + e) and np.all(top >= hi + pad * fh - e), kw=kw)
            elif "origin" not in kw and "align" not in kw:
                mon.true("grid.fit_spans", np.allclose(fo, lo, atol=1e-8 * unit) and np.allclose(top, hi, atol=1e-8 * unit), kw=kw)
            if "align" in kw:
                mon.true("grid.fit_align", all(n % kw["align"] == 0 for n in (f.nx, f.ny, f.nz)))
        # voxelized mesh: every returned cell is touched by a sample of the mesh, every element's centroid cell is returned
        ele = str(rng.choice(["TET4", "HEX8"]))
        pts, cells = some_mesh(rng, ele, small=True)
        f = fe.StructuredGrid.fit(pts, h=float(rng.uniform(0.2, 0.7)))
        vx = fe.spgrid.voxelize_mesh(f, wl.fmesh(pts, cells, ele), subsamples=int(rng.integers(0, 4)))
        cent = f.point_cells(pts[cells].mean(axis=1))
        mon.true("grid.voxelize_mesh_covers", np.isin(cent, vx).all() and np.isin(f.point_cells(pts), vx).all())
        # holes: some elements removed (their nodes too), grid larger than the mesh; every returned cell meets the box of an element
        keep = np.sort(rng.choice(len(cells), int(rng.integers(1, len(cells) + 1)), replace=False))
        used = np.unique(cells[keep])
        P2, C2 = pts[used], np.searchsorted(used, cells[keep])
        lo, hi = pts.min(0), pts.max(0)
        fh = np.asarray(rng.uniform(0.15, 0.4, 3))
        go = lo - rng.uniform(0, 1.5, 3)
        gd = tuple(int(v) for v in np.ceil((hi - go) / fh + rng.uniform(0, 3, 3)).astype(int))
        f2 = fe.StructuredGrid(gd, spacing=tuple(fh), origin=tuple(go))
        sub = int(rng.integers(0, 5))
        v2, v0 = (fe.spgrid.voxelize_mesh(f2, wl.fmesh(P2, C2, ele), subsamples=k) for k in (sub, 0))
        cc = f2.cell_centroids(v2)
        elo, ehi = P2[C2].min(1), P2[C2].max(1)
        meet = np.all((cc[:, None] + 0.5 * fh >= elo[None] - 1e-9) & (cc[:, None] - 0.5 * fh <= ehi[None] + 1e-9), axis=2).any(1)
        mon.true("grid.voxelize_mesh_inside", meet.all(), ele=ele, sub=sub)
        mon.true("grid.voxelize_mesh_more_samples", np.isin(v0, v2).all() and np.all(np.diff(v2) > 0))
        mon.seen("grid", kind, mg, int(np.min(dims)) == 1)


def case_design(case, mon):
    """Random histories of a sparse design store mirrored in a dict."""
    rng = rng_for(case)
    big = case.get("r", 0) % 2 == 0
    dims = (1500, 1400, 1000) if big else tuple(rng.integers(3, 9, 3))
    g = fe.StructuredGrid(dims)
    n = g.num_cells
    draw = lambda k: np.unique(rng.integers(0, min(n, 2 ** 31 - 1), k))
    ids = rng.permutation(draw(int(rng.integers(0, 20))))
    vals = rng.uniform(size=len(ids))
    s, rec = fe.SparseDesign(ids, vals), dict(zip(ids.tolist(), vals.tolist()))
    for _ in range(case["n"]):
        op = str(rng.choice(["update", "gather", "traced", "active", "band", "uniform"]))
        old, orec = s, dict(rec)
        if op == "update":
            ids = rng.permutation(draw(int(rng.integers(1, 10))))
            if rec and rng.uniform() < 0.6:
                ids = np.unique(np.concatenate([ids, rng.choice(list(rec), 3)]))
            vals = rng.uniform(size=len(ids))
            s = s.update(ids, vals) if rng.uniform() < 0.5 else s.updated(ids, vals if rng.uniform() < 0.5 else fe.TracedParams(volume_vars=(jnp.asarray(vals),)))
            rec.update(zip(ids.tolist(), vals.tolist()))
        elif op == "uniform":
            if rng.uniform() < 0.2:
                ids = draw(6)
                s = fe.SparseDesign.uniform(ids, 0.4)
                rec = {int(i): 0.4 for i in ids}
        q = rng.integers(0, n, 12)
        if rec:
            q = np.concatenate([q, rng.choice(list(rec), 6)])
            if big:
                q = np.concatenate([q, rng.choice(list(rec), 3) + 2 ** 32])
        df = float(rng.choice([0.0, 1e-3, -1.0]))
        want = [rec.get(int(i), df) for i in q]
        mon.equal("design.gather", s.gather(q, default=df), want, op=op)
        if op == "traced":
            mon.equal("design.traced", s.traced_params(q, default=df).volume_vars[0], want)
        mon.equal("design.original_kept", old.gather(q, default=df), [orec.get(int(i), df) for i in q])
        thr = float(rng.uniform())
        act = np.array(sorted(i for i, v in rec.items() if v > thr), int)
        mon.equal("design.active", np.sort(s.active_ids(thr)), act)
        if not big:
            mg = int(rng.integers(0, 3))
            keep = draw(2) if rng.uniform() < 0.5 else None
            got = s.band_cells(g, thr, margin=mg, keep_ids=keep)
            cijk = brute_cells(g)
            D = (np.abs(cijk[:, None, :] - cijk[None, act, :]).max(axis=2).min(axis=1) <= mg) if len(act) else np.zeros(len(cijk), bool)
            if keep is not None:
                D[keep] = True
            mon.equal("design.band", np.sort(got), np.where(D)[0])
        mon.event("op_" + op)
    mon.seen("design", big, len(rec) > 5)


def rings(cells, cur, k):
    for _ in range(k):
        nodes = np.unique(cells[cur])
        cur = np.where(np.isin(cells, nodes).any(axis=1))[0]
    return np.asarray(cur)


def case_moving(case, mon):
    """A moving active set through a superset band: whenever no re-extraction is asked for, the
    superset covers the set with its guard; after a re-extraction it is the dilated set."""
    rng = rng_for(case)
    ele = case["ele"]
    pts, cells = some_mesh(rng, ele)
    cen = pts[cells].mean(axis=1)
    m = wl.fmesh(pts, cells, ele)
    margin, guard = int(rng.integers(0, 4)), int(rng.integers(0, 3))
    mgr = fe.narrowband.SupersetBand(m, margin=margin, guard=guard)
    mon.true("moving.first", mgr.needs_reextract(np.array([0])) is True or bool(mgr.needs_reextract(np.array([0]))))
    ext = pts.max(0) - pts.min(0)
    c = pts.min(0) + rng.uniform(size=len(ext)) * ext
    sup = None
    for _ in range(case["steps"]):
        c = np.clip(c + rng.normal(size=len(ext)) * 0.25 * ext, pts.min(0), pts.max(0))
        act = np.where(np.linalg.norm((cen - c) / ext, axis=1) < rng.uniform(0.15, 0.5))[0]
        if not len(act):
            act = np.array([int(np.argmin(np.linalg.norm(cen - c, axis=1)))])
        act = rng.permutation(act)
        need = bool(mgr.needs_reextract(act))
        if sup is not None:
            covered = np.isin(rings(cells, act, guard), sup).all()
            mon.true("moving.decision", need == (not covered), margin=margin, guard=guard)
        if need:
            b = mgr.reextract(act)
            sup = rings(cells, act, margin)
            mon.equal("moving.superset", np.sort(b.active_cells), np.sort(sup))
            mon.event("reextracted")
        else:
            mon.event("reused")
        b = mgr.band
        mon.true("moving.covers", np.isin(act, b.active_cells).all())
        f = rng.normal(size=len(cells))
        mon.equal("moving.map_cells", mgr.map_cells(f), f[b.active_cells])
        w = np.full(len(cells), -2.0)
        w[b.active_cells] = f[b.active_cells]
        mon.equal("moving.scatter_cells", mgr.scatter_cells(mgr.map_cells(f), fill=-2.0), w)
        u = rng.normal(size=(b.num_band_nodes, 2))
        w = np.zeros((len(pts), 2))
        w[b.node_map] = u
        mon.equal("moving.scatter_sol", mgr.scatter_sol(u.ravel(), 2), w.ravel())
    mon.seen("moving", ele, margin, guard)


def case_superset_solve(case, mon):
    """Void outside the active set: the reused superset and a fresh band give the same displacement
    on the active cells to the order of the void stiffness."""
    rng = rng_for(case)
    ele = case["ele"]
    d = ref.DIM[ref.ELE[ele][2]]
    ns = (7, 3) if d == 2 else (5, 2, 2)
    pts, cells = wl.make_mesh(rng, ele, ns, size=np.array([3.0, 1.0, 1.0])[:d], permute=True)
    cen = pts[cells].mean(axis=1)
    m = wl.fmesh(pts, cells, ele)
    void = 1e-9
    mgr = fe.narrowband.SupersetBand(m, margin=1, guard=0)
    tops = [1.05, 0.7, 0.45]
    for step, t in enumerate(tops):
        # a shrinking slab that always joins the clamped end to the loaded one
        act = np.where(cen[:, 1] < max(t, cen[:, 1].min() + 1e-9))[0]
        E = np.full(len(cells), void)
        E[act] = 1.0
        if mgr.needs_reextract(act):
            mgr.reextract(act)
        out = []
        for b in (mgr.band, fe.NarrowBand(m, act)):
            p = elastic(b.mesh, d, ele)
            bc = fe.DirichletBC.from_specs(p, [fe.DirichletBCSpec(wl.side(0, 0.0), "all", 0.0), fe.DirichletBCSpec(wl.side(0, 3.0), 1, -0.1)])
            Eq = jnp.asarray(np.repeat(b.gather_cells(E)[:, None], p.fes[0].num_quads, axis=1))
            tp = fe.TracedParams(volume_vars=(Eq,))
            s = fe.create_solver(p, bc, solver_options=fe.DirectSolverOptions(solver="spsolve"), linear=True, traced_params=tp)
            out.append((b.scatter_sol(np.asarray(s(tp, fe.zero_like_initial_guess(p, bc))), d).reshape(-1, d), b))
        nodes = np.unique(cells[act])
        mon.close("superset.same_solution", out[0][0][nodes], out[1][0][nodes], rtol=1e-6, step=step, ele=ele)
        mon.event("solves", 2)
    mon.seen("superset_solve", ele)


def case_gridband(case, mon):
    """A band of an implicit grid is the same finite-element model as the explicit mesh."""
    rng = rng_for(case)
    g, dims, _ = rand_grid(rng, 2, 4)
    X = np.asarray(g.node_coords(np.arange(g.num_nodes)))
    cn = np.asarray(g.cell_to_nodes(np.arange(g.num_cells)))
    act, kind = subset(rng, g.num_cells, "half")
    E = rng.uniform(0.5, 2, g.num_cells)
    out = []
    b = fe.NarrowBand.from_structured_grid(g, act)
    b2 = fe.NarrowBand(wl.fmesh(X, cn, "HEX8"), act)
    for z in (b, b2):
        p = elastic(z.mesh, 3, "HEX8")
        Eq = jnp.asarray(np.repeat(z.gather_cells(E)[:, None], p.fes[0].num_quads, axis=1))
        K = sps(fe.assembler.get_jacobian(p, [jnp.zeros((z.num_band_nodes, 3))], fe.TracedParams(volume_vars=(Eq,))))
        ix = expand(np.asarray(z.node_map), 3)
        F = sp.lil_matrix((3 * g.num_nodes, 3 * g.num_nodes))
        F[np.ix_(ix, ix)] = K.toarray()
        out.append(F.tocsr())
    # independent reference assembly
    G = ref.Geo(X, cn[act], "HEX8", 2)
    R = np.zeros((3 * g.num_nodes,) * 2)
    for e, c in enumerate(act):
        gN = G.dN[e]                                   # (q, n, 3)
        ke = np.zeros((24, 24))
        for qp in range(gN.shape[0]):
            B = np.zeros((3, 3, 24))
            for a in range(8):
                for k in range(3):
                    B[k, :, 3 * a + k] = gN[qp, a]
            e_ = 0.5 * (B + B.transpose(1, 0, 2))
            tr = np.einsum("iik->k", e_)
            ke += E[c] * G.JxW[e, qp] * (0.6 * np.outer(tr, tr) + 0.8 * np.einsum("ijk,ijl->kl", e_, e_))
        dofs = (cn[c][:, None] * 3 + np.arange(3)).ravel()
        R[np.ix_(dofs, dofs)] += ke
    mon.close("gridband.implicit", out[0].toarray(), R, rtol=1e-9)
    mon.close("gridband.explicit", out[1].toarray(), R, rtol=1e-9)
    mon.seen("gridband", kind, tuple(dims))
