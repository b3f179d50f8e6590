"""C10: periodic and cyclic constraints tie exactly the matching nodes."""
import numpy as np

from harness import ref, wl
from harness.lazy import fe, jax, jnp
from harness.mon import rng_for

ID = "C10"
RULE = ("unit cells of random size (0.02-50), origin (up to 1e3 away), grading, node numbering and element type in 2D/3D: the "
        "prolongation observed against equivalence classes computed from coordinates modulo the period; custom and chained "
        "pairings against union-find; cyclic sectors against the rotation; reduced solves (Krylov, direct, AMG) watched for a "
        "residual that vanishes on every admissible field, membership in the constrained space and pinned values")
ASSUMPTIONS = ["node spacing stays above the documented matching tolerance 1e-5",
               "the assembled residual is taken from the code under test (decided by C01)"]
MIN_EVALUATIONS = 400

E2 = ("TRI3", "TRI6", "QUAD4", "QUAD8", "QUAD9")
E3 = ("TET4", "TET10", "HEX8", "HEX20")


def cases(tier, seed):
    out = []
    q = tier == "quick"
    for r in range(2 if q else 12):
        for e in E2 + E3:
            out.append(dict(kind="pairing", ele=e, n=2 if q else 4, far=bool(r % 2), cost=3))
        out.append(dict(kind="custom", n=4 if q else 8, cost=2))
        out.append(dict(kind="cyclic", dim=2, n=3 if q else 6, cost=2))
        out.append(dict(kind="cyclic", dim=3, n=2 if q else 6, cost=3))
        out.append(dict(kind="masks", n=6, cost=3))
        out.append(dict(kind="reject", cost=3))
    paths = ("cg", "bicgstab", "direct", "amg")
    for r in range(1 if q else 6):
        for path in paths:
            for e in (("QUAD4", "TRI6", "HEX8") if q else E2 + E3):
                if path in ("bicgstab", "amg") and e == "HEX8" and q:
                    continue
                out.append(dict(kind="solve", path=path, ele=e, phys="elastic" if (r + len(e)) % 2 or e == "HEX8" else "diff", cost=9))
        for path in ("cg", "direct"):
            out.append(dict(kind="cyclic_solve", path=path, dim=2, cost=8))
        out.append(dict(kind="cyclic_solve", path="direct" if r % 2 else "cg", dim=3, cost=10))
    return [dict(c, seed=seed, i=n) for n, c in enumerate(out)]


# ------------------------------------------------------------------ workload
def periodic_points(rng, ele, ns, size, origin, amp=0.25):
    """Structured mesh with matching faces: translation-periodic smooth distortion."""
    d = len(ns)
    pts, cells = wl.make_mesh(rng, ele, ns, np.ones(d), np.zeros(d))
    s = pts
    out = s.copy()
    for i in range(d):
        o = (i + 1) % d
        out[:, i] += amp / ns[i] * np.sin(np.pi * s[:, i]) ** 2 * np.cos(2 * np.pi * s[:, o] + rng.uniform(0, 6))
        g = rng.uniform(-0.3, 0.3) / np.pi                # monotone grading that fixes both ends
        out[:, i] = out[:, i] + g * 0.5 * np.sin(2 * np.pi * out[:, i])
    onb = (s < 1e-12) | (s > 1 - 1e-12)
    out = np.where(onb, np.round(s), out)
    return origin + out * size, cells, out


def cell_of(pts, cells, ele, **kw):
    from feax.flat.unitcell import UnitCell

    class U(UnitCell):
        def mesh_build(self, **k):
            return wl.fmesh(pts, cells, ele)
    return U(**kw)


def classes_mod(s):
    """Class id of every node: coordinates in units of the period, modulo 1."""
    w = np.where(np.abs(s - 1) < 1e-7, 0.0, s)
    key = np.round(w * 1e6).astype(np.int64)
    _, inv = np.unique(key, axis=0, return_inverse=True)
    return inv.ravel()


def dense(P):
    D = np.zeros(P.shape)
    idx = np.asarray(P.indices)
    dat = np.asarray(P.data)
    if idx.size and (idx.min() < 0 or np.any(idx.max(0) >= np.array(P.shape))):
        return None
    np.add.at(D, (idx[:, 0], idx[:, 1]), dat)
    return D


def check_tied(mon, tag, P, dofclass):
    """P must have one unit entry per row and its columns must be exactly the classes."""
    D = dense(P)
    if not mon.true(tag + ".indices_in_range", D is not None, shape=P.shape):
        return None
    n = len(dofclass)
    nc = len(np.unique(dofclass))
    mon.equal(tag + ".full_unknowns", D.shape[0], n)
    if not mon.equal(tag + ".independent_unknowns", D.shape[1], nc) or D.shape[0] != n:
        return D
    mon.close(tag + ".row_sum", D.sum(1), np.ones(n), rtol=1e-14)
    mon.equal(tag + ".entries_per_row", int((D != 0).sum(1).max()), 1)
    col = D.argmax(1)
    pairs = np.unique(np.stack([col, dofclass], 1), axis=0)
    # a bijection columns <-> classes: nobody tied to a foreign node, nobody left out
    mon.true(tag + ".same_class_same_column", len(pairs) == nc, pairs=len(pairs), classes=nc)
    mon.true(tag + ".every_column_used", len(np.unique(col)) == nc)
    # a random reduced vector becomes an exactly tied field
    return D


def random_cell(rng, ele, far, scale=True, nmax=3):
    d = ref.DIM[ref.ELE[ele][2]]
    ns = tuple(rng.integers(1, nmax + (2 if d == 2 else 1), d))
    size = 10 ** rng.uniform(-1.5, 1.6, d) if scale else rng.uniform(0.7, 1.6, d)
    if scale and rng.random() < 0.3:
        size = np.ones(d) * 10 ** rng.uniform(-1.5, 1.6)
    origin = rng.uniform(-1000, 1000, d) if far else rng.choice([0.0, 1.0, -1.0], d) * size * rng.uniform(0, 3, d)
    if rng.random() < 0.2:
        origin = -size / 2                                # centred cell
    return d, ns, size, origin


def case_pairing(case, mon):
    from feax.flat import pbc
    rng = rng_for(case)
    for it in range(case["n"]):
        d, ns, size, origin = random_cell(rng, case["ele"], case["far"])
        kw = {}
        if not case["far"] and it % 2:                    # microscopic or very large cells, in any unit
            f = 10 ** (rng.uniform(-7, -3.5) if rng.random() < 0.7 else rng.uniform(2, 4))
            size = rng.uniform(0.7, 1.6, d) * f
            origin = rng.choice([0.0, 1.0, -1.0], d) * size * rng.uniform(0, 3, d)
            kw = dict(atol=1e-6 * f)
        pts, cells, s = periodic_points(rng, case["ele"], ns, size, origin)
        uc = cell_of(pts, cells, case["ele"], **kw)
        vec = int(rng.integers(1, 4))
        fn = pbc.periodic_bc_2D if d == 2 else pbc.periodic_bc_3D
        pairings = fn(uc, vec=vec, dim=d)
        P = pbc.prolongation_matrix(pairings, uc.mesh, vec)
        nc = classes_mod(s)
        dc = (nc[:, None] * vec + np.arange(vec)).ravel()
        D = check_tied(mon, "pairing", P, dc)
        mon.event("nodes_classified", len(pts))
        mon.seen("pairing", case["ele"], case["far"], vec, str(ns))
        if D is None or D.shape[1] != len(np.unique(dc)):
            continue
        q = rng.normal(size=D.shape[1])
        u = np.asarray(P @ jnp.asarray(q)).reshape(-1, vec)
        for a in range(d):                                # direct look at the opposite faces
            lo, hi = np.where(s[:, a] < 1e-9)[0], np.where(s[:, a] > 1 - 1e-9)[0]
            oth = [b for b in range(d) if b != a]
            sl = lo[np.lexsort(np.round(s[lo][:, oth], 7).T)]
            sh = hi[np.lexsort(np.round(s[hi][:, oth], 7).T)]
            mon.close("pairing.field_periodic", u[sh], u[sl], rtol=1e-13, scale=1.0)


def _union(n, pairs):
    par = list(range(n))

    def find(a):
        while par[a] != a:
            par[a] = par[par[a]]
            a = par[a]
        return a
    for a, b in pairs:
        par[find(a)] = find(b)
    return np.array([find(a) for a in range(n)])


def case_custom(case, mon):
    """User-made pairings: one direction, some components, chains through interior planes, any order."""
    from feax.flat import pbc
    rng = rng_for(case)
    for it in range(case["n"]):
        ele = str(rng.choice(["QUAD4", "QUAD8", "HEX8", "TRI3"]))
        d = ref.DIM[ref.ELE[ele][2]]
        ns = tuple(rng.integers(2, 5, d))
        size, origin = rng.uniform(0.7, 2, d), rng.uniform(-3, 3, d)
        pts, cells = wl.make_mesh(rng, ele, ns, size, origin)
        m = wl.fmesh(pts, cells, ele)
        vec = int(rng.integers(1, 4))
        ax = int(rng.integers(0, d))
        planes = [float(origin[ax]), float(origin[ax] + size[ax])]
        if ns[ax] >= 2 and rng.random() < 0.6:
            planes.insert(1, float(origin[ax] + size[ax] / ns[ax] * int(rng.integers(1, ns[ax]))))
        links = list(zip(planes[:-1], planes[1:]))
        if len(planes) == 3 and rng.random() < 0.4:       # star instead of a chain
            links = [(planes[0], planes[1]), (planes[0], planes[2])]
        if rng.random() < 0.5:
            links = [(b, a) for a, b in links] if len(links) == 1 else links
        rng.shuffle(links)
        comps = rng.permutation(vec)[:int(rng.integers(1, vec + 1))]
        pairings, truth = [], []
        for a, b in links:
            sh = np.zeros(d)
            sh[ax] = b - a
            A = np.where(np.abs(pts[:, ax] - a) < 1e-8)[0]
            B = np.where(np.abs(pts[:, ax] - b) < 1e-8)[0]
            dist = np.linalg.norm(pts[A][:, None] + sh - pts[B][None], axis=-1)
            for c in comps:
                pairings.append(pbc.PeriodicPairing(wl.side(ax, a), wl.side(ax, b), lambda p, sh=sh: p + sh, int(c)))
                truth += [(int(A[i]) * vec + int(c), int(B[j]) * vec + int(c)) for i, j in zip(*np.where(dist < 1e-8))]
        P = pbc.prolongation_matrix(pairings, m, vec)
        check_tied(mon, "custom", P, _union(len(pts) * vec, truth))
        mon.seen("custom", ele, vec, len(comps), len(links), str(ns))
    # two masters for one slave is contradictory
    pr = [pbc.PeriodicPairing(wl.side(0, float(origin[0])), wl.side(0, float(origin[0] + size[0])),
                              lambda p: p + np.eye(d)[0] * size[0], 0)] * 2
    mon.raises("custom.double_slave_rejected", lambda: pbc.prolongation_matrix(pr, m, vec))
    bad = [pbc.PeriodicPairing(wl.side(0, float(origin[0])), wl.side(0, float(origin[0] + size[0])),
                               lambda p: p + np.eye(d)[0] * size[0] * 1.01 + 0.013, 0)]
    mon.raises("custom.unmatched_rejected", lambda: pbc.prolongation_matrix(bad, m, vec))


# ------------------------------------------------------------------ cyclic
def sector(rng, dim, axis=2):
    """Annular sector, cut faces not necessarily on coordinate planes."""
    N = int(rng.integers(3, 13))
    al = 2 * np.pi / N
    t0 = rng.uniform(-3, 3)
    ns = (int(rng.integers(1, 4)), int(rng.integers(1, 4))) + ((int(rng.integers(1, 3)),) if dim == 3 else ())
    ele = str(rng.choice(["QUAD4", "QUAD8"])) if dim == 2 else "HEX8"
    s, cells = wl.make_mesh(rng, ele, ns, np.ones(dim), np.zeros(dim))
    ctr = rng.uniform(-2, 2, 2)
    r, th = 0.5 + s[:, 0] * rng.uniform(0.5, 1.5), t0 + al * s[:, 1]
    xy = np.stack([r * np.cos(th), r * np.sin(th)], 1) + ctr
    R2 = np.array([[np.cos(al), -np.sin(al)], [np.sin(al), np.cos(al)]])
    if dim == 2:
        return xy, cells, ele, s, R2, np.asarray(ctr), N
    ax = [(1, 2), (2, 0), (0, 1)][axis]
    X = np.zeros((len(s), 3))
    X[:, ax[0]], X[:, ax[1]], X[:, axis] = xy[:, 0], xy[:, 1], s[:, 2] * 0.7
    R = np.eye(3)
    R[np.ix_(ax, ax)] = R2
    c3 = np.zeros(3)
    c3[list(ax)] = ctr
    return X, cells, ele, s, R, c3, N


def sector_P(mon, rng, pts, cells, ele, s, R, ctr, back=False, tag="cyclic"):
    from feax.flat import pbc
    m = wl.fmesh(pts, cells, ele)
    dim = pts.shape[1]
    lo, hi = np.where(s[:, 1] < 1e-9)[0], np.where(s[:, 1] > 1 - 1e-9)[0]
    if back:
        lo, hi, R = hi, lo, R.T

    def near(ids):
        Q = jnp.asarray(pts[ids])
        return lambda p: jnp.min(jnp.linalg.norm(Q - p, axis=-1)) < 1e-8
    P = pbc.cyclic_prolongation_matrix(m, dim, near(lo), near(hi), R, lambda p: R @ (p - ctr) + ctr)
    D = dense(P)
    n = len(pts) * dim
    mon.equal(tag + ".independent_unknowns", P.shape, (n, n - dim * len(hi)))
    if not mon.true(tag + ".indices_in_range", D is not None):
        return m, P, None, lo, hi, R
    q = rng.normal(size=P.shape[1])
    u = np.asarray(P @ jnp.asarray(q)).reshape(-1, dim)
    dist = np.linalg.norm((pts[lo] - ctr) @ R.T + ctr - pts[hi][:, None], axis=-1)
    part = dist.argmin(1)
    mon.close(tag + ".slave_is_rotated_master", u[hi], u[lo[part]] @ R.T, rtol=1e-12)
    mon.equal(tag + ".no_unknown_lost", int(np.linalg.matrix_rank(D)), P.shape[1])
    free = np.setdiff1d(np.arange(len(pts)), hi)
    Df = D[(free[:, None] * dim + np.arange(dim)).ravel()]
    mon.true(tag + ".unpaired_nodes_free", np.array_equal(np.sort(Df.argmax(1)), np.arange(P.shape[1]))
             and np.all(Df.sum(1) == 1) and np.all((Df != 0).sum(1) == 1))
    # oracle prolongation built from geometry
    O = np.zeros((n, len(free) * dim))
    pos = {int(a): i for i, a in enumerate(free)}
    for a in free:
        O[a * dim:(a + 1) * dim, pos[int(a)] * dim:(pos[int(a)] + 1) * dim] = np.eye(dim)
    for h, k in zip(hi, part):
        j = pos[int(lo[k])]
        O[h * dim:(h + 1) * dim, j * dim:(j + 1) * dim] = R
    return m, P, O, lo, hi, R


def case_cyclic(case, mon):
    rng = rng_for(case)
    for _ in range(case["n"]):
        ax = int(rng.integers(0, 3))
        pts, cells, ele, s, R, ctr, N = sector(rng, case["dim"], ax)
        sector_P(mon, rng, pts, cells, ele, s, R, ctr, back=bool(rng.random() < 0.4))
        mon.seen("cyclic", case["dim"], ele, N, ax)


# ------------------------------------------------------------------ geometry queries
def case_masks(case, mon):
    rng = rng_for(case)
    for it in range(case["n"]):
        ele = str(rng.choice(["HEX8", "HEX20", "QUAD4", "QUAD8", "TET10"]))
        d, ns, size, origin = random_cell(rng, ele, bool(rng.random() < 0.5))
        if it % 3 == 2:                                   # a fine cell cut out far from the origin
            ns = tuple(rng.integers(3, 5, d))
            size = np.ones(d) * 10 ** rng.uniform(-1.7, -1.0)
            origin = rng.choice([-1.0, 1.0], d) * rng.uniform(800, 2000, d)
        pts, cells, s = periodic_points(rng, ele, ns, size, origin)
        uc = cell_of(pts, cells, ele)
        hits = ((s < 1e-9) | (s > 1 - 1e-9)).sum(1)
        mon.equal("masks.corner", np.asarray(uc.corner_mask), hits == d)
        mon.equal("masks.edge", np.asarray(uc.edge_mask), hits == d - 1)
        if d == 3:
            mon.equal("masks.face", np.asarray(uc.face_mask), hits == 1)
        mon.close("masks.lower", np.asarray(uc.bounds[0]), pts.min(0), rtol=0)
        mon.close("masks.upper", np.asarray(uc.bounds[1]), pts.max(0), rtol=0)
        C = np.asarray(uc.corners)
        want = np.array(np.meshgrid(*[[pts[:, a].min(), pts[:, a].max()] for a in range(d)], indexing="ij")).reshape(d, -1).T
        mon.close("masks.corners", C[np.lexsort(C.T)], want[np.lexsort(want.T)], rtol=1e-13, scale=np.abs(want).max())
        mon.close("masks.centres", np.asarray(uc.cell_centers), pts[cells].mean(1), rtol=1e-12, scale=np.abs(pts).max())
        a = int(rng.integers(0, d))
        for side_, val in ((0, pts[:, a].min()), (1, pts[:, a].max())):
            on = np.abs(s[:, a] - side_) < 1e-9
            f = np.asarray(jax.vmap(uc.face_function(a, float(val)))(uc.points))
            mon.equal("masks.face_function", f, on)
            f = np.asarray(jax.vmap(uc.face_function(a, float(val), excluding_corner=True))(uc.points))
            mon.equal("masks.face_without_corners", f, on & (hits < d))
            f = np.asarray(jax.vmap(uc.face_function(a, float(val), excluding_edge=True))(uc.points))
            mon.equal("masks.face_without_edges", f, on & (hits < d - 1))
        mon.seen("masks", ele, str(ns))


# ------------------------------------------------------------------ reduced solves
def _opts(path):
    if path in ("cg", "bicgstab", "gmres"):
        return fe.KrylovSolverOptions(solver=path, tol=1e-12, atol=1e-14, maxiter=5000)
    if path == "amg":
        return fe.AMGSolverOptions(tol=1e-12, atol=1e-14, maxiter=2000)
    return fe.DirectSolverOptions()


def _physics(phys, dim, seed):
    ph = np.random.default_rng(seed).uniform(0, 6, 6)

    class P(fe.problem.Problem):
        def get_tensor_map(self):
            if phys == "diff":
                return lambda g, k: k * g
            return lambda g, E: wl.stress_lin(jnp, g, E)

        def get_mass_map(self):
            c0 = 0.4 if phys != "elastic_pin" else 0.0

            def mass(u, x, k):
                f = jnp.stack([jnp.sin(ph[i] + (i + 1) * x[0] - x[1]) for i in range(u.shape[0])])
                return c0 * u - f
            return mass
    return P


def _observe(mon, tag, c, D, u, ig, rtol):
    """u is ig + admissible, keeps pins, and is in equilibrium against every admissible field."""
    brow = np.asarray(c.bc.bc_rows)
    q, *_ = np.linalg.lstsq(D, u - ig, rcond=None)
    mon.close(tag + ".in_constrained_space", D @ q, u - ig, rtol=1e-10, scale=np.abs(u).max())
    if len(brow):
        mon.close(tag + ".pinned_value", u[brow], np.asarray(c.bc.bc_vals), rtol=1e-9, atol=1e-12)
    r = c.res(u)
    pinned = np.zeros(len(u), bool)
    pinned[brow] = True
    adm = D[:, ~np.any(D[pinned] != 0, axis=0)]
    K = c.K(u)
    scale = np.abs(adm.T @ (np.abs(K) @ np.abs(u))).max() + 1e-12
    mon.close(tag + ".equilibrium_on_admissible_fields", adm.T @ r, np.zeros(adm.shape[1]), rtol=rtol, scale=scale)
    # dense reference
    A = adm.T @ K @ adm
    base = ig.copy()
    base[brow] = np.asarray(c.bc.bc_vals)
    y = np.linalg.solve(A, -(adm.T @ c.res(base)))
    mon.close(tag + ".equals_dense_reference", u, base + adm @ y, rtol=max(rtol * np.linalg.cond(A) * 10, 1e-9) if rtol > 1e-9 else 1e-7,
              scale=np.abs(u).max())


def case_solve(case, mon):
    from feax.flat import pbc
    rng = rng_for(case)
    ele, path, phys = case["ele"], case["path"], case["phys"]
    d = ref.DIM[ref.ELE[ele][2]]
    _, _, size, origin = random_cell(rng, ele, False, scale=False)
    origin = rng.uniform(-3, 3, d)
    ns = (3, 2) if d == 2 else (2, 2, 2)
    if ele in ("HEX20", "TET10"):
        ns = (2, 1, 1)
    pts, cells, s = periodic_points(rng, ele, ns, size, origin)
    vec = 1 if phys == "diff" else d
    # a pin needs an interior node: only elements that have one here
    inner = np.where(np.all((s > 1e-6) & (s < 1 - 1e-6), axis=1))[0]
    pin = len(inner) > 0 and rng.random() < 0.6
    m = wl.fmesh(pts, cells, ele)
    one_way = rng.random() < 0.3
    # tied in x only, a 3D body can still spin about x: keep the foundation term then
    bare = pin and phys == "elastic" and not (one_way and d == 3)
    P_ = _physics("elastic_pin" if bare else phys, d, int(rng.integers(1 << 30)))
    p = P_(m, vec=vec, dim=d, ele_type=ele)
    uc = cell_of(pts, cells, ele)
    pairings = (pbc.periodic_bc_2D if d == 2 else pbc.periodic_bc_3D)(uc, vec=vec, dim=d)
    nc = classes_mod(s)
    if one_way:                                            # tie the x direction only
        sh = np.eye(d)[0] * size[0]
        pairings = [pbc.PeriodicPairing(wl.side(0, float(origin[0])), wl.side(0, float(pts[:, 0].max())),
                                        lambda q_: q_ + sh, c) for c in range(vec)]
        s1 = s.copy()
        s1[:, 1:] = s1[:, 1:] * 0.5
        nc = classes_mod(s1)
    P = pbc.prolongation_matrix(pairings, m, vec)
    dc = (nc[:, None] * vec + np.arange(vec)).ravel()
    if check_tied(mon, "solve.P", P, dc) is None:
        return
    ncol = len(np.unique(dc))
    D = np.zeros((len(dc), ncol))
    D[np.arange(len(dc)), np.unique(dc, return_inverse=True)[1].ravel()] = 1
    specs = []
    if pin:
        a = int(rng.choice(inner))
        Q = jnp.asarray(pts[a])
        specs = [fe.DirichletBCSpec(lambda x: jnp.linalg.norm(x - Q) < 1e-8, "all" if vec > 1 else 0,
                                    float(rng.uniform(-.2, .2)))]
    bc = fe.DirichletBC.from_specs(p, specs) if specs else fe.DirichletBCConfig([]).create_bc(p)
    if pin:
        mon.equal("solve.pin_rows", len(np.asarray(bc.bc_rows)), vec)
    tp = fe.TracedParams(volume_vars=(jnp.asarray(rng.uniform(.6, 1.6, len(cells))),), surface_vars=[])
    c = wl.Case(p=p, tp=tp, bc=bc, pts=pts, cells=cells)
    ig = np.zeros(c.n)
    if rng.random() < 0.5 and not pin:                     # macroscopic affine part, as in homogenization
        H = rng.normal(size=(vec, d)) * 0.1
        ig = ((pts - origin) @ H.T).ravel()
    so = _opts(path)
    solver = fe.create_solver(p, bc, solver_options=so, adjoint_solver_options=so, P=P, linear=True, traced_params=tp)
    out = solver(tp, initial_guess=jnp.asarray(ig)) if np.any(ig) else solver(tp)
    u = np.asarray(wl.dofs_of(out))
    mon.event("reduced_solves")
    _observe(mon, "solve", c, D, u, ig, 1e-8)
    mon.seen("solve", path, ele, phys, pin, one_way, bool(np.any(ig)))
    # another load on the same solver
    tp2 = fe.TracedParams(volume_vars=(tp.volume_vars[0] * jnp.asarray(rng.uniform(.5, 2, len(cells))),), surface_vars=[])
    c2 = wl.Case(p=p, tp=tp2, bc=bc, pts=pts, cells=cells)
    u2 = np.asarray(wl.dofs_of(solver(tp2)))
    _observe(mon, "solve.again", c2, D, u2, np.zeros(c.n), 1e-8)


def case_cyclic_solve(case, mon):
    rng = rng_for(case)
    dim = case["dim"]
    ax = int(rng.integers(0, 3))
    pts, cells, ele, s, R, ctr, N = sector(rng, dim, ax)
    m, P, O, lo, hi, R = sector_P(mon, rng, pts, cells, ele, s, R, ctr, back=bool(rng.random() < 0.4), tag="cyclic_solve.P")
    p = _physics("elastic", dim, int(rng.integers(1 << 30)))(m, vec=dim, dim=dim, ele_type=ele)
    bc = fe.DirichletBCConfig([]).create_bc(p)
    tp = fe.TracedParams(volume_vars=(jnp.asarray(rng.uniform(.6, 1.6, len(cells))),), surface_vars=[])
    c = wl.Case(p=p, tp=tp, bc=bc, pts=pts, cells=cells)
    so = _opts(case["path"])
    u = np.asarray(wl.dofs_of(fe.create_solver(p, bc, solver_options=so, adjoint_solver_options=so, P=P, linear=True,
                                               traced_params=tp)(tp)))
    mon.event("reduced_solves")
    _observe(mon, "cyclic_solve", c, O, u, np.zeros(c.n), 1e-8)
    mon.seen("cyclic_solve", case["path"], dim, ele, N, ax)


def case_reject(case, mon):
    """A pin on part of a tied class cannot be honoured, so it has to be refused."""
    from feax.flat import pbc
    rng = rng_for(case)
    d = 2
    size, origin = rng.uniform(0.7, 1.6, d), rng.uniform(-2, 2, d)
    pts, cells, s = periodic_points(rng, "QUAD4", (4, 4), size, origin)  # AMG needs more than its coarse size
    m = wl.fmesh(pts, cells, "QUAD4")
    uc = cell_of(pts, cells, "QUAD4")
    P_ = _physics("diff", d, 1)
    p = P_(m, vec=1, dim=d, ele_type="QUAD4")
    P = pbc.prolongation_matrix(pbc.periodic_bc_2D(uc, 1, 2), m, 1)
    nc = classes_mod(s)
    tp = fe.TracedParams(volume_vars=(jnp.asarray(rng.uniform(.6, 1.6, len(cells))),), surface_vars=[])

    def bc_at(ids, val=0.1):
        Q = jnp.asarray(pts[ids])
        return fe.DirichletBC.from_specs(p, [fe.DirichletBCSpec(
            lambda x: jnp.min(jnp.linalg.norm(Q - x, axis=-1)) < 1e-8, 0, val)])
    sizes = np.bincount(nc)
    for path in ("cg", "direct", "amg"):
        so = _opts(path)
        k = int(rng.choice(np.where(sizes > 1)[0]))
        mem = np.where(nc == k)[0]
        part = rng.permutation(mem)[:int(rng.integers(1, len(mem)))]
        mon.raises("reject.partial_class", lambda: fe.create_solver(
            p, bc_at(part), solver_options=so, adjoint_solver_options=so, P=P, linear=True, traced_params=tp),
            ValueError, path=path)
        bc = bc_at(mem)
        c = wl.Case(p=p, tp=tp, bc=bc, pts=pts, cells=cells)
        u = np.asarray(wl.dofs_of(fe.create_solver(p, bc, solver_options=so, adjoint_solver_options=so, P=P, linear=True,
                                                   traced_params=tp)(tp)))
        D = np.zeros((len(nc), nc.max() + 1))
        D[np.arange(len(nc)), nc] = 1
        _observe(mon, "reject.whole_class", c, D, u, np.zeros(c.n), 1e-8)
    mon.seen("reject")
