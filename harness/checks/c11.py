"""C11: the homogenized stiffness is the true effective stiffness of the unit cell."""
import os
import tempfile

import numpy as np

from harness import ref, wl
from harness.checks.c10 import cell_of, classes_mod, periodic_points
from harness.lazy import fe, jax, jnp
from harness.mon import rng_for

ID = "C11"
RULE = ("random periodic unit cells (element type, size, origin, grading, numbering), phase fields (per cell, node, quadrature "
        "point), contrasts to 1e3, isotropic and fully anisotropic phases: C_hom observed against the dense energy form "
        "of the same cell, closed forms (homogeneous, laminates), Voigt/Reuss bounds, shifted copies and its sensitivity; "
        "averages, lattice indicator fields and directional moduli against direct evaluation")
ASSUMPTIONS = ["linear elasticity (as documented)", "the assembled residual is decided by C01"]
MIN_EVALUATIONS = 200

V2 = [(0, 0), (1, 1), (0, 1)]
V3 = [(0, 0), (1, 1), (2, 2), (1, 2), (0, 2), (0, 1)]


def cases(tier, seed):
    out = []
    q = tier == "quick"
    for r in range(2 if q else 10):
        for e, lay in (("QUAD4", "cell"), ("QUAD4", "node"), ("TRI3", "quad"), ("QUAD8", "cell"), ("TRI6", "node"),
                       ("QUAD9", "quad"), ("QUAD4", "uniform")):
            out.append(dict(kind="cell", ele=e, lay=lay, ani=bool((r + len(e)) % 2), cost=8))
        for opt in ("default", "direct"):
            out.append(dict(kind="cell", ele="QUAD4", lay="cell", ani=bool(r % 2), opt=opt, cost=8))
        out.append(dict(kind="cell", ele="QUAD4", lay="cell", ani=bool(r % 2), opt="default", fine=True, cost=12))
        for e, lay in (("QUAD4", "cell"), ("TRI6", "node"), ("HEX8", "quad")):
            out.append(dict(kind="cell", ele=e, lay=lay, ani=bool(r % 2), units=True, cost=8))
        out.append(dict(kind="cell", ele="HEX8", lay="cell", ani=True, cost=20))
        out.append(dict(kind="cell", ele="TET4", lay="node", ani=False, cost=20))
        out.append(dict(kind="laminate", dim=2, cost=8))
        out.append(dict(kind="laminate", dim=3, cost=20))
        out.append(dict(kind="homogeneous", ele="HEX8" if r % 2 == 0 else "TET4", cost=18))
        out.append(dict(kind="odd", ele=("QUAD4", "HEX8", "TRI6")[r % 3], cost=10))
        out.append(dict(kind="shift", cost=8))
        out.append(dict(kind="gradient", cost=12))
    for r in range(2 if q else 10):
        out.append(dict(kind="average", dim=2 + r % 2, cost=3))
        out.append(dict(kind="lattice", n=3 if q else 8, cost=2))
        out.append(dict(kind="modulus", n=3 if q else 8, cost=3))
    return [dict(c, seed=seed, i=n) for n, c in enumerate(out)]


# ------------------------------------------------------------------ oracle pieces
def spd(rng, d):
    """Random anisotropic stiffness in Voigt form."""
    n = 3 if d == 2 else 6
    A = rng.normal(size=(n, n))
    return A @ A.T / n + np.eye(n)


def full_tensor(C, d):
    V = V2 if d == 2 else V3
    T = np.zeros((d,) * 4)
    for a, (i, j) in enumerate(V):
        for b, (k, l) in enumerate(V):
            for x, y in {(i, j), (j, i)}:
                for z, w in {(k, l), (l, k)}:
                    T[x, y, z, w] = C[a, b]
    return T


def make_problem(m, d, ele, T):
    Tj = None if T is None else jnp.asarray(T)

    class P(fe.problem.Problem):
        def get_tensor_map(self):
            if Tj is None:
                return lambda g, E: wl.stress_lin(jnp, g, E)
            return lambda g, E: E * jnp.einsum("ijkl,kl->ij", Tj, g)
    return P(m, vec=d, dim=d, ele_type=ele)


def macro_fields(pts, d, org=0.0):
    V = V2 if d == 2 else V3
    out = []
    for i, j in V:
        e = np.zeros((d, d))
        if i == j:
            e[i, i] = 1
        else:
            e[i, j] = e[j, i] = 0.5
        out.append(((pts - org) @ e.T).ravel())
    return np.array(out).T


def dense_hom(K, pts, s, d, V, org):
    """C_kl = a(u_k, u_l)/|Y| with u_l = macro_l + periodic corrector (energy form)."""
    nc = classes_mod(s)
    dc = (nc[:, None] * d + np.arange(d)).ravel()
    D = np.zeros((len(dc), dc.max() + 1))
    D[np.arange(len(dc)), dc] = 1
    U = macro_fields(pts, d, org)
    A = D.T @ K @ D
    tr = np.zeros((A.shape[0], d))
    for c in range(d):
        tr[c::d, c] = 1
    A = A + np.abs(A).max() * tr @ tr.T / A.shape[0]       # fix the translations, orthogonally
    q = np.linalg.solve(A, -(D.T @ (K @ U)))
    W = U + D @ q
    return U.T @ K @ W / V, W, U


def build(rng, ele, lay, ani, ns=None, contrast=None, uniform=False, unit=(1.0, 1.0)):
    d = ref.DIM[ref.ELE[ele][2]]
    ns = ns or ((3, 3) if d == 2 else (2, 2, 2))
    size, org = rng.uniform(0.6, 2.5, d) * unit[0], rng.uniform(-4, 4, d) * unit[0]
    pts, cells, s = periodic_points(rng, ele, ns, size, org, amp=0.0 if uniform else 0.2)
    m = wl.fmesh(pts, cells, ele)
    T = full_tensor(spd(rng, d), d) if ani else None
    p = make_problem(m, d, ele, T)
    n = {"cell": len(cells), "node": len(pts)}.get(lay)
    contrast = contrast or 10 ** rng.uniform(0.3, 3 if lay == "cell" else 1.5)
    if lay == "quad":
        E = contrast ** rng.uniform(0, 1, (len(cells), p.fes[0].num_quads))
    elif lay == "uniform":
        E = np.full(len(pts), contrast)
    elif lay == "node":                                    # nodal field has to be periodic to describe a cell
        nc = classes_mod(s)
        E = (contrast ** rng.uniform(0, 1, nc.max() + 1))[nc]
    else:
        E = contrast ** rng.choice([0.0, 1.0, 0.5], n)
    E = E * unit[1]
    return wl.Case(unit=unit, p=p, mesh=m, pts=pts, cells=cells, s=s, d=d, size=size, org=org, T=T, ele=ele,
                   tp=fe.TracedParams(volume_vars=(jnp.asarray(E),), surface_vars=[]), E=E,
                   bc=fe.DirichletBCConfig([]).create_bc(p))


def hom_solver(c, tol=1e-11, opt=None, krylov="cg"):
    from feax.flat import pbc
    from feax.flat.solver import create_homogenization_solver
    L0, E0 = getattr(c, "unit", (1.0, 1.0))
    uc = cell_of(c.pts, c.cells, c.ele, **(dict(atol=1e-6 * L0) if L0 != 1 else {}))
    P = pbc.prolongation_matrix((pbc.periodic_bc_2D if c.d == 2 else pbc.periodic_bc_3D)(uc, c.d, c.d), c.mesh, c.d)
    if opt == "default":
        return create_homogenization_solver(c.p, c.bc, P, c.mesh, dim=c.d)
    if opt == "direct":                                    # without a GPU this falls back, with the same answer
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return create_homogenization_solver(c.p, c.bc, P, c.mesh, dim=c.d, solver_options=fe.DirectSolverOptions())
    return create_homogenization_solver(c.p, c.bc, P, c.mesh, dim=c.d, solver_options=fe.KrylovSolverOptions(
        solver=krylov, tol=tol, atol=1e-14 if L0 == 1 else 0.0, maxiter=20000))


def quad_strain(c, W):
    """Symmetric displacement gradient of column fields at quadrature points, from harness elements."""
    g = ref.Geo(c.pts, c.cells, c.ele, degree=4)
    cu = W.reshape(len(c.pts), c.d, -1)[c.cells]           # (cell, a, v, case)
    G = np.einsum("cqai,cavk->cqvik", g.dN, cu)
    return 0.5 * (G + np.swapaxes(G, 2, 3)), g.JxW


def bounds_ok(mon, tag, C, Cs, w):
    """Reuss <= C <= Voigt in the sense of quadratic forms (Cs per sample, w weights summing to 1)."""
    voigt = np.einsum("q,qij->ij", w, Cs)
    reuss = np.linalg.inv(np.einsum("q,qij->ij", w, np.linalg.inv(Cs)))
    sc = np.abs(voigt).max()
    mon.true(tag + ".below_parallel_bound", np.linalg.eigvalsh(voigt - (C + C.T) / 2).min() > -1e-6 * sc,
             min=float(np.linalg.eigvalsh(voigt - C).min()))
    mon.true(tag + ".above_series_bound", np.linalg.eigvalsh((C + C.T) / 2 - reuss).min() > -1e-6 * sc,
             min=float(np.linalg.eigvalsh(C - reuss).min()))


def iso_C(d, E, nu=0.3):
    lam, mu = wl.lame(E, nu)
    n = 3 if d == 2 else 6
    C = np.zeros((n, n))
    C[:d, :d] = lam
    C[range(d), range(d)] += 2 * mu
    C[range(d, n), range(d, n)] = mu
    return C


def case_cell(case, mon):
    rng = rng_for(case)
    opt = case.get("opt")
    fine = case.get("fine")                                # enough cells and contrast for a long iteration
    c = build(rng, case["ele"], case["lay"], case["ani"], ns=(16, 17) if fine else None,
              contrast=1e3 if fine else 10 ** rng.uniform(.3, 1.5) if opt else None,
              unit=wl.random_unit(rng) if case.get("units") else (1.0, 1.0))
    out = hom_solver(c, opt=opt)(c.tp)
    C = np.asarray(out.C_hom)
    n = 3 if c.d == 2 else 6
    mon.equal("cell.shape", C.shape, (n, n))
    K = c.K(np.zeros(c.n))
    Cref, W, U = dense_hom(K, c.pts, c.s, c.d, np.prod(c.size), c.org)
    sc = np.abs(Cref).max()
    contrast = float(np.max(c.E) / np.min(c.E))
    rt = 1e-4 if opt else 1e-6
    mon.close("cell.equals_energy_form", C, Cref, rtol=rt, scale=sc, contrast=contrast)
    mon.close("cell.symmetric", C, C.T, rtol=rt, scale=sc)
    ev = np.linalg.eigvalsh((C + C.T) / 2)
    mon.true("cell.positive_definite", ev.min() > 0, min=float(ev.min()))
    ut, um = np.asarray(out.u_totals), np.asarray(out.u_macros)
    mon.equal("cell.fields_shape", ut.shape, (n, c.n))
    # fluctuation is periodic, and total field is in equilibrium; macro field is the affine one (up to a translation)
    f = (ut - um).reshape(n, -1, c.d)
    nc = classes_mod(c.s)
    rep = np.zeros(nc.max() + 1, int)
    rep[nc] = np.arange(len(nc))
    mon.close("cell.fluctuation_periodic", f, f[:, rep[nc]], rtol=1e-9, scale=np.abs(um).max())
    um3 = um.reshape(n, -1, c.d)
    U3 = U.T.reshape(n, -1, c.d)
    mon.close("cell.macro_is_affine", um3 - um3[:, :1], U3 - U3[:, :1], rtol=1e-11, scale=np.abs(U).max())
    W3 = W.T.reshape(n, -1, c.d)
    ut3 = ut.reshape(n, -1, c.d)
    mon.close("cell.total_field", ut3 - ut3.mean(1, keepdims=True), W3 - W3.mean(1, keepdims=True), rtol=10 * rt, scale=np.abs(W).max())
    eps, w = quad_strain(c, ut.T)
    avg = np.einsum("cq,cqijk->kij", w, eps) / w.sum()
    want = []
    for i, j in (V2 if c.d == 2 else V3):
        e = np.zeros((c.d, c.d))
        e[i, j] += .5
        e[j, i] += .5
        want.append(e)
    mon.close("cell.mean_strain_is_macro", avg, np.array(want), rtol=1e-8, scale=1.0)
    if case["lay"] in ("cell", "uniform"):
        w0 = ref.Geo(c.pts, c.cells, c.ele, degree=4).JxW.sum(1)
        base = (lambda e: iso_C(c.d, e)) if c.T is None else (lambda e: e * np.array(
            [[c.T[i + k] for k in (V2 if c.d == 2 else V3)] for i in (V2 if c.d == 2 else V3)]))
        Es = c.E if case["lay"] == "cell" else np.full(len(c.cells), c.E[0])
        bounds_ok(mon, "cell", C, np.array([base(e) for e in Es]), w0 / w0.sum())
        if case["lay"] == "uniform":
            mon.close("cell.homogeneous_exact", C, base(float(c.E[0])), rtol=1e-7, scale=sc)
    mon.event("unit_cells")
    mon.note(contrast=contrast)
    mon.seen("cell", case["ele"], case["lay"], case["ani"])


def case_odd(case, mon):
    """A law without major symmetry (odd elasticity): the effective tensor is C[stress, strain], not its transpose."""
    rng = rng_for(case)
    c = build(rng, case["ele"], "cell", True, contrast=10 ** rng.uniform(.3, 1))
    n = 3 if c.d == 2 else 6
    A = rng.normal(size=(n, n))
    T = c.T + full_tensor(.4 * (A - A.T), c.d)
    c.p = make_problem(c.mesh, c.d, c.ele, T)
    c.bc = fe.DirichletBCConfig([]).create_bc(c.p)
    c.T = T
    C = np.asarray(hom_solver(c, krylov="bicgstab", tol=1e-10)(c.tp).C_hom)
    Cref, _, _ = dense_hom(c.K(np.zeros(c.n)), c.pts, c.s, c.d, np.prod(c.size), c.org)
    sc = np.abs(Cref).max()
    mon.true("odd.is_odd", np.abs(Cref - Cref.T).max() > 1e-2 * sc)
    mon.close("odd.effective_tensor", C, Cref, rtol=1e-5, scale=sc)
    mon.event("unit_cells")
    mon.seen("odd", case["ele"])


def case_homogeneous(case, mon):
    """A homogeneous anisotropic cell gives its own stiffness back, entry by entry."""
    rng = rng_for(case)
    c = build(rng, case["ele"], "cell", True, ns=(2, 1, 1) if case["ele"] == "HEX8" else (1, 1, 1))
    tp = fe.TracedParams(volume_vars=(jnp.ones(len(c.cells)) * 1.7,), surface_vars=[])
    C = np.asarray(hom_solver(c)(tp).C_hom)
    want = 1.7 * np.array([[c.T[i + k] for k in V3] for i in V3])
    mon.close("homogeneous.own_stiffness", C, want, rtol=1e-8, scale=np.abs(want).max())
    mon.seen("homogeneous", case["ele"])


def laminate_C(Cs, w, axis, d):
    """Exact effective stiffness of layers stacked along an axis (anisotropic phases)."""
    V = V2 if d == 2 else V3
    o = [a for a, (i, j) in enumerate(V) if axis in (i, j)]        # continuous tractions
    t = [a for a in range(len(V)) if a not in o]                   # continuous strains
    n = len(V)
    Aoo = np.einsum("q,qij->ij", w, np.linalg.inv(Cs[:, o][:, :, o]))
    Bot = np.einsum("q,qij->ij", w, np.linalg.inv(Cs[:, o][:, :, o]) @ Cs[:, o][:, :, t])
    Dtt = np.einsum("q,qij->ij", w, Cs[:, t][:, :, t] - Cs[:, t][:, :, o] @ np.linalg.inv(Cs[:, o][:, :, o]) @ Cs[:, o][:, :, t])
    C = np.zeros((n, n))
    Ai = np.linalg.inv(Aoo)
    C[np.ix_(o, o)] = Ai
    C[np.ix_(o, t)] = Ai @ Bot
    C[np.ix_(t, o)] = Bot.T @ Ai
    C[np.ix_(t, t)] = Dtt + Bot.T @ Ai @ Bot
    return C


def case_laminate(case, mon):
    rng = rng_for(case)
    d = case["dim"]
    axis = int(rng.integers(0, d))
    ns = [1] * d
    ns[axis] = int(rng.integers(3, 6)) if d == 2 else 3
    ele = "QUAD4" if d == 2 else "HEX8"
    c = build(rng, ele, "cell", True, ns=tuple(ns), uniform=True)
    g = ref.Geo(c.pts, c.cells, c.ele, degree=4)
    E = 10 ** rng.uniform(0, 2, len(c.cells))
    tp = fe.TracedParams(volume_vars=(jnp.asarray(E),), surface_vars=[])
    C = np.asarray(hom_solver(c)(tp).C_hom)
    V = V2 if d == 2 else V3
    base = np.array([[c.T[i + k] for k in V] for i in V])
    w = g.JxW.sum(1)
    want = laminate_C(E[:, None, None] * base, w / w.sum(), axis, d)
    mon.close("laminate.exact", C, want, rtol=1e-6, scale=np.abs(want).max(), axis=axis)
    mon.seen("laminate", d, axis, ns[axis])


def case_shift(case, mon):
    """Cutting the same periodic medium at another place or moving it changes nothing."""
    rng = rng_for(case)
    n = int(rng.integers(3, 5))
    c = build(rng, "QUAD4", "cell", bool(rng.random() < .5), ns=(n, n), uniform=True)
    # uniform spacing so that a shift by whole cells maps the mesh to itself
    pts, cells = wl.make_mesh(rng, "QUAD4", (n, n), c.size, c.org)
    s = (pts - c.org) / c.size
    m = wl.fmesh(pts, cells, "QUAD4")
    T = c.T
    p = make_problem(m, 2, "QUAD4", T)
    c1 = wl.Case(p=p, mesh=m, pts=pts, cells=cells, s=s, d=2, ele="QUAD4", bc=fe.DirichletBCConfig([]).create_bc(p))
    E = 10 ** rng.uniform(0, 2, (n, n))
    ij = np.floor(s[cells].mean(1) * n).astype(int)
    hs = hom_solver(c1)
    solve = jax.jit(lambda e: hs(fe.TracedParams(volume_vars=(e,), surface_vars=[])).C_hom)
    C0 = np.asarray(solve(jnp.asarray(E[ij[:, 0], ij[:, 1]])))
    sc = np.abs(C0).max()
    for _ in range(3):
        a, b = rng.integers(0, n, 2)
        C1 = np.asarray(solve(jnp.asarray(np.roll(E, (a, b), (0, 1))[ij[:, 0], ij[:, 1]])))
        mon.close("shift.same_medium", C1, C0, rtol=1e-6, scale=sc, shift=[int(a), int(b)])
    # scaling all moduli scales C; scaling the cell does nothing
    k = float(rng.uniform(.2, 5))
    C2 = np.asarray(solve(jnp.asarray(k * E[ij[:, 0], ij[:, 1]])))
    mon.close("shift.linear_in_modulus", C2, k * C0, rtol=1e-6, scale=k * sc)
    z = float(rng.choice([0.01, 7.0, 40.0]))
    org2 = rng.uniform(-300, 300, 2)
    m2 = wl.fmesh(org2 + s * c.size * z, cells, "QUAD4")
    p2 = make_problem(m2, 2, "QUAD4", T)
    c2 = wl.Case(p=p2, mesh=m2, pts=np.asarray(m2.points), cells=cells, s=s, d=2, ele="QUAD4", bc=fe.DirichletBCConfig([]).create_bc(p2))
    C3 = np.asarray(hom_solver(c2)(fe.TracedParams(volume_vars=(jnp.asarray(E[ij[:, 0], ij[:, 1]]),), surface_vars=[])).C_hom)
    mon.close("shift.size_and_place_irrelevant", C3, C0, rtol=1e-6, scale=sc, z=z)
    mon.seen("shift", n)


def case_gradient(case, mon):
    """d C_kl / d E_c = (1/|Y|) u_k' (dK/dE_c) u_l : design derivatives of the effective stiffness."""
    rng = rng_for(case)
    c = build(rng, "QUAD4", "cell", True, contrast=20.0)
    solve = hom_solver(c, tol=1e-12)
    M = rng.normal(size=(3, 3))
    Mj = jnp.asarray(M)
    val, g = jax.jit(jax.value_and_grad(lambda e: jnp.vdot(Mj, solve(fe.TracedParams(volume_vars=(e,), surface_vars=[])).C_hom)))(
        jnp.asarray(c.E))
    K = c.K(np.zeros(c.n))
    Cref, W, U = dense_hom(K, c.pts, c.s, c.d, np.prod(c.size), c.org)
    mon.close("gradient.value", float(val), float(np.vdot(M, Cref)), rtol=1e-6, scale=np.abs(Cref).max())
    want = np.zeros(len(c.cells))
    for k in range(len(c.cells)):
        e = np.zeros(len(c.cells))
        e[k] = 1
        dK = c.K(np.zeros(c.n), fe.TracedParams(volume_vars=(jnp.asarray(e),), surface_vars=[]))
        want[k] = np.vdot(M, W.T @ dK @ W / np.prod(c.size))
    mon.close("gradient.design_derivative", np.asarray(g), want, rtol=1e-5, scale=np.abs(want).max())
    mon.seen("gradient")


def case_average(case, mon):
    """average_stress of arbitrary fields: direct quadrature with the harness elements."""
    from feax.flat.solver import average_stress, macro_displacement
    rng = rng_for(case)
    d = case["dim"]
    for ele, lay in ((("QUAD4", "quad"), ("TRI6", "node"), ("QUAD8", "cell")) if d == 2 else
                     (("HEX8", "node"), ("TET10", "cell"))):
        c = build(rng, ele, lay, True, ns=(2, 2) if d == 2 else (1, 2, 1), contrast=5.0)
        u = rng.normal(size=c.n)
        got = np.asarray(average_stress(c.p, jnp.asarray(u), c.tp, d))
        # tested with affine fields the internal force is the average stress
        U = macro_fields(c.pts, d, c.org)
        V = np.asarray(c.p.JxW).sum()
        want = U.T @ c.res(u) / V
        mon.close("average.stress", got, want, rtol=1e-9, scale=np.abs(want).max())
        e = rng.normal(size=(3, 3))
        e = e + e.T
        um = np.asarray(macro_displacement(c.mesh, jnp.asarray(e))).reshape(-1, d)
        mon.close("average.macro_displacement", um, c.pts @ e[:d, :d].T, rtol=1e-12, scale=np.abs(um).max())
        mon.seen("average", ele, lay)
        # a direction field carried by the nodes next to a modulus in this layout
        class F(fe.problem.Problem):
            def get_tensor_map(self):
                return lambda g, E, a: wl.stress_lin(jnp, g, E) + 0.5 * E * jnp.dot(a, g @ a) * jnp.outer(a, a)

        p = F(c.mesh, vec=d, dim=d, ele_type=ele)
        nn = len(c.pts)
        if nn != len(c.cells):
            for m_ in (nn, len(c.cells)):        # the same carried by the cells
                if m_ != nn and p.fes[0].num_quads == d:
                    continue
                tp = fe.TracedParams(volume_vars=(c.tp.volume_vars[0], jnp.asarray(rng.normal(size=(m_, d)))))
                r = fe.assembler.get_res(p, p.unflatten_fn_sol_list(jnp.asarray(u)), tp)
                want = U.T @ np.concatenate([np.asarray(x).ravel() for x in r]) / V
                mon.close("average.fibre_stress", np.asarray(average_stress(p, jnp.asarray(u), tp, d)), want, rtol=1e-9, scale=np.abs(want).max())


def case_lattice(case, mon):
    from feax.flat import graph
    rng = rng_for(case)
    for _ in range(case["n"]):
        d = int(rng.integers(2, 4))
        nn = int(rng.integers(2, 7))
        nodes = rng.uniform(0, 1, (nn, d))
        alle = [(i, j) for i in range(nn) for j in range(i + 1, nn)]
        k = int(rng.integers(1, len(alle) + 1))
        ed = np.array([alle[i] for i in rng.permutation(len(alle))[:k]])
        flip = rng.random(k) < 0.5
        ed[flip] = ed[flip][:, ::-1]
        rad = float(rng.uniform(0.02, 0.3))
        X = rng.uniform(-0.2, 1.2, (400, d))
        a, b = nodes[ed[:, 0]], nodes[ed[:, 1]]
        v = b - a
        t = np.clip(np.einsum("ned,ed->ne", X[:, None] - a, v) / np.einsum("ed,ed->e", v, v), 0, 1)
        dist = np.linalg.norm(X[:, None] - (a + t[..., None] * v), axis=-1).min(1)
        sure = np.abs(dist - rad) > 1e-9
        want = (dist <= rad).astype(float)
        f = graph.create_lattice_function(jnp.asarray(nodes), jnp.asarray(ed), rad)
        mon.equal("lattice.inside", np.asarray(jax.vmap(f)(jnp.asarray(X)))[sure], want[sure])
        adj = np.asarray(graph.edges2adjcentMat(jnp.asarray(ed), nn))
        A = np.zeros((nn, nn))
        A[ed[:, 0], ed[:, 1]] = A[ed[:, 1], ed[:, 0]] = 1
        mon.equal("lattice.adjacency", adj, A)
        back = np.asarray(graph.adjcentMat2edges(jnp.asarray(A)))
        mon.equal("lattice.edges", sorted(map(tuple, back.tolist())), sorted(tuple(sorted(e)) for e in ed.tolist()))
        f2 = graph.create_lattice_function_from_adjmat(jnp.asarray(nodes), jnp.asarray(A), rad)
        mon.equal("lattice.inside_adjacency", np.asarray(jax.vmap(f2)(jnp.asarray(X)))[sure], want[sure])
        ele = "QUAD4" if d == 2 else "HEX8"
        pts, cells = wl.make_mesh(rng, ele, (5, 4) if d == 2 else (3, 3, 2), distort=0.2)
        p = make_problem(wl.fmesh(pts, cells, ele), d, ele, None)
        lo, hi = float(rng.uniform(1e-4, .2)), float(rng.uniform(.5, 2))
        for tag, fn, Q in (("cell", graph.create_lattice_density_field, pts[cells].mean(1)),
                           ("node", graph.create_lattice_density_field_nodal, pts)):
            tt = np.clip(np.einsum("ned,ed->ne", Q[:, None] - a, v) / np.einsum("ed,ed->e", v, v), 0, 1)
            dd = np.linalg.norm(Q[:, None] - (a + tt[..., None] * v), axis=-1).min(1)
            ok = np.abs(dd - rad) > 1e-9
            r_ = np.asarray(fn(p, f, density_solid=hi, density_void=lo))
            mon.close("lattice.density_" + tag, r_[ok], np.where(dd <= rad, hi, lo)[ok], rtol=1e-12)
        mon.seen("lattice", d, nn, k)


def case_modulus(case, mon):
    from feax.flat import utils
    rng = rng_for(case)
    f = jax.jit(jax.vmap(utils.compute_directional_youngs_modulus, in_axes=(None, 0)))
    for k in range(case["n"]):
        C = spd(rng, 3) if k else iso_C(3, 2.5, 0.27)
        T = full_tensor(C, 3)
        n = rng.normal(size=(20, 3))
        n /= np.linalg.norm(n, axis=1)[:, None]
        E = np.asarray(f(jnp.asarray(C), jnp.asarray(n)))
        # direct: the strain under a unit uniaxial stress n(x)n, from the full tensor acting on symmetric matrices
        basis = [np.eye(3)[[i]].T @ np.eye(3)[[j]] for i, j in V3]
        basis = [(b + b.T) / 2 for b in basis]
        L = np.array([[np.einsum("ij,ijkl,kl->", p_, T, q_) for q_ in basis] for p_ in basis])
        want = []
        for v in n:
            sig = np.outer(v, v)
            co = np.linalg.solve(L, [np.vdot(b, sig) for b in basis])
            eps = sum(a * b for a, b in zip(co, basis))
            want.append(1 / (v @ eps @ v))
        mon.close("modulus.directional", E, np.array(want), rtol=1e-9)
        if k == 0:
            mon.close("modulus.isotropic", E, np.full(20, 2.5), rtol=1e-9)
    with tempfile.TemporaryDirectory() as td:
        fn = os.path.join(td, "s.vtu")
        st = utils.visualize_stiffness_sphere(jnp.asarray(C), fn, n_theta=9, n_phi=12)
        import meshio
        m = meshio.read(fn)
        r = np.linalg.norm(m.points, axis=1)
        Ef = np.asarray(m.point_data["youngs_modulus"]).ravel()
        mon.close("modulus.sphere_radius", r, Ef / Ef.max(), rtol=1e-6)
        mon.close("modulus.sphere_values", Ef, np.asarray(f(jnp.asarray(C), jnp.asarray(m.points / r[:, None]))), rtol=1e-6)
        mon.close("modulus.statistics", [st["E_max"], st["E_min"], st["anisotropy_ratio"]],
                  [Ef.max(), Ef.min(), Ef.max() / Ef.min()], rtol=1e-6)
    mon.seen("modulus")
