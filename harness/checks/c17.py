"""C17: the grid multigrid solver returns the true displacement and sensitivities."""
import sys
import types

import numpy as np
import scipy.sparse as sp
import scipy.sparse.linalg as spl

from harness import ref, wl
from harness.lazy import fe, jax, jnp
from harness.mon import rng_for

ID = "C17"
RULE = ("random grids (odd and even sizes, unequal spacings, shifted origins), supports, nodal loads over 20 decades, material constants, "
        "density fields (uniform, random, checkered, near-void) and active bands in caller order; the returned displacement observed "
        "against a sparse direct solution of an independently assembled brick model, compliance and both sensitivity paths against "
        "their definitions; distinct by (band, density field, levels, coarse solver, jit)")
ASSUMPTIONS = ["the active band is held by the supports", "the cuDSS coarse factorization (GPU only) is replaced by a CPU stand-in",
               "cg_maxit is large enough for the requested tolerance"]
MIN_EVALUATIONS = 150


def cases(tier, seed):
    out = []
    q = tier == "quick"
    for r in range(22 if q else 90):
        out.append(dict(kind="solve", r=r, cost=6))
    for r in range(3 if q else 10):
        out.append(dict(kind="element", n=8, cost=1))
    for r in range(2 if q else 8):
        out.append(dict(kind="moving", r=r, cost=7))
    return [dict(c, seed=seed, i=n) for n, c in enumerate(out)]


def brick(h, E, nu):
    """Element stiffness of a brick by the harness's own quadrature, corners in (dx,dy,dz) order, dz fastest."""
    C = np.array(list(np.ndindex(2, 2, 2)), float)
    g = np.array([-1, 1]) / np.sqrt(3) * 0.5 + 0.5
    lam, mu = E * nu / ((1 + nu) * (1 - 2 * nu)), E / (2 * (1 + nu))
    K = np.zeros((24, 24))
    for x in g:
        for y in g:
            for z in g:
                p = np.array([x, y, z])
                f = np.where(C > 0, p, 1 - p)
                s = np.where(C > 0, 1.0, -1.0)
                dN = np.stack([s[:, k] / h[k] * np.prod(np.delete(f, k, axis=1), axis=1) for k in range(3)], axis=1)
                B = np.zeros((3, 3, 24))
                for a in range(8):
                    for k in range(3):
                        B[k, :, 3 * a + k] = dN[a]
                e = 0.5 * (B + B.transpose(1, 0, 2))
                tr = np.einsum("iik->k", e)
                K += np.prod(h) / 8 * (lam * np.outer(tr, tr) + 2 * mu * np.einsum("ijk,ijl->kl", e, e))
    return K


def model(g, act, E, h, nu):
    """Full-numbering stiffness of the active bricks with moduli E (node id from the documented convention)."""
    Ke = brick(h, 1.0, nu)
    ny, nz = g.ny, g.nz
    ex, ey, ez = act // (ny * nz), (act // nz) % ny, act % nz
    nodes = np.stack([((ex + a) * (ny + 1) + ey + b) * (nz + 1) + ez + c for a, b, c in np.ndindex(2, 2, 2)], axis=1)
    dofs = (nodes[:, :, None] * 3 + np.arange(3)).reshape(len(act), 24)
    n = 3 * g.num_nodes
    K = sp.csr_matrix(((E[:, None, None] * Ke).ravel(), (np.repeat(dofs, 24, axis=1).ravel(), np.tile(dofs, (1, 24)).ravel())), shape=(n, n))
    return K, nodes, dofs, Ke


def _stand_in():
    """CPU stand-in for the GPU factor/solve package used on the coarsest level (installed before the library loads)."""
    def factorize(data, ip, ix, **kw):
        n = ip.shape[0] - 1
        rows = jnp.repeat(jnp.arange(n), jnp.diff(ip), total_repeat_length=ix.shape[0])
        return jnp.linalg.inv(jnp.zeros((n, n)).at[rows, ix].add(data))

    def solve_with(tok, b, **kw):
        n = tok.shape[0]
        return jnp.zeros_like(b).at[:n].set(tok @ b[:n])
    mod, pk, pc = (types.ModuleType(n) for n in ("spineax.cudss.factor_solve", "spineax", "spineax.cudss"))
    mod.factorize, mod.solve_with = factorize, solve_with
    pk.__path__, pc.__path__ = [], []
    sys.modules.update({"spineax": pk, "spineax.cudss": pc, "spineax.cudss.factor_solve": mod})


try:
    import spineax  # noqa: F401
    HAVE_CUDSS = True
except Exception:
    _stand_in()
    HAVE_CUDSS = False


def connected(rng, dims, frac):
    """A face-connected random active set containing the whole x=0 layer."""
    nx, ny, nz = dims
    on = np.zeros(dims, bool)
    on[0] = True
    front = [(0, j, k) for j in range(ny) for k in range(nz)]
    want = int(frac * nx * ny * nz)
    tries = 0
    while on.sum() < want and tries < 20000:
        tries += 1
        i, j, k = front[int(rng.integers(0, len(front)))]
        a = int(rng.integers(0, 3))
        c = [i, j, k]
        c[a] += int(rng.choice([-1, 1]))
        if 0 <= c[0] < nx and 0 <= c[1] < ny and 0 <= c[2] < nz and not on[tuple(c)]:
            on[tuple(c)] = True
            front.append(tuple(c))
    return np.where(on.ravel())[0]


def pose(rng, lo=3, hi=9):
    dims = tuple(int(x) for x in rng.integers(lo, hi, 3))
    h = rng.uniform(0.4, 2.0, 3) if rng.uniform() < 0.5 else np.full(3, 1.0) if rng.uniform() < 0.4 else np.full(3, rng.uniform(0.1, 5))
    g = fe.StructuredGrid(dims, spacing=tuple(h), origin=tuple(rng.normal(size=3)))
    return g, dims, np.asarray(h, float)


def density(rng, n, how):
    if how == "uniform":
        return np.full(n, rng.uniform(0.3, 1.0))
    if how == "random":
        return rng.uniform(0.3, 1.0, n)
    if how == "binary":
        return np.where(rng.uniform(size=n) < 0.3, 0.1, 1.0)
    return np.clip(rng.normal(0.5, 0.3, n), 0.05, 1.0)


def case_solve(case, mon):
    rng = rng_for(case)
    g, dims, h = pose(rng)
    full = rng.uniform() < 0.4
    act = np.arange(g.num_cells) if full else connected(rng, dims, rng.uniform(0.4, 0.9))
    order = "sorted"
    if rng.uniform() < 0.4:
        act, order = rng.permutation(act), "shuffled"
    nu = float(rng.choice([0.0, 0.2, 0.3, 0.42]))
    E0 = float(rng.choice([1.0, 210e9, 1e-3]))
    Emin = E0 * float(rng.choice([1e-9, 1e-3]))
    penal = float(rng.choice([1.0, 3.0, 2.5]))
    how = str(rng.choice(["uniform", "random", "binary", "rough"]))
    rho = density(rng, len(act), how)
    tol = float(rng.choice([1e-8, 1e-10, 1e-5]))
    # a support at the whole x=0 face, or its opposite when everything is active; in index form, level independent
    far = full and rng.uniform() < 0.3
    pred = (lambda ni, nj, nk, nx, ny, nz: ni == nx) if far else (lambda ni, nj, nk, nx, ny, nz: ni == 0)
    nlev = None if rng.uniform() < 0.6 else int(rng.integers(1, 4))
    if nlev and nlev > 1 and far and any(n % 2 for n in dims):
        nlev = 1
    if far and nlev is None and any(n % 2 for n in dims):
        nlev = 1
    bucket = int(rng.choice([1, 16, 512]))
    jit = rng.uniform() < 0.8
    if not jit:
        bucket = 1
    K, nodes, dofs, Ke = model(g, act, Emin + rho ** penal * (E0 - Emin), h, nu)
    used = np.unique(nodes)
    ijk = np.stack([used // ((g.ny + 1) * (g.nz + 1)), (used // (g.nz + 1)) % (g.ny + 1), used % (g.nz + 1)], axis=1)
    fixed = used[ijk[:, 0] == (dims[0] if far else 0)]
    loose = np.setdiff1d(used, fixed)
    cmg = fe.NarrowBandCMG(g, pred, n_levels=nlev, nu=nu, Emin=Emin, E0=E0, penal=penal, cg_tol=tol, cg_maxit=1500, bucket=bucket)
    lv = cmg.build(act)
    mon.equal("solve.nodes", lv[0]["nodes"], used)
    b = np.zeros(3 * g.num_nodes)
    pts = rng.choice(loose, int(rng.integers(1, 4)), replace=False)
    mag = float(10.0 ** rng.uniform(-14, 6)) if rng.uniform() < 0.5 else 1.0
    lvec = np.zeros(lv[0]["ndof"])
    ix = (used[:, None] * 3 + np.arange(3)).ravel()
    for p in pts:
        comp = int(rng.integers(0, 3))
        v = float(rng.normal()) * mag
        one = cmg.load_vector(lv, [p], comp, v)
        w = np.zeros(3 * g.num_nodes)
        w[3 * p + comp] = v
        mon.equal("solve.load_vector", one, w[ix])
        lvec = lvec + one
        b += w
    use_direct = rng.uniform() < 0.35
    if use_direct:
        opt = None if rng.uniform() < 0.5 else fe.DirectSolverOptions()
        cname = "direct"
    else:
        cname = str(rng.choice(["cg", "auto", "bicgstab"]))
        opt = fe.KrylovSolverOptions(solver=cname, tol=1e-12, maxiter=4000)
    solver = cmg.create_solver(lv, lvec, opt, jit=bool(jit))
    free = (np.setdiff1d(used, fixed)[:, None] * 3 + np.arange(3)).ravel()
    Kff = K[free][:, free].tocsc()
    x = np.zeros_like(b)
    x[free] = spl.spsolve(Kff, b[free])
    form = "tp" if rng.uniform() < 0.4 else "array"
    arg = fe.TracedParams(volume_vars=(jnp.asarray(rho),)) if form == "tp" else jnp.asarray(rho)
    sol = solver(arg)
    mon.true("solve.is_solution", isinstance(sol, fe.Solution) and sol.layout == ((len(used), 3),))
    u = np.asarray(sol.dofs)
    U = np.zeros_like(b)
    U[ix] = u
    bm = np.abs(b).max()
    # inf-norm residual of the true model, as requested (recursive residual drifts by rounding)
    r = np.abs((K @ U - b)[free]).max() / bm
    drift = 1e-13 * np.abs(K[free][:, free]).max() * np.abs(x).max() / bm
    mon.true("solve.residual", r <= 1.5 * tol + 50 * drift, r=r, tol=tol, drift=drift, dims=dims, how=how, nu=nu, mag=mag, order=order, h=h)
    mon.true("solve.fixed_zero", not u.reshape(-1, 3)[np.isin(used, fixed)].any())
    # energy-norm error is what compliance sees: |b.(u-x)| <= |r|.|x| type bound; compare at the achievable level
    cx = float(b @ x)
    amp = np.abs(x).max() * bm
    rt = 100 * tol * len(free) + 1e-8
    mon.close("solve.work", float(b @ U), cx, rtol=0, atol=rt * amp + 1e-300, how=how, h=h)
    c, dc = cmg.compliance_and_dc(lv, arg, sol)
    ce = np.einsum("ei,ij,ej->e", U[dofs], Ke, U[dofs])
    mon.close("solve.compliance", c, float(np.sum((Emin + rho ** penal * (E0 - Emin)) * ce)), rtol=1e-10)
    mon.close("solve.dc", dc, -penal * rho ** (penal - 1) * (E0 - Emin) * ce, rtol=1e-10)
    if how != "binary" and tol <= 1e-8:
        # the analytic sensitivity of the true model, through the differentiable path with another functional
        wq = np.zeros_like(b)
        wq[free] = rng.normal(size=len(free)) / np.abs(x).max() * 10.0 ** (rng.uniform(-16, 6) if rng.uniform() < 0.5 else 0)
        lam = np.zeros_like(b)
        lam[free] = spl.spsolve(Kff, wq[free])
        want = -penal * rho ** (penal - 1) * (E0 - Emin) * np.einsum("ei,ij,ej->e", lam[dofs], Ke, x[dofs])
        got = jax.grad(lambda z: jnp.dot(jnp.asarray(wq[ix]), solver(z).dofs))(jnp.asarray(rho))
        cond = np.abs(lam).max() * bm * 3
        mon.close("solve.gradient", np.asarray(got), want, rtol=1e-4 if tol == 1e-8 else 1e-5, how=how, order=order, h=h, mag=mag)
        mon.event("adjoint_solves")
    mon.event("solves")
    mon.seen("full" if full else "band", how, cmg.L, cname, bool(jit), bucket, order, "cube" if np.ptp(h) == 0 else "brick", far)


def case_moving(case, mon):
    """One instance, several bands and loads in turn (compiled code reused): each answer is its own."""
    rng = rng_for(case)
    g, dims, h = pose(rng, 4, 8)
    cmg = fe.NarrowBandCMG(g, lambda ni, nj, nk, nx, ny, nz: ni == 0, Emin=1e-6, penal=3.0, cg_tol=1e-9, cg_maxit=1500, bucket=64)
    opt = fe.KrylovSolverOptions(solver="cg", tol=1e-12, maxiter=4000)
    kept = []
    for step in range(3):
        act = connected(rng, dims, rng.uniform(0.5, 0.95))
        rho = rng.uniform(0.3, 1.0, len(act))
        lv = cmg.build(act)
        K, nodes, dofs, Ke = model(g, act, 1e-6 + rho ** 3 * (1 - 1e-6), h, 0.3)
        used = np.unique(nodes)
        fx = used[used // ((g.ny + 1) * (g.nz + 1)) == 0]
        p = int(rng.choice(np.setdiff1d(used, fx)))
        b = np.zeros(3 * g.num_nodes)
        b[3 * p + 1] = 1.0
        s = cmg.create_solver(lv, cmg.load_vector(lv, [p], 1, 1.0), opt, return_solution=False)
        free = (np.setdiff1d(used, fx)[:, None] * 3 + np.arange(3)).ravel()
        x = np.zeros_like(b)
        x[free] = spl.spsolve(K[free][:, free].tocsc(), b[free])
        ix = (used[:, None] * 3 + np.arange(3)).ravel()
        kept.append((s, rho, x[ix]))
        for s_, r_, x_ in kept:
            mon.close("moving.displacement", np.asarray(s_(jnp.asarray(r_))), x_, rtol=1e-5, step=step)
        # agrees with the general solver on the extracted band
        if step == 0:
            band = fe.NarrowBand(g, act)
            mon.equal("moving.layout", band.node_map, used)
        mon.event("solves", len(kept))
    mon.seen("moving", dims)


def case_element(case, mon):
    rng = rng_for(case)
    from feax.solvers.cmg import make_KE_3d
    for _ in range(case["n"]):
        nu = float(rng.uniform(0, 0.45))
        h = rng.uniform(0.3, 3, 3)
        g = fe.StructuredGrid((2, 2, 2), spacing=tuple(h))
        c = fe.NarrowBandCMG(g, lambda ni, nj, nk, nx, ny, nz: ni == 0, nu=nu)
        K = np.asarray(c.KE)
        mon.close("element.brick", K, brick(h, 1.0, nu), rtol=1e-10)
        mon.close("element.unit", np.asarray(make_KE_3d(nu, 2.0)), brick(np.ones(3), 2.0, nu), rtol=1e-10)
        X = np.array(list(np.ndindex(2, 2, 2)), float) * h
        W = rng.normal(size=(3, 3))
        rigid = X @ (W - W.T) + rng.normal(size=3)
        mon.close("element.rigid", K @ rigid.ravel(), np.zeros(24), atol=1e-9 * np.abs(K).max() * np.abs(rigid).max())
        mon.seen("element", round(nu, 1))
