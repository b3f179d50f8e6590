"""C14: eigen and buckling solvers return the extreme modes that really exist."""
import sys
import types

import numpy as np
import scipy.linalg as sla
import scipy.sparse as sp

from harness import ref, wl
from harness.lazy import fe, jax, jnp
from harness.mon import rng_for

ID = "C14"
RULE = ("random sparse SPD / symmetric-indefinite pairs (graph Laplacians, bands, block-repeated pencils with exactly repeated factors, "
        "tiny and larger free sets, negative factors smaller in magnitude than the positive ones, fewer positive factors than asked "
        "for, stiffness scales over 12 decades) and finite-element columns, observed against a dense LAPACK eigensolution; "
        "distinct by (pencil kind, backend, sign mix, requested modes)")
ASSUMPTIONS = ["K is symmetric positive definite on the free dofs and Kg is symmetric",
               "the cuDSS factor/solve primitive (GPU only) is replaced by a dense CPU stand-in; matfree and cuDSS Arnoldi are observed "
               "with a full basis and simple factors"]
MIN_EVALUATIONS = 300
MIX = ["positive", "mixed", "mostly_negative", "few_positive"]


def cases(tier, seed):
    out = []
    q = tier == "quick"
    for r in range(24 if q else 90):
        out.append(dict(kind="pencil", mix=MIX[r % 4], repeat=int(r % 3 == 2), r=r, cost=4))
    for r in range(4 if q else 16):
        out.append(dict(kind="arnoldi", solver=["matfree", "cudss"][r % 2], r=r, cost=5))
        out.append(dict(kind="geigh", n=6, cost=2))
    for r in range(3 if q else 12):
        out.append(dict(kind="column", ele=["QUAD4", "HEX8", "QUAD8", "TET4"][r % 4], cost=9))
    out.append(dict(kind="report", cost=3))
    for r in range(1 if tier == "quick" else 6):
        out.append(dict(kind="unconverged", r=r, cost=20))
    return [dict(c, seed=seed, i=n) for n, c in enumerate(out)]


# ------------------------------------------------------------------ pencils
def spd_graph(rng, n):
    """Connected weighted graph Laplacian plus a positive diagonal: sparse SPD."""
    E = [(i, int(rng.integers(0, i))) for i in range(1, n)]
    E += [tuple(rng.choice(n, 2, replace=False)) for _ in range(n)]
    w = 10.0 ** rng.uniform(-1, 1, len(E))
    A = sp.lil_matrix((n, n))
    for (i, j), v in zip(E, w):
        A[i, j] -= v
        A[j, i] -= v
        A[i, i] += v
        A[j, j] += v
    return sp.csr_matrix(A + sp.diags(rng.uniform(0.05, 1.0, n)))


def pencil(rng, mix, nf, repeat, tiny=False):
    """(K, Kg) reduced scipy CSR pair with a known sign mix of 1/lambda."""
    b = nf // repeat
    K = spd_graph(rng, b)
    G = spd_graph(rng, b)
    if mix == "positive":
        Kg = -G
    elif mix == "few_positive":        # exactly p positive factors, p small
        p = int(rng.integers(1, 3))
        idx = rng.choice(b, p, replace=False)
        D = sp.lil_matrix((b, b))
        L = np.abs(G).sum(axis=1).A1 if hasattr(np.abs(G).sum(axis=1), "A1") else np.asarray(np.abs(G).sum(axis=1)).ravel()
        for i in idx:
            D[i, i] = -(3.0 + rng.uniform()) * L.max()
        Kg = G + sp.csr_matrix(D)
    else:
        s = np.where(rng.uniform(size=b) < (0.5 if mix == "mixed" else 0.15), -1.0, 1.0)
        if not (s < 0).any():
            s[int(rng.integers(0, b))] = -1.0
        w = np.where(s < 0, 1.0, 1.0 if mix == "mixed" else 10 ** rng.uniform(0.5, 2.0))
        S = sp.diags(w * s)
        H = spd_graph(rng, b)
        Kg = S * 3.0 + 0.05 * (H - sp.diags(H.diagonal()))
    if repeat > 1:
        K, Kg = sp.block_diag([K] * repeat), sp.block_diag([Kg] * repeat)
        P = sp.eye(b * repeat).tocsr()[rng.permutation(b * repeat)]
        K, Kg = P @ K @ P.T, P @ Kg @ P.T
    sk, sg = (10.0 ** rng.uniform(-4, 8), 10.0 ** rng.uniform(-4, 8)) if rng.uniform() < 0.5 else (1.0, 1.0)
    K, Kg = sp.csr_matrix(K) * sk, sp.csr_matrix(Kg) * sg
    # factors stay above the documented absolute zero tolerance of the dense solver
    mu = sla.eigh(-Kg.toarray(), K.toarray(), eigvals_only=True).max()
    return K, Kg * min(1.0, 1e5 / max(mu, 1e-300))


def embed(rng, A, free, N, stored_zero=False):
    """Full (N,N) matrix whose free block is A; constrained rows hold junk couplings."""
    F = sp.lil_matrix((N, N))
    F[np.ix_(free, free)] = A.toarray()
    con = np.setdiff1d(np.arange(N), free)
    sc = float(np.abs(A.data).max())
    for c in con:
        for j in rng.choice(N, min(N, 3), replace=False):
            v = rng.normal() * sc
            F[c, j] += v
            if j != c:
                F[j, c] += v
    M = sp.csr_matrix(F)
    M.sort_indices()
    return M


def to_csr(M):
    return fe.csr.CSRMatrix(jnp.asarray(M.data), jnp.asarray(M.indptr), jnp.asarray(M.indices), M.shape)


def reference(K, Kg):
    """Ascending positive factors and K-orthonormal vectors by LAPACK."""
    K, Kg = K.toarray(), Kg.toarray()
    mu, V = sla.eigh(-0.5 * (Kg + Kg.T), 0.5 * (K + K.T))
    sel = mu > 1e-11 * np.abs(mu).max()
    mu, V = mu[sel][::-1], V[:, sel][:, ::-1]
    return 1.0 / mu, V


def clusters(lam, rel=1e-6):
    out, cur = [], [0]
    for i in range(1, len(lam)):
        if lam[i] - lam[cur[-1]] <= rel * lam[i]:
            cur.append(i)
        else:
            out.append(cur)
            cur = [i]
    return out + [cur]


def judge(mon, tag, lam, modes, K, Kg, free, N, m, lref, Vref, tol=1e-7):
    """Returned factors and modes against the reference spectrum."""
    lam, modes = np.asarray(lam), np.asarray(modes)
    n = min(m, len(lref))
    if not mon.true(tag + "shape", lam.shape == (m,) and modes.shape == (m, N), got=[lam.shape, modes.shape]):
        return
    if not mon.true(
            tag + "factors", np.all(np.abs(lam[:n] - lref[:n]) <= tol * lref[:n]), got=lam[:n], want=lref[:n]):
        return
    mon.true(tag + "missing_reported", np.all(np.isinf(lam[n:]) & (lam[n:] > 0)) and not modes[n:].any(), got=lam[n:], exist=n)
    con = np.setdiff1d(np.arange(N), free)
    mon.true(tag + "constrained_zero", not modes[:, con].any())
    phi = modes[:, free][:n]
    Kp, Gp = (K @ phi.T).T, (Kg @ phi.T).T
    mon.close(tag + "normalized", np.sum(phi * Kp, axis=1), np.ones(n), rtol=1e-8)
    r = np.linalg.norm(Kp + lam[:n, None] * Gp, axis=1)
    mon.true(tag + "equation", np.all(r <= 1e-6 * (np.linalg.norm(Kp, axis=1) + np.abs(lam[:n]) * np.linalg.norm(Gp, axis=1))), r=r)


def grad_ref(Kfull, Gfull, free, w, lref, Vref, m):
    """Analytic derivative of sum_i w_i lam_i (w constant inside a cluster) per stored entry."""
    N = Kfull.shape[0]
    n = min(m, len(lref))
    V = np.zeros((N, n))
    V[free] = Vref[:, :n]
    out = []
    for M, p in ((Kfull, 1), (Gfull, 2)):
        r = np.repeat(np.arange(N), np.diff(M.indptr))
        out.append(((V[r] * V[M.indices]) * (w[:n] * lref[:n] ** p)).sum(axis=1))
    return out


def case_pencil(case, mon):
    rng = rng_for(case)
    rep = 1 + case["repeat"] * int(rng.integers(1, 3))
    big = rng.uniform()
    b = int(rng.integers(3, 7)) if big < 0.2 else int(rng.integers(10, 30)) if big < 0.7 else int(rng.integers(40, 90))
    if case["r"] % 12 == 0:
        b = int(rng.integers(3, 10))
    nf = b * rep
    K, Kg = pencil(rng, case["mix"], nf, rep)
    N = nf + int(rng.integers(0, 6))
    free = rng.choice(N, nf, replace=False) if rng.uniform() < 0.3 else np.sort(rng.choice(N, nf, replace=False))
    Kf, Gf = embed(rng, K, free, N), embed(rng, Kg, free, N)
    K, Kg = Kf[free][:, free], Gf[free][:, free]
    lref, Vref = reference(K, Kg)
    m = int(rng.integers(1, 7)) if rng.uniform() < 0.8 else int(rng.integers(1, nf + 2))
    if case["r"] % 12 == 0:                      # exactly every mode of the pencil
        m = nf
    elif nf < 12 and rng.uniform() < 0.5:        # and one around it
        m = nf + int(rng.integers(-1, 2))
    nneg = nf - len(lref)
    A, B = to_csr(Kf), to_csr(Gf)
    n = min(m, len(lref))
    # a cluster cut by the number of requested modes has no defined gradient: weight it zero
    w = np.zeros(m)
    for c in clusters(lref):
        if c[-1] < n:
            w[c] = rng.normal() / lref[c[0]]
    gK, gG = grad_ref(Kf, Gf, free, w, lref, Vref, m)
    wj = jnp.asarray(w)
    for solver in ("sparse", "dense"):
        bf = fe.solvers.eigen.create_linear_buckling_solver(free, num_modes=m, solver=solver)
        lam, modes = bf(A, B)
        judge(mon, solver + ".", lam, modes, K, Kg, free, N, m, lref, Vref)

        def f(kd, gd):
            l, _ = bf(fe.csr.CSRMatrix(kd, A.indptr, A.indices, A.shape), fe.csr.CSRMatrix(gd, B.indptr, B.indices, B.shape))
            return jnp.sum(jnp.where(wj != 0, wj * jnp.where(wj != 0, l, 1.0), 0.0))
        g = jax.grad(f, argnums=(0, 1))(A.data, B.data)
        # sensitivities: the bound allows for eigenvector error with the cluster gap
        cl = [lref[c[0]] for c in clusters(lref)]
        gap = min([(y - x) / y for x, y in zip(cl[:-1], cl[1:])][:n + 1] + [1.0])
        tol = min(1e-2, 1e-8 / gap)
        mon.close(solver + ".grad_K", np.asarray(g[0]), gK, rtol=tol, scale=np.abs(gK).max() + 1e-300, mix=case["mix"], m=m, rep=rep)
        mon.close(solver + ".grad_Kg", np.asarray(g[1]), gG, rtol=tol, scale=np.abs(gG).max() + 1e-300, mix=case["mix"], m=m, rep=rep)
        # padded modes carry no gradient, whatever weight they get
        if n < m:
            h = jax.grad(lambda kd: jnp.sum(1.0 / bf(fe.csr.CSRMatrix(kd, A.indptr, A.indices, A.shape), B)[0]))(A.data)
            mon.true(solver + ".padded_grad_finite", bool(np.isfinite(np.asarray(h)).all()))
            h2 = jax.grad(lambda kd: jnp.sum(bf(fe.csr.CSRMatrix(kd, A.indptr, A.indices, A.shape), B)[0][:n]))(A.data)
            want = grad_ref(Kf, Gf, free, np.ones(m), lref, Vref, m)[0]
            mon.close(solver + ".padded_grad", np.asarray(h2), want, rtol=max(tol, 1e-6), mix=case["mix"])
        # jit, and other values on the same structure
        jl, jm = jax.jit(bf)(A, B)
        mon.close(solver + ".jit", np.where(np.isfinite(np.asarray(jl)), np.asarray(jl), 0), np.where(np.isfinite(np.asarray(lam)), np.asarray(lam), 0), rtol=1e-9)
        c = float(10 ** rng.uniform(-2, 2))
        A2 = fe.csr.CSRMatrix(A.data * c, A.indptr, A.indices, A.shape)
        l2 = np.asarray(jax.jit(bf)(A2, B)[0])
        mon.close(solver + ".scaled", l2[:n] / c, lref[:n], rtol=1e-6)
        mon.event("solves", 5)
        mon.seen(case["mix"], solver, rep > 1, "tiny" if nf < 12 else "small" if nf < 40 else "large", "neg" if nneg else "pos",
                 "padded" if n < m else "full", "all" if m >= nf else "part", len(cl) < len(lref))


def backend(solver, mon):
    """Stand-in for the GPU factorisation, or presence of the optional matfree package."""
    if solver == "cudss":
        mod = types.ModuleType("spineax.cudss.factor_solve")
        seen = []

        def factorize(data, ip, ix, device_id=0, mtype_id=0, mview_id=0):
            n = ip.shape[0] - 1
            rows = jnp.repeat(jnp.arange(n), jnp.diff(ip), total_repeat_length=ix.shape[0])
            return jnp.zeros((n, n)).at[rows, ix].add(data)

        def solve_with(token, b, device_id=0):
            seen.append(1)
            return jnp.linalg.solve(token, b)
        mod.factorize, mod.solve_with = factorize, solve_with
        pk, pc = types.ModuleType("spineax"), types.ModuleType("spineax.cudss")
        pk.__path__, pc.__path__ = [], []
        sys.modules.update({"spineax": pk, "spineax.cudss": pc, "spineax.cudss.factor_solve": mod})
    else:
        try:
            import matfree  # noqa: F401
        except Exception:
            mon.event("matfree_unavailable")
            return False
    return True


def case_arnoldi(case, mon):
    rng = rng_for(case)
    if not backend(case["solver"], mon):
        return
    mf = case["solver"] == "matfree"
    nf = int(rng.integers(30, 60)) if mf else int(rng.integers(8, 20))
    K, Kg = pencil(rng, str(rng.choice(["positive", "mixed", "mostly_negative"])), nf, 1)
    N = nf + int(rng.integers(0, 4))
    free = np.sort(rng.choice(N, nf, replace=False))
    Kf, Gf = embed(rng, K, free, N), embed(rng, Kg, free, N)
    K, Kg = Kf[free][:, free], Gf[free][:, free]
    lref, Vref = reference(K, Kg)
    m = min(int(rng.integers(1, 5)), len(lref))
    A, B = to_csr(Kf), to_csr(Gf)
    bf = fe.solvers.eigen.create_linear_buckling_solver(free, num_modes=m, solver=case["solver"], num_matvecs=nf, conv_tol=None)
    w = rng.uniform(0.5, 1.5, m) / lref[:m]

    def f(kd, gd):
        lam, modes = bf(fe.csr.CSRMatrix(kd, A.indptr, A.indices, A.shape), fe.csr.CSRMatrix(gd, B.indptr, B.indices, B.shape))
        return jnp.sum(jnp.asarray(w) * lam), (lam, modes)
    bf(A, B)
    (_, (lam, modes)), g = jax.value_and_grad(f, argnums=(0, 1), has_aux=True)(A.data, B.data)
    lam, modes = np.asarray(lam), np.asarray(modes)
    tag = case["solver"] + "."
    if mf:       # the basis is one short of complete: the fundamental pair and self-consistency
        mon.true(tag + "fundamental", abs(lam[0] - lref[0]) <= 1e-4 * lref[0], got=lam[0], want=lref[0])
        phi = modes[:, free]
        mon.close(tag + "normalized", np.sum(phi * (K @ phi.T).T, axis=1), np.ones(m), rtol=1e-7)
        mon.true(tag + "constrained_zero", not modes[:, np.setdiff1d(np.arange(N), free)].any())
        mon.true(tag + "ascending", bool(np.all(np.diff(lam) >= 0) and (lam > 0).all()))
    else:
        judge(mon, tag, lam, modes, K, Kg, free, N, m, lref, Vref, tol=1e-6)
    gr = grad_ref(Kf, Gf, free, w, lam, modes[:, free].T, m)
    for t, x, y in zip(("grad_K", "grad_Kg"), g, gr):
        mon.close(tag + t, np.asarray(x), y, rtol=1e-7)
    mon.event("solves", 2)
    mon.seen(case["solver"], m, "neg" if len(lref) < nf else "pos")


def case_unconverged(case, mon):
    """A basis far too small for the pencil: the fundamental pair is converged to the
    requested tolerance, or the solve reports that it is not."""
    rng = rng_for(case)
    E = fe.solvers.eigen
    for solver in ("sparse", "cudss", "matfree"):
        if not backend(solver, mon) if solver != "sparse" else False:
            continue
        nf = int(rng.integers(50, 80))
        K, Kg = pencil(rng, str(rng.choice(["positive", "mixed"])), nf, 1)
        mu = sla.eigh(-Kg.toarray(), K.toarray(), eigvals_only=True)
        Kg = Kg / mu.max()                        # fundamental factor 1
        lref, _ = reference(K, Kg)
        A, B = to_csr(sp.csr_matrix(K)), to_csr(sp.csr_matrix(Kg))
        raised = 0
        for nm in (3, 6, nf):
            for tol in (1e-1, 1e-3, 1e-6, 1e-300):
                bf = E.create_linear_buckling_solver(np.arange(nf), num_modes=1, solver=solver, num_matvecs=nm, conv_tol=tol)
                try:
                    lam, modes = map(np.asarray, bf(A, B))
                except Exception:
                    raised += 1
                    mon.event("nonconvergence_reported")
                    continue
                x = modes[0]
                r = np.linalg.norm(-np.linalg.solve(K.toarray(), Kg @ x) - x / lam[0]) / np.linalg.norm(x)
                mon.true(solver + ".converged_or_reported", np.isfinite(lam[0]) and r <= 1.05 * tol + 1e-15, residual=r, tol=tol, num_matvecs=nm)
                if solver == "sparse" or nm == nf:
                    mon.true(solver + ".fundamental", abs(lam[0] - lref[0]) <= max(1e-6, 2 * tol) * lref[0], got=lam[0], want=lref[0])
        # just above and just below the residual the basis reaches
        for nm in (4, 7, 10):
            mk = lambda tol: E.create_linear_buckling_solver(np.arange(nf), num_modes=1, solver=solver, num_matvecs=nm, conv_tol=tol)
            lam, modes = map(np.asarray, mk(None)(A, B))
            if not np.isfinite(lam[0]):
                continue
            x = modes[0]
            r = np.linalg.norm(-np.linalg.solve(K.toarray(), Kg @ x) - x / lam[0]) / np.linalg.norm(x)
            if r > 1e-9:
                mon.raises(solver + ".tolerance_not_met", lambda: jax.block_until_ready(mk(r / 1.2)(A, B)))
                mon.close(solver + ".tolerance_met", np.asarray(mk(1.2 * r)(A, B)[0]), lam, rtol=1e-9)
                mon.event("tolerance_bracketed")
        # a tolerance below rounding can never be met, a loose one always is with a full basis
        mon.true(solver + ".reports", raised > 0)
        bf = E.create_linear_buckling_solver(np.arange(nf), num_modes=1, solver=solver, num_matvecs=nf)
        mon.true(solver + ".default_full_basis", abs(float(bf(A, B)[0][0]) - lref[0]) <= 1e-3 * lref[0])
        mon.seen("unconverged", solver, raised)


def case_geigh(case, mon):
    rng = rng_for(case)
    for _ in range(case["n"]):
        n = int(rng.integers(2, 24))
        t = str(rng.choice(["random", "repeated", "zero", "graded"]))
        R = rng.normal(size=(n, n))
        Bm = R @ R.T + n * np.eye(n) * 10.0 ** rng.uniform(-2, 1)
        if t == "repeated":
            Q = np.linalg.cholesky(Bm)
            U = np.linalg.qr(rng.normal(size=(n, n)))[0]
            A = Q @ U @ np.diag(rng.integers(-2, 3, n).astype(float)) @ U.T @ Q.T
        elif t == "zero":
            A = np.zeros((n, n))
        else:
            A = rng.normal(size=(n, n)) * (10.0 ** rng.uniform(-6, 6) if t == "graded" else 1)
        As = 0.5 * (A + A.T)
        w, X = map(np.asarray, fe.solvers.eigen.generalized_eigh(jnp.asarray(A if rng.uniform() < 0.5 else As), jnp.asarray(Bm)))
        wr = sla.eigh(As, Bm, eigvals_only=True)
        sc = np.abs(wr).max() + 1e-300
        mon.close("geigh.values", w, wr, rtol=1e-8, scale=sc, t=t)
        mon.true("geigh.ascending", bool(np.all(np.diff(w) >= 0)))
        mon.close("geigh.B_orthonormal", X.T @ Bm @ X, np.eye(n), rtol=1e-8)
        mon.close("geigh.diagonal", X.T @ As @ X, np.diag(wr), rtol=1e-7, scale=sc)
        mon.seen("geigh", t, n < 6)


def case_column(case, mon):
    """Compressed column: K and Kg assembled by the library, factors against LAPACK and,
    for the slender 2-D column, scaling with the load and the opposite load direction."""
    rng = rng_for(case)
    ele = case["ele"]
    dim = 2 if ele.startswith("QUAD") else 3
    ns = (8, 2) if dim == 2 else (4, 2, 1)
    pts, cells = wl.make_mesh(rng, ele, ns, size=[6.0, 1.0, 0.8][:dim])
    mesh = wl.fmesh(pts, cells, ele)
    lamE, mu = 0.6, 0.4

    def psi(F):
        E = 0.5 * (F.T @ F - jnp.eye(dim))
        return 0.5 * lamE * jnp.trace(E) ** 2 + mu * jnp.sum(E * E)

    class P(fe.problem.Problem):
        def get_energy_density(self):
            return lambda gu: psi(gu + jnp.eye(dim))

    p = P(mesh, vec=dim, dim=dim, ele_type=ele)
    tp = fe.TracedParams(volume_vars=())
    n = len(pts) * dim
    u = np.zeros((len(pts), dim))
    e = float(rng.uniform(0.01, 0.03))
    u[:, 0] = -e * pts[:, 0]
    for a in range(1, dim):
        u[:, a] = 0.3 * e * pts[:, a]
    K0 = fe.assembler.get_jacobian(p, [jnp.zeros((len(pts), dim))], tp)
    K1 = fe.assembler.get_jacobian(p, [jnp.asarray(u)], tp)
    Kg = fe.csr.CSRMatrix(K1.data - K0.data, K0.indptr, K0.indices, K0.shape)
    fixed = np.where(np.abs(pts[:, 0]) < 1e-9)[0]
    con = np.unique(np.concatenate([fixed * dim + a for a in range(dim)]))
    free = np.setdiff1d(np.arange(n), con)
    Ks = sp.csr_matrix((np.asarray(K0.data), np.asarray(K0.indices), np.asarray(K0.indptr)), shape=K0.shape)
    Gs = sp.csr_matrix((np.asarray(Kg.data), np.asarray(Kg.indices), np.asarray(Kg.indptr)), shape=K0.shape)
    for sign in (1.0, -1.0):
        G = fe.csr.CSRMatrix(Kg.data * sign, Kg.indptr, Kg.indices, Kg.shape)
        Kf, Gf = Ks[free][:, free], (Gs * sign)[free][:, free]
        lref, Vref = reference(Kf, Gf)
        for solver in ("sparse", "dense"):
            bf = fe.solvers.eigen.create_linear_buckling_solver(free, num_modes=4, solver=solver)
            lam, modes = bf(K0, G)
            judge(mon, f"column.{solver}.", lam, modes, Kf, Gf, free, n, 4, lref, Vref)
        mon.seen("column", ele, sign, len(lref) < len(free))
    mon.event("solves", 4)


def case_report(case, mon):
    """No positive factor, singular K: reported, never invented."""
    rng = rng_for(case)
    nf = 12
    K, Kg = pencil(rng, "positive", nf, 1)
    free = np.arange(nf)
    A, Bneg = to_csr(K), to_csr(sp.csr_matrix(-Kg))
    E = fe.solvers.eigen
    bd = E.create_linear_buckling_solver(free, num_modes=2, solver="dense")
    lam, modes = bd(A, Bneg)
    mon.true("report.dense_no_mode", np.all(np.isinf(np.asarray(lam))) and not np.asarray(modes).any(), got=np.asarray(lam))
    bs = E.create_linear_buckling_solver(free, num_modes=2, solver="sparse")
    mon.raises("report.sparse_no_mode", lambda: jax.block_until_ready(bs(A, Bneg)))
    bn = E.create_linear_buckling_solver(free, num_modes=2, solver="sparse", conv_tol=None)
    lam, modes = bn(A, Bneg)
    mon.true("report.sparse_none_padded", np.all(np.isinf(np.asarray(lam))) and not np.asarray(modes).any(), got=np.asarray(lam))
    g = jax.grad(lambda kd: jnp.sum(1.0 / bn(fe.csr.CSRMatrix(kd, A.indptr, A.indices, A.shape), Bneg)[0]))(A.data)
    mon.true("report.no_mode_gradient_zero", not np.asarray(g).any())
    b0 = E.create_linear_buckling_solver(free, num_modes=2)
    mon.raises("report.jit_before_eager", lambda: jax.jit(b0)(A, to_csr(Kg)))
    mon.raises("report.unknown_solver", lambda: E.create_linear_buckling_solver(free, solver="nope"))
    mon.seen("report")
