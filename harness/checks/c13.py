"""C13: sparse automatic differentiation equals the dense derivative."""
import copy

import numpy as np
import scipy.sparse as sp

from harness import ref, wl
from harness.lazy import fe, jax, jnp
from harness.mon import rng_for

ID = "C13"
RULE = ("randomly generated programs (gathers, scatters, stencils, segment sums, products, selections; rectangular, with empty rows "
        "and columns) and random patterns in every accepted form (detected, exact, superset, scipy with stored zeros, BCOO, dense, "
        "CSR); the CSR results observed at several points against dense automatic differentiation, plus merged structures, "
        "reduced operators and finite-element energies; distinct by (program, pattern form, mode)")
ASSUMPTIONS = ["dense references use jax.jacfwd / jax.hessian of the same user function"]
MIN_EVALUATIONS = 300


def cases(tier, seed):
    out = []
    q = tier == "quick"
    for r in range(32 if q else 100):
        out.append(dict(kind="jac", r=r, cost=3))
    for r in range(20 if q else 60):
        out.append(dict(kind="hess", r=r, cost=4))
    for r in range(6 if q else 30):
        out.append(dict(kind="operator", r=r, cost=2))
        out.append(dict(kind="merge", n=8, cost=1))
        out.append(dict(kind="csr", n=2, cost=2))
    for r in range(2 if q else 8):
        out.append(dict(kind="reduced", cost=3))
        out.append(dict(kind="fem", ele=["QUAD4", "TRI6", "HEX8", "TET4"][r % 4], cost=8))
        out.append(dict(kind="verify", cost=6))
    out += [dict(kind="big", cost=6) for _ in range(1 if q else 4)]
    return [dict(c, seed=seed, i=n) for n, c in enumerate(out)]


# ------------------------------------------------------------------ random programs
def program(rng, n):
    """A vector function R^n -> R^m assembled from sparse pieces."""
    parts, names = [], []
    for _ in range(int(rng.integers(1, 4))):
        t = str(rng.choice(["gather", "stencil", "segment", "scatter", "const_matrix", "select", "slice", "dense_row", "product", "reshape"]))
        names.append(t)
        if t == "gather":
            m, k = int(rng.integers(2, 9)), int(rng.integers(1, 4))
            idx = rng.integers(0, n, (m, k))
            w = rng.normal(size=(m, k))
            parts.append(lambda x, idx=idx, w=w: jnp.sum(jnp.sin(w * x[idx]), axis=1) + jnp.prod(x[idx], axis=1))
        elif t == "stencil":
            c = float(rng.normal())
            parts.append(lambda x, c=c: c * x[1:] * x[:-1] + x[1:] ** 2)
        elif t == "segment":
            seg = rng.integers(0, 5, n)
            parts.append(lambda x, seg=seg: jax.ops.segment_sum(x ** 3 - x, jnp.asarray(seg), num_segments=6))
        elif t == "scatter":
            tgt = rng.integers(0, n, 4)
            src = rng.integers(0, n, 4)
            parts.append(lambda x, tgt=tgt, src=src: (0.3 * x ** 2).at[tgt].add(x[src] * x[tgt]))
        elif t == "const_matrix":
            A = rng.normal(size=(int(rng.integers(2, 6)), n)) * (rng.random((1, n)) < 0.4)
            parts.append(lambda x, A=jnp.asarray(A): jnp.sin(A @ x))
        elif t == "select":
            mask = rng.random(n) < 0.5
            parts.append(lambda x, mask=mask: jnp.where(mask, x ** 2, jnp.roll(x, 2)))
        elif t == "slice":
            parts.append(lambda x: jnp.exp(0.3 * x[::2]))
        elif t == "dense_row":
            parts.append(lambda x: jnp.atleast_1d(jnp.sum(x ** 2) * 0.5))
        elif t == "product":
            p = rng.permutation(n)
            parts.append(lambda x, p=p: x * x[p])
        elif t == "reshape":
            k = n // 2
            parts.append(lambda x, k=k: (x[:2 * k].reshape(2, k)[0] * x[:2 * k].reshape(2, k)[1]))

    def f(x):
        return jnp.concatenate([jnp.ravel(g(x)) for g in parts])
    return f, "+".join(names)


def forms(rng, D, name):
    """A boolean matrix in one of the accepted pattern forms."""
    from jax.experimental.sparse import BCOO
    B = D != 0
    if name == "scipy":
        return sp.csr_matrix(B)
    if name == "scipy_zeros":                              # numeric matrix whose stored entries include zeros
        r, c = np.where(B)
        v = np.where(rng.random(len(r)) < 0.5, 0.0, rng.normal(size=len(r)))
        o = rng.permutation(len(r))
        return sp.coo_matrix((v[o], (r[o], c[o])), shape=B.shape) if rng.random() < 0.5 else sp.csr_matrix((v, (r, c)), shape=B.shape)
    if name == "scipy_dup":
        r, c = np.where(B)
        return sp.coo_matrix((np.ones(2 * len(r)), (np.r_[r, r], np.r_[c, c])), shape=B.shape)
    if name == "bcoo":
        r, c = np.where(B)
        o = rng.permutation(len(r))
        return BCOO((jnp.zeros(len(r)), jnp.asarray(np.stack([r[o], c[o]], 1))), shape=B.shape)
    if name == "csr":
        A = sp.csr_matrix(B)
        return fe.csr.CSRMatrix(jnp.zeros(A.nnz), jnp.asarray(A.indptr), jnp.asarray(A.indices), A.shape)
    return B.astype(float)


FORMS = ("scipy", "scipy_zeros", "scipy_dup", "bcoo", "csr", "dense")


def observe(mon, tag, M, want, struct=None, **d):
    """A CSR result: well formed, equal to the dense matrix."""
    ip, ix = np.asarray(M.indptr), np.asarray(M.indices)
    ok = (tuple(M.shape) == want.shape and len(ip) == want.shape[0] + 1 and ip[0] == 0 and ip[-1] == len(ix)
          and np.all(np.diff(ip) >= 0) and (len(ix) == 0 or (ix.min() >= 0 and ix.max() < want.shape[1])))
    if not mon.true(tag + ".structure", ok, **d):
        return
    rows = np.repeat(np.arange(want.shape[0]), np.diff(ip))
    mon.true(tag + ".no_duplicate_slots", len(set(zip(rows.tolist(), ix.tolist()))) == len(ix), **d)
    got = np.zeros(want.shape)
    np.add.at(got, (rows, ix), np.asarray(M.data))
    mon.close(tag + ".equals_dense", got, want, rtol=1e-10, scale=max(np.abs(want).max() if want.size else 0, 1.0), **d)


def points(rng, n):
    yield np.zeros(n)
    yield rng.normal(size=n)
    x = rng.normal(size=n)
    x[rng.random(n) < 0.5] = 0.0
    yield x
    yield np.ones(n)


def case_jac(case, mon):
    from feax import asd
    rng = rng_for(case)
    n = int(rng.integers(4, 14))
    f, name = program(rng, n)
    J = jax.jit(jax.jacfwd(f))
    P = np.zeros((f(jnp.zeros(n)).shape[0], n), bool)
    for _ in range(6):                                     # generic points reveal the numerical pattern
        P |= np.asarray(J(jnp.asarray(rng.normal(size=n)))) != 0
    detected = asd.detect_jacobian_pattern(f, jnp.zeros(n))
    mon.true("jac.detected_covers", not np.any(P & ~np.asarray(detected.todense(), bool)), prog=name)
    mode = [None, "fwd", "rev"][int(rng.integers(0, 3))]
    sup = P | (rng.random(P.shape) < rng.choice([0.0, 0.2, 1.0]))
    form = str(rng.choice(FORMS))
    jobs = [("detected", dict(x_sample=jnp.zeros(n))), (form, dict(pattern=forms(rng, sup, form)))]
    for tag, kw in jobs:
        fn, pat = asd.sparse_jacobian_fn(f, mode=mode, **kw)
        g = jax.jit(fn)
        S = np.asarray(pat.todense(), bool)
        mon.true("jac.pattern_returned", pat.shape == P.shape and not np.any(P & ~S), prog=name)
        if tag != "detected":
            mon.true("jac.pattern_kept", np.array_equal(S, sup))
        st = None
        for x in points(rng, n):
            M = g(jnp.asarray(x))
            observe(mon, "jac", M, np.asarray(J(jnp.asarray(x))), prog=name, form=tag, mode=mode)
            s2 = (np.asarray(M.indptr).tolist(), np.asarray(M.indices).tolist())
            mon.true("jac.structure_fixed", st is None or st == s2)
            st = s2
        mon.true("jac.structure_is_pattern", st[1] == pat.indices.tolist() and st[0] == pat.indptr.tolist())
        mon.seen("jac", name, tag, str(mode))
    M = fn(jnp.asarray(x))                                 # not compiled
    observe(mon, "jac.eager", M, np.asarray(J(jnp.asarray(x))), prog=name)
    mon.raises("jac.needs_sample_or_pattern", lambda: asd.sparse_jacobian_fn(f), ValueError)


def case_hess(case, mon):
    from feax import asd
    rng = rng_for(case)
    n = int(rng.integers(4, 12))
    f, name = program(rng, n)
    m = f(jnp.zeros(n)).shape[0]
    w = jnp.asarray(rng.normal(size=m))
    g = lambda x: jnp.vdot(w, jnp.sin(f(x))) + 0.5 * jnp.vdot(x, x)
    H = jax.jit(jax.hessian(g))
    P = np.eye(n, dtype=bool)
    for _ in range(5):
        P |= np.asarray(H(jnp.asarray(rng.normal(size=n)))) != 0
    P |= P.T
    mon.true("hess.detected_covers", not np.any(P & ~np.asarray(asd.detect_hessian_pattern(g, jnp.zeros(n)).todense(), bool)), prog=name)
    sup = P | (rng.random(P.shape) < 0.15)
    sup |= sup.T
    form = str(rng.choice(FORMS))
    sym = bool(rng.random() < 0.7)
    for tag, kw in (("detected", dict(x_sample=jnp.zeros(n))), (form, dict(pattern=forms(rng, sup, form)))):
        fn, pat = asd.sparse_hessian_fn(g, symmetric=sym, **kw)
        gj = jax.jit(fn)
        for x in points(rng, n):
            observe(mon, "hess", gj(jnp.asarray(x)), np.asarray(H(jnp.asarray(x))), prog=name, form=tag, sym=sym)
        mon.seen("hess", name, tag, sym)
    mon.raises("hess.needs_sample_or_pattern", lambda: asd.sparse_hessian_fn(g), ValueError)


def case_operator(case, mon):
    from feax import asd
    rng = rng_for(case)
    for _ in range(4):
        m, n = int(rng.integers(1, 16)), int(rng.integers(1, 16))
        D = rng.normal(size=(m, n)) * (rng.random((m, n)) < rng.choice([0.0, 0.1, 0.3, 0.9]))
        sup = (D != 0) | (rng.random(D.shape) < rng.choice([0.0, 0.2]))
        form = str(rng.choice(FORMS))
        mode = str(rng.choice(["fwd", "rev"]))
        if not sup.any():
            form = "scipy"
        asm = asd.operator_assembler(forms(rng, sup, form), mode=mode)
        Dj = jnp.asarray(D)
        observe(mon, "operator", asm(lambda v: Dj @ v), D, form=form, mode=mode)
        # the same assembler on another operator of the pattern
        E = jnp.asarray(rng.normal(size=D.shape) * sup)
        observe(mon, "operator.again", asm(lambda v: E @ v), np.asarray(E), form=form, mode=mode)
        mon.seen("operator", form, mode, m < n)


def case_merge(case, mon):
    from feax import asd
    from feax.csr import CSRMatrix, transpose_with_maps
    rng = rng_for(case)
    for _ in range(case["n"]):
        m, n = int(rng.integers(1, 12)), int(rng.integers(1, 12))
        da, db = rng.choice([0.0, 0.1, 0.4, 1.0], 2)
        A, B = rng.random((m, n)) < da, rng.random((m, n)) < db
        fa, fb = [str(x) for x in rng.choice(FORMS, 2)]
        fa, fb = fa if A.any() else "scipy", fb if B.any() else "scipy"
        M = asd.merge_csr_patterns(forms(rng, A, fa), forms(rng, B, fb))
        U = A | B
        want = sp.csr_matrix(U)
        mon.equal("merge.shape", tuple(M["shape"]), (m, n))
        mon.equal("merge.nnz", int(M["nnz"]), int(U.sum()))
        ok = np.array_equal(np.asarray(M["indptr"]), want.indptr) and np.array_equal(np.asarray(M["indices"]), want.indices)
        if not mon.true("merge.union", ok, fa=fa, fb=fb):
            continue
        va, vb = rng.normal(size=int(A.sum())), rng.normal(size=int(B.sum()))
        data = np.zeros(int(U.sum()))
        mon.equal("merge.slot_counts", (len(M["slots_a"]), len(M["slots_b"])), (len(va), len(vb)))
        np.add.at(data, np.asarray(M["slots_a"]), va)
        np.add.at(data, np.asarray(M["slots_b"]), vb)
        DA, DB = np.zeros((m, n)), np.zeros((m, n))
        DA[A], DB[B] = va, vb                              # row-major, as CSR order
        C = CSRMatrix(jnp.asarray(data), M["indptr"], M["indices"], (m, n))
        observe(mon, "merge.sum", C, DA + DB, fa=fa, fb=fb)
        T = transpose_with_maps(C, M["T_perm"], M["T_indptr"], M["T_indices"])
        observe(mon, "merge.transpose", T, (DA + DB).T)
        mon.seen("merge", fa, fb, str(da), str(db))


def case_big(case, mon):
    """As many rows as a real mesh: positions beyond 16 and 32 bits."""
    from feax import asd
    from feax.csr import CSRMatrix, transpose_with_maps
    rng = rng_for(case)
    n = int(rng.integers(47000, 60000))
    def band(offs):
        return sp.diags([np.ones(n - abs(o)) for o in offs], offs, shape=(n, n), format="csr")
    A, B = band([0, 1, -3]), band([0, -1, int(rng.integers(5, 400)), -int(rng.integers(5, n // 2))])
    M = asd.merge_csr_patterns(A, B)
    va, vb = rng.normal(size=A.nnz), rng.normal(size=B.nnz)
    data = np.zeros(int(M["nnz"]))
    np.add.at(data, np.asarray(M["slots_a"]), va)
    np.add.at(data, np.asarray(M["slots_b"]), vb)
    A.sort_indices(), B.sort_indices()
    A.data[:], B.data[:] = va, vb
    W = (A + B).tocsr()
    C = CSRMatrix(jnp.asarray(data), M["indptr"], M["indices"], (n, n))
    v = rng.normal(size=n)
    T = transpose_with_maps(C, M["T_perm"], M["T_indptr"], M["T_indices"])
    mon.close("big.sum", np.asarray(C @ jnp.asarray(v)), W @ v, rtol=1e-12)
    mon.close("big.transpose", np.asarray(T @ jnp.asarray(v)), W.T @ v, rtol=1e-12)
    mon.close("big.lazy_transpose", np.asarray(C.T @ jnp.asarray(v)), W.T @ v, rtol=1e-12)
    mon.close("big.diagonal", np.asarray(C.diagonal()), W.diagonal(), rtol=1e-13)
    # derivative of a local map through a given pattern
    pat = band([-1, 0, 1, 2])

    def f(x):
        z = jnp.zeros(3)
        y = jnp.concatenate([z[:1], x, z[:2]])
        return y[1:-2] ** 2 * y[2:-1] + jnp.sin(y[:-3]) - 0.5 * y[3:] ** 2
    fn, out = asd.sparse_jacobian_fn(f, pattern=pat)
    x = rng.normal(size=n)
    J = fn(jnp.asarray(x))
    mon.close("big.jacobian", np.asarray(J @ jnp.asarray(v)), np.asarray(jax.jvp(f, (jnp.asarray(x),), (jnp.asarray(v),))[1]), rtol=1e-11)
    op = asd.operator_assembler(pat)
    R = op(lambda w: jax.jvp(f, (jnp.asarray(x),), (w,))[1])
    mon.close("big.operator", np.asarray(R @ jnp.asarray(v)), np.asarray(J @ jnp.asarray(v)), rtol=1e-11)
    P = sp.csr_matrix((np.ones(n), (np.arange(n), np.arange(n) % (n - 5))), shape=(n, n - 5))
    red = asd.reduced_operator_pattern(P, pat)
    want = (P.T @ pat @ P).tocsr()
    got = red.tocsr() if sp.issparse(red) else red
    mon.true("big.reduced", ((want != 0) != (got != 0)).nnz == 0)
    mon.event("big patterns")
    mon.seen("big", n)


def case_csr(case, mon):
    """Operations of the returned matrix type."""
    from feax.csr import CSRMatrix
    rng = rng_for(case)
    for _ in range(case["n"]):
        m, n = int(rng.integers(1, 12)), int(rng.integers(1, 12))
        D = rng.normal(size=(m, n)) * (rng.random((m, n)) < 0.4)
        keep = (D != 0) | (rng.random((m, n)) < 0.1)
        A = sp.csr_matrix(keep)
        C = CSRMatrix(jnp.asarray(D[keep]), jnp.asarray(A.indptr), jnp.asarray(A.indices), (m, n))
        v, w = rng.normal(size=n), rng.normal(size=m)

        def ops(C, v, w):
            return C @ v, C.rmatvec(w), C.T @ w, C.diagonal(), C.todense(), C.T.todense(), C.with_data(2 * C.data) @ v
        a, b, c, d, e, g, h = [np.asarray(x) for x in jax.jit(ops)(C, jnp.asarray(v), jnp.asarray(w))]
        mon.close("csr.matvec", a, D @ v, rtol=1e-12, scale=10.0)
        mon.close("csr.rmatvec", b, D.T @ w, rtol=1e-12, scale=10.0)
        mon.close("csr.transpose_matvec", c, D.T @ w, rtol=1e-12, scale=10.0)
        dg = np.zeros(m)
        dg[:min(m, n)] = np.diag(D)
        mon.close("csr.diagonal", d, dg, rtol=1e-13, scale=1.0)
        mon.close("csr.dense", e, D, rtol=0)
        mon.close("csr.dense_transpose", g, D.T, rtol=0)
        mon.close("csr.with_data", h, 2 * D @ v, rtol=1e-12, scale=10.0)
        mon.seen("csr", m < n, bool((D.sum(1) == 0).any()))


def case_reduced(case, mon):
    from feax import asd
    rng = rng_for(case)
    for t in range(5):
        N, M = int(rng.integers(4, 14)), int(rng.integers(2, 8))
        if t == 4:                                         # one reduced dof carries a whole rigid part
            N, M = 40, 3
        P = np.zeros((N, M))
        style = str(rng.choice(["tie", "rot", "dense"])) if t < 4 else "rigid"
        if style == "rigid":
            P[:, 0] = np.arange(N) < 16
            P[np.arange(16, N), 1 + np.arange(16, N) // 32] = 1
        elif style == "tie":
            P[np.arange(N), rng.integers(0, M, N)] = 1
        elif style == "rot":
            P[np.arange(N), rng.integers(0, M, N)] = rng.normal(size=N)
            P[np.arange(N), rng.integers(0, M, N)] -= 1
        else:
            P = rng.normal(size=(N, M)) * (rng.random((N, M)) < 0.5)
        Kp = rng.random((N, N)) < (0.25 if style != "rigid" else 2.0)
        K = rng.normal(size=(N, N)) * Kp
        fp, fk = str(rng.choice(["scipy", "bcoo", "dense"])), str(rng.choice(FORMS))
        pat = asd.reduced_operator_pattern(forms(rng, P, fp) if fp != "dense" else P, forms(rng, Kp, fk))
        S = np.asarray(pat.todense(), bool)
        want = (P != 0).T.astype(int) @ Kp.astype(int) @ (P != 0).astype(int) > 0
        mon.true("reduced.pattern", np.array_equal(S, want), fp=fp, fk=fk, style=style)
        R = P.T @ K @ P
        Pj, Kj = jnp.asarray(P), jnp.asarray(K)
        observe(mon, "reduced.values", asd.operator_assembler(pat)(lambda v: Pj.T @ (Kj @ (Pj @ v))), R)
        mon.seen("reduced", style, fp, fk)


def case_fem(case, mon):
    """The finite-element energy and residual: sparse derivatives equal the assembled tangent."""
    from feax import asd
    rng = rng_for(case)
    c = wl.gen(rng, "nh", ele=case["ele"], ns=(2, 2) if case["ele"] in ("QUAD4", "TRI6") else (2, 1, 1), h=0.0, t=0.0)
    p, tp = c.p, c.tp
    u = rng.uniform(-.02, .02, c.n)
    uj = jnp.asarray(u)
    K = c.K(u)
    pat = asd.connectivity_pattern(p)
    mon.true("fem.connectivity_covers", not np.any((np.abs(K) > 1e-13) & ~np.asarray(pat.todense(), bool)))
    R = lambda x: c.res_flat(x, tp)
    fn, _ = asd.sparse_jacobian_fn(R, pattern=pat)
    observe(mon, "fem.jacobian", jax.jit(fn)(uj), K)
    E = fe.assembler.create_energy_fn(p)
    h, _ = asd.sparse_hessian_fn(lambda x: E(x, tp), pattern=pat)
    observe(mon, "fem.hessian", jax.jit(h)(uj), K)
    mon.seen("fem", case["ele"])


def case_verify(case, mon):
    """The pattern verifier says yes exactly when the pattern covers the residual's dependencies."""
    from feax import asd
    rng = rng_for(case)
    c = wl.gen(rng, "elastic", ele="QUAD4", ns=(2, 1))
    rep = asd.verify_jacobian_pattern(c.p, c.tp)
    n = c.n
    K = np.abs(c.K(rng.normal(size=n))) > 1e-12
    full = np.asarray(asd.connectivity_pattern(c.p).todense(), bool)
    mon.true("verify.accepts_right_pattern", bool(rep["ok"]) and rep["num_missing"] == 0)
    mon.equal("verify.pattern_size", int(rep["num_pattern"]), int(full.sum()))
    mon.close("verify.coverage", rep["coverage"], rep["num_detected"] / full.sum(), rtol=1e-12)
    q = copy.copy(c.p)
    r, s = np.where(K)
    drop = int(rng.integers(len(r)))
    B = full.copy()
    B[r[drop], s[drop]] = False                            # a pattern that misses one real coupling
    A = sp.csr_matrix(B)
    q.csr_indptr, q.csr_indices = A.indptr, A.indices
    rep = asd.verify_jacobian_pattern(q, c.tp)
    mon.true("verify.rejects_missing_entry", not rep["ok"] and rep["num_missing"] >= 1, missing=rep["num_missing"])
    c2 = wl.gen(rng, "elastic", ele="QUAD4", ns=(3, 1))    # roomy where nothing couples, and short of real couplings
    K2 = np.abs(c2.K(rng.normal(size=c2.n))) > 1e-12
    B = np.asarray(asd.connectivity_pattern(c2.p).todense(), bool)
    far = np.argwhere(~B)
    B[tuple(far[rng.permutation(len(far))[:12]].T)] = True
    k = int(rng.integers(1, 6))
    hit = np.argwhere(K2)
    B[tuple(hit[rng.permutation(len(hit))[:k]].T)] = False
    A = sp.csr_matrix(B)
    q = copy.copy(c2.p)
    q.csr_indptr, q.csr_indices = A.indptr, A.indices
    rep = asd.verify_jacobian_pattern(q, c2.tp)
    mon.true("verify.counts_missing_entries", not rep["ok"] and rep["num_missing"] == k, missing=rep["num_missing"], k=k)
    mon.equal("verify.roomy_pattern_size", int(rep["num_pattern"]), int(B.sum()))
    tri = wl.gen(rng, "elastic", ele="QUAD4", ns=(1, 1), view="UPPER")
    mon.raises("verify.triangular_rejected", lambda: asd.connectivity_pattern(tri.p), ValueError)
    mon.seen("verify")
