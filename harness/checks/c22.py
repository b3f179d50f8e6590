"""C22: composite stiffness, thermal and geometric-stiffness quantities equal direct integration over plies and fibres."""
import itertools
import os
import shutil
import tempfile

import numpy as np

from harness import ref, wl
from harness.lazy import fe, jax, jnp
from harness.mon import rng_for

ID = "C22"
RULE = ("random lamina constants, angles, layups (1..7 plies, equal and very unequal thicknesses, per-ply or shared material), temperature profiles, "
        "plate meshes, distorted and affine hexahedra, fibre distributions (Dirac, multi-peak, sub-normalised, isotropic), box variables on corners, "
        "edges and inside, tanks; distinct by (kind, ply count, element type, distribution, strain measure, coupling options)")
ASSUMPTIONS = ["lamina constants are thermodynamically admissible (positive-definite compliance)",
               "for 3-D box variables only the documented admissibility is claimed: a_ii >= 0, trace <= 1, a_ij^2 <= a_ii a_jj, up to the 1e-6 floor in the code"]
MIN_EVALUATIONS = 400

PAIRS = ((0, 0), (1, 1), (2, 2), (1, 2), (0, 2), (0, 1))


def cases(tier, seed):
    out = []
    q = tier == "quick"
    for r in range(6 if q else 30):
        out.append(dict(kind="lamina", r=r, cost=2))
    for r in range(8 if q else 40):
        out.append(dict(kind="laminate", r=r, cost=2))
    for r in range(6 if q else 24):
        out.append(dict(kind="plate", ele=("QUAD4", "TRI3", "QUAD8", "TRI6")[(r + seed) % 4], r=r, cost=3))
    for r in range(4 if q else 16):
        out.append(dict(kind="layered", r=r, cost=4))
    for r in range(4 if q else 16):
        out.append(dict(kind="oriented", r=r, cost=4))
    for r in range(6 if q else 30):
        out.append(dict(kind="box", r=r, cost=2))
    for r in range(6 if q else 30):
        out.append(dict(kind="fibres", d=2 + r % 2, r=r, cost=2))
    for r in range(3 if q else 12):
        out.append(dict(kind="tank", r=r, cost=4))
    return [dict(c, seed=seed, i=n) for n, c in enumerate(out)]


# ------------------------------------------------------------------ independent constitutive reference
def lamina(rng):
    """E1, E2, E3, G12, G13, G23, nu12, nu13, nu23 with a safely positive-definite compliance."""
    while True:
        E1 = 10 ** rng.uniform(0, 2)
        E2, E3 = E1 * 10 ** rng.uniform(-1.5, 0.3, 2)
        G = 10 ** rng.uniform(-1, 1, 3) * E2
        nu = rng.uniform(-0.2, 0.45, 3)
        S = compliance(E1, E2, E3, *G, *nu)
        w = np.linalg.eigvalsh(S)
        if w[0] > 1e-3 * w[-1] * min(1, E2 / E1) and w[0] > 0:
            return (E1, E2, E3, *G, *nu)


def compliance(E1, E2, E3, G12, G13, G23, nu12, nu13, nu23):
    """(6,6) compliance acting on Kelvin-free Voigt (11,22,33,23,13,12), engineering shears."""
    S = np.diag([1 / E1, 1 / E2, 1 / E3, 1 / G23, 1 / G13, 1 / G12])
    S[0, 1] = S[1, 0] = -nu12 / E1
    S[0, 2] = S[2, 0] = -nu13 / E1
    S[1, 2] = S[2, 1] = -nu23 / E2
    return S


def stress3(S, eps):
    """stress of a tensor strain, by solving the compliance relation (no tensor conversion shared with the code)."""
    e = np.array([eps[i, j] * (1 if i == j else 2) for i, j in PAIRS])
    s = np.linalg.solve(S, e)
    out = np.zeros((3, 3))
    for v, (i, j) in zip(s, PAIRS):
        out[i, j] = out[j, i] = v
    return out


def tensor_of(apply, d):
    """4th-order tensor of a linear map on symmetric tensors."""
    C = np.zeros((d,) * 4)
    for k in range(d):
        for l in range(d):
            e = np.zeros((d, d))
            e[k, l] += 0.5
            e[l, k] += 0.5
            C[:, :, k, l] = apply(e)
    return C


def lamina3(c):
    S = compliance(*c)
    return tensor_of(lambda e: stress3(S, e), 3)


def lamina2(E1, E2, G12, nu12):
    S = np.array([[1 / E1, -nu12 / E1, 0], [-nu12 / E1, 1 / E2, 0], [0, 0, 1 / G12]])

    def apply(e):
        s = np.linalg.solve(S, [e[0, 0], e[1, 1], 2 * e[0, 1]])
        return np.array([[s[0], s[2]], [s[2], s[1]]])
    return tensor_of(apply, 2)


def rot2(t):
    return np.array([[np.cos(t), -np.sin(t)], [np.sin(t), np.cos(t)]])


def turned(C, R):
    """C in rotated axes, by rotating the strain back, applying C, rotating the stress forward."""
    d = len(R)
    return tensor_of(lambda e: R @ np.einsum("ijkl,kl->ij", C, R.T @ e @ R) @ R.T, d)


def rotation(rng):
    q, _ = np.linalg.qr(rng.normal(size=(3, 3)))
    return q if np.linalg.det(q) > 0 else -q


def rodrigues(t, axis, v):
    a = np.asarray(axis, float) / np.linalg.norm(axis)
    return v * np.cos(t) + np.cross(a, v) * np.sin(t) + a * (a @ v) * (1 - np.cos(t))


def sym(rng, d=2, s=1.0):
    a = rng.normal(size=(d, d)) * s
    return a + a.T


def near(mon, what, got, want, tol=1e-10, **kw):
    want = np.asarray(want, float)
    scale = float(np.max(np.abs(want))) if want.size else 1.0
    mon.close(what, np.asarray(got), want, atol=tol * max(scale, 1e-300), rtol=0, **kw)


# ------------------------------------------------------------------ lamina
def case_lamina(case, mon):
    import feax.mechanics as M
    rng = rng_for(case)
    mon.seen("kind", "lamina")
    for _ in range(3):
        c = lamina(rng)
        E1, E2, E3, G12, G13, G23, n12, n13, n23 = c
        mon.event("lamina", 1)
        C = np.asarray(M.orthotropic_stiffness_3d(*c))
        near(mon, "orthotropic stiffness inverts the engineering compliance", C, lamina3(c), 1e-8)
        back = np.asarray(M.tensor_to_voigt(jnp.asarray(C)))
        near(mon, "Voigt form of the stiffness", back, np.linalg.inv(compliance(*c)), 1e-8)
        near(mon, "Voigt -> tensor -> Voigt is the identity", M.tensor_to_voigt(M.voigt_to_tensor(jnp.asarray(back))), back, 1e-14)
        A = rng.normal(size=(6, 6))
        T = np.asarray(M.voigt_to_tensor(jnp.asarray(A)))
        mon.true("tensor has the minor symmetries", bool(np.all(T == T.transpose(1, 0, 2, 3)) and np.all(T == T.transpose(0, 1, 3, 2))))
        near(mon, "tensor -> Voigt of a general matrix", M.tensor_to_voigt(jnp.asarray(T)), A, 1e-14)
        ti = (E1, E2, E2, G12, G12, E2 / (2 * (1 + n23)), n12, n12, n23)
        w = np.linalg.eigvalsh(compliance(*ti))
        if w[0] > 1e-4 * w[-1]:
            near(mon, "transversely isotropic stiffness inverts its compliance", M.transverse_isotropic_stiffness_3d(E1, E2, G12, n12, n23), lamina3(ti), 1e-8)
        E, nu = 10 ** rng.uniform(-1, 3), rng.uniform(-0.4, 0.45)
        G = E / (2 * (1 + nu))
        near(mon, "isotropic 3-D stiffness inverts its compliance", M.isotropic_stiffness_3d(E, nu), lamina3((E, E, E, G, G, G, nu, nu, nu)), 1e-9)
        near(mon, "isotropic plane-stress stiffness inverts its compliance", M.isotropic_in_plane_stiffness(E, nu), lamina2(E, E, G, nu), 1e-9)
        nn = rng.uniform(-0.3, 0.9) * np.sqrt(E1 / E2) * 0.9
        near(mon, "orthotropic plane-stress stiffness inverts its compliance", M.orthotropic_in_plane_stiffness(E1, E2, G12, nn), lamina2(E1, E2, G12, nn), 1e-8)
        # rotations
        t1, t2 = rng.uniform(-7, 7, 2)
        C2 = lamina2(E1, E2, G12, n12)
        near(mon, "in-plane rotation is the rotated material", M.rotate_in_plane_stiffness(jnp.asarray(C2), t1), turned(C2, rot2(t1)), 1e-10)
        g = np.diag(rng.uniform(0.1, 3, 2)) if rng.random() < 0.5 else sym(rng)
        near(mon, "shear stiffness rotates as a tensor", M.rotate_shear_stiffness(jnp.asarray(g), t1), rot2(t1) @ g @ rot2(-t1), 1e-10)
        near(mon, "thermal expansion rotates as a tensor", M.rotate_thermal_expansion(jnp.asarray(g), t2), rot2(t2) @ g @ rot2(-t2), 1e-10)
        near(mon, "in-plane rotations compose", M.rotate_in_plane_stiffness(M.rotate_in_plane_stiffness(jnp.asarray(C2), t1), t2), turned(C2, rot2(t1 + t2)), 1e-10)
        ax = rng.normal(size=3) * 10 ** rng.uniform(-3, 3)
        R = np.asarray(M.rotation_matrix_axis(t1, ax))
        v = rng.normal(size=3)
        near(mon, "axis rotation turns vectors right-handed by the angle", R @ v, rodrigues(t1, ax, v), 1e-10)
        near(mon, "axis rotation default axis is z", M.rotation_matrix_axis(t2), np.block([[rot2(t2), np.zeros((2, 1))], [np.zeros((1, 2)), np.ones((1, 1))]]), 1e-12)
        Q = rotation(rng)
        near(mon, "3-D stiffness rotation is the rotated material", M.rotate_stiffness_3d(jnp.asarray(C), jnp.asarray(Q)), turned(C, Q), 1e-10)
        a = sym(rng, 3)
        near(mon, "3-D expansion rotates as a tensor", M.rotate_cte_3d(jnp.asarray(a), jnp.asarray(Q)), Q @ a @ Q.T, 1e-12)
        near(mon, "3-D expansion tensors", np.stack([M.isotropic_cte_3d(n12), M.transverse_isotropic_cte_3d(n12, n23)]), np.stack([n12 * np.eye(3), np.diag([n12, n23, n23])]), 1e-14)
        p = rng.normal(size=2)
        p /= np.linalg.norm(p)
        wts = rng.dirichlet(np.ones(5))
        ang = rng.uniform(0, 7, 5)
        a2 = sum(w * np.outer([np.cos(x), np.sin(x)], [np.cos(x), np.sin(x)]) for w, x in zip(wts, ang))
        want = sum(w * (rot2(x) @ np.diag([n12, n23]) @ rot2(-x)) for w, x in zip(wts, ang))
        # partly empty material (trace below one), as the interpolation is documented
        q2 = float(rng.uniform(0.1, 1)) * a2
        near(mon, "expansion interpolates between transverse and fibre", M.thermal_expansion_from_orientation(jnp.asarray(q2), n12, n23), n23 * np.eye(2) + (n12 - n23) * q2, 1e-12)
        near(mon, "expansion of a fibre distribution is the average of its fibres", M.thermal_expansion_from_orientation(jnp.asarray(a2), n12, n23), want, 1e-12)


# ------------------------------------------------------------------ laminate
def plies(rng, n):
    t = 10 ** rng.uniform(-2, 0, n) if rng.random() < 0.5 else np.full(n, 10 ** rng.uniform(-3, 1))
    if rng.random() < 0.3:                                 # nearly, but not quite, equal plies
        t = t * (1 + rng.uniform(-0.03, 0.03, n))
    th = rng.uniform(-4, 4, n)
    if rng.random() < 0.3:
        th = rng.choice([0, np.pi / 2, np.pi / 4, -np.pi / 4], n)
    return th, t


def case_laminate(case, mon):
    import feax.mechanics as M
    rng = rng_for(case)
    n = int(rng.integers(1, 8))
    mon.seen("kind", f"laminate:{n}")
    th, t = plies(rng, n)
    per = bool(rng.random() < 0.6)
    m = n if per else 1
    cs = [lamina(rng) for _ in range(m)]
    Cs = np.stack([lamina2(c[0], c[1], c[3], c[6]) for c in cs])
    Gs = np.stack([np.diag([c[4], c[5]]) for c in cs])
    al = np.stack([sym(rng, 2, 1e-2) for _ in cs])
    ks = float(rng.choice([5 / 6, 1.0, rng.uniform(0.3, 1)]))
    mon.event("laminate", 1)
    kw = {} if ks == 5 / 6 else dict(kappa_s=ks)
    arg = (lambda a: jnp.asarray(a if per else a[0]))
    A, B, D, G = M.laminate_stiffness(arg(Cs), arg(Gs), jnp.asarray(th), jnp.asarray(t), **kw)
    dTa, dTg = float(rng.normal() * 50), float(rng.choice([0.0, rng.normal() * 30]))
    NT, MT = M.laminate_thermal_loads(arg(Cs), arg(al), jnp.asarray(th), jnp.asarray(t), dT_avg=dTa, dT_grad=dTg)
    z = np.asarray(M.z_layer_coordinates(jnp.asarray(t)))
    h = float(np.sum(t))
    near(mon, "ply interfaces are stacked bottom to top about the midplane", z, np.concatenate([[0], np.cumsum(t)]) - h / 2, 1e-13)
    # direct numerical integration through the thickness, ply by ply (Gauss, exact for the polynomials involved)
    xg, wg = np.polynomial.legendre.leggauss(4)
    wA = np.zeros((2,) * 4); wB = np.zeros((2,) * 4); wD = np.zeros((2,) * 4); wG = np.zeros((2, 2)); wN = np.zeros((2, 2)); wM = np.zeros((2, 2))
    zlo = -h / 2
    for k in range(n):
        Ck = turned(Cs[k % m], rot2(th[k]))
        Gk = rot2(th[k]) @ Gs[k % m] @ rot2(-th[k])
        ak = rot2(th[k]) @ al[k % m] @ rot2(-th[k])
        sk = np.einsum("ijkl,kl->ij", Ck, ak)
        for x, w in zip(xg, wg):
            zz, ww = zlo + (x + 1) / 2 * t[k], w / 2 * t[k]
            wA += ww * Ck; wB += ww * zz * Ck; wD += ww * zz * zz * Ck; wG += ks * ww * Gk
            wN += ww * sk * (dTa + zz * dTg); wM += ww * zz * sk * (dTa + zz * dTg)
        zlo += t[k]
    sA, sS = float(np.abs(wA).max()), float(max(np.abs(np.einsum("ijkl,kl->ij", C, a)).max() for C, a in zip(Cs, al)))
    mon.close("membrane stiffness is the thickness integral", np.asarray(A), wA, atol=1e-10 * sA, rtol=0)
    mon.close("coupling stiffness is the first moment", np.asarray(B), wB, atol=1e-10 * sA * h, rtol=0)
    mon.close("bending stiffness is the second moment", np.asarray(D), wD, atol=1e-10 * sA * h * h, rtol=0)
    mon.close("transverse shear stiffness is the corrected integral", np.asarray(G), wG, atol=1e-10 * np.abs(wG).max(), rtol=0)
    Tm = abs(dTa) + abs(dTg) * h
    mon.close("thermal force is the thickness integral of the thermal stress", np.asarray(NT), wN, atol=1e-10 * sS * h * Tm, rtol=0)
    mon.close("thermal moment is its first moment", np.asarray(MT), wM, atol=1e-10 * sS * h * h * Tm, rtol=0)
    if dTg == 0.0 and rng.random() < 0.5:
        N1, _ = M.laminate_thermal_loads(arg(Cs), arg(al), jnp.asarray(th), jnp.asarray(t))
        mon.close("default thermal load is one degree uniform", np.asarray(N1), wN / dTa, atol=1e-10 * sS * h, rtol=0)
    # a free laminate heated uniformly: every combination of a symmetric stack is uncoupled
    ths, ts = np.concatenate([th, th[::-1]]), np.concatenate([t, t[::-1]])
    Cf, Gf = (np.concatenate([Cs, Cs[::-1]]), np.concatenate([Gs, Gs[::-1]])) if per else (Cs[0], Gs[0])
    _, B2, _, _ = M.laminate_stiffness(jnp.asarray(Cf), jnp.asarray(Gf), jnp.asarray(ths), jnp.asarray(ts))
    mon.close("a midplane-symmetric stack has no coupling", np.asarray(B2), np.zeros((2,) * 4), atol=1e-10 * sA * h, rtol=0)
    # homogeneous plate and one-ply laminate agree
    hh = float(10 ** rng.uniform(-2, 1))
    Cp, Gp = Cs[0], (float(rng.uniform(0.1, 3)) if rng.random() < 0.5 else Gs[0])
    pA, pD, pG = M.plate_stiffness(jnp.asarray(Cp), hh, Gp if np.ndim(Gp) == 0 else jnp.asarray(Gp), **kw)
    near(mon, "plate membrane stiffness", pA, Cp * hh)
    near(mon, "plate bending stiffness", pD, Cp * hh ** 3 / 12)
    near(mon, "plate shear stiffness", pG, ks * hh * (np.eye(2) * Gp if np.ndim(Gp) == 0 else Gp))
    for f, a in ((M.laminate_stiffness, Gs), (M.laminate_thermal_loads, al)):
        mon.raises("angles and thicknesses of different length are rejected", lambda f=f, a=a: f(jnp.asarray(Cs[0]), jnp.asarray(a[0]), jnp.asarray(th), jnp.asarray(np.append(t, 1.0))), ValueError)


# ------------------------------------------------------------------ Mindlin plate
def case_plate(case, mon):
    import feax.mechanics as M
    rng = rng_for(case)
    ele = case["ele"]
    vk = bool(rng.random() < 0.6)
    opts = rng.random(3) < 0.6
    mon.seen("kind", f"plate:{ele}:{vk}:{''.join(map(str, opts.astype(int)))}")
    n = int(rng.integers(1, 5))
    th, t = plies(rng, n)
    c = lamina(rng)
    A, B, D, G = (np.array(x) for x in M.laminate_stiffness(jnp.asarray(lamina2(c[0], c[1], c[3], c[6])), jnp.diag(jnp.array([c[4], c[5]])), jnp.asarray(th), jnp.asarray(t)))
    if opts[0]:
        Q = rng.normal(size=(2,) * 4) * np.abs(A).max()
        Q = Q + Q.transpose(1, 0, 2, 3); Q = Q + Q.transpose(0, 1, 3, 2)
        B = Q + Q.transpose(2, 3, 0, 1)
    kw = dict(B=jnp.asarray(B) if opts[0] else None, N_T=jnp.asarray(sym(rng)) if opts[1] else None, M_T=jnp.asarray(sym(rng)) if opts[2] else None)
    measure = "von_karman" if vk else "linear"
    # pointwise
    gu, gt, tt = rng.normal(size=(3, 2)), rng.normal(size=(2, 2)), rng.normal(size=2)
    e, k, g = M.mindlin_strains(jnp.asarray(gu), jnp.asarray(gt), jnp.asarray(tt), nonlinear=measure)
    we = (gu[:2] + gu[:2].T) / 2 + (0.5 * np.outer(gu[2], gu[2]) if vk else 0)
    wk, wg = (gt + gt.T) / 2, gu[2] + tt
    near(mon, "membrane strain", e, we); near(mon, "curvature", k, wk); near(mon, "transverse shear", g, wg)
    N, Mm, Q = M.mindlin_resultants(e, k, g, jnp.asarray(A), jnp.asarray(D), jnp.asarray(G), **kw)
    dd = lambda X, y: np.einsum("ijkl,kl->ij", X, y)
    wN = dd(A, we) + (dd(B, wk) if opts[0] else 0) - (np.asarray(kw["N_T"]) if opts[1] else 0)
    wM = dd(D, wk) + (dd(B, we) if opts[0] else 0) - (np.asarray(kw["M_T"]) if opts[2] else 0)
    near(mon, "membrane forces", N, wN); near(mon, "moments", Mm, wM); near(mon, "shear forces", Q, G @ wg)
    mon.raises("an unknown strain measure is rejected", lambda: M.mindlin_strains(jnp.asarray(gu), jnp.asarray(gt), jnp.asarray(tt), nonlinear="green"), ValueError)
    # assembled residual is the gradient of the plate energy
    ns = tuple(int(v) for v in rng.integers(1, 3, 2))
    pts, cells = wl.make_mesh(rng, ele, ns, size=rng.uniform(0.5, 2, 2), origin=rng.normal(size=2), distort=0.2)
    p = M.make_mindlin_plate(wl.fmesh(pts, cells, ele), jnp.asarray(A), jnp.asarray(D), jnp.asarray(G), ele_type=ele, nonlinear=measure, **kw)
    U = [rng.normal(size=(len(pts), 3)) * 0.3, rng.normal(size=(len(pts), 2)) * 0.3]
    got = fe.assembler.get_res(p, [jnp.asarray(u) for u in U], fe.TracedParams(volume_vars=()))
    geo = ref.Geo(pts, cells, ele, ref.DEFAULT_ORDER[ele])
    cells = np.asarray(cells)

    def energy(u, r):
        gu = jnp.einsum("cqad,cai->cqid", geo.dN, u[cells]); gr = jnp.einsum("cqad,cai->cqid", geo.dN, r[cells])
        rv = jnp.einsum("qa,cai->cqi", geo.N, r[cells])
        e = (gu[..., :2, :] + jnp.swapaxes(gu[..., :2, :], -1, -2)) / 2
        w = gu[..., 2, :]
        if vk:
            e = e + w[..., :, None] * w[..., None, :] / 2
        k = (gr + jnp.swapaxes(gr, -1, -2)) / 2
        s = w + rv
        W = 0.5 * jnp.einsum("cqij,ijkl,cqkl->cq", e, A, e) + 0.5 * jnp.einsum("cqij,ijkl,cqkl->cq", k, D, k) + 0.5 * jnp.einsum("cqi,ij,cqj->cq", s, G, s)
        if opts[0]:
            W = W + jnp.einsum("cqij,ijkl,cqkl->cq", e, B, k)
        if opts[1]:
            W = W - jnp.einsum("cqij,ij->cq", e, kw["N_T"])
        if opts[2]:
            W = W - jnp.einsum("cqij,ij->cq", k, kw["M_T"])
        return jnp.sum(W * geo.JxW)

    want = jax.jit(jax.grad(energy, argnums=(0, 1)))(jnp.asarray(U[0]), jnp.asarray(U[1]))
    scale = max(float(jnp.abs(w).max()) for w in want)
    for i, nm in enumerate(("displacement", "rotation")):
        mon.close(f"plate {nm} residual is the gradient of the plate energy", np.asarray(got[i]), np.asarray(want[i]), atol=1e-9 * scale, rtol=0, ele=ele, measure=measure)
    mon.event("plate residual", 1)


# ------------------------------------------------------------------ layered solids
def hexes(rng, affine):
    nx, ny = (int(v) for v in rng.integers(1, 3, 2))
    pts, cells = wl.make_mesh(rng, "HEX8", (nx, ny, 1), size=rng.uniform(0.5, 2, 3), origin=rng.normal(size=3), distort=0.0 if affine else 0.25)
    F = np.eye(3) + rng.uniform(-0.3, 0.3, (3, 3))
    return pts @ F.T, np.asarray(cells)


def through(t, nin, nth):
    """Reference points/weights/ply of a per-ply Gauss rule, own construction."""
    gx, wx = np.polynomial.legendre.leggauss(nin)
    gz, wz = np.polynomial.legendre.leggauss(nth)
    edge = np.concatenate([[0], np.cumsum(t)]) / np.sum(t)
    P, W, K = [], [], []
    for k in range(len(t)):
        h = edge[k + 1] - edge[k]
        for (a, wa), (b, wb), (c, wc) in itertools.product(zip(gx, wx), zip(gx, wx), zip(gz, wz)):
            P.append([(a + 1) / 2, (b + 1) / 2, edge[k] + (c + 1) / 2 * h])
            W.append(wa * wb * wc / 8 * h)
            K.append(k)
    return np.array(P), np.array(W), np.array(K)


def kin(X, dref):
    J = np.einsum("ai,qaI->qiI", X, dref)
    return np.linalg.det(J), np.einsum("qaI,qIi->qai", dref, np.linalg.inv(J))


def internal(pts, cells, u, Cof, t, nin, nth, eps_th=None):
    """Residual by integrating every ply of every cell; Cof(c, k) the stiffness of ply k in cell c."""
    P, W, K = through(t, nin, nth)
    dref = ref.dshapes("HEX8", P)
    R = np.zeros_like(pts)
    for c, nodes in enumerate(cells):
        det, dN = kin(pts[nodes], dref)
        gu = np.einsum("ai,qaj->qij", u[nodes], dN)
        e = (gu + gu.transpose(0, 2, 1)) / 2
        for q in range(len(P)):
            ee = e[q] - (eps_th(c, K[q], P[q]) if eps_th else 0)
            s = np.einsum("ijkl,kl->ij", Cof(c, K[q]), ee)
            R[nodes] += W[q] * det[q] * dN[q] @ s
    return R


def rule_of(rng):
    nin, nth = (2, 2) if rng.random() < 0.5 else (int(rng.integers(2, 4)), int(rng.integers(2, 4)))
    return nin, nth, ({} if (nin, nth) == (2, 2) else dict(n_inplane=nin, n_thick_per_ply=nth))


def exact_rule(mon, rng, t, nin, nth, kw):
    import feax.mechanics as M
    P, W, K = (np.asarray(x) for x in M.layered_reference_quadrature(t, **kw))
    edge = np.concatenate([[0], np.cumsum(t)]) / np.sum(t)
    mon.true("quadrature points lie inside their ply", bool(np.all((P[:, 2] > edge[K] - 1e-12) & (P[:, 2] < edge[K + 1] + 1e-12) & np.all((P > 0) & (P < 1), axis=1))))
    for _ in range(4):
        a, b = rng.integers(0, 2 * nin, 2)
        c = rng.integers(0, 2 * nth)
        k = int(rng.integers(len(t)))
        s = K == k
        got = float(np.sum(W[s] * P[s, 0] ** a * P[s, 1] ** b * P[s, 2] ** c))
        want = (edge[k + 1] ** (c + 1) - edge[k] ** (c + 1)) / ((a + 1) * (b + 1) * (c + 1))
        mon.close("per-ply rule integrates polynomials of its degree exactly", got, want, atol=1e-13, rtol=1e-10, powers=[int(a), int(b), int(c)])
    return P, W, K


def case_layered(case, mon):
    import feax.mechanics as M
    rng = rng_for(case)
    affine = case["r"] % 2 == 0
    n = int(rng.integers(1, 6))
    th, t = plies(rng, n)
    pts, cells = hexes(rng, affine)
    per = bool(rng.random() < 0.6)
    mats = [lamina3(lamina(rng)) for _ in range(n if per else 1)]
    nin, nth, kw = rule_of(rng)
    mon.seen("kind", f"layered:{n}:{affine}:{nin}{nth}")
    nrm = np.array([0, 0, 1.0]) if rng.random() < 0.4 else rng.normal(size=3)
    nkw = {} if np.array_equal(nrm, [0, 0, 1.0]) else dict(normal=tuple(nrm))
    p, tp = M.create_layered_solid(wl.fmesh(pts, cells, "HEX8"), jnp.asarray(np.stack(mats) if per else mats[0]), th, t, **kw, **nkw)
    u = rng.normal(size=pts.shape)
    got = np.asarray(fe.assembler.get_res(p, [jnp.asarray(u)], tp)[0])
    Rk = [np.stack([rodrigues(a, nrm, v) for v in np.eye(3)], axis=1) for a in th]
    Ck = [turned(mats[k % len(mats)], Rk[k]) for k in range(n)]
    want = internal(pts, cells, u, lambda c, k: Ck[k], t, nin, nth)
    near(mon, "layered residual integrates every ply with the stated rule", got, want, 1e-9, plies=n)
    if affine:
        fine = internal(pts, cells, u, lambda c, k: Ck[k], t, 4, 4)
        near(mon, "layered residual equals direct integration through the thickness", got, fine, 1e-9, plies=n)
    exact_rule(mon, rng, t, nin, nth, kw)
    # rigid motion gives no force; translation exactly
    w = rng.normal(size=3)
    rigid = rng.normal(size=3) + np.cross(w, pts)
    z = np.asarray(fe.assembler.get_res(p, [jnp.asarray(rigid)], tp)[0])
    mon.close("an infinitesimal rigid motion loads nothing", z, 0 * z, atol=1e-9 * np.abs(want).max() * (1 + np.abs(rigid).max()), rtol=0)
    mon.raises("mismatched plies are rejected", lambda: M.create_layered_solid(wl.fmesh(pts, cells, "HEX8"), jnp.asarray(mats[0]), th, np.append(t, 1.0)), ValueError)
    if per and n > 1:
        mon.raises("wrong number of ply materials is rejected", lambda: M.create_layered_solid(wl.fmesh(pts, cells, "HEX8"), jnp.asarray(np.stack(mats + mats)), th, t), ValueError)
    mon.event("layered residual", 1)


def case_oriented(case, mon):
    import feax.mechanics as M
    rng = rng_for(case)
    affine = case["r"] % 2 == 0
    n = int(rng.integers(1, 5))
    _, t = plies(rng, n)
    pts, cells = hexes(rng, affine)
    nc = len(cells)
    nin, nth, kw = rule_of(rng)
    mon.seen("kind", f"oriented:{n}:{affine}:{nin}{nth}")
    base = lamina3(lamina(rng))
    C = np.stack([[turned(base, rotation(rng)) for _ in range(n)] for _ in range(nc)])
    cte = np.stack([[sym(rng, 3, 1e-2) for _ in range(n)] for _ in range(nc)])
    T = rng.normal(size=len(pts)) * 30
    mesh = wl.fmesh(pts, cells, "HEX8")
    u = rng.normal(size=pts.shape) * 0.1
    P, W, K = exact_rule(mon, rng, t, nin, nth, kw)
    Tq = np.asarray(M.interpolate_nodal_to_layered_quad(jnp.asarray(T[cells]), t, **kw))
    Nq = ref.shapes("HEX8", P)
    near(mon, "temperature at the ply points is the interpolated nodal field", Tq, T[cells] @ Nq.T, 1e-12)
    cq = np.asarray(M.expand_cte_to_quad(jnp.asarray(cte), t, **kw))
    near(mon, "every ply point carries the expansion of its ply", cq, cte[:, K], 1e-14)
    eth = cq * Tq[..., None, None]

    def eth_of(c, k, xi):
        return cte[c, k] * (ref.shapes("HEX8", xi[None])[0] @ T[cells[c]])

    Cof = lambda c, k: C[c, k]
    cold = internal(pts, cells, u, Cof, t, nin, nth)
    hot = internal(pts, cells, u, Cof, t, nin, nth, eth_of)
    p, tp = M.create_oriented_layered_solid(mesh, jnp.asarray(C), t, with_thermal=True, cte_cell_ply=jnp.asarray(cte), **kw)
    vv = list(tp.volume_vars)
    near(mon, "default eigenstrain is one degree", vv[2], cte[:, K], 1e-14)
    rr = np.asarray(fe.assembler.get_res(p, [jnp.asarray(u)], fe.TracedParams(volume_vars=(vv[0], vv[1], jnp.asarray(eth))))[0])
    near(mon, "thermal layered residual integrates every ply", rr, hot, 1e-9, plies=n)
    if affine:
        near(mon, "thermal layered residual equals direct integration", rr, internal(pts, cells, u, Cof, t, 4, 4, eth_of), 1e-9, plies=n)
    p0, tp0 = M.create_oriented_layered_solid(mesh, jnp.asarray(C), t, **kw)
    r0 = np.asarray(fe.assembler.get_res(p0, [jnp.asarray(u)], tp0)[0])
    near(mon, "oriented layered residual integrates every ply", r0, cold, 1e-9, plies=n)
    # stress recovery
    dref = ref.dshapes("HEX8", P)
    want = np.zeros((nc, len(P), 3, 3))
    for c, nodes in enumerate(cells):
        _, dN = kin(pts[nodes], dref)
        g = np.einsum("ai,qaj->qij", u[nodes], dN)
        e = (g + g.transpose(0, 2, 1)) / 2
        want[c] = np.einsum("qijkl,qkl->qij", C[c][K], e)
        if c == 0:
            th0 = np.einsum("qijkl,qkl->qij", C[c][K], e - eth[c])
    s0 = np.asarray(M.layered_quad_stress(p0._dNdxi_ref, vv[0], jnp.asarray(u[cells]), vv[1]))
    s1 = np.asarray(M.layered_quad_stress(p0._dNdxi_ref, vv[0], jnp.asarray(u[cells]), vv[1], jnp.asarray(eth)))
    near(mon, "ply stress is the ply stiffness on the strain", s0, want, 1e-9)
    near(mon, "thermal ply stress subtracts the eigenstrain", s1[0], th0, 1e-9)
    # geometric stiffness
    sig = np.stack([[sym(rng, 3) for _ in range(len(P))] for _ in range(nc)])
    pg, tg = M.create_layered_solid_geometric_stiffness(mesh, jnp.asarray(sig), t, **kw)
    rg = np.asarray(fe.assembler.get_res(pg, [jnp.asarray(u)], tg)[0])
    wg = np.zeros_like(pts)
    for c, nodes in enumerate(cells):
        det, dN = kin(pts[nodes], dref)
        g = np.einsum("ak,qai->qki", u[nodes], dN)              # du_k/dx_i
        wg[nodes] += np.einsum("q,qai,qij,qkj->ak", W * det, dN, sig[c], g)
    near(mon, "geometric stiffness is the gradient of the initial-stress energy", rg, wg, 1e-9)
    if rng.random() < 0.5:
        ele = ("HEX20", "TET4", "HEX8")[int(rng.integers(3))]
        if ele != "TET4":
            coef = rng.normal(size=4)
            X = ref.ELE[ele][0]
            X = np.asarray(X, float)
            f = lambda x: coef[0] + x @ coef[1:] + (coef[1] * x[..., 0] * x[..., 1] + (coef[2] * x[..., 2] ** 2 if ele == "HEX20" else 0))
            got = np.asarray(M.interpolate_nodal_to_layered_quad(jnp.asarray(f(X)[None]), t, ele_type=ele, **kw))[0]
            near(mon, "nodal interpolation reproduces the polynomials of the element", got, f(P), 1e-10, ele=ele)
            mon.seen("interp", ele)
    mon.raises("wrong ply count is rejected", lambda: M.create_oriented_layered_solid(mesh, jnp.asarray(C), np.append(t, 1.0)), ValueError)
    mon.event("oriented residual", 1)


# ------------------------------------------------------------------ box variables
def tri_ref(z, e):
    T = 1e-6
    pts = [(-1, -1, T, T), (0, -1, .5, T), (1, -1, 1, T), (1, 0, .75, .25), (1, 1, .5, .5), (0, 1, .25, .75), (-1, 1, T, 1), (-1, 0, T, .5)]
    V = np.array([[1, x, y, x * x, x * y, y * y, x * x * y, x * y * y] for x, y, _, _ in pts], float)
    c = np.linalg.solve(V, np.array([[p[2], p[3]] for p in pts], float))
    m = np.stack([np.ones_like(z), z, e, z * z, z * e, e * e, z * z * e, z * e * e], axis=-1)
    return m @ c


def tet_ref(x, y, z):
    T = 1e-6
    v = {(-1, -1, -1): (T, T, T), (1, -1, -1): (1, T, T), (1, 1, -1): (.5, .5, T), (-1, 1, -1): (T, 1, T),
         (-1, -1, 1): (T, T, 1), (1, -1, 1): (.5, T, .5), (1, 1, 1): (1 / 3,) * 3, (-1, 1, 1): (T, .5, .5)}
    out = 0
    for (a, b, c), p in v.items():
        out = out + ((1 + a * x) * (1 + b * y) * (1 + c * z) / 8)[..., None] * np.array(p)
    return out


def boxes(rng, n, d):
    X = rng.uniform(-1, 1, (n, d))
    m = rng.random((n, d))
    X = np.where(m < 0.25, np.sign(X), X)
    return np.where(m > 0.9, 0.0, X)


def case_box(case, mon):
    import feax.mechanics as M
    rng = rng_for(case)
    n = int(rng.choice([1, 5, 8, 8, 16, 64]))
    mon.seen("kind", f"box:{n}")
    X = boxes(rng, n, 6)
    shape = (n,) if rng.random() < 0.7 or n % 2 else (n // 2, 2)
    sh = [X[:, k].reshape(shape) for k in range(6)]
    tol = 3e-6
    a = [np.asarray(v) for v in M.box_to_triangle(jnp.asarray(sh[0]), jnp.asarray(sh[1]))]
    mon.true("triangle map keeps the shape of its inputs", a[0].shape == shape and a[1].shape == shape, got=str([v.shape for v in a]), want=str(shape))
    if a[0].shape == shape:
        mon.true("triangle map is admissible", bool(min(a[0].min(), a[1].min()) >= 0 and (a[0] + a[1]).max() <= 1 + tol))
        mon.close("triangle map is the serendipity interpolation", np.stack(a, -1), tri_ref(sh[0], sh[1]), atol=tol, rtol=0)
    b = [np.asarray(v) for v in M.box_to_tetrahedron(*(jnp.asarray(s) for s in sh[:3]))]
    mon.true("tetrahedron map keeps the shape of its inputs", all(v.shape == shape for v in b), got=str([v.shape for v in b]), want=str(shape))
    if b[0].shape == shape:
        mon.true("tetrahedron map is admissible", bool(min(v.min() for v in b) >= 0 and sum(b).max() <= 1 + tol))
        mon.close("tetrahedron map is the trilinear interpolation", np.stack(b, -1), tet_ref(*sh[:3]), atol=tol, rtol=0)
    beta = float(10 ** rng.uniform(-1, 2))
    s = np.asarray(M.smooth_sgn(jnp.asarray(X[:, 3]), beta))
    mon.true("smoothed sign is an odd map of the box into itself", bool(np.all(np.abs(s) <= 1 + 1e-12) and np.all(s * X[:, 3] >= 0)))
    mon.close("smoothed sign is odd", s, -np.asarray(M.smooth_sgn(jnp.asarray(-X[:, 3]), beta)), atol=1e-13, rtol=0)
    mon.close("smoothed sign keeps the ends and the middle", np.asarray(M.smooth_sgn(jnp.asarray([-1.0, 0.0, 1.0]), beta)), np.array([-1.0, 0, 1]), atol=1e-12, rtol=0)
    o = np.argsort(X[:, 3])
    mon.true("smoothed sign is monotone", bool(np.all(np.diff(s[o]) >= -1e-13)))
    f2 = jax.jit(jax.vmap(lambda x: M.orientation_tensor_2d(x[0], x[1], x[2], sgn_beta=beta)))
    f3 = jax.jit(jax.vmap(lambda x: M.orientation_tensor_3d(x[0], x[1], x[2], x[3], x[4], x[5], sgn_beta=beta)))
    A, a11, a22 = (np.asarray(v) for v in f2(jnp.asarray(X)))
    w = np.linalg.eigvalsh(A)
    mon.true("2-D orientation tensors are positive semi-definite with trace at most one", bool(w.min() >= -1e-9 and np.trace(A, axis1=1, axis2=2).max() <= 1 + tol and np.array_equal(A, A.transpose(0, 2, 1))), low=float(w.min()))
    want = tri_ref(X[:, 0], X[:, 1])
    mon.close("2-D diagonal is the mapped box point", np.stack([A[:, 0, 0], A[:, 1, 1], a11, a22], -1), np.concatenate([want, want], -1), atol=tol, rtol=0)
    mon.close("2-D off-diagonal follows the sign control", A[:, 0, 1], np.sqrt(np.maximum(A[:, 0, 0] * A[:, 1, 1], 0)) * np.tanh(beta * X[:, 2]) / np.tanh(beta), atol=1e-12, rtol=1e-9)
    B, *dg = (np.asarray(v) for v in f3(jnp.asarray(X)))
    want = tet_ref(X[:, 0], X[:, 1], X[:, 2])
    mon.close("3-D diagonal is the mapped box point", np.stack([B[:, k, k] for k in range(3)] + dg, -1), np.concatenate([want, want], -1), atol=tol, rtol=0)
    for k, (i, j) in enumerate(((0, 1), (0, 2), (1, 2))):
        mon.close("3-D off-diagonals follow their sign controls", B[:, i, j], np.sqrt(np.maximum(B[:, i, i] * B[:, j, j], 0)) * np.tanh(beta * X[:, 3 + k]) / np.tanh(beta), atol=1e-12, rtol=1e-9, pair=[i, j])
    mon.true("3-D tensors are symmetric and satisfy the pairwise bound", bool(np.array_equal(B, B.transpose(0, 2, 1)) and all(np.all(B[:, i, j] ** 2 <= B[:, i, i] * B[:, j, j] * (1 + 1e-9) + 1e-15) for i, j in ((0, 1), (0, 2), (1, 2)))))
    g2 = np.asarray(jax.jit(jax.vmap(jax.jacfwd(lambda x: M.orientation_tensor_2d(x[0], x[1], x[2])[0])))(jnp.asarray(X)))
    g3 = np.asarray(jax.jit(jax.vmap(jax.jacrev(lambda x: M.orientation_tensor_3d(*x)[0])))(jnp.asarray(X)))
    mon.true("design gradients are finite on the whole box", bool(np.isfinite(g2).all() and np.isfinite(g3).all()))
    for d, T in ((2, A), (3, B)):
        P1, P2 = np.asarray(M.principal_direction(jnp.asarray(T), scale_by_alignment=False)), np.asarray(M.principal_direction(jnp.asarray(T)))
        lam = np.linalg.eigvalsh(T)[:, -1]
        mon.close("principal direction is a unit vector", np.linalg.norm(P1, axis=1), np.ones(n), atol=1e-9, rtol=0)
        mon.close("principal direction has the largest eigenvalue", np.einsum("nij,nj->ni", T, P1), lam[:, None] * P1, atol=1e-8, rtol=0)
        mon.close("scaled principal direction has the alignment as length", P2, np.sign(np.sum(P1 * P2, 1))[:, None] * lam[:, None] * P1, atol=1e-8, rtol=0)
    mon.event("box points", n)


# ------------------------------------------------------------------ fibre distributions
def distribution(rng, d):
    k = int(rng.choice([1, 2, 3, 6, 40]))
    P = rng.normal(size=(k, d))
    P /= np.linalg.norm(P, axis=1)[:, None]
    return rng.dirichlet(np.ones(k)), P


def moments(w, P):
    return np.einsum("n,ni,nj->ij", w, P, P), np.einsum("n,ni,nj,nk,nl->ijkl", w, P, P, P, P)


def frame(p):
    """a rotation taking e1 to p (3-D)"""
    a = np.eye(3)[np.argmin(np.abs(p))]
    b = np.cross(p, a)
    b /= np.linalg.norm(b)
    return np.stack([p, b, np.cross(p, b)], axis=1)


def case_fibres(case, mon):
    import feax.mechanics as M
    from feax.mechanics.orientation import build_a4_2d
    rng = rng_for(case)
    d = case["d"]
    w, P = distribution(rng, d)
    mon.seen("kind", f"fibres:{d}:{len(w)}")
    a2, a4 = moments(w, P)
    c = lamina(rng)
    E1, E2, G12, n12, n23 = c[0], c[1], c[3], c[6], c[8]
    if d == 2:
        base = lamina2(E1, E2, G12, n12)
        want = sum(x * turned(base, np.array([[p[0], -p[1]], [p[1], p[0]]])) for x, p in zip(w, P))
        got = M.orientation_averaged_stiffness(jnp.asarray(a2), jnp.asarray(a4), E1, E2, G12, n12)
    else:
        ti = (E1, E2, E2, G12, G12, E2 / (2 * (1 + n23)), n12, n12, n23)
        while np.linalg.eigvalsh(compliance(*ti))[0] < 1e-4 * np.linalg.eigvalsh(compliance(*ti))[-1]:
            c = lamina(rng)
            E1, E2, G12, n12, n23 = c[0], c[1], c[3], c[6], c[8]
            ti = (E1, E2, E2, G12, G12, E2 / (2 * (1 + n23)), n12, n12, n23)
        base = lamina3(ti)
        want = sum(x * turned(base, frame(p)) for x, p in zip(w, P))
        got = M.orientation_averaged_stiffness_3d(jnp.asarray(a2), jnp.asarray(a4), E1, E2, G12, n12, n23)
    near(mon, "averaged stiffness is the average over the fibres", got, want, 1e-9, d=d, fibres=len(w))
    # closures in the states where they are exact, and their stated algebra
    p = P[0]
    one = np.einsum("i,j,k,l->ijkl", p, p, p, p)
    near(mon, "quadratic closure is exact for aligned fibres", M.quadratic_closure(jnp.outer(p, p)), one, 1e-12)
    near(mon, "hybrid closure is exact for aligned fibres", M.hybrid_closure(jnp.outer(p, p)), one, 1e-10)
    e = np.eye(d)
    iso4 = (np.einsum("ij,kl->ijkl", e, e) + np.einsum("ik,jl->ijkl", e, e) + np.einsum("il,jk->ijkl", e, e)) / (d * (d + 2))
    near(mon, "linear closure is exact for random fibres", M.linear_closure(jnp.asarray(e / d)), iso4, 1e-12)
    near(mon, "hybrid closure is exact for random fibres", M.hybrid_closure(jnp.asarray(e / d)), iso4, 1e-12)
    L = np.asarray(M.linear_closure(jnp.asarray(a2)))
    near(mon, "linear closure contracts to a2", np.einsum("ijkk->ij", L), a2, 1e-12)
    near(mon, "linear closure is fully symmetric", L, sum(L.transpose(s) for s in itertools.permutations(range(4))) / 24, 1e-12)
    f = 1 - d ** d * np.linalg.det(a2)
    near(mon, "hybrid closure blends with the distance from isotropy", M.hybrid_closure(jnp.asarray(a2)), (1 - f) * L + f * np.einsum("ij,kl->ijkl", a2, a2), 1e-12)
    Q = np.linalg.qr(rng.normal(size=(d, d)))[0]
    rotate4 = lambda T: np.einsum("ip,jq,kr,ls,pqrs->ijkl", Q, Q, Q, Q, T)
    for nm, cl in (("linear", M.linear_closure), ("hybrid", M.hybrid_closure), ("quadratic", M.quadratic_closure)):
        near(mon, f"{nm} closure is objective", cl(jnp.asarray(Q @ a2 @ Q.T)), rotate4(np.asarray(cl(jnp.asarray(a2)))), 1e-10)
    for cl in (M.linear_closure, M.hybrid_closure):
        mon.raises("unsupported dimension is rejected", lambda cl=cl: cl(jnp.eye(4) / 4), ValueError)
    if d == 2:
        tau = float(rng.choice([1.0, rng.uniform(0.01, 1), 10 ** rng.uniform(-4, -2)]))
        r, ph = float(rng.choice([0.0, 1.0, rng.uniform(0, 1)])), rng.uniform(0, 7)
        y1, y2 = r * np.cos(ph), r * np.sin(ph)
        a4s = np.asarray(build_a4_2d(jnp.asarray(tau * a2), y1, y2))
        near(mon, "closure-free a4 is fully symmetric", a4s, sum(a4s.transpose(s) for s in itertools.permutations(range(4))) / 24, 1e-12)
        near(mon, "closure-free a4 contracts to a2", np.einsum("ijkk->ij", a4s), tau * a2, 1e-7)
        # Toeplitz matrix of the trigonometric moments of the fibre angle doubled: PSD iff a distribution exists
        n1 = complex(a2[0, 0] - a2[1, 1], 2 * a2[0, 1])
        n2 = complex(a4s[0, 0, 0, 0] - 6 * a4s[0, 0, 1, 1] + a4s[1, 1, 1, 1], 4 * (a4s[0, 0, 0, 1] - a4s[0, 1, 1, 1])) / tau
        T = np.array([[1, n1, n2], [np.conj(n1), 1, n1], [np.conj(n2), np.conj(n1), 1]])
        mon.true("closure-free a4 is a fourth moment of some distribution", bool(np.linalg.eigvalsh(T).min() >= -1e-7), low=float(np.linalg.eigvalsh(T).min()), rho=[y1, y2])
        mon.close("closure-free a4 follows the reflection coefficient", np.array([n2.real, n2.imag]), np.array([(v := n1 ** 2 + complex(y1, y2) * (1 - abs(n1) ** 2)).real, v.imag]), atol=1e-7, rtol=0)
        # the reflection coefficient of an actual distribution reproduces its fourth moment
        if abs(n1) < 1 - 1e-3:
            m2 = complex(a4[0, 0, 0, 0] - 6 * a4[0, 0, 1, 1] + a4[1, 1, 1, 1], 4 * (a4[0, 0, 0, 1] - a4[0, 1, 1, 1]))
            rho = (m2 - n1 ** 2) / (1 - abs(n1) ** 2)
            near(mon, "closure-free a4 reproduces a real distribution", build_a4_2d(jnp.asarray(tau * a2), rho.real, rho.imag), tau * a4, 1e-7)
        near(mon, "aligned fibres ignore the reflection coefficient", build_a4_2d(jnp.asarray(tau * np.outer(p, p)), y1, y2), tau * one, 1e-7)
        z = np.asarray(build_a4_2d(jnp.zeros((2, 2)), y1, y2))
        mon.close("no fibres, no moment", z, 0 * z, atol=1e-12, rtol=0)
    mon.event("fibre distribution", 1)


# ------------------------------------------------------------------ pressure vessels
def case_tank(case, mon):
    import feax.mechanics as M
    import feax.mechanics.copv as cv
    rng = rng_for(case)
    g = cv.DoubleWallCopvGeometry(a=float(rng.uniform(30, 120)), shell_t=float(rng.uniform(1, 5)), gap=float(rng.uniform(4, 20)), cyl_len=float(rng.uniform(20, 150)),
                                  polar_radius=float(rng.uniform(5, 20)), n_circum=int(rng.integers(5, 13)), n_merid_cyl=int(rng.integers(1, 4)),
                                  n_merid_dome=int(rng.choice([2, 3, 4, 14])), n_fill=int(rng.integers(1, 4)))
    mon.seen("kind", f"tank:{g.n_circum}:{g.n_fill}")
    m = cv.create_double_wall_copv_mesh(g)
    X, cells = np.asarray(m.mesh.points), np.asarray(m.mesh.cells)
    nc, nl, nm = g.n_circum, g.n_fill + 3, g.n_merid_cyl + g.n_merid_dome
    # mould line
    lam = np.concatenate([np.zeros(g.n_merid_cyl + 1), np.arccos(g.polar_radius / g.a) * np.arange(1, g.n_merid_dome + 1) / g.n_merid_dome])
    z0 = np.concatenate([g.cyl_len * np.arange(g.n_merid_cyl + 1) / g.n_merid_cyl, np.full(g.n_merid_dome, g.cyl_len)])
    off = np.concatenate([[0], g.shell_t + g.gap * np.arange(g.n_fill + 1) / g.n_fill, [2 * g.shell_t + g.gap]])
    ids = np.array([[[m.node_id(i, j, k) for k in range(nl)] for j in range(nc)] for i in range(nm + 1)])
    mon.true("node ids number every node once", bool(np.array_equal(np.sort(ids.ravel()), np.arange(len(X)))))
    th = 2 * np.pi * np.arange(nc) / nc
    R = (g.a + off)[None] * np.cos(lam)[:, None]
    Z = z0[:, None] + (g.a + off)[None] * np.sin(lam)[:, None]
    want = np.stack([R[:, None] * np.cos(th)[None, :, None], R[:, None] * np.sin(th)[None, :, None], np.broadcast_to(Z[:, None], (nm + 1, nc, nl))], -1)
    mon.close("nodes lie on the offset mould lines", X[ids], want, atol=1e-9 * g.a, rtol=0)
    # volume and validity
    geo = ref.Geo(X, cells, "HEX8", 4)
    mon.true("every cell has positive volume", bool(geo.detJ.min() > 0))
    zone = np.asarray(m.cell_zone)
    rad = np.linalg.norm(X[cells] - np.where(X[cells][..., 2:] > g.cyl_len, np.array([0, 0, g.cyl_len]), np.stack([0 * X[cells][..., 0], 0 * X[cells][..., 0], X[cells][..., 2]], -1)), axis=-1) - g.a
    lo, hi = rad.min(1), rad.max(1)
    wz = np.where(hi < g.shell_t + 1e-6, 0, np.where(lo > g.shell_t + g.gap - 1e-6, 2, 1))
    mon.equal("cells are labelled by the wall they lie in", zone, wz)
    mon.equal("dome cells are those above the cylinder", np.asarray(m.dome_cell_mask()), X[cells].mean(1)[:, 2] > g.cyl_len)
    # node sets
    r_off = rad_of(X, g)
    mon.equal("equator nodes", np.sort(m.equator_node_ids()), np.where(np.abs(X[:, 2]) < 1e-9)[0])
    outer = np.where(np.abs(r_off - off[-1]) < 1e-6)[0]
    inner = np.where(np.abs(r_off) < 1e-6)[0]
    mon.equal("outer surface nodes", np.sort(m.outer_surface_node_ids()), outer)
    mon.equal("inner surface nodes", np.sort(m.inner_surface_node_ids()), inner)
    rim = np.sort(ids[nm][:, :2].ravel())
    mon.equal("rim nodes", np.sort(m.rim_inner_node_ids()), rim)
    mon.close("rim radius is the polar opening", m.rim_inner_radius(), g.polar_radius, atol=1e-9 * g.a, rtol=0)
    for fn, ns in ((m.outer_surface_location_fn(), outer), (m.inner_surface_location_fn(), inner), (m.rim_location_fn(), rim)):
        hit = np.where(np.asarray(jax.jit(jax.vmap(fn))(jnp.asarray(X))))[0]
        mon.equal("location function selects exactly its surface nodes", hit, ns)
    # supports leave no rigid motion
    free = m.buckling_free_dofs(3 * len(X))
    fixed = np.setdiff1d(np.arange(3 * len(X)), free)
    rig = np.stack([np.tile(v, (len(X), 1)) for v in np.eye(3)] + [np.cross(v, X / g.a) for v in np.eye(3)]).reshape(6, -1)
    mon.equal("constrained dofs", fixed, np.unique(np.concatenate([m.equator_axial_dofs(), m.rigid_inplane_pin_dofs()])))
    mon.true("supports remove every rigid motion", bool(np.linalg.matrix_rank(rig[:, fixed], tol=1e-6) == 6))
    mon.equal("equator axial dofs", np.sort(m.equator_axial_dofs()), np.where(np.abs(X[:, 2]) < 1e-9)[0] * 3 + 2)
    # windings
    kinds = [(("helical", float(rng.choice([-1, 1]))) if rng.random() < 0.5 else ("hoop", 1.0)) for _ in range(int(rng.integers(1, 6)))]
    kinds += [("hoop", 1.0)] * int(rng.integers(0, 3))
    drop = bool(rng.random() < 0.6)
    kw = {} if drop else dict(drop_dome_hoop=False)
    ply = lamina3(lamina(rng))
    alpha = np.diag(rng.normal(size=3) * 1e-3)
    fillC = lamina3((2.0, 2.0, 2.0, 0.8, 0.8, 0.8, 0.25, 0.25, 0.25))
    fa = 1e-3 * np.eye(3)
    fill = bool(rng.random() < 0.6)
    C = np.asarray(cv.create_winding_ply_stiffness(m, jnp.asarray(ply), kinds, fill_C=jnp.asarray(fillC) if fill else None, **kw))
    al = np.asarray(cv.create_winding_cte(m, jnp.asarray(alpha), kinds, fill_alpha=jnp.asarray(fa) if fill else None, **kw))
    fib = np.asarray(cv.cell_fiber_directions(m, kinds, **kw))
    tm, tho, nr = (np.asarray(v) for v in cv.cell_triads(m))
    ang = np.asarray(cv.cell_winding_angle_deg(m))
    dome = X[cells].mean(1)[:, 2] > g.cyl_len
    sel = rng.choice(len(cells), min(len(cells), 24), replace=False)
    wf = np.zeros_like(fib)
    wA = np.zeros(len(cells))
    wT = np.zeros((3, len(cells), 3))
    for c in range(len(cells)):
        Xc = X[cells[c]]
        mid = Xc.mean(0)
        r = np.hypot(mid[0], mid[1])
        hoop = np.array([-mid[1], mid[0], 0]) / r
        n = Xc[4:].mean(0) - Xc[:4].mean(0)
        n /= np.linalg.norm(n)
        mer = np.cross(hoop, n)
        a = np.arcsin(min(g.polar_radius / r, 1.0))
        wA[c], wT[:, c] = np.degrees(a), (mer, hoop, n)
        nh = 0
        for k, (kind, s) in enumerate(kinds):
            if kind == "hoop":
                f = hoop
                if drop and dome[c]:
                    f = np.cos(a) * mer + (1 if nh % 2 == 0 else -1) * np.sin(a) * hoop
                nh += 1
            else:
                f = np.cos(a) * mer + s * np.sin(a) * hoop
            wf[c, k] = f
            if c in sel:
                Q = np.stack([f, np.cross(n, f), n], axis=1)
                isfill = fill and zone[c] == 1
                near(mon, "wound ply stiffness is the lamina turned into its winding direction", C[c, k], fillC if isfill else turned(ply, Q), 1e-9, ply=kind, dome=bool(dome[c]))
                near(mon, "wound ply expansion follows the same frame", al[c, k], fa if isfill else Q @ alpha @ Q.T, 1e-9, ply=kind, dome=bool(dome[c]))
    mon.close("fibres follow hoop and geodesic directions, none in the fill", fib, wf * (zone != 1)[:, None, None], atol=1e-9, rtol=0)
    mon.close("winding angle obeys Clairaut's relation", ang, wA, atol=1e-7, rtol=0)
    mon.close("wall triads", np.stack([tm, tho, nr]), wT, atol=1e-9, rtol=0)
    if case["r"] % 3 == 0:
        import meshio
        d = tempfile.mkdtemp(prefix="c22_")
        try:
            cv.save_orientation_vtk(m, os.path.join(d, "o.vtu"), kinds, **kw)
            got = meshio.read(os.path.join(d, "o.vtu"))
            cd = {k: v[0] for k, v in got.cell_data.items()}
            mon.close("written fibres", np.stack([cd[f"fiber_ply{k}"] for k in range(len(kinds))], 1), fib, atol=1e-6, rtol=0)
            mon.close("written labels", np.stack([cd["zone"].ravel(), cd["is_dome"].ravel(), cd["winding_angle_deg"].ravel()]), np.stack([zone, dome, ang]), atol=1e-4, rtol=0)
            mon.close("written triads", np.stack([cd["dir_meridian"], cd["dir_hoop"], cd["dir_normal"]]), wT, atol=1e-6, rtol=0)
        finally:
            shutil.rmtree(d)
        mon.raises("tilted tank axis is rejected", lambda: cv.create_double_wall_copv_mesh(cv.DoubleWallCopvGeometry(axis=(1.0, 0.0, 0.0))), NotImplementedError)
    mon.event("tank cells", len(cells))


def rad_of(X, g):
    """distance outward from the inner mould line"""
    foot = np.where(X[:, 2:] > g.cyl_len, np.array([0, 0, g.cyl_len]), np.stack([0 * X[:, 0], 0 * X[:, 0], X[:, 2]], -1))
    return np.linalg.norm(X - foot, axis=1) - g.a
