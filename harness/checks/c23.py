"""C23: cohesive and third-medium-contact energies follow their documented laws, irreversibly."""
import numpy as np
from scipy.optimize import brentq

from harness import ref, wl
from harness.lazy import fe, jax, jnp
from harness.mon import rng_for

ID = "C23"
RULE = ("random fracture energies and strengths over six decades, opening histories (load, unload, reload, hold, back to closed), mixed-mode jumps "
        "with random normals and mode ratios, random interface meshes, random medium masks and deformations (also inverted cells); energies, "
        "tractions (derivatives) and residuals against the documented formulas in NumPy; solved pull tests against the scalar equilibrium; "
        "distinct by (law, phase of the history, element type, mask)")
ASSUMPTIONS = ["openings are either exactly zero or far above 1e-12 (the implementation regularizes at 1e-15)",
               "second derivatives are claimed on cells with an affine map only (the implementation neglects the map's curvature)"]
MIN_EVALUATIONS = 300
LAWS = ("exponential", "bilinear")


def cases(tier, seed):
    out = []
    q = tier == "quick"
    for r in range(2 if q else 10):
        for law in LAWS:
            out.append(dict(kind="law", law=law, n=30, cost=1))
            out.append(dict(kind="path", law=law, n=8, cost=2))
    for r in range(6 if q else 24):
        out.append(dict(kind="interface", law=LAWS[r % 2], vec=2 + (r // 2) % 2, cost=2))
    for r in range(2 if q else 8):
        out.append(dict(kind="weights", n=20, cost=1))
    for r in range(2 if q else 6):
        out.append(dict(kind="pull", vec=2 + r % 2, cost=12))
    for ele in ("QUAD9", "QUAD8", "TRI6", "TET10", "HEX20", "QUAD4", "HEX8"):
        for r in range(1 if q else 5):
            out.append(dict(kind="tmc", ele=ele, r=r, cost=8))
    out.append(dict(kind="tmc_energy", n=60 if q else 400, cost=2))
    return [dict(c, seed=seed, i=n) for n, c in enumerate(out)]


def law_np(law, d, G, s):
    d = np.asarray(d, float)
    if law == "exponential":
        dc = G / (np.e * s)
        return G * -np.expm1(-d / dc) - G * d / dc * np.exp(-d / dc)
    df = 2 * G / s
    k0 = s ** 2 / (2 * G)
    return np.where(d < df, 0.5 * k0 * d ** 2, G)


def phi_np(law, d, dm, G, s):
    d, dm = np.asarray(d, float), np.asarray(dm, float)
    un = law_np(law, dm, G, s) * np.where(dm > 0, d / np.where(dm > 0, dm, 1.0), 0.0) ** 2
    return np.where(d >= dm, law_np(law, d, G, s), un)


def pot(law):
    from feax.mechanics import cohesive
    return getattr(cohesive, law + "_potential")


def params(rng):
    return float(10.0 ** rng.uniform(-2, 3)), float(10.0 ** rng.uniform(2, 6))


def char(law, G, s):
    return G / (np.e * s) if law == "exponential" else 2 * G / s


def case_law(case, mon):
    """Values and tractions along monotonic opening and along the secant."""
    rng = rng_for(case)
    law = case["law"]
    f = jax.jit(lambda d, dm, G, s: pot(law)(d, dm, Gamma=G, sigma_c=s))
    g = jax.jit(jax.grad(lambda d, dm, G, s: pot(law)(d, dm, Gamma=G, sigma_c=s).sum()))
    for _ in range(case["n"]):
        G, s = params(rng)
        dc = char(law, G, s)
        d = np.sort(np.concatenate([[0.0], dc * 10 ** rng.uniform(-2, 1.2, 30), dc * np.array([0.999999, 1.000001])]))
        phi = np.asarray(f(d, np.zeros_like(d), G, s))
        mon.close("law.loading", phi, law_np(law, d, G, s), rtol=1e-9, scale=G, law=law)
        mon.true("law.zero", phi[0] == 0.0)
        mon.true("law.bounded", phi.max() <= G * (1 + 1e-12) and phi.min() >= 0, law=law, top=phi.max() / G)
        mon.true("law.nondecreasing", np.all(np.diff(phi) >= -1e-12 * G), law=law)
        mon.close("law.complete", float(f(np.array([60 * dc]), np.zeros(1), G, s)[0]), G, rtol=1e-9)
        # traction: derivative of the energy, its peak is the strength
        t = np.asarray(g(d, np.zeros_like(d), G, s))
        x = np.linspace(0, 4, 2001)[1:] * dc
        peak = np.asarray(g(x, np.zeros_like(x), G, s)).max()
        mon.close("law.strength", peak, s, rtol=6e-3, law=law)
        h = 1e-5 * np.maximum(d, 1e-3 * dc)
        far = np.abs(d - dc) > 1e-4 * dc if law == "bilinear" else np.ones(len(d), bool)
        fd = (law_np(law, d + h, G, s) - law_np(law, np.maximum(d - h, 0), G, s)) / (d + h - np.maximum(d - h, 0))
        mon.close("law.traction", t[far & (d > 0)], fd[far & (d > 0)], rtol=1e-4, scale=s, law=law)
        # secant unloading from any past maximum
        dm = dc * 10 ** rng.uniform(-1, 1, 20)
        a = rng.uniform(0, 1, 20)
        un = np.asarray(f(a * dm, dm, G, s))
        mon.close("law.unloading", un, law_np(law, dm, G, s) * a ** 2, rtol=1e-8, scale=G, law=law)
        mon.close("law.rejoins", np.asarray(f(dm, dm, G, s)), law_np(law, dm, G, s), rtol=1e-9, scale=G)
        e = 1e-7
        mon.close("law.continuous", np.asarray(f(dm * (1 - e), dm, G, s)), np.asarray(f(dm * (1 + e), dm, G, s)), rtol=0, atol=1e-5 * G, law=law)
        mon.true("law.finite", np.all(np.isfinite(np.asarray(g(np.concatenate([[0.0], dm]), np.concatenate([[0.0], dm]), G, s)))))
        mon.event("laws")
        mon.seen("law", law, int(np.log10(G)), int(np.log10(s)))


def case_path(case, mon):
    """Random histories: state carried by the user (largest opening), energy and traction at every step."""
    rng = rng_for(case)
    law = case["law"]
    from feax.mechanics.cohesive import CohesiveInterface
    n = 3
    itf = CohesiveInterface.from_axis(np.arange(n) + n, np.arange(n), np.ones(n), 1, 2)
    opening = jax.jit(itf.get_opening)
    for _ in range(case["n"]):
        G, s = params(rng)
        dc = char(law, G, s)
        e = jax.jit(jax.value_and_grad(itf.create_energy_fn(pot(law), Gamma=G, sigma_c=s)))
        dmax, truth, cur = jnp.zeros(n), np.zeros(n), np.zeros(n)
        phases = ""
        for k in range(14):
            op = str(rng.choice(["load", "load", "unload", "reload", "hold", "close"]))
            if op == "load":
                cur = np.maximum(cur, truth) + dc * rng.uniform(0.05, 1.0, n)
            elif op == "unload":
                cur = cur * rng.uniform(0.1, 0.95, n)
            elif op == "reload":
                cur = truth.copy()
            elif op == "close":
                cur = -dc * rng.uniform(0, 1, n)
            phases += op[0]
            u = np.zeros((2 * n, 2))
            u[n:, 1] = cur
            val, gr = e(jnp.asarray(u.ravel()), dmax)
            gr = np.asarray(gr).reshape(-1, 2)
            pos = np.maximum(cur, 0)
            want = phi_np(law, pos, truth, G, s)
            mon.close("path.energy", float(val), want.sum(), rtol=1e-8, scale=n * G, phases=phases, law=law)
            # traction on the top nodes is the derivative of the current branch
            # at a corner of the energy either one-sided derivative is allowed, and so is anything between
            lo_, hi_ = [], []
            h = 1e-6 * dc
            for p, t in zip(cur, truth):
                if p <= 0:
                    sl = [0.0, 0.0]
                else:
                    sl = [(phi_np(law, p + h, t, G, s) - phi_np(law, p, t, G, s)) / h, (phi_np(law, p, t, G, s) - phi_np(law, p - h, t, G, s)) / h]
                lo_.append(min(sl)), hi_.append(max(sl))
            t = gr[n:, 1]
            mon.true("path.traction", np.all(t >= np.array(lo_) - 1e-3 * s) and np.all(t <= np.array(hi_) + 1e-3 * s), phases=phases, law=law, t=(t / s).tolist(), lo=(np.array(lo_) / s).tolist(), hi=(np.array(hi_) / s).tolist())
            mon.close("path.opposite", gr[:n], -gr[n:], rtol=1e-12, scale=s)
            dmax = jnp.maximum(dmax, opening(jnp.asarray(u.ravel())))
            truth = np.maximum(truth, pos)
            mon.close("path.largest", np.asarray(dmax), truth, rtol=0, atol=1e-9 * dc + 2e-15)
            mon.event("history steps")
        mon.seen("path", law, phases[:4])


def _rot(rng, d):
    q, r = np.linalg.qr(rng.normal(size=(d, d)))
    q = q * np.sign(np.diag(r))
    if np.linalg.det(q) < 0:
        q[:, 0] *= -1
    return q


def case_interface(case, mon):
    from feax.mechanics.cohesive import CohesiveInterface
    rng = rng_for(case)
    law, vec = case["law"], case["vec"]
    G, s = params(rng)
    dc = char(law, G, s)
    n, N = 7, 25
    ids = rng.permutation(N)[:2 * n]
    top, bot = ids[:n], ids[n:]
    w = rng.uniform(0.1, 2, n)
    nrm = rng.normal(size=(n, vec))
    nrm /= np.linalg.norm(nrm, axis=1)[:, None]
    for beta in (1.0, float(rng.uniform(0.2, 2.0)), 0.0):
        itf = CohesiveInterface(top, bot, w, nrm, vec, beta=beta)
        u = rng.normal(size=(N, vec)) * dc
        # some pairs purely compressed, some purely sliding, some closed
        u[top[0]] = u[bot[0]] - 0.7 * dc * nrm[0]
        tang = rng.normal(size=vec)
        tang -= tang @ nrm[1] * nrm[1]
        u[top[1]] = u[bot[1]] + dc * tang
        u[top[2]] = u[bot[2]]
        uf = jnp.asarray(u.ravel())
        jump = u[top] - u[bot]
        dn = np.sum(jump * nrm, axis=1)
        dt = np.linalg.norm(jump - dn[:, None] * nrm, axis=1)
        eff = np.sqrt(np.maximum(dn, 0) ** 2 + beta ** 2 * dt ** 2)
        mon.close("interface.jump", np.asarray(itf.get_jump(uf)), jump, rtol=1e-13, scale=dc)
        a, b = itf.get_opening_components(uf)
        mon.close("interface.normal", np.asarray(a), dn, rtol=0, atol=1e-12 * dc)
        mon.close("interface.sliding", np.asarray(b), dt, rtol=0, atol=1e-7 * dc)
        mon.close("interface.opening", np.asarray(itf.get_opening(uf)), eff, rtol=0, atol=1e-7 * dc + 2e-15, beta=beta)
        dm = dc * rng.uniform(0, 2, n) * rng.integers(0, 2, n)
        dm[0] = 0.0
        fn = itf.create_energy_fn(pot(law), Gamma=G, sigma_c=s)
        e, g = jax.jit(jax.value_and_grad(fn))(uf, jnp.asarray(dm))
        want = np.sum(w * phi_np(law, eff, dm, G, s))
        mon.close("interface.energy", float(e), want, rtol=1e-7, scale=G * w.sum(), law=law, beta=beta)
        g = np.asarray(g).reshape(N, vec)
        mon.true("interface.finite", np.all(np.isfinite(g)))
        mon.close("interface.equilibrium", g.sum(axis=0), np.zeros(vec), rtol=0, atol=1e-9 * s)
        mon.close("interface.pairs", g[top], -g[bot], rtol=1e-12, scale=s)
        off = np.setdiff1d(np.arange(N), ids)
        mon.true("interface.elsewhere", np.all(g[off] == 0))
        mon.close("interface.compression", g[top[0]], np.zeros(vec), rtol=0, atol=1e-6 * s, law=law)
        # directional derivative of the NumPy energy
        dirn = rng.normal(size=u.shape)
        h = 1e-6 * dc

        def en(v):
            j = v[top] - v[bot]
            n_ = np.sum(j * nrm, axis=1)
            t_ = np.linalg.norm(j - n_[:, None] * nrm, axis=1)
            return np.sum((w * phi_np(law, np.sqrt(np.maximum(n_, 0) ** 2 + beta ** 2 * t_ ** 2), dm, G, s))[3:])
        gg = g.copy()
        for k in range(3):
            gg[top[k]] = 0
            gg[bot[k]] = 0
        kink = np.any(np.abs(eff[3:] - dm[3:]) < 1e-4 * dc) or (law == "bilinear" and np.any(np.abs(eff[3:] - dc) < 1e-4 * dc))
        if not kink:
            mon.close("interface.traction", float(np.sum(gg * dirn)), (en(u + h * dirn) - en(u - h * dirn)) / (2 * h), rtol=1e-4, scale=s * w.sum(), law=law)
        # rigid motion of everything changes nothing; rotation of body and normals changes nothing
        sh = jnp.asarray((u + rng.normal(size=vec) * dc).ravel())
        mon.close("interface.translation", float(fn(sh, jnp.asarray(dm))), want, rtol=1e-6, scale=G * w.sum())
        R = _rot(rng, vec)
        it2 = CohesiveInterface(top, bot, w, nrm @ R.T, vec, beta=beta)
        mon.close("interface.rotation", float(it2.create_energy_fn(pot(law), Gamma=G, sigma_c=s)(jnp.asarray((u @ R.T).ravel()), jnp.asarray(dm))), want, rtol=1e-6, scale=G * w.sum())
        mon.seen("interface", law, vec, "beta0" if beta == 0 else "beta")
        mon.event("interfaces")
    ax = int(rng.integers(vec))
    it3 = CohesiveInterface.from_axis(top, bot, w, ax, vec, beta=0.5)
    a, b = it3.get_opening_components(uf)
    mon.close("interface.axis", np.asarray(a), jump[:, ax], rtol=1e-13, scale=dc)
    mon.close("interface.axis-sliding", np.asarray(b), np.linalg.norm(np.delete(jump, ax, axis=1), axis=1), rtol=0, atol=1e-12 * dc)
    mon.close("interface.axis-beta", np.asarray(it3.get_opening(uf)), np.sqrt(np.maximum(jump[:, ax], 0) ** 2 + 0.25 * np.sum(np.delete(jump, ax, axis=1) ** 2, axis=1)), rtol=0, atol=1e-9 * dc + 2e-15)
    mon.raises("interface.bad-normals", lambda: CohesiveInterface(top, bot, w, nrm[:-1], vec), ValueError)


def case_weights(case, mon):
    from feax.mechanics.cohesive import compute_lumped_area_weights, compute_trapezoidal_weights
    rng = rng_for(case)
    for _ in range(case["n"]):
        x = np.sort(rng.uniform(-3, 5, int(rng.integers(2, 15))))
        w = np.asarray(compute_trapezoidal_weights(x))
        f = rng.normal(size=len(x))
        mon.close("weights.integral", float(w @ f), float(np.trapezoid(f, x)), rtol=1e-12, scale=10.0)
        mon.true("weights.positive", np.all(w >= 0))
        # planar quads on a random plane, random node numbers, extra unrelated nodes, partly selected
        nx, ny = (int(v) for v in rng.integers(1, 5, 2))
        p2, q = wl.make_mesh(rng, "QUAD4", (nx, ny), size=rng.uniform(0.5, 3, 2), distort=0.2)
        R = _rot(rng, 3)
        p3 = np.hstack([p2, np.zeros((len(p2), 1))]) @ R.T + rng.normal(size=3)
        perm = rng.permutation(len(p3) + 6)[:len(p3)]
        coords = rng.normal(size=(len(p3) + 6, 3))
        coords[perm] = p3
        quads = perm[np.asarray(q)]
        ids = rng.permutation(perm)
        area = np.array([0.5 * np.linalg.norm(np.cross(coords[c[2]] - coords[c[0]], coords[c[3]] - coords[c[1]])) for c in quads])
        want = {int(i): 0.0 for i in perm}
        for c, a in zip(quads, area):
            for i in c:
                want[int(i)] += a / 4
        got = np.asarray(compute_lumped_area_weights(ids, coords, quads))
        mon.close("weights.nodes", got, np.array([want[int(i)] for i in ids]), rtol=1e-12)
        geo = ref.Geo(p2, q, "QUAD4", 4)
        mon.close("weights.area", got.sum(), geo.JxW.sum(), rtol=1e-10)
        sub = ids[: max(1, len(ids) // 2)]
        mon.close("weights.subset", np.asarray(compute_lumped_area_weights(sub, coords, quads)), np.array([want[int(i)] for i in sub]), rtol=1e-12)
        mon.event("interfaces weighed", 2)
        mon.seen("weights", len(x), nx, ny)


def case_pull(case, mon):
    """Two bonded blocks pulled apart by prescribed displacement: scalar equilibrium at every step of the history."""
    from feax.mechanics.cohesive import CohesiveInterface, compute_lumped_area_weights, compute_trapezoidal_weights, exponential_potential
    rng = rng_for(case)
    vec = case["vec"]
    ele = "QUAD4" if vec == 2 else "HEX8"
    G, s = float(rng.uniform(0.5, 2)), float(rng.uniform(5, 20))
    dc = G / (np.e * s)
    H = 1.0
    E = 2 * H * 4.0 * G / dc ** 2 * float(rng.uniform(1.0, 2.0))     # stiffer than the steepest softening: one solution
    ns = (3, 2) if vec == 2 else (2, 2, 1)
    ax = 1
    p, c = wl.make_mesh(rng, ele, ns, size=np.ones(vec), origin=np.zeros(vec), permute=False)
    p2 = p.copy()
    p2[:, ax] -= 1.0
    pts, cells = np.vstack([p, p2]), np.vstack([c, np.asarray(c) + len(p)])
    top = np.where(np.abs(p[:, ax]) < 1e-12)[0]
    if vec == 2:
        top = top[np.argsort(p[top, 0])]
        w = np.asarray(compute_trapezoidal_weights(p[top, 0]))
    else:
        quads = []
        for cell in np.asarray(c):
            for f in ref.FACES["hex"]:
                if np.all(np.abs(p[cell[list(f)], ax]) < 1e-12):
                    quads.append(cell[list(f)])
        w = np.asarray(compute_lumped_area_weights(top, p, np.array(quads)))
    bot = np.array([len(p) + np.argmin(np.linalg.norm(p2 - p[t], axis=1)) for t in top])
    mesh = wl.fmesh(pts, cells, ele)
    P = type("P", (fe.problem.Problem,), {"get_tensor_map": lambda self: (lambda g, *a: wl.stress_lin(jnp, g, E, 0.0))})
    prob = P(mesh, vec=vec, dim=vec, ele_type=ele, location_fns=[])
    itf = CohesiveInterface.from_axis(top, bot, w, ax, vec)
    en = itf.create_energy_fn(exponential_potential, Gamma=G, sigma_c=s)
    grad = jax.grad(en)
    state = {"d": jnp.zeros(len(top))}
    tp = fe.TracedParams(volume_vars=())
    comp = "xyz"[ax]
    others = [k for k in range(vec) if k != ax]

    def bcs(U):
        # the sideways components are held everywhere (nu = 0, so they carry no load)
        return fe.DirichletBC.from_specs(prob, [fe.DirichletBCSpec(wl.side(ax, -1.0), comp, -U / 2), fe.DirichletBCSpec(wl.side(ax, 1.0), comp, U / 2)]
                                         + [fe.DirichletBCSpec(lambda q: q[0] > -1e9, "xyz"[k], 0.0) for k in others])
    kr = case["vec"] == 3
    opts = fe.KrylovSolverOptions(solver="bicgstab", tol=1e-10, maxiter=2000) if kr else fe.DirectSolverOptions()

    def eq(U, dm):
        def t(d):
            if d >= dm:
                return G / dc ** 2 * d * np.exp(-d / dc)
            return 2 * law_np("exponential", dm, G, s) / dm ** 2 * d
        k = E / (2 * H)
        return brentq(lambda d: k * (U - d) - t(d), 0, U)
    dm = 0.0
    u = jnp.zeros(prob.num_total_dofs_all_vars)
    newton = fe.NewtonOptions(tol=1e-11, rel_tol=1e-11, max_iter=60)
    # the documented pattern: one solver, boundary values per call, largest opening read from a dictionary
    once = fe.create_solver(prob, bcs(0.1 * dc), opts, traced_params=tp, extra_residual_fn=lambda v: grad(v, state["d"]), linear=False, return_solution=False, newton_options=newton) if kr else None
    for k, U in enumerate(np.array([0.6, 1.8, 0.9, 2.6]) * dc * rng.uniform(0.9, 1.1)):
        bc = bcs(U)
        d0 = state["d"]
        u0 = jnp.asarray(u).at[bc.bc_rows].set(bc.bc_vals)
        if kr:
            u = once(tp, u0, bc=bc)
        else:
            u = fe.create_solver(prob, bc, opts, traced_params=tp, extra_residual_fn=lambda v: grad(v, d0), linear=False, return_solution=False, newton_options=newton)(tp, u0)
        d = np.asarray(itf.get_opening(u))
        want = eq(U, dm)
        mon.close("pull.opening", d, np.full(len(d), want), rtol=0, atol=2e-5 * dc, step=k, kr=kr)
        area = w.sum()
        f = np.asarray(grad(u, d0)).reshape(-1, vec)[top, ax].sum()
        mon.close("pull.force", f, E / (2 * H) * (U - want) * area, rtol=2e-4, scale=s * area, step=k)
        mon.true("pull.below-strength", f <= s * area * (1 + 1e-6))
        state["d"] = jnp.maximum(d0, itf.get_opening(u))
        dm = max(dm, want)
        mon.event("load steps solved")
    mon.seen("pull", vec, kr)


def _affine_mesh(rng, ele):
    dim = ref.DIM[ref.ELE["QUAD8" if ele == "QUAD9" else ele][2]]
    base = "QUAD8" if ele == "QUAD9" else ele
    pts, cells = wl.make_mesh(rng, base, (3, 2) if dim == 2 else (2, 1, 1), size=rng.uniform(0.7, 1.5, dim))
    cells = np.asarray(cells)
    if ele == "QUAD9":
        extra = pts[cells[:, :4]].mean(axis=1)
        cells = np.hstack([cells, len(pts) + np.arange(len(cells))[:, None]])
        pts = np.vstack([pts, extra])
    A = np.eye(dim) + 0.25 * rng.normal(size=(dim, dim))
    if np.linalg.det(A) < 0.3:
        A = np.eye(dim)
    return pts @ A.T, cells, dim


def _quad9(qp):
    """Nine-node shape functions, first and second derivatives: tensor products of the quadratic Lagrange basis."""
    L = lambda x: np.stack([(1 - x) * (1 - 2 * x), 4 * x * (1 - x), x * (2 * x - 1)], axis=-1)       # nodes 0, 1/2, 1
    D = lambda x: np.stack([4 * x - 3, 4 - 8 * x, 4 * x - 1], axis=-1)
    H = lambda x: np.stack([4 + 0 * x, -8 + 0 * x, 4 + 0 * x], axis=-1)
    x, y = qp[:, 0], qp[:, 1]
    idx = [(0, 0), (2, 0), (2, 2), (0, 2), (1, 0), (2, 1), (1, 2), (0, 1), (1, 1)]
    i, j = np.array(idx).T
    N = L(x)[:, i] * L(y)[:, j]
    d1 = np.stack([D(x)[:, i] * L(y)[:, j], L(x)[:, i] * D(y)[:, j]], axis=-1)
    xx, yy, xy = H(x)[:, i] * L(y)[:, j], L(x)[:, i] * H(y)[:, j], D(x)[:, i] * D(y)[:, j]
    d2 = np.stack([np.stack([xx, xy], -1), np.stack([xy, yy], -1)], -2)
    return N, d1, d2


def case_tmc(case, mon):
    from feax.mechanics.tmc import ThirdMediumContact, classify_medium_cells
    rng = rng_for(case)
    ele = case["ele"]
    pts, cells, dim = _affine_mesh(rng, ele)
    nc = ref.CORNERS[ref.ELE["QUAD8" if ele == "QUAD9" else ele][2]]
    med = rng.integers(0, 2, len(cells)).astype(bool)
    med[0], med[-1] = True, False
    mu, lm = float(rng.uniform(0.3, 2)), float(rng.uniform(0.5, 4))
    g0, kr, L = float(10 ** rng.uniform(-4, -1)), float(10 ** rng.uniform(-3, 0)), float(rng.uniform(0.5, 3))
    mesh = wl.fmesh(pts, cells, ele)
    prob, tp = ThirdMediumContact.create(mesh, jnp.asarray(med.astype(float) if rng.integers(0, 2) else med), mu=mu, lmbda=lm, gamma0=g0, kr=kr, ele_type=ele, ref_length=L)
    # oracle data at the element's own quadrature points
    if ele == "QUAD9":
        deg = 4
        qp, qw = ref.quad_rule("quad", deg)
        N, d1, d2 = _quad9(qp)
    else:
        qp, qw = ref.quad_rule(ref.ELE[ele][2], ref.DEFAULT_ORDER[ele])
        d1, d2 = ref.dshapes(ele, qp), ref.d2shapes(ele, qp)
    X = pts[cells]
    J = np.einsum("cai,qaj->cqij", X, d1)
    iJ = np.linalg.inv(J)
    W = np.linalg.det(J) * qw
    B = np.einsum("qaj,cqji->cqai", d1, iJ)
    Hs = np.einsum("qajk,cqjm,cqkn->cqamn", d2, iJ, iJ)
    kc = kr * lm * L ** 2

    def oracle(u):
        R = np.zeros_like(u)
        g = np.einsum("cav,cqai->cqvi", u[cells], B)
        F = g + np.eye(dim)
        Jd = np.linalg.det(F)
        Fit = np.swapaxes(np.linalg.inv(F), -1, -2)
        m_, l_ = np.where(med, g0 * mu, mu)[:, None, None, None], np.where(med, g0 * lm, lm)[:, None, None, None]
        P = m_ * (F - Fit) + l_ * np.log(Jd)[..., None, None] * Fit
        r = np.einsum("cqvi,cqai,cq->cav", P, B, W)
        H = np.einsum("cav,cqamn->cqvmn", u[cells], Hs)
        lap = np.trace(H, axis1=-2, axis2=-1)
        sl = np.trace(Hs, axis1=-2, axis2=-1)
        reg = np.einsum("cqvmn,cqamn,cq->cav", H, Hs, W) - np.einsum("cqv,cqa,cq->cav", lap, sl, W) / dim
        r = r + kc * med[:, None, None] * reg
        np.add.at(R, cells, r)
        return R
    res = jax.jit(lambda v: fe.assembler.get_res(prob, [v], tp)[0])
    h = np.min(np.linalg.norm(X[:, 1] - X[:, 0], axis=1))
    for k in range(3):
        u = 0.04 * h * rng.normal(size=pts.shape)
        got, want = np.asarray(res(jnp.asarray(u))), oracle(u)
        mon.close("tmc.residual", got, want, rtol=1e-8, scale=float(np.abs(want).max()), ele=ele, medium=int(med.sum()))
    # a uniform strain has no second derivative: no regularization at all
    A = 0.1 * rng.normal(size=(dim, dim))
    u = pts @ A.T
    mon.close("tmc.uniform", np.asarray(res(jnp.asarray(u))), oracle(u), rtol=1e-8, scale=float(np.abs(oracle(u)).max()))
    # the regularization is linear in u and symmetric: from the tangent
    Jm = ref.csr_dense(fe.assembler.get_jacobian(prob, [jnp.zeros(pts.shape)], tp))
    mon.close("tmc.symmetric", Jm, Jm.T, rtol=1e-9, scale=float(np.abs(Jm).max()))
    v = rng.normal(size=pts.shape)
    hh = 1e-6 * h
    fd = (oracle(hh * v) - oracle(-hh * v)) / (2 * hh)
    mon.close("tmc.tangent", (Jm @ v.ravel()).reshape(pts.shape), fd, rtol=1e-5, scale=float(np.abs(fd).max()), ele=ele)
    # classification by the corner centroid
    cen = X[:, :nc].mean(axis=1)
    cut = float(np.median(cen[:, 0])) + 1e-6
    got = np.asarray(classify_medium_cells(mesh, (lambda x, y: x < cut) if dim == 2 else (lambda x, y, z: x < cut), n_corner_nodes=nc))
    mon.equal("tmc.classified", got, (cen[:, 0] < cut).astype(float))
    mon.seen("tmc", ele, int(med.sum()))
    mon.event("contact residuals", 4)


def case_tmc_energy(case, mon):
    """Energy density over all deformations, also collapsed and inverted."""
    from feax.mechanics.tmc import ThirdMediumContact
    rng = rng_for(case)
    for dim, ele in ((2, "QUAD8"), (3, "TET10")):
        pts, cells = wl.make_mesh(rng, ele, (1,) * dim)
        for ps in (True, False):
            prob, _ = ThirdMediumContact.create(wl.fmesh(pts, cells, ele), jnp.zeros(len(cells)), mu=1.0, lmbda=1.0, ele_type=ele, plane_strain=ps)
            psi = prob.get_energy_density()
            f = jax.jit(jax.vmap(jax.value_and_grad(lambda g, m, l: psi(g, m, l))))
            n = case["n"]
            g = rng.normal(size=(n, dim, dim)) * rng.choice([0.01, 0.3, 1.0], (n, 1, 1))
            g[0] = -np.eye(dim)
            g[1] = 0.0
            g[1, 0, 0] = -1.0
            g[2] = 0.0
            m, l = rng.uniform(0.1, 3, n), rng.uniform(0.1, 3, n)
            e, d = (np.asarray(x) for x in f(g, m, l))
            F = g + np.eye(dim)
            J = np.linalg.det(F)
            j0 = 1e-4
            s = (J - j0) / j0
            lnJ = np.where(J > j0, np.log(np.where(J > j0, J, 1.0)), np.log(j0) + s - 0.5 * s ** 2)
            tr = np.einsum("nij,nij->n", F, F) + (1.0 if dim == 2 and ps else 0.0)
            want = m / 2 * tr - m * lnJ + l / 2 * lnJ ** 2
            mon.close("tmc.energy", e / np.maximum(1, np.abs(want)), want / np.maximum(1, np.abs(want)), rtol=1e-9, scale=1.0, dim=dim, plane=ps)
            mon.true("tmc.finite", np.all(np.isfinite(e)) and np.all(np.isfinite(d)), dim=dim)
            ok = J > 10 * j0
            Fit = np.swapaxes(np.linalg.inv(F[ok]), -1, -2)
            Pw = m[ok, None, None] * (F[ok] - Fit) + (l[ok] * np.log(J[ok]))[:, None, None] * Fit
            sc = np.maximum(1, np.abs(Pw).max(axis=(1, 2)))[:, None, None]
            mon.close("tmc.stress", d[ok] / sc, Pw / sc, rtol=1e-8, scale=1.0)
            mon.true("tmc.stress-free", np.abs(d[2]).max() < 1e-13)
            mon.event("deformations", n)
            mon.seen("energy", dim, ps)
