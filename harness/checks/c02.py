"""C02: tangent == derivative of the residual, in every representation."""
import numpy as np

from harness import ref, wl
from harness.lazy import fe, jax, jnp
from harness.mon import rng_for

ID = "C02"
RULE = ("random problems (6 physics incl. non-symmetric and coupled, 9 element types, boundary terms that depend on "
        "the field) at random states x representation (views, structure, elimination, fused, matrix-free, transpose); "
        "non-trivial = non-zero tangent and a surface or cell coupling; distinct by (physics, element, view, layout, "
        "batch regime)")
ASSUMPTIONS = ["forward-mode jax derivative of the assembled residual and central differences of it are the oracle"]
MIN_EVALUATIONS = 150


def cases(tier, seed):
    out = []
    reps = 1 if tier == "quick" else 6
    combos = [("elastic", "QUAD4"), ("elastic", "TET4"), ("elastic", "HEX20"), ("nh", "TRI3"), ("nh", "HEX8"),
              ("nh", "QUAD8"), ("diff", "TRI6"), ("diff", "TET10"), ("conv", "QUAD4"), ("conv", "HEX8"),
              ("nlflux", "QUAD9"), ("nlflux", "TET4"), ("mixed", "QUAD4"), ("mixed", "TET4"), ("mixed", "TRI6")]
    for r in range(reps):
        for k, e in combos:
            out.append(dict(kind="dense", phys=k, ele=e, r=r, cost=3))
        for k, e, v in (("elastic", "QUAD4", "UPPER"), ("nh", "TRI3", "LOWER"), ("diff", "HEX8", "UPPER"),
                        ("elastic", "TET4", "LOWER")):
            out.append(dict(kind="view", phys=k, ele=e, view=v, r=r, cost=3))
        for k, e in (("nh", "QUAD4"), ("elastic", "HEX8"), ("nlflux", "TRI3"), ("mixed", "QUAD4"), ("conv", "TET4")):
            out.append(dict(kind="big", phys=k, ele=e, r=r, cost=4))
        for e in ("QUAD4", "TET10", "HEX8"):
            out.append(dict(kind="energy", ele=e, r=r, cost=3))
        out.append(dict(kind="extra", r=r, cost=2))
        out.append(dict(kind="followers", r=r, cost=2))
        out.append(dict(kind="twospaces", r=r, cost=3))
        out.append(dict(kind="csr", r=r, cost=1))
        out.append(dict(kind="pad", r=r, cost=3))
        out.append(dict(kind="huge", r=r, cost=4))
    return [dict(c, seed=seed, i=n) for n, c in enumerate(out)]


def _state(rng, c, amp=0.06):
    return rng.normal(size=c.n) * amp


def _fd(c, u, v, eps=1e-6):
    return (c.res(u + eps * v) - c.res(u - eps * v)) / (2 * eps)


def _eliminate(K, rows, symmetric):
    J = K.copy()
    J[rows, :] = 0.0
    if symmetric:
        J[:, rows] = 0.0
    J[rows, rows] = 1.0
    return J


def _lists(c, u):
    return c.p.unflatten_fn_sol_list(jnp.asarray(u))


def case_dense(case, mon):
    rng = rng_for(case)
    c = wl.gen(rng, case["phys"], case["ele"], curve=0.04)
    u = _state(rng, c)
    K = c.K(u)
    s = np.abs(K).max()
    mon.true("non-trivial tangent", s > 1e-3 and np.abs(K - np.diag(np.diag(K))).max() > 1e-3)
    if c.kind in ("conv", "mixed"):
        mon.true("a really non-symmetric tangent was observed", np.abs(K - K.T).max() > 1e-3)
    A = fe.assembler
    got = np.asarray(jax.jit(lambda uu, tp: A.get_jacobian(c.p, c.p.unflatten_fn_sol_list(uu), tp).todense())(
        jnp.asarray(u), c.tp))
    mon.close("tangent", got, K, rtol=1e-9, phys=c.kind, ele=c.ele)
    v = rng.normal(size=c.n)
    mon.close("tangent vs finite differences", got @ v, _fd(c, u, v), rtol=2e-6)
    if c.symmetric:
        mon.close("symmetric physics gives a symmetric tangent", got, got.T, rtol=1e-9)
    ts = fe.TracedStructure.from_problem(c.p, free_scratch=False)
    rows = np.asarray(c.bc.bc_rows)
    r = c.res(u)
    rb = r.copy()
    rb[rows] = u[rows] - np.asarray(c.bc.bc_vals)
    rs = np.abs(rb).max()
    w = rng.normal(size=c.n)
    ws = np.abs(w).sum()

    def observe(uu, tp, ww):
        """Every representation of the eliminated system, in one compiled program."""
        o = {"res": A.create_res_bc_function(c.p, c.bc)(uu, tp),
             "ts": A.get_jacobian(c.p, c.p.unflatten_fn_sol_list(uu), tp, ts).todense(),
             "kt": A.create_matfree_Kt_parametric(c.p)(uu, tp, ts)(ww)}
        for sym in (True, False):
            rr, Jf = A.create_res_J_bc_csr_parametric(c.p, symmetric=sym)(uu, tp, c.bc, ts)
            rm, mv = A.create_matfree_res_J_parametric(c.p, symmetric=sym)(uu, tp, c.bc, ts)
            o["s" if sym else "n"] = dict(
                csr=A.create_J_bc_csr_function(c.p, c.bc, symmetric=sym)(uu, tp).todense(),
                par=A.create_J_bc_csr_parametric(c.p, symmetric=sym)(uu, tp, c.bc, ts).todense(),
                fres=rr, fJ=Jf.todense(), mres=rm, mv=mv(ww), Jw=Jf @ ww, JTw=Jf.T @ ww)
        return o
    o = jax.tree_util.tree_map(np.asarray, jax.jit(observe)(jnp.asarray(u), c.tp, jnp.asarray(w)))
    mon.close("tangent via structure", o["ts"], K, rtol=1e-9)
    mon.close("eliminated residual", o["res"], rb, rtol=1e-9)
    for sym in (True, False):
        J = _eliminate(K, rows, sym)
        q = o["s" if sym else "n"]
        sc = max(np.abs(J).max(), 1.0)
        mon.close("eliminated tangent", q["csr"], J, rtol=1e-9, scale=sc, sym=sym)
        mon.close("eliminated tangent parametric", q["par"], J, rtol=1e-9, scale=sc, sym=sym)
        mon.close("fused residual", q["fres"], rb, rtol=1e-9, scale=rs)
        mon.close("fused tangent", q["fJ"], J, rtol=1e-9, scale=sc, sym=sym)
        mon.close("matrix-free residual", q["mres"], rb, rtol=1e-9, scale=rs)
        mon.close("matrix-free product", q["mv"], J @ w, rtol=1e-9, scale=sc * ws)
        mon.close("sparse product", q["Jw"], J @ w, rtol=1e-10, scale=sc * ws)
        mon.close("sparse transposed product", q["JTw"], J.T @ w, rtol=1e-10, scale=sc * ws)
    mon.close("matrix-free transpose", o["kt"], K.T @ w, rtol=1e-9, scale=s * ws)
    mon.seen("dense", c.kind, c.ele, c.layout)
    mon.note(phys=c.kind, ele=c.ele, dofs=c.n, scale=float(s), asym=float(np.abs(K - K.T).max()))


def case_view(case, mon):
    rng = rng_for(case)
    c = wl.gen(rng, case["phys"], case["ele"], view=case["view"])
    u = _state(rng, c)
    K = c.K(u)
    tri = np.triu if case["view"] == "UPPER" else np.tril
    A = fe.assembler
    ts = fe.TracedStructure.from_problem(c.p, free_scratch=False)
    rows = np.asarray(c.bc.bc_rows)
    for t in (None, ts):
        got = ref.csr_dense(A.get_jacobian(c.p, _lists(c, u), c.tp, t))
        mon.close("stored triangle", got, tri(K), rtol=1e-9, view=case["view"])
    J = _eliminate(K, rows, True)
    uj = jnp.asarray(u)
    got = ref.csr_dense(A.create_J_bc_csr_function(c.p, c.bc, symmetric=True)(uj, c.tp))
    mon.close("eliminated triangle", got, tri(J), rtol=1e-9, scale=max(np.abs(J).max(), 1))
    _, Jf = A.create_res_J_bc_csr_parametric(c.p, symmetric=True)(uj, c.tp, c.bc, ts)
    mon.close("fused triangle", ref.csr_dense(Jf), tri(J), rtol=1e-9, scale=max(np.abs(J).max(), 1))
    mon.close("diagonal", np.asarray(Jf.diagonal()), np.diag(J), rtol=1e-9)
    mon.seen("view", c.kind, c.ele, case["view"])


BIG = {"QUAD4": (19, 16), "HEX8": (8, 7, 5), "TRI3": (14, 11), "TET4": (4, 4, 3)}


def case_big(case, mon):
    """More cells than one assembly batch: products against directional derivatives."""
    rng = rng_for(case)
    c = wl.gen(rng, case["phys"], case["ele"], ns=BIG[case["ele"]])
    u = _state(rng, c, 0.01)
    A = fe.assembler
    ts = fe.TracedStructure.from_problem(c.p, free_scratch=False)
    uj = jnp.asarray(u)
    Js = jax.jit(lambda uu, tp: [A.get_jacobian(c.p, c.p.unflatten_fn_sol_list(uu), tp),
                                 A.get_jacobian(c.p, c.p.unflatten_fn_sol_list(uu), tp, ts)])(uj, c.tp)
    rr, Jf = jax.jit(lambda uu, tp: A.create_res_J_bc_csr_parametric(c.p, symmetric=False)(uu, tp, c.bc, ts))(uj, c.tp)
    m = c.free()
    r = c.res(u)
    mon.close("fused residual (big)", np.asarray(rr)[m], r[m], rtol=1e-9)
    f = jax.jit(lambda v: jax.jvp(c.res_flat, (uj,), (v,))[1])
    g = jax.jit(lambda w: jax.vjp(c.res_flat, uj)[1](w)[0])
    for _ in range(3):
        v = rng.normal(size=c.n)
        want = np.asarray(f(jnp.asarray(v)))
        back = np.asarray(g(jnp.asarray(v)))
        for J in Js:
            mon.close("tangent product (big)", np.asarray(J @ jnp.asarray(v)), want, rtol=1e-9)
            mon.close("transposed product (big)", np.asarray(J.T @ jnp.asarray(v)), back, rtol=1e-9)
        mon.close("fused product (big)", np.asarray(Jf @ jnp.asarray(v))[m], want[m], rtol=1e-9)
        mon.close("eliminated rows (big)", np.asarray(Jf @ jnp.asarray(v))[~m], v[~m], rtol=1e-12)
    v = rng.normal(size=c.n)
    mon.close("tangent vs finite differences (big)", np.asarray(Js[0] @ jnp.asarray(v)), _fd(c, u, v), rtol=5e-6)
    # sparsity: no duplicate positions, sorted, inside the matrix
    ip, ix = np.asarray(Js[0].indptr), np.asarray(Js[0].indices)
    dup = any(len(set(ix[a:b])) != b - a for a, b in zip(ip[:-1], ip[1:]))
    mon.true("each position stored once", not dup)
    mon.event("matrix entries", len(ix))
    mon.true("more than one batch", len(c.cells) > 256)
    mon.seen("big", c.kind, c.ele)


def case_energy(case, mon):
    rng = rng_for(case)
    ele = case["ele"]
    dim = ref.DIM[ref.ELE[ele][2]]
    pts, cells = wl.make_mesh(rng, ele, (3, 2) if dim == 2 else (1, 1, 2), distort=0.15, curve=0.04)

    class P(fe.problem.Problem):
        def get_energy_density(self):
            return lambda g, E: wl.psi_nh(jnp, g, E)
    p = P(wl.fmesh(pts, cells, ele), vec=dim, dim=dim, ele_type=ele)
    lay = str(rng.choice(["node", "cell", "quad"]))
    nq = p.fes[0].num_quads
    E = {"node": rng.uniform(.5, 2, len(pts)), "cell": rng.uniform(.5, 2, len(cells)),
         "quad": rng.uniform(.5, 2, (len(cells), nq))}[lay]
    tp = fe.TracedParams(volume_vars=(jnp.asarray(E),))
    c = wl.Case(p=p, tp=tp)
    u = rng.normal(size=c.n) * 0.04
    en = fe.assembler.create_energy_fn(p)
    g = np.asarray(jax.grad(en)(jnp.asarray(u), tp))
    r = c.res(u)
    mon.close("energy gradient is the residual", g, r, rtol=1e-9)
    K = ref.csr_dense(fe.assembler.get_jacobian(p, _lists(c, u), tp))
    mon.close("tangent (energy)", K, c.K(u), rtol=1e-9)
    v = rng.normal(size=c.n)
    hv = np.asarray(jax.jvp(jax.grad(lambda s: en(s, tp)), (jnp.asarray(u),), (jnp.asarray(v),))[1])
    mon.close("energy Hessian is the tangent", K @ v, hv, rtol=1e-9)
    e = 1e-4
    fd = (float(en(jnp.asarray(u + e * v), tp)) - float(en(jnp.asarray(u - e * v), tp))) / (2 * e)
    mon.close("energy difference", fd, float(r @ v), rtol=1e-4, scale=np.abs(r).sum() * np.abs(v).max())
    # rigid translation costs nothing
    t = np.tile(rng.normal(size=dim), len(pts))
    mon.close("translation invariance", float(en(jnp.asarray(u + t), tp)), float(en(jnp.asarray(u), tp)), rtol=1e-9)
    # an energy without material parameters, asked for with and without a parameter set
    E0 = float(rng.uniform(.5, 2))

    class Q(fe.problem.Problem):
        def get_energy_density(self):
            return lambda g: wl.psi_nh(jnp, g, E0)
    q = Q(wl.fmesh(pts, cells, ele), vec=dim, dim=dim, ele_type=ele)
    tp0 = fe.TracedParams(volume_vars=())
    en0 = fe.create_energy_fn(q)
    r0 = wl.Case(p=q, tp=tp0).res(u)
    uu = jnp.asarray(u)
    mon.close("parameter-free energy gradient", jax.grad(en0)(uu), r0, rtol=1e-9)
    mon.close("parameter-free energy gradient (empty parameter set)", jax.grad(lambda s: en0(s, tp0))(uu), r0, rtol=1e-9)
    mon.close("parameter-free energy", float(en0(uu)), float(en0(uu, tp0)), rtol=1e-12)
    info = fe.get_jacobian_info(q, _lists(c, u), tp0)
    J0 = fe.assembler.get_jacobian(q, _lists(c, u), tp0)
    mon.equal("stored entries announced", info["nnz"], len(J0.data))
    mon.equal("shape announced", tuple(info["shape"]), tuple(J0.shape))
    mon.seen("energy", ele, lay)


def case_extra(case, mon):
    """Custom kernels contribute their own tangent."""
    rng = rng_for(case)
    ele = str(rng.choice(["QUAD4", "TRI6"]))
    pts, cells = wl.make_mesh(rng, ele, (3, 2), distort=0.15)
    import jax.flatten_util as fu

    class P(fe.problem.Problem):
        def get_tensor_map(self):
            return lambda g, k: k * g * (1 + jnp.sum(g * g))

        def get_extra_kernel(self):
            def kernel(u, xq, sg, JxW, vg, *vs):
                us = self.unflatten_fn_dof(u)[0]
                m = jnp.einsum("qa,av->qv", self.fes[0].shape_vals, us)
                r = jnp.einsum("qv,qa,q->av", m ** 3 + jnp.roll(m, 1, axis=-1) ** 2, self.fes[0].shape_vals, JxW[0])
                return fu.ravel_pytree(r)[0]
            return kernel
    p = P(wl.fmesh(pts, cells, ele), vec=2, dim=2, ele_type=ele)
    tp = fe.TracedParams(volume_vars=(jnp.asarray(rng.uniform(.5, 2, len(cells))),))
    c = wl.Case(p=p, tp=tp)
    u = rng.normal(size=c.n) * .3
    K = c.K(u)
    mon.close("tangent with custom kernel", ref.csr_dense(fe.assembler.get_jacobian(p, _lists(c, u), tp)), K, rtol=1e-9)
    mon.true("custom kernel makes it non-symmetric", np.abs(K - K.T).max() > 1e-6)
    mon.seen("extra", ele)


def case_followers(case, mon):
    """Several boundary terms on overlapping cells, all depending on the field."""
    rng = rng_for(case)
    ele = str(rng.choice(["QUAD4", "QUAD8", "HEX8"]))
    dim = ref.DIM[ref.ELE[ele][2]]
    pts, cells = wl.make_mesh(rng, ele, (3, 3) if dim == 2 else (2, 2, 1), distort=0.1)

    class P(fe.problem.Problem):
        def get_tensor_map(self):
            return lambda g: g

        def get_surface_maps(self):
            return [lambda u, x, a: a * u ** 2 * x[0], lambda u, x: jnp.roll(u, 1) * jnp.sum(u), lambda u, x, a, b: a * b * jnp.ones(dim)]
    p = P(wl.fmesh(pts, cells, ele), vec=dim, dim=dim, ele_type=ele,
          location_fns=[wl.side(0, 1.0), wl.side(1, 1.0), wl.side(1, 0.0)])
    f = fe.TracedParams.create_spatially_varying_surface_var
    tp = fe.TracedParams(surface_vars=[(f(p, lambda x: 1 + x[1], 0),), (),
                                       (f(p, lambda x: x[0], 2), f(p, lambda x: 2 - x[0], 2))])
    c = wl.Case(p=p, tp=tp)
    u = rng.normal(size=c.n)
    K = c.K(u)
    ts = fe.TracedStructure.from_problem(p, free_scratch=False)
    for t in (None, ts):
        mon.close("tangent with boundary terms", ref.csr_dense(fe.assembler.get_jacobian(p, _lists(c, u), tp, t)), K,
                  rtol=1e-9, ele=ele)
    bc = fe.DirichletBC.from_specs(p, [fe.DirichletBCSpec(wl.side(0, 0.0), "all", 0.0)])
    _, J = fe.assembler.create_res_J_bc_csr_parametric(p, symmetric=False)(jnp.asarray(u), tp, bc, ts)
    rows = np.asarray(bc.bc_rows)
    mon.close("fused tangent with boundary terms", ref.csr_dense(J), _eliminate(K, rows, False), rtol=1e-9,
              scale=np.abs(K).max())
    mon.seen("followers", ele)


def case_twospaces(case, mon):
    """Coupled variables on different element orders."""
    rng = rng_for(case)
    e0, e1 = [("QUAD9", "QUAD4"), ("TRI6", "TRI3"), ("TET10", "TET4"), ("HEX20", "HEX8")][int(rng.integers(4))]
    dim = ref.DIM[ref.ELE[e0][2]]
    p0, c0 = wl.make_mesh(rng, e0, (2, 2) if dim == 2 else (1, 1, 1), distort=.15, permute=False)
    nc = ref.CORNERS[ref.ELE[e0][2]]
    p1, c1 = p0[: c0[:, :nc].max() + 1], c0[:, :nc]

    class P(fe.problem.Problem):
        def get_weak_form(self):
            def wf(vals, grads, x):
                a, b = vals
                ga, gb = grads
                return ([a * b[0] + x[0], jnp.atleast_1d(jnp.trace(ga)) + b ** 2],
                        [ga * (1 + b[0] ** 2) - b[0] * jnp.eye(dim), 0.1 * gb + a[None, :] * 0.3])
            return wf

        def get_surface_weak_forms(self):
            return [lambda vals, x: [vals[0] * vals[1][0], vals[1] * jnp.sum(vals[0])]]
    p = P([wl.fmesh(p0, c0, e0), wl.fmesh(p1, c1, e1)], vec=[dim, 1], dim=dim, ele_type=[e0, e1], gauss_order=[2, 2],
          location_fns=[wl.side(0, 1.0)])
    tp = fe.TracedParams(surface_vars=[()])
    c = wl.Case(p=p, tp=tp)
    u = rng.normal(size=c.n) * .4
    K = c.K(u)
    ts = fe.TracedStructure.from_problem(p, free_scratch=False)
    for t in (None, ts):
        mon.close("coupled tangent", ref.csr_dense(fe.assembler.get_jacobian(p, _lists(c, u), tp, t)), K, rtol=1e-9)
    bc = fe.DirichletBC.from_specs(p, [fe.DirichletBCSpec(wl.side(0, 0.0), "all", 0.0, variable_index=1),
                                       fe.DirichletBCSpec(wl.side(1, 0.0), "y", 0.1, variable_index=0)])
    rows = np.asarray(bc.bc_rows)
    for sym in (True, False):
        J = fe.assembler.create_J_bc_csr_parametric(p, symmetric=sym)(jnp.asarray(u), tp, bc, ts)
        mon.close("coupled eliminated tangent", ref.csr_dense(J), _eliminate(K, rows, sym), rtol=1e-9,
                  scale=max(np.abs(K).max(), 1))
    v = rng.normal(size=c.n)
    fd = _fd(c, u, v)
    mon.close("coupled tangent vs finite differences", K @ v, fd, rtol=2e-6)
    mon.seen("twospaces", e0, e1)


def case_csr(case, mon):
    """The sparse matrix object as a linear operator."""
    rng = rng_for(case)
    from feax.csr import CSRMatrix
    import scipy.sparse as sp
    for n in (1, 5, 17):
        S = sp.random(n, n, 0.4, random_state=int(rng.integers(1 << 30)), format="csr") + sp.eye(n, format="csr") * 2
        S = S.tocsr()
        S.sort_indices()
        D = S.toarray()
        A = CSRMatrix(jnp.asarray(S.data), jnp.asarray(S.indptr), jnp.asarray(S.indices), (n, n))
        v = rng.normal(size=n)
        vj = jnp.asarray(v)
        mon.close("A v", np.asarray(A @ vj), D @ v, rtol=1e-12)
        mon.close("A' v", np.asarray(A.T @ vj), D.T @ v, rtol=1e-12)
        mon.close("rmatvec", np.asarray(A.rmatvec(vj)), D.T @ v, rtol=1e-12)
        mon.close("dense", np.asarray(A.todense()), D, rtol=1e-12)
        mon.close("transpose dense", np.asarray(A.T.todense()), D.T, rtol=1e-12)
        mon.close("diag", np.asarray(A.diagonal()), np.diag(D), rtol=1e-12)
        B = A.with_data(A.data * 2)
        mon.close("with_data", np.asarray(B.todense()), 2 * D, rtol=1e-12)
        mon.close("with_data leaves the original", np.asarray(A.todense()), D, rtol=1e-12)
        leaves, tree = jax.tree_util.tree_flatten(A)
        mon.close("tree round trip", np.asarray(jax.tree_util.tree_unflatten(tree, leaves).todense()), D, rtol=1e-12)
        V = rng.normal(size=(n, 3))
        mon.close("batched product", np.asarray(jax.vmap(lambda x: A @ x, 1, 1)(jnp.asarray(V))), D @ V, rtol=1e-12)
        mon.seen("csr", n)


def _robin(rng, ns, size, singular):
    """c(x) grad u . grad v + m(x) u v + boundary b(x) u v, with its matrix built independently."""
    import scipy.sparse as sp
    pts, cells = wl.make_mesh(rng, "QUAD4", ns, size=size, distort=0.05)
    unit = float(10.0 ** rng.uniform(-7, 3)) if singular else 1.0
    amount = float(10.0 ** rng.uniform(-11, 11)) if singular else 1.0
    pts = pts * unit
    top = float(pts[:, 1].max())

    class P(fe.problem.Problem):
        def get_tensor_map(self):
            return (lambda g, a: amount * g / a) if singular else (lambda g, a: g * a)

        def get_mass_map(self):
            return lambda u, x, a: amount * u * jnp.log(a) / unit ** 2 if singular else u * a

        def get_surface_maps(self):
            return [lambda u, x, b: amount * u / b / unit if singular else u * b]
    p = P(wl.fmesh(pts, cells, "QUAD4"), vec=1, dim=2, ele_type="QUAD4",
          location_fns=[lambda x: jnp.abs(x[1] - top) < 1e-9 * unit])
    a = rng.uniform(0.5, 2.0, len(cells))
    geo = ref.Geo(pts, cells, "QUAD4")
    ca = amount / a if singular else a
    cm = amount * np.log(a) / unit ** 2 if singular else a
    Ke = np.einsum("cq,c,cqai,cqbi->cab", geo.JxW, ca, geo.dN, geo.dN)
    N = geo.N
    Ke += np.einsum("cq,c,qa,qb->cab", geo.JxW, cm, N, N)
    I = np.repeat(cells, 4, axis=1).ravel()
    J = np.tile(cells, (1, 4)).ravel()
    K = sp.coo_matrix((Ke.ravel(), (I, J)), shape=(len(pts),) * 2).tocsr()
    sel = np.asarray(p.boundary_inds_list[0])
    nf = len(sel)
    b = rng.uniform(0.5, 2.0, nf)
    cb = amount / b / unit if singular else b
    fn = np.asarray(p.fes[0].face_inds)
    w = np.zeros((2, 2))
    xs, ws = np.polynomial.legendre.leggauss(2)
    for x, q in zip(xs, ws):
        h = np.array([(1 - x) / 2, (1 + x) / 2])
        w += q / 2 * np.outer(h, h)
    ii, jj, vv = [], [], []
    for k, (c, f) in enumerate(sel):
        nd = cells[c][fn[f]]
        L = np.linalg.norm(pts[nd[0]] - pts[nd[1]])
        ii.append(np.repeat(nd, 2)); jj.append(np.tile(nd, 2)); vv.append((cb[k] * L * w).ravel())
    K = K + sp.coo_matrix((np.concatenate(vv), (np.concatenate(ii), np.concatenate(jj))), shape=K.shape).tocsr()
    nq = np.asarray(p.nanson_scale[0]).shape[-1]
    tp = fe.TracedParams(volume_vars=(jnp.asarray(a),),
                         surface_vars=[(jnp.asarray(np.repeat(b[:, None], nq, 1)),)])
    bc = fe.DirichletBC.from_specs(p, [fe.DirichletBCSpec(wl.side(0, float(pts[:, 0].min()), 1e-9 * unit), "all", 0.3)])
    return p, tp, bc, K, nf, len(cells)


def _robin_check(rng, mon, tag, p, tp, bc, K):
    import scipy.sparse as sp
    n = K.shape[0]
    u = rng.normal(size=n)
    A = fe.assembler
    ts = fe.TracedStructure.from_problem(p, free_scratch=False)
    rows = np.asarray(bc.bc_rows)
    m = np.ones(n, bool)
    m[rows] = False
    w = rng.normal(size=n)
    want = K @ u
    wb = want.copy()
    wb[rows] = u[rows] - 0.3

    def observe(uu, ww, tp):
        L = p.unflatten_fn_sol_list(uu)
        o = dict(res=jnp.concatenate([x.ravel() for x in A.get_res(p, L, tp)]), bres=A.create_res_bc_function(p, bc)(uu, tp))
        J0, J1 = A.get_jacobian(p, L, tp), A.get_jacobian(p, L, tp, ts)
        o["Jw"], o["Jtsw"], o["JTw"] = J0 @ ww, J1 @ ww, J1.T @ ww
        rr, Jf = A.create_res_J_bc_csr_parametric(p, symmetric=False)(uu, tp, bc, ts)
        rm, mv = A.create_matfree_res_J_parametric(p, symmetric=False)(uu, tp, bc, ts)
        o["fres"], o["fw"], o["mres"], o["mw"], o["kt"] = rr, Jf @ ww, rm, mv(ww), A.create_matfree_Kt_parametric(p)(uu, tp, ts)(ww)
        return o, (J0, J1, Jf)
    o, mats = jax.jit(observe)(jnp.asarray(u), jnp.asarray(w), tp)
    o = {k: np.asarray(v) for k, v in o.items()}
    Kw = K @ w
    Jw = np.where(m, Kw, w)
    for k, ww in (("res", want), ("bres", wb), ("fres", wb), ("mres", wb), ("Jw", Kw), ("Jtsw", Kw), ("JTw", K.T @ w),
                  ("kt", K.T @ w), ("fw", Jw), ("mw", Jw)):
        mon.close(f"{tag}: {k}", o[k][m], ww[m], rtol=1e-9)
        mon.close(f"{tag}: {k} on prescribed rows", o[k][~m], ww[~m], rtol=1e-9)
    for k, J in enumerate(mats):
        S = sp.csr_matrix((np.asarray(J.data), np.asarray(J.indices), np.asarray(J.indptr)), shape=K.shape)
        D = sp.diags(m.astype(float)) @ K + sp.diags((~m).astype(float)) if k == 2 else K
        d = abs(S - D)
        mon.true(f"{tag}: every stored entry", bool(np.isfinite(S.data).all()) and (d.max() if d.nnz else 0.0) < 1e-9 * abs(K).max(),
                 rep=k, dev=float(d.max()) if d.nnz else 0.0)
        mon.event("matrix entries", S.nnz)


def case_pad(case, mon):
    """More cells and faces than a batch; the constitutive law is defined for the given parameters only."""
    rng = rng_for(case)
    p, tp, bc, K, nf, nc = _robin(rng, (int(rng.integers(258, 340)), 1), (8.0, 1.0), True)
    mon.true("more than one batch of cells and of faces", nf > 256 and nc > 256)
    _robin_check(rng, mon, "partially defined law", p, tp, bc, K)
    mon.seen("pad", nc, nf)


def case_huge(case, mon):
    """More dofs than 2**15.5: positions no longer fit a 32-bit key."""
    rng = rng_for(case)
    p, tp, bc, K, nf, nc = _robin(rng, (220 + int(rng.integers(6)), 217), (1.0, 1.0), False)
    mon.true("more than 46341 dofs", K.shape[0] > 46341)
    _robin_check(rng, mon, "large system", p, tp, bc, K)
    mon.seen("huge", nc)
