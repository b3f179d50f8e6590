"""C15: solution and parameter containers carry every value to its own place."""
import copy

import numpy as np

from harness import ref, wl
from harness.lazy import fe, jax, jnp
from harness.mon import rng_for

ID = "C15"
RULE = ("random field layouts (1-4 variables, 1-4 components, differing node counts, batch axes) and random operation histories on the "
        "solution, parameter and boundary-value containers mirrored in plain numpy records; problems with one and two variables and "
        "several loaded surfaces, every element type; single entries perturbed and followed into the assembled residual; "
        "distinct by (container, operation, layout)")
ASSUMPTIONS = []
MIN_EVALUATIONS = 1500
ELES = ["TRI3", "TRI6", "QUAD4", "QUAD8", "TET4", "TET10", "HEX8", "HEX20"]


def cases(tier, seed):
    out = []
    q = tier == "quick"
    for r in range(12 if q else 60):
        out.append(dict(kind="solution", n=12, cost=2))
        out.append(dict(kind="history", n=40 if q else 120, cost=2))
    for r in range(8 if q else 24):
        out.append(dict(kind="builders", ele=ELES[r % 8], cost=3))
    for r in range(4 if q else 12):
        out.append(dict(kind="twovar", r=r, cost=3))
        out.append(dict(kind="rebuilt", r=r, cost=3))
        out.append(dict(kind="bcvals", ele=ELES[(2 * r + 1) % 8], cost=2))
        out.append(dict(kind="spikes", ele=ELES[(2 * r) % 8], cost=4))
    return [dict(c, seed=seed, i=n) for n, c in enumerate(out)]


# ------------------------------------------------------------------ Solution
def case_solution(case, mon):
    rng = rng_for(case)
    for _ in range(case["n"]):
        nv = int(rng.integers(1, 5))
        layout = tuple((int(rng.integers(1, 7)), int(rng.integers(1, 5))) for _ in range(nv))
        batch = tuple(rng.integers(1, 4, int(rng.integers(0, 3))))
        flds = [rng.normal(size=batch + l) for l in layout]
        flat = np.concatenate([f.reshape(batch + (-1,)) for f in flds], axis=-1)
        s = fe.Solution(jnp.asarray(flat), layout)
        mon.true("sol.meta", s.num_fields == nv and s.shape == flat.shape and s.dtype == flat.dtype and s.layout == layout)
        forms = {"plain": s, "tree": jax.tree_util.tree_unflatten(*reversed(jax.tree_util.tree_flatten(s))),
                 "copy": copy.deepcopy(s), "map": jax.tree_util.tree_map(lambda x: x, s)}
        if rng.uniform() < 0.3:
            forms["jit"] = jax.jit(lambda z: z)(s)
        for t, z in forms.items():
            for i, l in enumerate(layout):
                mon.equal(f"sol.field.{t}", z.field(i), flds[i])
                for c in range(l[1]):
                    mon.equal(f"sol.node_var.{t}", z.node_var(component=c, var_index=i), flds[i][..., c])
                if l[1] == 1:
                    mon.equal("sol.node_var.scalar", z.node_var(var_index=i), flds[i][..., 0])
                else:
                    mon.raises("sol.node_var.ambiguous", lambda: z.node_var(var_index=i), ValueError)
        mon.raises("sol.field.out_of_range", lambda: s.field(nv), IndexError)
        mon.raises("sol.field.negative", lambda: s.field(-1), IndexError)
        mon.equal("sol.asarray", np.asarray(s), flat)
        mon.equal("sol.jnp", jnp.asarray(s), flat)
        mon.equal("sol.flat", s.flat, flat)
        # arithmetic equals that of the flat vector, both operand orders, every operand kind
        o = rng.uniform(0.5, 2.0, flat.shape)
        c = float(rng.uniform(0.5, 2))
        so = fe.Solution(jnp.asarray(o), layout)
        ops = dict(add=lambda a, b: a + b, sub=lambda a, b: a - b, mul=lambda a, b: a * b, div=lambda a, b: a / b)
        for t, f in ops.items():
            for k, b in (("array", jnp.asarray(o)), ("np", o), ("sol", so)):
                mon.close(f"sol.{t}.{k}", f(s, b), f(flat, o), rtol=1e-14)
                mon.close(f"sol.r{t}.{k}", f(b, s), f(o, flat), rtol=1e-13)
            mon.close(f"sol.{t}.scalar", f(s, c), f(flat, c), rtol=1e-14)
            mon.close(f"sol.r{t}.scalar", f(c, s), f(c, flat), rtol=1e-13)
        mon.close("sol.pow", s ** 2, flat ** 2, rtol=1e-14)
        mon.equal("sol.neg", -s, -flat)
        if not batch:
            M = rng.normal(size=(flat.size, 3))
            mon.close("sol.matmul", s @ jnp.asarray(M), flat @ M, rtol=1e-12)
            mon.close("sol.rmatmul", jnp.asarray(M.T) @ s, M.T @ flat, rtol=1e-12)
            mon.close("sol.rmatmul.np", M.T @ s, M.T @ flat, rtol=1e-12)
            mon.close("sol.dot", jnp.dot(s, s), flat @ flat, rtol=1e-12)
            k = int(rng.integers(0, flat.size))
            mon.equal("sol.index", s[k], flat[k])
            mon.equal("sol.slice", s[k:], flat[k:])
            n = 0
            for x in s:                                 # terminates, in order
                n += 1
                if n > flat.size:
                    break
            mon.true("sol.iter_ends", n == flat.size, n=n, size=flat.size)
            mon.true("sol.len", len(s) == flat.size)
        mon.equal("sol.ready", s.block_until_ready(), flat)
        mon.equal("sol.unchanged", np.asarray(s.dofs), flat)
        # a single-field solution as a coefficient
        if nv == 1:
            tp = fe.TracedParams(volume_vars=(jnp.zeros(2), s))
            mon.equal("tp.from_solution", tp.volume_vars[1], flds[0][..., 0] if layout[0][1] == 1 else flds[0])
            mon.equal("tp.from_solution.other", tp.volume_vars[0], np.zeros(2))
        else:
            mon.raises("tp.multi_field_ambiguous", lambda: fe.TracedParams(volume_vars=(s,)), ValueError)
        mon.seen("solution", nv, len(batch), max(v for _, v in layout))


# ------------------------------------------------------------------ operation histories
def mirror(tp):
    return [np.array(v) for v in tp.volume_vars], [[np.array(v) for v in s] for s in tp.surface_vars]


def same(a, b):
    return len(a[0]) == len(b[0]) and len(a[1]) == len(b[1]) and all(x.shape == y.shape and np.array_equal(x, y) for x, y in zip(a[0], b[0])) \
        and all(len(x) == len(y) and all(p.shape == q.shape and np.array_equal(p, q) for p, q in zip(x, y)) for x, y in zip(a[1], b[1]))


def case_history(case, mon):
    """A population of parameter objects evolves by random operations; each keeps its own record."""
    rng = rng_for(case)
    vols = [rng.normal(size=tuple(rng.integers(1, 5, int(rng.integers(1, 3))))) for _ in range(int(rng.integers(0, 4)))]
    surfs = [[rng.normal(size=(int(rng.integers(1, 4)), 2)) for _ in range(int(rng.integers(0, 3)))] for _ in range(int(rng.integers(0, 4)))]
    tp = fe.TracedParams(volume_vars=tuple(map(jnp.asarray, vols)), surface_vars=[tuple(map(jnp.asarray, s)) for s in surfs])
    pop = [(tp, (vols, surfs))]
    for _ in range(case["n"]):
        k = int(rng.integers(0, len(pop)))
        tp, rec = pop[k]
        rec = ([v.copy() for v in rec[0]], [[v.copy() for v in s] for s in rec[1]])
        op = str(rng.choice(["vol", "surf", "tree", "map", "jit", "roundleaves"]))
        if op == "vol" and rec[0]:
            i = int(rng.integers(0, len(rec[0])))
            new = rng.normal(size=rec[0][i].shape if rng.uniform() < 0.5 else (int(rng.integers(1, 6)),))
            out = tp.replace_volume_var(i, jnp.asarray(new))
            rec[0][i] = new
        elif op == "surf" and any(rec[1]):
            i = int(rng.choice([j for j, s in enumerate(rec[1]) if s]))
            j = int(rng.integers(0, len(rec[1][i])))
            new = rng.normal(size=rec[1][i][j].shape)
            out = tp.replace_surface_var(i, j, jnp.asarray(new))
            rec[1][i][j] = new
        elif op == "map":
            out = jax.tree_util.tree_map(lambda x: 2.0 * x, tp)
            rec = ([2.0 * v for v in rec[0]], [[2.0 * v for v in s] for s in rec[1]])
        elif op == "jit" and rng.uniform() < 0.15:
            out = jax.jit(lambda t: jax.tree_util.tree_map(lambda x: -x, t))(tp)
            rec = ([-v for v in rec[0]], [[-v for v in s] for s in rec[1]])
        elif op == "roundleaves":
            leaves, td = jax.tree_util.tree_flatten(tp)
            want = rec[0] + [v for s in rec[1] for v in s]
            mon.true("tp.leaf_order", len(leaves) == len(want) and all(np.array_equal(np.asarray(a), b) for a, b in zip(leaves, want)))
            out = jax.tree_util.tree_unflatten(td, leaves)
        else:
            out = jax.tree_util.tree_unflatten(*reversed(jax.tree_util.tree_flatten(tp)))
        mon.event("op_" + op)
        pop.append((out, rec))
        if len(pop) > 6:
            pop.pop(int(rng.integers(0, 6)))
        for t, r in pop:
            mon.true("tp.history." + op, same(mirror(t), r), op=op)
    mon.seen("history", len(vols), [len(s) for s in surfs])


# ------------------------------------------------------------------ builders
def fn_of(rng, d):
    a = rng.normal(size=d)
    b = rng.normal(size=d)
    return (lambda x: jnp.sin(jnp.dot(jnp.asarray(a), x)) + jnp.dot(jnp.asarray(b), x ** 2)), \
        (lambda X: np.sin(X @ a) + (X ** 2) @ b)


def pose_mesh(rng, ele):
    d = ref.DIM[ref.ELE[ele][2]]
    ns = tuple(int(n) for n in rng.integers(1, 4 if d == 2 else 3, d))
    return wl.make_mesh(rng, ele, ns, size=rng.uniform(0.6, 2, d), distort=0.15 if ele in ("QUAD4", "HEX8", "TRI3", "TET4") else 0.0)


class _Base:
    pass


def pose(ele, pts, cells, locs=(), vec=None, order=None):
    d = pts.shape[1]
    class P(fe.problem.Problem):
        def get_tensor_map(self):
            return lambda gu, *a: gu * (1.0 + sum(jnp.sum(jnp.asarray(x)) for x in a))

        def get_surface_maps(self):
            return [(lambda u, x, *a: jnp.ones_like(u) * sum(jnp.sum(jnp.asarray(v)) for v in a)) for _ in locs]
    kw = {} if order is None else dict(gauss_order=order)
    return P(wl.fmesh(pts, cells, ele), vec=d if vec is None else vec, dim=d, ele_type=ele, location_fns=list(locs), **kw)


def case_builders(case, mon):
    rng = rng_for(case)
    ele = case["ele"]
    pts, cells = pose_mesh(rng, ele)
    d = pts.shape[1]
    lo, hi = pts.min(0), pts.max(0)
    locs = [wl.side(0, hi[0]), wl.side(1, lo[1]), wl.side(d - 1, hi[d - 1])]
    p = pose(ele, pts, cells, locs)
    T = fe.TracedParams
    v = float(rng.normal())
    nn, nc, nq = len(pts), len(cells), p.fes[0].num_quads
    mon.equal("build.node", T.create_node_var(p, v), np.full(nn, v))
    mon.equal("build.cell", T.create_cell_var(p, v), np.full(nc, v))
    mon.equal("build.quad", T.create_uniform_volume_var(p, v), np.full((nc, nq), v))
    f, g = fn_of(rng, d)
    mon.close("build.node_fn", T.create_node_var_from_fn(p, f), g(pts), rtol=1e-12, scale=1.0)
    mon.close("build.cell_fn", T.create_cell_var_from_fn(p, f), g(pts[cells].mean(axis=1)), rtol=1e-12, scale=1.0)
    xq = np.asarray(p.physical_quad_points)
    # quadrature positions follow the shape functions of their own cell
    sv = np.asarray(p.fes[0].shape_vals)
    mon.close("build.quad_points", xq, np.einsum("qn,cnd->cqd", sv, pts[cells]), rtol=1e-12, scale=1.0)
    mon.close("build.quad_fn", T.create_spatially_varying_volume_var(p, f), g(xq.reshape(-1, d)).reshape(nc, nq), rtol=1e-12, scale=1.0)
    axes = [(0, hi[0]), (1, lo[1]), (d - 1, hi[d - 1])]
    for i, (ax, val) in enumerate(axes):
        nf = len(np.asarray(p.boundary_inds_list[i]))
        fq = np.asarray(p.fes[0].face_shape_vals).shape[1]
        u = np.asarray(T.create_uniform_surface_var(p, v, surface_index=i))
        mon.equal("build.surface", u, np.full((nf, fq), v))
        sx = np.asarray(p.physical_surface_quad_points[i])
        mon.true("build.surface_on_side", bool(np.all(np.abs(sx[..., ax] - val) < 1e-9)), ele=ele, i=i)
        mon.close("build.surface_fn", T.create_spatially_varying_surface_var(p, f, surface_index=i),
                  g(sx.reshape(-1, d)).reshape(nf, fq), rtol=1e-12, scale=1.0)
        # the load built by value reaches exactly the nodes of that side: its resultant is value x area
        n_side = np.abs(pts[:, ax] - val) < 1e-9
        sv_list = [(T.create_uniform_surface_var(p, 0.0, surface_index=j),) for j in range(3)]
        sv_list[i] = (jnp.asarray(u),)
        r = np.asarray(fe.assembler.get_res(p, [jnp.zeros((nn, d))], T(volume_vars=(), surface_vars=sv_list))[0])
        mon.close("build.surface_reaches_side_only", r[~n_side], 0 * r[~n_side], atol=1e-12)
        area = np.prod(np.delete(hi - lo, ax))
        mon.close("build.surface_resultant", np.abs(r.sum(axis=0)), np.full(d, abs(v) * area), rtol=1e-9, ele=ele, i=i)
    u = rng.normal(size=(nn, d))
    flat = np.asarray(u).ravel()
    s = fe.Solution.from_problem(p, jnp.asarray(flat))
    for c in range(d):
        mon.equal("build.node_from_solution", T.node_var_from_solution(p, jnp.asarray(flat), component=c), u[:, c])
        mon.equal("build.node_from_Solution", T.node_var_from_solution(p, s, component=c), u[:, c])
    mon.raises("build.component_required", lambda: T.node_var_from_solution(p, jnp.asarray(flat)), ValueError)
    mon.equal("build.unflatten", p.unflatten_fn_sol_list(jnp.asarray(flat))[0], u)
    mon.seen("builders", ele)


def case_twovar(case, mon):
    rng = rng_for(case)
    pairs = [("QUAD8", "QUAD4"), ("QUAD4", "QUAD4"), ("TRI6", "TRI3"), ("HEX20", "HEX8"), ("TET10", "TET4")]
    a, b = pairs[int(rng.integers(0, len(pairs)))]
    pts, cells = pose_mesh(rng, a)
    d = pts.shape[1]
    nvert = len(cells[0]) if a == b else {"QUAD4": 4, "TRI3": 3, "HEX8": 8, "TET4": 4}[b]
    if a == b:
        pts2, cells2 = pts, cells
    else:
        used = np.unique(cells[:, :nvert])
        mp = -np.ones(len(pts), int)
        mp[used] = np.arange(len(used))
        pts2, cells2 = pts[used], mp[cells[:, :nvert]]
    vecs = [int(rng.integers(1, d + 1)), int(rng.integers(1, 3))]

    class P(fe.problem.Problem):
        def get_weak_form(self):
            return lambda vals, grads, x, *iv: ([0.0 * v for v in vals], [g for g in grads])
    p = P([wl.fmesh(pts, cells, a), wl.fmesh(pts2, cells2, b)], vec=vecs, dim=d, ele_type=[a, b],
          gauss_order=[2, 2])
    sizes = [len(pts), len(pts2)]
    flds = [rng.normal(size=(n, v)) for n, v in zip(sizes, vecs)]
    flat = np.concatenate([f.ravel() for f in flds])
    s = fe.Solution.from_problem(p, jnp.asarray(flat))
    un = p.unflatten_fn_sol_list(jnp.asarray(flat))
    T = fe.TracedParams
    for i in range(2):
        mon.equal("two.unflatten", un[i], flds[i])
        mon.equal("two.field", s.field(i), flds[i])
        for c in range(vecs[i]):
            mon.equal("two.node_var", s.node_var(component=c, var_index=i), flds[i][:, c])
            mon.equal("two.node_from_solution", T.node_var_from_solution(p, s, component=c, var_index=i), flds[i][:, c])
        f, g = fn_of(rng, d)
        P_ = [pts, pts2][i]
        mon.close("two.node_fn", T.create_node_var_from_fn(p, f, var_index=i), g(P_), rtol=1e-12, scale=1.0)
        mon.equal("two.node", T.create_node_var(p, 1.5, var_index=i), np.full(sizes[i], 1.5))
        C_ = [cells, cells2][i]
        mon.close("two.cell_fn", T.create_cell_var_from_fn(p, f, var_index=i), g(P_[C_].mean(axis=1)), rtol=1e-12, scale=1.0)
    # boundary values per variable
    ax = int(rng.integers(0, d))
    val = pts[:, ax].min()
    vi = int(rng.integers(0, 2))
    comp = int(rng.integers(0, vecs[vi]))
    f, g = fn_of(rng, d)
    bc = fe.DirichletBC.from_specs(p, [fe.DirichletBCSpec(wl.side(ax, val), comp, f, variable_index=vi)])
    P_ = [pts, pts2][vi]
    nodes = np.where(np.abs(P_[:, ax] - val) < 1e-8)[0]
    want = (0 if vi == 0 else sizes[0] * vecs[0]) + nodes * vecs[vi] + comp
    o = np.argsort(np.asarray(bc.bc_rows))
    mon.equal("two.bc_rows", np.asarray(bc.bc_rows)[o], np.sort(want))
    mon.close("two.bc_vals", np.asarray(bc.bc_vals)[o], g(P_[nodes])[np.argsort(want)], rtol=1e-12, scale=1.0)
    mon.seen("two", a, b, vecs)


def case_bcvals(case, mon):
    rng = rng_for(case)
    pts, cells = pose_mesh(rng, case["ele"])
    d = pts.shape[1]
    p = pose(case["ele"], pts, cells)
    specs, want = [], {}
    lo, hi = pts.min(0), pts.max(0)
    used = set()
    for _ in range(int(rng.integers(1, 4))):
        ax = int(rng.integers(0, d))
        if ax in used:
            continue
        used.add(ax)
        val = float(rng.choice([lo[ax], hi[ax]]))
        # distinct components on distinct sides: no dof is prescribed twice
        comp = ax
        f, g = fn_of(rng, d)
        specs.append(fe.DirichletBCSpec(wl.side(ax, val), str("xyz"[comp]) if rng.uniform() < 0.5 else comp, f))
        for n in np.where(np.abs(pts[:, ax] - val) < 1e-8)[0]:
            want[int(n) * d + comp] = float(g(pts[n:n + 1])[0])
    bc = fe.DirichletBC.from_specs(p, specs)
    cfg = fe.DirichletBCConfig()
    for s in specs:
        cfg.add(s.location, s.component, s.value)
    for t, b in (("specs", bc), ("config", cfg.create_bc(p)), ("tree", jax.tree_util.tree_unflatten(*reversed(jax.tree_util.tree_flatten(bc)))),
                 ("jit", jax.jit(lambda z: z)(bc))):
        got = dict(zip(np.asarray(b.bc_rows).tolist(), np.asarray(b.bc_vals).tolist()))
        mon.true("bc.rows." + t, set(got) == set(want))
        mon.close("bc.vals." + t, [got.get(k, np.nan) for k in sorted(want)], [want[k] for k in sorted(want)], rtol=1e-12, scale=1.0)
        mask = np.zeros(len(pts) * d, bool)
        mask[list(want)] = True
        mon.equal("bc.mask." + t, b.bc_mask, mask)
        mon.true("bc.total." + t, b.total_dofs == len(pts) * d)
    new = rng.normal(size=len(want))
    old = np.array(bc.bc_vals)
    b2 = bc.replace_vals(jnp.asarray(new))
    mon.equal("bc.replace", b2.bc_vals, new)
    mon.equal("bc.replace_rows", b2.bc_rows, bc.bc_rows)
    mon.equal("bc.replace_mask", b2.bc_mask, bc.bc_mask)
    mon.equal("bc.original_kept", bc.bc_vals, old)
    mon.seen("bcvals", case["ele"], len(specs))


def case_spikes(case, mon):
    """One entry of a parameter array changed: the residual changes on its own cell(s) only."""
    rng = rng_for(case)
    ele = case["ele"]
    pts, cells = pose_mesh(rng, ele)
    d = pts.shape[1]
    if len(pts) == len(cells):
        return
    p = pose(ele, pts, cells, order=2)
    nn, nc, nq = len(pts), len(cells), p.fes[0].num_quads
    u = jnp.asarray(rng.normal(size=(nn, d)))
    res = jax.jit(lambda tp: fe.assembler.get_res(p, [u], tp)[0])
    forms = {"cell": (nc,), "node": (nn,)}
    if nq not in (nn, nc) and (nc, nq) != (nn, nq):
        forms["quad"] = (nc, nq)
    for t, shp in forms.items():
        base = rng.uniform(0.5, 1.5, shp)
        other = rng.uniform(0.5, 1.5, (nc,))
        r0 = np.asarray(res(fe.TracedParams(volume_vars=(jnp.asarray(other), jnp.asarray(base)))))
        for _ in range(4):
            k = tuple(int(rng.integers(0, n)) for n in shp)
            z = base.copy()
            z[k] += 1.0
            tp = fe.TracedParams(volume_vars=(jnp.asarray(other), jnp.asarray(base))).replace_volume_var(1, jnp.asarray(z))
            dr = np.abs(np.asarray(res(tp)) - r0).sum(axis=1)
            own = cells[k[0]] if t != "node" else np.unique(cells[(cells == k[0]).any(axis=1)])
            mask = np.zeros(nn, bool)
            mask[own] = True
            mon.true("spike.only_own." + t, np.all(dr[~mask] == 0.0), ele=ele, k=k)
            mon.true("spike.arrives." + t, dr[mask].max() > 1e-9, ele=ele, k=k)
    mon.seen("spikes", ele)


def case_rebuilt(case, mon):
    """A problem taken apart and put together again as a pytree is the same problem."""
    rng = rng_for(case)
    r = case["r"] % 4
    ele = ("QUAD4", "TET4", "HEX8", "QUAD8")[r]
    dim = ref.DIM[ref.ELE[ele][2]]
    pts, cells = wl.make_mesh(rng, ele, (3, 2) if dim == 2 else (2, 1, 2), distort=.1)
    k = float(rng.uniform(.5, 2))

    @jax.tree_util.register_pytree_node_class
    class P(fe.problem.Problem):
        def custom_init(self, fac=0.0):
            self.fac = fac

        def get_tensor_map(self):
            return lambda g, E: E * g * (1 + self.fac * jnp.sum(g * g))

        def get_surface_maps(self):
            return [lambda u, x: k * u, lambda u, x: x[:1] * u]
    locs = [wl.side(0, 0.0), wl.side(1, 1.0)]
    view = [fe.MatrixView.FULL, fe.MatrixView.UPPER][r % 2]
    p = P(wl.fmesh(pts, cells, ele), vec=dim, dim=dim, ele_type=ele, location_fns=locs, gauss_order=int(rng.integers(2, 4)),
          matrix_view=view, additional_info=(float(rng.uniform(.1, .5)),), hess=bool(r == 3))
    leaves, tree = jax.tree_util.tree_flatten(p)
    q = jax.tree_util.tree_unflatten(tree, leaves)
    u = rng.normal(size=(len(pts), dim))
    tp = fe.TracedParams(volume_vars=(jnp.asarray(rng.uniform(.5, 2, len(cells))),), surface_vars=[(), ()])
    a, b = (np.asarray(fe.assembler.get_res(z, [jnp.asarray(u)], tp)[0]) for z in (p, q))
    mon.close("problem.residual", b, a, rtol=1e-13, ele=ele)
    a, b = (ref.csr_dense(fe.assembler.get_jacobian(z, [jnp.asarray(u)], tp)) for z in (p, q))
    mon.close("problem.tangent", b, a, rtol=1e-13, ele=ele)
    mon.true("problem.settings", q.matrix_view == p.matrix_view and q.fes[0].num_quads == p.fes[0].num_quads and q.hess == p.hess
             and q.fac == p.fac)
    mon.seen("rebuilt", ele)
