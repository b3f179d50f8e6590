"""Workload generation: meshes built here (not by the code under test) and physics
written once for an array module xp, so that JAX and the numpy reference share the
user's weak form but nothing else."""
import numpy as np

from harness import ref
from harness.lazy import fe, jax, jnp

TET6 = [(0, 1, 2, 6), (0, 2, 3, 6), (0, 3, 7, 6), (0, 7, 4, 6), (0, 4, 5, 6), (0, 5, 1, 6)]


def grid(ns, size, origin):
    axes = [np.linspace(o, o + s, n + 1) for n, s, o in zip(ns, size, origin)]
    G = np.meshgrid(*axes, indexing="ij")
    pts = np.stack([g.ravel() for g in G], axis=1)
    idx = np.arange(len(pts)).reshape([n + 1 for n in ns])
    if len(ns) == 2:
        cells = [[idx[i, j], idx[i + 1, j], idx[i + 1, j + 1], idx[i, j + 1]]
                 for i in range(ns[0]) for j in range(ns[1])]
    else:
        cells = [[idx[i, j, k], idx[i + 1, j, k], idx[i + 1, j + 1, k], idx[i, j + 1, k],
                  idx[i, j, k + 1], idx[i + 1, j, k + 1], idx[i + 1, j + 1, k + 1], idx[i, j + 1, k + 1]]
                 for i in range(ns[0]) for j in range(ns[1]) for k in range(ns[2])]
    return pts, np.array(cells)


def make_mesh(rng, ele, ns, size=None, origin=None, distort=0.0, curve=0.0, permute=True):
    """points, cells of a random structured mesh of the box origin..origin+size."""
    shape = ref.ELE[ele][2]
    d = ref.DIM[shape]
    size = np.ones(d) if size is None else np.asarray(size, float)
    origin = np.zeros(d) if origin is None else np.asarray(origin, float)
    pts, cells = grid(ns, size, origin)
    h = size / np.array(ns)
    lo, hi = origin, origin + size
    onb = np.isclose(pts, lo) | np.isclose(pts, hi)
    if distort:
        shift = rng.uniform(-1, 1, pts.shape) * h * distort
        shift[onb] = 0.0                     # slide along the boundary, never leave it
        pts = pts + shift
    if shape == "tri":
        cells = np.array([t for q in cells for t in ([q[0], q[1], q[2]], [q[0], q[2], q[3]])])
    elif shape == "tet":
        cells = np.array([[q[a] for a in t] for q in cells for t in TET6])
    nc = ref.CORNERS[shape]
    nn = len(ref.ELE[ele][0])
    if nn > nc:
        edges = {"tri": ref.TRI_E, "quad": ref.QUAD_E, "tet": ref.TET_E, "hex": ref.HEX_E}[shape]
        pts_l = list(pts)
        emap, out = {}, []
        for c in cells:
            row = list(c)
            for a, b in edges:
                key = (min(c[a], c[b]), max(c[a], c[b]))
                if key not in emap:
                    emap[key] = len(pts_l)
                    m = (pts[key[0]] + pts[key[1]]) / 2
                    if curve:
                        s = rng.uniform(-1, 1, d) * h * curve
                        nb = np.isclose(m, lo) | np.isclose(m, hi)
                        s[nb] = 0.0
                        m = m + s
                    pts_l.append(m)
                row.append(emap[key])
            if ele == "QUAD9":
                row.append(len(pts_l))
                pts_l.append(np.mean([pts_l[i] for i in row[4:8]], axis=0))
            out.append(row)
        pts, cells = np.array(pts_l), np.array(out)
    if permute:
        p = rng.permutation(len(pts))          # p[old] = new
        new = np.empty_like(pts)
        new[p] = pts
        pts, cells = new, p[cells]
        cells = cells[rng.permutation(len(cells))]
    return pts, cells.astype(np.int64)


def fmesh(pts, cells, ele):
    return fe.Mesh(jnp.asarray(pts), jnp.asarray(cells), ele_type=ele)


def side(axis, val, tol=1e-8):
    """location predicate (jax/numpy) selecting a coordinate plane."""
    def loc(p):
        return jnp.abs(p[axis] - val) < tol
    return loc


def side_np(axis, val, tol=1e-8):
    return lambda p, i=None: abs(p[axis] - val) < tol


# ---------------------------------------------------------------- physics
def lame(E, nu):
    return E * nu / ((1 + nu) * (1 - 2 * nu)), E / (2 * (1 + nu))


def stress_lin(xp, g, E, nu=0.3):
    d = g.shape[-1]
    lam, mu = lame(E, nu)
    eps = 0.5 * (g + g.T)
    return lam * xp.trace(eps) * xp.eye(d) + 2 * mu * eps


def psi_nh(xp, g, E, nu=0.3):
    """Compressible neo-Hookean energy (vec == dim)."""
    d = g.shape[-1]
    lam, mu = lame(E, nu)
    F = g + xp.eye(d)
    J = xp.linalg.det(F)
    I1 = xp.sum(F * F)
    return mu / 2 * (I1 - d) - mu * xp.log(J) + lam / 2 * xp.log(J) ** 2


def pk1_nh(xp, g, E, nu=0.3):
    d = g.shape[-1]
    lam, mu = lame(E, nu)
    F = g + xp.eye(d)
    J = xp.linalg.det(F)
    FiT = xp.linalg.inv(F).T
    return mu * (F - FiT) + lam * xp.log(J) * FiT


def flux_gen(xp, g, k):
    """Nonlinear anisotropic flux for any vec; smooth, monotone-ish."""
    v, d = g.shape
    A = xp.asarray(np.eye(d) + 0.3 * np.triu(np.ones((d, d)), 1) - 0.1 * np.tril(np.ones((d, d)), -1))
    return k * (g @ A) * (1 + 0.1 * xp.sum(g * g))


# ---------------------------------------------------------------- random problems
class Case:
    """A generated problem: p, tp (parameters), bc, state sampler and facts about it."""

    def __init__(self, **kw):
        self.__dict__.update(kw)

    def res_flat(self, u, tp=None, ts=None):
        """Un-eliminated residual of the code under test, flat."""
        p = self.p
        r = fe.assembler.get_res(p, p.unflatten_fn_sol_list(jnp.asarray(u)), self.tp if tp is None else tp, ts)
        return jnp.concatenate([jnp.ravel(x) for x in r])

    def res(self, u, tp=None):
        """Compiled res_flat, as numpy."""
        if not hasattr(self, "_res"):
            self._res = jax.jit(lambda s, t: self.res_flat(s, t))
        return np.asarray(self._res(jnp.asarray(u), self.tp if tp is None else tp))

    def K(self, u, tp=None):
        """Dense derivative of the residual (compiled forward mode)."""
        if not hasattr(self, "_K"):
            self._K = jax.jit(jax.jacfwd(lambda s, t: self.res_flat(s, t)))
        return np.asarray(self._K(jnp.asarray(u), self.tp if tp is None else tp))

    @property
    def n(self):
        return int(self.p.num_total_dofs_all_vars)

    def free(self, bc=None):
        m = np.ones(self.n, bool)
        m[np.asarray((bc or self.bc).bc_rows)] = False
        return m

    def linear_solution(self, tp=None, bc=None):
        """Dense constrained solve from the residual alone (linear problems)."""
        bc = bc or self.bc
        f = self.free(bc)
        K = self.K(np.zeros(self.n), tp)
        r0 = self.res(np.zeros(self.n), tp)
        u = np.zeros(self.n)
        u[np.asarray(bc.bc_rows)] = np.asarray(bc.bc_vals)
        b = -(r0 + K @ u)
        u[f] = np.linalg.solve(K[np.ix_(f, f)], b[f])
        return u


KINDS = ("elastic", "nh", "diff", "conv", "nlflux", "mixed")
LINEAR = ("elastic", "diff", "conv", "mixed")
SYMMETRIC = ("elastic", "nh", "diff")


def problem_class(kind, dim, follower=False):
    """User problem class of a kind; parameters: volume var 0 = coefficient field."""
    B = fe.problem.Problem

    if kind == "elastic":
        class P(B):
            def get_tensor_map(self):
                return lambda g, E: stress_lin(jnp, g, E)

            def get_surface_maps(self):
                return [lambda u, x, t, h: t * (jnp.ones(dim) + 0.5 * x) + h * u]
    elif kind == "nh":
        class P(B):
            def get_energy_density(self):
                return lambda g, E: psi_nh(jnp, g, E)

            def get_surface_maps(self):
                return [lambda u, x, t, h: t * (jnp.ones(dim) + 0.5 * x) + h * u]
    elif kind == "diff":
        class P(B):
            def get_tensor_map(self):
                return lambda g, k: k * g

            def get_mass_map(self):
                return lambda u, x, k: 0.5 * u - jnp.sum(x) * jnp.ones_like(u)

            def get_surface_maps(self):
                return [lambda u, x, t, h: t * jnp.ones_like(u) * (1 + x[0]) + h * u]
    elif kind == "conv":                        # non-symmetric: advection as an extra element kernel
        class P(B):
            def get_tensor_map(self):
                return lambda g, k: k * g

            def get_mass_map(self):
                return lambda u, x, k: 0.3 * u - x[0] * jnp.ones_like(u)

            def get_extra_kernel(self):
                vel = jnp.asarray([1.3, -0.7, 0.4][:dim])

                def kernel(u, xq, sg, JxW, vg, *vs):
                    us = self.unflatten_fn_dof(u)[0]
                    gq = jnp.einsum("av,qai->qvi", us, sg)
                    N = self.fes[0].shape_vals
                    return jnp.ravel(jnp.einsum("qvi,i,qa,q->av", gq, vel, N, JxW[0]))
                return kernel

            def get_surface_maps(self):
                return [lambda u, x, t, h: t * jnp.ones_like(u) + h * u]
    elif kind == "nlflux":
        class P(B):
            def get_tensor_map(self):
                return lambda g, k: flux_gen(jnp, g, k)

            def get_mass_map(self):
                return lambda u, x, k: 0.2 * u + 0.1 * u ** 3 - jnp.sin(x[0]) * jnp.ones_like(u)

            def get_surface_maps(self):
                return [lambda u, x, t, h: t * jnp.ones_like(u) + h * (u + 0.1 * u ** 3)]
    elif kind == "mixed":                       # displacement + temperature, one-way coupled
        class P(B):
            def get_weak_form(self):
                def wf(vals, grads, x, E):
                    th = vals[1][0]
                    s = stress_lin(jnp, grads[0], E) - 0.4 * th * jnp.eye(dim)
                    return [0.0 * vals[0], 0.1 * vals[1] - 1.0], [s, (1 + 0.2 * x[0]) * grads[1]]
                return wf

            def get_surface_weak_forms(self):
                return [lambda vals, x, t, h: [t * jnp.ones(dim), h * (vals[1] - 1.0)]]
    else:
        raise KeyError(kind)
    return P


def gen(rng, kind, ele="QUAD4", ns=None, view="FULL", distort=0.15, h=None, t=None, layout=None,
        both_ends=True, curve=0.0, unit=(1.0, 1.0)):
    """unit = (length, stiffness) in which an elastic or nh problem is expressed."""
    L0, E0 = unit
    shape = ref.ELE[ele][2]
    dim = ref.DIM[shape]
    if ns is None:
        ns = (3, 2) if dim == 2 else (2, 1, 1)
    size = rng.uniform(0.8, 2.0, dim)
    origin = rng.uniform(-1.5, 1.5, dim)
    pts, cells = make_mesh(rng, ele, ns, size, origin, distort=distort, curve=curve)
    pts, size, origin = pts * L0, size * L0, origin * L0
    m = fmesh(pts, cells, ele)
    vec = {"elastic": dim, "nh": dim, "diff": 1, "conv": 1, "nlflux": 1, "mixed": [dim, 1]}[kind]
    lo, hi = float(origin[0]), float(origin[0] + size[0])
    ly = float(origin[1] + size[1])
    tol = 1e-8 * L0
    P = problem_class(kind, dim)
    mixed = kind == "mixed"
    p = P([m, m] if mixed else m, vec=vec, dim=dim, ele_type=[ele, ele] if mixed else ele,
          gauss_order=[2, 2] if mixed else None, location_fns=[side(1, ly, tol)], matrix_view=view) if mixed else \
        P(m, vec=vec, dim=dim, ele_type=ele, location_fns=[side(1, ly, tol)], matrix_view=view)
    layout = layout or str(rng.choice(["node", "cell"]))
    if len(pts) == len(cells):
        layout = "node"
    nn = len(pts) if layout == "node" else len(cells)
    E = rng.uniform(0.7, 1.6, nn) * E0
    t = float(rng.uniform(-0.08, 0.08)) if t is None else t
    h = float(rng.uniform(0.1, 0.5)) if h is None else h
    t, h = t * E0 / max(1.0, L0), h * E0 / L0
    sv = [(fe.TracedParams.create_uniform_surface_var(p, t), fe.TracedParams.create_uniform_surface_var(p, h))]
    tp = fe.TracedParams(volume_vars=(jnp.asarray(E),), surface_vars=sv)
    S = fe.DirichletBCSpec
    val = float(rng.uniform(0.05, 0.15)) * L0
    if mixed:
        specs = [S(side(0, lo, tol), "all", 0.0, variable_index=0), S(side(0, lo, tol), 0, 0.3, variable_index=1)]
        if both_ends:
            specs.append(S(side(0, hi, tol), "x", val, variable_index=0))
    else:
        specs = [S(side(0, lo, tol), "all", 0.0 if kind in ("elastic", "nh") else 0.2)]
        if both_ends:
            specs.append(S(side(0, hi, tol), "x" if kind in ("elastic", "nh") else 0, val))
    bc = fe.DirichletBC.from_specs(p, specs)
    return Case(p=p, tp=tp, bc=bc, kind=kind, ele=ele, dim=dim, vec=vec, pts=pts, cells=cells, lo=lo, hi=hi,
                size=size, origin=origin, layout=layout, symmetric=kind in SYMMETRIC, linear=kind in LINEAR,
                E=E, t=t, h=h, specs=specs, unit=unit)


def random_unit(rng):
    """(length, stiffness) unit: micrometres in metres, pascals, newtons per square millimetre, ..."""
    return float(10.0 ** rng.uniform(-7, 3)), float(10.0 ** rng.choice([-6, -3, 3, 6, 9, 11.3]))


def dofs_of(sol):
    return np.asarray(sol.dofs if hasattr(sol, "dofs") else sol)
