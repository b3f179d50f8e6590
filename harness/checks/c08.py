"""C08: results depend only on the inputs, never on the history; arguments are left alone."""
import concurrent.futures as cf
import dataclasses
import gc
import hashlib
import json
import os
import subprocess
import sys
import time

import numpy as np

from harness import ref, wl
from harness.lazy import fe, jax, jnp
from harness.mon import rng_for
from harness.checks import c05

ID = "C08"
RULE = ("random call histories over a pool of solvers (shared mesh, same-size permuted sparsity, other sizes, other backends) "
        "mixing solves, gradients, batches, failing calls, rebuilds and garbage collection; every return value compared with a "
        "dense reference of its own inputs and with the first return for those inputs; concurrent solves from threads with "
        "injected scheduling delays; first-use inputs chosen degenerate; replay of a history's calls in a fresh process; "
        "fingerprints of every argument before and after each call; distinct by (backend, operation, previous operation)")
ASSUMPTIONS = ["dense reference solution from the observed residual (C01)"]
MIN_EVALUATIONS = 250

BACK = ("spsolve", "umfpack", "cholmod", "cg", "gmres", "amg")


def cases(tier, seed):
    out = []
    reps = 1 if tier == "quick" else 6
    for r in range(reps):
        for b in ("umfpack", "cholmod", "spsolve", "mixed", "mixed", "krylov"):
            out.append(dict(kind="history", back=b, n=26 if tier == "quick" else 70, cost=9))
        for path in ("spsolve", "cholmod", "amgN", "amg2", "extra"):
            out.append(dict(kind="newton", path=path, cost=7))
        for b in ("umfpack", "cholmod", "spsolve"):
            out.append(dict(kind="threads", back=b, cost=5))
        for phys in ("elastic", "nh", "nlflux"):
            out.append(dict(kind="first", phys=phys, cost=6))
        for b in BACK:
            out.append(dict(kind="alias", back=b, cost=4))
        out.append(dict(kind="mutation", cost=6))
        out.append(dict(kind="mutation2", cost=5))
        out.append(dict(kind="fresh", cost=9))
        out.append(dict(kind="options", cost=3))
        out.append(dict(kind="shared", cost=5))
    return [dict(c, seed=seed, i=n, r=n) for n, c in enumerate(out)]


def _opt(name, adj=False):
    D, K, A = fe.DirectSolverOptions, fe.KrylovSolverOptions, fe.AMGSolverOptions
    if name in ("spsolve", "umfpack", "cholmod"):
        return D(solver=name)
    if name in ("cg", "gmres", "bicgstab"):
        return K(solver=name, tol=1e-12, atol=1e-14, maxiter=3000)
    return A(solver="cg", tol=1e-12, atol=1e-14, maxiter=3000)


def permuted_twin(rng, c):
    """The same problem with nodes renumbered: same sizes, another sparsity pattern."""
    p = rng.permutation(len(c.pts))
    pts = np.empty_like(c.pts)
    pts[p] = c.pts
    cells = p[c.cells]
    m = wl.fmesh(pts, cells, c.ele)
    q = wl.problem_class(c.kind, c.dim)(m, vec=c.vec, dim=c.dim, ele_type=c.ele,
                                        location_fns=[wl.side(1, float(c.origin[1] + c.size[1]))], matrix_view="FULL")
    E = c.E
    if c.layout == "node":
        E = np.empty_like(c.E)
        E[p] = c.E
    U = fe.TracedParams.create_uniform_surface_var
    tp = fe.TracedParams(volume_vars=(jnp.asarray(E),), surface_vars=[(U(q, c.t), U(q, c.h))])
    bc = fe.DirichletBC.from_specs(q, c.specs)
    return wl.Case(p=q, tp=tp, bc=bc, kind=c.kind, ele=c.ele, dim=c.dim, pts=pts, cells=cells, E=E, layout=c.layout,
                   linear=c.linear, t=c.t, h=c.h)


class Player:
    """One solver of the pool together with its inputs and remembered answers."""

    def __init__(self, rng, c, back, k):
        self.c, self.back = c, back
        self.rng = np.random.default_rng(int(rng.integers(1 << 30)))
        self.inputs = [c.E * self.rng.uniform(.5, 2, c.E.shape) for _ in range(k)]
        self.vals = [np.asarray(c.bc.bc_vals) * (1 + .5 * j) for j in range(k)]
        self.first, self.firstg = {}, {}
        self.want = {}
        self.w = jnp.asarray(self.rng.normal(size=c.n))
        self.build()

    def build(self):
        c = self.c
        self.s = fe.create_solver(c.p, c.bc, linear=True, solver_options=_opt(self.back), traced_params=c.tp)
        self.ig = fe.zero_like_initial_guess(c.p, c.bc)
        self.f = lambda E, v: self.s(self.tp(E), self.ig, bc=c.bc.replace_vals(v)).dofs
        self.jf = jax.jit(self.f)
        self.g = jax.jit(jax.grad(lambda E, v: jnp.sum(self.w * self.f(E, v))))
        self.vf = jax.vmap(self.jf)

    def tp(self, E):
        return fe.TracedParams(volume_vars=(E,), surface_vars=self.c.tp.surface_vars)

    def reference(self, j):
        if j not in self.want:
            c = self.c
            self.want[j] = c.linear_solution(self.tp(jnp.asarray(self.inputs[j])), c.bc.replace_vals(jnp.asarray(self.vals[j])))
        return self.want[j]

    def args(self, j):
        return jnp.asarray(self.inputs[j]), jnp.asarray(self.vals[j])


def case_history(case, mon):
    rng = rng_for(case)
    b = case["back"]
    if b == "mixed":
        backs = list(rng.choice(["spsolve", "umfpack", "cholmod", "cg", "amg"], 4))
    elif b == "krylov":
        backs = ["cg", "amg", "gmres", "cg"]
    else:
        backs = [b] * 4
    c0 = wl.gen(rng, "elastic", "QUAD4", ns=(3, 3))
    twin = permuted_twin(rng, c0)
    m = c0.p.mesh[0]
    # another problem on the same mesh object: other physics constants, other surface, other supports
    other = wl.problem_class("elastic", 2)(m, vec=2, dim=2, ele_type="QUAD4", location_fns=[wl.side(0, c0.hi)],
                                           matrix_view="FULL")
    U = fe.TracedParams.create_uniform_surface_var
    co = wl.Case(p=other, tp=fe.TracedParams(volume_vars=(jnp.asarray(c0.E),), surface_vars=[(U(other, .05), U(other, .2))]),
                 bc=fe.DirichletBC.from_specs(other, [fe.DirichletBCSpec(wl.side(0, c0.lo), "all", 0.02)]), kind="elastic",
                 E=c0.E, dim=2)
    small = wl.gen(rng, "elastic", "TRI3", ns=(2, 2))
    pool = [Player(rng, c, bk, 3) for c, bk in zip((c0, twin, co, small), backs)]
    prev = "start"
    for step in range(case["n"]):
        pl = pool[int(rng.integers(len(pool)))]
        j = int(rng.integers(3))
        op = str(rng.choice(["solve", "solve", "jit", "jit", "grad", "batch", "fail", "rebuild", "gc", "structure"]))
        tol = 1e-9 if pl.back in ("spsolve", "umfpack", "cholmod") else 1e-7
        ctx = dict(back=pl.back, step=step, prev=prev, op=op)
        if op in ("solve", "jit"):
            u = np.asarray((pl.f if op == "solve" else pl.jf)(*pl.args(j)))
            mon.close("solution whatever came before", u, pl.reference(j), rtol=tol, **ctx)
            if (op, j) in pl.first:
                mon.close("repeated call repeats its result", u, pl.first[op, j], rtol=1e-12, **ctx)
            pl.first.setdefault((op, j), u)
        elif op == "grad":
            g = np.asarray(pl.g(*pl.args(j)))
            if j in pl.firstg:
                mon.close("repeated gradient", g, pl.firstg[j], rtol=1e-11, **ctx)
            pl.firstg.setdefault(j, g)
        elif op == "batch":
            k = int(rng.integers(1, 4))
            js = [int(x) for x in rng.integers(0, 3, k)]
            u = np.asarray(pl.vf(jnp.asarray(np.stack([pl.inputs[a] for a in js])), jnp.asarray(np.stack([pl.vals[a] for a in js]))))
            mon.close("batch whatever came before", u, np.stack([pl.reference(a) for a in js]), rtol=tol, **ctx)
        elif op == "fail":
            bad = pl.inputs[j] * (np.nan if rng.random() < .5 else 0.0)
            try:
                np.asarray(pl.jf(jnp.asarray(bad), pl.args(j)[1]))
                mon.event("failing call returned")
            except Exception:           # noqa: BLE001 - a raising backend is fine here
                mon.event("failing call raised")
            u = np.asarray(pl.jf(*pl.args(j)))
            mon.close("solution right after a failed call", u, pl.reference(j), rtol=tol, **ctx)
        elif op == "rebuild":
            pl.build()
            u = np.asarray(pl.f(*pl.args(j)))
            mon.close("solution of a rebuilt solver", u, pl.reference(j), rtol=tol, **ctx)
        elif op == "structure":
            ts = fe.TracedStructure.from_problem(pl.c.p, free_scratch=False)
            u = np.asarray(pl.s(pl.tp(pl.args(j)[0]), pl.ig, bc=pl.c.bc.replace_vals(pl.args(j)[1]), traced_structure=ts).dofs)
            mon.close("solution through a passed structure", u, pl.reference(j), rtol=tol, **ctx)
        else:
            tmp = wl.gen(np.random.default_rng(int(rng.integers(1 << 30))), "elastic", "QUAD4", ns=(3, 3))
            s = fe.create_solver(tmp.p, tmp.bc, linear=True, solver_options=_opt(pl.back), traced_params=tmp.tp)
            u = np.asarray(s(tmp.tp, fe.zero_like_initial_guess(tmp.p, tmp.bc)).dofs)
            mon.close("short-lived problem of the same shape", u, tmp.linear_solution(), rtol=tol, **ctx)
            del tmp, s
            gc.collect()
        mon.event("history operations")
        mon.seen(pl.back, op, prev)
        prev = op


def case_alias(case, mon):
    """Consecutive inputs that a cheap fingerprint, an identity key or a tolerance would confuse."""
    rng = rng_for(case)
    b = case["back"]
    n = (4, 3)
    pts, cells = wl.make_mesh(rng, "QUAD4", n, size=(2.0, 1.2), origin=(-1.0, -.6))
    m = wl.fmesh(pts, cells, "QUAD4")
    p = wl.problem_class("elastic", 2)(m, vec=2, dim=2, ele_type="QUAD4", location_fns=[wl.side(1, .6)], matrix_view="FULL")
    U = fe.TracedParams.create_uniform_surface_var
    sv = [(U(p, .05), U(p, .2))]
    bc = fe.DirichletBC.from_specs(p, [fe.DirichletBCSpec(wl.side(0, -1.0), "all", 0.0), fe.DirichletBCSpec(wl.side(0, 1.0), "all", 0.0)])
    E0 = rng.uniform(.5, 2, len(cells))
    tp = lambda E, sv=sv: fe.TracedParams(volume_vars=(E,), surface_vars=sv)      # noqa: E731
    c = wl.Case(p=p, tp=tp(jnp.asarray(E0)), bc=bc, kind="elastic", dim=2)
    cen = pts[cells].mean(1)

    def image(sx, sy):
        return np.array([int(np.argmin(np.linalg.norm(cen - [sx * x, sy * y], axis=1))) for x, y in cen])
    one = E0.copy()
    one[int(rng.integers(len(E0)))] *= 1.001
    seq = [("first", E0), ("mirrored", E0[image(-1, 1)]), ("turned", E0[image(-1, -1)]), ("permuted", rng.permutation(E0)),
           ("one entry", one), ("scaled", E0 * 1.0001), ("first again", E0), ("tiny", E0 * 1e-6), ("first again", E0)]
    s = fe.create_solver(p, bc, linear=True, solver_options=_opt(b), traced_params=c.tp)
    ig = fe.zero_like_initial_guess(p, bc)
    w = jnp.asarray(rng.normal(size=c.n))
    f = jax.jit(lambda E, v: s(tp(E), ig, bc=bc.replace_vals(v)).dofs)
    g = jax.jit(jax.grad(lambda E, v: jnp.sum(w * f(E, v))))
    tol = 1e-9 if b in ("spsolve", "umfpack", "cholmod") else 1e-6
    v0 = jnp.asarray(bc.bc_vals)
    want, prev = {}, None
    for k, (name, E) in enumerate(seq):
        if name == "tiny" and b not in ("spsolve", "umfpack", "cholmod"):
            continue
        key = E.tobytes()
        if key not in want:
            want[key] = c.linear_solution(tp(jnp.asarray(E)), bc)
        mon.close("look-alike inputs are told apart", np.asarray(f(jnp.asarray(E), v0)), want[key], rtol=tol, back=b, name_=name)
        if name in ("mirrored", "first"):
            gg = np.asarray(g(jnp.asarray(E), v0))
            if name == "mirrored":
                h = 1e-5
                d = rng.normal(size=len(E))
                fd = float(w @ (c.linear_solution(tp(jnp.asarray(E + h * d)), bc) - c.linear_solution(tp(jnp.asarray(E - h * d)), bc))) / (2 * h)
                mon.close("gradient of a look-alike input", float(gg @ d), fd, rtol=1e-4, atol=1e-7, back=b)
        mon.seen("alias", b, name)
    # the same array object with other contents
    A = E0.copy()
    call = lambda A: np.asarray(s(tp(A), ig).dofs)      # noqa: E731
    for name, E in (("first", E0), ("mirrored in place", E0[image(-1, 1)]), ("first", E0)):
        A[:] = E
        mon.close("same array object, new contents", call(A), want[E.tobytes()], rtol=tol, back=b, name_=name)
    v = np.zeros(len(np.asarray(bc.bc_vals)))
    for k in range(2):
        v[:] = rng.uniform(-.1, .1, len(v))
        u = np.asarray(s(c.tp, ig, bc=bc.replace_vals(v)).dofs)
        mon.close("same boundary array, new values", u, c.linear_solution(c.tp, bc.replace_vals(jnp.asarray(v))), rtol=tol, back=b)


def case_newton(case, mon):
    rng = rng_for(case)
    path = case["path"]
    c = wl.gen(rng, "nh", "QUAD4", distort=.1)
    nt = fe.NewtonOptions(tol=1e-10, rel_tol=1e-14, max_iter=30, raise_on_line_search_failure=False)
    st = np.random.default_rng(int(rng.integers(1 << 30)))
    kw, extra = c05._kw(path, st, c, nt)

    def build():
        return fe.create_solver(c.p, c.bc, linear=False, traced_params=c.tp, **kw)
    s = build()
    ig = fe.zero_like_initial_guess(c.p, c.bc)
    Es = [c.E * rng.uniform(.6, 1.6, c.E.shape) for _ in range(3)]
    call = lambda s, E: np.asarray(s(fe.TracedParams(volume_vars=(jnp.asarray(E),), surface_vars=c.tp.surface_vars), ig).dofs)   # noqa: E731
    fresh = [call(build(), E) for E in Es]
    order = list(rng.permutation(3)) + list(rng.integers(0, 3, 3))
    for n, j in enumerate(order):
        u = call(s, Es[j])
        mon.close("Newton result along a history", u, fresh[j], rtol=1e-8, path=path, step=n)
        if n == 2:
            try:
                call(s, np.full_like(c.E, np.nan))
            except Exception:       # noqa: BLE001
                mon.event("failing call raised")
        mon.seen(path, n)
    # interleaving a gradient does not disturb later solves
    jax.grad(lambda E: jnp.sum(s(fe.TracedParams(volume_vars=(E,), surface_vars=c.tp.surface_vars), ig).dofs ** 2))(jnp.asarray(Es[0]))
    mon.close("Newton result after a gradient", call(s, Es[1]), fresh[1], rtol=1e-8, path=path)
    # stopped early, the result still tells where the iteration started: an unstated initial guess is
    # the same one on every call, and a stated one is not replaced by a state left behind
    loose = fe.NewtonOptions(tol=1e-10, rel_tol=0.05, max_iter=30, raise_on_line_search_failure=False)
    kw["newton_options"] = loose
    s = build()
    tps = [fe.TracedParams(volume_vars=(jnp.asarray(E),), surface_vars=c.tp.surface_vars) for E in Es]
    for tag, a in (("stated", (ig,)), ("unstated", ())):
        if tag == "unstated":
            try:
                s(tps[0])
            except TypeError:            # this form of the solver asks for an initial guess
                continue
        first = [np.asarray(build()(tp, *a).dofs) for tp in tps]
        for n, j in enumerate((0, 1, 2, 0, 2)):
            mon.close("early-stopped result along a history", np.asarray(s(tps[j], *a).dofs), first[j], rtol=1e-6,
                      path=path, guess=tag, step=n)
        mon.seen("loose", path, tag)


def case_threads(case, mon):
    """Concurrent solves through shared factorization caches, with stretched critical sections."""
    rng = rng_for(case)
    b = case["back"]
    c = wl.gen(rng, "elastic", "QUAD4", ns=(4, 3))
    d = wl.gen(rng, "elastic", "TRI3", ns=(3, 3))
    fs = []
    for q in (c, d, permuted_twin(rng, c)):
        s = fe.create_solver(q.p, q.bc, linear=True, solver_options=_opt(b), traced_params=q.tp)
        ig = fe.zero_like_initial_guess(q.p, q.bc)
        f = jax.jit(lambda E, s=s, q=q, ig=ig: s(fe.TracedParams(volume_vars=(E,), surface_vars=q.tp.surface_vars), ig).dofs)
        vf = jax.jit(jax.vmap(f))
        fs.append((q, f, vf))
    jobs = []
    for n in range(24):
        q, f, vf = fs[int(rng.integers(3))]
        if n % 6 == 5:
            E = jnp.asarray(np.stack([q.E * rng.uniform(.5, 2, q.E.shape) for _ in range(2)]))
            jobs.append((vf, E))
        else:
            jobs.append((f, jnp.asarray(q.E * rng.uniform(.5, 2, q.E.shape))))
    want = [np.asarray(g(E)) for g, E in jobs]
    # delay injection around the native calls of the direct backends
    import importlib
    hooked = []
    cls = {"umfpack": ("sksparse.umfpack", "UMFFactor"), "cholmod": ("sksparse.cholmod", "CholeskyFactor")}.get(b)
    mods = []
    if cls:
        # the factor classes are C types: delay the Python-level steps of the cached solve instead
        import feax.solvers.direct.umfpack as um
        import feax.solvers.direct.cholmod as ch
        mods = [um, ch]
    else:
        import feax.solvers.direct.spsolve as sp
        mods = [sp]
    drng = np.random.default_rng(int(rng.integers(1 << 30)))
    entered = []

    def stretched(fn):
        def g(*a, **k):
            entered.append(1)
            time.sleep(float(drng.uniform(0, .003)))
            r = fn(*a, **k)
            time.sleep(float(drng.uniform(0, .003)))
            return r
        return g
    for m in mods:
        if hasattr(m, "build_csr_matrix"):
            hooked.append((m, m.build_csr_matrix))
            m.build_csr_matrix = stretched(m.build_csr_matrix)
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        for rep in range(6):
            with cf.ThreadPoolExecutor(8) as ex:
                futs = [ex.submit(lambda g=g, E=E: np.asarray(g(E))) for g, E in jobs]
                got = [x.result() for x in futs]
            bad = sum(not np.allclose(a, w, rtol=0, atol=1e-9 * np.abs(w).max()) for a, w in zip(got, want))
            mon.true("concurrent solves do not see each other", bad == 0, wrong=bad, of=len(jobs), back=b, rep=rep)
            mon.event("concurrent solves", len(jobs))
    finally:
        sys.setswitchinterval(old)
        for m, f in hooked:
            m.build_csr_matrix = f
    mon.event("stretched critical sections", len(entered))
    # asynchronous dispatch without threads
    for rep in range(3):
        r = [g(E) for g, E in jobs]
        bad = sum(not np.allclose(np.asarray(a), w, rtol=0, atol=1e-9 * np.abs(w).max()) for a, w in zip(r, want))
        mon.true("asynchronously dispatched solves", bad == 0, wrong=bad, back=b)
    mon.seen("threads", b)


def case_first(case, mon):
    """The first inputs an object ever sees must not shape what it does with later ones."""
    rng = rng_for(case)
    phys = case["phys"]
    seed = int(rng.integers(1 << 30))

    def fresh():
        r = np.random.default_rng(seed)
        return wl.gen(r, phys, "QUAD4", distort=.1)
    c = fresh()
    u = 0.05 * rng.normal(size=c.n)
    tp0 = c.tp
    want_r = np.asarray(c.res(u))
    want_K = ref.csr_dense(fe.assembler.get_jacobian(c.p, c.p.unflatten_fn_sol_list(jnp.asarray(u)), tp0))
    sv = tp0.surface_vars
    zero = lambda t: jax.tree_util.tree_map(jnp.zeros_like, t)      # noqa: E731
    firsts = dict(zero_load=fe.TracedParams(volume_vars=tp0.volume_vars, surface_vars=zero(sv)),
                  zero_material=fe.TracedParams(volume_vars=zero(tp0.volume_vars), surface_vars=sv),
                  all_zero=zero(tp0),
                  huge=jax.tree_util.tree_map(lambda x: 1e8 * x, tp0),
                  nan=jax.tree_util.tree_map(lambda x: jnp.nan * x, tp0))
    for name, tp in firsts.items():
        q = fresh()
        # first assembly and a solver built with the degenerate parameters as samples
        ref.csr_dense(fe.assembler.get_jacobian(q.p, q.p.unflatten_fn_sol_list(jnp.zeros(q.n)), tp))
        mon.close("residual after a degenerate first call", q.res(u), want_r, rtol=1e-12, first=name)
        K = ref.csr_dense(fe.assembler.get_jacobian(q.p, q.p.unflatten_fn_sol_list(jnp.asarray(u)), tp0))
        mon.close("tangent after a degenerate first call", K, want_K, rtol=1e-12, first=name)
        mon.seen(phys, name)
    ig = fe.zero_like_initial_guess(c.p, c.bc)
    kw = dict(linear=c.linear)
    if not c.linear:
        kw["newton_options"] = fe.NewtonOptions(tol=1e-11, rel_tol=1e-14, max_iter=30, raise_on_line_search_failure=False)
    good = np.asarray(fe.create_solver(c.p, c.bc, solver_options=fe.DirectSolverOptions(solver="spsolve"), traced_params=tp0, **kw)(tp0, ig).dofs)
    for name in ("zero_load", "huge"):
        q = fresh()
        for o in (fe.DirectSolverOptions(), fe.KrylovSolverOptions(tol=1e-12, atol=1e-14, maxiter=3000)):
            s = fe.create_solver(q.p, q.bc, solver_options=o, traced_params=firsts[name], **kw)
            u1 = np.asarray(s(tp0, ig).dofs)
            mon.close("solver built from other sample parameters", u1, good, rtol=1e-7, first=name, opt=type(o).__name__)


def fingerprint(x):
    h = hashlib.sha256()
    seen = set()

    def go(v, depth):
        if depth > 6 or id(v) in seen:
            return
        if isinstance(v, (np.ndarray, jnp.ndarray)):
            a = np.asarray(v)
            h.update(str((a.shape, str(a.dtype))).encode())
            h.update(np.ascontiguousarray(a).tobytes())
        elif isinstance(v, (int, float, str, bool, type(None))):
            h.update(repr(v).encode())
        elif isinstance(v, (list, tuple)):
            h.update(f"{type(v).__name__}{len(v)}".encode())
            for y in v:
                go(y, depth + 1)
        elif isinstance(v, dict):
            for k in sorted(v, key=str):
                h.update(str(k).encode())
                go(v[k], depth + 1)
        elif dataclasses.is_dataclass(v):
            seen.add(id(v))
            for f in dataclasses.fields(v):
                h.update(f.name.encode())
                go(getattr(v, f.name), depth + 1)
        elif hasattr(v, "points") and hasattr(v, "cells"):
            go([np.asarray(v.points), np.asarray(v.cells), v.ele_type], depth + 1)
    go(x, 0)
    return h.hexdigest()


def watch(mon, label, objs, fn):
    """Call fn and require every watched object to be bit-identical afterwards."""
    before = {k: fingerprint(v) for k, v in objs.items()}
    r = fn()
    jax.block_until_ready(jax.tree_util.tree_leaves(r)) if r is not None else None
    for k, v in objs.items():
        mon.true("arguments left alone", fingerprint(v) == before[k], call=label, argument=k)
    mon.seen("watch", label)
    return r


def case_mutation(case, mon):
    rng = rng_for(case)
    pts, cells = wl.make_mesh(rng, "QUAD4", (3, 2), distort=.1)
    pts, cells = np.ascontiguousarray(pts), np.ascontiguousarray(cells)
    m = fe.Mesh(pts, cells, ele_type="QUAD4")           # user-owned numpy arrays
    P = wl.problem_class("elastic", 2)
    W = dict(points=pts, cells=cells, mesh=m)
    p = watch(mon, "Problem", W, lambda: None) or P(m, vec=2, dim=2, ele_type="QUAD4", location_fns=[wl.side(1, 1.0)], matrix_view="FULL")
    mon.true("arguments left alone", fingerprint(m) == fingerprint(fe.Mesh(pts, cells, ele_type="QUAD4")), call="Problem")
    E = rng.uniform(.5, 2, len(pts))
    U = fe.TracedParams.create_uniform_surface_var
    t, h = np.array(U(p, .05)), np.array(U(p, .2))
    tp = fe.TracedParams(volume_vars=(E,), surface_vars=[(t, h)])
    specs = [fe.DirichletBCSpec(wl.side(0, 0.0), "all", 0.0), fe.DirichletBCSpec(wl.side(0, 1.0), "x", .1)]
    bc = fe.DirichletBC.from_specs(p, specs)
    u = np.array(0.01 * rng.normal(size=p.num_total_dofs_all_vars))
    W = dict(points=pts, cells=cells, mesh=m, E=E, t=t, h=h, tp=tp, bc=bc, u=u)
    A = fe.assembler
    watch(mon, "get_res", W, lambda: A.get_res(p, p.unflatten_fn_sol_list(jnp.asarray(u)), tp))
    watch(mon, "get_jacobian", W, lambda: A.get_jacobian(p, p.unflatten_fn_sol_list(jnp.asarray(u)), tp).data)
    watch(mon, "J_bc", W, lambda: A.create_J_bc_csr_function(p, bc)(u, tp).data)
    watch(mon, "from_specs", W, lambda: fe.DirichletBC.from_specs(p, specs).bc_vals)
    vals = np.array(bc.bc_vals) * 2
    watch(mon, "replace_vals", dict(W, vals=vals), lambda: bc.replace_vals(vals).bc_vals)
    for name in BACK:
        ig = np.array(fe.zero_like_initial_guess(p, bc))
        o = _opt(name)
        s = watch(mon, "create_solver " + name, dict(W, options=o), lambda: None) or \
            fe.create_solver(p, bc, linear=True, solver_options=o, traced_params=tp)
        watch(mon, "solve " + name, dict(W, ig=ig, options=o), lambda: s(tp, ig).dofs)
        watch(mon, "solve with bc " + name, dict(W, ig=ig, vals=vals, options=o), lambda: s(tp, ig, bc=bc.replace_vals(vals)).dofs)
        watch(mon, "gradient " + name, dict(W, ig=ig, options=o),
              lambda: jax.grad(lambda e: jnp.sum(s(fe.TracedParams(volume_vars=(e,), surface_vars=[(t, h)]), ig).dofs ** 2))(jnp.asarray(E)))
    no = fe.NewtonOptions(tol=1e-10)
    sn = fe.create_solver(p, bc, linear=False, solver_options=_opt("spsolve"), newton_options=no, traced_params=tp)
    watch(mon, "newton", dict(W, ig=u, no=no), lambda: sn(tp, u).dofs)
    ts = fe.TracedStructure.from_problem(p, free_scratch=False)
    watch(mon, "structure", dict(W, ts=ts), lambda: s(tp, ig, traced_structure=ts).dofs)
    sol = s(tp, ig)
    d0 = np.array(sol.dofs)
    watch(mon, "solution", dict(W, dofs=sol.dofs), lambda: (sol.field(0), sol + sol if hasattr(sol, "__add__") else None)[0])
    mon.equal("solution unchanged by reads", np.asarray(sol.dofs), d0)


def case_mutation2(case, mon):
    """Design and mesh utilities on user-owned arrays."""
    rng = rng_for(case)
    import tempfile
    pts, cells = wl.make_mesh(rng, "QUAD4", (4, 3), distort=.1)
    m = fe.Mesh(np.ascontiguousarray(pts), np.ascontiguousarray(cells), ele_type="QUAD4")
    W = dict(points=m.points, cells=m.cells)
    rho = rng.uniform(0, 1, len(pts))
    from feax.gene import filters
    f1 = filters.create_density_filter(m, radius=.5) if hasattr(filters, "create_density_filter") else None
    if f1 is not None:
        watch(mon, "density filter", dict(W, rho=rho), lambda: f1(rho))
    f2 = filters.create_helmholtz_filter(m, radius=.3)
    watch(mon, "helmholtz filter", dict(W, rho=rho), lambda: f2(rho))
    watch(mon, "heaviside", dict(W, rho=rho), lambda: filters.heaviside_projection(rho, beta=4.0) if hasattr(filters, "heaviside_projection") else jnp.zeros(1))
    first = np.asarray(f2(rho))
    g = filters.create_helmholtz_filter(m, radius=.6)
    np.asarray(g(rho))
    mon.equal("filter after another filter was built", np.asarray(f2(rho)), first)
    ref_m = watch(mon, "refine_mesh", W, lambda: None) or fe.mesh.refine_mesh(m)
    mon.true("arguments left alone", np.array_equal(np.asarray(m.points), pts) and np.array_equal(np.asarray(m.cells), cells), call="refine_mesh")
    u = rng.normal(size=(len(pts), 2))
    cell = rng.normal(size=len(cells))
    d = tempfile.mkdtemp(dir=os.environ.get("VERIF_SCRATCH", None))
    from feax.utils import save_sol
    watch(mon, "save_sol", dict(W, u=u, cell=cell), lambda: save_sol(m, f"{d}/a.vtu", point_infos=[("u", u)], cell_infos=[("c", cell)]))
    mon.seen("refined", len(np.asarray(ref_m.cells)))


SCRIPT = r'''
import sys, json, numpy as np
sys.path.insert(0, %r)
from harness.checks import c08
print("RESULT " + json.dumps(c08.one_shot(%d)))
'''


def one_shot(seed):
    """A fixed set of calls whose results must be the same in any process state."""
    rng = np.random.default_rng(seed)
    out = []
    for phys, ele, back in (("elastic", "QUAD4", "umfpack"), ("elastic", "TRI3", "cholmod"), ("diff", "QUAD4", "spsolve"),
                            ("elastic", "QUAD4", "cg")):
        c = wl.gen(np.random.default_rng(int(rng.integers(1 << 30))), phys, ele)
        s = fe.create_solver(c.p, c.bc, linear=True, solver_options=_opt(back), traced_params=c.tp)
        ig = fe.zero_like_initial_guess(c.p, c.bc)
        f = lambda E: s(fe.TracedParams(volume_vars=(E,), surface_vars=c.tp.surface_vars), ig).dofs      # noqa: E731
        u = np.asarray(f(jnp.asarray(c.E)))
        g = np.asarray(jax.grad(lambda E: jnp.sum(f(E) ** 2))(jnp.asarray(c.E)))
        out.append([u.tolist(), g.tolist()])
    c = wl.gen(np.random.default_rng(int(rng.integers(1 << 30))), "nh", "QUAD4", distort=.1)
    s = fe.create_solver(c.p, c.bc, linear=False, solver_options=_opt("spsolve"), traced_params=c.tp)
    out.append([np.asarray(s(c.tp, fe.zero_like_initial_guess(c.p, c.bc)).dofs).tolist(), []])
    return out


def case_fresh(case, mon):
    """The same calls in a fresh process and here, after whatever this worker has already done."""
    rng = rng_for(case)
    seed = int(rng.integers(1 << 30))
    here = [dict(case, kind="history", back="umfpack", n=6)]
    sub = type(mon)(mon.prop, case)
    case_history(here[0], sub)                       # some history first
    mon.violations += sub.violations
    mine = one_shot(seed)
    r = subprocess.run([sys.executable, "-c", SCRIPT % (os.environ["PYTHONPATH"], seed)], capture_output=True, text=True, timeout=250)
    line = [x for x in r.stdout.splitlines() if x.startswith("RESULT ")]
    if not mon.true("fresh process ran", bool(line), err=r.stderr[-400:]):
        return
    other = json.loads(line[0][7:])
    for k, (a, b) in enumerate(zip(mine, other)):
        mon.close("solution as in a fresh process", np.array(a[0]), np.array(b[0]), rtol=1e-12, case_no=k)
        mon.close("gradient as in a fresh process", np.array(a[1]), np.array(b[1]), rtol=1e-12, case_no=k)
        mon.seen("fresh", k)


def case_options(case, mon):
    """One options object used for several problems keeps meaning the same."""
    rng = rng_for(case)
    c = wl.gen(rng, "elastic", "QUAD4")
    d = wl.gen(rng, "conv", "TRI3")
    for o in (fe.DirectSolverOptions(), fe.KrylovSolverOptions(tol=1e-12, atol=1e-14, maxiter=3000),
              fe.AMGSolverOptions(solver="gmres", tol=1e-12, atol=1e-14, maxiter=800)):
        before = fingerprint(o)
        for q in (c, d, c):
            s = fe.create_solver(q.p, q.bc, linear=True, solver_options=o, traced_params=q.tp)
            u = np.asarray(s(q.tp, fe.zero_like_initial_guess(q.p, q.bc)).dofs)
            mon.close("one options object, several problems", u, q.linear_solution(), rtol=1e-7, opt=type(o).__name__, phys=q.kind)
        mon.true("options object left alone", fingerprint(o) == before, opt=type(o).__name__)
        mon.seen(type(o).__name__)


def case_shared(case, mon):
    """Problems sharing a mesh, or subclasses sharing a class, do not see each other's data."""
    rng = rng_for(case)
    pts, cells = wl.make_mesh(rng, "QUAD4", (3, 2), distort=.1)
    m = wl.fmesh(pts, cells, "QUAD4")
    P = wl.problem_class("elastic", 2)
    Q = wl.problem_class("diff", 2)

    def mk(cls, vec, loc, view="FULL"):
        p = cls(m, vec=vec, dim=2, ele_type="QUAD4", location_fns=[loc], matrix_view=view)
        U = fe.TracedParams.create_uniform_surface_var
        tp = fe.TracedParams(volume_vars=(jnp.asarray(E),), surface_vars=[(U(p, .1), U(p, .3))])
        return p, tp
    E = rng.uniform(.5, 2, len(pts))
    specs = [("elastic", P, 2, wl.side(1, 1.0), "FULL"), ("elastic2", P, 2, wl.side(0, 1.0), "FULL"),
             ("diff", Q, 1, wl.side(1, 0.0), "FULL"), ("upper", P, 2, wl.side(1, 0.0), "UPPER")]
    alone = {}
    for name, cls, vec, loc, view in specs:
        mm = wl.fmesh(pts, cells, "QUAD4")
        p = cls(mm, vec=vec, dim=2, ele_type="QUAD4", location_fns=[loc], matrix_view=view)
        U = fe.TracedParams.create_uniform_surface_var
        tp = fe.TracedParams(volume_vars=(jnp.asarray(E),), surface_vars=[(U(p, .1), U(p, .3))])
        u = np.random.default_rng(len(name)).normal(size=p.num_total_dofs_all_vars) * .05
        r = np.concatenate([np.ravel(x) for x in fe.assembler.get_res(p, p.unflatten_fn_sol_list(jnp.asarray(u)), tp)])
        K = ref.csr_dense(fe.assembler.get_jacobian(p, p.unflatten_fn_sol_list(jnp.asarray(u)), tp))
        alone[name] = (u, r, K)
    live = {n: mk(cls, vec, loc, view) for n, cls, vec, loc, view in specs}
    for rep in range(2):
        for name in rng.permutation([s[0] for s in specs]):
            p, tp = live[str(name)]
            u, r, K = alone[str(name)]
            r2 = np.concatenate([np.ravel(x) for x in fe.assembler.get_res(p, p.unflatten_fn_sol_list(jnp.asarray(u)), tp)])
            K2 = ref.csr_dense(fe.assembler.get_jacobian(p, p.unflatten_fn_sol_list(jnp.asarray(u)), tp))
            mon.close("residual beside other problems on the mesh", r2, r, rtol=1e-13, problem=name)
            mon.close("tangent beside other problems on the mesh", K2, K, rtol=1e-13, problem=name)
            mon.seen("shared", name, rep)
