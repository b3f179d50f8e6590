"""C19: optimization runs honour bounds, frozen entries, constraints, schedules and budget; recorded values are the true ones."""
import contextlib
import csv
import io
import os
import shutil
import tempfile

import numpy as np

from harness import wl
from harness.lazy import fe, gene, jax, jnp
from harness.mon import rng_for
from harness.checks import c17

ID = "C19"
RULE = ("random pipelines (nonlinear objectives and constraints with closed forms, le/eq constraints, several at once), bounds, frozen "
        "solid/void sets, initial designs (including outside the bounds, integer, default), continuation schedules, iteration budgets, "
        "remesh histories (changing and keeping the node count), compiled or not, with and without files; every design handed to the "
        "user's objective is recorded by a callback and checked online against bounds, freezes and schedule, and every recorded value "
        "against a re-evaluation in numpy; optimality-criteria updates over 30 decades of sensitivity scale against their definition; "
        "moving-band loops observed through their filter callback; multiplier losses against their formula; distinct by "
        "(features of the run, constraint kinds, remeshes)")
ASSUMPTIONS = ["objective and constraints are differentiable JAX functions", "user-supplied transfers return the new node count"]
MIN_EVALUATIONS = 600


def cases(tier, seed):
    out = []
    q = tier == "quick"
    for r in range(14 if q else 90):
        out.append(dict(kind="run", r=r, cost=4))
    for r in range(6 if q else 24):
        out.append(dict(kind="remesh", r=r, cost=5))
    for r in range(3 if q else 12):
        out.append(dict(kind="converge", r=r, cost=4))
    for r in range(2 if q else 8):
        out.append(dict(kind="continuation", n=40, cost=1))
    for r in range(3 if q else 10):
        out.append(dict(kind="oc", n=60, cost=1))
    for r in range(3 if q else 10):
        out.append(dict(kind="band", r=r, cost=8))
    out += [dict(kind="multires", r=r, cost=9) for r in range(1 if q else 4)]
    for r in range(2 if q else 8):
        out.append(dict(kind="mdmm", r=r, cost=5))
    return [dict(c, seed=seed, i=n) for n, c in enumerate(out)]


# ---------------------------------------------------------------- observed pipelines
def _obj(xp, rho, w, t, beta, pen):
    return xp.sum(w * (rho - t) ** 2) * beta + 0.1 * xp.sum(rho ** 3) * pen


def _cons(xp, k, rho, w, beta):
    if k == 0:
        return xp.mean(rho)
    if k == 1:
        return xp.sum(w * rho ** 2) / xp.sum(w)
    return xp.mean(rho * w) * (1.0 + 0.1 * beta)


def _weights(mesh):
    p = np.asarray(mesh.points, float)
    return 0.5 + np.abs(np.sin(3.0 * p).sum(axis=1)), 0.5 + 0.6 * np.cos(2.0 * p @ np.arange(1, p.shape[1] + 1))


def make_pipeline(log, names, cons, filt, inherit=False):
    """names: continuation parameter names; cons: list of (k, target, type, tol)."""
    from feax.gene.optimizer import Pipeline, constraint
    use_b, use_p = "beta" in names, "pen" in names

    def record(tag):
        def cb(rho, beta, pen):
            log.append((tag, np.array(rho), float(beta), float(pen)))
        return cb

    class Pipe(Pipeline):
        def build(self, mesh):
            log.append(("build", np.asarray(mesh.points).shape[0], 0.0, 0.0))
            self.mesh = mesh
            self.w, self.t = (jnp.asarray(v) for v in _weights(mesh))

        def objective(self, rho, beta=1.0, pen=1.0):
            jax.debug.callback(record("objective"), rho, beta, pen)
            return _obj(jnp, rho, self.w, self.t, beta, pen)

        if filt:
            def filter(self, rho):
                return 0.5 * rho + 0.5 * jnp.mean(rho)
    ns = {}
    for k, target, typ, tol in cons:
        def fn(self, rho, beta=1.0, pen=1.0, k=k):
            return _cons(jnp, k, rho, self.w, beta)
        ns[f"con{k}"] = constraint(target=target, type=typ, tol=tol)(_two(fn, use_b, use_p))
    if inherit:                                            # a family of pipelines: constraints declared on a parent
        own = sorted(ns)[1::2]
        Base = type("Base", (Pipe,), {k: v for k, v in ns.items() if k not in own})
        return type("Derived", (Base,), {k: ns[k] for k in own})()
    return type("Pipe", (Pipe,), ns)()


def _two(fn, use_b, use_p):
    def g(self, rho, beta=1.0, pen=1.0):
        return fn(self, rho, beta, pen)
    return g


def quiet_run(*a, **k):
    from feax.gene.optimizer import run
    with contextlib.redirect_stdout(io.StringIO()):
        res = run(*a, **k)
    jax.effects_barrier()
    return res


def _schedule(rng, max_iter):
    from feax.gene.optimizer import Continuation
    names = [n for n in ("beta", "pen") if rng.integers(0, 2)]
    out, model = {}, {}
    for n in names:
        a, b = float(rng.uniform(0.5, 2)), float(rng.uniform(0.5, 4))
        ev, st = int(rng.integers(1, max(2, max_iter))), float(rng.choice([0.2, 0.5, 1.0])) * (1 if b >= a else -1)
        out[n] = Continuation(initial=a, final=b, update_every=ev, step=st)
        model[n] = (a, b, ev, st)
    return out, model


def _at(m, k):
    a, b, ev, st = m
    return float(np.clip(a + st * (k // ev), min(a, b), max(a, b)))


def _constraints(rng):
    out = []
    for k in range(3):
        if rng.integers(0, 2):
            typ = "eq" if rng.integers(0, 4) == 0 else "le"
            out.append((k, float(rng.uniform(0.3, 0.7)), typ, float(rng.choice([0.0, 0.01])) if typ == "eq" else 0.0))
    return out


def check_run(mon, log, res, meshes, remesh_at, model, cons, max_iter, lo, hi, solid, void, n0, filt):
    """Online rules over the recorded evaluations, then the recorded history against re-evaluation."""
    h = res.history
    n = len(h["objective"])
    mon.true("run.budget", n == max_iter, n=n, max_iter=max_iter)
    mon.equal("run.iterations", h["iteration"], list(range(1, n + 1)))
    names = []
    for k, tgt, typ, tol in cons:
        names += [f"con{k}"] + ([f"con{k}_lb"] if typ == "eq" else [])
    mon.equal("run.history-columns", sorted(h), sorted(["iteration", "objective"] + names))
    for c in names:
        mon.true("run.history-length", len(h[c]) == n, col=c)
    ev = [e for e in log if e[0] == "objective"]
    if not mon.true("run.recorded", len(ev) >= n, events=len(ev), n=n):
        return
    stage = 0
    for k in range(n):
        while stage < len(remesh_at) and k >= remesh_at[stage]:
            stage += 1
        mesh = meshes[stage]
        nn = np.asarray(mesh.points).shape[0]
        w, t = _weights(mesh)
        _, rho, beta, pen = ev[k]
        mon.event("designs evaluated")
        if not mon.true("run.design-size", rho.shape == (nn,), k=k, got=rho.shape, want=nn):
            return
        l, u = np.full(nn, lo), np.full(nn, hi)
        if nn == n0 and stage == 0:
            l[solid] = u[solid] = 1.0
            l[void] = u[void] = lo
            mon.equal("run.frozen", rho[np.r_[solid, void]], np.r_[np.ones(len(solid)), np.full(len(void), lo)])
            mon.true("run.bounds", np.all(rho >= l) and np.all(rho <= u), k=k)
        else:
            mon.true("run.bounds", np.all(rho >= lo) and np.all(rho <= max(hi, 1.0 if len(solid) else hi)), k=k)
        want = {"beta": _at(model["beta"], k) if "beta" in model else 1.0, "pen": _at(model["pen"], k) if "pen" in model else 1.0}
        mon.close("run.schedule", np.array([beta, pen]), np.array([want["beta"], want["pen"]]), rtol=1e-12, k=k)
        mon.close("run.objective-recorded", h["objective"][k], _obj(np, rho, w, t, want["beta"], want["pen"]), rtol=1e-9, k=k)
        for kk, _, typ, _ in cons:
            v = _cons(np, kk, rho, w, want["beta"])
            mon.close("run.constraint-recorded", h[f"con{kk}"][k], v, rtol=1e-9, k=k, con=kk)
            if typ == "eq":
                mon.close("run.constraint-recorded", h[f"con{kk}_lb"][k], v, rtol=1e-9, k=k, con=kk)
    mesh = meshes[len([r for r in remesh_at if r < max_iter])] if remesh_at else meshes[0]
    w, t = _weights(mesh)
    x = np.asarray(res.rho)
    mon.true("run.result-size", x.shape == (np.asarray(mesh.points).shape[0],))
    mon.true("run.result-mesh", np.array_equal(np.asarray(res.mesh.points), np.asarray(mesh.points)))
    mon.close("run.filtered", np.asarray(res.rho_filtered), 0.5 * x + 0.5 * x.mean() if filt else x, rtol=1e-12)
    last = {m: _at(model[m], max_iter - 1) for m in model}
    b, p = last.get("beta", 1.0), last.get("pen", 1.0)
    mon.close("run.final-objective", res.final_objective, _obj(np, x, w, t, b, p), rtol=1e-9)
    mon.equal("run.final-names", sorted(res.final_constraints), sorted(names))
    for kk, _, _, _ in cons:
        mon.close("run.final-constraint", res.final_constraints[f"con{kk}"], _cons(np, kk, x, w, b), rtol=1e-9)
    if len(meshes) == 1:
        mon.equal("run.result-frozen", x[np.r_[solid, void]], np.r_[np.ones(len(solid)), np.full(len(void), lo)])
    mon.true("run.result-bounds", np.all(x >= lo) and np.all(x <= (1.0 if len(solid) else hi)))


def case_run(case, mon):
    rng = rng_for(case)
    ele = str(rng.choice(["TRI3", "QUAD4", "TET4"]))
    ns = (3, 2) if ele != "TET4" else (2, 1, 2)
    pts, cells = wl.make_mesh(rng, ele, ns)
    mesh = wl.fmesh(pts, cells, ele)
    n = len(pts)
    max_iter = int(rng.choice([1, 2, 7, 15, 24]))
    conts, model = _schedule(rng, max_iter)
    cons = _constraints(rng)
    lo, hi = [(0.001, 1.0), (0.0, 1.0), (0.1, 0.8)][int(rng.integers(3))]
    perm = rng.permutation(n)
    solid = np.sort(perm[:int(rng.integers(0, 3))])
    void = np.sort(perm[4:4 + int(rng.integers(0, 3))])
    init = str(rng.choice(["default", "float", "int", "outside"]))
    kw = dict(default={}, float=dict(rho_init=rng.uniform(lo, hi, n)), int=dict(rho_init=rng.integers(0, 2, n)),
              outside=dict(rho_init=rng.uniform(-0.2, 1.3, n)))[init]
    filt, jit, out = bool(rng.integers(0, 2)), bool(rng.integers(0, 4)), None
    if len(solid) or rng.integers(0, 2):
        kw["passive_solid"] = solid
    if len(void) or rng.integers(0, 2):
        kw["passive_void"] = void
    if rng.integers(0, 3) == 0:
        out = tempfile.mkdtemp(prefix="verif_c19_")
        kw.update(output_dir=os.path.join(out, "res"), save_every=3)
    log = []
    if "rho_init" in kw:
        kw["rho_init"] = np.asarray(kw["rho_init"])
        given = kw["rho_init"].copy()
    try:
        pipe = make_pipeline(log, list(conts), cons, filt, inherit=bool(case["i"] % 2))
        res = quiet_run(pipe, mesh, max_iter=max_iter, continuations=conts or None, rho_bounds=(lo, hi), jit=jit, **kw)
        check_run(mon, log, res, [mesh], [], model, cons, max_iter, lo, hi, solid, void, n, filt)
        ev = [e for e in log if e[0] == "objective"]
        if "rho_init" in kw:
            mon.equal("run.start-untouched", kw["rho_init"], given)
            w = np.clip(given.astype(float), lo, hi)
            w[solid], w[void] = 1.0, lo
            mon.close("run.start", ev[0][1], w, rtol=1e-12)
        else:
            x0 = np.delete(ev[0][1], np.r_[solid, void])
            top = min([0.5] + [tgt + tol for _, tgt, _, tol in cons])
            mon.true("run.default-start", x0.min() == x0.max() and x0[0] <= max(lo, top) + 1e-12, start=float(x0.max()), top=top)
        mon.true("run.builds-once", sum(e[0] == "build" for e in log) == 1)
        if out:
            _check_files(mon, os.path.join(out, "res"), res, conts, model, max_iter, ev, filt, mesh)
    finally:
        if out:
            shutil.rmtree(out, ignore_errors=True)
    # feasibility at convergence of a constrained run is visible in the recorded tail
    mon.seen("run", ele, max_iter, tuple(sorted(model)), tuple((c[0], c[2]) for c in cons), init, len(solid) > 0, len(void) > 0, jit)


def _check_files(mon, d, res, conts, model, max_iter, ev, filt, mesh):
    rows = list(csv.reader(open(os.path.join(d, "history.csv"))))
    head, body = rows[0], rows[1:]
    mon.true("files.rows", len(body) == len(res.history["iteration"]), rows=len(body))
    for k, r in enumerate(body):
        row = dict(zip(head, r))
        mon.close("files.objective", float(row["objective"]), res.history["objective"][k], rtol=1e-12)
        for m in conts:
            mon.close("files.parameter", float(row[m]), _at(model[m], k), rtol=1e-12)
    import meshio
    names = sorted(f for f in os.listdir(d) if f.startswith("iter_"))
    mon.equal("files.snapshots", [int(f[5:-4]) for f in names], [k for k in range(1, max_iter + 1) if k % 3 == 0])
    for f in names:
        x = ev[int(f[5:-4]) - 1][1]
        m = meshio.read(os.path.join(d, f))
        want = 0.5 * x + 0.5 * x.mean() if filt else x
        mon.close("files.density", m.point_data["density"].ravel(), want, rtol=1e-6, scale=1.0)
    m = meshio.read(os.path.join(d, "final.vtu"))
    mon.close("files.final", m.point_data["density"].ravel(), np.asarray(res.rho_filtered), rtol=1e-6, scale=1.0)
    mon.event("files read back", len(names) + 2)


def case_remesh(case, mon):
    """Histories of remeshing: growing, shrinking and equal node counts, with custom or built-in transfer."""
    from feax.gene.optimizer import AdaptiveConfig
    rng = rng_for(case)
    sizes = [(2, 1, 1), (2, 2, 1), (1, 1, 2)]
    mode = ("same", "change", "mixed", "same")[case["r"] % 4]
    ns = sizes[int(rng.integers(3))]
    meshes = []
    busy = case["r"] % 2 == 0                              # parameters change between two remeshings
    n_ad = 2 if busy else int(rng.integers(1, 3))
    for s in range(n_ad + 1):
        if s and (mode == "change" or (mode == "mixed" and s == 1)):
            ns = sizes[(sizes.index(ns) + 1) % 3]
        size = np.array([1.0, 1.0, 1.0])
        pts, cells = wl.make_mesh(rng, "TET4", ns, size=size, origin=np.zeros(3), distort=0.2)
        meshes.append(wl.fmesh(pts, cells, "TET4"))
    every, max_iter = int(rng.integers(2, 6)), int(rng.integers(6, 19))
    if busy:
        every, max_iter = int(rng.integers(3, 6)), int(rng.integers(15, 19))
    conts, model = _schedule(rng, max_iter)
    if busy and "beta" not in conts:
        from feax.gene.optimizer import Continuation
        ue = every - 1
        conts["beta"], model["beta"] = Continuation(initial=1.0, final=9.0, update_every=ue, step=0.5), (1.0, 9.0, ue, 0.5)
    cons = _constraints(rng) or [(1, 0.4, "le", 0.0)]
    seen = []
    it = iter(meshes[1:])

    def remesh(old, rho_f):
        seen.append((np.asarray(old.points).copy(), np.asarray(rho_f).copy()))
        return next(it)
    kw = {}
    builtin = bool(rng.integers(0, 2))
    if not builtin:
        def transfer(x, po, pn):
            seen.append(("transfer", np.asarray(po).shape, np.asarray(pn).shape))
            return np.full(len(pn), float(np.mean(x)))
        kw["transfer"] = transfer
    cfg = AdaptiveConfig(remesh=remesh, adapt_every=every, n_adapts_max=n_ad, **kw)
    log = []
    filt = bool(rng.integers(0, 2))
    pipe = make_pipeline(log, list(conts), cons, filt, inherit=bool(case["i"] % 2 == 0))
    res = quiet_run(pipe, meshes[0], max_iter=max_iter, continuations=conts, adaptive=cfg, rho_bounds=(0.001, 1.0), jit=bool(rng.integers(0, 5)))
    at = [every * (k + 1) for k in range(n_ad) if every * (k + 1) < max_iter]
    n_re = sum(1 for s in seen if not isinstance(s[0], str))
    if not mon.true("remesh.count", n_re == len(at), got=n_re, want=len(at)):
        return
    builds = [e[1] for e in log if e[0] == "build"]
    mon.equal("remesh.builds", builds, [np.asarray(m.points).shape[0] for m in meshes[:len(at) + 1]])
    for k, s in enumerate([s for s in seen if not isinstance(s[0], str)]):
        mon.equal("remesh.old-mesh", s[0], np.asarray(meshes[k].points))
        mon.true("remesh.field", s[1].shape == (len(s[0]),) and s[1].min() >= 0.001 - 1e-12 and s[1].max() <= 1 + 1e-12)
    check_run(mon, log, res, meshes[:len(at) + 1], at, model, cons, max_iter, 0.001, 1.0, np.zeros(0, int), np.zeros(0, int), -1, filt)
    # a second run of the same pipeline object on another mesh sees that mesh
    log.clear()
    m2 = meshes[-1] if len(meshes) > 1 else meshes[0]
    res2 = quiet_run(pipe, m2, max_iter=3, continuations=conts)
    check_run(mon, log, res2, [m2], [], model, cons, 3, 0.001, 1.0, np.zeros(0, int), np.zeros(0, int), -1, filt)
    mon.seen("remesh", mode, builtin, len(at), tuple(sorted(model)))
    mon.event("remesh histories")


def case_converge(case, mon):
    """Long runs on convex problems settle on the constrained minimiser (bounds, freezes, le and eq constraints all active somewhere)."""
    from scipy.optimize import minimize
    rng = rng_for(case)
    pts, cells = wl.make_mesh(rng, "QUAD4", (3, 2))
    mesh = wl.fmesh(pts, cells, "QUAD4")
    n = len(pts)
    w, t = _weights(mesh)
    typ = ("le", "eq", "le")[case["r"] % 3]
    lo, hi = (0.001, 1.0) if case["r"] % 2 else (0.1, 0.9)
    tgt = float(rng.uniform(0.35, 0.45))
    tol = 0.02 if typ == "eq" else 0.0
    cons = [(0, tgt, typ, tol)] + ([(1, 0.5, "le", 0.0)] if case["r"] % 3 == 2 else [])
    void = np.array([1, 4]) if rng.integers(0, 2) else np.zeros(0, int)
    init = dict(rho_init=np.full(n, (tgt * n - lo * len(void)) / (n - len(void)))) if typ == "eq" else {}     # MMA needs a start in the band
    log = []
    res = quiet_run(make_pipeline(log, [], cons, False), mesh, max_iter=120, rho_bounds=(lo, hi), passive_void=void, **init)
    x = np.asarray(res.rho)
    b = [(lo, lo) if i in void else (lo, hi) for i in range(n)]
    cl = [dict(type="ineq", fun=lambda v, k=k, g=g + tl: g - _cons(np, k, v, w, 1.0)) for k, g, _, tl in cons]
    cl += [dict(type="ineq", fun=lambda v, k=k, g=g - tl: _cons(np, k, v, w, 1.0) - g) for k, g, ty, tl in cons if ty == "eq"]
    best = minimize(lambda v: _obj(np, v, w, t, 1.0, 1.0), np.full(n, tgt), bounds=b, constraints=cl, method="SLSQP", options=dict(ftol=1e-13, maxiter=500))
    for k, g, ty, tl in cons:
        c = _cons(np, k, x, w, 1.0)
        mon.true("converge.feasible", c <= g + tl + 1e-5 and (ty != "eq" or c >= g - tl - 1e-5), con=k, got=c, target=g)
    if best.success:
        mon.close("converge.optimum", _obj(np, x, w, t, 1.0, 1.0), best.fun, rtol=2e-4, typ=typ)
        mon.event("converged runs")
    mon.seen("converge", typ, lo, len(void), len(cons))


def case_continuation(case, mon):
    from feax.gene.optimizer import Continuation
    rng = rng_for(case)
    for _ in range(case["n"]):
        a, b = float(rng.uniform(-2, 9)), float(rng.uniform(-2, 9))
        ev, st = int(rng.integers(1, 60)), float(rng.normal())
        c = Continuation(initial=a, final=b, update_every=ev, step=st)
        vs = [c.value_at(k) for k in range(0, 6 * ev + 3)]
        lo, hi = min(a, b), max(a, b)
        mon.close("continuation.start", vs[0], a, rtol=1e-14)
        mon.true("continuation.clamped", min(vs) >= lo - 1e-12 and max(vs) <= hi + 1e-12, lo=min(vs), hi=max(vs), a=a, b=b, step=st)
        mon.close("continuation.values", np.array(vs), np.array([_at((a, b, ev, st), k) for k in range(len(vs))]), rtol=1e-12, scale=10.0)
        mon.seen("continuation", st > 0, b > a)
        mon.event("schedules")


def case_oc(case, mon):
    rng = rng_for(case)
    oc = gene.oc_update if hasattr(gene, "oc_update") else gene.narrowband.oc_update
    for _ in range(case["n"]):
        n = int(rng.integers(3, 60))
        xmin = float(rng.choice([1e-3, 1e-2, 0.0]))
        rho = np.clip(rng.uniform(0, 1, n), max(xmin, 1e-3), 1.0)
        sc = float(10.0 ** rng.uniform(-12, 18))
        dc = -sc * rng.uniform(0, 1, n) ** float(rng.choice([1, 3]))
        if rng.integers(0, 4) == 0:
            dc[rng.integers(0, n, 2)] *= -1.0
        dv = 1.0 if rng.integers(0, 2) else rng.uniform(0.3, 2.0, n) * float(10.0 ** rng.uniform(-6, 3))
        move = float(rng.choice([0.2, 0.05, 0.5]))
        damp = float(rng.choice([0.5, 0.3, 1.0]))
        vf = float(rng.uniform(0.1, 0.9))
        kw = dict(move=move, xmin=xmin, damping=damp) if rng.integers(0, 3) else {}
        if not kw:
            move, damp, xmin = 0.2, 0.5, 1e-3
        r0 = rho.copy()
        x = np.asarray(oc(rho, dc, vf, dv=dv, **kw))
        mon.equal("oc.input-untouched", rho, r0)
        lo, hi = np.maximum(rho - move, xmin), np.minimum(rho + move, 1.0)
        mon.true("oc.limits", np.all(x >= lo - 1e-12) and np.all(x <= hi + 1e-12), sc=sc)
        dvv = dv * np.ones(n)
        best = np.where(dc < 0, hi, lo)
        tgt, vmin, vmax, v = vf * dvv.sum(), (lo * dvv).sum(), (best * dvv).sum(), (x * dvv).sum()
        tol = (4e-4 * damp + 1e-5) * dvv.sum()
        # attainable: between the volume of the lower limits and that of all descent cells at their upper limits
        if vmin < tgt < vmax:
            mon.close("oc.volume", v, tgt, rtol=0, atol=tol, sc=sc, vmin=vmin, vmax=vmax, dv=dv if np.ndim(dv) == 0 else "array")
            # one multiplier explains every cell strictly inside its limits
            inn = (x > lo + 1e-9) & (x < hi - 1e-9) & (dc < 0)
            if inn.sum() >= 2:
                lam = (-dc[inn] / dvv[inn]) * (rho[inn] / x[inn]) ** (1 / damp)
                mon.true("oc.multiplier", lam.max() / lam.min() < 1 + 1e-6, spread=lam.max() / lam.min())
        elif tgt <= vmin:
            mon.close("oc.unattainable-low", v, vmin, rtol=0, atol=tol, sc=sc)
        else:
            mon.close("oc.unattainable-high", v, vmax, rtol=0, atol=tol, sc=sc)
        mon.seen("oc", round(np.log10(sc)), damp, move, np.ndim(dv))
        mon.event("oc updates")


def case_band(case, mon):
    """The moving-band loop seen through its filter and load callbacks."""
    from scipy.ndimage import binary_dilation
    rng = rng_for(case)
    dims = tuple(int(v) for v in rng.integers(4, 8, 3))
    g = fe.StructuredGrid(dims)
    cmg = _cmg(g)
    keep = np.zeros(dims, bool)
    keep[0], keep[-1] = True, True
    tip = [int(g.node_id(g.nx, g.ny // 2, g.nz // 2))]
    ref_filter = gene.create_sensitivity_filter(g, 1.5)
    log = []

    def filt(act, rho, dc):
        log.append((np.array(act), np.array(rho), np.array(dc)))
        return ref_filter(act, rho, dc)
    vf = float(rng.uniform(0.25, 0.5))
    n_iter, gus = int(rng.integers(2, 6)), int(rng.integers(0, 3))
    thr, margin, move, xmin = float(rng.choice([1e-2, 0.2])), int(rng.integers(1, 3)), float(rng.choice([0.2, 0.1])), float(rng.choice([1e-3, 1e-2]))
    seedx = None
    if case["r"] % 2:                      # a solid beam along the load path plus scattered material
        s3 = np.clip(rng.uniform(0, 1, dims) * (rng.uniform(0, 1, dims) < 0.15), xmin, 1.0)
        s3[:, dims[1] // 2 - 1:dims[1] // 2 + 1, dims[2] // 2 - 1:dims[2] // 2 + 1] = rng.uniform(0.5, 1.0, (dims[0], 2, 2))
        seedx = s3.ravel()
    so = fe.KrylovSolverOptions(solver="cg", tol=1e-10, atol=0.0)
    with contextlib.redirect_stdout(io.StringIO()):
        rho, hist = gene.run_narrowband_oc(g, cmg, keep, vf, lambda c, lv: c.load_vector(lv, tip, 2, -1.0), n_iter=n_iter, grid_update_start=gus,
                                           x_init=seedx, move=move, xmin=xmin, threshold=thr, margin=margin, sensitivity_filter=filt,
                                           solver_options=so, verbose=False)
    mon.true("band.history", len(hist) == n_iter and len(log) == n_iter, n=len(hist), calls=len(log))
    x = np.full(g.num_cells, vf) if seedx is None else seedx.copy()
    for it, (act, ra, dc) in enumerate(log):
        want = np.ones(dims, bool) if it < gus else binary_dilation(x.reshape(dims) > thr, iterations=margin) | keep
        mon.equal("band.active", np.sort(act), np.nonzero(want.ravel())[0])
        mon.equal("band.design", ra, x[act])
        mon.true("band.sensitivity", np.all(dc <= 1e-12))
        full = np.zeros(g.num_cells)
        full[act] = np.asarray(ref_filter(act, ra, dc))
        x = np.asarray(gene.oc_update(x, full, vf, move=move, xmin=xmin))
        mon.true("band.recorded", hist[it][0] == it and abs(hist[it][2] - len(act) / g.num_cells) < 1e-12 and abs(hist[it][3] - x.mean()) < 1e-12)
        ce = -dc / (3.0 * ra ** 2 * (1.0 - 1e-6))
        mon.close("band.compliance", hist[it][1], np.sum((1e-6 + ra ** 3 * (1.0 - 1e-6)) * ce), rtol=1e-8)
        mon.event("band iterations")
    mon.close("band.result", rho, x, rtol=1e-12)
    mon.true("band.bounds", rho.min() >= xmin - 1e-15 and rho.max() <= 1.0)
    mon.seen("band", n_iter, gus, margin, thr, seedx is None)


def _cmg(g):
    return fe.NarrowBandCMG(g, lambda ni, nj, nk, gx, gy, gz: ni == 0, nu=0.3, penal=3.0, Emin=1e-6, cg_tol=1e-8, cg_maxit=400, bucket=64)


def case_multires(case, mon):
    """Coarse-to-fine chaining: ladder of grids, iterations per level, volume and range of the final design."""
    rng = rng_for(case)
    dims = tuple(int(v) for v in rng.integers(7, 11, 3))
    built = []

    def build(nx, ny, nz):
        g = fe.StructuredGrid((nx, ny, nz))
        built.append((nx, ny, nz))
        keep = np.zeros((nx, ny, nz), bool)
        keep[0], keep[-1] = True, True
        tip = [int(g.node_id(nx, ny // 2, nz // 2))]
        return dict(grid=g, cmg=_cmg(g), keep=keep, load_fn=lambda c, lv: c.load_vector(lv, tip, 2, -1.0))
    vf, ni, ci = float(rng.uniform(0.3, 0.5)), int(rng.integers(2, 4)), int(rng.integers(2, 4))
    with contextlib.redirect_stdout(io.StringIO()):
        res = gene.run_narrowband_multires(build, dims, vf, n_levels=2, coarse_factor=2, floor=3, n_iter=ni, coarse_iter=ci,
                                           solver_options=fe.KrylovSolverOptions(solver="cg", tol=1e-10, atol=0.0), verbose=bool(rng.integers(0, 2)))
    coarse = tuple(max(3, int(round(d / 2))) for d in dims)
    mon.equal("multires.ladder", built, [coarse, dims])
    mon.equal("multires.levels", [tuple(d) for d in res["levels"]], [coarse, dims])
    x = np.asarray(res["x"])
    mon.true("multires.shape", x.shape == dims)
    mon.true("multires.range", x.min() >= 1e-3 - 1e-12 and x.max() <= 1.0)
    mon.equal("multires.iterations", [len(h["history"]) for h in res["history"]], [ci, ni])
    mon.close("multires.first-volume", res["history"][0]["history"][0][3], vf, rtol=0, atol=1e-3)
    mon.true("multires.finite", all(np.isfinite(r[1]) and r[1] > 0 for h in res["history"] for r in h["history"]))
    mon.seen("multires", dims)
    mon.event("multires runs")


def case_mdmm(case, mon):
    import optax
    from feax.gene import mdmm
    rng = rng_for(case)
    n = 4
    A, b = rng.normal(size=(3, n)), rng.normal(size=3)
    jA, jb = jnp.asarray(A), jnp.asarray(b)

    def g(x):
        return jA @ x - jb
    damp, wt = float(rng.uniform(0.5, 20)), float(rng.uniform(0.5, 3))
    ceq, cin = mdmm.eq(g, damping=damp, weight=wt), mdmm.ineq(lambda x: -g(x), damping=damp, weight=wt, reduction=jnp.mean)
    both = mdmm.combine(ceq, cin)
    x = rng.normal(size=n)
    jx = jnp.asarray(x)
    p = both.init(jx)
    gx = A @ x - b
    mon.close("mdmm.slack", np.asarray(p[1]["slack"]) ** 2, np.maximum(-gx, 0), rtol=1e-12, scale=1.0)
    mon.true("mdmm.multiplier-start", np.all(np.asarray(p[0]["lambda"].value) == 0) and np.all(np.asarray(p[1]["lambda"].value) == 0))
    lam = [rng.normal(size=3), rng.normal(size=3)]
    sl = rng.normal(size=3)
    p = ({"lambda": mdmm.LagrangeMultiplier(jnp.asarray(lam[0]))}, {"lambda": mdmm.LagrangeMultiplier(jnp.asarray(lam[1])), "slack": jnp.asarray(sl)})
    (loss, inf), gr = jax.value_and_grad(lambda q: both.loss(q, jx), has_aux=True)(p)
    i1 = -gx - sl ** 2
    mon.close("mdmm.loss", float(loss), wt * np.sum(lam[0] * gx + damp * gx ** 2 / 2) + wt * np.mean(lam[1] * i1 + damp * i1 ** 2 / 2), rtol=1e-9)
    mon.close("mdmm.infeasibility", np.concatenate([np.asarray(v) for v in inf]), np.concatenate([gx, i1]), rtol=1e-9)
    up = mdmm.prepare_update(gr)
    mon.close("mdmm.ascent-eq", np.asarray(up[0]["lambda"].value), -wt * gx, rtol=1e-9)
    mon.close("mdmm.ascent-ineq", np.asarray(up[1]["lambda"].value), -wt * i1 / 3, rtol=1e-9)
    mon.close("mdmm.slack-descends", np.asarray(up[1]["slack"]), np.asarray(gr[1]["slack"]), rtol=1e-12)
    # a full run settles on the constrained minimiser of a quadratic
    t = rng.normal(size=n)
    con = mdmm.combine(mdmm.eq(lambda v: jA[:1] @ v - jb[:1], damping=10.0), mdmm.ineq(lambda v: v[0] - 0.3, damping=10.0))
    opt = optax.chain(optax.sgd(5e-3), mdmm.optax_prepare_update())
    x0 = jnp.asarray(np.r_[1.0, np.zeros(n - 1)])          # inside the inequality: a zero slack is stationary
    par = (x0, con.init(x0))
    st = opt.init(par)

    @jax.jit
    def many(par, st):
        def step(_, c):
            par, st = c
            gr = jax.grad(lambda q: 0.5 * jnp.sum((q[0] - jnp.asarray(t)) ** 2) + con.loss(q[1], q[0])[0])(par)
            u, st = opt.update(gr, st)
            return optax.apply_updates(par, u), st
        return jax.lax.fori_loop(0, 40000, step, (par, st))
    par, st = many(par, st)
    xs = np.asarray(par[0])
    from scipy.optimize import minimize
    ref = minimize(lambda v: 0.5 * np.sum((v - t) ** 2), np.zeros(n), jac=lambda v: v - t, method="SLSQP", options=dict(ftol=1e-14, maxiter=500),
                   constraints=[dict(type="eq", fun=lambda v: A[:1] @ v - b[:1], jac=lambda v: A[:1]),
                                dict(type="ineq", fun=lambda v: np.array([v[0] - 0.3]), jac=lambda v: np.eye(n)[:1])]).x
    if np.linalg.norm(np.asarray(many(par, st)[0][0]) - xs) < 1e-8 and abs(ref[0] - 0.3) > 0.02:      # settled, not degenerate
        mon.close("mdmm.minimiser", xs, ref, rtol=0, atol=2e-3, t=t)
    mon.seen("mdmm", case["r"])
    mon.event("multiplier runs")
