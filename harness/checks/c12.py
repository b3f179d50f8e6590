"""C12: time integration marches exactly the requested interval and schedule."""
import contextlib
import csv
import io
import os
import tempfile

import numpy as np

from harness import wl
from harness.lazy import fe, jax, jnp
from harness.mon import rng_for

ID = "C12"
RULE = ("event logs of runs with random intervals, step sizes (including ones that divide the interval only up to rounding), save "
        "and callback periods, adaptive proposals and faults injected at a random point; an online checker follows time, state "
        "hand-over, hook order and schedule; implicit and explicit pipelines compared with independent integrators, and gradients "
        "through whole runs with dense adjoints; distinct by (schedule class, fault point)")
ASSUMPTIONS = ["time / step-size ratio up to 1e5 (beyond it rounding of t itself decides)",
               "the initial step of an adaptive run lies within the stated limits"]
MIN_EVALUATIONS = 2000


def cases(tier, seed):
    out = []
    q = tier == "quick"
    for r in range(24 if q else 80):
        out.append(dict(kind="schedule", n=60 if q else 200, cost=1))
        out.append(dict(kind="adaptive", n=40 if q else 150, cost=1))
        out.append(dict(kind="fault", n=30 if q else 100, cost=1))
    for r in range(4 if q else 16):
        out.append(dict(kind="long", n=3, cost=1))
        for sch in ("euler", "rk2", "rk4"):
            out.append(dict(kind="explicit", scheme=sch, cost=2))
        out.append(dict(kind="implicit", nonlinear=bool(r % 2), cost=6))
        out.append(dict(kind="grad", pseudo=bool(r % 2), cost=10))
    return [dict(c, seed=seed, i=n) for n, c in enumerate(out)]


class Boom(Exception):
    pass


def recorder(rng, keys=("a", "b"), fault=None, propose=None, drop=False):
    from feax.solvers.time_solver import TimePipeline

    class State:
        """Opaque state: identity and ancestry are visible to the checker."""
        def __init__(self, parent, t, dt):
            self.parent, self.t, self.dt = parent, t, dt

    class P(TimePipeline):
        def __init__(self):
            self.log, self.states, self.props = [], [], []

        def build(self, mesh):
            self.log.append(("build", mesh))

        def initial_state(self):
            self.log.append(("initial",))
            s = State(None, None, None)
            self.states.append(s)
            return s

        def step(self, state, t, dt):
            k = len(self.states)
            self.log.append(("step", state, t, dt))
            if k > 20000:
                raise RuntimeError("the run does not end: more than 20000 steps")
            if fault == ("step", k):
                raise Boom(k)
            s = State(state, t, dt)
            self.states.append(s)
            return s

        def save(self, state, step, t, output_dir):
            self.log.append(("save", state, step, t, output_dir))
            if fault == ("save", step):
                raise Boom(step)

        def monitor(self, state, step, t):
            self.log.append(("monitor", state, step, t))
            if fault == ("monitor", step) and step:
                raise Boom(step)
            return {k: float(step * 10 + i) for i, k in enumerate(keys)}
    if propose is not None:
        def adapt_dt(self, state, step, t, dt_old):
            v = propose(step, dt_old)
            self.log.append(("adapt", state, step, t, dt_old, v))
            self.props.append((dt_old, v))
            return v
        P.adapt_dt = adapt_dt
    return P()


def drive(p, cfg, **kw):
    from feax.solvers.time_solver import run
    with contextlib.redirect_stdout(io.StringIO()):
        return run(p, "MESH", cfg, **kw)


def check_log(mon, tag, p, r, cfg, cb_log, cbs, outdir, t0, keys, faulted=None):
    """Online checker over the recorded events of one run."""
    log, st = p.log, p.states
    mon.true(tag + ".build_first", log[0][0] == "build" and log[0][1] == "MESH" and log[1][0] == "initial"
             and sum(e[0] in ("build", "initial") for e in log) == 2)
    steps = [e for e in log if e[0] == "step"]
    T = [t0]
    okst = okt = okd = True
    for k, (_, s, t, dt) in enumerate(steps):
        okst &= s is st[k]                                # each step starts from the last produced state
        okt &= t == T[-1] or abs(t - T[-1]) <= 4e-16 * max(abs(t), abs(T[-1]))
        okd &= dt > 0
        T.append(t + dt)
    mon.true(tag + ".state_handed_over", okst)
    mon.true(tag + ".time_contiguous", okt)
    mon.true(tag + ".steps_positive", okd)
    done = len(st) - 1
    # per-step sequence of hooks
    seq = {}
    cur = 0
    seen_initial = False
    for e in log[2:]:
        if e[0] == "step":
            cur += 1
        else:
            seq.setdefault(cur, []).append(e)
    ok_step = ok_state = ok_time = True
    for k, es in seq.items():
        for e in es:
            if e[0] in ("save", "monitor", "adapt", "callback"):
                ok_step &= e[2] == k
                ok_state &= e[1] is st[k]
                ok_time &= abs(e[3] - T[k]) <= 1e-12 * max(abs(T[k]), abs(T[-1] - t0))
    mon.true(tag + ".hooks_see_current_step", ok_step)
    mon.true(tag + ".hooks_see_current_state", ok_state)
    mon.true(tag + ".hooks_see_current_time", ok_time)
    return T, done, seq


def random_schedule(rng):
    mode = int(rng.integers(0, 5))
    t0 = float(rng.choice([0.0, 0.0, rng.uniform(-5, 5), 100.0]))
    if mode == 0:                                         # n steps of a decimal dt
        n = int(rng.integers(1, 60))
        dt = float(rng.choice([0.1, 0.01, 1e-3, 0.3, 0.7, 1e-5, 0.05]))
        t_end = t0 + n * dt
        if t0 == 100.0 and dt < 1e-3:
            t0, t_end = 0.0, n * dt
    elif mode == 1:                                       # interval divided by n
        n = int(rng.integers(1, 60))
        t_end = t0 + float(10 ** rng.uniform(-4, 3))
        dt = (t_end - t0) / n
    elif mode == 2:                                       # generic ratio
        dt = float(10 ** rng.uniform(-3, 1))
        t_end = t0 + dt * float(rng.integers(0, 40) + rng.uniform(0.05, 0.95))
        n = None
    elif mode == 3:                                       # step longer than the interval
        dt = float(rng.uniform(1, 5))
        t_end = t0 + dt * float(rng.uniform(0.01, 0.99))
        n = 1
    else:
        dt, t_end, n = float(rng.uniform(.1, 1)), t0 - float(rng.choice([0.0, 1.0])), 0
    if n is None:
        n = int(np.ceil((t_end - t0) / dt - 1e-6))
    if rng.random() < 0.5:                                # any unit of time
        f = float(10.0 ** rng.integers(-15, 10))
        t0, dt, t_end = t0 * f, dt * f, t0 * f + (t_end - t0) * f
    return t0, t_end, dt, n, mode


def csv_rows(d):
    with open(os.path.join(d, "history.csv")) as f:
        return list(csv.reader(f))


def _callbacks(rng, p):
    from feax.solvers.time_solver import Callback
    cbs, log = [], []
    for c in range(int(rng.integers(0, 4))):
        ev = int(rng.integers(1, 8))

        def fn(state, step, t, c=c):
            log.append((c, step))
            p.log.append(("callback", state, step, t, c))
        cbs.append((ev, Callback(fn=fn, every=ev)))
    return cbs, log


def case_schedule(case, mon):
    from feax.solvers.time_solver import TimeConfig
    rng = rng_for(case)
    base = tempfile.mkdtemp(prefix="c12-")
    try:
        for it in range(case["n"]):
            t0, t_end, dt, n, mode = random_schedule(rng)
            keys = [(), ("a",), ("a", "b")][int(rng.integers(0, 3))]
            p = recorder(rng, keys)
            cbs, cblog = _callbacks(rng, p)
            se = int(rng.integers(1, 12))
            out = os.path.join(base, "d%d" % it, "x") if rng.random() < 0.6 else None
            cfg = TimeConfig(dt=dt, t_end=t_end, t_start=t0, save_every=se, print_every=int(rng.integers(1, 9)))
            r = drive(p, cfg, output_dir=out, callbacks=[c for _, c in cbs] or None)
            T, done, seq = check_log(mon, "schedule", p, r, cfg, cblog, cbs, out, t0, keys)
            mon.equal("schedule.number_of_steps", done, n, dt=dt, t0=t0, t_end=t_end)
            mon.equal("schedule.n_steps_reported", r.n_steps, done)
            mon.true("schedule.final_state", r.final_state is p.states[-1])
            if n:
                mon.close("schedule.lands_on_end", r.t_final, t_end, rtol=1e-13, scale=max(abs(t_end), abs(t0)))
                d = np.diff(T)
                dts = np.array([e[3] for e in p.log if e[0] == "step"])
                mon.close("schedule.requested_step", dts[:-1], np.full(max(n - 1, 0), dt), rtol=1e-12, scale=dt)
                mon.true("schedule.last_step_not_longer", dts[-1] <= dt * (1 + 1e-5) and dts[-1] > dt * 1e-5, last=float(dts[-1]), dt=dt)
            else:
                mon.equal("schedule.no_time_no_steps", r.t_final, t0)
            saves = sorted(e[2] for e in p.log if e[0] == "save")
            want = sorted({0, done} | {k for k in range(1, done + 1) if k % se == 0}) if out else []
            mon.equal("schedule.saved_steps", saves, want, se=se)
            mon.true("schedule.saved_where_asked", all(e[4] == out for e in p.log if e[0] == "save"))
            for c, (ev, _) in enumerate(cbs):
                mon.equal("schedule.callback_period", [s for cc, s in cblog if cc == c], list(range(ev, done + 1, ev)))
            mon.equal("schedule.callback_order", [x for x in cblog], sorted(cblog, key=lambda x: (x[1], x[0])))
            H = r.history
            mon.equal("schedule.history_keys", sorted(H), sorted(("step", "time") + tuple(keys)))
            mon.equal("schedule.history_steps", list(H["step"]), list(range(done + 1)))
            mon.close("schedule.history_times", H["time"], T, rtol=1e-12, scale=max(abs(t_end), abs(t0), 1e-30))
            mon.true("schedule.history_increasing", all(b > a for a, b in zip(H["time"], H["time"][1:])))
            for i, k in enumerate(keys):
                mon.equal("schedule.history_values", list(H[k]), [float(s * 10 + i) for s in range(done + 1)])
            if out:
                rows = csv_rows(out)
                mon.equal("schedule.csv_header", rows[0], ["step", "time"] + list(keys))
                body = [x for x in rows[1:] if x[0] != "0"]
                mon.equal("schedule.csv_steps", [int(x[0]) for x in body], list(range(1, done + 1)))
                mon.close("schedule.csv_times", [float(x[1]) for x in body], T[1:], rtol=1e-12, scale=max(abs(t_end), abs(t0), 1e-30))
                mon.equal("schedule.csv_values", [[float(v) for v in x[2:]] for x in body],
                          [[float(s * 10 + i) for i in range(len(keys))] for s in range(1, done + 1)])
            mon.event("steps", done)
            mon.event("runs")
            mon.seen("schedule", mode, min(n, 6), se if se < 4 else "many", bool(out), len(cbs))
    finally:
        import shutil
        shutil.rmtree(base, ignore_errors=True)


def case_long(case, mon):
    """Many small steps: rounding must not add or lose one."""
    from feax.solvers.time_solver import TimeConfig
    rng = rng_for(case)
    for _ in range(case["n"]):
        n = int(rng.integers(900, 9000))
        dt = float(rng.choice([1e-5, 1e-4, 1e-3, 0.1, 1 / 3, 0.07, 1e-9, 1e-12, 250.0, 3.15e7]))
        p = recorder(rng, ())
        r = drive(p, TimeConfig(dt=dt, t_end=n * dt, save_every=10 ** 9, print_every=10 ** 9))
        mon.equal("long.number_of_steps", r.n_steps, n, dt=dt)
        mon.close("long.lands_on_end", r.t_final, n * dt, rtol=1e-12)
        d = np.array([e[3] for e in p.log if e[0] == "step"])
        mon.close("long.steps", d, np.full(n, dt), rtol=1e-5, scale=dt)
        mon.event("steps", n)
        mon.seen("long", dt, n // 1000)


def case_adaptive(case, mon):
    from feax.solvers.time_solver import AdaptiveDtConfig, TimeConfig
    rng = rng_for(case)
    for _ in range(case["n"]):
        lo, hi = float(10 ** rng.uniform(-2, -1)), float(10 ** rng.uniform(0, 1))
        gf = float(rng.choice([1.0, 1.2, 2.0, 5.0]))
        dt = float(rng.uniform(lo, hi))
        t0 = float(rng.uniform(-2, 2))
        t_end = t0 + float(rng.uniform(0.5, 8))
        if rng.random() < 0.5:
            f = float(10.0 ** rng.integers(-10, 8))
            lo, hi, dt, t0, t_end = lo * f, hi * f, dt * f, t0 * f, t_end * f
        style = str(rng.choice(["wild", "grow", "shrink", "same"]))

        def propose(step, old):
            return float({"wild": 10 ** rng.uniform(-5, 4), "grow": old * rng.uniform(1, 9),
                          "shrink": old * rng.uniform(.1, 1), "same": old}[style])
        p = recorder(rng, ("a",), propose=propose)
        cbs, cblog = _callbacks(rng, p)
        cfg = TimeConfig(dt=dt, t_end=t_end, t_start=t0, save_every=3, print_every=1000)
        r = drive(p, cfg, adaptive_dt=AdaptiveDtConfig(dt_min=lo, dt_max=hi, growth_factor=gf), callbacks=[c for _, c in cbs])
        T, done, seq = check_log(mon, "adaptive", p, r, cfg, cblog, cbs, None, t0, ("a",))
        mon.close("adaptive.lands_on_end", r.t_final, t_end, rtol=1e-13, scale=max(abs(t_end), abs(t0)))
        mon.equal("adaptive.n_steps", r.n_steps, done)
        dts = np.array([e[3] for e in p.log if e[0] == "step"])
        cur = dt
        ok = okb = okg = oko = True
        for k in range(done):
            last = k == done - 1
            ok &= abs(dts[k] - cur) <= 1e-9 * cur if not last else dts[k] <= cur * (1 + 1e-5)
            okb &= last or lo * (1 - 1e-9) <= dts[k] <= hi * (1 + 1e-9)
            okg &= k == 0 or dts[k] <= dts[k - 1] * gf * (1 + 1e-5)
            old, v = p.props[k] if k < len(p.props) else (cur, cur)
            oko &= abs(old - cur) <= 1e-9 * cur or last
            cur = min(max(lo, min(hi, v)), cur * gf)
        mon.true("adaptive.proposal_followed", ok, style=style)
        mon.true("adaptive.within_limits", okb, lo=lo, hi=hi)
        mon.true("adaptive.growth_limited", okg, gf=gf)
        mon.true("adaptive.proposal_sees_step", oko)
        mon.true("adaptive.asked_every_step", len(p.props) >= done - 1)
        for c, (ev, _) in enumerate(cbs):
            mon.equal("adaptive.callback_period", [s for cc, s in cblog if cc == c], list(range(ev, done + 1, ev)))
        mon.event("steps", done)
        mon.seen("adaptive", style, gf, min(done, 8))
    # no proposals unless adaptive control was asked for, and none needed when it was
    p = recorder(rng, (), propose=lambda s, o: o * 3)
    drive(p, TimeConfig(dt=0.1, t_end=1.0))
    mon.true("adaptive.off_means_fixed", not p.props and len(p.states) == 11)
    p = recorder(rng, ())
    drive(p, TimeConfig(dt=0.1, t_end=1.0), adaptive_dt=AdaptiveDtConfig())
    mon.equal("adaptive.no_hook_means_fixed", len(p.states), 11)


def case_fault(case, mon):
    """A failure at any point surfaces, nothing runs afterwards, completed steps are on disk."""
    from feax.solvers.time_solver import Callback, TimeConfig
    rng = rng_for(case)
    with tempfile.TemporaryDirectory() as base:
        for it in range(case["n"]):
            n = int(rng.integers(1, 15))
            k = int(rng.integers(1, n + 1))
            where = str(rng.choice(["step", "save", "monitor", "callback"]))
            se = int(rng.integers(1, 4))
            p = recorder(rng, ("a",), fault=(where, k))
            out = os.path.join(base, str(it))

            def cb(state, step, t):
                p.log.append(("callback", state, step, t))
                if where == "callback" and step == k:
                    raise Boom(step)
            hit = not (where == "save" and not (k % se == 0 or k == n))
            try:
                drive(p, TimeConfig(dt=1.0, t_end=float(n), save_every=se, print_every=1000), output_dir=out,
                      callbacks=[Callback(cb)])
                raised = False
            except Boom:
                raised = True
                on_disk = csv_rows(out)                   # as the handler of the error finds it
            mon.equal("fault.surfaces", raised, hit, where=where, k=k)
            if not hit:
                continue
            done = len(p.states) - 1
            mon.equal("fault.stops_there", done, k - 1 if where == "step" else k, where=where)
            mon.true("fault.nothing_after", p.log[-1][0] == where)
            rows = [x for x in on_disk[1:] if x[0] != "0"]
            full = k - 1 if where in ("step", "monitor") else k
            mon.true("fault.completed_steps_on_disk", [int(x[0]) for x in rows][:k - 1] == list(range(1, k)) and len(rows) <= full,
                     rows=len(rows), k=k, where=where)
            mon.event("faults")
            mon.seen("fault", where, min(k, 5), se)


# ------------------------------------------------------------------ schemes
def case_explicit(case, mon):
    """Explicit schemes against an independent implementation, on a nonlinear, time-dependent system."""
    from feax.solvers.time_solver import ExplicitPipeline, TimeConfig
    rng = rng_for(case)
    sch = case["scheme"]
    n = 4
    A = rng.normal(size=(n, n)) * 0.5
    b = rng.normal(size=n)
    Aj, bj = jnp.asarray(A), jnp.asarray(b)
    u0, v0 = rng.normal(size=n), rng.normal(size=n)
    w = float(rng.uniform(1, 3))

    class P(ExplicitPipeline):
        scheme = sch

        def build(self, mesh):
            self.calls = []
            self.f = jax.jit(lambda s, t: {"u": s["v"] + 0.1 * jnp.sin(w * t), "v": Aj @ s["u"] - 0.2 * s["u"] ** 2 + bj * jnp.cos(w * t)})

        def initial_state(self):
            return {"u": jnp.asarray(u0), "v": jnp.asarray(v0)}

        def compute_rhs(self, state, t):
            self.calls.append(t)
            return self.f(state, t)

    def f(y, t):
        u, v = y[:n], y[n:]
        return np.concatenate([v + 0.1 * np.sin(w * t), A @ u - 0.2 * u ** 2 + b * np.cos(w * t)])

    def ref_run(dts, t0):
        y, t = np.concatenate([u0, v0]), t0
        for h in dts:
            if sch == "euler":
                y = y + h * f(y, t)
            elif sch == "rk2":
                y = y + h * f(y + h / 2 * f(y, t), t + h / 2)
            else:
                k1 = f(y, t)
                k2 = f(y + h / 2 * k1, t + h / 2)
                k3 = f(y + h / 2 * k2, t + h / 2)
                k4 = f(y + h * k3, t + h)
                y = y + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
            t += h
        return y
    errs = []
    t0 = float(rng.uniform(-1, 1))
    from scipy.integrate import solve_ivp
    exact = solve_ivp(lambda t, y: f(y, t), (t0, t0 + 1.0), np.concatenate([u0, v0]), rtol=1e-12, atol=1e-13).y[:, -1]
    for N in (16, 32):
        p = P()
        r = drive(p, TimeConfig(dt=1.0 / N, t_end=t0 + 1.0, t_start=t0, print_every=10 ** 6))
        y = np.concatenate([np.asarray(r.final_state["u"]), np.asarray(r.final_state["v"])])
        mon.close("explicit.scheme", y, ref_run([1.0 / N] * N, t0), rtol=1e-10, scale=np.abs(y).max())
        mon.equal("explicit.evaluations", len(p.calls), N * {"euler": 1, "rk2": 2, "rk4": 4}[sch])
        errs.append(np.abs(y - exact).max())
    order = np.log2(errs[0] / errs[1])
    want = {"euler": 1, "rk2": 2, "rk4": 4}[sch]
    mon.true("explicit.order", order > want - 0.7, order=float(order))
    # uneven last step
    p = P()
    r = drive(p, TimeConfig(dt=0.3, t_end=t0 + 1.0, t_start=t0, print_every=10 ** 6))
    y = np.concatenate([np.asarray(r.final_state["u"]), np.asarray(r.final_state["v"])])
    mon.close("explicit.uneven", y, ref_run([0.3, 0.3, 0.3, t0 + 1.0 - (t0 + 0.3 + 0.3 + 0.3)], t0), rtol=1e-9, scale=np.abs(y).max())
    bad = P()
    bad.scheme = "leapfrog"
    mon.raises("explicit.unknown_scheme", lambda: drive(bad, TimeConfig(dt=0.5, t_end=1.0)), ValueError)
    mon.seen("explicit", sch)


def heat(rng, nonlinear):
    """Backward Euler: u/dt - old/dt - div(k grad u) = f; volume vars (old, k)."""
    pts, cells = wl.make_mesh(rng, "QUAD4", (3, 2), rng.uniform(.8, 1.5, 2), rng.uniform(-1, 1, 2), distort=0.15)
    m = wl.fmesh(pts, cells, "QUAD4")
    dt = float(rng.uniform(.02, .1))

    class P(fe.problem.Problem):
        def get_tensor_map(self):
            return lambda g, old, k, load: k * g * ((1 + 0.3 * jnp.sum(g * g)) if nonlinear else 1.0)

        def get_mass_map(self):
            return lambda u, x, old, k, load: (u - old) / dt - load * jnp.sin(3 * x[0]) * jnp.ones_like(u)
    p = P(m, vec=1, dim=2, ele_type="QUAD4")
    lo = float(pts[:, 0].min())
    bc = fe.DirichletBC.from_specs(p, [fe.DirichletBCSpec(wl.side(0, lo), 0, 0.3)])
    return p, m, bc, pts, cells, dt


def implicit_pipeline(p, bc, n, dt, k, u0, linear, load, pseudo=False):
    from feax.solvers.time_solver import ImplicitPipeline

    class H(ImplicitPipeline):
        pseudo_time = pseudo
        coef = k

        def build(self, mesh):
            self.solver = fe.create_solver(
                p, bc, solver_options=fe.DirectSolverOptions(solver="spsolve"), adjoint_solver_options=fe.DirectSolverOptions(solver="spsolve"),
                linear=linear, traced_params=self.update_vars(jnp.zeros(n), 0.0, dt),
                **({} if linear else dict(newton_options=fe.NewtonOptions(tol=1e-12, rel_tol=1e-13))))

        def initial_state(self):
            return u0

        def update_vars(self, state, t, d):
            old = state if not pseudo else jnp.zeros(n)
            return fe.TracedParams(volume_vars=(old, self.coef, load(t + d)), surface_vars=[])
    return H()


def case_implicit(case, mon):
    """The run equals backward Euler with the residual solved to zero at every step."""
    from feax.solvers.time_solver import Callback, TimeConfig
    rng = rng_for(case)
    p, m, bc, pts, cells, dt = heat(rng, case["nonlinear"])
    n = len(pts)
    k = jnp.asarray(rng.uniform(.5, 2, n))
    u0 = rng.uniform(0, 1, n)
    load = lambda t: jnp.full(n, 1.0 + 2.0 * t)
    pipe = implicit_pipeline(p, bc, n, dt, k, jnp.asarray(u0), not case["nonlinear"], load)
    hist = []
    N = 5
    r = drive(pipe, TimeConfig(dt=dt, t_end=N * dt, print_every=10 ** 6), callbacks=[Callback(lambda s, i, t: hist.append((i, t, np.asarray(s))))])
    c = wl.Case(p=p, bc=bc, tp=fe.TracedParams(volume_vars=(jnp.asarray(u0), k, load(dt)), surface_vars=[]))
    free = c.free()
    old = u0
    mon.equal("implicit.steps", [h[0] for h in hist], list(range(1, N + 1)))
    for i, t, u in hist:
        mon.close("implicit.time", t, i * dt, rtol=1e-9)
        mon.equal("implicit.flat_state", u.shape, (n,))
        tp = fe.TracedParams(volume_vars=(jnp.asarray(old), k, load(i * dt)), surface_vars=[])
        res = c.res(u, tp)
        K = c.K(u, tp)
        mon.close("implicit.residual_zero", res[free], np.zeros(free.sum()), rtol=1e-8, scale=(np.abs(K) @ np.abs(u)).max(), step=i)
        mon.close("implicit.boundary_value", u[~free], np.full((~free).sum(), 0.3), rtol=1e-10)
        old = u
    mon.close("implicit.final_state", np.asarray(r.final_state), hist[-1][2], rtol=0)
    mon.seen("implicit", case["nonlinear"])


def case_grad(case, mon):
    """Gradient of a functional of the final state through the chain of steps, against a dense adjoint."""
    rng = rng_for(case)
    pseudo = case["pseudo"]
    p, m, bc, pts, cells, dt = heat(rng, False)
    n = len(pts)
    k0 = jnp.asarray(rng.uniform(.5, 2, n))
    u0 = jnp.asarray(rng.uniform(0, 1, n))
    w = jnp.asarray(rng.normal(size=n))
    N = 3

    load = lambda t: jnp.full(n, 1.0 + 2.0 * t)
    pipe = implicit_pipeline(p, bc, n, dt, k0, u0, True, load, pseudo)
    pipe.build(m)

    def chain(k, s):
        pipe.coef = k
        for i in range(N):
            s = pipe.step(s, i * dt, dt)
        return jnp.vdot(w, s) + jnp.sum(s ** 2)
    val, (gk, gu) = jax.jit(jax.value_and_grad(chain, argnums=(0, 1)))(k0, u0)
    # dense chain from the residual
    bi, bv = np.asarray(bc.bc_rows), np.asarray(bc.bc_vals)
    free = np.setdiff1d(np.arange(n), bi)

    def dense(k, u):
        s = u
        for i in range(N):
            old = s if not pseudo else jnp.zeros(n)
            tp = fe.TracedParams(volume_vars=(old, k, jnp.full(n, 1.0 + 2.0 * (i + 1) * dt)), surface_vars=[])

            def R(q):
                return jnp.ravel(fe.assembler.get_res(p, p.unflatten_fn_sol_list(q), tp)[0])
            base = jnp.zeros(n).at[bi].set(bv)
            K = jax.jacfwd(R)(base)
            s = base.at[free].set(jnp.linalg.solve(K[np.ix_(free, free)], -R(base)[free]))
        return jnp.vdot(w, s) + jnp.sum(s ** 2)
    v2, (hk, hu) = jax.jit(jax.value_and_grad(dense, argnums=(0, 1)))(k0, u0)
    mon.close("grad.value", float(val), float(v2), rtol=1e-9)
    mon.close("grad.parameter", np.asarray(gk), np.asarray(hk), rtol=1e-7, scale=np.abs(np.asarray(hk)).max())
    mon.close("grad.initial_state", np.asarray(gu), np.asarray(hu), rtol=1e-7, scale=max(np.abs(np.asarray(hu)).max(), 1e-3))
    mon.seen("grad", pseudo)
