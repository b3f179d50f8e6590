"""C26: profiling tools report what really ran and never change the result."""
import gc
import os
import re
import shutil
import tempfile
import time

import numpy as np

from harness import wl
from harness.lazy import fe, jax, jnp
from harness.mon import rng_for

ID = "C26"
RULE = ("recorded call logs of profiled functions with random run / warm-up counts, injected sleeps, asynchronous results and exceptions; traced "
        "functions with random constants, operations and arguments; profiled Newton runs on random problems with random budgets; "
        "distinct by (kind, counts, problem type, converged or not)")
ASSUMPTIONS = ["at least one warm-up or timed run is asked for", "clock resolution below 1 ms"]
MIN_EVALUATIONS = 300


def cases(tier, seed):
    out = []
    q = tier == "quick"
    for r in range(4 if q else 16):
        out.append(dict(kind="timing", n=8 if q else 20, cost=3))
        out.append(dict(kind="context", n=6 if q else 15, cost=3))
        out.append(dict(kind="trace", n=6 if q else 15, cost=4))
    for r in range(8 if q else 40):
        out.append(dict(kind="newton", phys=("nh", "nlflux", "elastic", "conv")[(r + seed) % 4], view=("FULL", "UPPER")[(r // 4) % 2], cost=8))
    for r in range(3 if q else 12):
        out.append(dict(kind="cost", n=6, cost=3))
        out.append(dict(kind="memory", n=4, cost=2))
    return [dict(c, seed=seed, i=n) for n, c in enumerate(out)]


class Slow:
    """Result that becomes ready only when waited for, like an asynchronously dispatched array."""
    def __init__(self, secs, log):
        self.secs, self.log, self.done = secs, log, False

    def block_until_ready(self):
        if not self.done:
            time.sleep(self.secs)
            self.done = True
            self.log.append("ready")
        return self


def case_timing(case, mon):
    from feax.profiler import time_fn
    rng = rng_for(case)
    for k in range(case["n"]):
        runs, warm = int(rng.integers(1, 6)), int(rng.integers(0, 4))
        if rng.uniform() < 0.15 and warm:
            runs = 0
        N = runs + warm
        sleeps = rng.uniform(0.0, 0.012, N)
        slow = rng.uniform(0.0, 0.012, N) * (rng.uniform(size=N) < 0.5)
        log, calls = [], []

        def probe(a, b=None):
            i = len(calls)
            calls.append((a, b))
            time.sleep(sleeps[i])
            return {"i": i, "a": a, "late": Slow(float(slow[i]), log)}
        kw = {}
        given = rng.uniform() < 0.5
        if given:
            kw["label"] = "L%d" % k
        if not (runs == 1 and rng.uniform() < 0.5):
            kw["n_runs"] = runs
        if not (warm == 1 and rng.uniform() < 0.5):
            kw["warmup"] = warm
        a, b = float(rng.uniform()), str(rng.integers(99))
        t0 = time.perf_counter()
        out, tr = time_fn(probe, a, b=b, **kw)
        total = time.perf_counter() - t0
        mon.equal("the function runs warm-up plus timed times", len(calls), N, runs=runs, warm=warm)
        mon.true("every call gets the given arguments", all(c == (a, b) for c in calls))
        mon.equal("the result of the last call is returned", out["i"], N - 1)
        mon.equal("one record per timed run", len(tr.records), runs)
        mon.equal("every result was waited for", len(log), N)
        name = kw.get("label", "probe")
        want = [name] if runs == 1 else [f"{name}[{i}]" for i in range(runs)]
        mon.equal("labels", [r.label for r in tr.records], want)
        for i, r in enumerate(tr.records):
            need = sleeps[warm + i] + slow[warm + i]
            mon.true("a record covers its own run including the wait for the result", r.wall_time_s >= need - 1e-3, got=r.wall_time_s, need=need)
        mon.true("records do not exceed the time that passed minus the warm-up",
                 sum(r.wall_time_s for r in tr.records) <= total - float(np.sum(sleeps[:warm] + slow[:warm])) + 2e-3)
        mon.close("total is the sum of the records", tr.total_s, float(sum(r.wall_time_s for r in tr.records)), rtol=1e-12, atol=1e-15)
        summary(mon, tr)
        mon.event("profiled calls", N)
        mon.seen("timing", runs, warm, given)


def summary(mon, tr):
    s = tr.summary()
    if not tr.records:
        mon.true("an empty session says so", "no timing" in s.lower())
        return
    for r in tr.records:
        mon.true("summary lists every record with its time", any(r.label in l and f"{r.wall_time_s:.4f}" in l for l in s.splitlines()), s=s)
    mon.true("summary ends with the total", any("total" in l.lower() and f"{tr.total_s:.4f}" in l for l in s.splitlines()), s=s)


class Boom(Exception):
    pass


def case_context(case, mon):
    from feax.profiler import profile
    rng = rng_for(case)
    for k in range(case["n"]):
        secs = float(rng.uniform(0.0, 0.02))
        label = None if rng.uniform() < 0.3 else f"s{k}"
        block = rng.uniform() < 0.6
        fail = rng.uniform() < 0.4
        hit = []
        late = block and rng.uniform() < 0.6

        def cb(x):
            time.sleep(0.03)
            hit.append(float(x))

        @jax.jit
        def eff(x):
            jax.debug.callback(cb, x)
            return x + 1
        if late:
            jax.block_until_ready(eff(0.0))
            jax.effects_barrier()
            hit.clear()
        args = () if label is None else (label,)
        kw = {} if block and rng.uniform() < 0.5 else {"block_until_ready": bool(block)}
        t0 = time.perf_counter()
        try:
            with profile(*args, **kw) as tr:
                mon.equal("no record before the block ends", len(tr.records), 0)
                time.sleep(secs)
                if late:
                    eff(2.5)
                with profile("inner") as inner:
                    time.sleep(0.004)
                if fail:
                    raise Boom()
            mon.true("an exception in the block is not swallowed", not fail)
        except Boom:
            mon.true("no exception is invented", fail)
        total = time.perf_counter() - t0
        seen = list(hit)
        mon.equal("one record, also after an exception", len(tr.records), 1, fail=fail)
        mon.equal("label", [r.label for r in tr.records], [label or "default"])
        mon.equal("an inner session keeps its own record", [r.label for r in inner.records], ["inner"])
        r = tr.records[0].wall_time_s
        mon.true("the record covers the block", r >= secs + 0.004 - 1e-3, got=r, need=secs)
        mon.true("the record is within the time that passed", r <= total + 1e-3)
        mon.true("an outer session covers the inner one", r >= inner.records[0].wall_time_s)
        if late:
            mon.equal("pending device effects were flushed before the clock stopped", seen, [2.5])
            mon.true("the flushed effect is part of the time", r >= 0.03 - 1e-3, got=r)
        summary(mon, tr)
        mon.event("sessions", 2)
        mon.seen("context", bool(fail), bool(block), late)


def count(eqns):
    d = {}
    for e in eqns:
        d[e.primitive.name] = d.get(e.primitive.name, 0) + 1
    return d


def case_trace(case, mon):
    from feax.profiler import get_hlo, trace_jaxpr
    rng = rng_for(case)
    for k in range(case["n"]):
        m, n = (int(x) for x in rng.integers(2, 7, 2))
        consts = [jnp.asarray(rng.normal(size=tuple(int(x) for x in rng.integers(2, 5, int(rng.integers(1, 4)))))
                              .astype(str(rng.choice(["float64", "float32", "int32"])))) for _ in range(int(rng.integers(0, 4)))]
        muls, sins = int(rng.integers(0, 5)), int(rng.integers(0, 5))
        nouts = int(rng.integers(1, 4))
        loop = bool(rng.integers(2))

        def f(x, d, shift=0.0):
            y = x @ d["w"]
            for _ in range(muls):
                y = y * y
            for _ in range(sins):
                y = jnp.sin(y)
            y = y + shift
            for c in consts:
                y = y + c.sum()
            if loop:
                y = jax.lax.fori_loop(0, 3, lambda i, z: z * 0.5, y)
            return tuple(y + i for i in range(nouts))
        x, d = jnp.asarray(rng.normal(size=(m, n))), {"w": jnp.asarray(rng.normal(size=(n, 2)))}
        kw = {"shift": jnp.asarray(1.5)} if rng.uniform() < 0.5 else {}
        info = trace_jaxpr(f, x, d, **kw)
        own = jax.make_jaxpr(f)(x, d, **kw)
        mon.equal("number of equations", info.num_eqns, len(own.jaxpr.eqns))
        mon.equal("primitive counts", dict(info.primitives), count(own.jaxpr.eqns))
        mon.true("known operations are counted", info.primitives.get("sin", 0) == sins and info.primitives.get("dot_general", 0) == 1, got=dict(info.primitives))
        shp = lambda avs: [f"{tuple(a.shape)} {a.dtype}" for a in avs]
        mon.equal("inputs", shp(info.input_avals), [f"({m}, {n}) float64", f"({n}, 2) float64"] + (["() float64"] if kw else []))
        mon.equal("outputs", shp(info.output_avals), [f"({m}, 2) float64"] * nouts)
        mon.equal("static constants", sorted(shp(info.static_avals)), sorted(shp(consts)))
        mon.equal("static bytes", int(info.static_bytes), int(sum(c.nbytes for c in consts)))
        txt = info.full_jaxpr()
        mon.equal("text of the traced computation", txt, str(info.jaxpr))
        mon.equal("traced computation evaluates like the function",
                  all(np.allclose(a, b) for a, b in zip(jax.core.eval_jaxpr(info.jaxpr.jaxpr, info.jaxpr.consts, *jax.tree_util.tree_leaves(((x, d), kw))), f(x, d, **kw))), True)
        r = repr(info)
        top = sorted(info.primitives.items(), key=lambda t: -t[1])[:10]
        num = lambda key: re.search(key + r"\s*=\s*(\d+)", r)
        for key, val in (("num_eqns", info.num_eqns), ("dynamic_inputs", len(info.input_avals)), ("static_constants", len(consts)), ("outputs", nouts)):
            g = num(key)
            mon.equal("printed " + key, int(g.group(1)) if g else None, val)
        mon.true("printed top primitives", all(f"'{p}': {c}" in r for p, c in top if c > (top[-1][1] if top else 0)), r=r)
        tmp = tempfile.mkdtemp(dir=os.environ.get("VERIF_SCRATCH"))
        try:
            p = os.path.join(tmp, "a", "b", "j.txt") if rng.uniform() < 0.5 else os.path.join(tmp, "j.txt")
            info.save(p)
            mon.equal("saved text", open(p).read(), txt)
        finally:
            shutil.rmtree(tmp)
        if k == 0:
            h = get_hlo(f, x, d)
            mon.true("compiled text names the module", "HloModule" in h and f"f64[{m},{n}]" in h)
        mon.seen("trace", muls, sins, len(consts), loop, bool(kw))


def newton_ref(c, u0, max_iter, tol):
    """Own dense Newton on the constrained residual; norms at every visited state."""
    rows = np.asarray(c.bc.bc_rows)
    vals = np.asarray(c.bc.bc_vals)
    f = c.free()
    u = np.asarray(u0, float).copy()
    norms, us, ok = [], [], False
    for _ in range(max_iter):
        r = np.array(c.res(u))
        r[rows] = u[rows] - vals
        norms.append(float(np.linalg.norm(r)))
        us.append(u.copy())
        if norms[-1] < tol:
            ok = True
            break
        K = np.array(c.K(u))
        K[rows, :] = 0.0
        K[rows, rows] = 1.0
        u = u + np.linalg.solve(K, -r)
    return u, norms, ok


def case_newton(case, mon):
    from feax.profiler import profile_solver, profile_solver_py
    rng = rng_for(case)
    view = case["view"] if case["phys"] in wl.SYMMETRIC else "FULL"
    c = wl.gen(rng, case["phys"], str(rng.choice(["QUAD4", "TRI3"])), ns=(3, 2), view=view)
    zero = bool(rng.integers(2))
    u0 = jnp.asarray(fe.zero_like_initial_guess(c.p, c.bc))
    if not zero:
        # rows and columns are eliminated: exact Newton steps only from states that hold the boundary values
        u0 = u0 + jnp.asarray(rng.normal(size=c.n) * 0.01 * c.free())
    off = u0 + jnp.asarray(rng.normal(size=c.n) * 0.01)
    sol, prof = profile_solver_py(c.p, c.bc, c.tp, off, tol=1e-9)
    r = c.res(np.asarray(sol))
    mon.true("converges from a state off the boundary values", bool(prof.converged) and np.linalg.norm(r[c.free()]) < 2e-9,
             norms=prof.residual_norms)
    mon.close("boundary values reached", np.asarray(sol)[np.asarray(c.bc.bc_rows)], np.asarray(c.bc.bc_vals), atol=2e-9, rtol=0)
    for budget in ("full", "short"):
        tol = float(10 ** rng.uniform(-10, -7))
        mi = 30 if budget == "full" else int(rng.integers(1, 4))
        want_u, norms, ok = newton_ref(c, u0, mi, tol)
        if any(abs(np.log10(max(x, 1e-300) / tol)) < 0.3 for x in norms) or (norms[-1] < 1e3 * tol and norms[-1] > tol * 0.5):
            mon.event("budgets left out: residual too close to the tolerance to predict the verdict")
            continue
        kw = dict(tol=tol, max_iter=mi)
        if rng.uniform() < 0.5:
            kw["solver_options"] = fe.DirectSolverOptions(solver="spsolve")
            if view != "FULL":
                mon.raises("a backend that cannot read one triangle is refused", lambda: profile_solver_py(c.p, c.bc, c.tp, u0, **kw), ValueError)
                continue
        lab = "n%d" % mi
        sol, prof = profile_solver_py(c.p, c.bc, c.tp, u0, label=lab, **kw)
        sol = np.asarray(sol)
        got = np.asarray(prof.residual_norms)
        scale = max(norms[0], 1e-6)
        mon.equal("label", prof.label, lab)
        mon.equal("converged flag", bool(prof.converged), ok, norms=norms, tol=tol)
        mon.equal("number of recorded iterations", len(got), len(norms), recorded=list(got), norms=norms)
        mon.equal("one time per iteration", len(prof.iteration_times), len(got))
        if len(got) == len(norms):
            # quadratic convergence amplifies rounding of the iterates: absolute scale of the first residual
            mon.close("recorded residual norms are those of the Newton iterates", got, np.asarray(norms), atol=1e-7 * scale, rtol=1e-6)
        mon.close("profiled solution", sol, want_u, atol=1e-7 * max(1e-3, np.abs(want_u).max()), rtol=0)
        if ok:
            r = c.res(sol)
            f = c.free()
            mon.true("a profiled run that reports convergence is at equilibrium", np.linalg.norm(r[f]) < 2 * tol + 1e-12, norm=float(np.linalg.norm(r[f])), tol=tol)
            mon.close("boundary values", sol[np.asarray(c.bc.bc_rows)], np.asarray(c.bc.bc_vals), atol=tol + 1e-12, rtol=0)
        mon.true("total time covers the iterations", prof.wall_time_s >= sum(prof.iteration_times) - 1e-3)
        mon.true("times are positive", min(prof.iteration_times) >= 0)
        s = prof.summary()
        num = lambda key: re.search(key + r":\s*(\S+)", s)
        mon.true("printed iterations", num("Iterations") and int(num("Iterations").group(1)) == len(got), s=s)
        mon.true("printed verdict", num("Converged") and num("Converged").group(1) == str(bool(prof.converged)), s=s)
        mon.true("printed residuals", f"{got[0]:.6e}" in s and f"{got[-1]:.6e}" in s, s=s)
        mon.event("profiled iterations", len(got))
        mon.seen("newton", case["phys"], view, ok, len(got), zero)
    calls = []
    inner = fe.create_solver(c.p, c.bc, fe.DirectSolverOptions(solver="spsolve" if view == "FULL" else "auto"), linear=c.linear, traced_params=c.tp)

    def solver(*a):
        calls.append(a)
        return inner(*a)
    got, prof = profile_solver(solver, c.tp, u0, label="tot")
    mon.equal("profiled solver is called once with the arguments", [len(a) for a in calls], [2])
    mon.true("arguments are handed over", calls[0][0] is c.tp and calls[0][1] is u0)
    mon.close("profiling does not change the result", got, np.asarray(inner(c.tp, u0)), rtol=1e-12, atol=1e-14)
    mon.true("time and label", prof.wall_time_s > 0 and prof.label == "tot" and not prof.residual_norms)
    log = []
    t = float(rng.uniform(0.005, 0.02))
    out, prof = profile_solver(lambda: Slow(t, log))
    mon.true("the profile waits for the result", prof.wall_time_s >= t - 1e-3 and log == ["ready"])


SI = re.compile(r"^\s*(-?\d+\.\d+) ([GMK]?)(FLOP|B)$")


def si(text):
    if text.strip() == "N/A":
        return None
    g = SI.match(text.strip())
    if not g:
        return "bad " + text
    return float(g.group(1)) * {"": 1, "K": 1e3, "M": 1e6, "G": 1e9}[g.group(2)]


def near(got, want):
    if want < 0:
        return got is None
    if not isinstance(got, float):
        return False
    step = 1e9 if want >= 1e9 else 1e6 if want >= 1e6 else 1e3 if want >= 1e3 else 1
    return abs(got - want) <= 0.0051 * step


def case_cost(case, mon):
    from feax.profiler import format_cost_analysis, get_cost_analysis
    rng = rng_for(case)
    for k in range(case["n"]):
        m = int(10 ** rng.uniform(0.3, 3.0))
        x, y = jnp.ones((m, 8)), jnp.ones((8, m if m < 400 else 4))

        def f(a, b):
            return a @ b + 1.0
        raw = get_cost_analysis(f, x, y)
        own = jax.jit(f).lower(x, y).compile().cost_analysis()
        mon.equal("cost analysis is the compiler's", {a: float(b) for a, b in dict(raw).items()}, {a: float(b) for a, b in dict(own).items()})
        lab = "" if rng.uniform() < 0.4 else f"job{k}"
        s = format_cost_analysis(f, x, y, label=lab)
        mon.true("header", s.splitlines()[0].startswith("XLA Cost Analysis") and s.splitlines()[0].endswith(lab))
        line = {l.split(":")[0].strip(): l.split(":", 1)[1] for l in s.splitlines()[2:] if ":" in l}
        fl, by = float(own.get("flops", -1)), float(own.get("bytes accessed", -1))
        mon.true("printed operations", near(si(line["FLOPs"]), fl), line=line["FLOPs"], want=fl)
        mon.true("printed memory traffic", near(si(line["Memory accessed"]), by), line=line["Memory accessed"], want=by)
        if fl > 0 and by > 0:
            g = re.match(r"\s*(\d+\.\d+) FLOP/B", line.get("Arith. intensity", ""))
            mon.true("printed intensity", g and abs(float(g.group(1)) - fl / by) <= 0.0051, want=fl / by)
        parts = {}
        for l in s.splitlines():
            g = re.match(r"\s+(in\[[^\]]*\]|out(?:\[[^\]]*\])?)\s+(.*)$", l)
            if g:
                parts[g.group(1)] = si(g.group(2))
        want = {}
        for key, v in own.items():
            if key.startswith("bytes accessed") and key != "bytes accessed":
                tag = key[len("bytes accessed"):].strip("{} ")
                want["out" if tag.startswith("out") and not tag[3:].strip("{} ") else f"out[{tag[3:].strip('{} ')}]" if tag.startswith("out") else f"in[{tag}]"] = v
        mon.equal("every operand is listed", sorted(parts), sorted(want))
        for a in want:
            if a in parts:
                mon.true("printed operand traffic", near(parts[a], float(want[a])), operand=a, got=parts[a], want=want[a])
        mon.seen("cost", fl >= 1e3, fl >= 1e6, by >= 1e3, by >= 1e6)
        mon.event("cost reports")


def case_memory(case, mon):
    from feax.profiler import memory_snapshot
    rng = rng_for(case)
    keep = []
    gc.collect()
    gc.disable()                  # garbage from earlier cases must not disappear between two snapshots
    try:
        snapshots(case, mon, rng, keep, memory_snapshot)
    finally:
        gc.enable()


def snapshots(case, mon, rng, keep, memory_snapshot):
    for k in range(case["n"]):
        before = memory_snapshot()
        mon.equal("one snapshot per device", len(before), len(jax.devices()))
        n, size = int(rng.integers(1, 6)), int(rng.integers(1, 500))
        new = [jax.device_put(np.full(size, float(k * 10 + j))) for j in range(n)]
        jax.block_until_ready(new)
        after = memory_snapshot(None if rng.uniform() < 0.5 else "cpu")
        mon.equal("new buffers are counted", after[0].live_buffers - before[0].live_buffers, n)
        mon.equal("new bytes are counted", after[0].live_bytes - before[0].live_bytes, n * size * 8)
        mon.equal("device name", after[0].device, str(jax.devices()[0]))
        mon.true("printed", f"{after[0].live_buffers} buffers" in repr(after[0]) and f"{after[0].live_bytes / 1e6:.1f} MB" in repr(after[0]))
        if rng.uniform() < 0.5:
            del new
            gone = memory_snapshot()
            mon.equal("released buffers are no longer counted", gone[0].live_buffers, before[0].live_buffers)
        else:
            keep.append(new)
        mon.seen("memory", n)
        mon.event("snapshots", 2)
