"""C25: distributed runs start every rank once with the same script and gather in rank order on every rank."""
import hashlib
import json
import os
import shutil
import socket
import subprocess
import sys
import tempfile
import textwrap
import time

import numpy as np

from harness.lazy import fe, jax, jnp
from harness.mon import rng_for

ID = "C25"
RULE = ("real local processes on the loopback network (1..4 ranks, random start order and per-rank delays before every collective), random pytrees, "
        "dtypes and shapes, per-rank finite-element solves; launches of random cluster files through stand-ins for ssh and docker that record the "
        "call and run it locally, with slow workers, failing coordinators and hostile argument strings; distinct by (ranks, delay order, structure)")
ASSUMPTIONS = ["all ranks of a run pass the same structure and shapes (documented)", "the loopback network works; ports are picked free"]
MIN_EVALUATIONS = 300
REPO = os.environ.get("VERIF_REPO", "/repo")


def cases(tier, seed):
    out = []
    q = tier == "quick"
    for r in range(4 if q else 20):
        out.append(dict(kind="gather", n=2 + (r + seed) % 3, r=r, cost=10))
    for r in range(2 if q else 8):
        out.append(dict(kind="solve", n=2 + r % 2, r=r, cost=14))
    for r in range(4 if q else 16):
        out.append(dict(kind="launch", n=6 if q else 20, r=r, cost=5))
    for r in range(2 if q else 8):
        out.append(dict(kind="cluster", n=2 + (r + seed) % 2, r=r, cost=12))
    for r in range(3 if q else 10):
        out.append(dict(kind="single", n=6, cost=2))
    return [dict(c, seed=seed, i=n) for n, c in enumerate(out)]


def free_port(rng):
    for _ in range(200):
        p = int(rng.integers(20000, 31000)) + os.getpid() % 977
        with socket.socket() as s:
            try:
                s.bind(("127.0.0.1", p))
                return p
            except OSError:
                continue
    raise RuntimeError("no free port")


def child_env(**kw):
    env = {k: v for k, v in os.environ.items() if not k.startswith("JAX_COORD") and k not in ("JAX_NUM_PROCESSES", "JAX_PROCESS_ID")}
    env.update(JAX_PLATFORMS="cpu", PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1")
    env.update({k: str(v) for k, v in kw.items()})
    return env


# what every rank contributes: a pure function of (seed, rank, round), shared by script and checker
DATA = textwrap.dedent('''
    import numpy as _np
    def payload(seed, rank, rnd):
        g = _np.random.default_rng([seed, rnd])            # structure and shapes: same on all ranks
        kind = int(g.integers(4))
        def leaf():
            nd = int(g.integers(0, 4))
            shape = tuple(int(x) for x in g.integers(1, 5, nd))
            dt = ["float64", "float32", "int64", "int32"][int(g.integers(4))]
            jaxed = bool(g.integers(2))
            return shape, dt, jaxed
        def val(spec, j):
            shape, dt, jaxed = spec
            v = _np.random.default_rng([seed, rnd, j, rank]).uniform(-1000, 1000, shape)
            v = _np.asarray(v + 10000.0 * (rank + 1)).astype(dt)
            if jaxed:
                import jax.numpy as jnp
                return jnp.asarray(v)
            return v
        specs = [leaf() for _ in range(4)]
        vs = [val(s, j) for j, s in enumerate(specs)]
        if kind == 0:
            return vs[0]
        if kind == 1:
            return {"u": vs[0], "p": [vs[1], vs[2]]}
        if kind == 2:
            return (vs[0], vs[1], {"z": vs[2], "a": vs[3]})
        return [vs[3], (vs[2],)]
''')

SCRIPT = DATA + textwrap.dedent('''
    import json, os, sys, time
    cfg = json.load(open(os.environ["C25_CFG"]))
    rank = int(os.environ["JAX_PROCESS_ID"])
    time.sleep(cfg["start"][rank])
    import jax
    from feax import distributed
    rec = {"rank": rank, "argv": sys.argv[1:]}
    rec["init"] = distributed.initialize()
    rec["coord"] = bool(distributed.is_coordinator())
    rec["index"], rec["count"] = jax.process_index(), jax.process_count()
    try:
        for rnd in range(cfg["rounds"]):
            time.sleep(cfg["delays"][rank][rnd])
            x = payload(cfg["seed"], rank, rnd)
            before = [_np.array(l) for l in jax.tree_util.tree_leaves(x)]
            out = distributed.gather(x)
            rec["struct%d" % rnd] = str(jax.tree_util.tree_structure(out))
            rec["same%d" % rnd] = all(_np.array_equal(_np.asarray(a), b) for a, b in zip(jax.tree_util.tree_leaves(x), before))
            _np.savez(os.path.join(cfg["out"], "r%d_%d.npz" % (rank, rnd)), *[_np.asarray(l) for l in jax.tree_util.tree_leaves(out)])
        if cfg.get("solve"):
            from harness.checks import c25
            sol = c25.rank_solution(cfg["seed"], rank)
            _np.save(os.path.join(cfg["out"], "sol%d.npy" % rank), _np.asarray(distributed.gather(sol)))
    finally:
        distributed.finalize()
        distributed.finalize()
    json.dump(rec, open(os.path.join(cfg["out"], "rec%d.json" % rank), "w"))
''')


def rank_solution(seed, rank):
    from harness import wl
    rng = np.random.default_rng([seed, rank])
    c = wl.gen(np.random.default_rng(seed), "elastic", "QUAD4", ns=(2, 2))
    E = jnp.asarray(rng.uniform(0.5, 2.0, len(c.E)))
    s = fe.create_solver(c.p, c.bc, fe.DirectSolverOptions(solver="spsolve"), linear=True,
                         traced_params=c.tp)
    return s(fe.TracedParams(volume_vars=(E,), surface_vars=c.tp.surface_vars), fe.zero_like_initial_guess(c.p, c.bc))


def expected(seed, n, rnd):
    ns = {}
    exec(DATA, ns)
    xs = [ns["payload"](seed, r, rnd) for r in range(n)]
    leaves = [[np.asarray(l) for l in jax.tree_util.tree_leaves(x)] for x in xs]
    return str(jax.tree_util.tree_structure(xs[0])), [np.stack([l[j] for l in leaves]) for j in range(len(leaves[0]))]


def clash(text):
    return any(w in text.lower() for w in ("address already in use", "failed to bind", "errno: 98"))


def judge(mon, cfg, n, out, what, args=None):
    for r in range(n):
        f = os.path.join(out, f"rec{r}.json")
        mon.true(f"{what}: every rank ran to the end", os.path.exists(f), rank=r)
        if not os.path.exists(f):
            continue
        rec = json.load(open(f))
        mon.equal(f"{what}: initialize reports distributed mode", rec["init"], True)
        mon.equal(f"{what}: rank and number of processes", (rec["index"], rec["count"]), (r, n))
        mon.equal(f"{what}: only rank 0 is coordinator", rec["coord"], r == 0)
        if args is not None:
            mon.equal(f"{what}: every rank sees the script arguments", rec["argv"], args, rank=r)
        for k in range(cfg["rounds"]):
            st, want = expected(cfg["seed"], n, k)
            mon.equal(f"{what}: gather keeps the structure", rec[f"struct{k}"], st)
            mon.true(f"{what}: gather leaves its input alone", rec[f"same{k}"])
            with np.load(os.path.join(out, f"r{r}_{k}.npz")) as z:
                got = [z[f"arr_{j}"] for j in range(len(z.files))]
            mon.equal(f"{what}: number of leaves", len(got), len(want))
            for g, w in zip(got, want):
                mon.equal(f"{what}: gathered shape", g.shape, w.shape, rank=r)
                mon.equal(f"{what}: gathered dtype", str(g.dtype), str(w.dtype), rank=r)
                mon.true(f"{what}: gathered values are the ranks' values in rank order", g.shape == w.shape and np.array_equal(g, w), rank=r)
                mon.event("gathered leaves")


def plan(rng, case, n, out, rounds, solve=False):
    mode = str(rng.choice(["together", "reverse", "random"]))
    start = {"together": [0.0] * n, "reverse": [0.7 * (n - 1 - r) for r in range(n)],
             "random": [float(x) for x in rng.uniform(0, 1.0, n)]}[mode]
    delays = [[float(x) for x in (rng.uniform(0, 0.25, rounds) * (rng.uniform(size=rounds) < 0.4))] for _ in range(n)]
    return mode, dict(seed=int(rng.integers(1 << 30)), rounds=rounds, out=out, start=start, delays=delays, solve=solve)


def run_ranks(rng, case, n, rounds, solve):
    """Start n real processes; returns (cfg, mode, dir). Retries when the picked port is taken in the meantime."""
    for attempt in range(4):
        d = tempfile.mkdtemp(dir=os.environ.get("VERIF_SCRATCH"))
        mode, cfg = plan(rng, case, n, d, rounds, solve)
        json.dump(cfg, open(os.path.join(d, "cfg.json"), "w"))
        open(os.path.join(d, "script.py"), "w").write(SCRIPT)
        port = free_port(rng)
        here = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
        procs = []
        for r in rng.permutation(n):
            r = int(r)
            env = child_env(JAX_COORD_ADDR="127.0.0.1", JAX_COORD_PORT=port, JAX_NUM_PROCESSES=n, JAX_PROCESS_ID=r,
                            C25_CFG=os.path.join(d, "cfg.json"), PYTHONPATH=REPO + os.pathsep + here)
            log = open(os.path.join(d, f"log{r}.txt"), "w")
            procs.append(subprocess.Popen([sys.executable, os.path.join(d, "script.py")], env=env, stdout=log, stderr=log,
                                          stdin=subprocess.DEVNULL, cwd=d))
        end = time.time() + 240
        rcs = []
        for p in procs:
            try:
                rcs.append(p.wait(max(1, end - time.time())))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                rcs.append("timeout")
        logs = "".join(open(os.path.join(d, f"log{r}.txt")).read() for r in range(n))
        if any(rcs) and clash(logs) and attempt < 3:
            shutil.rmtree(d)
            continue
        return cfg, mode, d, rcs, logs


def case_gather(case, mon):
    rng = rng_for(case)
    n = case["n"]
    cfg, mode, d, rcs, logs = run_ranks(rng, case, n, 8, False)
    try:
        mon.seen("gather", n, mode)
        mon.event("processes", n)
        mon.true("all ranks end cleanly", not any(rcs), rcs=rcs, log=logs[-1500:])
        if not any(rcs):
            judge(mon, cfg, n, d, "gather")
    finally:
        shutil.rmtree(d)


def case_solve(case, mon):
    rng = rng_for(case)
    n = case["n"]
    cfg, mode, d, rcs, logs = run_ranks(rng, case, n, 1, True)
    try:
        mon.seen("solve", n, mode)
        mon.event("processes", n)
        mon.true("all ranks end cleanly", not any(rcs), rcs=rcs, log=logs[-1500:])
        if any(rcs):
            return
        want = np.stack([np.asarray(rank_solution(cfg["seed"], r)) for r in range(n)])
        mon.true("ranks have different solutions", np.abs(want[0] - want[1]).max() > 1e-6)
        for r in range(n):
            mon.close("gathered solutions are those of each rank", np.load(os.path.join(d, f"sol{r}.npy")), want, rtol=1e-10, rank=r)
    finally:
        shutil.rmtree(d)


def case_single(case, mon):
    """Without cluster variables nothing is started and gather adds an axis of one."""
    from feax import distributed
    rng = rng_for(case)
    saved = {k: os.environ.pop(k) for k in ("JAX_COORD_ADDR", "JAX_COORD_PORT", "JAX_NUM_PROCESSES", "JAX_PROCESS_ID") if k in os.environ}
    try:
        for k in range(case["n"]):
            if k % 2:
                os.environ["JAX_COORD_ADDR"] = ""
            else:
                os.environ.pop("JAX_COORD_ADDR", None)
            mon.equal("no cluster variables: single-node mode", distributed.initialize(), False)
            mon.equal("one process", jax.process_count(), 1)
            mon.true("the only process is the coordinator", distributed.is_coordinator())
            seed = int(rng.integers(1 << 30))
            ns = {}
            exec(DATA, ns)
            x = ns["payload"](seed, 0, k)
            out = distributed.gather(x)
            st, want = expected(seed, 1, k)
            mon.equal("structure kept", str(jax.tree_util.tree_structure(out)), st)
            for g, w in zip(jax.tree_util.tree_leaves(out), want):
                mon.equal("leading axis of one", np.shape(g), w.shape)
                mon.true("values kept", np.array_equal(np.asarray(g), w))
            mon.equal("finalize is safe without initialize", distributed.finalize(), None)
            mon.seen("single", st)
    finally:
        os.environ.pop("JAX_COORD_ADDR", None)
        os.environ.update(saved)


FAKE_SSH = textwrap.dedent('''\
    #!{py}
    import json, os, sys, time, subprocess
    a = sys.argv[1:]
    data = sys.stdin.buffer.read()
    rid = "%d" % os.getpid()
    json.dump({{"argv": a, "stdin": data.decode()}}, open(os.path.join({d!r}, "ssh-%s.json" % rid), "w"))
    p = subprocess.run(["/bin/sh", "-c", a[-1]], input=data)
    json.dump({{"rc": p.returncode, "t": time.time()}}, open(os.path.join({d!r}, "sshend-%s.json" % rid), "w"))
    sys.exit(p.returncode)
''')
FAKE_DOCKER = textwrap.dedent('''\
    #!{py}
    import json, os, sys
    a = sys.argv[1:]
    assert a[0] == "exec", a
    a = a[1:]
    env = {{k: v for k, v in os.environ.items() if k not in ("JAX_COORD_ADDR", "JAX_COORD_PORT", "JAX_NUM_PROCESSES", "JAX_PROCESS_ID")}}
    given = {{}}
    while a and a[0].startswith("-"):
        o = a.pop(0)
        if o in ("-e", "--env"):
            k, v = a.pop(0).split("=", 1)
            given[k] = v
    env.update(given)
    box, cmd = a[0], a[1:]
    json.dump({{"env": given, "container": box, "cmd": cmd}}, open(os.path.join({d!r}, "docker-%d.json" % os.getpid()), "w"))
    os.execvpe(cmd[0], cmd, env)
''')
LIGHT = textwrap.dedent('''\
    # {mark}
    import json, os, sys, time
    rank = os.environ.get("JAX_PROCESS_ID")
    cfg = json.load(open(os.environ["C25_CFG"]))
    time.sleep(cfg["sleep"].get(rank, 0.0))
    keys = ("JAX_COORD_ADDR", "JAX_COORD_PORT", "JAX_NUM_PROCESSES", "JAX_PROCESS_ID")
    with open(os.path.join(cfg["out"], "run-%s-%d.json" % (rank, os.getpid())), "w") as f:
        json.dump({{"env": {{k: os.environ.get(k) for k in keys}}, "argv": sys.argv[1:], "mark": {mark!r}}}, f)
    if cfg["rc"].get(rank, 0) == -9:
        os.kill(os.getpid(), 9)                            # as the system does when memory runs out
    sys.exit(cfg["rc"].get(rank, 0))
''')


def fake_bin(d):
    b = os.path.join(d, "bin")
    os.mkdir(b)
    for name, text in (("ssh", FAKE_SSH), ("docker", FAKE_DOCKER)):
        with open(os.path.join(b, name), "w") as f:
            f.write(text.format(py=sys.executable, d=d))
        os.chmod(os.path.join(b, name), 0o755)
    with open(os.path.join(b, "python3"), "w") as f:
        f.write(f'#!/bin/sh\nexec {sys.executable} "$@"\n')
    os.chmod(os.path.join(b, "python3"), 0o755)
    return b


ARGS = ["plain", "two words", "it's", 'say "hi"', "$HOME", "a;b", "`x`", "*", "", "ünïcode", "k=v", "back\\slash", "5", "tab\tx", "#c"]


def config(rng, d, port=None, coordinator=None, n=None):
    n = int(rng.integers(0, 4)) if n is None else n
    cfg = {"coordinator": coordinator or "10.0.%d.%d" % tuple(rng.integers(1, 250, 2))}
    if port is not None:
        cfg["port"] = port
    nodes = []
    for i in range(n):
        node = {"host": "10.1.%d.%d" % (i, int(rng.integers(1, 250)))}
        if rng.uniform() < 0.6:
            node["ssh_key"] = os.path.join(d, f"key {i}" if rng.uniform() < 0.5 else f"key{i}")
        if rng.uniform() < 0.6:
            node["container"] = f"box{i}"
        nodes.append(node)
    if n or rng.uniform() < 0.5:
        cfg["nodes"] = nodes
    import yaml
    path = os.path.join(d, "cluster.yml")
    with open(path, "w") as f:
        yaml.safe_dump(cfg, f)
    return path, cfg, nodes


def read(d, prefix):
    return [json.load(open(os.path.join(d, f))) for f in sorted(os.listdir(d)) if f.startswith(prefix)]


def launch(argv, env):
    """The launcher's own entry point, in this process; returns its exit code."""
    from feax import distributed
    old, oldenv = sys.argv, dict(os.environ)
    sys.argv = ["feax.distributed"] + argv
    os.environ.clear()
    os.environ.update(env)
    try:
        distributed.main()
        return 0
    except SystemExit as e:
        return e.code
    finally:
        sys.argv = old
        os.environ.clear()
        os.environ.update(oldenv)


def case_launch(case, mon):
    rng = rng_for(case)
    for k in range(case["n"]):
        d = tempfile.mkdtemp(dir=os.environ.get("VERIF_SCRATCH"))
        try:
            b = fake_bin(d)
            port = None if rng.uniform() < 0.3 else int(rng.integers(1024, 60000))
            path, cfg, nodes = config(rng, d, port)
            n = 1 + len(nodes)
            mark = hashlib.md5(str(rng.integers(1 << 60)).encode()).hexdigest()
            script = os.path.join(d, str(rng.choice(["job.py", "my job.py"])))
            open(script, "w").write(LIGHT.format(mark=mark))
            args = [str(a) for a in rng.choice(ARGS, int(rng.integers(0, 4)), replace=False)]
            slow = bool(rng.uniform() < 0.6)
            sleep = {str(r): (float(rng.uniform(0.3, 0.8)) if slow and r else 0.0) for r in range(n)}
            rc = {"0": int(rng.choice([0, 0, 1, 3, -9]))}
            for r in range(1, n):
                rc[str(r)] = int(rng.choice([0, 0, 2]))
            cf = os.path.join(d, "cfg.json")
            json.dump(dict(out=d, sleep=sleep, rc=rc), open(cf, "w"))
            # launched from a shell that took part in another cluster
            stale = dict(JAX_COORD_ADDR="10.9.9.9", JAX_COORD_PORT="4321", JAX_NUM_PROCESSES="9", JAX_PROCESS_ID="7") if rng.uniform() < 0.4 else {}
            env = child_env(**stale, C25_CFG=cf, PATH=b + os.pathsep + os.environ.get("PATH", ""))
            argv = [str(rng.choice(["--config", "-c"])), path, script] + args
            if k == 0:
                p = subprocess.run([sys.executable, "-m", "feax.distributed"] + argv, env=env, stdin=subprocess.DEVNULL,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=d, timeout=300)
                got = p.returncode
            else:
                got = launch(argv, env)
            runs = read(d, "run-")            # before anything else: a launcher that does not wait leaves some missing
            ends = read(d, "sshend-")
            if rc["0"] >= 0:
                mon.equal("exit code is the coordinator's", got, rc["0"], nodes=len(nodes))
            else:
                mon.true("a killed coordinator is a failure", got not in (0, None), code=got)
            mon.equal("every rank finished before the launcher returned", (len(runs), len(ends)), (n, n - 1), slow=slow)
            deadline = time.time() + 20
            while len(read(d, "run-")) < n and time.time() < deadline:
                time.sleep(0.2)
            runs = read(d, "run-")
            want_env = lambda r: {"JAX_COORD_ADDR": cfg["coordinator"], "JAX_COORD_PORT": str(port if port is not None else 1234),
                                  "JAX_NUM_PROCESSES": str(n), "JAX_PROCESS_ID": str(r)}
            mon.equal("each rank started exactly once", sorted(str(r["env"]["JAX_PROCESS_ID"]) for r in runs), [str(r) for r in range(n)])
            for r in runs:
                rank = int(r["env"]["JAX_PROCESS_ID"] or 0)
                mon.equal("rank environment", r["env"], want_env(rank))
                mon.equal("same script on every rank", r["mark"], mark)
                mon.equal("same arguments on every rank", r["argv"], args, rank=rank)
            calls = read(d, "ssh-")
            mon.equal("one remote call per node", sorted(c["argv"][-2].split("@")[-1] for c in calls), sorted(x["host"] for x in nodes))
            for c in calls:
                host = c["argv"][-2].split("@")[-1]
                node = [x for x in nodes if x["host"] == host]
                if not node:
                    continue
                key = [c["argv"][j + 1] for j, a in enumerate(c["argv"][:-1]) if a == "-i"]
                mon.equal("the node's key is used", key, [node[0]["ssh_key"]] if "ssh_key" in node[0] else [], host=host)
            mon.equal("the nodes' containers are used", sorted(c["container"] for c in read(d, "docker-")),
                      sorted(x.get("container", "feax") for x in nodes))
            mon.event("launches")
            mon.event("ranks launched", n)
            mon.seen("launch", n, slow, port is None, len(args), rc["0"], bool(stale))
        finally:
            shutil.rmtree(d)


def case_cluster(case, mon):
    """Whole path: launcher, remote stand-ins, initialize on the configured port, gather."""
    rng = rng_for(case)
    n = case["n"]
    for attempt in range(4):
        d = tempfile.mkdtemp(dir=os.environ.get("VERIF_SCRATCH"))
        b = fake_bin(d)
        out = os.path.join(d, "out")
        os.mkdir(out)
        mode, cfg = plan(rng, case, n, out, 4)
        cf = os.path.join(d, "cfg.json")
        json.dump(cfg, open(cf, "w"))
        script = os.path.join(d, "job.py")
        open(script, "w").write(SCRIPT)
        path, _, nodes = config(rng, d, free_port(rng), "127.0.0.1", n - 1)
        args = [str(a) for a in rng.choice(ARGS, 2, replace=False)]
        env = child_env(C25_CFG=cf, PATH=b + os.pathsep + os.environ.get("PATH", ""))
        try:
            p = subprocess.run([sys.executable, "-m", "feax.distributed", "--config", path, script] + args, env=env,
                               stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=d, timeout=300)
            rc, log = p.returncode, p.stdout.decode(errors="replace")
        except subprocess.TimeoutExpired:
            rc, log = "timeout", ""
        if rc and clash(log) and attempt < 3:
            shutil.rmtree(d)
            continue
        break
    try:
        mon.equal("cluster run succeeds", rc, 0, log=log[-1500:])
        if rc == 0:
            judge(mon, cfg, n, out, "cluster", args)
        mon.event("processes", n)
        mon.seen("cluster", n, mode)
    finally:
        shutil.rmtree(d)
