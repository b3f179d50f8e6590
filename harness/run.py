"""Driver: python -m harness.run <ID> [quick|thorough] [--replay FILE] [--kind K] [--serial]

Exit 0: the property held on everything observed.  Exit 1: a VIOLATION line was printed.
Exit 3: inconclusive (the monitors did not observe enough)."""
import importlib
import json
import os
import pathlib
import queue
import shutil
import subprocess
import sys
import tempfile
import threading
import time

VERIF = pathlib.Path(__file__).resolve().parent.parent
PY = os.environ.get("VERIF_PY", "/opt/venv/bin/python")


def worker_env(scratch):
    env = dict(os.environ)
    for k in ("PYTHONPATH", "XLA_FLAGS", "LD_PRELOAD"):
        env.pop(k, None)
    env.update(JAX_PLATFORMS="cpu", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", NUMBA_CACHE_DIR=f"{scratch}/numba",
               JAX_COMPILATION_CACHE_DIR=f"{scratch}/jax",
               JAX_PERSISTENT_CACHE_MIN_COMPILE_TIME_SECS="0",
               JAX_PERSISTENT_CACHE_MIN_ENTRY_SIZE_BYTES="-1",
               XLA_FLAGS="--xla_cpu_multi_thread_eigen=false --xla_backend_optimization_level=0 "
                         "--xla_llvm_disable_expensive_passes=true",
               PYTHONPATH=f"{VERIF}", HOME=scratch, TMPDIR=scratch, VERIF_SCRATCH=scratch)
    return env


class Worker:
    def __init__(self, prop, scratch):
        self.prop, self.scratch = prop, scratch
        self.p = None

    def start(self):
        self.p = subprocess.Popen([PY, "-m", "harness.worker", self.prop], cwd=self.scratch,
                                  env=worker_env(self.scratch), stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, text=True, bufsize=1)

    def run(self, case, timeout):
        """Returns a result dict, or {'died': rc} / {'hung': True}."""
        if self.p is None or self.p.poll() is not None:
            self.start()
        box = []

        def read():
            box.append(self.p.stdout.readline())

        try:
            self.p.stdin.write(json.dumps(case) + "\n")
            self.p.stdin.flush()
        except BrokenPipeError:
            rc = self.p.wait()
            self.p = None
            return dict(died=rc)
        t = threading.Thread(target=read, daemon=True)
        t.start()
        t.join(timeout)
        if t.is_alive():
            self.p.kill()
            self.p.wait()
            self.p = None
            return dict(hung=True)
        if not box or not box[0]:
            rc = self.p.wait()
            self.p = None
            return dict(died=rc)
        return json.loads(box[0])

    def stop(self):
        if self.p is not None and self.p.poll() is None:
            try:
                self.p.stdin.close()
                self.p.wait(5)
            except Exception:       # noqa: BLE001
                self.p.kill()
                self.p.wait()


def main():
    args = sys.argv[1:]
    prop = args.pop(0)
    tier = os.environ.get("VERIF_TIER", "quick")
    if args and args[0] in ("quick", "thorough"):
        tier = args.pop(0)
    opt = {}
    while args:
        a = args.pop(0)
        if a in ("--replay", "--kind", "--jobs", "--only"):
            opt[a[2:]] = args.pop(0)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    sys.path.insert(0, str(VERIF))
    module = importlib.import_module(f"harness.checks.{prop.lower()}")
    if "replay" in opt:
        cases = [json.loads(pathlib.Path(opt["replay"]).read_text())["case"]]
    else:
        cases = module.cases(tier, seed)
        if "kind" in opt:
            cases = [c for c in cases if c["kind"] in opt["kind"].split(",")]
        if "only" in opt:
            cases = [c for c in cases if c.get("i") == int(opt["only"])]
    for i, c in enumerate(cases):
        c.setdefault("seed", seed)
        c.setdefault("i", i)
    deadline = t0 + (760 if tier == "quick" else 3000)
    limit = 300.0 if tier == "quick" else 900.0
    scratch = tempfile.mkdtemp(prefix=f"verif_{prop}_")
    os.makedirs(f"{scratch}/jax")
    q = queue.Queue()
    # expensive kinds first: a module may give every case a 'cost'
    for c in sorted(cases, key=lambda c: -c.get("cost", 1)):
        q.put((c, 0))
    done, lock = [], threading.Lock()
    njobs = int(opt.get("jobs", os.environ.get("VERIF_JOBS", "8")))
    njobs = max(1, min(njobs, len(cases)))
    skipped = []
    fast = bool(os.environ.get("VERIF_FAILFAST"))       # development: stop at the first violation

    def loop():
        w = Worker(prop, scratch)
        while True:
            try:
                c, attempt = q.get_nowait()
            except queue.Empty:
                break
            left = deadline - time.time()
            if left < 5:
                skipped.append(c)
                continue
            tc = time.time()
            res = w.run(c, min(limit, left))
            if "died" in res and attempt == 0:
                q.put((c, 1))           # once more in a fresh process
                continue
            if "hung" in res and time.time() - tc < limit - 1:
                skipped.append(c)       # the global deadline cut it, not the case limit
                continue
            if "died" in res or "hung" in res:
                what = "process died" if "died" in res else "call never returned"
                res = dict(counts={}, worst={}, events={}, sigs=[], sample=None, violations=[
                    dict(key=f"{c['kind']}/process", name="process", detail=dict(what=what, **res), case=c)])
            res["t"] = time.time() - tc
            with lock:
                done.append((c, res))
            if fast and res["violations"]:
                with q.mutex:
                    q.queue.clear()
        w.stop()

    threads = [threading.Thread(target=loop) for _ in range(njobs)]
    [t.start() for t in threads]
    [t.join() for t in threads]
    shutil.rmtree(scratch, ignore_errors=True)

    counts, worst, events, sigs, samples, viols, perkind = {}, {}, {}, set(), [], [], {}
    for c, r in done:
        for k, v in r["counts"].items():
            counts[k] = counts.get(k, 0) + v
        for k, v in r["worst"].items():
            worst[k] = max(worst.get(k, 0.0), v)
        for k, v in r["events"].items():
            events[k] = events.get(k, 0) + v
        sigs.update(r["sigs"])
        pk = perkind.setdefault(c["kind"], dict(cases=0, checks=0, secs=0.0))
        pk["cases"] += 1
        pk["checks"] += sum(r["counts"].values())
        pk["secs"] = round(pk["secs"] + r["t"], 2)
        if r["sample"] is not None and len(samples) < 6:
            samples.append(dict(case=c, observed=r["sample"]))
        viols += r["violations"]

    known = [f for f in json.loads((VERIF / "known_findings.json").read_text())["findings"]
             if f["property"] == prop and f.get("status") == "known"]

    def is_known(v):
        for f in known:
            if v["key"] in f["keys"] and all(v["case"].get(k) == x for k, x in f.get("when", {}).items()):
                return f
        return None

    hits, fresh = {}, []
    for v in viols:
        f = is_known(v)
        if f is None:
            fresh.append(v)
        else:
            hits[f["what"]] = hits.get(f["what"], 0) + 1
    evaluations = sum(counts.values())
    rec = dict(property=prop, tier=tier, seed=seed, level="exploration",
               coverage=dict(evaluations=evaluations, distinct_nontrivial=len(sigs), rule=module.RULE,
                             samples=samples or [dict(case=c) for c, _ in done[:3]],
                             cases_run=len(done), cases_skipped=len(skipped), per_kind=perkind,
                             oracle_evaluations=dict(sorted(counts.items())),
                             worst_error_over_tolerance={k: round(v, 6) for k, v in sorted(worst.items())},
                             events=dict(sorted(events.items())),
                             known_finding_hits=hits),
               assumptions=getattr(module, "ASSUMPTIONS", []),
               wall_s=round(time.time() - t0, 2), violations=len(fresh))
    if not opt:
        ev = VERIF / "evidence"
        ev.mkdir(exist_ok=True)
        (ev / f"{prop}.json").write_text(json.dumps(rec, indent=1, ensure_ascii=False) + "\n")
    print(f"{prop} {tier} seed={seed}: {len(done)} cases, {evaluations} oracle evaluations, "
          f"{len(sigs)} distinct situations, {len(skipped)} skipped, {rec['wall_s']} s")
    if os.environ.get("VERIF_VERBOSE"):
        for k, v in perkind.items():
            print("   ", k, v)
        for k, v in sorted(worst.items(), key=lambda kv: -kv[1])[:12]:
            print("    worst", k, f"{v:.3g}")
    for what, n in hits.items():
        print(f"KNOWN-FINDING: property={prop} {what}")
    if fresh:
        rd = VERIF / "replay"
        rd.mkdir(exist_ok=True)
        shown = set()
        for n, v in enumerate(fresh):
            if v["key"] in shown:
                continue
            if len(shown) >= 6:
                break
            shown.add(v["key"])
            path = rd / f"{prop}-{len(shown)}.json"
            path.write_text(json.dumps(v, indent=1) + "\n")
            print(f"  {v['key']}: {json.dumps(v['detail'])[:600]}")
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    floor = getattr(module, "MIN_EVALUATIONS", 1)
    if not opt and (evaluations < floor or len(done) < 0.5 * len(cases) or
                    any(pk["checks"] == 0 for pk in perkind.values())):
        print(f"INCONCLUSIVE: {evaluations} evaluations (floor {floor}), {len(done)}/{len(cases)} cases, "
              f"kinds without observations: {[k for k, p in perkind.items() if p['checks'] == 0]}")
        return 3
    return 0


if __name__ == "__main__":
    sys.exit(main())
