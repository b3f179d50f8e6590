"""Monitor: the oracle side.  Every comparison made on an observed execution goes
through one of these methods, which count what was seen and record violations."""
import hashlib
import json
import traceback

import numpy as np


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, (np.bool_, bool)):
        return bool(x)
    if isinstance(x, (np.integer, int)):
        return int(x)
    if isinstance(x, (np.floating, float)):
        return float(x)
    if isinstance(x, np.ndarray):
        return x.tolist() if x.size <= 24 else f"array{tuple(x.shape)}"
    if x is None or isinstance(x, str):
        return x
    return repr(x)[:200]


class Monitor:
    def __init__(self, prop, case):
        self.prop, self.case = prop, case
        self.counts = {}          # observation name -> number of oracle evaluations
        self.worst = {}           # observation name -> largest error/tolerance seen
        self.events = {}          # free-form event counters
        self.sigs = set()         # distinct non-trivial situations observed
        self.violations = []
        self.sample = None

    # -- recording ---------------------------------------------------------
    def event(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + int(n)

    def seen(self, *sig):
        """A distinct, non-trivial situation was really observed."""
        self.sigs.add(json.dumps(jsonable(sig), sort_keys=True))

    def note(self, **kw):
        self.sample = jsonable(kw)

    def _count(self, name, ratio=None):
        self.counts[name] = self.counts.get(name, 0) + 1
        if ratio is not None and np.isfinite(ratio):
            self.worst[name] = max(self.worst.get(name, 0.0), float(ratio))

    def violate(self, name, detail):
        if len(self.violations) < 8:
            self.violations.append(dict(
                key=f"{self.case.get('kind', '')}/{name}", name=name,
                detail=jsonable(detail), case=jsonable(self.case)))

    # -- oracles -----------------------------------------------------------
    def true(self, name, cond, **detail):
        self._count(name)
        if not bool(cond):
            self.violate(name, detail)
            return False
        return True

    def close(self, name, got, want, rtol=1e-8, atol=0.0, scale=None, **detail):
        got = np.asarray(got)
        want = np.asarray(want)
        if got.shape != want.shape:
            self._count(name)
            self.violate(name, dict(detail, why="shape", got=got.shape, want=want.shape))
            return False
        if got.size == 0:
            return True
        sc = float(np.max(np.abs(want))) if scale is None else float(scale)
        tol = rtol * sc + atol
        if not np.all(np.isfinite(got)):
            self._count(name)
            self.violate(name, dict(detail, why="non-finite", n=int(np.sum(~np.isfinite(got)))))
            return False
        diff = np.abs(got.astype(complex) - want.astype(complex)) if np.iscomplexobj(got) else \
            np.abs(got.astype(float) - want.astype(float))
        err = float(np.max(diff))
        if not err <= max(tol, 1e-300):
            self._count(name)
            i = np.unravel_index(int(np.argmax(diff)), diff.shape) if diff.ndim else ()
            self.violate(name, dict(detail, err=err, tol=tol, scale=sc, at=list(map(int, i)),
                                    got=float(np.real(got[i])), want=float(np.real(want[i]))))
            return False
        self._count(name, err / tol if tol > 0 else 0.0)
        return True

    def equal(self, name, got, want, **detail):
        got = np.asarray(got)
        want = np.asarray(want)
        ok = got.shape == want.shape and bool(np.all(got == want))
        return self.true(name, ok, got=got, want=want, **detail)

    def raises(self, name, fn, exc=Exception, **detail):
        try:
            fn()
        except exc:
            return self.true(name, True)
        except Exception as e:      # noqa: BLE001
            return self.true(name, False, why=f"raised {type(e).__name__}: {e}"[:300], **detail)
        return self.true(name, False, why="did not raise", **detail)

    def result(self):
        return dict(counts=self.counts, worst=self.worst, events=self.events,
                    sigs=sorted(self.sigs), violations=self.violations, sample=self.sample)


def run_one(module, case):
    """Run one case of a property module under a monitor; an exception escaping
    from the library on a valid input is itself a violation."""
    mon = Monitor(module.ID, case)
    try:
        getattr(module, "case_" + case["kind"])(case, mon)
    except Exception as e:          # noqa: BLE001
        tb = traceback.extract_tb(e.__traceback__)
        where = [f"{f.filename.split('/')[-1]}:{f.name}" for f in tb][-6:]
        mon.violate("exception", dict(type=type(e).__name__, msg=str(e)[:600], where=where))
    return mon.result()


def rng_for(case):
    h = hashlib.sha256(json.dumps([case.get("kind"), case.get("seed", 0), case.get("i", 0)]).encode())
    return np.random.default_rng(int.from_bytes(h.digest()[:8], "little"))
