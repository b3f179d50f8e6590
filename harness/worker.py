"""Worker process: reads one JSON case per line, runs it against the code in /repo,
answers with one JSON result per line on the original stdout."""
import importlib
import json
import os
import sys
import warnings


def line_coverage(repo, path):
    """Record which lines of the code under test run (one event per line); returns a function that saves them."""
    mon, hit = sys.monitoring, {}
    root = os.path.join(os.path.realpath(repo), "feax") + os.sep

    def on_line(code, line):
        if code.co_filename.startswith(root):
            hit.setdefault(code.co_filename[len(root):], set()).add(line)
        return mon.DISABLE

    mon.use_tool_id(mon.COVERAGE_ID, "verif")
    mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, on_line)
    mon.set_events(mon.COVERAGE_ID, mon.events.LINE)

    def save():
        with open(path, "w") as f:
            json.dump({k: sorted(v) for k, v in hit.items()}, f)
    return save


def main():
    prop = sys.argv[1]
    out = os.fdopen(os.dup(1), "w")
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)                      # prints of the code under test go nowhere
    if not os.environ.get("VERIF_DEBUG"):
        os.dup2(devnull, 2)
    warnings.simplefilter("ignore")
    repo = os.environ.get("VERIF_REPO", "/repo")
    sys.path.insert(0, repo)
    save = None
    if os.environ.get("VERIF_COV"):
        save = line_coverage(repo, os.path.join(os.environ["VERIF_COV"], f"{prop}-{os.getpid()}.json"))
    module = importlib.import_module(f"harness.checks.{prop.lower()}")
    import feax
    assert os.path.realpath(feax.__file__).startswith(os.path.realpath(repo)), feax.__file__
    from harness.mon import run_one
    n = 0
    for line in sys.stdin:
        case = json.loads(line)
        res = run_one(module, case)
        out.write(json.dumps(res) + "\n")
        out.flush()
        n += 1
        if save:
            save()
        if n % 12 == 0:
            import jax
            jax.clear_caches()


if __name__ == "__main__":
    main()
