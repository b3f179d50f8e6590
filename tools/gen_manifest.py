"""Writes MANIFEST.json: every property with a check module is claimed."""
import json
import pathlib

V = pathlib.Path(__file__).resolve().parent.parent
TECH = {}
exec((V / "tools" / "techniques.py").read_text())
props = [json.loads(l) for l in (V / "properties.jsonl").read_text().splitlines() if l.strip()]
checks, na = [], []
for p in props:
    i = p["id"]
    if (V / "harness" / "checks" / f"{i.lower()}.py").exists():
        t, note = TECH[i]
        checks.append(dict(property=i, quick_cmd=f"bash run.sh {i} quick", thorough_cmd=f"bash run.sh {i} thorough",
                           technique=t, level="exploration", level_note=note))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na)
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1, ensure_ascii=False) + "\n")
print(len(checks), "claimed,", len(na), "not")
