"""addfix.py PROP COMMIT WHAT: record a fixed defect in known_findings.json"""
import json
import pathlib
import sys
p = pathlib.Path(__file__).resolve().parent.parent / "known_findings.json"
k = json.loads(p.read_text())
k["findings"].append(dict(property=sys.argv[1], status="fixed", what=f"fixed: property={sys.argv[1]} {sys.argv[2]} {sys.argv[3]}"))
p.write_text(json.dumps(k, indent=1) + "\n")
