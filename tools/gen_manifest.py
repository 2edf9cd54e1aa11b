"""Writes MANIFEST.json from the notes below and the contracts that exist."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
NA = {"P20": "dropping index levels is one pandas groupby/agg call per column class: the guarantee is the dependency's, no function of hatchet carries an argument a contract could decide"}
notes = json.load(open(os.path.join(HERE, "tools", "level_notes.json")))
checks, na = [], []
for p in props:
    pid = p["id"]
    if pid in NA:
        na.append({"property": pid, "reason": NA[pid]})
        continue
    has = os.path.exists(os.path.join(HERE, "contracts", pid.lower() + ".py"))
    checks.append({
        "property": pid,
        "quick_cmd": "python3 check.py %s --tier quick" % pid,
        "thorough_cmd": "python3 check.py %s --tier thorough" % pid,
        "evidence_file": "evidence/%s.json" % pid,
        "technique": ("contract-based deductive verification of the real Python source (pyvc: verification conditions from /repo's AST, SMT back ends)"
                      + "; bounded executed contracts for what no contract reaches" if has else
                      "bounded stand-in: executable contracts run on the real code over generated inputs (no obligations discharged yet)"),
        "level": "proof" if has else "other",
        "level_note": notes.get(pid, "bounded: the executable contract held on every generated input; nothing is proved"),
    })
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
           "notes": "See DESIGN.md. Known findings and fixes are listed in known_findings.json."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
