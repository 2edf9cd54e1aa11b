#!/usr/bin/env python3
"""check.py PID [--tier quick|thorough]: decides one property on /repo's current tree.

1. proof: pyvc generates the obligations of every function under contract from /repo's source and hands each to SMT
   solvers (absent for properties that have no contracts, which are then labelled bounded);
2. bounded: the same contracts, executed on the real code over generated inputs; it stands in for what no contract
   reaches, and supplies the failing input when an obligation fails.
Exit 0: held on everything explored.  Exit 1 with a VIOLATION line otherwise.
"""
import argparse
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
BUDGET = {"quick": {"bounded": 60, "proof": 420, "search": 150}, "thorough": {"bounded": 900, "proof": 3000, "search": 900}}


def run_bounded(pid, tier, seed, budget, out):
    if os.path.exists(out):
        os.unlink(out)
    cmd = ["bash", os.path.join(HERE, "rt", "run.sh"), pid, "--seed", str(seed), "--tier", tier, "--budget", str(budget), "--out", out]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if not os.path.exists(out):
        # the code cannot even be imported or prepared: nothing can hold
        return {"property": pid, "bound": "", "cases": 0, "kinds": {}, "complete": False, "workers_lost": 0, "wall_s": 0,
                "failures": [{"case": {"kind": "startup"}, "errors": [p.stdout[-2000:]]}]}
    return json.load(open(out))


def run_proof(pid, tier, budget, out):
    if not os.path.exists(os.path.join(HERE, "contracts", pid.lower() + ".py")):
        return None
    if os.path.exists(out):
        os.unlink(out)
    cmd = ["python3-vt", "-m", "pyvc.main", pid, "--tier", tier, "--budget", str(budget), "--out", out]
    p = subprocess.run(cmd, cwd=HERE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if not os.path.exists(out):
        return {"obligations": [{"name": "pyvc:startup", "ok": False, "why": p.stdout[-3000:]}], "functions": [], "assumptions": [], "trusted": [], "wall_s": 0}
    return json.load(open(out))


def known(pid):
    """Known findings of this property: {id: {...}} with 'errors_contain' (all must occur in an error of the failing case)."""
    path = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(path):
        return []
    return [k for k in json.load(open(path))["findings"] if k["property"] == pid]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or "1"))
    ap.add_argument("--no-proof", action="store_true")
    a = ap.parse_args()
    pid, tier = a.pid, a.tier if a.tier in BUDGET else "quick"
    t0 = time.time()
    for d in ("evidence", "replay"):
        os.makedirs(os.path.join(HERE, d), exist_ok=True)
    b = BUDGET[tier]
    rp = lambda n: os.path.join(HERE, "replay", "%s-%s" % (pid, n))
    bounded = run_bounded(pid, tier, a.seed, b["bounded"], rp("bounded.json"))
    proof = None if a.no_proof else run_proof(pid, tier, b["proof"], rp("proof.json"))
    failures = bounded["failures"]
    failed = [o for o in proof["obligations"] if not o["ok"]] if proof else []
    if proof is not None and not proof["obligations"]:
        failed = [{"name": "pyvc:no obligations generated", "ok": False, "why": "zero obligations"}]
    searched = None
    if failed and not failures:
        # look harder for an input that shows the failed obligation on the real code
        searched = run_bounded(pid, "thorough", a.seed + 1000, b["search"], rp("search.json"))
        failures = searched["failures"]
    kf = known(pid)
    real, listed = [], set()
    for f in failures:
        hit = [k for k in kf if all(any(s in e for e in f["errors"]) for s in k["errors_contain"])]
        if hit:
            listed.add(hit[0]["id"])
        else:
            real.append(f)
    for k in kf:
        if k["id"] in listed:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    viol = []
    if real:
        path = rp("case.json")
        json.dump({"property": pid, "case": real[0]["case"], "errors": real[0]["errors"],
                   "failed_obligations": [o["name"] for o in failed],
                   "replay_cmd": "bash rt/run.sh %s --replay %s" % (pid, path)}, open(path, "w"), indent=1)
        viol.append("VIOLATION property=%s replay=%s" % (pid, path))
        print("failing case:", json.dumps(real[0]["case"])[:1500])
        for e in real[0]["errors"][:5]:
            print("  ", e[:1500])
        for o in failed[:20]:
            print("failed obligation:", o["name"])
    elif failed:
        path = rp("obligations.json")
        json.dump({"property": pid, "failed_obligations": failed,
                   "note": "the verifier did not accept these obligations; no failing input was found by the bounded search (%d cases)"
                           % (bounded["cases"] + (searched["cases"] if searched else 0))}, open(path, "w"), indent=1)
        viol.append("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, path))
        for o in failed[:20]:
            print("failed obligation:", o["name"], "|", str(o.get("why", ""))[:300])
    if bounded["cases"] == 0 and not viol:
        print("error: the bounded check explored nothing")
        sys.exit(2)
    write_evidence(pid, tier, a.seed, t0, bounded, proof, len(viol))
    for v in viol:
        print(v)
    n = len(proof["obligations"]) if proof else 0
    print("%s %s: obligations %d/%d discharged, bounded cases %d, %.1f s" % (pid, tier, n - len([o for o in failed if proof]), n, bounded["cases"], time.time() - t0))
    sys.exit(1 if viol else 0)


def write_evidence(pid, tier, seed, t0, bounded, proof, nviol):
    bd = {"bound": bounded["bound"], "cases": bounded["cases"], "kinds": bounded["kinds"], "completed_enumeration": bounded["complete"],
          "wall_s": bounded["wall_s"], "label": "bounded: executed contracts, never counted as proved"}
    ev = {"property": pid, "tier": tier, "seed": seed, "wall_s": round(time.time() - t0, 2), "violations": nviol}
    if proof is not None:
        obs = proof["obligations"]
        ok = [o for o in obs if o["ok"]]
        by = {}
        for o in ok:
            by[o.get("backend", "?")] = by.get(o.get("backend", "?"), 0) + 1
        per = {}
        for o in obs:
            d = per.setdefault(o.get("func", "?"), {"obligations": 0, "discharged": 0})
            d["obligations"] += 1
            d["discharged"] += bool(o["ok"])
        ev["level"] = "proof"
        ev["coverage"] = {
            "obligations": len(obs), "discharged": len(ok),
            "checker_cmd": "python3-vt -m pyvc.main %s --tier %s (SMT back ends: z3-new, z3, cvc5)" % (pid, tier),
            "trusted_base": proof["trusted"], "functions_under_contract": proof["functions"], "per_function": per,
            "discharged_by_backend": by, "solver_time_s": round(sum(o.get("time", 0) for o in obs), 2),
            "obligation_list": ["%s [%s %.2fs]" % (o["name"], o.get("backend", "failed"), o.get("time", 0)) for o in obs],
            "vacuity_covers": proof.get("covers", {}), "bounded_stand_in": bd}
        ev["assumptions"] = proof["assumptions"]
    else:
        ev["level"] = "other"
        ev["coverage"] = {"explanation": "bounded only: the property's contract is executed on the real code over generated inputs (nothing counted as proved)",
                          "evaluations": bounded["cases"], "bounded_stand_in": bd}
        ev["assumptions"] = ["outside the stated bound nothing is claimed"]
    path = os.path.join(HERE, "evidence", pid + ".json")
    json.dump(ev, open(path, "w"), indent=1)


if __name__ == "__main__":
    main()
