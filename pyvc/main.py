"""python3-vt -m pyvc.main PID [--tier T] [--out FILE] [--only SUBSTR] [--show] [--dump DIR]"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

sys.setrecursionlimit(20000)
from . import front, exec as ex, solve
from .core import Unsupported, literal_axioms
from . import core


def gen_one(a):
    """Obligations of one function and view, as SMT-LIB text (runs in its own process)."""
    pid, sid, view = a
    mod = importlib.import_module("contracts." + pid.lower())
    reg = mod.build()
    spec = reg.specs[sid]
    try:
        src = front.module(spec.file) if not hasattr(mod, "load") else mod.load(spec.file)
        func = src.by_qual.get(spec.qual)
        if func is None:
            raise Unsupported("function %s not found in %s" % (spec.qual, spec.file))
        e = ex.Exec(reg, spec, view, func)
        orig = ex.Obligation.__init__

        def init(self, *args, **kw):
            orig(self, *args, **kw)
            self.lits = literal_axioms()
        ex.Obligation.__init__ = init
        obls = e.run()
        out, seen = [], {}
        for o in obls:
            txt = solve.to_smt2(o)
            key = (o.name, hash(txt))
            if key in seen:
                continue
            seen[key] = 1
            out.append((o.name, txt, o.kind))
        return sid, view, out, None, sorted(e.used_specs)
    except Unsupported as x:
        return sid, view, [], "outside the subset the verifier understands: %s" % x, []
    except Exception as x:  # noqa: B902
        return sid, view, [], "verification-condition generation failed: %s: %s | %s" % (type(x).__name__, x, traceback.format_exc()[-1500:]), []


def gen_lemmas(pid):
    """Obligations about the specification alone (lemmas), as SMT-LIB text."""
    core.reset_names()
    reg = importlib.import_module("contracts." + pid.lower()).build()
    out = []
    for name, f in reg.lemmas:
        facts, goal = f()
        o = ex.Obligation("lemma: " + name, facts, goal, 0)
        o.lits = literal_axioms()
        out.append((o.name, solve.to_smt2(o), "proof"))
        c = ex.Obligation("lemma: %s cover: hypotheses" % name, facts, core.z3.BoolVal(False), 0, "cover")
        c.lits = literal_axioms()
        out.append((c.name, solve.to_smt2(c), "cover"))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--budget", type=float, default=600)
    ap.add_argument("--out")
    ap.add_argument("--only")
    ap.add_argument("--show", action="store_true")
    ap.add_argument("--dump")
    a = ap.parse_args()
    t0 = time.time()
    pid = a.pid
    mod = importlib.import_module("contracts." + pid.lower())
    reg = mod.build()
    jobs = [(pid, s.id, v) for s in reg.specs.values() if s.trusted is None for v in s.views if not a.only or a.only in s.id + "[" + v + "]"]
    results, obls, funcs = [], [], []
    with mp.Pool(min(8, max(1, len(jobs)))) as pool:
        for sid, view, out, err, used in pool.imap_unordered(gen_one, jobs):
            nm = sid + ("[%s]" % view if view else "")
            if err:
                results.append({"name": nm + " obligations can be generated", "ok": False, "why": err, "func": sid, "kind": "proof", "time": 0})
            proofs = [o for o in out if o[2] == "proof"]
            if not err and not proofs:
                results.append({"name": nm + " has obligations", "ok": False, "why": "zero obligations", "func": sid, "kind": "proof", "time": 0})
            funcs.append({"function": sid, "view": view, "obligations": len(proofs), "calls_by_contract": used})
            obls += [(sid, o) for o in out]
    if reg.lemmas and not a.only:
        obls += [("lemmas", o) for o in gen_lemmas(pid)]
    tg = time.time() - t0
    order = list(range(len(obls)))
    if a.dump:
        os.makedirs(a.dump, exist_ok=True)
        for i, (sid, o) in enumerate(obls):
            open(os.path.join(a.dump, "%03d.smt2" % i), "w").write("; " + o[0] + "\n" + o[1])
    res = solve.discharge([o for _, o in obls], a.tier, a.budget)
    covers = {}
    for (sid, o), r in zip(obls, res):
        r["func"] = sid
        if r["kind"] == "cover":
            key = r["name"].split(" @L")[0]
            covers.setdefault(key, []).append(r["result"])
        else:
            results.append(r)
    for k, v in covers.items():
        if all(x == "unsat" for x in v):
            results.append({"name": k + " is reachable (contract not vacuous)", "ok": False, "why": "the assumptions are contradictory", "func": k.split(" ")[0], "kind": "proof", "time": 0})
    out = {"obligations": results, "functions": sorted(funcs, key=lambda f: f["function"]), "assumptions": reg.assumptions, "trusted": reg.trusted + ["contract of %s: %s" % (s.id, s.trusted) for s in reg.specs.values() if s.trusted],
           "covers": {"checked": len(covers), "not_contradictory": sum(any(x != "unsat" for x in v) for v in covers.values())}, "generation_s": round(tg, 2), "wall_s": round(time.time() - t0, 2)}
    if a.out:
        json.dump(out, open(a.out, "w"), indent=1)
    bad = [r for r in results if not r["ok"]]
    if a.show:
        for i, ((sid, o), r) in enumerate(zip(obls, res)):
            print("%03d %-8s %6.2f %s" % (i, "ok" if r.get("ok") else r.get("result") or "FAIL", r["time"], r["name"]))
    for r in bad:
        print("FAILED", r["name"], "|", r.get("why", ""))
    print("%s: %d/%d obligations, generation %.1f s, total %.1f s" % (pid, len(results) - len(bad), len(results), tg, time.time() - t0))
    sys.exit(1 if bad else 0)


if __name__ == "__main__":
    main()
