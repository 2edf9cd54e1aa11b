"""Bounded runtime-contract checks of the real code (run by /opt/venv/bin/python, PYTHONPATH=/repo).

usage: main.py PID --seed N --tier quick|thorough --out FILE [--budget SECONDS] [--workers N]
       main.py PID --replay FILE      (exit 1 and print the errors if the stored case fails)
"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import warnings

warnings.filterwarnings("ignore")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(3000)


def run_case(mod, case):
    """Errors of one case: what the property check says, or an exception escaping from the code under test."""
    try:
        return list(mod.check(case))
    except Exception as e:  # noqa: B902
        tb = traceback.format_exc().strip().splitlines()
        return ["%s: %s | %s" % (type(e).__name__, e, " | ".join(x.strip() for x in tb[-8:]))]


def shrink(mod, case, deadline):
    """Greedy reduction of graph specs: drop a childless or parentless node, an edge, or a list entry."""
    best = case
    changed = True
    while changed and time.time() < deadline:
        changed = False
        for cand in getattr(mod, "shrinks", default_shrinks)(best):
            if time.time() > deadline:
                break
            if run_case(mod, cand):
                best, changed = cand, True
                break
    return best


def default_shrinks(case):
    for k in ("sp", "sp2"):
        sp = case.get(k)
        if not sp:
            continue
        n = len(sp["f"])
        for i in range(n - 1, -1, -1):
            if n == 1:
                break
            keep = [j for j in range(n) if j != i]
            mp_ = {j: t for t, j in enumerate(keep)}
            ch = [[mp_[c] for c in sp["c"][j] if c != i] for j in keep]
            roots = [mp_[r] for r in sp["r"] if r != i]
            has = {c for x in ch for c in x}
            for j in range(n - 1):
                if j not in has and j not in roots:
                    roots.append(j)
            new = dict(case)
            new[k] = {"f": [sp["f"][j] for j in keep], "c": ch, "r": roots}
            for extra in ("keep", "nid"):
                if isinstance(case.get(extra), list) and len(case[extra]) == n:
                    new[extra] = [case[extra][j] for j in keep]
            if isinstance(case.get("start"), int):
                new["start"] = min(case["start"], n - 2)
            yield new


HANG = 60  # seconds: a case takes well under a second
DEATHS = {signal.SIGALRM: "the code under test did not return within %d s" % HANG, signal.SIGSEGV: "the process crashed (segmentation fault)",
          signal.SIGABRT: "the process aborted", signal.SIGBUS: "the process crashed (bus error)", signal.SIGFPE: "the process crashed (arithmetic error)"}


def worker(pid, seed, tier, w, W, budget, q, at):
    signal.signal(signal.SIGALRM, signal.SIG_DFL)
    mod = importlib.import_module(pid.lower())
    t0 = time.time()
    n, fails, nontriv, done = 0, [], {}, False
    exhaustive = 0
    for idx, case in enumerate(mod.cases(seed, tier)):
        if idx % W != w:
            continue
        if time.time() - t0 > budget:
            break
        at.value = idx
        signal.alarm(HANG)
        errs = run_case(mod, case)
        signal.alarm(0)
        n += 1
        k = case.get("kind", "case")
        nontriv[k] = nontriv.get(k, 0) + 1
        if errs:
            signal.alarm(HANG)
            small = shrink(mod, case, time.time() + 20)
            signal.alarm(0)
            fails.append({"case": small, "errors": run_case(mod, small) or errs})
            if len(fails) >= 3:
                break
    else:
        done = True
    q.put((n, nontriv, fails, done, exhaustive))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--out")
    ap.add_argument("--budget", type=float, default=60)
    ap.add_argument("--workers", type=int, default=8)
    ap.add_argument("--replay")
    a = ap.parse_args()
    mod = importlib.import_module(a.pid.lower())
    if a.replay:
        case = json.load(open(a.replay))
        case = case.get("case", case)
        print(json.dumps(case), flush=True)
        signal.signal(signal.SIGALRM, signal.SIG_DFL)
        signal.alarm(HANG)  # ends the process: the case fails
        errs = run_case(mod, case)
        for e in errs:
            print("FAILS:", e)
        if not errs:
            print("holds for this case")
        sys.exit(1 if errs else 0)
    t0 = time.time()
    if hasattr(mod, "prepare"):
        mod.prepare()
    q = mp.Queue()
    ats = [mp.Value("q", -1, lock=False) for w in range(a.workers)]
    ps = [mp.Process(target=worker, args=(a.pid, a.seed, a.tier, w, a.workers, a.budget, q, ats[w])) for w in range(a.workers)]
    for p in ps:
        p.start()
    res = []
    alive_deadline = t0 + a.budget + 120
    while len(res) < len(ps):
        try:
            res.append(q.get(timeout=5))
        except Exception:
            dead = sum(-(p.exitcode or 0) in DEATHS for p in ps)
            if time.time() > alive_deadline or not any(p.is_alive() for p in ps) or (dead and len(res) + dead >= len(ps)):
                break
    for p in ps:
        if p.is_alive():
            p.terminate()
        p.join()
    kinds, fails = {}, []
    died = {at.value: DEATHS[-p.exitcode] for p, at in zip(ps, ats) if p.exitcode and -p.exitcode in DEATHS and at.value >= 0}
    if died:
        for idx, case in enumerate(mod.cases(a.seed, a.tier)):
            if idx in died:
                fails.append({"case": case, "errors": [died.pop(idx)]})
                if not died:
                    break
    for n, k, f, d, e in res:
        for x, y in k.items():
            kinds[x] = kinds.get(x, 0) + y
        fails += f
    fails.sort(key=lambda f: len(json.dumps(f["case"])))
    out = {
        "property": a.pid, "bound": mod.BOUND, "cases": sum(r[0] for r in res), "kinds": kinds,
        "complete": all(r[3] for r in res) and len(res) == len(ps), "workers_lost": len(ps) - len(res),
        "failures": fails, "wall_s": round(time.time() - t0, 2),
    }
    s = json.dumps(out, indent=1)
    if a.out:
        open(a.out, "w").write(s)
    else:
        print(s[:3000])
    sys.exit(0)


if __name__ == "__main__":
    main()
