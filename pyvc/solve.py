"""Discharges obligations with SMT solvers run as separate processes (nothing is cached between runs)."""
import concurrent.futures as cf
import os
import shutil
import subprocess
import tempfile
import time
import z3
from .core import *

Z3N, Z3, CVC5 = shutil.which("z3-new"), shutil.which("z3"), shutil.which("cvc5")


def strategies(tier):
    k = 1 if tier == "quick" else 3
    return [
        ("z3-new", [Z3N, "auto_config=false", "smt.mbqi=false", "smt.solve_eqs=false", "-T:%d" % (6 * k)], 6 * k),
        ("cvc5", [CVC5, "--tlimit=%d" % (8000 * k), "--lang=smt2"], 8 * k),
        ("z3-new mbqi", [Z3N, "-T:%d" % (12 * k)], 12 * k),
        ("z3-new seed", [Z3N, "auto_config=false", "smt.mbqi=false", "smt.random_seed=7", "smt.qi.eager_threshold=50", "-T:%d" % (25 * k)], 25 * k),
        ("z3-4.8", [Z3, "auto_config=false", "smt.mbqi=false", "-T:%d" % (25 * k)], 25 * k),
        ("cvc5 sat", [CVC5, "--full-saturate-quant", "--tlimit=%d" % (30000 * k), "--lang=smt2"], 30 * k),
    ]


def sorts_in(ts):
    seen, todo, out = set(), list(ts), set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
            for i in range(x.num_vars()):
                out.add(x.var_sort(i))
            for i in range(x.num_patterns()):
                todo.append(x.pattern(i))
            continue
        out.add(x.sort())
        todo.extend(x.children())
    return out


def decls_in(ts):
    seen, todo, out = set(), list(ts), set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
            continue
        if z3.is_app(x):
            out.add(x.decl().name())
        todo.extend(x.children())
    return out


_names = {}


def names_in(t):
    """Names of the sorts and functions of a term (kept: most facts occur in many obligations)."""
    r = _names.get(t.get_id())
    if r is None:
        r = _names[t.get_id()] = (t, {str(s) for s in sorts_in([t])}, decls_in([t]))
    return r


def theory(ts):
    """Axioms of the sequence types that occur."""
    ax, names, decls = [], set(), set()
    for t in ts:
        _, a, b = names_in(t)
        names |= a
        decls |= b
    occ = any(d.startswith("occ_") for d in decls)
    for t, th in list(SeqTheory.cache.items()):
        if str(th.S) in names:
            if occ not in th.kept:
                th.kept[occ] = th.axioms(occ)
            ax += th.kept[occ]
    x = z3.Const("x", NODE)
    inv = fn("node_at", z3.IntSort(), NODE)
    if "addr" in decls:
        ax.append(z3.ForAll([x], inv(addr(x)) == x, patterns=[addr(x)]))
    return ax


def to_smt2(ob):
    s = z3.Solver()
    fs = list(ob.facts) + list(ob.lits)
    if isinstance(ob.goal, bool):
        ob.goal = z3.BoolVal(ob.goal)
    ax = theory(fs + [ob.goal])
    for f in ax + fs:
        s.add(f)
    s.add(z3.Not(ob.goal))
    txt = s.to_smt2()
    return "(set-logic ALL)\n" + "\n".join(l for l in txt.splitlines() if not l.startswith("(set-info") and not l.startswith("; ") )


def run(cmd, path, tmo):
    t = time.time()
    try:
        p = subprocess.run(cmd + [path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=tmo + 5)
        out = p.stdout
    except subprocess.TimeoutExpired:
        return "timeout", time.time() - t, ""
    first = [l for l in out.splitlines() if l in ("sat", "unsat", "unknown", "timeout")]
    return (first[0] if first else "error"), time.time() - t, out[:300]


def attempt(args):
    """Runs the given strategies until one proves the obligation."""
    name, text, kind, strats, deadline = args
    fd, path = tempfile.mkstemp(suffix=".smt2", prefix="pyvc")
    with os.fdopen(fd, "w") as f:
        f.write(text)
    total, tried = 0.0, []
    try:
        if kind == "cover":
            r, t, _ = run([Z3N, "auto_config=false", "smt.mbqi=false", "smt.solve_eqs=false", "-T:3"], path, 3)
            return {"name": name, "kind": kind, "result": r, "time": round(t, 3)}
        for back, cmd, tmo in strats:
            if time.time() > deadline:
                tried.append("budget used up")
                break
            r, t, o = run(cmd, path, tmo)
            total += t
            if r == "unsat":
                return {"name": name, "kind": kind, "ok": True, "backend": back, "time": round(total, 3)}
            tried.append("%s: %s %.1fs%s" % (back, r, t, " " + o[:120].strip() if r == "error" and "timeout" not in o else ""))
        return {"name": name, "kind": kind, "ok": False, "time": round(total, 3), "why": "; ".join(tried)}
    finally:
        os.unlink(path)


def discharge(obls, tier, budget, workers=8):
    """obls: (name, smt2 text, kind) triples. A fast pass over all, then the slower strategies on what is left."""
    deadline = time.time() + budget
    st = strategies(tier)
    with cf.ThreadPoolExecutor(workers) as ex:
        res = list(ex.map(attempt, [(n, t, k, st[:2], deadline) for n, t, k in obls]))
        left = [i for i, r in enumerate(res) if r["kind"] != "cover" and not r["ok"]]
        # many failures mean a broken contract, not a hard obligation: the rest is reported as it is
        for i, r in zip(left[:24], ex.map(attempt, [obls[i] + (st[2:], deadline) for i in left[:24]])):
            r["time"] = round(r["time"] + res[i]["time"], 3)
            if not r["ok"]:
                r["why"] = res[i]["why"] + "; " + r["why"]
            res[i] = r
    return res
