import numpy as np
import gen
import build as B
import p05

BOUND = "all DAGs on up to 4 nodes; random trees and DAGs of up to 10 nodes; values with missing entries, single- and multi-indexed tables, in place, into new columns and into columns that are inputs of others, sum/max/min"


def cases(seed, tier):
    for n in (1, 2, 3, 4):
        for sp in gen.dags(n, ["a"], unique_siblings=False):
            for m in ("subgraph", "subtree", "update"):
                yield {"kind": "exhaustive", "sp": sp, "ts": n, "m": m, "out": m == "subtree", "fn": "sum", "index": ["node"], "cols": 1}
    rng = gen.rng_for(seed, "p10")
    for i in range(12000 if tier == "quick" else 40000):
        n = rng.randint(1, 10)
        sp = gen.rand_tree(rng, n, ["a", "b", "c"], False) if i % 3 == 0 else gen.rand_dag(rng, n, ["a", "b", "c"], False)
        yield {"kind": "random", "sp": sp, "ts": rng.randint(0, 9999), "m": rng.choice(["subgraph", "subgraph", "subtree", "update"]),
               "out": rng.choice([False, False, True, True, "shift"]), "fn": rng.choice(["sum", "sum", "max", "min"]), "cols": rng.randint(1, 3),
               "index": rng.choice([["node"], ["node"], ["node", "rank"], ["node", "rank", "thread"], ["node", "thread"]])}


def agg(fn, xs):
    xs = [x for x in xs if not np.isnan(x)]
    if not xs:
        return float("nan")
    return {"sum": sum, "max": max, "min": min}[fn](xs)


FN = {"sum": None, "max": lambda x: x.max(), "min": lambda x: x.min()}


def check(case):
    rng = gen.rng_for(case["ts"])
    allc = ["time", "x", "y"]
    cols = allc[: case["cols"]]
    gf, nodes = B.build_gf(case["sp"], rng, tuple(case["index"]), cols=allc + ["other"], exc=list(cols), inc=["other"] if case["m"] == "update" else [], nan=0.2, sort=rng.random() < 0.7)
    if case["m"] == "update":
        case = dict(case, fn="sum")
    outs = [c + " (inc)" for c in cols] if case["m"] == "update" or case["out"] else None
    if outs and case["m"] != "update" and case["out"] == "shift":
        outs = (allc + ["z"])[1: 1 + len(cols)]  # output columns that are the input of others
    start = {}
    for ix, row in zip(gf.dataframe.index, gf.dataframe.to_dict("records")):
        n, rest = (ix[0], tuple(ix[1:])) if isinstance(ix, tuple) else (ix, ())
        start[(id(n), rest)] = row
    rests = sorted({k[1] for k in start})
    snap = B.snapshot(gf.graph.roots)
    args = [list(cols)] + ([list(outs)] if outs else [])
    kw = {} if case["fn"] == "sum" else {"function": FN[case["fn"]]}
    if case["m"] == "update":
        gf.update_inclusive_columns()
        if sorted(gf.inc_metrics) != sorted(set(outs + ["other"])) or gf.exc_metrics != cols:
            yield "metric lists are %s / %s" % (gf.exc_metrics, gf.inc_metrics)
    elif case["m"] == "subgraph":
        gf.subgraph_sum(*args, **kw)
    else:
        gf.subtree_sum(*args, **kw)
    if B.snapshot(gf.graph.roots) != snap:
        yield "the graph was changed"
    got = {}
    for ix, row in zip(gf.dataframe.index, gf.dataframe.to_dict("records")):
        n, rest = (ix[0], tuple(ix[1:])) if isinstance(ix, tuple) else (ix, ())
        got[(id(n), rest)] = row
    if set(got) != set(start):
        yield "rows were added or lost"
        return
    memo = {}

    def sub(n, rest, c):
        k = (id(n), rest, c)
        if k not in memo:
            memo[k] = agg(case["fn"], [start[(id(n), rest)][c]] + [sub(x, rest, c) for x in n.children]) if n.children else start[(id(n), rest)][c]
        return memo[k]

    for n in nodes:
        for rest in rests:
            for i, c in enumerate(cols):
                w = sub(n, rest, c) if case["m"] == "subtree" else agg(case["fn"], [start[(id(x), rest)][c] for x in B.reach([n])])
                v = got[(id(n), rest)][outs[i] if outs else c]
                if not ((np.isnan(v) and np.isnan(w)) or abs(v - w) < 1e-9):
                    yield "%s of node %d %s is %s, expected %s" % (c, n._hatchet_nid, rest, v, w)
            touched = set(outs or cols)
            for c, v in start[(id(n), rest)].items():
                if c not in touched and repr(got[(id(n), rest)][c]) != repr(v):
                    yield "column %s changed" % c
