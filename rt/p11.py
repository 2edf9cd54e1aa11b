import numpy as np
import gen
import build as B
from hatchet.graphframe import GraphFrame

BOUND = "all DAGs on up to 4 nodes; random trees and DAGs of up to 10 nodes, values with missing entries, single- and multi-indexed tables, several metrics (integers, a name chosen as text or in a list, an old column of the generated name); exclusive-inclusive-exclusive round trips on trees"


def cases(seed, tier):
    for n in (1, 2, 3, 4):
        for sp in gen.dags(n, ["a"], unique_siblings=False):
            yield {"kind": "exhaustive", "sp": sp, "ts": n, "index": ["node"], "sel": None, "exc": [], "trip": False}
    rng = gen.rng_for(seed, "p11")
    for i in range(12000 if tier == "quick" else 40000):
        n = rng.randint(1, 10)
        sp = gen.rand_tree(rng, n, ["a", "b", "c"], False) if i % 2 else gen.rand_dag(rng, n, ["a", "b", "c"], False)
        yield {"kind": "random", "sp": sp, "ts": rng.randint(0, 9999), "trip": bool(i % 4 == 1), "sel": rng.choice([None, None, None, ["time (inc)"], ["cycles"], "time (inc)", ["count", "f (x)(inc)"], "count"]), "stale": rng.random() < 0.2,
               "exc": rng.choice([[], [], ["time"]]), "index": rng.choice([["node"], ["node"], ["node", "rank"], ["node", "rank", "thread"]])}


def tab(gf):
    out = {}
    for ix, row in zip(gf.dataframe.index, gf.dataframe.to_dict("records")):
        n, rest = (ix[0], tuple(ix[1:])) if isinstance(ix, tuple) else (ix, ())
        out[(id(n), rest)] = row
    return out


same = lambda a, b: (np.isnan(a) and np.isnan(b)) or abs(a - b) < 1e-9  # noqa: E731


def check(case):
    rng = gen.rng_for(case["ts"])
    if case["trip"]:
        gf, nodes = B.build_gf(case["sp"], rng, tuple(case["index"]), cols=["time"], exc=["time"], inc=[])
        orig = {k: r["time"] for k, r in tab(gf).items()}
        gf.update_inclusive_columns()
        g2 = GraphFrame(gf.graph, gf.dataframe.drop(columns=["time"]), [], list(gf.inc_metrics))
        g2.generate_exclusive_columns()
        t = tab(g2)
        for k, v in orig.items():
            if not same(t[k]["time"], v):
                yield "round trip gives %s instead of %s" % (t[k]["time"], v)
        if g2.exc_metrics != ["time"]:
            yield "exclusive metrics after the round trip: %s" % g2.exc_metrics
        return
    cols = ["time (inc)", "cycles", "q", "f (x)(inc)", "me (inc)"] + case["exc"] + (["f (x)"] if case.get("stale") else [])
    inc = ["time (inc)", "cycles", "cat", "count", "f (x)(inc)", "me (inc)"]
    gf, nodes = B.build_gf(case["sp"], rng, tuple(case["index"]), cols=cols, exc=list(case["exc"]), inc=inc, nan=0.15, sort=rng.random() < 0.7)
    gf.dataframe["cat"] = "text"
    gf.dataframe["count"] = [rng.randint(0, 99) for _ in range(len(gf.dataframe))]
    start = tab(gf)
    exc_list, snap = gf.exc_metrics, B.snapshot(gf.graph.roots)
    exc0 = list(exc_list)
    want = {}
    if "time" not in case["exc"]:
        want["time"] = "time (inc)"
    want["cycles (exc)"] = "cycles"
    want.update({"count (exc)": "count", "f (x)": "f (x)(inc)", "me": "me (inc)"})
    if case["sel"]:
        asked = [case["sel"]] if isinstance(case["sel"], str) else case["sel"]
        want = {e: i for e, i in want.items() if i in asked}
    if case["sel"] is None:
        gf.generate_exclusive_columns()
    else:
        gf.generate_exclusive_columns(case["sel"] if isinstance(case["sel"], str) else list(case["sel"]))
    t = tab(gf)
    if set(t) != set(start) or B.snapshot(gf.graph.roots) != snap:
        yield "rows or graph changed"
        return
    if exc_list != exc0:
        yield "the metric list shared with others was changed"
    if sorted(gf.exc_metrics) != sorted(set(exc0) | set(want)) or gf.inc_metrics != inc:
        yield "metric lists are %s / %s" % (gf.exc_metrics, gf.inc_metrics)
    if set(gf.dataframe.columns) != set(start[next(iter(start))]) | set(want):
        yield "columns are %s" % list(gf.dataframe.columns)
        return
    for n in nodes:
        for rest in sorted({k[1] for k in start}):
            k = (id(n), rest)
            for e, i in want.items():
                w = start[k][i] - sum(0 if np.isnan(start[(id(c), rest)][i]) else start[(id(c), rest)][i] for c in n.children)
                if not same(t[k][e], w):
                    yield "%s of node %d %s is %s, expected %s" % (e, n._hatchet_nid, rest, t[k][e], w)
            for c, v in start[k].items():
                if c not in want and repr(t[k][c]) != repr(v):
                    yield "column %s changed" % c
