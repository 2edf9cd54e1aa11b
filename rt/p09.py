import pandas as pd
import gen
import build as B
import p05
from hatchet.graphframe import GraphFrame, EmptyFilter

BOUND = "random graphs of up to 9 nodes, single- and multi-indexed tables, threshold/name/node/parity predicates, object and text queries, 1 to 4 worker processes"


def cases(seed, tier):
    rng = gen.rng_for(seed, "p09")
    for i in range(8000 if tier == "quick" else 30000):
        n = rng.randint(1, 9)
        labels = gen.rand_frames(rng, rng.randint(1, 5))
        sp = gen.rand_tree(rng, n, labels, True) if i % 2 else gen.rand_dag(rng, n, labels, True)
        yield {"kind": "callable" if i % 4 else "query", "sp": sp, "ts": rng.randint(0, 9999), "th": rng.randint(-1, 20), "void": int(rng.random() < 0.2),
               "pred": rng.choice(["ge", "lt", "name", "nid", "leaf", "isnan", "rank"]), "procs": rng.choice([1, 1, 1, 2, 3, 4]) if i % 8 == 1 else 1,
               "index": rng.choice([["node"], ["node"], ["node", "rank"], ["node", "rank", "thread"], ["node", "thread"]])}


def key(ix):
    return (id(ix[0]),) + tuple(ix[1:]) if isinstance(ix, tuple) else (id(ix),)


def rows(df):
    return sorted((key(ix), tuple(map(repr, r))) for ix, r in zip(df.index, df.values.tolist()))


def check(case):
    rng = gen.rng_for(case["ts"])
    index = tuple(case["index"])
    gf, nodes = B.build_gf(case["sp"], rng, index, nan=0.15, sort=rng.random() < 0.5)
    if case["void"]:  # rows without any value
        for k in range(len(gf.dataframe)):
            if rng.random() < 0.4:
                gf.dataframe.iloc[k] = [None if c == "name" else float("nan") for c in gf.dataframe.columns]
    gf.metadata = {"m": 1}
    th = case["th"]
    snap, d0 = B.snapshot(gf.graph.roots), p05.dfsnap(gf.dataframe)
    dobj = gf.dataframe
    g0 = gf.graph
    preds = {
        "ge": lambda r: r["time"] >= th,
        "lt": lambda r: r["time"] < th,
        "name": lambda r: str(r["name"]).endswith(("0", "2")),
        "nid": lambda r: r["node"]._hatchet_nid % 2 == 0,
        "leaf": lambda r: len(r["node"].children) == 0,
        "isnan": lambda r: bool(pd.isnull(r["time"])),
        "rank": lambda r: r.get("rank", 0) == 0 and r["time"] < th,
    }
    if case["kind"] == "callable":
        f = preds[case["pred"]]
        full = gf.dataframe.reset_index().to_dict("records")
        keep = [bool(f(r)) for r in full]
        arg, procs = f, case["procs"]
    else:
        mode = "off" if index == ("node",) else ["any", "all"][th % 2]
        agg = any if mode != "all" else all
        q = {"ge": [("*"), {"time": ">= %d" % th}], "lt": 'MATCH (p) WHERE p."time" < %d' % th}.get(case["pred"], [{"time": ">= %d" % th}])
        byn = {}
        for ix, t in zip(gf.dataframe.index, gf.dataframe["time"]):
            byn.setdefault(key(ix)[0], []).append(t)
        if case["pred"] == "lt":
            sat = {k for k, v in byn.items() if agg([x < th for x in v])}
        else:
            sat = {k for k, v in byn.items() if agg([x >= th for x in v])}
        if case["pred"] == "ge":  # any ancestors of a satisfying node (shortest runs from every start)
            anc, ch = set(sat), True
            while ch:
                ch = False
                for n in nodes:
                    if id(n) not in anc and any(id(c) in anc for c in n.children):
                        anc.add(id(n))
                        ch = True
            sat = anc
        keep = [key(ix)[0] in sat for ix in gf.dataframe.index]
        arg, procs = q, 1
    kw = {} if case["kind"] == "callable" else {"multi_index_mode": mode}
    want = sorted((key(ix), tuple(map(repr, r))) for ix, r, k in zip(gf.dataframe.index, gf.dataframe.values.tolist(), keep) if k)
    try:
        res = gf.filter(arg, squash=False, num_procs=procs, **kw)
        got = rows(res.dataframe)
        if not want:
            yield "an empty result is not reported"
        if got != want:
            yield "%d rows kept, expected %d" % (len(got), len(want))
        if list(res.dataframe.index.names) != list(index) or set(res.dataframe.columns) != set(gf.dataframe.columns):
            yield "index or columns changed"
        if res.graph is not g0:
            yield "unsquashed result has another graph"
        if (res.exc_metrics, res.inc_metrics, res.metadata) != (["time"], ["time (inc)"], {"m": 1}):
            yield "metrics or metadata lost"
        res.dataframe["time"] = -1.0
        # (equal sibling frames below shared nodes are merged in an order that depends on addresses)
        if case["kind"] == "callable" and not case["void"] and sum(map(len, case["sp"]["c"])) + len(case["sp"]["r"]) == len(nodes):
            sq = gf.filter(arg, squash=True, num_procs=1)
            if sorted(repr(x) for x in sq.dataframe["name"].unique()) != sorted({r[1][list(gf.dataframe.columns).index("name")] for r in want}):
                yield "squashed result has other nodes"
    except EmptyFilter:
        if want:
            yield "result reported empty, %d rows expected" % len(want)
    if gf.dataframe is not dobj or gf.graph is not g0 or B.snapshot(gf.graph.roots) != snap or p05.dfsnap(gf.dataframe) != d0:
        yield "filtering changed the original"
    if gf.exc_metrics != ["time"] or gf.inc_metrics != ["time (inc)"] or gf.metadata != {"m": 1}:
        yield "filtering changed the original's metrics or metadata"
